// Concrete histories for any / variant (C07) and optional (C08) against reference values.
#include "rep.h"
#include "dap/optional.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include <map>
#include <memory>
using namespace rep;
static std::map<const void*, int> live;
template <size_t N, size_t A, int TY> struct alignas(A) Obj {
  unsigned char b[N]; int* own = nullptr;
  static int& cnt() { static int c; return c; }
  void born() { REQUIRE(reinterpret_cast<uintptr_t>(this) % A == 0, "a value of alignment %zu was put at a misaligned address", A); REQUIRE(!live.count(this), "a value was constructed over a live one"); live[this] = TY; }
  explicit Obj(int v = 7) { born(); memset(b, v, N); own = new int(v); }
  Obj(const Obj& o) { REQUIRE(live.count(&o), "a dead value was copied"); born(); memcpy(b, o.b, N); own = new int(*o.own); }
  Obj& operator=(const Obj& o) { REQUIRE(live.count(&o) && live.count(this), "assignment with a dead value"); memcpy(b, o.b, N); *own = *o.own; return *this; }
  ~Obj() { REQUIRE(live.count(this) && live[this] == TY, "a value was destroyed twice"); live.erase(this); delete own; }
  bool is(int v) const { for (size_t i = 0; i < N; i++) if (b[i] != static_cast<unsigned char>(v)) return false; return live.count(this) && *own == v; }
};
#define TYPES(X) X(1, 1) X(1, 8) X(8, 8) X(15, 8) X(16, 8) X(17, 8) X(23, 8) X(24, 8) X(25, 8) X(31, 1) X(32, 8) X(40, 8) X(100, 4) X(1000, 8) X(8, 16) X(16, 16) X(40, 16) X(8, 32) X(64, 64)
#define DECL(n, a) typedef Obj<n, a, n * 1000 + a> O_##n##_##a;
TYPES(DECL)
namespace dap {
template <class T> struct RTI : TypeInfo {
  std::string name() const override { return "obj"; }
  size_t size() const override { return sizeof(T); }
  size_t alignment() const override { return alignof(T); }
  void construct(void* p) const override { new (p) T(); }
  void copyConstruct(void* d, const void* s) const override { new (d) T(*static_cast<const T*>(s)); }
  void destruct(void* p) const override { static_cast<T*>(p)->~T(); }
  bool deserialize(const Deserializer*, void*) const override { return false; }
  bool serialize(Serializer*, const void*) const override { return false; }
};
#define TYO(n, a) template <> struct TypeOf<O_##n##_##a> { static const TypeInfo* type() { static RTI<O_##n##_##a> t; return &t; } };
TYPES(TYO)
}
struct Kind { std::string name; std::function<void(dap::any&, int)> set; std::function<void(void*, int)> make; std::function<bool(const dap::any&)> is; std::function<bool(const dap::any&, int)> holds; std::function<void(dap::any&, int)> poke; };
static std::vector<Kind> kinds;
template <class T> void kind(const std::string& n, std::function<T(int)> mk, std::function<bool(const T&, int)> eq) {
  Kind k; k.name = n;
  k.set = [=](dap::any& a, int v) { T x = mk(v); a = x; };
  k.make = [=](void* at, int v) { T x = mk(v); new (at) dap::any(x); };
  k.is = [](const dap::any& a) { return a.is<T>(); };
  k.holds = [=](const dap::any& a, int v) { return eq(a.get<T>(), v); };
  k.poke = [=](dap::any& a, int v) { a.get<T>() = mk(v); };
  kinds.push_back(k);
}
struct S { std::unique_ptr<unsigned char[]> raw; dap::any* a = nullptr; int k = -1; int v = 0; bool known = true; };
static void observe(const S& s, const char* who) {
  if (!s.known) { return; }
  REQUIRE(s.a->is<dap::null>() == (s.k < 0), "%s: is<null>() is %d but it should hold %s", who, s.a->is<dap::null>(), s.k < 0 ? "nothing" : kinds[s.k].name.c_str());
  for (size_t i = 0; i < kinds.size(); i++)
    REQUIRE(kinds[i].is(*s.a) == (static_cast<int>(i) == s.k), "%s: is<%s>() is %d", who, kinds[i].name.c_str(), kinds[i].is(*s.a));
  if (s.k >= 0) REQUIRE(kinds[s.k].holds(*s.a, s.v), "%s does not hold the %s value last stored", who, kinds[s.k].name.c_str());
}
static void anys(Rng& r) {
  size_t l0 = live.size();
  {
    S s[3]; std::string hist;
    for (int i = 0; i < 3; i++) {
      size_t shift = 8 * r.below(8);
      s[i].raw.reset(new unsigned char[sizeof(dap::any) + shift]); void* at = s[i].raw.get() + shift; s[i].a = static_cast<dap::any*>(at);
      if (r.below(3)) { s[i].k = static_cast<int>(r.below(kinds.size())); s[i].v = static_cast<int>(r.below(100)); kinds[s[i].k].make(at, s[i].v); hist += " new " + kinds[s[i].k].name; }
      else { new (at) dap::any(); hist += " new null"; }
    }
    size_t n = 1 + r.below(8);
    for (size_t step = 0; step < n; step++) {
      int i = static_cast<int>(r.below(3)), j = static_cast<int>(r.below(3)), k = static_cast<int>(r.below(kinds.size())), v = static_cast<int>(r.below(100));
      int op = static_cast<int>(r.below(8));
      std::string d = std::to_string(i) + (op == 0 ? "=copy of " : op == 1 ? "=move of " : op == 2 ? ".reset " : op == 3 ? "=null " : op == 4 ? "=" + kinds[k].name : op == 5 ? " rebuilt from copy of " : op == 6 ? " rebuilt from move of " : ".get changed ") + std::to_string(j);
      hist += "; " + d; current = "any:" + hist;
      if (op == 0) { *s[i].a = *s[j].a; s[i].k = s[j].k; s[i].v = s[j].v; s[i].known = s[j].known; }
      else if (op == 1) { *s[i].a = std::move(*s[j].a); if (i != j) { s[i].k = s[j].k; s[i].v = s[j].v; s[i].known = s[j].known; s[j].known = false; } }
      else if (op == 2) { s[i].a->reset(); s[i].k = -1; s[i].known = true; }
      else if (op == 3) { *s[i].a = nullptr; s[i].k = -1; s[i].known = true; }
      else if (op == 4) { kinds[k].set(*s[i].a, v); s[i].k = k; s[i].v = v; s[i].known = true; }
      else if (op == 5 || op == 6) {
        if (i == j) continue;
        s[i].a->~any(); memset(static_cast<void*>(s[i].a), 0xcd, sizeof(dap::any));
        if (op == 5) new (s[i].a) dap::any(*s[j].a); else new (s[i].a) dap::any(std::move(*s[j].a));
        s[i].k = s[j].k; s[i].v = s[j].v; s[i].known = s[j].known; if (op == 6) s[j].known = false;
      } else if (s[i].known && s[i].k >= 0) { kinds[s[i].k].poke(*s[i].a, v); s[i].v = v; }
      observe(s[0], "any 0"); observe(s[1], "any 1"); observe(s[2], "any 2");
    }
    for (auto& x : s) x.a->~any();
    ran(current);
  }
  REQUIRE(live.size() == l0, "%zu values were never destroyed", live.size() - l0);
}
template <class V, class A, class B> static void variants(Rng& r, std::function<A(int)> ma, std::function<B(int)> mb, std::function<bool(const A&, int)> ea, std::function<bool(const B&, int)> eb) {
  size_t l0 = live.size();
  {
    int k[2], v[2] = {3, 4}; bool known[2] = {true, true};
    std::unique_ptr<V> x[2];
    for (int i = 0; i < 2; i++) { k[i] = static_cast<int>(r.below(2)); if (k[i]) x[i].reset(new V(mb(v[i]))); else x[i].reset(new V(ma(v[i]))); }
    current = "variant:";
    for (size_t n = r.below(6); n > 0; n--) {
      int i = static_cast<int>(r.below(2)), j = static_cast<int>(r.below(2)), op = static_cast<int>(r.below(6)), w = static_cast<int>(r.below(100));
      current += " op" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
      if (op == 0) { A a = ma(w); *x[i] = a; k[i] = 0; v[i] = w; known[i] = true; }
      else if (op == 1) { B b = mb(w); *x[i] = b; k[i] = 1; v[i] = w; known[i] = true; }
      else if (op == 2) { *x[i] = *x[j]; k[i] = k[j]; v[i] = v[j]; known[i] = known[j]; }
      else if (op == 3) { *x[i] = std::move(*x[j]); if (i != j) { k[i] = k[j]; v[i] = v[j]; known[i] = known[j]; known[j] = false; } }
      else if (op == 4) { if (i != j) { x[i].reset(new V(*x[j])); k[i] = k[j]; v[i] = v[j]; known[i] = known[j]; } }
      else if (i != j) { x[i].reset(new V(std::move(*x[j]))); k[i] = k[j]; v[i] = v[j]; known[i] = known[j]; known[j] = false; }
      for (int q = 0; q < 2; q++) if (known[q]) {
        REQUIRE(x[q]->template is<A>() == (k[q] == 0) && x[q]->template is<B>() == (k[q] == 1), "variant %d reports the wrong type", q);
        REQUIRE(k[q] ? eb(x[q]->template get<B>(), v[q]) : ea(x[q]->template get<A>(), v[q]), "variant %d holds another value", q);
      }
    }
    V d; REQUIRE(d.template is<A>(), "a default variant is not of the first type");
    ran(current);
  }
  REQUIRE(live.size() == l0, "%zu values were never destroyed", live.size() - l0);
}
template <class T> static void optionals(Rng& r, const char* tn, std::function<T(int)> mk) {
  typedef dap::optional<T> O;
  std::vector<std::unique_ptr<O>> o; int set[3], val[3]; bool known[3];
  for (int i = 0; i < 3; i++) { set[i] = r.below(2); val[i] = static_cast<int>(r.below(4)); known[i] = true; o.emplace_back(set[i] ? new O(mk(val[i])) : new O()); }
  current = std::string("optional<") + tn + ">:";
  for (size_t n = r.below(7); n > 0; n--) {
    int i = static_cast<int>(r.below(3)), j = static_cast<int>(r.below(3)), op = static_cast<int>(r.below(8)), w = static_cast<int>(r.below(4));
    current += " op" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(w) + ")";
    if (op == 0) { *o[i] = *o[j]; set[i] = set[j]; val[i] = val[j]; known[i] = known[j]; }
    else if (op == 1) { if (i == j) continue; *o[i] = std::move(*o[j]); set[i] = set[j]; val[i] = val[j]; known[i] = known[j]; known[j] = false; }
    else if (op == 2) { T t = mk(w); *o[i] = t; REQUIRE(t == mk(w), "assignment changed its source"); set[i] = 1; val[i] = w; known[i] = true; }
    else if (op == 3) { *o[i] = mk(w); set[i] = 1; val[i] = w; known[i] = true; }
    else if (op == 4) { *o[i] = O(); set[i] = 0; known[i] = true; }
    else if (op == 5) { if (i == j) continue; o[i].reset(new O(*o[j])); set[i] = set[j]; val[i] = val[j]; known[i] = known[j]; }
    else if (op == 6) { if (i == j) continue; o[i].reset(new O(std::move(*o[j]))); set[i] = set[j]; val[i] = val[j]; known[i] = known[j]; known[j] = false; }
    else if (known[i] && set[i]) { o[i]->value() = mk(w); val[i] = w; }
    for (int q = 0; q < 3; q++) if (known[q]) {
      const O& c = *o[q];
      REQUIRE(c.has_value() == !!set[q] && static_cast<bool>(c) == !!set[q], "optional %d: has_value is %d", q, c.has_value());
      if (set[q]) REQUIRE(c.value() == mk(val[q]) && *c == mk(val[q]) && *o[q]->operator->() == mk(val[q]), "optional %d holds another value", q);
      T dflt = mk(9);
      REQUIRE(c.value(dflt) == mk(set[q] ? val[q] : 9), "value(default) of optional %d is wrong", q);
      for (int p = 0; p < 3; p++) if (known[p]) {
        const O& d = *o[p];
        int x = set[q] ? val[q] : -1, y = set[p] ? val[p] : -1;
        REQUIRE((c == d) == (x == y) && (c != d) == (x != y), "equality of optionals %d and %d is wrong (%d, %d; -1 is empty)", q, p, x, y);
        REQUIRE((c < d) == (x < y) && (c <= d) == (x <= y) && (c > d) == (x > y) && (c >= d) == (x >= y), "order of optionals %d and %d is wrong (%d, %d; -1 is empty)", q, p, x, y);
      }
    }
  }
  ran(current);
}
static std::string sv(int v) { return v % 2 ? std::string(1, static_cast<char>('a' + v / 26)) + static_cast<char>('a' + v % 26) : std::string(50, static_cast<char>('a' + v / 26)) + static_cast<char>('a' + v % 26); }
static std::string so(int v) { return std::string(static_cast<size_t>(30), static_cast<char>('a' + v)); }
int main(int argc, char** argv) {
  init(argc, argv);
#define ADD(n, a) kind<O_##n##_##a>("obj" #n "align" #a, [](int v) { return O_##n##_##a(v); }, [](const O_##n##_##a& o, int v) { return o.is(v); });
  TYPES(ADD)
  kind<dap::integer>("integer", [](int v) { return dap::integer(v); }, [](const dap::integer& x, int v) { return x == v; });
  kind<dap::boolean>("boolean", [](int v) { return dap::boolean(v & 1); }, [](const dap::boolean& x, int v) { return x == !!(v & 1); });
  kind<dap::number>("number", [](int v) { return dap::number(v / 4.0); }, [](const dap::number& x, int v) { return x == v / 4.0; });
  kind<dap::string>("string", [](int v) { return sv(v); }, [](const dap::string& x, int v) { return x == sv(v); });
  kind<dap::array<dap::any>>("array", [](int v) { dap::array<dap::any> a; a.push_back(dap::any(sv(v))); a.push_back(dap::any(dap::integer(v))); return a; }, [](const dap::array<dap::any>& x, int v) { return x.size() == 2 && x[0].get<dap::string>() == sv(v) && x[1].get<dap::integer>() == v; });
  kind<dap::object>("object", [](int v) { dap::object o; o[sv(v)] = dap::any(dap::integer(v)); return o; }, [](const dap::object& x, int v) { auto i = x.find(sv(v)); return x.size() == 1 && i != x.end() && i->second.get<dap::integer>() == v; });
  for (uint64_t i = 0; !out_of_time(); i++) {
    Rng r = rng(i); r.next();
    if (prop == "C07") {
      anys(r); anys(r);
      variants<dap::variant<dap::string, dap::object>, dap::string, dap::object>(r, sv, [](int v) { dap::object o; o[sv(v)] = dap::any(dap::integer(v)); return o; },
        [](const dap::string& x, int v) { return x == sv(v); }, [](const dap::object& x, int v) { auto f = x.find(sv(v)); return x.size() == 1 && f != x.end() && f->second.get<dap::integer>() == v; });
      variants<dap::variant<O_8_8, O_100_4>, O_8_8, O_100_4>(r, [](int v) { return O_8_8(v); }, [](int v) { return O_100_4(v); }, [](const O_8_8& x, int v) { return x.is(v); }, [](const O_100_4& x, int v) { return x.is(v); });
    } else {
      optionals<int>(r, "int", [](int v) { return v; });
      optionals<std::string>(r, "string", so);
      optionals<dap::integer>(r, "integer", [](int v) { return dap::integer(v); });
      optionals<std::vector<int>>(r, "vector", [](int v) { return std::vector<int>(2, v); });
      { dap::optional<int> a; if (r.below(2)) a = 3; dap::optional<std::string> b; if (r.below(2)) b = std::string("q"); dap::optional<long> c(a); dap::optional<long> d(std::move(a));
        current = "optional<long> from optional<int>"; REQUIRE(c.has_value() == a.has_value() && d.has_value() == c.has_value() && c.value(9) == (c ? 3 : 9) && d.value(9) == c.value(9), "conversion changes the value"); ran(current); }
    }
  }
  return done();
}
