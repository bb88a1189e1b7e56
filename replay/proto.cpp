// C15 natively: every member of every protocol struct, filled and encoded one at a time through the
// real tables, compared with the members the headers declare.
#include "rep.h"
#include "dap/protocol.h"
#include "dap/serialization.h"
#include <map>
struct Ty;
struct Mem { const char* name; unsigned long off, size; const Ty* (*ty)(); };
struct Ty { const void* id; const char* name; unsigned n; const Mem* mem; bool is_struct; };
template <class T> struct Tag { static char c; };
template <class T> char Tag<T>::c;
#define TAG(T) &Tag<T>::c
template <class T> struct Of { static const Ty* ty() { static const Ty t = { TAG(T), "", 0, 0, false }; return &t; } };
#include "protocol_table.h"
namespace dap {
struct UserBase { integer a; optional<string> b; };
struct UserDerived : UserBase { boolean c; array<integer> d; };
DAP_STRUCT_TYPEINFO(UserBase, "userBase", DAP_FIELD(a, "a"), DAP_FIELD(b, "B"));
DAP_STRUCT_TYPEINFO_EXT(UserDerived, UserBase, "userDerived", DAP_FIELD(c, "c"), DAP_FIELD(d, "d"));
}
template <> struct Of<dap::UserDerived> { typedef dap::UserDerived T; static const Ty* ty() {
  static const Mem m[] = {{"a", __builtin_offsetof(T, a), sizeof(T::a), &Of<dap::integer>::ty}, {"B", __builtin_offsetof(T, b), sizeof(T::b), &Of<decltype(T::b)>::ty},
                          {"c", __builtin_offsetof(T, c), sizeof(T::c), &Of<dap::boolean>::ty}, {"d", __builtin_offsetof(T, d), sizeof(T::d), &Of<decltype(T::d)>::ty}};
  static const Ty t = { TAG(T), "UserDerived", 4, m, true }; return &t; } };
using namespace dap;
// gives a value to one top-level field (all fields further down); `fail`: refuses that field
struct FillD : Deserializer {
  int depth; const char* only; bool fail;
  std::map<std::string, int>* asked;
  FillD(int d, const char* o, bool f, std::map<std::string, int>* a) : depth(d), only(o), fail(f), asked(a) {}
  using Deserializer::deserialize; using Deserializer::field;
  bool deserialize(boolean* v) const override { *v = true; return true; }
  bool deserialize(integer* v) const override { *v = 424242; return true; }
  bool deserialize(number* v) const override { *v = 1.5; return true; }
  bool deserialize(string* v) const override { *v = "zq"; return true; }
  bool deserialize(dap::object* v) const override { (*v)["k"] = any(integer(7)); return true; }
  bool deserialize(any* v) const override { *v = string("anyzq"); return true; }
  size_t count() const override { return depth < 4 ? 1 : 0; }
  bool array(const std::function<bool(Deserializer*)>& f) const override { if (!count()) return true; FillD d(depth + 1, nullptr, false, nullptr); return f(&d); }
  bool field(const std::string& name, const std::function<bool(Deserializer*)>& f) const override {
    if (depth == 0) {
      (*asked)[name]++;
      if (name != only) return true;
      if (fail) return false;
    }
    if (depth >= 6) return true;
    FillD d(depth + 1, nullptr, false, nullptr);
    return f(&d);
  }
};
struct TreeS : Serializer {
  std::string out; std::vector<std::pair<std::string, std::string>> top; const char* failat;
  TreeS(const char* f = nullptr) : failat(f) {}
  using Serializer::serialize;
  bool serialize(boolean v) override { out = v ? "true" : "false"; return true; }
  bool serialize(integer v) override { out = "i" + std::to_string(int64_t(v)); return true; }
  bool serialize(number v) override { out = "n" + std::to_string(double(v)); return true; }
  bool serialize(const string& v) override { out = "s" + v; return true; }
  bool serialize(const dap::object& v) override { std::map<std::string, any> m(v.begin(), v.end()); std::string o = "{"; for (auto& e : m) { TreeS s; s.serialize(e.second); o += e.first + ":" + s.out + ","; } out = o + "}"; return true; }
  bool serialize(const any& v) override {
    if (v.is<string>()) out = "s" + v.get<string>(); else if (v.is<integer>()) out = "i" + std::to_string(int64_t(v.get<integer>()));
    else if (auto t = get_any_type(v)) return t->serialize(this, get_any_val(v)); else out = "none";
    return true;
  }
  bool array(size_t n, const std::function<bool(Serializer*)>& f) override { std::string o = "["; for (size_t i = 0; i < n; i++) { TreeS s; if (!f(&s)) return false; o += s.out + ","; } out = o + "]"; return true; }
  struct FS : FieldSerializer {
    TreeS* t; std::string o = "{";
    using FieldSerializer::field;
    bool field(const std::string& name, const SerializeFunc& f) override {
      TreeS s; s.out = "<nothing>";
      if (!f(&s)) return false;
      t->top.push_back({name, s.out}); o += name + ":" + s.out + ",";
      return !(t->failat && name == t->failat);
    }
  };
  bool object(const std::function<bool(FieldSerializer*)>& f) override { FS fs; fs.t = this; bool r = f(&fs); out = fs.o + "}"; return r; }
  void remove() override { out = "<removed>"; }
};
struct Obj {
  const TypeInfo* ti; std::vector<unsigned char> raw; unsigned char* p;
  Obj(const TypeInfo* t, int fill) : ti(t), raw(t->size() + 64, (unsigned char)fill) { p = raw.data(); while ((uintptr_t)p % 64) p++; if (p + t->size() > raw.data() + raw.size()) rep::fail("size"); ti->construct(p); }
  ~Obj() { ti->destruct(p); }
};
static void check(const Ty* ty, const TypeInfo* ti, size_t size) {
  rep::current = std::string("struct ") + ty->name;
  if (ti->size() != size) rep::fail("size() is %zu, not %zu", ti->size(), size);
  Obj d0(ti, 0x5a);
  TreeS s0;
  if (!ti->serialize(&s0, d0.p)) rep::fail("encoding fails");
  std::map<std::string, int> names;
  for (auto& e : s0.top) names[e.first]++;
  for (unsigned i = 0; i < ty->n; i++) if (names[ty->mem[i].name] != 1) rep::fail("member encoded as '%s' %d times", ty->mem[i].name, names[ty->mem[i].name]);
  if (names.size() != ty->n) for (auto& e : names) { bool k = false; for (unsigned i = 0; i < ty->n; i++) k |= e.first == ty->mem[i].name; if (!k) rep::fail("encodes '%s', which is no member", e.first.c_str()); }
  rep::ran(rep::current);
  for (unsigned i = 0; i < ty->n; i++) {
    const Mem& m = ty->mem[i];
    rep::current = std::string("struct ") + ty->name + " member '" + m.name + "'";
    Obj o(ti, 0x5a);
    std::vector<unsigned char> before(o.p, o.p + size);
    std::map<std::string, int> asked;
    FillD f(0, m.name, false, &asked);
    if (!ti->deserialize(&f, o.p)) rep::fail("decoding fails although every field decodes");
    for (unsigned j = 0; j < ty->n; j++) if (asked[ty->mem[j].name] != 1) rep::fail("field '%s' is decoded %d times", ty->mem[j].name, asked[ty->mem[j].name]);
    if (asked.size() != ty->n) for (auto& e : asked) { bool k = false; for (unsigned j = 0; j < ty->n; j++) k |= e.first == ty->mem[j].name; if (!k) rep::fail("decodes '%s', which is no member", e.first.c_str()); }
    for (size_t b = 0; b < size; b++) if ((b < m.off || b >= m.off + m.size) && o.p[b] != before[b]) rep::fail("decoding it changes byte %zu outside its storage [%lu, %lu)", b, m.off, m.off + m.size);
    TreeS s1;
    if (!ti->serialize(&s1, o.p)) rep::fail("encoding fails");
    std::map<std::string, std::string> a(s0.top.begin(), s0.top.end()), b(s1.top.begin(), s1.top.end());
    for (auto& e : b) {
      bool diff = a[e.first] != e.second;
      if (diff != (e.first == m.name)) rep::fail("after decoding it, '%s' is encoded as '%s' (default '%s')", e.first.c_str(), rep::esc(e.second).c_str(), rep::esc(a[e.first]).c_str());
    }
    Obj o2(ti, 0x5a);
    FillD g(0, m.name, true, &asked);
    if (ti->deserialize(&g, o2.p)) rep::fail("decoding succeeds although this field fails");
    TreeS s2(m.name);
    if (ti->serialize(&s2, o.p)) rep::fail("encoding succeeds although this field fails");
    rep::ran(rep::current);
  }
}
int main(int argc, char** argv) {
  rep::init(argc, argv);
#define CHECK(T) check(Of<dap::T>::ty(), TypeOf<dap::T>::type(), sizeof(dap::T));
  PROTOCOL_STRUCTS(CHECK)
  CHECK(UserDerived)
#define NAMED(T, W) rep::current = #T; if (TypeOf<dap::T>::type()->name() != W) rep::fail("is known as '%s', not '%s'", TypeOf<dap::T>::type()->name().c_str(), W); rep::ran(rep::current);
  PROTOCOL_NAMED(NAMED)
#define PAIR(T, R) rep::current = #T; if (!std::is_same<dap::T::Response, dap::R>::value) rep::fail("is not paired with " #R); rep::ran(rep::current);
  PROTOCOL_PAIRS(PAIR)
  rep::report();
  return 0;
}
