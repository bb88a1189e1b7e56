// C13, C14 on the real backends: random documents decoded as every type against an independent
// reading of the document; random values encoded, read back by an independent JSON reader and by
// the backend itself. Compiled once per backend.
#include "rep.h"
#include <signal.h>
#include <math.h>
#include <memory>
#include "dap/protocol.h"
#include "dap/serialization.h"
#include "dap/typeof.h"
#include "json_serializer.h"
using namespace rep;
typedef dap::json::Deserializer D;
typedef dap::json::Serializer S;
// ---- documents ------------------------------------------------------------------------------------
struct J {
  enum K { Null, Bool, Int, Big, Dbl, Str, Arr, Obj } k = Null;
  bool b = false; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s;
  std::vector<J> a; std::vector<std::pair<std::string, J>> o;
  const J* get(const std::string& n) const { for (auto& p : o) if (p.first == n) return &p.second; return nullptr; }
};
static bool eqd(double a, double b) { return a == b || fabs(a - b) <= 1e-15 * fabs(a); }
static bool eq(const J& x, const J& y) {
  if (x.k != y.k) return false;
  switch (x.k) {
    case J::Null: return true;
    case J::Bool: return x.b == y.b;
    case J::Int: return x.i == y.i;
    case J::Big: return x.u == y.u;
    case J::Dbl: return eqd(x.d, y.d);
    case J::Str: return x.s == y.s;
    case J::Arr: if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); i++) if (!eq(x.a[i], y.a[i])) return false; return true;
    case J::Obj: if (x.o.size() != y.o.size()) return false; for (auto& p : x.o) { const J* q = y.get(p.first); if (!q || !eq(p.second, *q)) return false; } return true;
  }
  return false;
}
static std::string str(Rng& r) {
  static const char* pool[] = {"", "a", "b", "id", "name", "\"", "\\", "/", "\n", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "long string with several words in it", " "};
  std::string s;
  for (size_t n = r.below(4); n > 0; n--) { if (!r.below(8)) s += '\0'; else s += pool[r.below(sizeof pool / sizeof *pool)]; }
  return s;
}
static int64_t num(Rng& r) {
  switch (r.below(8)) {
    case 0: return 0; case 1: return static_cast<int64_t>(r.below(10)) - 5; case 2: return INT64_MAX - static_cast<int64_t>(r.below(3)); case 3: return INT64_MIN + static_cast<int64_t>(r.below(3));
    case 4: return INT32_MAX + static_cast<int64_t>(r.below(4)) - 1; case 5: return INT32_MIN + static_cast<int64_t>(r.below(4)) - 2; case 6: return UINT32_MAX + static_cast<int64_t>(r.below(4)) - 1;
    default: return static_cast<int64_t>(r.next());
  }
}
static double dbl(Rng& r) {
  switch (r.below(6)) { case 0: return 1.5; case 1: return -0.25; case 2: return 2.0; case 3: return 1e300; case 4: return static_cast<double>(r.next()) / 3.0; default: return 5e-7; }
}
static J gen(Rng& r, int depth) {
  J j;
  switch (r.below(depth > 0 ? 9 : 6)) {
    case 0: break;
    case 1: j.k = J::Bool; j.b = r.below(2); break;
    case 2: j.k = J::Int; j.i = num(r); break;
    case 3: if (r.below(3)) { j.k = J::Int; j.i = num(r); } else { j.k = J::Big; j.u = (1ull << 63) + r.below(3) * ((1ull << 62) - 1); } break;
    case 4: j.k = J::Dbl; j.d = dbl(r); break;
    case 5: j.k = J::Str; j.s = str(r); break;
    case 6: j.k = J::Arr; for (size_t n = r.below(4); n > 0; n--) j.a.push_back(gen(r, depth - 1)); break;
    default: {
      static const char* names[] = {"a", "b", "c", "d", "x", ""};
      j.k = J::Obj;
      for (size_t n = r.below(6); n > 0; n--) { std::string k = r.below(3) ? std::string(names[r.below(6)]) : str(r); if (!j.get(k)) j.o.emplace_back(k, gen(r, depth - 1)); }
    }
  }
  return j;
}
static std::string q(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); } else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += static_cast<char>(c); }
  return o + "\"";
}
static std::string text(const J& j) {
  char b[64];
  switch (j.k) {
    case J::Null: return "null";
    case J::Bool: return j.b ? "true" : "false";
    case J::Int: return std::to_string(j.i);
    case J::Big: return std::to_string(j.u);
    case J::Dbl: snprintf(b, sizeof b, "%.17g", j.d); if (!strpbrk(b, ".e")) strcat(b, ".0"); return b;
    case J::Str: return q(j.s);
    case J::Arr: { std::string o = "["; for (size_t i = 0; i < j.a.size(); i++) o += (i ? "," : "") + text(j.a[i]); return o + "]"; }
    case J::Obj: { std::string o = "{"; for (size_t i = 0; i < j.o.size(); i++) o += (i ? ", " : "") + q(j.o[i].first) + ":" + text(j.o[i].second); return o + "}"; }
  }
  return "";
}
// an independent reader
struct P {
  const std::string& t; size_t p = 0; bool ok = true;
  void ws() { while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p]) p++; }
  bool lit(const char* s) { size_t n = strlen(s); if (p < t.size() && t.compare(p, n, s) == 0) { p += n; return true; } return false; }
  static void utf8(std::string& o, unsigned c) {
    if (c < 0x80) o += static_cast<char>(c);
    else if (c < 0x800) { o += static_cast<char>(0xc0 | c >> 6); o += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += static_cast<char>(0xe0 | c >> 12); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
    else { o += static_cast<char>(0xf0 | c >> 18); o += static_cast<char>(0x80 | (c >> 12 & 63)); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
  }
  std::string s() {
    std::string o;
    if (p >= t.size() || t[p] != '"') { ok = false; return o; }
    p++;
    while (p < t.size() && t[p] != '"') {
      if (static_cast<unsigned char>(t[p]) < 32) ok = false;
      if (t[p] != '\\') { o += t[p++]; continue; }
      p++; char c = p < t.size() ? t[p++] : 0;
      if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == 'r') o += '\r'; else if (c == 'b') o += '\b'; else if (c == 'f') o += '\f';
      else if (c == 'u') { unsigned h = static_cast<unsigned>(strtoul(t.substr(p < t.size() ? p : t.size(), 4).c_str(), nullptr, 16)); p += 4; if (h >= 0xd800 && h < 0xdc00 && lit("\\u")) { unsigned l = static_cast<unsigned>(strtoul(t.substr(p < t.size() ? p : t.size(), 4).c_str(), nullptr, 16)); p += 4; h = 0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00); } utf8(o, h); }
      else o += c;
    }
    if (p >= t.size()) ok = false;
    p++;
    return o;
  }
  J v() {
    J j; ws();
    if (lit("null")) return j;
    if (lit("true")) { j.k = J::Bool; j.b = true; return j; }
    if (lit("false")) { j.k = J::Bool; return j; }
    if (p < t.size() && t[p] == '"') { j.k = J::Str; j.s = s(); return j; }
    if (lit("[")) { j.k = J::Arr; ws(); if (lit("]")) return j; do j.a.push_back(v()); while (ok && (ws(), lit(","))); ws(); if (!lit("]")) ok = false; return j; }
    if (lit("{")) { j.k = J::Obj; ws(); if (lit("}")) return j; do { ws(); std::string k = s(); ws(); if (!lit(":")) ok = false; if (j.get(k)) ok = false; j.o.emplace_back(k, v()); } while (ok && (ws(), lit(","))); ws(); if (!lit("}")) ok = false; return j; }
    size_t e = p; bool f = false;
    while (e < t.size() && strchr("+-0123456789.eE", t[e]) && t[e]) { if (strchr(".eE", t[e])) f = true; e++; }
    if (e == p) { ok = false; return j; }
    std::string n = t.substr(p, e - p); p = e;
    if (f) { j.k = J::Dbl; j.d = strtod(n.c_str(), nullptr); }
    else if (n[0] != '-' && strtoull(n.c_str(), nullptr, 10) > static_cast<uint64_t>(INT64_MAX)) { j.k = J::Big; j.u = strtoull(n.c_str(), nullptr, 10); }
    else { j.k = J::Int; j.i = strtoll(n.c_str(), nullptr, 10); }
    return j;
  }
};
static bool read(const std::string& t, J* j) { P p{t}; *j = p.v(); p.ws(); return p.ok && p.p == t.size(); }
// ---- decoded values against the document ------------------------------------------------------------
static bool decodable(const J& j) {   // an any can hold it
  if (j.k == J::Big) return false;
  for (auto& x : j.a) if (!decodable(x)) return false;
  for (auto& x : j.o) if (!decodable(x.second)) return false;
  return true;
}
static bool same(const J& j, const dap::any& v);
static bool same(const J& j, const dap::object& o) {
  if (j.k != J::Obj || o.size() != j.o.size()) return false;
  for (auto& p : j.o) { auto it = o.find(p.first); if (it == o.end() || !same(p.second, it->second)) return false; }
  return true;
}
static bool same(const J& j, const dap::array<dap::any>& a) {
  if (j.k != J::Arr || a.size() != j.a.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!same(j.a[i], a[i])) return false;
  return true;
}
static bool same(const J& j, const dap::any& v) {
  switch (j.k) {
    case J::Null: return v.is<dap::null>();
    case J::Bool: return v.is<dap::boolean>() && v.get<dap::boolean>() == j.b;
    case J::Int: return v.is<dap::integer>() && v.get<dap::integer>() == j.i;
    case J::Dbl: return v.is<dap::number>() && eqd(v.get<dap::number>(), j.d);
    case J::Str: return v.is<dap::string>() && v.get<dap::string>() == j.s;
    case J::Arr: return v.is<dap::array<dap::any>>() && same(j, v.get<dap::array<dap::any>>());
    case J::Obj: return v.is<dap::object>() && same(j, v.get<dap::object>());
    default: return false;
  }
}
namespace dap {
struct In { integer a; optional<string> b; };
DAP_STRUCT_TYPEINFO(In, "In", DAP_FIELD(a, "a"), DAP_FIELD(b, "b"));
struct Out { string a; array<In> b; optional<In> c; optional<array<integer>> d; any x; };
DAP_STRUCT_TYPEINFO(Out, "Out", DAP_FIELD(a, "a"), DAP_FIELD(b, "b"), DAP_FIELD(c, "c"), DAP_FIELD(d, "d"), DAP_FIELD(x, "x"));
struct Opt { optional<integer> a; optional<boolean> b; optional<number> c; optional<object> d; };
DAP_STRUCT_TYPEINFO(Opt, "Opt", DAP_FIELD(a, "a"), DAP_FIELD(b, "b"), DAP_FIELD(c, "c"), DAP_FIELD(d, "d"));
}
static bool dec(const J& j, const dap::integer& v) { return j.k == J::Int && v == j.i; }
static bool dec(const J& j, const dap::boolean& v) { return j.k == J::Bool && v == j.b; }
static bool dec(const J& j, const dap::number& v) { return (j.k == J::Dbl && eqd(j.d, v)) || (j.k == J::Int && v == static_cast<double>(j.i)) || (j.k == J::Big && v == static_cast<double>(j.u)); }
static bool dec(const J& j, const dap::string& v) { return j.k == J::Str && v == j.s; }
static bool dec(const J& j, const dap::object& v) { return same(j, v); }
static bool dec(const J& j, const dap::any& v) { return same(j, v); }
template <class T> static bool can(const J& j);
template <> bool can<dap::integer>(const J& j) { return j.k == J::Int; }
template <> bool can<dap::boolean>(const J& j) { return j.k == J::Bool; }
template <> bool can<dap::number>(const J& j) { return j.k == J::Int || j.k == J::Big || j.k == J::Dbl; }
template <> bool can<dap::string>(const J& j) { return j.k == J::Str; }
template <> bool can<dap::object>(const J& j) { return j.k == J::Obj && decodable(j); }
template <> bool can<dap::any>(const J& j) { return decodable(j); }
template <> bool can<dap::In>(const J& j) { return j.k == J::Obj && j.get("a") && can<dap::integer>(*j.get("a")); }
template <> bool can<dap::Opt>(const J& j) { return j.k == J::Obj; }
template <class T> static bool canarr(const J& j) { if (j.k != J::Arr) return false; for (auto& x : j.a) if (!can<T>(x)) return false; return true; }
template <> bool can<dap::Out>(const J& j) { return j.k == J::Obj && j.get("a") && can<dap::string>(*j.get("a")) && j.get("b") && canarr<dap::In>(*j.get("b")) && j.get("x") && decodable(*j.get("x")); }
template <class T> static bool decopt(const J* j, const dap::optional<T>& v) { return j && can<T>(*j) ? v.has_value() && dec(*j, v.value()) : !v.has_value(); }
static bool dec(const J& j, const dap::In& v) { return dec(*j.get("a"), v.a) && decopt(j.get("b"), v.b); }
static bool dec(const J& j, const dap::Opt& v) { return decopt(j.get("a"), v.a) && decopt(j.get("b"), v.b) && decopt(j.get("c"), v.c) && decopt(j.get("d"), v.d); }
template <class T> static bool decarr(const J& j, const dap::array<T>& v) { if (v.size() != j.a.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!dec(j.a[i], v[i])) return false; return true; }
static bool dec(const J& j, const dap::Out& v) {
  const J* d = j.get("d");
  return dec(*j.get("a"), v.a) && decarr(*j.get("b"), v.b) && decopt(j.get("c"), v.c) && dec(*j.get("x"), v.x) &&
         (d && canarr<dap::integer>(*d) ? v.d.has_value() && decarr(*d, v.d.value()) : !v.d.has_value());
}
static bool lenient(const J& j) {   // a whole number written with a point may be taken for an integer
  if (j.k == J::Dbl && j.d == floor(j.d)) return true;
  for (auto& x : j.a) if (lenient(x)) return true;
  for (auto& x : j.o) if (lenient(x.second)) return true;
  return false;
}
template <class T> static void one(const J& j, const D& d, const char* tn) {
  T v;
  bool r = d.deserialize(&v), want = can<T>(j);
  REQUIRE(r == want, "decoding as %s %s", tn, r ? "succeeded" : "failed");
  if (r) REQUIRE(dec(j, v), "decoding as %s gives another value", tn);
  dap::optional<T> o;
  REQUIRE(d.deserialize(&o), "decoding as optional %s failed", tn);
  REQUIRE(o.has_value() == want && (!want || dec(j, o.value())), "decoding as optional %s gives another value", tn);
}
template <class T> static void arr(const J& j, const D& d, const char* tn) {
  dap::array<T> v;
  bool r = d.deserialize(&v), want = canarr<T>(j);
  REQUIRE(r == want, "decoding as array of %s %s", tn, r ? "succeeded" : "failed");
  if (r) REQUIRE(decarr(j, v), "decoding as array of %s gives another value", tn);
}
static void decode(Rng& r) {
  J j = gen(r, 3);
  if (!r.below(4)) {   // something like the structs
    j = J(); j.k = J::Obj;
    const char* n[] = {"a", "b", "c", "d", "x", "y"};
    for (auto s : n) if (r.below(8)) {
      J x = gen(r, 2);
      if (r.below(3)) {
        bool str = !strcmp(s, "a") && r.below(2);
        if (!strcmp(s, "b")) { x = J(); x.k = J::Arr; for (size_t k = r.below(3); k > 0; k--) { J y; y.k = J::Obj; J z; z.k = J::Int; z.i = num(r); if (r.below(8)) y.o.emplace_back("a", z); if (r.below(2)) { J w; w.k = J::Str; w.s = "q"; y.o.emplace_back("b", w); } x.a.push_back(y); } }
        else if (str) { x = J(); x.k = J::Str; x.s = "s"; }
        else if (!strcmp(s, "a")) { x = J(); x.k = J::Int; x.i = num(r); }
      }
      j.o.emplace_back(s, x);
    }
  }
  std::string t = text(j);
  current = t;
  if (lenient(j)) return;
  D d(t);
  one<dap::boolean>(j, d, "boolean"); one<dap::integer>(j, d, "integer"); one<dap::number>(j, d, "number"); one<dap::string>(j, d, "string");
  one<dap::object>(j, d, "object"); one<dap::any>(j, d, "any"); one<dap::In>(j, d, "struct"); one<dap::Opt>(j, d, "struct of optionals"); one<dap::Out>(j, d, "struct of structs");
  arr<dap::integer>(j, d, "integer"); arr<dap::string>(j, d, "string"); arr<dap::any>(j, d, "any"); arr<dap::In>(j, d, "struct"); arr<dap::Opt>(j, d, "struct of optionals");
  // the interface itself
  size_t calls = 0;
  std::vector<dap::any> seen;
  bool ok = d.array([&](dap::Deserializer* e) { calls++; dap::any v; if (e->deserialize(&v)) seen.push_back(v); else seen.push_back(dap::any()); return true; });
  REQUIRE(ok == (j.k == J::Arr) && calls == j.a.size(), "array() %s after %zu elements", ok ? "succeeds" : "fails", calls);
  if (ok) REQUIRE(d.count() == j.a.size(), "count() is %zu", d.count());
  size_t stop = r.below(4); calls = 0;
  ok = d.array([&](dap::Deserializer*) { return calls++ != stop; });
  if (j.k == J::Arr) REQUIRE(ok == (j.a.size() <= stop) && calls == (ok ? j.a.size() : stop + 1), "array() with a refused element %zu: %d after %zu", stop, ok, calls);
  for (auto& p : j.o) {
    calls = 0; dap::any v; bool got = false;
    ok = d.field(p.first, [&](dap::Deserializer* e) { calls++; got = e->deserialize(&v); return true; });
    REQUIRE(ok && calls == 1, "field \"%s\" is not offered once", esc(p.first).c_str());
    REQUIRE(got == decodable(p.second) && (!got || same(p.second, v)), "field \"%s\" has another value", esc(p.first).c_str());
    REQUIRE(!d.field(p.first, [&](dap::Deserializer*) { return false; }), "a refused field is accepted");
    std::string other = p.first + std::string(1, '\0') + "x";
    if (!j.get(other)) { calls = 0; d.field(other, [&](dap::Deserializer* e) { dap::any w; if (e->deserialize(&w)) calls++; return true; }); REQUIRE(!calls, "field \"%s\" is found", esc(other).c_str()); }
  }
  if (j.k != J::Obj) REQUIRE(!d.field("a", [&](dap::Deserializer*) { return true; }), "a field of a document that is no object is found");
  else if (!j.get("zz")) {
    dap::integer zi; dap::optional<dap::integer> zo; dap::any za;
    REQUIRE(!static_cast<const dap::Deserializer&>(d).field("zz", &zi), "a missing field is decoded");
    REQUIRE(!static_cast<const dap::Deserializer&>(d).field("zz", &za), "a missing field is decoded");
    REQUIRE(static_cast<const dap::Deserializer&>(d).field("zz", &zo) && !zo.has_value(), "a missing optional field fails or is given a value");
  }
  ran(t);
}
static void garbage(Rng& r) {
  std::string t = text(gen(r, 3));
  for (size_t n = 1 + r.below(3); n > 0 && !t.empty(); n--) { size_t at = r.below(t.size()); if (r.below(2)) t.erase(at, 1 + r.below(3)); else t[at] = "{}[]\",:0-.eE\\ntf\x00\x80\xff"[r.below(19)]; }
  if (!r.below(50)) { t.clear(); for (size_t n = r.below(6000); n > 0; n--) t += r.below(2) ? "[" : "{\"a\":"; }
  J j;
  if (read(t, &j)) return;
  current = "not JSON: " + t;
  D d(t);
  dap::integer i; dap::string s; dap::object o; dap::any a; dap::In in; dap::array<dap::any> ar;
  d.deserialize(&i); d.deserialize(&s); d.deserialize(&o); d.deserialize(&a); d.deserialize(&in); d.deserialize(&ar);
  ran(current);
}
// ---- values -----------------------------------------------------------------------------------------
static dap::any make(const J& j, Rng& r) {
  switch (j.k) {
    case J::Bool: return dap::boolean(j.b);
    case J::Int: return dap::integer(j.i);
    case J::Dbl: return dap::number(j.d);
    case J::Str: return dap::string(j.s);
    case J::Arr: { dap::array<dap::any> a; for (auto& x : j.a) a.push_back(make(x, r)); return a; }
    case J::Obj: { dap::object o; for (auto& p : j.o) o[p.first] = make(p.second, r); return o; }
    default: return dap::any();
  }
}
template <class T> static void round(const J& want, const T& v, const char* what, bool again, Rng& r) {
  S s;
  if (again) { J o = gen(r, 2); if (decodable(o)) { current += " (over " + text(o) + ")"; dap::any x = make(o, r); REQUIRE(s.serialize(x), "encoding any fails"); } }
  REQUIRE(s.serialize(v), "encoding %s fails", what);
  std::string t = s.dump();
  J got;
  REQUIRE(read(t, &got), "%s is encoded as text that is not JSON: %s", what, esc(t).c_str());
  REQUIRE(eq(want, got), "%s is encoded as %s", what, esc(t).c_str());
  D d(t);
  T w;
  REQUIRE(d.deserialize(&w), "decoding the encoded %s fails", what);
  S s2;
  REQUIRE(s2.serialize(w), "encoding the decoded %s fails", what);
  REQUIRE(read(s2.dump(), &got) && eq(want, got), "%s comes back as %s", what, esc(s2.dump()).c_str());
}
static void encode(Rng& r) {
  J j; do j = gen(r, 4); while (!decodable(j));
  bool again = !r.below(4);
  current = text(j);
  round<dap::any>(j, make(j, r), "any", again, r);
  if (j.k == J::Obj) round<dap::object>(j, make(j, r).get<dap::object>(), "object", again, r);
  if (j.k == J::Arr) round<dap::array<dap::any>>(j, make(j, r).get<dap::array<dap::any>>(), "array", again, r);
  if (j.k == J::Str) round<dap::string>(j, j.s, "string", again, r);
  if (j.k == J::Int) round<dap::integer>(j, j.i, "integer", again, r);
  if (j.k == J::Dbl) round<dap::number>(j, j.d, "number", again, r);
  if (j.k == J::Bool) round<dap::boolean>(j, j.b, "boolean", again, r);
  ran(current);
  // structs, optionals, variants, nested in each other
  auto in = [&](J* o) { dap::In v; v.a = num(r); J a; a.k = J::Int; a.i = v.a; o->k = J::Obj; o->o.emplace_back("a", a); if (r.below(2)) { J b; b.k = J::Str; b.s = str(r); v.b = b.s; o->o.emplace_back("b", b); } return v; };
  { dap::Out v; J o; o.k = J::Obj; J a; a.k = J::Str; a.s = str(r); v.a = a.s; o.o.emplace_back("a", a);
    J b; b.k = J::Arr; for (size_t n = r.below(4); n > 0; n--) { J e; v.b.push_back(in(&e)); b.a.push_back(e); } o.o.emplace_back("b", b);
    if (r.below(2)) { J e; v.c = in(&e); o.o.emplace_back("c", e); }
    if (r.below(2)) { J e; e.k = J::Arr; dap::array<dap::integer> ia; for (size_t n = r.below(3); n > 0; n--) { J x; x.k = J::Int; x.i = num(r); ia.push_back(x.i); e.a.push_back(x); } v.d = ia; o.o.emplace_back("d", e); }
    v.x = make(j, r); o.o.emplace_back("x", j);
    current = text(o);
    round<dap::Out>(o, v, "struct", again, r);
    ran(current);
  }
  { J e; dap::object o; J w; w.k = J::Obj; dap::In v = in(&e); o["s"] = dap::any(v); w.o.emplace_back("s", e);
    dap::array<dap::integer> ia; J we; we.k = J::Arr; for (size_t n = r.below(3); n > 0; n--) { J x; x.k = J::Int; x.i = num(r); ia.push_back(x.i); we.a.push_back(x); } o["t"] = dap::any(ia); w.o.emplace_back("t", we);
    current = text(w); round<dap::object>(w, o, "object holding a struct and an array", again, r); ran(current); }
  { dap::array<dap::optional<dap::integer>> oa; J w; w.k = J::Arr; for (size_t n = r.below(4); n > 0; n--) { J x; if (r.below(2)) { x.k = J::Int; x.i = num(r); oa.push_back(dap::integer(x.i)); } else oa.push_back(dap::optional<dap::integer>()); w.a.push_back(x); }
    current = text(w); round<dap::array<dap::optional<dap::integer>>>(w, oa, "array of optionals", again, r); ran(current); }
  { typedef dap::variant<dap::string, dap::integer> V; J w; V v; if (r.below(2)) { w.k = J::Str; w.s = str(r); v = dap::string(w.s); } else { w.k = J::Int; w.i = num(r); v = dap::integer(w.i); }
    current = text(w); round<V>(w, v, "variant", again, r); ran(current); }
  // the interface itself: refusals are reported, removed fields are not written
  { S s; size_t n = r.below(4), stop = r.below(5), calls = 0;
    current = "array of " + std::to_string(n) + " refused at " + std::to_string(stop);
    bool ok = s.array(n, [&](dap::Serializer* e) { if (calls++ == stop) return false; return e->serialize(dap::integer(static_cast<int64_t>(calls))); });
    REQUIRE(ok == (n <= stop) && calls == (ok ? n : stop + 1), "array() is %d after %zu elements", ok, calls); ran(current); }
  { S s; bool rm = r.below(2), fl = r.below(2);
    current = std::string("object with a field ") + (rm ? "removed" : "kept") + (fl ? ", refused" : "");
    bool ok = s.object([&](dap::FieldSerializer* fs) { bool x = fs->field("one", dap::integer(1)); bool y = fs->field("two", [&](dap::Serializer* e) { e->serialize(dap::string("2")); if (rm) e->remove(); return !fl; }); bool z = fs->field("three", dap::boolean(true)); return x && y && z; });
    REQUIRE(ok == !fl, "object() gives %d", ok);
    J got; REQUIRE(read(s.dump(), &got) && got.k == J::Obj && got.o.size() == (rm ? 2u : 3u) && got.get("one") && got.get("three") && !got.get("two") == rm, "object is encoded as %s", esc(s.dump()).c_str()); ran(current); }
  { S s; std::string bad = "latin\xe9 \xff\xc3"; current = "a string that is not UTF-8"; s.serialize(dap::string(bad)); s.dump(); ran(current); }
}
static void onabort(int) { printf("REPFAIL property=%s\n  case: %s\n  the process aborts\n", prop.c_str(), esc(current, 2000).c_str()); fflush(stdout); _exit(1); }
int main(int argc, char** argv) {
  init(argc, argv);
  signal(SIGABRT, onabort);
  for (uint64_t i = 0; !out_of_time(); i++) {
    Rng r = rng(i); r.next();
    if (prop == "C13") { decode(r); if (!r.below(3)) garbage(r); } else encode(r);
  }
  return done();
}
