// C13, C14: the (de)serialization of composite values. Verified text: include/dap/serialization.h,
// the (de)serialize members of include/dap/typeinfo.h's BasicTypeInfo.
// A (de)serializer is represented by its contract (met by the backends: units json_*): it visits the
// elements of an array in order until one is refused, offers the field asked for once, and says what
// the callback said.
#include <jenv.h>
#include "dap/typeof.h"
#include "dap/serialization.h"
namespace dap { TypeInfo::~TypeInfo() {} void TypeInfo::deleteOnExit(TypeInfo*) {} }
template <class T> struct Ti : dap::BasicTypeInfo<T> { Ti() : dap::BasicTypeInfo<T>(std::string()) {} };
namespace dap {
#define TI(T) const TypeInfo* TypeOf<T>::type() { static Ti<T>* t = new Ti<T>(); return t; }
TI(boolean) TI(string) TI(integer) TI(number) TI(object) TI(any)
}
dap::any* map_slot(const void*, unsigned long) { return nullptr; }
void map_put(const void*, unsigned long, const dap::any*) {}
void map_entry(unsigned long, unsigned long, void*) {}
struct Custom { unsigned long v; };
enum { KNone, KBool, KInt, KNum, KStr, KObj, KAny, KCustom, KRemove };
struct Ser; struct Des;
extern "C" {
unsigned long g_calls;             // (de)serializations of one value
bool g_refused;                    // one was refused
unsigned g_kind; const void* g_ptr; const void* g_by;   // the last one: its kind, its place, by whom
unsigned long g_val;               // ... and the value given
unsigned long g_count;             // the length of the array in the document
const void* g_child_des; const void* g_child_ser;
unsigned long g_name;
const dap::boolean* g_base;        // storage of the array being encoded
unsigned long g_k; bool g_kval;    // any index, and the value decoded for it
dap::array<dap::boolean>* g_vec;
unsigned long g_offers; unsigned g_arrays;
}
static bool answer() { if (__spec_choice()) { g_refused = true; return false; } return true; }
static bool took(unsigned kind, const void* p, const void* by) { g_kind = kind; g_ptr = p; g_by = by; g_calls++; return answer(); }
static unsigned long bits(double d) { unsigned long u; memcpy(&u, &d, 8); return u; }
struct Des : dap::Deserializer {
  bool root;
  Des* child;
  bool deserialize(dap::boolean* p) const override { bool b = __spec_nondet_bool(); *p = b; g_val = b; return took(KBool, p, this); }
  bool deserialize(dap::integer* p) const override { long v = __spec_nondet_i64(); *p = v; g_val = static_cast<unsigned long>(v); return took(KInt, p, this); }
  bool deserialize(dap::number* p) const override { double v = __spec_nondet_double(); *p = v; g_val = bits(v); return took(KNum, p, this); }
  bool deserialize(dap::string* p) const override { unsigned long v = __spec_nondet_u64(); p->__id = v; g_val = v; return took(KStr, p, this); }
  bool deserialize(dap::object* p) const override { return took(KObj, p, this); }
  bool deserialize(dap::any* p) const override { return took(KAny, p, this); }
  size_t count() const override { return g_count; }
  bool array(const std::function<bool(Deserializer*)>& f) const override {
    g_arrays++;
    for (; g_n < g_count; ) {
      bool r = f(child);
      __spec_assert((g_calls == g_n + 1) & (g_by == child), "C13.array.one_value_per_element");
      __spec_assert(g_kind == KBool, "C13.array.own_element");
      if (g_n == g_k) g_kval = g_val != 0;
      __spec_assert(r == !g_refused, "C13.array.element_result");
      g_n++;
      if (!r) return false;
    }
    return true;
  }
  bool field(const std::string& name, const std::function<bool(Deserializer*)>& f) const override {
    g_offers++; g_name = name.__id;
    return f(child);
  }
};
struct Ser : dap::Serializer {
  Ser* child;
  bool serialize(dap::boolean v) override { g_val = static_cast<bool>(v); return took(KBool, nullptr, this); }
  bool serialize(dap::integer v) override { g_val = static_cast<unsigned long>(static_cast<int64_t>(v)); return took(KInt, nullptr, this); }
  bool serialize(dap::number v) override { g_val = bits(v); return took(KNum, nullptr, this); }
  bool serialize(const dap::string& v) override { g_val = v.__id; return took(KStr, &v, this); }
  bool serialize(const dap::object& v) override { g_val = v.__oid; return took(KObj, &v, this); }
  bool serialize(const dap::any& v) override { return took(KAny, &v, this); }
  bool array(size_t count, const std::function<bool(Serializer*)>& f) override {
    g_count = count; g_arrays++;
    for (; g_n < count; ) {
      bool r = f(child);
      __spec_assert((g_calls == g_n + 1) & (g_by == child), "C14.array.one_value_per_element");
      if (g_base) __spec_assert((g_kind == KBool) & (g_val == static_cast<unsigned long>(static_cast<bool>(g_base[g_n]))), "C14.array.own_element");
      __spec_assert(r == !g_refused, "C14.array.element_result");
      g_n++;
      if (!r) return false;
    }
    return true;
  }
  bool object(const std::function<bool(dap::FieldSerializer*)>& f) override { return false; }
  void remove() override { took(KRemove, nullptr, this); }
};
struct FSer : dap::FieldSerializer {
  Ser* child;
  bool field(const std::string& name, const SerializeFunc& f) override { g_offers++; g_name = name.__id; return f(child); }
};
struct CustomTi : dap::TypeInfo {
  std::string name() const override { return std::string(); }
  size_t size() const override { return sizeof(Custom); }
  size_t alignment() const override { return alignof(Custom); }
  void construct(void* p) const override { new (p) Custom(); }
  void copyConstruct(void* d, const void* s) const override { new (d) Custom(*static_cast<const Custom*>(s)); }
  void destruct(void*) const override {}
  bool deserialize(const dap::Deserializer* d, void* p) const override { unsigned long v = __spec_nondet_u64(); static_cast<Custom*>(p)->v = v; g_val = v; return took(KCustom, p, d); }
  bool serialize(dap::Serializer* s, const void* p) const override { g_val = static_cast<const Custom*>(p)->v; return took(KCustom, p, s); }
};
namespace dap { template <> struct TypeOf<Custom> { static const bool has_custom_serialization = true; static const TypeInfo* type() { static CustomTi* t = new CustomTi(); return t; } }; }
static Des g_d, g_cd; static Ser g_s, g_cs; static FSer g_f;
static dap::Deserializer* D() { return &g_d; }
static dap::Serializer* S() { return &g_s; }
static dap::FieldSerializer* F() { return &g_f; }
static void start() {
  dap::TypeOf<dap::boolean>::type(); dap::TypeOf<dap::integer>::type(); dap::TypeOf<dap::number>::type(); dap::TypeOf<dap::string>::type();
  dap::TypeOf<dap::object>::type(); dap::TypeOf<dap::any>::type(); dap::TypeOf<Custom>::type();
  new (&g_d) Des(); new (&g_cd) Des(); new (&g_s) Ser(); new (&g_cs) Ser(); new (&g_f) FSer();
  g_d.child = &g_cd; g_s.child = &g_cs; g_f.child = &g_cs;
  g_n = 0; g_calls = 0; g_refused = false; g_kind = KNone; g_ptr = nullptr; g_by = nullptr; g_val = 0; g_count = 0; g_name = 0; g_base = nullptr; g_vec = nullptr; g_k = 0; g_kval = false; g_offers = 0; g_arrays = 0;
}
static dap::boolean* storage(unsigned long n) { return static_cast<dap::boolean*>(::operator new(n + 1)); }
static bool raw(const dap::boolean* p) { return *reinterpret_cast<const unsigned char*>(p) & 1; }
extern "C" bool inv_kept() { return !((g_vec != nullptr) & (g_n > g_k)) | (raw(g_vec->__b + g_k) == g_kval); }
extern "C" {
void harness_decode_array() {
  start();
  g_count = __spec_nondet_u64(); __spec_assume(g_count < (1ul << 40));
  dap::array<dap::boolean> v;
  if (__spec_choice()) { unsigned long m = __spec_nondet_u64(); __spec_assume(m < (1ul << 40)); v.__room(); v.__n = m; }    // whatever it held before
  g_vec = &v; g_k = __spec_nondet_u64(); __spec_assume(g_k < (1ul << 40));
  bool r = D()->deserialize(&v);
  __spec_assert(g_arrays == 1, "C13.array.visited_once");
  __spec_assert(r == !g_refused, "C13.array.result");
  if (r) {
    __spec_assert((v.size() == g_count) & (g_calls == g_count), "C13.array.every_element_in_order");
    if (g_k < g_count) __spec_assert(static_cast<bool>(v[g_k]) == g_kval, "C13.array.own_element");
  }
  __spec_cover(r ? "C13.array.ok" : "C13.array.fails");
}
void harness_encode_array() {
  start();
  dap::array<dap::boolean> v; unsigned long m = __spec_nondet_u64(); __spec_assume(m < (1ul << 40)); v.__b = storage(m); v.__n = m; g_base = v.__b;
  bool r = S()->serialize(v);
  __spec_assert((g_arrays == 1) & (g_count == m), "C14.array.count");
  __spec_assert(r == !g_refused, "C14.array.result");
  if (r) __spec_assert(g_calls == m, "C14.array.every_element_in_order");
  __spec_assert((v.size() == m) & (v.data() == g_base), "C14.array.source_kept");
  __spec_cover(r ? "C14.array.ok" : "C14.array.fails");
}
void harness_decode_optional() {
  start();
  switch (__spec_nondet_u32()) {
    case 0: { dap::optional<dap::integer> v; bool r = D()->deserialize(&v); __spec_assert(r, "C13.optional.result"); __spec_assert((g_calls == 1) & (g_kind == KInt) & (g_by == &g_d), "C13.optional.decoded_once"); __spec_assert(v.has_value() == !g_refused, "C13.optional.present"); if (v.has_value()) __spec_assert(static_cast<unsigned long>(static_cast<int64_t>(v.value())) == g_val, "C13.optional.value"); __spec_cover(v.has_value() ? "C13.optional.set" : "C13.optional.empty"); break; }
    case 1: { dap::optional<dap::string> v; bool r = D()->deserialize(&v); __spec_assert(r, "C13.optional.result"); __spec_assert((g_calls == 1) & (g_kind == KStr), "C13.optional.decoded_once"); __spec_assert(v.has_value() == !g_refused, "C13.optional.present"); if (v.has_value()) __spec_assert(v.value().__id == g_val, "C13.optional.value"); break; }
    case 2: { dap::optional<Custom> v; bool r = D()->deserialize(&v); __spec_assert(r, "C13.optional.result"); __spec_assert((g_calls == 1) & (g_kind == KCustom) & (g_by == &g_d), "C13.optional.decoded_once"); __spec_assert(v.has_value() == !g_refused, "C13.optional.present"); if (v.has_value()) __spec_assert(v.value().v == g_val, "C13.optional.value"); break; }
    case 3: { dap::variant<dap::integer, dap::string> v; bool r = D()->deserialize(&v); __spec_assert(r == !g_refused, "C13.variant.result"); __spec_assert((g_calls == 1) & (g_kind == KAny) & (g_ptr == &v.value) & (g_by == &g_d), "C13.variant.value"); break; }
    case 4: { Custom v; v.v = 0; bool r = D()->deserialize(&v); __spec_assert(r == !g_refused, "C13.struct.result"); __spec_assert((g_calls == 1) & (g_kind == KCustom) & (g_ptr == &v) & (g_by == &g_d), "C13.struct.value"); break; }
  }
}
void harness_encode_optional() {
  start();
  bool set = __spec_choice();
  switch (__spec_nondet_u32()) {
    case 0: { dap::optional<dap::integer> v; long x = __spec_nondet_i64(); if (set) v = dap::integer(x); bool r = S()->serialize(v);
      __spec_assert((g_calls == 1) & (g_kind == (set ? KInt : KRemove)) & (g_by == &g_s), "C14.optional.encoded_or_removed"); if (set) __spec_assert(g_val == static_cast<unsigned long>(x), "C14.optional.value"); __spec_assert(r == (!set | !g_refused), "C14.optional.result"); break; }
    case 1: { dap::optional<dap::string> v; dap::string x; x.__id = __spec_nondet_u64(); if (set) v = x; bool r = S()->serialize(v);
      __spec_assert((g_calls == 1) & (g_kind == (set ? KStr : KRemove)) & (g_by == &g_s), "C14.optional.encoded_or_removed"); if (set) __spec_assert(g_val == x.__id, "C14.optional.value"); __spec_assert(r == (!set | !g_refused), "C14.optional.result"); break; }
    case 2: { dap::optional<Custom> v; Custom x; x.v = __spec_nondet_u64(); if (set) v = x; bool r = S()->serialize(v);
      __spec_assert((g_calls == 1) & (g_kind == (set ? KCustom : KRemove)) & (g_by == &g_s), "C14.optional.encoded_or_removed"); if (set) __spec_assert(g_val == x.v, "C14.optional.value"); __spec_assert(r == (!set | !g_refused), "C14.optional.result"); break; }
    case 3: { dap::variant<dap::integer, dap::string> v(dap::integer(7)); bool r = S()->serialize(v); __spec_assert(r == !g_refused, "C14.variant.result"); __spec_assert((g_calls == 1) & (g_kind == KAny) & (g_ptr == &v.value) & (g_by == &g_s), "C14.variant.value"); break; }
    case 4: { Custom v; v.v = __spec_nondet_u64(); bool r = S()->serialize(v); __spec_assert(r == !g_refused, "C14.struct.result"); __spec_assert((g_calls == 1) & (g_kind == KCustom) & (g_val == v.v) & (g_by == &g_s), "C14.struct.value"); break; }
    case 5: { std::string x; x.__id = __spec_nondet_u64(); __spec_assume(!__uf_hasnul(x.__id)); bool r = S()->serialize(x.c_str()); __spec_assert(r == !g_refused, "C14.chars.result"); __spec_assert((g_calls == 1) & (g_kind == KStr) & (g_val == x.__id) & (g_by == &g_s), "C14.chars.value"); break; }
  }
}
void harness_fields() {
  start();
  std::string name; name.__id = __spec_nondet_u64();
  if (__spec_choice()) {
    bool r; const void* p; unsigned k;
    switch (__spec_nondet_u32()) {
      case 0: { dap::integer v; r = D()->field(name, &v); p = &v; k = KInt; break; }
      case 1: { Custom v; r = D()->field(name, &v); p = &v; k = KCustom; break; }
      default: { dap::variant<dap::integer, dap::string> v; r = D()->field(name, &v); p = &v.value; k = KAny; break; }
    }
    __spec_assert((g_offers == 1) & (g_name == name.__id), "C13.field.own_name");
    __spec_assert((g_calls == 1) & (g_kind == k) & (g_ptr == p) & (g_by == &g_cd), "C13.field.value");
    __spec_assert(r == !g_refused, "C13.field.result");
  } else {
    bool r; unsigned long x = __spec_nondet_u64(); unsigned k;
    switch (__spec_nondet_u32()) {
      case 0: { r = F()->field(name, dap::integer(static_cast<long>(x))); k = KInt; break; }
      case 1: { Custom v; v.v = x; r = F()->field(name, v); k = KCustom; break; }
      default: { dap::string v; v.__id = x; r = F()->field(name, v); k = KStr; break; }
    }
    __spec_assert((g_offers == 1) & (g_name == name.__id), "C14.field.own_name");
    __spec_assert((g_calls == 1) & (g_kind == k) & (g_val == x) & (g_by == &g_cs), "C14.field.value");
    __spec_assert(r == !g_refused, "C14.field.result");
  }
}
// the type infos of the basic types hand the value at the address given to the (de)serializer given
void harness_typeinfo() {
  start();
  const dap::TypeInfo* ti; unsigned k; unsigned long want = __spec_nondet_u64();
  dap::boolean b(want & 1); dap::integer i(static_cast<long>(want)); dap::string s; s.__id = want; dap::object o; o.__oid = want; dap::any a; dap::number n(1.5);
  void* p; bool byval = false; unsigned long val = want;
  switch (__spec_nondet_u32()) {
    case 0: ti = dap::TypeOf<dap::boolean>::type(); p = &b; k = KBool; val = want & 1; break;
    case 1: ti = dap::TypeOf<dap::integer>::type(); p = &i; k = KInt; break;
    case 2: ti = dap::TypeOf<dap::string>::type(); p = &s; k = KStr; break;
    case 3: ti = dap::TypeOf<dap::object>::type(); p = &o; k = KObj; break;
    case 4: ti = dap::TypeOf<dap::any>::type(); p = &a; k = KAny; val = 0; break;
    default: ti = dap::TypeOf<dap::number>::type(); p = &n; k = KNum; val = bits(1.5); break;
  }
  (void)byval;
  if (__spec_choice()) {
    bool r = ti->deserialize(&g_d, p);
    __spec_assert((g_calls == 1) & (g_kind == k) & (g_ptr == p) & (g_by == &g_d), "C13.typeinfo.value");
    __spec_assert(r == !g_refused, "C13.typeinfo.result");
  } else {
    bool r = ti->serialize(&g_s, p);
    __spec_assert((g_calls == 1) & (g_kind == k) & (g_val == val) & (g_by == &g_s), "C14.typeinfo.value");
    __spec_assert(r == !g_refused, "C14.typeinfo.result");
  }
}
}
// the scalar types hold what they are given
extern "C" void harness_scalars() {
  bool b = __spec_nondet_bool(); long i = __spec_nondet_i64(); double d = __spec_nondet_double();
  dap::boolean b0, b1(b), b2(!b); dap::integer i0, i1(i), i2(i + 1); dap::number d0, d1(d), d2(1.0);
  __spec_assert(!b0 && static_cast<long>(i0) == 0 && bits(d0) == 0, "C14.scalar.default");
  __spec_assert(static_cast<bool>(b1) == b && static_cast<long>(i1) == i && bits(d1) == bits(d), "C14.scalar.holds_the_value");
  __spec_assert(&(b2 = b) == &b2 && &(i2 = i) == &i2 && &(d2 = d) == &d2, "C14.scalar.assignment");
  __spec_assert(static_cast<bool>(b2) == b && static_cast<long>(i2) == i && bits(d2) == bits(d), "C14.scalar.assignment");
  dap::integer i3 = i2; b0 = b1; i0 = i1; d0 = d1;
  __spec_assert(static_cast<long>(i3) == i && static_cast<bool>(b0) == b && static_cast<long>(i0) == i && bits(d0) == bits(d), "C14.scalar.copy");
  __spec_assume(i < 0x7fffffffffffffff);
  dap::integer old = i3++;
  __spec_assert(static_cast<long>(old) == i && static_cast<long>(i3) == i + 1, "C14.scalar.increment");
}
