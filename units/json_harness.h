// Harnesses shared by the JSON backends. The unit defines JSON (the library's value type), DES and SER
// (the backend under contract), DES_OF(v)/SER_OF(v) (a (de)serializer of the value v), NODE(d).
namespace dap {
TypeInfo::~TypeInfo() {}
void TypeInfo::deleteOnExit(TypeInfo*) {}
// type infos: their own contracts are decided by C07, C15 and C20
template <class T> struct Ti : BasicTypeInfo<T> { Ti() : BasicTypeInfo<T>(std::string()) {} };
struct Custom { long v; };
static const void* g_custom_value; static Serializer* g_custom_ser; static unsigned g_custom_calls; static bool g_custom_result;
struct CustomTi : TypeInfo {
  std::string name() const override { return std::string(); }
  size_t size() const override { return sizeof(Custom); }
  size_t alignment() const override { return alignof(Custom); }
  void construct(void* p) const override { new (p) Custom(); }
  void copyConstruct(void* d, const void* s) const override { new (d) Custom(*static_cast<const Custom*>(s)); }
  void destruct(void*) const override {}
  bool deserialize(const Deserializer*, void*) const override { return false; }
  bool serialize(Serializer* s, const void* v) const override { g_custom_ser = s; g_custom_value = v; g_custom_calls++; return g_custom_result; }
};
#define TI(T) const TypeInfo* TypeOf<T>::type() { static Ti<T>* t = new Ti<T>(); return t; }
TI(boolean) TI(string) TI(integer) TI(number) TI(object) TI(any)
template <> struct TypeOf<Custom> { static const TypeInfo* type() { static CustomTi* t = new CustomTi(); return t; } };
}
typedef JV* JP;
// a string or name of fewer than 2^32 characters
static void fits(unsigned long id) { __spec_assume(__uf_slen(id) < (1ul << 32)); }
extern "C" { JV g_root; }
// ---- objects ------------------------------------------------------------------------------------------
static dap::object* g_target; static unsigned long g_slot_mem[16];   // the storage operator[] hands out
#define g_slot reinterpret_cast<dap::any*>(g_slot_mem)
extern "C" { bool g_pending; unsigned long g_pending_key; bool g_refused; }
static void stored(unsigned long key, const dap::any* v) {   // v is stored under key
  bool tag = v->is<dap::integer>();
  __spec_assert(tag, "C13.object.member_value");
  if (!tag) __spec_assume(false);
  __spec_assert(static_cast<unsigned long>(static_cast<int64_t>(v->get<dap::integer>())) + 1 == g_n, "C13.object.member_value");
  __spec_assert(key == g_child.key, "C13.object.member_name");
}
dap::any* map_slot(const void* map, unsigned long key) {
  __spec_assert(map == g_target, "C13.object.own_map");
  __spec_assert(!g_pending, "C13.object.member_value");
  g_pending = true; g_pending_key = key; new (g_slot) dap::any();
  return g_slot;
}
void map_put(const void* map, unsigned long key, const dap::any* v) { __spec_assert(map == g_target, "C13.object.own_map"); stored(key, v); g_slot_count++; }
extern "C" dap::any& contract_any_assign(dap::any* self, const dap::any& o) {
  __spec_assert(self == g_slot & g_pending, "C13.object.member_value");
  g_pending = false; stored(g_pending_key, &o); g_slot_count++;
  return *self;
}
extern "C" dap::any& contract_any_move(dap::any* self, dap::any&& o) { return contract_any_assign(self, o); }
// decoding an any from the child at hand (proved by harness_decode_any)
extern "C" bool contract_decode_any(const DES* d, dap::any* v) {
  const JV* j = NODE(d);
  __spec_assert(j->parent == &g_root, "C13.object.own_member");
  __spec_assert(j->index == g_n, "C13.object.every_member");
  __spec_assert(!g_refused, "C13.object.stops_at_failure");
  g_n++;
  if (__spec_choice()) { g_refused = true; return false; }
  if (g_pending & (v == g_slot)) { g_pending = false; __spec_assert(g_pending_key == j->key, "C13.object.member_name"); g_slot_count++; return true; }
  *v = dap::integer(static_cast<int64_t>(j->index));
  return true;
}
static void arbitrary_root() {
  dap::TypeOf<dap::boolean>::type(); dap::TypeOf<dap::integer>::type(); dap::TypeOf<dap::number>::type(); dap::TypeOf<dap::string>::type();
  dap::TypeOf<dap::object>::type(); dap::TypeOf<dap::any>::type(); dap::TypeOf<dap::Custom>::type();
  g_may_be_bad = MAY_BE_BAD;
  jv_fresh(&g_root); jv_arbitrary(&g_root); jv_fresh(&g_child); g_n = 0;
}
static bool integral(const JV* j) { return (j->kind == JInt) | ((j->kind == JUint) & (j->u <= 0x7fffffffffffffffUL)); }
static long whole(const JV* j) { return j->kind == JInt ? j->i : static_cast<long>(j->u); }
static unsigned long bits(double d) { unsigned long u; memcpy(&u, &d, 8); return u; }
static bool numeric(const JV* j) { return (j->kind == JInt) | (j->kind == JUint) | (j->kind == JFloat); }
static unsigned long real(const JV* j) { if (j->kind == JInt) return bits(static_cast<double>(j->i)); if (j->kind == JUint) return bits(static_cast<double>(j->u)); return bits(j->d); }
// arrays inside an any (proved by harness_array and the unit serial)
static bool g_sub_result; static unsigned g_sub_calls; static const void* g_sub_node;
extern "C" bool contract_decode_array(const dap::Deserializer* d, dap::array<dap::any>* v) {
  g_sub_calls++; g_sub_node = NODE(static_cast<const DES*>(d)); v->__tag = 77; return g_sub_result;
}
extern "C" bool contract_decode_object(const DES* d, dap::object* v) { g_sub_calls++; g_sub_node = NODE(d); v->__oid = 77; return g_sub_result; }
struct Cb { unsigned long stop; };
static unsigned long g_stop; static bool g_stopped; static const JV* g_got;
// ---- encoding -------------------------------------------------------------------------------------------
extern "C" { unsigned long g_oid; bool g_sref; }
void map_entry(unsigned long oid, unsigned long i, void* p) {
  dap::object::value_type* e = static_cast<dap::object::value_type*>(p);
  new (&e->first) std::string(); e->first.__id = __uf_okey(oid, i); fits(e->first.__id);
  __spec_assume(__uf_oidx(oid, __uf_okey(oid, i)) == i);     // the keys of a map differ
  if (i > 0) __spec_assume(__uf_oidx(oid, __uf_okey(oid, i - 1)) == i - 1);
  new (&e->second) dap::any();
  e->second = dap::integer(static_cast<int64_t>(i));
}
static unsigned long g_gen;
extern "C" bool inv_last_key() { return !g_root.look | ((g_n > 0) & (g_root.lkey == __uf_okey(g_oid, g_n - 1))); }
// encoding an any into the child at hand (proved by harness_encode_any)
extern "C" bool contract_encode_any(SER* s, const dap::any& v) {
  JV* j = SNODE(s);
  __spec_assert(j == &g_child, "C14.object.own_member");
  __spec_assert((j->parent == &g_root) & g_root.look & g_root.present & (g_root.lkey == j->key), "C14.object.own_member");
  bool tag = v.is<dap::integer>();
  __spec_assert(tag, "C14.object.own_value");
  if (!tag) __spec_assume(false);
  __spec_assert(static_cast<unsigned long>(static_cast<int64_t>(v.get<dap::integer>())) == g_n, "C14.object.every_member_once");
  __spec_assert(j->key == __uf_okey(g_oid, g_n), "C14.object.own_name");
  __spec_assert(!g_sref, "C14.object.stops_at_failure");
  g_n++;
  if (__spec_choice()) { g_sref = true; return false; }
  return true;
}
extern "C" bool contract_encode_object(SER* s, const dap::object& v) { g_sub_calls++; g_sub_node = SNODE(s); g_oid = v.__oid; return g_sub_result; }

extern "C" {
void harness_decode_scalar() {
  arbitrary_root();
  DES_OF(d, &g_root);
  switch (__spec_nondet_u32()) {
    case 0: { dap::boolean v; bool r = d.deserialize(&v); __spec_assert(r == (g_root.kind == JBool), "C13.boolean.kind"); if (r) __spec_assert(static_cast<bool>(v) == g_root.b, "C13.boolean.value"); __spec_cover(r ? "C13.boolean.ok" : "C13.boolean.fails"); break; }
    case 1: { dap::integer v; bool r = d.deserialize(&v);
      if (g_root.kind == JFloat) { __spec_assert(!r || __uf_whole(g_root.d), "C13.integer.kind"); if (r) __spec_assert(static_cast<int64_t>(v) == __uf_toint(g_root.d), "C13.integer.value"); }
      else { __spec_assert(r == integral(&g_root), "C13.integer.kind"); if (r) __spec_assert(static_cast<int64_t>(v) == whole(&g_root), "C13.integer.value"); }
      __spec_cover(r ? "C13.integer.ok" : "C13.integer.fails"); break; }
    case 2: { dap::number v; bool r = d.deserialize(&v); __spec_assert(r == numeric(&g_root), "C13.number.kind"); if (r) __spec_assert(bits(v) == real(&g_root), "C13.number.value"); __spec_cover(r ? "C13.number.ok" : "C13.number.fails"); break; }
    case 3: { dap::string v; bool r = d.deserialize(&v); __spec_assert(r == (g_root.kind == JStr), "C13.string.kind"); if (r) __spec_assert(v.__id == g_root.sid, "C13.string.value"); __spec_cover(r ? "C13.string.ok" : "C13.string.fails"); break; }
  }
}
void harness_decode_any() {
  arbitrary_root();
  DES_OF(d, &g_root);
  g_sub_result = __spec_choice(); g_sub_calls = 0; g_sub_node = nullptr;
  dap::any v;
  if (__spec_choice()) v = dap::integer(5);      // whatever it held before
  bool r = d.deserialize(&v);
  if (g_root.kind == JNull) { __spec_assert(r && v.is<dap::null>(), "C13.any.null"); }
  else if (g_root.kind == JBool) { __spec_assert(r && v.is<dap::boolean>(), "C13.any.boolean"); if (r && v.is<dap::boolean>()) __spec_assert(static_cast<bool>(v.get<dap::boolean>()) == g_root.b, "C13.any.boolean"); }
  else if (g_root.kind == JInt || g_root.kind == JUint) {
    bool fits = integral(&g_root);
    __spec_assert(r == fits, "C13.any.integer");
    if (r) { bool is = v.is<dap::integer>(); __spec_assert(is, "C13.any.integer"); if (is) __spec_assert(static_cast<int64_t>(v.get<dap::integer>()) == whole(&g_root), "C13.any.integer"); }
  }
  else if (g_root.kind == JFloat) { bool is = v.is<dap::number>(); __spec_assert(r && is, "C13.any.number"); if (is) __spec_assert(bits(v.get<dap::number>()) == bits(g_root.d), "C13.any.number"); }
  else if (g_root.kind == JStr) { bool is = v.is<dap::string>(); __spec_assert(r && is, "C13.any.string"); if (is) __spec_assert(v.get<dap::string>().__id == g_root.sid, "C13.any.string"); }
  else if (g_root.kind == JObj) {
    __spec_assert(r == g_sub_result && g_sub_calls == 1 && g_sub_node == &g_root, "C13.any.object");
    if (r) { bool is = v.is<dap::object>(); __spec_assert(is, "C13.any.object"); if (is) __spec_assert(v.get<dap::object>().__oid == 77, "C13.any.object"); }
  }
  else if (g_root.kind == JArr) {
    __spec_assert(r == g_sub_result && g_sub_calls == 1 && g_sub_node == &g_root, "C13.any.array");
    if (r) { bool is = v.is<dap::array<dap::any>>(); __spec_assert(is, "C13.any.array"); if (is) __spec_assert(v.get<dap::array<dap::any>>().__tag == 77, "C13.any.array"); }
  }
  else __spec_assert(!r, "C13.any.not_json");
  __spec_cover(r ? "C13.any.ok" : "C13.any.fails");
}
void harness_decode_object() {
  arbitrary_root();
  DES_OF(d, &g_root);
  dap::object v;
  g_target = &v; g_n = 0; g_pending = false; g_refused = false; g_slot_count = 0; new (g_slot) dap::any();
  bool r = d.deserialize(&v);
  __spec_assert(r == ((g_root.kind == JObj) & !g_refused), "C13.object.result");
  if (r) {
    __spec_assert(g_n == g_root.n, "C13.object.every_member");
    __spec_assert(g_slot_count == g_root.n & !g_pending, "C13.object.every_member");
  }
  __spec_cover(r ? "C13.object.ok" : "C13.object.fails");
}
void harness_decode_array() {
  arbitrary_root();
  DES_OF(d, &g_root);
  g_n = 0; g_refused = false;
  if (g_root.kind == JArr) __spec_assert(d.count() == g_root.n, "C13.array.count"); else (void)d.count();
  bool r = d.array([](dap::Deserializer* e) {
    const JV* j = NODE(static_cast<DES*>(e));
    __spec_assert(j->parent == &g_root, "C13.array.own_element");
    __spec_assert(j->index == g_n, "C13.array.every_element_in_order");
    __spec_assert(!g_refused, "C13.array.stops_at_failure");
    g_n++;
    if (__spec_choice()) { g_refused = true; return false; }
    return true;
  });
  __spec_assert(r == ((g_root.kind == JArr) & !g_refused), "C13.array.result");
  if (r) __spec_assert(g_n == g_root.n, "C13.array.every_element_in_order");
  __spec_cover(r ? "C13.array.ok" : "C13.array.fails");
}
void harness_decode_field() {
  arbitrary_root();
  DES_OF(d, &g_root);
  std::string name; name.__id = __spec_nondet_u64(); fits(name.__id);
  g_n = 0; g_refused = false; g_got = nullptr;
  bool r = d.field(name, [](dap::Deserializer* e) {
    g_n++;
    g_got = e == &dap::json::NullDeserializer::instance ? nullptr : NODE(static_cast<DES*>(e));
    if (g_got) { __spec_assert(g_got->parent == &g_root, "C13.field.own_member"); __spec_assert(g_got->key == g_root.lkey, "C13.field.own_name"); }
    if (__spec_choice()) { g_refused = true; return false; }
    return true;
  });
  if (g_root.kind == JObj) {
    __spec_assert(g_root.look & (g_root.lkey == name.__id), "C13.field.own_name");
    __spec_assert(g_n == 1, "C13.field.offered_once");
    __spec_assert((g_got != nullptr) == g_root.present, "C13.field.found");
    __spec_assert(r == !g_refused, "C13.field.result");
  } else __spec_assert(!r & (g_n == 0), "C13.field.no_object");
  __spec_cover(r ? "C13.field.ok" : "C13.field.fails");
}
void harness_missing() {   // what a field that is not there decodes as
  dap::Deserializer* d = &dap::json::NullDeserializer::instance;
  dap::boolean b; dap::integer i; dap::number n; dap::string s; dap::object o; dap::any a;
  __spec_assert(!d->deserialize(&b) & !d->deserialize(&i) & !d->deserialize(&n) & !d->deserialize(&s) & !d->deserialize(&o) & !d->deserialize(&a), "C13.missing.fails");
  __spec_assert(!d->array([](dap::Deserializer*) { return true; }), "C13.missing.fails");
  __spec_assert(!d->field(s, [](dap::Deserializer*) { return true; }), "C13.missing.fails");
}
void harness_parse() {
  std::string s; s.__id = __spec_nondet_u64();
  g_parsed = s.__id + 1;
  DES d(s);
  __spec_assert(g_parsed == s.__id, "C13.parse.whole_text");
}
// ---- encoding
static void target() { arbitrary_root(); g_watch = &g_root; }       // whatever the serializer held before
void harness_encode_scalar() {
  target();
  SER_OF(s, &g_root);
  DES_OF(d, &g_root);
  switch (__spec_nondet_u32()) {
    case 0: { bool v = __spec_nondet_bool(); bool r = s.serialize(dap::boolean(v)); dap::boolean w; __spec_assert(r && d.deserialize(&w) && static_cast<bool>(w) == v, "C14.boolean.round_trip"); __spec_assert(g_root.kind == JBool, "C14.boolean.kind"); break; }
    case 1: { long v = __spec_nondet_i64(); bool r = s.serialize(dap::integer(v)); dap::integer w; __spec_assert(r && d.deserialize(&w) && static_cast<int64_t>(w) == v, "C14.integer.round_trip"); __spec_assert((g_root.kind == JInt) | (g_root.kind == JUint), "C14.integer.kind"); break; }
    case 2: { double v = __spec_nondet_double(); bool r = s.serialize(dap::number(v)); dap::number w; __spec_assert(r && d.deserialize(&w) && bits(w) == bits(v), "C14.number.round_trip"); __spec_assert(g_root.kind == JFloat, "C14.number.kind"); break; }
    case 3: { dap::string v; v.__id = __spec_nondet_u64(); fits(v.__id); unsigned long id = v.__id; bool r = s.serialize(v); dap::string w; __spec_assert(r && d.deserialize(&w) && w.__id == id, "C14.string.round_trip"); __spec_assert(g_root.kind == JStr, "C14.string.kind"); __spec_assert(!g_root.borrowed, "C14.string.owned"); break; }
  }
}
void harness_encode_any() {
  target();
  SER_OF(s, &g_root);
  g_sub_result = __spec_choice(); g_sub_calls = 0; g_sub_node = nullptr; dap::g_custom_calls = 0; dap::g_custom_result = g_sub_result;
  dap::any v;
  switch (__spec_nondet_u32()) {
    case 0: { bool x = __spec_nondet_bool(); v = dap::boolean(x); bool r = s.serialize(v); __spec_assert(r && g_root.kind == JBool && g_root.b == x, "C14.any.boolean"); break; }
    case 1: { long x = __spec_nondet_i64(); v = dap::integer(x); bool r = s.serialize(v); __spec_assert(r && integral(&g_root) && whole(&g_root) == x, "C14.any.integer"); break; }
    case 2: { double x = __spec_nondet_double(); v = dap::number(x); bool r = s.serialize(v); __spec_assert(r && g_root.kind == JFloat && bits(g_root.d) == bits(x), "C14.any.number"); break; }
    case 3: { dap::string x; x.__id = __spec_nondet_u64(); fits(x.__id); v = x; bool r = s.serialize(v); __spec_assert(r && g_root.kind == JStr && g_root.sid == x.__id, "C14.any.string"); __spec_assert(!g_root.borrowed, "C14.string.owned"); break; }
    case 4: { bool r = s.serialize(v); __spec_assert(r && g_root.kind == JNull, "C14.any.null"); break; }
    case 5: { dap::object o; o.__oid = 77; v = o; bool r = s.serialize(v); __spec_assert(r == g_sub_result && g_sub_calls == 1 && g_sub_node == &g_root && g_oid == 77, "C14.any.object"); break; }
    case 6: { dap::Custom c; c.v = 9; v = c; bool r = s.serialize(v); __spec_assert(r == g_sub_result && dap::g_custom_calls == 1 && dap::g_custom_ser == &s && dap::g_custom_value == &v.get<dap::Custom>(), "C14.any.custom"); break; }
  }
}
void harness_encode_object() {
  target();
  SER_OF(s, &g_root);
  dap::object v; v.__oid = __spec_nondet_u64(); v.__n = __spec_nondet_u64(); __spec_assume(v.__n < (1ul << 32) - 1);
  g_oid = v.__oid; g_n = 0; g_sref = false;
  bool r = s.serialize(v);
  __spec_assert(r == !g_sref, "C14.object.result");
  if (r) {
    __spec_assert(g_n == v.__n, "C14.object.every_member_once");
    __spec_assert(g_root.kind == JObj, "C14.object.kind");
    __spec_assert(g_root.n == v.__n, "C14.object.nothing_else");
  }
  __spec_cover(r ? "C14.object.ok" : "C14.object.fails");
}
void harness_encode_array() {
  target();
  SER_OF(s, &g_root);
  unsigned long n = __spec_nondet_u64(); __spec_assume(n < (1ul << 32) - 1);
  g_n = 0; g_sref = false;
  bool r = s.array(n, [](dap::Serializer* e) {
    JV* j = SNODE(static_cast<SER*>(e));
    __spec_assert((j == &g_child) & (j->parent == &g_root), "C14.array.own_element");
    __spec_assert(j->index == g_n, "C14.array.every_element_in_order");
    __spec_assert(!g_sref, "C14.array.stops_at_failure");
    g_n++;
    if (__spec_choice()) { g_sref = true; return false; }
    return true;
  });
  __spec_assert(r == !g_sref, "C14.array.result");
  if (r) {
    __spec_assert(g_n == n, "C14.array.every_element_in_order");
    __spec_assert((g_root.kind == JArr) & (g_root.n == n), "C14.array.nothing_else");
  }
  __spec_cover(r ? "C14.array.ok" : "C14.array.fails");
}
static unsigned g_fkind; static unsigned long g_fname; static bool g_remove; static unsigned long g_written; static unsigned g_fcalls; static bool g_fres; static unsigned long g_obj_n;
void harness_encode_struct() {
  target();
  SER_OF(s, &g_root);
  g_n = 0; g_sref = false; g_fcalls = 0; g_fkind = __spec_nondet_u32(); __spec_assume(g_fkind <= JArr);
  bool want = __spec_choice();
  g_fres = want; g_remove = __spec_choice();
  bool r = s.object([](dap::FieldSerializer* fs) {
    g_fcalls++;
    __spec_assert((g_root.kind == JObj) & (g_root.n == 0), "C14.struct.nothing_else");
    // some fields were written already
    g_root.pre = true; g_root.n = __spec_nondet_u64(); __spec_assume(g_root.n < (1ul << 31)); g_root.look = false;
    g_obj_n = g_root.n; g_gen = g_root.gen;
    std::string name; name.__id = __spec_nondet_u64(); fits(name.__id); g_fname = name.__id;
    __spec_assume(!jv_has(&g_root, name.__id));       // field names differ (C15)
    g_root.look = __spec_choice() ? g_root.look : false; if (!g_root.look) g_root.pre = false;
    bool fr = fs->field(name, [](dap::Serializer* e) {
      JV* j = SNODE(static_cast<SER*>(e));
      g_n++;
      __spec_assert((j == &g_child) & (j->parent == &g_root) & g_root.present & (j->key == g_fname), "C14.field.own_name");
      jv_reset(j, g_fkind); g_written = j->gen;
      if (g_remove) e->remove();
      return g_fres;
    });
    __spec_assert(fr == g_fres, "C14.field.result");
    __spec_assert(g_n == 1, "C14.field.written_once");
    __spec_assert((g_root.kind == JObj) & (g_root.gen == g_gen) & (g_root.n == g_obj_n + (g_remove ? 0 : 1)), "C14.field.nothing_else");
    if (!g_remove) __spec_assert(g_root.look & (g_root.lkey == g_fname) & g_root.present & (g_child.kind == g_fkind) & (g_child.gen == g_written), "C14.field.kept");
    g_gen = g_root.gen; g_obj_n = g_root.n;
    return fr;
  });
  __spec_assert(g_fcalls == 1, "C14.struct.once");
  __spec_assert(r == want, "C14.struct.result");
  __spec_assert((g_root.kind == JObj) & (g_root.gen == g_gen) & (g_root.n == g_obj_n), "C14.struct.fields_kept");
  __spec_cover(r ? "C14.struct.ok" : "C14.struct.fails");
}
void harness_dump() {
  SER s;
  JV* j = SNODE(&s);
  g_dumped = nullptr;
  std::string t = s.dump();
  __spec_assert((g_dumped == j) & (t.__id == g_dump_id), "C14.dump.whole_value");
  __spec_assert(!g_dump_strict, "C14.dump.any_text");
}
}
