// Contracts for dap::any and dap::variant (C07). The contained types are abstract: their size is
// any number, their alignment any power of two up to 64, and every construction, copy, assignment
// and destruction of a value is recorded in ghost state.
#include <spec.h>
#include <string>
#include "dap/variant.h"
struct Ghost { const void* addr; bool alive; unsigned long val; int ty; };
static Ghost g_obj[40];
static int g_n, g_live;
static unsigned long g_size[3], g_align[3];
static void place(const void* at, int ty) {
  (void)ty;
  for (int i = 0; i < g_n; i++) __spec_assert(!(g_obj[i].alive && g_obj[i].addr == at), "C07.no_value_overwritten_while_alive");
}
template <int TY> struct Obj {
  unsigned char id;
  void make(unsigned long v) { place(this, TY); id = static_cast<unsigned char>(g_n); g_obj[g_n].addr = this; g_obj[g_n].alive = true; g_obj[g_n].val = v; g_obj[g_n].ty = TY; g_n++; g_live++; }
  bool ok() const { return g_obj[id].alive && g_obj[id].addr == this && g_obj[id].ty == TY; }
  unsigned long val() const { return g_obj[id].val; }
  Obj() { make(77); }
  explicit Obj(unsigned long v) { make(v); }
  Obj(const Obj& o) { __spec_assert(o.ok(), "C07.copies_only_live_values"); make(o.val()); }
  Obj& operator=(const Obj& o) {
    __spec_assert(o.ok() && ok(), "C07.assigns_only_live_values");
    g_obj[id].val = o.val(); return *this;
  }
  ~Obj() { __spec_assert(ok(), "C07.value_destroyed_exactly_once"); g_obj[id].alive = false; g_live--; }
};
namespace dap {
TypeInfo::~TypeInfo() {}
template <int TY> struct TI : TypeInfo {
  std::string name() const override { return "t"; }
  size_t size() const override { return g_size[TY]; }
  size_t alignment() const override { return g_align[TY]; }
  void construct(void* p) const override { __spec_writable(p, g_size[TY]); new (p) Obj<TY>(); }
  void copyConstruct(void* d, const void* s) const override {
    __spec_writable(d, g_size[TY]);
    __spec_assert(reinterpret_cast<uintptr_t>(d) % g_align[TY] == 0, "C07.value_aligned");
    new (d) Obj<TY>(*static_cast<const Obj<TY>*>(s));
  }
  void destruct(void* p) const override { static_cast<Obj<TY>*>(p)->~Obj(); }
  bool deserialize(const Deserializer*, void*) const override { return false; }
  bool serialize(Serializer*, const void*) const override { return false; }
};
template <> struct TypeOf<Obj<1>> { static const TypeInfo* type() { static TI<1>* t = new TI<1>(); return t; } };
template <> struct TypeOf<Obj<2>> { static const TypeInfo* type() { static TI<2>* t = new TI<2>(); return t; } };
}
typedef Obj<1> O1; typedef Obj<2> O2;
struct M { int ty; unsigned long val; bool known; };    // the value the any must hold; known=false after being moved from
static const dap::TypeInfo* ti(int ty) { return ty == 1 ? dap::TypeOf<O1>::type() : dap::TypeOf<O2>::type(); }

static void observe(const dap::any& a, const M& m) {
  if (m.known) {
    __spec_assert(a.is<O1>() == (m.ty == 1), "C07.type_query_agrees");
    __spec_assert(a.is<O2>() == (m.ty == 2), "C07.type_query_agrees");
    __spec_assert(a.is<std::nullptr_t>() == (m.ty == 0), "C07.null_query_agrees");
    if (m.ty == 1) { O1& o = a.get<O1>(); __spec_assert(o.ok() && o.val() == m.val, "C07.holds_the_value_stored"); }
    if (m.ty == 2) { O2& o = a.get<O2>(); __spec_assert(o.ok() && o.val() == m.val, "C07.holds_the_value_stored"); }
  } else {
    if (a.is<O1>()) __spec_assert(a.get<O1>().ok(), "C07.moved_from_is_valid");
    else if (a.is<O2>()) __spec_assert(a.get<O2>().ok(), "C07.moved_from_is_valid");
    else __spec_assert(a.is<std::nullptr_t>(), "C07.moved_from_is_valid");
  }
}
// representation invariant: what every operation may assume and must re-establish
static void inv(dap::any& a) {
  __spec_assert((a.value == nullptr) == (a.type == nullptr), "CTR.any.type_iff_value");
  if (a.value == nullptr) { __spec_assert(a.heap == nullptr, "CTR.any.no_block_without_value"); return; }
  bool inb = a.isInBuffer(a.value);
  __spec_assert(inb == (a.heap == nullptr), "CTR.any.block_iff_not_in_buffer");
  __spec_assert(a.value == dap::any::alignUp(inb ? static_cast<void*>(a.buffer) : a.heap, a.type->alignment()), "CTR.any.value_at_start_of_storage");
}
struct Slot { dap::any* a; unsigned char* raw; };
static Slot slot(bool shifted) {
  Slot s; s.raw = new unsigned char[sizeof(dap::any) + (shifted ? 8 : 0)];
  s.a = reinterpret_cast<dap::any*>(s.raw + (shifted ? 8 : 0));
  return s;
}
static M state(dap::any* at, int ty) {
  M m; m.ty = ty; m.val = __spec_nondet_u64(); m.known = true;
  if (ty == 0) new (at) dap::any();
  else if (ty == 1) { O1 x(m.val); new (at) dap::any(x); }
  else { O2 x(m.val); new (at) dap::any(x); }
  return m;
}
static void sizes() {
  g_n = g_live = 0;
  (void)ti(1); (void)ti(2);
  if (__spec_choice()) { g_align[1] = 1; g_align[2] = 8; }
  else if (__spec_choice()) { g_align[1] = 8; g_align[2] = 4; }
  else if (__spec_choice()) { g_align[1] = 16; g_align[2] = 1; }
  else { g_align[1] = 2; g_align[2] = 16; }
  g_size[1] = __spec_nondet_u64(); g_size[2] = __spec_nondet_u64();
  __spec_assume(1 <= g_size[1] && g_size[1] < (1ul << 40)); __spec_assume(1 <= g_size[2] && g_size[2] < (1ul << 40));
}
static int pick(int n) { for (int i = 0; i + 1 < n; i++) if (__spec_choice()) return i; return n - 1; }
static void run(int first, int count) {
  sizes();
  unsigned long h0 = __spec_live_heap();
  bool shift = __spec_choice();
  Slot A = slot(shift), B = slot(!shift), C = slot(shift);
  int ta = pick(3), tb = pick(3);
  M ma = state(A.a, ta), mb = state(B.a, tb), mc; bool c = false; mc.ty = 0; mc.known = true; mc.val = 0;
  inv(*A.a); inv(*B.a);
  int op = first + pick(count);
  unsigned long v = __spec_nondet_u64();
  switch (op) {
    case 0: new (C.a) dap::any(*B.a); mc = mb; c = true; break;
    case 1: new (C.a) dap::any(static_cast<dap::any&&>(*B.a)); mc = mb; c = true; mb.known = false; break;
    case 2: *A.a = *B.a; ma = mb; break;
    case 3: *A.a = static_cast<dap::any&&>(*B.a); ma = mb; mb.known = false; break;
    case 4: *A.a = *A.a; break;
    case 5: { dap::any& r = *A.a; *A.a = static_cast<dap::any&&>(r); break; }
    case 6: { O1 x(v); *A.a = x; ma.ty = 1; ma.val = v; break; }
    case 7: { O2 x(v); *A.a = x; ma.ty = 2; ma.val = v; break; }
    case 8: *A.a = nullptr; ma.ty = 0; break;
    case 9: A.a->reset(); ma.ty = 0; break;
  }
  observe(*A.a, ma); observe(*B.a, mb); inv(*A.a); inv(*B.a);
  if (c) { observe(*C.a, mc); inv(*C.a); }
  // copies are independent of their original: changing one leaves the other
  if (mb.known && mb.ty == 1) {
    unsigned long w = __spec_nondet_u64();
    { O1 x(w); B.a->get<O1>() = x; } mb.val = w;
    observe(*B.a, mb); observe(*A.a, ma); if (c) observe(*C.a, mc);
    __spec_cover("C07.original_changed");
  }
  if (ma.ty == 1 && op != 0) __spec_cover("C07.holds_1");
  A.a->~any(); B.a->~any(); if (c) C.a->~any();
  __spec_assert(g_live == 0, "C07.every_value_destroyed");
  delete[] A.raw; delete[] B.raw; delete[] C.raw;
  __spec_assert(__spec_live_heap() == h0, "C07.all_memory_released");
}
extern "C" void harness_any_construct() { run(0, 2); }
extern "C" void harness_any_assign_any() { run(2, 2); }
extern "C" void harness_any_self() { run(4, 2); }
extern "C" void harness_any_assign_value() { run(6, 2); }
extern "C" void harness_any_reset() { run(8, 2); }

// alignments no allocation or object of ours is known to have
extern "C" void harness_any_overaligned() {
  sizes(); g_align[1] = 64; g_align[2] = 32;
  unsigned long h0 = __spec_live_heap(), v = __spec_nondet_u64();
  int t = 1 + pick(2);
  M m; m.ty = t; m.val = v; m.known = true;
  Slot A = slot(false);
  if (t == 1) { O1 x(v); new (A.a) dap::any(x); } else { O2 x(v); new (A.a) dap::any(x); }
  observe(*A.a, m); inv(*A.a);
  A.a->~any();
  __spec_cover("C07.overaligned");
  __spec_assert(g_live == 0, "C07.every_value_destroyed");
  delete[] A.raw;
  __spec_assert(__spec_live_heap() == h0, "C07.all_memory_released");
}

// a second operation after a move or reset: what is left behind is usable
extern "C" void harness_any_reuse() {
  sizes(); g_align[1] = 8; g_align[2] = 4;
  unsigned long h0 = __spec_live_heap();
  {
    unsigned long v = __spec_nondet_u64(), w = __spec_nondet_u64();
    int t = 1 + pick(2);
    dap::any a; M ma; ma.ty = t; ma.val = v; ma.known = true;
    if (t == 1) { O1 x(v); a = x; } else { O2 x(v); a = x; }
    dap::any b(static_cast<dap::any&&>(a));
    observe(b, ma);
    if (__spec_choice()) a.reset();
    M m2; m2.known = true; m2.val = w;
    if (__spec_choice()) { O1 x(w); a = x; m2.ty = 1; } else { O2 x(w); a = x; m2.ty = 2; }
    observe(a, m2); observe(b, ma);
    if (__spec_choice()) a.reset();
    observe(b, ma);
    if (__spec_choice()) { a = static_cast<dap::any&&>(b); observe(a, ma); }
  }
  __spec_assert(g_live == 0, "C07.every_value_destroyed");
  __spec_assert(__spec_live_heap() == h0, "C07.all_memory_released");
}
typedef dap::variant<O1, O2> Va;
static void vobserve(const Va& a, int ty, unsigned long v) {
  __spec_assert(a.is<O1>() == (ty == 1) && a.is<O2>() == (ty == 2), "C07.variant_type_query_agrees");
  if (ty == 1) { O1& o = a.get<O1>(); __spec_assert(o.ok() && o.val() == v, "C07.variant_holds_the_value"); }
  else { O2& o = a.get<O2>(); __spec_assert(o.ok() && o.val() == v, "C07.variant_holds_the_value"); }
}
extern "C" void harness_variant() {
  sizes(); g_align[1] = 8; g_align[2] = 2;
  unsigned long h0 = __spec_live_heap();
  {
    Va d; vobserve(d, 1, 77);
    unsigned long v = __spec_nondet_u64(), w = __spec_nondet_u64();
    int t = 1 + pick(2);
    O1 x(v); O2 y(v);
    Va a(x); if (t == 2) { Va b(y); vobserve(b, 2, v); a = y; }
    vobserve(a, t, v);
    Va c(a); vobserve(c, t, v); vobserve(a, t, v);
    int op = pick(5);
    if (op == 0) { d = a; vobserve(d, t, v); vobserve(a, t, v); }
    if (op == 1) { d = static_cast<Va&&>(a); vobserve(d, t, v); }
    if (op == 2) { Va e(static_cast<Va&&>(c)); vobserve(e, t, v); }
    if (op == 3) { O2 z(w); c = z; vobserve(c, 2, w); vobserve(a, t, v); }
    if (op == 4) { O1 z(w); c = z; vobserve(c, 1, w); vobserve(a, t, v); a = a; vobserve(a, t, v); }
    __spec_cover("C07.variant");
  }
  __spec_assert(g_live == 0, "C07.every_value_destroyed");
  __spec_assert(__spec_live_heap() == h0, "C07.all_memory_released");
}
