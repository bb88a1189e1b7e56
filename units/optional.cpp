// Contracts for dap::optional (C08) over a token type whose moved-from state is arbitrary.
#include <spec.h>
#include "../spec/token.h"
static bool operator==(const Tok& a, const Tok& b) { return a.v == b.v; }
static bool operator!=(const Tok& a, const Tok& b) { return a.v != b.v; }
static bool operator<(const Tok& a, const Tok& b) { return a.v < b.v; }
static bool operator<=(const Tok& a, const Tok& b) { return a.v <= b.v; }
static bool operator>(const Tok& a, const Tok& b) { return a.v > b.v; }
static bool operator>=(const Tok& a, const Tok& b) { return a.v >= b.v; }
#include "dap/optional.h"
typedef dap::optional<Tok> O;
struct Sub { unsigned long v; operator Tok() const { return Tok(v + 1); } Sub() : v(5) {} explicit Sub(unsigned long x) : v(x) {} };
typedef dap::optional<Sub> S;
struct M { bool set; unsigned long v; };
// an arbitrary optional, with the value a careless implementation might leave behind when empty
static M state(O& o) {
  M m; m.set = __spec_nondet_bool(); m.v = __spec_nondet_u64();
  o.set = m.set; o.val.v = m.v;
  return m;
}
static void observe(O& o, const M& m) {
  const O& c = o;
  __spec_assert(o.has_value() == m.set, "C08.has_value_iff_stored");
  __spec_assert(static_cast<bool>(o) == m.set, "C08.bool_iff_stored");
  if (m.set) {
    __spec_assert(o.value() == m.v && c.value() == m.v, "C08.value_is_the_stored_one");
    __spec_assert(*o == m.v && *c == m.v && o->v == m.v && c->v == m.v, "C08.value_is_the_stored_one");
    __spec_assert(&o.value() == &*o && &c.value() == &*o && o.operator->() == &*o, "C08.access_refers_to_the_contained_value");
  }
  Tok d(__spec_nondet_u64());
  const Tok& r = c.value(d);
  __spec_assert(r.v == (m.set ? m.v : d.v), "C08.default_exactly_if_empty");
}
extern "C" void harness_construct() {
  O e; M none; none.set = false; none.v = 0; observe(e, none);
  O a; M ma = state(a); observe(a, ma);
  { O c(a); observe(c, ma); observe(a, ma); c.val.v = __spec_nondet_u64(); c.set = __spec_nondet_bool(); observe(a, ma); }
  unsigned long v = __spec_nondet_u64(); M mv; mv.set = true; mv.v = v;
  { Tok t(v); O c(t); observe(c, mv); __spec_assert(t.v == v, "C08.source_kept"); }
  { const Tok t(v); O c(t); observe(c, mv); }
  { O c{Tok(v)}; observe(c, mv); }
  { Tok t(v); O c(static_cast<Tok&&>(t)); observe(c, mv); }
  { O c(static_cast<O&&>(a)); observe(c, ma); }
  if (ma.set) __spec_cover("C08.set"); else __spec_cover("C08.empty");
}
extern "C" void harness_convert() {
  S s; s.set = __spec_nondet_bool(); s.val.v = __spec_nondet_u64();
  M m; m.set = s.set; m.v = s.val.v + 1;
  { O c(s); observe(c, m); __spec_assert(s.has_value() == m.set, "C08.source_kept"); }
  { O c(static_cast<S&&>(s)); observe(c, m); }
}
extern "C" void harness_assign() {
  O a, b; M ma = state(a), mb = state(b);
  int op = __spec_nondet_i32();
  unsigned long v = __spec_nondet_u64(); M mv; mv.set = true; mv.v = v;
  if (op == 0) { O& r = (a = b); __spec_assert(&r == &a, "C08.assignment_returns_self"); observe(a, mb); observe(b, mb); b.val.v = v; b.set = true; observe(a, mb); }
  else if (op == 1) { a = static_cast<O&&>(b); observe(a, mb); }
  else if (op == 2) { Tok t(v); a = t; observe(a, mv); __spec_assert(t.v == v, "C08.source_kept"); observe(b, mb); }
  else if (op == 3) { a = Tok(v); observe(a, mv); }
  else if (op == 4) { a = O(); M none; none.set = false; none.v = 0; observe(a, none); }
  else if (op == 5) { O& r = a; a = r; observe(a, ma); }
  else if (op == 6) { const Tok t(v); a = t; observe(a, mv); }
  else { const O& c = b; a = c; observe(a, mb); observe(b, mb); }
}
extern "C" void harness_order() {
  O a, b; M x = state(a), y = state(b);
  bool lt = y.set & (!x.set | (x.v < y.v)), gt = x.set & (!y.set | (y.v < x.v)), eq = (x.set == y.set) & (!x.set | (x.v == y.v));
  __spec_assert((a == b) == eq, "C08.equal");
  __spec_assert((a != b) == !eq, "C08.unequal");
  __spec_assert((a < b) == lt, "C08.less");
  __spec_assert((a <= b) == !gt, "C08.less_or_equal");
  __spec_assert((a > b) == gt, "C08.greater");
  __spec_assert((a >= b) == !lt, "C08.greater_or_equal");
  // lemma: the specification above is a total order with empty first
  __spec_assert(lt + gt + eq == 1, "C08.lemma_trichotomy");
  O c; M z = state(c);
  bool lt2 = z.set & (!y.set | (y.v < z.v)), lt3 = z.set & (!x.set | (x.v < z.v));
  __spec_assert(!(lt & lt2) | lt3, "C08.lemma_transitive");
  observe(a, x); observe(b, y);
}
