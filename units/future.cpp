// Contracts for promise / future (C16) under monitor reasoning.
#include "../spec/monitor.h"
#include "../spec/token.h"
#include "dap/future.h"
typedef Tok T;
typedef dap::promise<T> Pr;
typedef dap::future<T> Fu;
typedef Fu::State St;
extern "C" {
unsigned long __uf_VAL();       // the value that is (or will be) set
int op;                         // 0 get/wait  1 timed wait  2 set_value
bool effect, had0, had_last, slept;
}
static St* st;
static bool inv() { return !st->hasVal | (mon_sleeping == 0) | mon_odebt | mon_debt; }
extern "C" bool cand_unchanged() { __spec_guard_enable(false); return (st->hasVal == had0) & (had_last == had0); }
extern "C" bool cand_value() { __spec_guard_enable(false); return !st->hasVal | (st->val == __uf_VAL()); }
extern "C" bool cand_inv() { __spec_guard_enable(false); return inv(); }
static void mon_havoc(void*) {
  bool h = __spec_nondet_bool();
  // rely: a value, once set, stays set; only the promise's owner sets it, once
  __spec_assume(!had_last | h);
  if (op == 2) __spec_assume(h == effect);
  had0 = h; had_last = h;
  st->hasVal = h;
  unsigned long v = __spec_nondet_u64();
  __spec_assume(!h | (v == __uf_VAL()));
  st->val = v;
  __spec_assume(inv());
}
static void mon_exit_check(void*, bool sleeping) {
  if (sleeping) {
    slept = true;
    __spec_assert(op != 2, "C16.set_value_does_not_block");
    __spec_assert(!st->hasVal, "C16.waits_only_while_unset");
  }
  if (op == 2) {
    if (st->hasVal & !had0) { __spec_assert(!effect, "C16.set_once"); effect = true; }
    __spec_assert(!st->hasVal | (st->val == __uf_VAL()), "C16.value_stored_with_the_flag");
    __spec_assert(!had0 | st->hasVal, "C16.stays_set");
    had_last = st->hasVal;
  } else {
    __spec_assert(st->hasVal == had0, "C16.waiting_changes_nothing");
    __spec_assert(!had0 | (st->val == __uf_VAL()), "C16.value_kept");
  }
  if (st->hasVal & (mon_sleeping > 0) & !mon_odebt) mon_debt = true;   // must notify later
}
static void begin(int o) { op = o; effect = false; had_last = false; mon_debt = false; mon_in_wait = false; slept = false; __spec_guard_enable(true); }
static void finish() {
  __spec_guard_enable(false);
  __spec_assert(!st->mutex.__held, "LOCK.released");
  __spec_assert(!mon_debt, "C16.waiters_woken");
}
static void guards(St* s) {
  st = s;
  __spec_guard(&s->hasVal, sizeof(s->hasVal), &s->mutex.__held);
  __spec_guard(&s->val, sizeof(s->val), &s->mutex.__held);
}
extern "C" void harness_init() {
  Pr p; Fu f = p.get_future();
  __spec_assert(f.valid(), "C16.future_valid");
  __spec_assert(f.state.get() == p.state.get(), "C16.future_shares_the_promise_state");
  st = p.state.get(); mon_sleeping = 0; mon_debt = mon_odebt = false;
  __spec_assert(!st->hasVal && inv(), "C16.starts_unset");
  Pr q(p);
  __spec_assert(q.state.get() == st, "C16.promise_copy_shares_state");
  Pr r(static_cast<Pr&&>(q));
  __spec_assert(r.state.get() == st, "C16.promise_move_keeps_state");
  Fu g(static_cast<Fu&&>(f));
  __spec_assert(g.state.get() == st && g.valid(), "C16.future_move_keeps_state");
  Fu f2 = r.get_future();
  __spec_assert(f2.state.get() == st, "C16.later_future_shares_state");
}
extern "C" void harness_get() {
  Pr p; Fu f = p.get_future(); guards(p.state.get()); begin(0);
  T v = f.get(); finish();
  __spec_assert(had0, "C16.get_returns_only_once_set");
  __spec_assert(v == __uf_VAL(), "C16.get_returns_the_value");
  if (slept) __spec_cover("C16.get_slept"); else __spec_cover("C16.get_at_once");
}
extern "C" void harness_wait() {
  Pr p; Fu f = p.get_future(); guards(p.state.get()); begin(0); f.wait(); finish();
  __spec_assert(had0, "C16.wait_returns_only_once_set");
}
extern "C" void harness_wait_for() {
  Pr p; Fu f = p.get_future(); guards(p.state.get()); begin(1);
  dap::future_status s = f.wait_for(std::chrono::milliseconds(5)); finish();
  __spec_assert((s == dap::future_status::ready) == had0, "C16.timed_wait_ready_iff_set");
  if (had0) __spec_cover("C16.ready"); else __spec_cover("C16.timeout");
}
extern "C" void harness_wait_until() {
  Pr p; Fu f = p.get_future(); guards(p.state.get()); begin(1);
  dap::future_status s = f.wait_until(std::chrono::time_point<std::chrono::steady_clock>()); finish();
  __spec_assert((s == dap::future_status::ready) == had0, "C16.timed_wait_ready_iff_set");
}
extern "C" void harness_set_copy() {
  Pr p; guards(p.state.get()); begin(2);
  const T v = __uf_VAL(); p.set_value(v); finish();
  __spec_assert(v == __uf_VAL(), "C16.callers_value_kept");
  __spec_assert(effect, "C16.value_is_set");
}
extern "C" void harness_set_move() {
  Pr p; guards(p.state.get()); begin(2);
  T v = __uf_VAL(); p.set_value(static_cast<T&&>(v)); finish();
  __spec_assert(effect, "C16.value_is_set");
}
extern "C" void harness_lifetime() {
  unsigned long h0 = __spec_live_heap();
  {
    op = 2; had_last = false; effect = false; mon_debt = false; mon_in_wait = false;
    Pr* p = new Pr; Fu f = p->get_future(); st = p->state.get();
    p->set_value(__uf_VAL());
    delete p;                                   // the state outlives the promise
    op = 0; had_last = true;
    __spec_assert(f.get() == __uf_VAL(), "C16.state_outlives_promise");
  }
  {
    Pr p; { Fu f = p.get_future(); }
    st = p.state.get(); op = 2; had_last = false; effect = false;
    p.set_value(__uf_VAL());                    // and the future
    Fu g = p.get_future(); op = 0; had_last = true;
    __spec_assert(g.get() == __uf_VAL(), "C16.later_future_gets_the_value");
  }
  __spec_assert(__spec_live_heap() == h0, "C16.state_freed");
}
