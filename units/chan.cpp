// Contracts for dap::Chan (C06), decided per operation under monitor reasoning.
#include "../spec/monitor.h"
#include "../spec/token.h"
#include "../src/chan.h"
typedef dap::Chan<Tok> Q;
extern "C" {
unsigned long __uf_P(unsigned long);   // content of the queue when the lock was taken, by index
int op;                       // running operation: 0 take 1 put 2 close 3 reset
bool effect;                  // it has taken effect
bool got_item;
unsigned long item;           // the item taken / put
unsigned long lo0, hi0;       // queue content [lo0,hi0) when the lock was taken
bool closed0;
unsigned long epoch;
}
static Q* q;
static std::deque<Tok>& dq() { return q->queue.__d; }
// invariant: no one sleeps while an item is available or the queue is closed
// (unless a thread still owes the notification)
static bool inv() {
#ifdef MON_COUNTED
  // at least as many threads are on their way as there are items, unless nobody sleeps
  return (mon_sleeping == 0) | ((!q->closed | mon_odebt | mon_debt) & (__seq_size(&dq().__s) <= mon_woken + mon_odebts + mon_debts));
#endif
  bool avail = (__seq_size(&dq().__s) > 0) | q->closed;
  return !avail | (mon_sleeping == 0) | mon_odebt | mon_debt;
}
extern "C" bool cand_inv() { __spec_guard_enable(false); return inv(); }
static void mon_havoc(void*) {
  lo0 = __spec_nondet_u64(); hi0 = __spec_nondet_u64();
  __spec_assume(lo0 <= hi0 && hi0 < (1ul << 60));
  closed0 = __spec_nondet_bool();
  q->closed = closed0;
  __seq_stream_abs(&dq().__s, 8, "P", lo0, hi0);
  __spec_assume(inv());
}
static void mon_exit_check(void*, bool sleeping) {
  unsigned long n = __seq_size(&dq().__s), n0 = hi0 - lo0;
  unsigned long k = __spec_nondet_u64();
  bool same = (n == n0) & (q->closed == closed0);
  if (sleeping) {
    __spec_assert(op == 0, "C06.only_take_blocks");
    __spec_assert((n == 0) & !q->closed, "C06.blocks_only_while_open_and_empty");
    __spec_assert(same, "C06.no_effect_before_blocking");
  } else if (effect || (same && op != 3 && !(op == 2 && closed0))) {
    // nothing left to do in this critical section
    __spec_assert(same, "C06.single_effect");
    if (k < n) __spec_assert(dq()[k] == __uf_P(lo0 + k), "C06.content_unchanged");
    if (op == 0 && !effect && n0 == 0 && closed0) { got_item = false; effect = true; }
  } else if (op == 0) {
    __spec_assert(q->closed == closed0, "C06.take_keeps_state");
    __spec_assert((n0 > 0) & (n == n0 - 1), "C06.take_removes_one");
    if (k < n) __spec_assert(dq()[k] == __uf_P(lo0 + 1 + k), "C06.take_removes_the_oldest");
    got_item = true; item = __uf_P(lo0); effect = true;
  } else if (op == 1) {
    __spec_assert(q->closed == closed0, "C06.put_keeps_state");
    __spec_assert(n == n0 + 1, "C06.put_adds_one");
    if (k < n0) __spec_assert(dq()[k] == __uf_P(lo0 + k), "C06.put_keeps_the_others_in_order");
    if (n == n0 + 1) __spec_assert(dq()[n0] == item, "C06.put_appends_the_item");
    effect = true;
  } else if (op == 2) {
    __spec_assert(q->closed, "C06.close_closes");
    __spec_assert(n == n0, "C06.close_keeps_items");
    if (k < n) __spec_assert(dq()[k] == __uf_P(lo0 + k), "C06.close_keeps_items");
    effect = true;
  } else {
    __spec_assert((n == 0) & !q->closed, "C06.reset_empties_and_reopens");
    effect = true;
  }
  bool avail = (n > 0) | q->closed;
#ifdef MON_COUNTED
  if (q->closed & (mon_sleeping > 0) & !mon_odebt) mon_debt = true;
  if (!inv()) { mon_debts++; if (!inv()) __spec_assert(false, "C06.sleepers_woken"); }
#else
  if (avail & (mon_sleeping > 0) & !mon_odebt) mon_debt = true;   // must notify later
#endif
  (void)epoch;
}
static void start(Q* c, int o) {
  q = c; op = o; effect = false; mon_debt = false; mon_in_wait = false; mon_debts = 0; mon_waiter = false;
  __spec_guard(&c->closed, sizeof(c->closed), &c->mutex.__held);
  __spec_guard(&c->queue, sizeof(c->queue), &c->mutex.__held);
  __spec_guard_enable(true);
}
static void finish(Q* c) {
  __spec_guard_enable(false);
  __spec_assert(effect, "C06.operation_takes_effect");
  __spec_assert(!mon_debt & (mon_debts == 0), "C06.sleepers_woken");
  __spec_assert(!c->mutex.__held, "LOCK.released");
}
extern "C" void harness_init() {
  Q c; q = &c;
  mon_sleeping = 0; mon_debt = false; mon_odebt = false; mon_debts = 0; mon_odebts = 0; mon_woken = 0;
  __spec_assert(__seq_size(&dq().__s) == 0 && !c.closed, "C06.starts_open_and_empty");
  __spec_assert(inv(), "C06.inv_initially");
}
extern "C" void harness_take() {
  Q c; start(&c, 0);
  dap::optional<Tok> r = c.take();
  finish(&c);
  __spec_assert(r.has_value() == got_item, "C06.result_present_iff_item");
  if (got_item) { __spec_cover("C06.took"); __spec_assert(r.value() == item, "C06.result_is_the_oldest_item"); }
  else __spec_cover("C06.drained");
}
extern "C" void harness_put_copy() {
  Q c; item = __spec_nondet_u64(); const Tok v = item;
  start(&c, 1); c.put(v); finish(&c);
  __spec_assert(v == item, "C06.callers_item_kept");
}
extern "C" void harness_put_move() {
  Q c; item = __spec_nondet_u64(); Tok v = item;
  start(&c, 1); c.put(static_cast<Tok&&>(v)); finish(&c);
}
extern "C" void harness_close() { Q c; start(&c, 2); c.close(); finish(&c); }
extern "C" void harness_reset() { Q c; start(&c, 3); c.reset(); finish(&c); }
