// Monitor reasoning: a mutex protects shared state with an invariant. Taking the lock makes the
// steps of all other threads visible (the state is any state satisfying the invariant); releasing
// it must re-establish the invariant and be an allowed step of the running operation.
// Sleepers on the condition variable are counted:
//   mon_sleeping  threads asleep on the condition variable whose predicate was false when they slept
//   mon_debt      this thread has left the monitor owing a notify_all (notification after unlock)
//   mon_odebt     some other thread owes one
// With MON_COUNTED (a second, independent argument, for code that wakes one sleeper per item):
//   mon_woken     threads notified and on their way back to the mutex
//   mon_odebts    notify_one calls other threads owe,  mon_debts  this thread owes
// The unit supplies  bool mon_inv()  via mon_havoc() / mon_check().
#ifndef IRV_MONITOR_H
#define IRV_MONITOR_H
#include <spec.h>
#define SPEC_MONITOR
extern "C" {
unsigned long mon_sleeping;
bool mon_debt;
bool mon_odebt;
bool mon_in_wait;
unsigned long mon_woken, mon_odebts, mon_debts;
bool mon_waiter;
}
static void mon_havoc(void* m);   // any state of the protected data satisfying the invariant
static void mon_exit_check(void* m, bool sleeping);  // obligations on leaving the critical section
static void mon_enter(void* m) {
  bool g = __spec_guard_enable(false);
  mon_sleeping = __spec_nondet_u64();
  __spec_assume(mon_sleeping < (1ul << 60));
  mon_odebt = __spec_nondet_bool();
  mon_woken = __spec_nondet_u64(); mon_odebts = __spec_nondet_u64();
  __spec_assume((mon_woken < (1ul << 60)) & (mon_odebts < (1ul << 60)));
  mon_havoc(m);
#ifdef MON_COUNTED
  if (mon_waiter) {                 // this thread was one of the sleeping or notified ones
    bool sp = __spec_nondet_bool();
    __spec_assume(sp ? mon_sleeping > 0 : mon_woken > 0);
    mon_sleeping -= sp; mon_woken -= !sp;
    mon_waiter = false;
  }
#endif
  __spec_guard_enable(g);
}
static void mon_exit(void* m) {
  bool g = __spec_guard_enable(false);
  mon_exit_check(m, mon_in_wait);
  __spec_guard_enable(g);
}
static void mon_notify(bool all) {
  // notify_one wakes an arbitrary one of the sleepers, notify_all every one
#ifdef MON_COUNTED
  bool s = mon_sleeping > 0;
  if (all) { mon_woken += mon_sleeping; mon_sleeping = 0; mon_debt = false; mon_debts = 0; }
  else { mon_woken += s; mon_sleeping -= s; mon_debts -= mon_debts > 0; }
  return;
#endif
  if (all) { mon_sleeping = 0; mon_debt = false; }
  else if (mon_sleeping == 1) { mon_sleeping = 0; mon_debt = false; }
  else if (mon_sleeping > 1) mon_sleeping--;
}
#define SPEC_LOCK(m) mon_enter(m)
#define SPEC_UNLOCK(m) mon_exit(m)
#define SPEC_NOTIFY(cv, all) mon_notify(all)
#define SPEC_WAIT(cv, l, p) mon_wait(l, p)
#define SPEC_WAIT1(cv, l) mon_wait1(l)
#define SPEC_TIMED_WAIT(cv, l, p) mon_timed_wait(l, p)
template <class L> static void mon_block(L& l) {
  mon_sleeping++;
  mon_in_wait = true;
  l.unlock();
  mon_in_wait = false; mon_waiter = true;
  l.lock();
}
template <class L, class P> static void mon_wait(L& l, P p) {
  if (!p()) {
    mon_block(l);
    if (!p()) {              // woken early: sleeps again, from any state satisfying the invariant
      mon_block(l);
      bool b = p();
      __spec_assume(b);
    }
  }
}
template <class L> static void mon_wait1(L& l) { mon_block(l); }
template <class L, class P> static bool mon_timed_wait(L& l, P p) {
  if (p()) return true;
  mon_block(l);              // returns by notification, spuriously, or by timeout
  if (p()) return true;
  if (__spec_nondet_bool()) return p();
  mon_block(l);
  return p();
}
#endif
