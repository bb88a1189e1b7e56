// Contracts for RWMutex, RLock and WLock (C17) under monitor reasoning with a wake-up baton.
#include <spec.h>
#define SPEC_MONITOR
extern "C" {
int op;                 // 0 lockReader 1 unlockReader 2 lockWriter 3 unlockWriter
bool effect, waited, pending_me, mydebt, odebt, in_wait, excl;
unsigned long sleeping, woken;   // writers asleep / notified and on their way to the mutex
int r0, p0;             // readers holding, writers waiting, when the mutex was taken
}
static void mon_enter(void* m);
static void mon_exit(void* m);
static void mon_notify(bool all) {
  if (all) { woken += sleeping; sleeping = 0; }
  else { bool s = sleeping > 0; woken += s; sleeping -= s; }
  mydebt = false;
}
#define SPEC_LOCK(m) mon_enter(m)
#define SPEC_UNLOCK(m) mon_exit(m)
#define SPEC_NOTIFY(cv, all) mon_notify(all)
template <class L> static void mon_block(L& l);
template <class L, class P> static void mon_wait(L& l, P p) {
  if (!p()) {
    mon_block(l);
    if (!p()) { mon_block(l); bool b = p(); __spec_assume(b); }
  }
}
template <class L, class P> static bool mon_timed_wait(L& l, P p) { __spec_assert(false, "C17.lock_waits_without_timeout"); return p(); }
#define SPEC_WAIT(cv, l, p) mon_wait(l, p)
#define SPEC_WAIT1(cv, l) mon_block(l)
#define SPEC_TIMED_WAIT(cv, l, p) mon_timed_wait(l, p)
#include "../src/rwmutex.h"

static dap::RWMutex* w;
template <class L> static void mon_block(L& l) {
  sleeping++; in_wait = true; waited = true;
  l.unlock();
  in_wait = false; pending_me = true;
  l.lock();
}
// A sleeping writer is never forgotten: once no reader holds the lock, some writer is on its way
// (and passes the baton on when it leaves), or a thread still owes a notification.
static bool baton() { return (sleeping == 0) | (w->readLocks > 0) | (woken > 0) | odebt | mydebt; }
// candidate loop invariants (hand-written waiting loops)
extern "C" bool cand_counted() {
  __spec_guard_enable(false);
  int me = w->pendingWriteLocks - static_cast<int>(sleeping + woken);
  return ((me == 0) | (me == 1)) & (sleeping < (1ul << 29)) & (woken < (1ul << 29)) & (w->readLocks == r0) & (r0 >= 0) & (r0 < (1 << 30));
}
extern "C" bool cand_me() { __spec_guard_enable(false); return w->pendingWriteLocks == static_cast<int>(sleeping + woken) + 1; }
extern "C" bool cand_not_me() { __spec_guard_enable(false); return w->pendingWriteLocks == static_cast<int>(sleeping + woken); }
extern "C" bool cand_baton() { __spec_guard_enable(false); return baton(); }
static void mon_enter(void*) {
  bool g = __spec_guard_enable(false);
  sleeping = __spec_nondet_u64(); woken = __spec_nondet_u64(); odebt = __spec_nondet_bool();
  __spec_assume((sleeping < (1ul << 29)) & (woken < (1ul << 29)));
  r0 = __spec_nondet_i32(); __spec_assume((r0 >= 0) & (r0 < (1 << 30)));
  if (op == 1) __spec_assume(r0 >= 1);       // the caller holds a read lock
  p0 = static_cast<int>(sleeping + woken);
  w->readLocks = r0; w->pendingWriteLocks = p0;
  __spec_assume(baton());
  if (pending_me) {                           // this writer was one of the sleeping or notified ones
    __spec_assume(sleeping + woken > 0);
    bool sp = __spec_nondet_bool();
    __spec_assume(sp ? sleeping > 0 : woken > 0);
    sleeping -= sp; woken -= !sp;
  }
  __spec_guard_enable(g);
}
static void mon_exit(void*) {
  bool g = __spec_guard_enable(false);
  int r = w->readLocks, p = w->pendingWriteLocks;
  if (in_wait) {
    __spec_assert(op == 2, "C17.readers_do_not_wait_for_each_other");
    __spec_assert(r > 0, "C17.writer_blocks_only_while_readers_hold");
    __spec_assert((r == r0) & (p == static_cast<int>(sleeping + woken)), "C17.waiting_writer_is_counted");
  } else {
    __spec_assert(op != 2, "C17.writer_keeps_others_out_while_it_holds");
    int dr = op == 0 ? 1 : op == 1 ? -1 : 0;
    bool none = (r == r0) & (dr != 0) & !effect;
    if (!none && !effect) { __spec_assert(r == r0 + dr, "C17.reader_count"); effect = true; }
    else __spec_assert(r == r0, "C17.reader_count");
    __spec_assert(p == p0, "C17.waiting_writers_unchanged");
    if (!baton()) mydebt = true;
  }
  __spec_guard_enable(g);
}
static void begin(dap::RWMutex* m, int o) {
  w = m; op = o; effect = false; waited = false; pending_me = false; mydebt = false; in_wait = false;
  __spec_guard_enable(true);
}
static void guards(dap::RWMutex* m) {
  __spec_guard(&m->readLocks, sizeof(m->readLocks), &m->mutex.__held);
  __spec_guard(&m->pendingWriteLocks, sizeof(m->pendingWriteLocks), &m->mutex.__held);
}
extern "C" void harness_init() {
  dap::RWMutex m; w = &m;
  __spec_assert((m.readLocks == 0) & (m.pendingWriteLocks == 0) & !m.mutex.__held, "C17.starts_free");
}
extern "C" void harness_lock_reader() {
  dap::RWMutex m; guards(&m); begin(&m, 0); m.lockReader(); __spec_guard_enable(false);
  __spec_assert(effect, "C17.reader_registered");
  __spec_assert(!m.mutex.__held, "C17.readers_share");
  __spec_assert(!mydebt, "C17.waiting_writer_woken");
}
extern "C" void harness_unlock_reader() {
  dap::RWMutex m; guards(&m); begin(&m, 1); m.unlockReader(); __spec_guard_enable(false);
  __spec_assert(effect, "C17.reader_unregistered");
  __spec_assert(!m.mutex.__held, "LOCK.released");
  __spec_assert(!mydebt, "C17.waiting_writer_woken");
}
extern "C" void harness_writer() {
  dap::RWMutex m; guards(&m); begin(&m, 2); m.lockWriter(); __spec_guard_enable(false);
  __spec_assert(m.mutex.__held, "C17.writer_excludes_others");
  __spec_assert(m.readLocks == 0, "C17.writer_excludes_readers");
  __spec_assert(m.pendingWriteLocks == static_cast<int>(sleeping + woken), "C17.waiting_writers_counted");
  if (waited) __spec_cover("C17.writer_waited"); else __spec_cover("C17.writer_at_once");
  // while it writes nobody else can change the protected state
  op = 3; r0 = m.readLocks; p0 = m.pendingWriteLocks; effect = true;
  __spec_guard_enable(true);
  m.unlockWriter();
  __spec_guard_enable(false);
  __spec_assert(!m.mutex.__held, "C17.writer_released");
  __spec_assert(!mydebt, "C17.waiting_writer_woken");
}
// ---- scoped locks, against the contracts of the four operations ---------------------------
extern "C" { long rh[3], wh[3]; }
static dap::RWMutex* mm[3];
static int idx(dap::RWMutex* m) { return m == mm[0] ? 0 : m == mm[1] ? 1 : 2; }
extern "C" void contract_lockReader(dap::RWMutex* m) { rh[idx(m)]++; }
extern "C" void contract_unlockReader(dap::RWMutex* m) { __spec_assert(rh[idx(m)] > 0, "C17.released_only_if_held"); rh[idx(m)]--; }
extern "C" void contract_lockWriter(dap::RWMutex* m) { __spec_assert(wh[idx(m)] == 0, "C17.pre.not_held"); wh[idx(m)]++; }
extern "C" void contract_unlockWriter(dap::RWMutex* m) { __spec_assert(wh[idx(m)] > 0, "C17.released_only_if_held"); wh[idx(m)]--; }
template <class L> static void scoped(long* h) {
  dap::RWMutex a, b, c; mm[0] = &a; mm[1] = &b; mm[2] = &c;
  for (int i = 0; i < 3; i++) rh[i] = wh[i] = 0;
  {
    L x(a);
    __spec_assert((h[0] == 1) & (h[1] == 0), "C17.scoped_acquires");
    L y(b);
    __spec_assert((h[0] == 1) & (h[1] == 1), "C17.scoped_acquires");
    L z(static_cast<L&&>(x));            // z holds a, x nothing
    __spec_assert((h[0] == 1) & (h[1] == 1), "C17.move_keeps_the_lock");
    bool self = __spec_choice(), xempty = __spec_choice();
    if (self) {
      L& r = z; z = static_cast<L&&>(r);
      __spec_assert((h[0] == 1) & (h[1] == 1), "C17.self_move_keeps_the_lock");
    } else if (xempty) {
      x = static_cast<L&&>(y);           // x empty, takes b
      __spec_assert((h[0] == 1) & (h[1] == 1), "C17.move_assign_takes_over");
    } else {
      z = static_cast<L&&>(y);           // z releases a, holds b
      __spec_assert((h[0] == 0) & (h[1] == 1), "C17.move_assign_releases_the_held_lock");
    }
    L q(c);
    y = static_cast<L&&>(q);
    __spec_assert(h[2] == 1, "C17.move_assign_takes_over");
  }
  __spec_assert((h[0] == 0) & (h[1] == 0) & (h[2] == 0), "C17.scoped_releases_exactly_once");
}
extern "C" void harness_rlock() { scoped<dap::RLock>(rh); __spec_assert((wh[0] | wh[1] | wh[2]) == 0, "C17.right_kind"); }
// two reader locks of one mutex: assigning one to the other gives one of them up
extern "C" void harness_rlock_same() {
  dap::RWMutex a; mm[0] = &a; mm[1] = mm[2] = nullptr;
  for (int i = 0; i < 3; i++) rh[i] = wh[i] = 0;
  {
    dap::RLock x(a);
    { dap::RLock y(a); x = static_cast<dap::RLock&&>(y); __spec_assert(rh[0] == 1, "C17.move_assign_releases_the_held_lock"); }
    __spec_assert(rh[0] == 1, "C17.move_assign_takes_over");
    __spec_cover("C17.same_mutex");
  }
  __spec_assert((rh[0] == 0) & (wh[0] == 0), "C17.scoped_releases_exactly_once");
}
extern "C" void harness_wlock() { scoped<dap::WLock>(wh); __spec_assert((rh[0] | rh[1] | rh[2]) == 0, "C17.right_kind"); }
