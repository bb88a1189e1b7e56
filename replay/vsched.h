// Deterministic scheduler for the real code: std::mutex, condition_variable, thread and atomic are
// replaced (by renaming, after the standard headers were read) with versions that run all threads as
// fibers and let an explorer choose every switch. Exhaustive up to a preemption bound, then random.
// With -DREP_REAL the same scenarios run on real threads (for ThreadSanitizer / AddressSanitizer).
#ifndef SCHED_H
#define SCHED_H
#include "rep.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ucontext.h>

namespace vs {
static std::string scenario;
#ifdef REP_REAL
static std::atomic<long> beat{0};
inline void step() { std::this_thread::yield(); }
inline void watchdog() {
  static bool started = false;
  if (started) return;
  started = true;
  std::thread([] {
    long last = -1; int same = 0;
    for (;;) {
      std::this_thread::sleep_for(std::chrono::seconds(1));
      long b = beat.load();
      same = b == last ? same + 1 : 0; last = b;
      if (same >= 40) { rep::current = scenario; rep::fail("threads did not finish: deadlock or lost wake-up"); }
    }
  }).detach();
}
// runs the threads to completion, then check()
template <class Setup> void explore(const char* name, double seconds, Setup setup, int = 0) {
  scenario = name; watchdog();
  auto t0 = std::chrono::steady_clock::now();
  long n = 0;
  do {
    std::vector<std::function<void()>> fs; std::function<void()> check;
    setup(fs, check);
    std::vector<std::thread> ts;
    for (auto& f : fs) ts.emplace_back(f);
    for (auto& t : ts) t.join();
    rep::current = scenario;
    if (check) check();
    beat++; n++;
    rep::ran(std::string(name) + " #" + std::to_string(n));
  } while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < seconds && n < 4000);
}
inline bool virtual_mode() { return false; }
#else
struct Fiber;
enum St { READY, BLOCK_MUTEX, BLOCK_CV, BLOCK_JOIN, DONE };
struct Mutex { Fiber* owner = nullptr; };
struct Fiber {
  ucontext_t ctx; char* stack; std::function<void()> fn; St st; int id; bool timed; bool timedout;
  const void* on; Fiber* joining;
};
static const size_t STACK = 256 * 1024;
static std::vector<char*> stacks;
static std::vector<Fiber*> fibers;
static Fiber* cur = nullptr;
static ucontext_t main_ctx;
static std::vector<std::pair<int, int>> path;   // (choice, alternatives)
static size_t depth = 0;
static int budget = 0, bound = 2;
static bool randomized = false;
static rep::Rng rg{1};
static std::string trace;
static long switches = 0;
static std::vector<std::pair<int, std::string>> log_;
inline int choose(int n) {
  if (n <= 1) return 0;
  if (randomized) { int c = static_cast<int>(rg.below(n)); path.push_back({c, n}); depth++; return c; }
  if (depth < path.size()) { return path[depth++].first; }
  path.push_back({0, n}); depth++;
  return 0;
}
inline std::string show() {
  std::string s = scenario + " schedule [";
  for (auto& l : log_) s += " T" + std::to_string(l.first) + ":" + l.second;
  return s.substr(0, 3500) + " ]";
}
inline void note(const char* w) { if (cur && log_.size() < 400) log_.push_back({cur->id, w}); }
inline bool runnable(Fiber* f) {
  if (f->st == READY) return true;
  if (f->st == BLOCK_MUTEX) return static_cast<const Mutex*>(f->on)->owner == nullptr;
  if (f->st == BLOCK_CV) return f->timed;
  if (f->st == BLOCK_JOIN) return f->joining->st == DONE;
  return false;
}
inline void deadlock() {
  std::string s = "deadlock or lost wake-up:";
  for (auto f : fibers) if (f->st != DONE) s += " T" + std::to_string(f->id) + (f->st == BLOCK_CV ? " sleeps on a condition variable" : f->st == BLOCK_MUTEX ? " waits for a mutex" : f->st == BLOCK_JOIN ? " joins a thread" : " ready");
  rep::current = show();
  rep::fail("%s", s.c_str());
}
// called by the running fiber with its own state set; returns when scheduled again
inline void reschedule(bool voluntary) {
  std::vector<Fiber*> r;
  bool curok = cur && cur->st == READY && !voluntary;
  if (cur && runnable(cur) && cur->st != BLOCK_CV) r.push_back(cur);
  for (auto f : fibers) if (f != cur && runnable(f) && !(f->st == BLOCK_CV)) r.push_back(f);
  // timeouts fire only when chosen as a preemption, or when nothing else can run
  std::vector<Fiber*> t;
  for (auto f : fibers) if (f->st == BLOCK_CV && f->timed) t.push_back(f);
  if (r.empty() || budget > 0) for (auto f : t) r.push_back(f);
  if (r.empty()) {
    bool all = true;
    for (auto f : fibers) all = all && f->st == DONE;
    if (!all) deadlock();
    Fiber* me = cur; cur = nullptr;
    swapcontext(&me->ctx, &main_ctx);
    return;
  }
  if (++switches > 20000) { rep::current = show(); rep::fail("no progress: livelock after 20000 steps"); }
  int c;
  if (curok && budget <= 0) c = 0; else c = choose(static_cast<int>(r.size()));
  Fiber* nx = r[c];
  if (curok && nx != cur) budget--;
  else if (nx->st == BLOCK_CV) budget--;
  if (nx->st == BLOCK_CV) nx->timedout = true;
  nx->st = READY;
  if (nx == cur) return;
  Fiber* me = cur; cur = nx;
  swapcontext(&me->ctx, &nx->ctx);
}
inline void step() { if (cur) reschedule(false); }
inline void entry() {
  { std::function<void()> f = std::move(cur->fn); f(); }
  cur->st = DONE;
  reschedule(false);
  abort();
}
inline Fiber* spawn(std::function<void()> fn) {
  Fiber* f = new Fiber();
  f->id = static_cast<int>(fibers.size()); f->fn = std::move(fn); f->st = READY; f->timed = f->timedout = false; f->on = nullptr; f->joining = nullptr;
  if (stacks.size() <= fibers.size()) stacks.push_back(static_cast<char*>(malloc(STACK)));
  f->stack = stacks[fibers.size()];
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, entry, 0);
  fibers.push_back(f);
  return f;
}
template <class Setup> void once(Setup& setup, std::function<void()>& check) {
  fibers.clear(); log_.clear(); depth = 0; switches = 0; budget = bound; cur = nullptr;
  std::vector<std::function<void()>> fs;
  setup(fs, check);
  for (auto& f : fs) spawn(f);
  fs.clear();
  Fiber* first = fibers[choose(static_cast<int>(fibers.size()))];
  cur = first;
  swapcontext(&main_ctx, &first->ctx);
  cur = nullptr;
  rep::current = show();
  if (check) check();
  check = nullptr;
  for (auto f : fibers) delete f;
  fibers.clear();
}
// exhaustive up to `pb` preemptions (stops at the time limit), then random schedules
template <class Setup> void explore(const char* name, double seconds, Setup setup, int pb = 2) {
  scenario = name;
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  for (int b = 0; b <= pb && el() < seconds * 0.7; b++) {
    path.clear(); bound = b; randomized = false;
    long n = 0; bool full = false;
    for (;;) {
      std::function<void()> check;
      once(setup, check);
      n++;
      std::string key = scenario; for (auto& p : path) key += static_cast<char>('0' + p.first);
      rep::ran(key);
      while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back();
      if (path.empty()) { full = true; break; }
      path.back().first++;
      if (el() > seconds * 0.7) break;
    }
    rep::samples.push_back(scenario + ": " + std::to_string(n) + " schedules with at most " + std::to_string(b) + " preemptions" + (full ? " (all)" : ""));
  }
  rg = rep::rng(77); randomized = true; bound = 1000000;
  while (el() < seconds) { path.clear(); std::function<void()> check; once(setup, check); rep::ran(show()); if (randomized && path.empty()) break; }
}
inline bool virtual_mode() { return true; }
#endif
}  // namespace vs

#ifndef REP_REAL
namespace std {
class vs_mutex {
 public:
  vs::Mutex __m;
  vs_mutex() {}
  vs_mutex(const vs_mutex&) = delete;
  ~vs_mutex() { }
  void lock() {
    if (!vs::cur) { return; }
    vs::note("lock"); vs::step();
    while (__m.owner) {
      if (__m.owner == vs::cur) { rep::current = vs::show(); rep::fail("thread locks a mutex it already holds"); }
      vs::cur->st = vs::BLOCK_MUTEX; vs::cur->on = &__m; vs::reschedule(false);
    }
    __m.owner = vs::cur;
  }
  bool try_lock() { if (!vs::cur) return true; vs::step(); if (__m.owner) return false; __m.owner = vs::cur; return true; }
  void unlock() {
    if (!vs::cur) return;
    if (__m.owner != vs::cur) { rep::current = vs::show(); rep::fail("thread unlocks a mutex it does not hold"); }
    vs::note("unlock"); __m.owner = nullptr; vs::step();
  }
};
class vs_condition_variable {
  void block(unique_lock<vs_mutex>& l, bool timed) {
    if (!vs::cur) { rep::fail("wait outside a thread"); }
    vs::Fiber* me = vs::cur;
    vs::note(timed ? "timed-wait" : "wait");
    l.mutex()->__m.owner = nullptr;
    me->st = vs::BLOCK_CV; me->on = this; me->timed = timed; me->timedout = false;
    vs::reschedule(false);
    me->timed = false;
    vs::note("woken");
    while (l.mutex()->__m.owner) { me->st = vs::BLOCK_MUTEX; me->on = &l.mutex()->__m; vs::reschedule(false); }
    l.mutex()->__m.owner = me;
  }
 public:
  vs_condition_variable() {}
  vs_condition_variable(const vs_condition_variable&) = delete;
  void notify_all() {
    if (!vs::cur) { for (auto f : vs::fibers) if (f->st == vs::BLOCK_CV && f->on == this) f->st = vs::READY; return; }
    vs::note("notify_all");
    for (auto f : vs::fibers) if (f->st == vs::BLOCK_CV && f->on == this) f->st = vs::READY;
    vs::step();
  }
  void notify_one() {
    if (!vs::cur) return;
    vs::note("notify_one");
    std::vector<vs::Fiber*> w;
    for (auto f : vs::fibers) if (f->st == vs::BLOCK_CV && f->on == this) w.push_back(f);
    if (!w.empty()) w[vs::choose(static_cast<int>(w.size()))]->st = vs::READY;
    vs::step();
  }
  void wait(unique_lock<vs_mutex>& l) { block(l, false); }
  template <class P> void wait(unique_lock<vs_mutex>& l, P p) { while (!p()) block(l, false); }
  template <class R, class Pd, class P> bool wait_for(unique_lock<vs_mutex>& l, const chrono::duration<R, Pd>&, P p) { while (!p()) { block(l, true); if (vs::cur->timedout) return p(); } return true; }
  template <class C, class D, class P> bool wait_until(unique_lock<vs_mutex>& l, const chrono::time_point<C, D>&, P p) { while (!p()) { block(l, true); if (vs::cur->timedout) return p(); } return true; }
  template <class R, class Pd> cv_status wait_for(unique_lock<vs_mutex>& l, const chrono::duration<R, Pd>&) { block(l, true); return vs::cur->timedout ? cv_status::timeout : cv_status::no_timeout; }
  template <class C, class D> cv_status wait_until(unique_lock<vs_mutex>& l, const chrono::time_point<C, D>&) { block(l, true); return vs::cur->timedout ? cv_status::timeout : cv_status::no_timeout; }
};
class vs_thread {
  vs::Fiber* f;
 public:
  vs_thread() : f(nullptr) {}
  template <class F, class... A> explicit vs_thread(F&& fn, A&&... a) : f(vs::spawn(std::bind(std::forward<F>(fn), std::forward<A>(a)...))) { vs::note("start thread"); vs::step(); }
  vs_thread(vs_thread&& o) : f(o.f) { o.f = nullptr; }
  vs_thread& operator=(vs_thread&& o) { if (f) rep::fail("assignment over a joinable thread"); f = o.f; o.f = nullptr; return *this; }
  ~vs_thread() { if (f) { rep::current = vs::show(); rep::fail("a joinable thread is destroyed"); } }
  bool joinable() const { return f != nullptr; }
  void join() {
    if (!f) { rep::current = vs::show(); rep::fail("join of a thread that is not joinable"); }
    if (f == vs::cur) { rep::current = vs::show(); rep::fail("thread joins itself"); }
    vs::note("join");
    vs::cur->st = vs::BLOCK_JOIN; vs::cur->joining = f; vs::reschedule(false);
    f = nullptr;
  }
  void detach() { f = nullptr; }
  struct id { vs::Fiber* p; bool operator==(const id& o) const { return p == o.p; } bool operator!=(const id& o) const { return p != o.p; } };
  id get_id() const { return id{f}; }
};
template <class T> class vs_atomic {
  T v;
 public:
  vs_atomic() = default;
  constexpr vs_atomic(T x) : v(x) {}
  vs_atomic(const vs_atomic&) = delete;
  T load(memory_order = memory_order_seq_cst) const { vs::step(); return v; }
  void store(T x, memory_order = memory_order_seq_cst) { vs::step(); v = x; }
  T exchange(T x, memory_order = memory_order_seq_cst) { vs::step(); T o = v; v = x; return o; }
  bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { vs::step(); if (v == e) { v = d; return true; } e = v; return false; }
  bool compare_exchange_weak(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { return compare_exchange_strong(e, d); }
  operator T() const { vs::step(); return v; }
  T operator=(T x) { vs::step(); v = x; return x; }
  T operator++() { vs::step(); return ++v; }
  T operator++(int) { vs::step(); return v++; }
  T operator--() { vs::step(); return --v; }
  T operator--(int) { vs::step(); return v--; }
  T operator+=(T d) { vs::step(); return v += d; }
  T fetch_add(T d, memory_order = memory_order_seq_cst) { vs::step(); T o = v; v = o + d; return o; }
  T fetch_sub(T d, memory_order = memory_order_seq_cst) { vs::step(); T o = v; v = o - d; return o; }
};
}  // namespace std
#define mutex vs_mutex
#define condition_variable vs_condition_variable
#define thread vs_thread
#define atomic vs_atomic
#endif
#endif
