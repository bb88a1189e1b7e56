// locks, maps, atomics and threads: what the session does with them is observed, not assumed
extern "C" {
unsigned long held_locks;          // bit i: lock number i is held by the running thread
int n_locks;
const void* lock_id[12];
bool ob_on;                        // observation switched on (after set-up of the harness itself)
bool env_on;                       // other threads run
}
static int lock_no(const void* m) {
  for (int i = 0; i < n_locks; i++) if (lock_id[i] == m) return i;
  lock_id[n_locks] = m;
  return n_locks++;
}
static void env_step();
#undef SPEC_LOCK
#undef SPEC_UNLOCK
#define SPEC_LOCK(m) (env_step(), held_locks |= 1ul << lock_no(m))
#define SPEC_UNLOCK(m) (held_locks &= ~(1ul << lock_no(m)))
// lockset discipline: every shared container is always used under one and the same lock
struct Shared { const void* p; unsigned long locks; };
static Shared g_shared[12];
static int n_shared;
static void shared_access(const void* p, unsigned long init) {
  for (int i = 0; i < n_shared; i++)
    if (g_shared[i].p == p) {
      g_shared[i].locks &= held_locks;
      __spec_assert(g_shared[i].locks != 0, "LOCK.shared_state_used_under_its_lock");
      return;
    }
  g_shared[n_shared].p = p; g_shared[n_shared].locks = init & held_locks; n_shared++;
  __spec_assert(held_locks != 0, "LOCK.shared_state_used_under_its_lock");
}
static const void* g_session;      // the object under test
#define SPEC_MAP(m) do { if (ob_on && g_session && __spec_same_region(m, g_session)) shared_access(m, ~0ul); } while (0)
#define SPEC_FNCALL(f) do { if (ob_on && g_session && __spec_same_region(f, g_session)) shared_access(f, ~0ul); } while (0)
// the table of pending requests (keyed by sequence number), wherever it lives
namespace std { template <class K, class V, class H, bool S> class unordered_map; }
static void* pending_map;
static bool (*pending_has)(long);
static void (*pending_take)(long);
template <class K, class V, class H, bool S> struct PendOps {
  static bool has(long s) { bool o = ob_on; ob_on = false; bool r = static_cast<std::unordered_map<K, V, H, S>*>(pending_map)->count(static_cast<K>(s)) > 0; ob_on = o; return r; }
  static void take(long s) { bool o = ob_on; ob_on = false; static_cast<std::unordered_map<K, V, H, S>*>(pending_map)->erase(static_cast<K>(s)); ob_on = o; }
};
template <class M> static void map_new(M*) {}
template <class V, class H, bool S> static void map_new(std::unordered_map<long, V, H, S>* m) { pending_map = m; pending_has = PendOps<long, V, H, S>::has; pending_take = PendOps<long, V, H, S>::take; }
template <class V, class H, bool S> static void map_new(std::unordered_map<int, V, H, S>* m) { pending_map = m; pending_has = PendOps<int, V, H, S>::has; pending_take = PendOps<int, V, H, S>::take; }
#define SPEC_MAP_NEW(m) map_new(m)
// sequence numbers: a read-modify-write claims the value it returns
extern "C" {
unsigned long claimed; bool have_claim;
}
template <class T> static void rmw(T, T) {}
static void rmw(unsigned o, unsigned n) { if (n > o) { claimed = o; have_claim = true; } }
static void rmw(int o, int n) { if (n > o) { claimed = static_cast<unsigned long>(o); have_claim = true; } }
#define SPEC_ATOMIC(p) env_num(const_cast<T&>((p)->__v))
#define SPEC_ATOMIC_RMW(o, n) rmw(o, n)
template <class T> static void env_num(T&) {}
static void env_num(unsigned& v) { if (env_on) { unsigned w = __spec_nondet_u32(); __spec_assume((w >= v) & (w < 0x7ffffff0u)); v = w; } }
static void env_num(int& v) { if (env_on) { unsigned w = __spec_nondet_u32(); __spec_assume((w >= static_cast<unsigned>(v)) & (w < 0x7ffffff0u)); v = static_cast<int>(w); } }
// threads
#define SPEC_THREAD(t, f) session_thread(t, std::function<void()>(f))
#define SPEC_JOIN(t) session_join(t)
#define SPEC_DETACH(t) __spec_assert(false, "C22.threads_are_joined")
#define SPEC_THREAD_MOVE(to, from) session_thread_move(to, from)
namespace std { class thread; template <class T> class function; }
template <class F> static void session_thread(std::thread*, F);
static void session_join(std::thread*);
static void session_thread_move(std::thread*, std::thread*);
