// Contracts for the type registry (C20): typeof.cpp, typeof.h, typeinfo.h. Exit handlers are those the
// compiled code registers, run in reverse order; other threads act at every atomic operation.
#include <spec.h>
#include <functional>
extern "C" {
int g_destroyed, g_locks;
unsigned long g_i, g_j;
bool g_env, g_in_env, g_env_ref, g_registering;
bool __spec_run_one_atexit();
}
static void env();
#define SPEC_LOCK(m) (__spec_assert(g_locks == 0, "LOCK.self_deadlock"), g_locks++)
#define SPEC_UNLOCK(m) (g_locks--)
#define SPEC_ATOMIC(p) env()
#define SPEC_VECTOR_WRITE(v) do { if (g_registering) __spec_assert(g_locks == 1, "C20.registration_is_serialised"); } while (0)
#include <mutex>
#include <atomic>
#include <string>
#include <vector>
#include <memory>
#include "dap/typeof.h"
#include "dap/serialization.h"
#include "dap/dap.h"
#include "../src/typeof.cpp"
#include "../src/typeinfo.cpp"
struct Probe : dap::TypeInfo {
  int d;
  Probe() : d(0) {}
  ~Probe() { d++; g_destroyed++; __spec_assert(d == 1, "C20.destroyed_exactly_once"); }
  std::string name() const override { return "probe"; }
  size_t size() const override { return 1; }
  size_t alignment() const override { return 1; }
  void construct(void*) const override {}
  void copyConstruct(void*, const void*) const override {}
  void destruct(void*) const override {}
  bool deserialize(const dap::Deserializer*, void*) const override { return true; }
  bool serialize(dap::Serializer*, const void*) const override { return true; }
};
// the thread we interleave with drops its reference at some atomic operation of ours
static void env() {
  if (!g_env || g_in_env || !g_env_ref) return;
  if (!__spec_choice()) return;
  g_in_env = true; g_env_ref = false;
  dap::terminate();
  g_in_env = false;
}
static const Probe* probe() {
  g_registering = true;
  const Probe* p = dap::TypeInfo::create<Probe>();
  g_registering = false;
  return p;
}
static void usable() {
  __spec_assert(g_destroyed == 0, "C20.alive_while_referenced");
  const dap::TypeInfo* t = dap::TypeOf<dap::integer>::type();
  std::string n = t->name();
  __spec_assert(n == "integer" && t->size() == sizeof(dap::integer), "C20.usable_while_referenced");
}
static void at_exit() { if (__spec_run_one_atexit()) if (__spec_run_one_atexit()) if (__spec_run_one_atexit()) if (__spec_run_one_atexit()) __spec_assert(!__spec_run_one_atexit(), "C20.all_exit_handlers_run"); }
extern "C" void harness_history() {
  g_destroyed = g_locks = 0; g_env = g_in_env = g_env_ref = g_registering = false;
  probe();
  usable();
  unsigned long n = __spec_nondet_u64(), k = __spec_nondet_u64();
  __spec_assume(k <= n && n < (1ul << 62));
  for (g_i = 0; g_i < n; g_i++) dap::initialize();
  usable();
  for (g_j = 0; g_j < k; g_j++) dap::terminate();
  usable();
  at_exit();
  if (k == n) __spec_assert(g_destroyed == 1, "C20.destroyed_by_the_last_user");
  else {
    usable();
    for (g_j = k; g_j < n - 1; g_j++) dap::terminate();
    usable();
    dap::terminate();
    __spec_assert(g_destroyed == 1, "C20.destroyed_by_the_last_user");
    __spec_cover("C20.outlives_exit");
  }
  __spec_cover("C20.destroyed");
}
// the last two references are dropped by two threads (or by exit and a thread) at the same time
extern "C" void harness_concurrent() {
  g_destroyed = g_locks = 0; g_env = g_in_env = g_registering = false;
  probe();
  dap::initialize(); g_env_ref = true;
  bool ex = __spec_choice();
  if (!ex) { dap::initialize(); at_exit(); }
  usable();
  g_env = true;
  if (ex) at_exit(); else dap::terminate();
  g_env = false;
  if (g_env_ref) { usable(); dap::terminate(); __spec_cover("C20.we_first"); } else __spec_cover("C20.interleaved");
  __spec_assert(g_destroyed == 1, "C20.destroyed_exactly_once");
}
// a reference taken and dropped while another thread drops its own
extern "C" void harness_concurrent_ref() {
  g_destroyed = g_locks = 0; g_env = g_in_env = g_registering = false;
  probe();
  dap::initialize(); g_env_ref = true;
  g_env = true;
  dap::initialize();
  g_env = false;
  if (g_env_ref) dap::terminate();
  at_exit();
  usable();
  dap::terminate();
  __spec_assert(g_destroyed == 1, "C20.destroyed_exactly_once");
}
namespace dap {
struct US { integer a; };
struct UD : US { integer b; };
struct UE { integer a; };
DAP_STRUCT_TYPEINFO(US, "us", DAP_FIELD(a, "a"));
DAP_STRUCT_TYPEINFO_EXT(UD, US, "ud", DAP_FIELD(b, "b"));
DAP_STRUCT_TYPEINFO(UE, "us", DAP_FIELD(a, "a"));
}
template <class T> static const dap::TypeInfo* query(const char* name) {
  g_registering = true;
  const dap::TypeInfo* t = dap::TypeOf<T>::type();
  g_registering = false;
  __spec_assert(dap::TypeOf<T>::type() == t, "C20.same_type_same_object");
  std::string n = t->name();
  if (name) __spec_assert(n == name, "C20.type_name");
  __spec_assert(t->size() == sizeof(T) && t->alignment() == alignof(T), "C20.size_and_alignment_of_the_type");
  return t;
}
extern "C" void harness_types() {
  g_destroyed = g_locks = 0; g_env = g_in_env = g_env_ref = g_registering = false;
  typedef dap::variant<dap::integer, dap::string> V1; typedef dap::variant<dap::string, dap::integer> V2;
  const dap::TypeInfo* t[] = {
    query<dap::boolean>("boolean"), query<dap::string>("string"), query<dap::integer>("integer"), query<dap::number>("number"),
    query<dap::object>("object"), query<dap::any>("any"), query<dap::null>("null"),
    query<dap::array<dap::integer>>("array<integer>"), query<dap::array<dap::string>>("array<string>"), query<dap::array<dap::US>>("array<us>"),
    query<dap::optional<dap::integer>>("optional<integer>"), query<dap::optional<dap::US>>("optional<us>"),
    query<dap::array<dap::optional<dap::integer>>>("array<optional<integer>>"), query<V1>(nullptr), query<V2>(nullptr),
    query<dap::US>("us"), query<dap::UD>("ud"), query<dap::UE>("us") };
  const unsigned n = sizeof(t) / sizeof(t[0]);
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < i; j++) __spec_assert(t[i] != t[j], "C20.distinct_types_distinct_objects");
  dap::initialize();
  probe();
  at_exit();
  // everything is still there
  __spec_assert(g_destroyed == 0, "C20.alive_while_referenced");
  for (unsigned i = 0; i < n; i++) { std::string s = t[i]->name(); __spec_assert(s.size() > 0 && t[i]->size() > 0, "C20.usable_while_referenced"); }
  __spec_assert(query<dap::US>("us") == t[15] && query<dap::array<dap::integer>>("array<integer>") == t[7], "C20.same_type_same_object");
  unsigned long heap = __spec_live_heap();
  dap::terminate();
  __spec_assert(g_destroyed == 1, "C20.destroyed_by_the_last_user");
  __spec_assert(__spec_live_heap() < heap, "C20.type_objects_released");
  __spec_cover("C20.all_types");
}
