// Concrete cases for the type registry (C20). Histories around process exit run in child processes (this
// program again, with "child"); with -DREP_REAL many threads use types for the first time at once.
#include "rep.h"
#include <sys/wait.h>
#include <thread>
#include <atomic>
#include <map>
#include "dap/dap.h"
#include "dap/protocol.h"
#include "dap/typeof.h"
#include "dap/any.h"
#include "dap/serialization.h"
struct Plan { int inits, before, by_thread; unsigned use; bool probe_first; };
static Plan plan; static bool child; static int destroyed;
struct Probe : dap::TypeInfo {
  int alive = 12345;
  ~Probe() { if (alive != 12345) { printf("CHILD destroyed twice\n"); fflush(stdout); _exit(9); } alive = 0; destroyed++; }
  std::string name() const override { return "probe"; }
  size_t size() const override { return 1; }
  size_t alignment() const override { return 1; }
  void construct(void*) const override {}
  void copyConstruct(void*, const void*) const override {}
  void destruct(void*) const override {}
  bool deserialize(const dap::Deserializer*, void*) const override { return true; }
  bool serialize(dap::Serializer*, const void*) const override { return true; }
};
#define CHECK(c, ...) do { if (!(c)) { printf("CHILD "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(9); } } while (0)
namespace dap {
struct US { integer a; string s; };
struct UD : US { integer b; };
DAP_DECLARE_STRUCT_TYPEINFO(US); DAP_DECLARE_STRUCT_TYPEINFO(UD);
DAP_IMPLEMENT_STRUCT_TYPEINFO(US, "us", DAP_FIELD(a, "a"), DAP_FIELD(s, "s"));
DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(UD, US, "ud", DAP_FIELD(b, "b"));
}
struct Q { const dap::TypeInfo* (*f)(); const char* name; size_t size, align; };
#define QUERY(T, n) {&dap::TypeOf<T>::type, n, sizeof(T), alignof(T)}
typedef dap::variant<dap::integer, dap::string> V1; typedef dap::variant<dap::string, dap::integer> V2;
static const Q qs[] = { QUERY(dap::boolean, "boolean"), QUERY(dap::string, "string"), QUERY(dap::integer, "integer"), QUERY(dap::number, "number"), QUERY(dap::object, "object"), QUERY(dap::any, "any"), QUERY(dap::null, "null"),
  QUERY(dap::array<dap::integer>, "array<integer>"), QUERY(dap::array<dap::string>, "array<string>"), QUERY(dap::array<dap::US>, "array<us>"), QUERY(dap::optional<dap::integer>, "optional<integer>"), QUERY(dap::optional<dap::UD>, "optional<ud>"),
  QUERY(dap::array<dap::optional<dap::number>>, "array<optional<number>>"), QUERY(V1, nullptr), QUERY(V2, nullptr), QUERY(dap::US, "us"), QUERY(dap::UD, "ud"), QUERY(dap::Source, nullptr), QUERY(dap::optional<dap::Source>, nullptr), QUERY(dap::array<dap::Thread>, nullptr), QUERY(dap::StackFrame, nullptr) };
static const size_t NQ = sizeof(qs) / sizeof(qs[0]);
static const dap::TypeInfo* seen[NQ];
static void use(unsigned mask, const char* when) {
  for (size_t i = 0; i < NQ; i++) if (mask >> i & 1) {
    auto t = qs[i].f();
    CHECK(t, "no type object");
    if (!seen[i]) seen[i] = t;
    CHECK(seen[i] == t, "type %zu has another type object %s", i, when);
    CHECK(t->size() == qs[i].size && t->alignment() == qs[i].align, "size or alignment of type %zu (%s) wrong %s: %zu/%zu", i, qs[i].name ? qs[i].name : "", when, t->size(), t->alignment());
    std::string n = t->name();
    CHECK(!qs[i].name || n == qs[i].name, "type %zu is called '%s' %s", i, n.c_str(), when);
    for (size_t j = 0; j < i; j++) CHECK(!seen[j] || seen[j] != t, "types %zu and %zu share a type object %s", j, i, when);
    void* p = malloc(t->size()); t->construct(p); void* q = malloc(t->size()); t->copyConstruct(q, p); t->destruct(p); t->destruct(q); free(p); free(q);
  }
}
// destroyed after everything the library registered for exit
struct Last {
  dap::any* held = nullptr;
  ~Last() {
    if (!child) return;
    int n = plan.inits - plan.before;
    for (int i = 0; i < n; i++) {
      CHECK(destroyed == 0, "the registry is gone after exit although %d initialize calls are not matched", n - i);
      use(plan.use, "after exit");
      if (i == n - 1 && held) { CHECK(held->is<dap::Source>() && held->get<dap::Source>().name.value("") == "held", "value lost"); delete held; held = nullptr; }
      dap::terminate();
    }
    CHECK(destroyed == 1, "the registry was destroyed %d times", destroyed);
    printf("CHILD fine\n"); fflush(stdout);
  }
};
__attribute__((init_priority(200))) static Last last;
static void run_child() {
  child = true;
  if (plan.by_thread < 0) {   // many threads initialize, then many threads terminate, at the same time
    dap::TypeInfo::create<Probe>();
    for (auto f : {dap::initialize, dap::terminate}) {
      std::vector<std::thread> ts; std::atomic<int> go{0};
      for (int t = 0; t < 4; t++) ts.emplace_back([&, f] { go++; while (go < 4) {} for (int k = 0; k < plan.inits; k++) f(); });
      for (auto& t : ts) t.join();
      CHECK(destroyed == 0, "the registry is gone before exit although every terminate matched an initialize");
    }
    use(plan.use, "before exit");
    plan.before = plan.inits;
    exit(0);
  }
  if (plan.probe_first) dap::TypeInfo::create<Probe>();
  for (int i = 0; i < plan.inits; i++) dap::initialize();
  if (!plan.probe_first) dap::TypeInfo::create<Probe>();
  use(plan.use, "at first");
  use(plan.use, "again");
  if (plan.inits > plan.before) { dap::Source s; s.name = "held"; last.held = new dap::any(s); }
  std::vector<std::thread> ts;
  for (int i = 0; i < plan.before; i++) { if (i < plan.by_thread) ts.emplace_back([] { dap::terminate(); }); else dap::terminate(); CHECK(destroyed == 0, "the registry is gone before exit"); }
  for (auto& t : ts) t.join();
  CHECK(destroyed == 0, "the registry is gone before exit");
  use(plan.use, "before exit");
  exit(0);
}
int main(int argc, char** argv) {
  if (argc > 1 && !strcmp(argv[1], "child")) {
    plan.inits = atoi(argv[2]); plan.before = atoi(argv[3]); plan.by_thread = atoi(argv[4]); plan.use = strtoul(argv[5], nullptr, 10); plan.probe_first = atoi(argv[6]);
    run_child();
  }
  rep::init(argc, argv);
  rep::Rng r = rep::rng(3);
#ifdef REP_REAL
  auto one = [&](uint64_t n) {
    int p[2]; if (pipe(p)) return;
    rep::current = "threads use types for the first time at once #" + std::to_string(n);
    rep::ran(rep::current);
    fflush(stdout);
    pid_t c = fork();
    if (!c) {
      close(p[0]); dup2(p[1], 1); dup2(p[1], 2);
      std::string x = std::to_string(n % 7);
      execl("/proc/self/exe", "reg", "race", x.c_str(), static_cast<char*>(nullptr)); _exit(77);
    }
    close(p[1]); std::string out; char b[512]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(k)); close(p[0]);
    int st = 0; waitpid(c, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return;
    if (out.find("FATAL: ThreadSanitizer") != std::string::npos && out.find("data race") == std::string::npos) return;
    REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s", out.substr(0, 3000).c_str());
  };
  if (argc > 1 && !strcmp(argv[1], "race")) {
    std::vector<std::thread> ts; std::atomic<int> go{0};
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] { go++; while (go < 4) {} if (t == 1) dap::initialize(); for (size_t i = t; i < NQ; i += 4) qs[i].f()->name(); for (size_t i = 0; i < NQ; i++) qs[i].f()->name(); if (t == 1) dap::terminate(); });
    for (auto& t : ts) t.join();
    return 0;
  }
  for (uint64_t n = 0; !rep::out_of_time() && n < 100; n++) one(n);
#else
  auto one = [&](Plan q) {
    int p[2]; if (pipe(p)) return;
    char a[6][24]; snprintf(a[0], 24, "%d", q.inits); snprintf(a[1], 24, "%d", q.before); snprintf(a[2], 24, "%d", q.by_thread); snprintf(a[3], 24, "%u", q.use); snprintf(a[4], 24, "%d", q.probe_first);
    rep::current = std::string(a[0]) + " initialize, " + a[1] + " terminate before exit (" + a[2] + " from threads), the rest after; types used " + a[3] + (q.probe_first ? ", used before initialize" : "");
    rep::ran(rep::current);
    fflush(stdout);
    pid_t c = fork();
    if (!c) { close(p[0]); dup2(p[1], 1); dup2(p[1], 2); execl("/proc/self/exe", "reg", "child", a[0], a[1], a[2], a[3], a[4], static_cast<char*>(nullptr)); _exit(77); }
    close(p[1]); std::string out; char b[512]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(k)); close(p[0]);
    int st = 0; waitpid(c, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return;
    REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0 && out.find("CHILD fine") != std::string::npos, "%s", out.empty() ? "the process died" : out.substr(0, 3000).c_str());
  };
  for (int n = 0; n <= 3; n++) for (int k = 0; k <= n; k++) one({n, k, 0, 0xffffffffu, k % 2 == 0});
  for (int i = 0; i < 3; i++) one({100000, 100000, -1, 0xffffffffu, true});
  while (!rep::out_of_time() && rep::evals < 400) { int n = static_cast<int>(r.below(5)), k = static_cast<int>(r.below(n + 1)); one({n, k, static_cast<int>(r.below(k + 1)), static_cast<unsigned>(r.next() & r.next()), r.below(2) == 1}); }
#endif
  return rep::done();
}
