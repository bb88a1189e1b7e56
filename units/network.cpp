// Contracts for network.cpp (C19). dap::Socket is used by contract (its own code is decided by C18).
#include <spec.h>
#include <functional>
#include <memory>
#include <string>
extern "C" {
int g_locks;                        // the mutex is held (by whoever runs)
bool g_thread_live;                 // an accept thread has been started and not yet joined
int g_threads, g_joins, g_sockets, g_closes, g_errors, g_accepts;
unsigned long g_conns, g_calls;     // connections accepted; connections passed to the callback
bool g_open_ok, g_null, g_closed, g_env, g_env_done, g_in_env, g_null_by_close, g_running_when_null;
const char* g_addr; const char* g_addr_expected; long g_port; unsigned g_timeout;
void* g_last;
}
static void env_stop();
static void net_thread(void* t, std::function<void()> f);
static void net_join(void* t);
#define SPEC_LOCK(m) (__spec_assert(g_locks == 0, "LOCK.self_deadlock"), g_locks++)
#define SPEC_UNLOCK(m) (g_locks--)
#define SPEC_THREAD(t, f) net_thread(t, std::function<void()>(f))
#define SPEC_JOIN(t) net_join(t)
#define SPEC_DETACH(t) __spec_assert(false, "C19.stop_waits_for_the_accept_loop")
#define SPEC_THREAD_MOVE(to, from) ((void)0)
#define SPEC_ATOMIC(p) env_stop()
#include <thread>
#include <atomic>
#include <mutex>
#define dap_socket_h
#include "dap/io.h"
struct Conn : dap::ReaderWriter {
  bool isOpen() override { return __spec_nondet_bool(); }
  void close() override {}
  size_t read(void*, size_t) override { return 0; }
  bool write(const void*, size_t) override { return false; }
};
static Conn* g_conn;
static std::shared_ptr<dap::ReaderWriter>* g_pool;   // the connections: each accepted one is a further owner
namespace dap {
// a listening socket: opening may fail, accepting may fail, closing ends a blocked accept
class Socket {
 public:
  bool open;
  Socket(const char* address, const char* port) {
    __spec_assert(!g_thread_live, "C19.old_accept_loop_has_ended_before_restart");
    __spec_assert(g_locks == 1, "C19.start_and_stop_are_serialised");
    g_sockets++; open = g_open_ok; g_closed = false;
    __spec_assert(address == g_addr_expected, "C19.listens_on_the_given_address");
    std::string p(port), q = std::to_string(g_port);
    __spec_assert(p == q, "C19.listens_on_the_given_port");
  }
  ~Socket() { __spec_assert(!g_thread_live, "C19.socket_outlives_its_accept_loop"); }
  bool isOpen() const { return open && !g_closed; }
  std::shared_ptr<ReaderWriter> accept() const {
    __spec_assert(g_conns == g_calls, "C19.each_connection_passed_once");
    __spec_assert(!g_null_by_close, "C19.stop_ends_the_accept_loop");
    env_stop();
    g_accepts++;
    std::shared_ptr<ReaderWriter> r;
    if (!open || g_closed) { g_null = true; g_null_by_close = true; return r; }
    if (__spec_choice()) { g_null = true; g_running_when_null = !g_env_done; return r; }
    r = *g_pool;
    g_conns++;
    return r;
  }
  void close() const {
    __spec_assert(g_locks == 1, "C19.start_and_stop_are_serialised");
    g_closed = true; g_closes++;
  }
  static std::shared_ptr<ReaderWriter> connect(const char* address, const char* port, uint32_t timeout);
};
}
#include "../src/network.cpp"
static std::function<void()>* g_body;
static dap::net::Server* g_server;
static void net_thread(void*, std::function<void()> f) {
  __spec_assert(g_locks == 1, "C19.start_and_stop_are_serialised");
  __spec_assert(!g_thread_live, "C19.one_accept_loop_at_a_time");
  g_thread_live = true; g_threads++;
  g_body = new std::function<void()>(f);
}
static void net_join(void*) {
  __spec_assert(g_thread_live, "THREAD.join_not_joinable");
  __spec_assert(g_closed, "C19.accept_loop_is_woken_before_it_is_waited_for");
  g_thread_live = false; g_joins++;
}
// another thread may stop the server at any point of the accept loop
static void env_stop() {
  if (!g_env || g_env_done || g_in_env) return;
  if (!__spec_choice()) return;
  g_in_env = true; g_env_done = true;
  g_server->stop();
  g_in_env = false;
}
static void on_connect(const std::shared_ptr<dap::ReaderWriter>& rw) {
  __spec_assert(rw.get() == g_conn, "C19.the_accepted_connection_is_passed");
  __spec_assert(g_conns == g_calls + 1, "C19.each_connection_passed_once");
  g_calls++;
}
static void on_error(const char* m) { __spec_assert(m != nullptr, "C19.error_has_a_message"); g_errors++; }
static void reset() {
  g_locks = g_threads = g_joins = g_sockets = g_closes = g_errors = g_accepts = 0; g_conns = g_calls = 0;
  g_thread_live = g_null = g_closed = g_env = g_env_done = g_in_env = g_null_by_close = g_running_when_null = false;
  g_conn = nullptr;
  g_port = __spec_nondet_i32(); __spec_assume(0 <= g_port && g_port < 65536);
}
static bool do_start(dap::net::Server* s) {
  g_open_ok = __spec_choice();
  int e = g_errors, t = g_threads;
  bool r;
  {
    dap::net::Server::OnConnect oc = on_connect; dap::net::Server::OnError oe = on_error;
    static const char host[] = "host";
    g_addr_expected = host;
    r = s->start(host, static_cast<int>(g_port), oc, oe);
  }
  __spec_assert(g_locks == 0, "LOCK.released");
  __spec_assert(r == g_open_ok, "C19.start_reports_the_outcome");
  if (r) { __spec_assert(g_errors == e && g_threads == t + 1 && g_thread_live, "C19.started_server_runs_an_accept_loop"); __spec_cover("C19.started"); }
  else { __spec_assert(g_errors == e + 1, "C19.failed_start_reports_an_error"); __spec_assert(g_threads == t && !g_thread_live, "C19.failed_start_leaves_the_server_stopped"); __spec_cover("C19.start_failed"); }
  return r;
}
static void do_stop(dap::net::Server* s) {
  bool was = g_thread_live; int j = g_joins, e = g_errors, c = g_closes;
  s->stop();
  __spec_assert(g_locks == 0, "LOCK.released");
  __spec_assert(!g_thread_live && g_joins == j + (was ? 1 : 0), "C19.stop_waits_for_the_accept_loop");
  __spec_assert(g_errors == e, "C19.stop_reports_no_error");
  if (was) __spec_cover("C19.stopped"); else { __spec_assert(g_closes == c, "C19.stop_is_idempotent"); __spec_cover("C19.stopped_again"); }
}
// any of the states a server can be in: never started, running, stopped, start failed
static std::unique_ptr<dap::net::Server> arbitrary() {
  auto s = dap::net::Server::create();
  if (__spec_choice()) do_start(s.get());
  if (__spec_choice()) do_stop(s.get());
  return s;
}
extern "C" void harness_start_stop() {
  reset();
  {
    auto s = arbitrary();
    if (__spec_choice()) { do_start(s.get()); if (__spec_choice()) { do_stop(s.get()); do_stop(s.get()); do_start(s.get()); } }
    else do_stop(s.get());
  }
  __spec_assert(!g_thread_live && g_joins == g_threads, "C19.destruction_stops_the_server");
  __spec_cover("C19.destroyed");
}
extern "C" void harness_localhost() {
  reset();
  auto s = dap::net::Server::create();
  g_open_ok = __spec_choice();
  g_addr_expected = "localhost";
  bool r = s->start(static_cast<int>(g_port), on_connect, on_error);
  __spec_assert(r == g_open_ok && g_sockets == 1 && g_thread_live == r && g_errors == (r ? 0 : 1), "C19.start_reports_the_outcome");
  do_stop(s.get());
}
extern "C" void harness_loop() {
  reset();
  auto s = dap::net::Server::create();
  g_server = s.get();
  g_conn = new Conn();
  g_pool = new std::shared_ptr<dap::ReaderWriter>(g_conn);
  __spec_assume(do_start(s.get()));
  g_env = true;
  (*g_body)();
  g_env = false;
  __spec_assert(g_null, "C19.accept_loop_serves_until_accepting_fails");
  __spec_assert(g_conns == g_calls, "C19.each_connection_passed_once");
  __spec_assert(g_errors <= 1, "C19.one_error_report");
  if (g_null_by_close) { __spec_assert(g_errors == 0, "C19.stop_reports_no_error"); __spec_cover("C19.loop_stopped"); }
  if (!g_env_done) { __spec_assert(g_errors == 1, "C19.failed_accept_is_reported"); __spec_cover("C19.accept_failed"); }
  if (g_errors) __spec_assert(g_running_when_null, "C19.stop_reports_no_error");
  if (g_calls) __spec_cover("C19.connected");
  __spec_assert(g_pool->use_count() == 1, "C19.connections_are_released");
  do_stop(s.get());
}
static std::shared_ptr<dap::ReaderWriter> g_client;
std::shared_ptr<dap::ReaderWriter> dap::Socket::connect(const char* address, const char* port, uint32_t timeout) {
  std::string p(port), q = std::to_string(g_port);
  __spec_assert(address == g_addr_expected, "C19.connects_to_the_given_address");
  __spec_assert(p == q, "C19.connects_to_the_given_port");
  __spec_assert(timeout == g_timeout, "C19.connects_with_the_given_timeout");
  return g_client;
}
extern "C" void harness_connect() {
  reset();
  static const char host[] = "host";
  g_addr_expected = host;
  g_timeout = __spec_nondet_u32();
  if (__spec_choice()) g_client = std::shared_ptr<dap::ReaderWriter>(new Conn());
  auto c = dap::net::connect(host, static_cast<int>(g_port), g_timeout);
  __spec_assert(c.get() == g_client.get(), "C19.connect_returns_the_connection");
}
