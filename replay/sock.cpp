// Concrete cases for socket.cpp (C18) and network.cpp (C19).
//  -DREP_SEQ : one thread, simulated kernel, injected faults (AddressSanitizer)
//  default   : simulated kernel under the schedule explorer
//  -DREP_REAL: real sockets on the loopback interface, real threads (ThreadSanitizer)
#include "vsched.h"
#include <signal.h>
#include <sys/mman.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#ifndef REP_REAL
#include "simk.h"
#endif
#include <socket.cpp>
#include <network.cpp>
using rep::Rng; using rep::current;
typedef std::vector<std::function<void()>> Fs;
typedef std::function<void()> Fn;
#ifdef REP_SEQ
#define SHOW() rep::current
#elif defined(REP_REAL)
#define SHOW() vs::scenario
#else
#define SHOW() vs::show()
#endif
#define FAILIF(c, ...) do { if (c) { rep::current = SHOW(); rep::fail(__VA_ARGS__); } } while (0)
#ifdef REP_SEQ
static std::string bytes(Rng& r, size_t n) { std::string s(n, 0); for (auto& c : s) c = static_cast<char>(r.next()); return s; }
static size_t pick(Rng& r) { static const size_t v[] = {0, 1, 2, 7, 100, 255, 1000, 1024, 4096, 65536, 100000}; return r.below(2) ? v[r.below(11)] : r.below(200); }
static D* dof(int fd) { return &simk::fds[fd]; }
// a connection of the code under test, and its descriptor
static std::shared_ptr<dap::ReaderWriter> connection(Rng& r, int* fd) {
  int keep = simk::faults; simk::faults = 0;
  std::shared_ptr<dap::ReaderWriter> c;
  if (r.below(2)) { c = dap::Socket::connect("h", "77", 0); REQUIRE(c, "connect without any fault gave no connection"); *fd = simk::fds.rbegin()->first; }
  else {
    dap::Socket s("h", "78"); REQUIRE(s.isOpen(), "listening without any fault failed");
    dof(simk::fds.rbegin()->first)->backlog = 1;
    c = s.accept(); REQUIRE(c, "accept of a waiting connection gave none"); *fd = simk::fds.rbegin()->first;
    REQUIRE(!s.accept(), "accept gave a connection although none was waiting");
  }
  simk::faults = keep;
  return c;
}
static void ops(Rng& r) {
  simk::reset(r); r.next();
  simk::partial = r.below(2); int fd;
  {
    auto c = connection(r, &fd);
    bool closed = false, broken = false;
    std::string log = "connection";
    int n = 1 + static_cast<int>(r.below(8));
    for (int i = 0; i < n; i++) {
      int what = static_cast<int>(r.below(10));
      simk::faults = r.below(3) ? 0 : 40;
      D* d = dof(fd); int inj = simk::injected;
      if (what < 4) {
        std::string x = bytes(r, pick(r)), before = d->out;
        log += "; write " + std::to_string(x.size()); current = log;
        std::string y = x; std::vector<char> exact(y.begin(), y.end());
        bool ok = c->write(exact.data(), exact.size());
        std::string got = d->out.substr(before.size());
        REQUIRE(got == x.substr(0, got.size()), "the bytes sent differ from the bytes given (%zu sent)", got.size());
        REQUIRE(!ok || got.size() == x.size(), "write reported success after sending %zu of %zu bytes", got.size(), x.size());
        REQUIRE(!ok || !closed, "write to a closed socket reported success");
        if (!closed && simk::injected == inj && !x.empty()) REQUIRE(ok, "write failed although every send succeeded (%zu of %zu bytes)", got.size(), x.size());
      } else if (what < 7) {
        std::string more = r.below(4) ? bytes(r, pick(r)) : "";
        d->in += more; size_t m = pick(r), at = d->at; d->recvs_ok = 0;
        log += "; read " + std::to_string(m) + " with " + std::to_string(d->in.size() - at) + " there"; current = log;
        std::vector<char> b(m + 8, '#');
        size_t g = c->read(b.data() + 4, m);
        REQUIRE(g <= m, "read of %zu returned %zu", m, g);
        REQUIRE(g == d->at - at, "read returned %zu, %zu bytes were received", g, d->at - at);
        REQUIRE(std::string(b.data() + 4, g) == d->in.substr(at, g), "read returned other bytes than received");
        for (size_t k = 0; k < 4; k++) REQUIRE(b[k] == '#' && b[4 + g + k] == '#', "read wrote outside the bytes it returned");
        if (closed) REQUIRE(g == 0, "read from a closed socket returned %zu", g);
        else if (simk::injected == inj && m && at < d->in.size()) REQUIRE(g > 0, "read returned nothing although bytes were there");
      } else if (what == 7) {
        bool e = r.below(3) == 0; simk::faults = 0;
        if (e && !closed) { d->err = 32; broken = true; }
        log += std::string("; isOpen") + (broken ? " (broken)" : ""); current = log;
        bool o = c->isOpen();
        REQUIRE(o == (!closed && !broken), "isOpen is %d on a socket that is %s", o, closed ? "closed" : broken ? "broken" : "open");
        if (broken) closed = true;
        if (broken && !d->open) {}
      } else if (what == 8) {
        log += "; close"; current = log;
        c->close(); closed = true;
        REQUIRE(!dof(fd)->open, "close left the descriptor open");
      } else { log += "; copy"; auto e = c; e.reset(); }
      if (broken && closed && dof(fd)->open) closed = false;   // implementations may close a broken socket later
    }
    current = log + "; destroy"; rep::ran(current);
    simk::faults = 0;
  }
  simk::all_released();
}
static void opening(Rng& r) {
  simk::reset(r); r.next();
  simk::faults = r.below(3) ? 0 : 25;
  simk::connect_pends = r.below(2); simk::connect_ok = r.below(4) != 0;
  bool listening = r.below(3) == 0;
  if (listening) {
    current = "listen, faults " + std::to_string(simk::faults);
    {
      dap::Socket s("hh", "4711");
      REQUIRE(simk::last_host == "hh" && simk::last_port == "4711", "looked up %s:%s", simk::last_host.c_str(), simk::last_port.c_str());
      bool any = simk::injected > 0; simk::faults = 0;
      bool good = !simk::fds.empty() && simk::fds.begin()->second.open && simk::fds.begin()->second.listening;
      REQUIRE(s.isOpen() == good, "isOpen is %d, the descriptor is %s", s.isOpen(), good ? "listening" : "not listening");
      if (!any) REQUIRE(good, "listening failed without a fault");
      if (good) {
        D* d = &simk::fds.begin()->second; int n = static_cast<int>(r.below(4));
        d->backlog = n; std::vector<std::shared_ptr<dap::ReaderWriter>> cs;
        simk::faults = r.below(2) ? 30 : 0;
        for (int i = 0; i < n + 1; i++) { size_t before = simk::accepted.size(); auto c = s.accept(); REQUIRE(static_cast<bool>(c) == (simk::accepted.size() > before), "accept returned %s, the system %s", c ? "a connection" : "none", simk::accepted.size() > before ? "gave one" : "gave none"); if (c) cs.push_back(c); }
        simk::faults = 0;
        for (auto& c : cs) REQUIRE(c->isOpen(), "an accepted connection is not open");
        if (r.below(2)) { s.close(); REQUIRE(!s.isOpen(), "open after close"); REQUIRE(!s.accept(), "accept after close"); s.close(); for (auto& c : cs) REQUIRE(c->isOpen(), "closing the listener closed a connection"); }
      }
    }
  } else {
    static const uint32_t ts[] = {0, 0, 1, 10, 999, 1000, 1001, 5000, 2147483647u, 2147483648u, 4294967295u};
    uint32_t t = ts[r.below(11)];
    simk::max_wait = t ? t : ~0ull;
    current = "connect, timeout " + std::to_string(t) + ", faults " + std::to_string(simk::faults) + (simk::connect_pends ? ", pending" : "") + (simk::connect_ok ? "" : ", refused") + ", first descriptor " + std::to_string(simk::next_fd);
    auto c = dap::Socket::connect("peer", "4712", t);
    REQUIRE(simk::last_host == "peer" && simk::last_port == "4712", "looked up %s:%s", simk::last_host.c_str(), simk::last_port.c_str());
    if (c) {
      D* d = simk::fds.empty() ? nullptr : &simk::fds.begin()->second;
      REQUIRE(d && d->conn && d->open, "connect returned a connection that is not established");
      REQUIRE(!d->nonblock, "connect returned a connection in non-blocking mode");
    } else if (simk::injected == 0) REQUIRE(!simk::connect_ok, "connect failed although the connection was established");
    simk::faults = 0;
  }
  rep::ran(current);
  simk::all_released();
}
static void huge(Rng& r) {
  simk::reset(r); r.next(); int fd;
  {
    auto c = connection(r, &fd);
    for (size_t n : {size_t(0x7fffffff), size_t(0x80000000), size_t(0x80000005), size_t(0xffffffff), size_t(0x100000000), size_t(0x100000007)}) {
      current = "write of " + std::to_string(n) + " bytes";
      void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) return;
      D* d = dof(fd); d->big = static_cast<char*>(p); d->bigsent = 0;
      bool ok = c->write(p, n);
      REQUIRE(ok && d->bigsent == n, "%s after sending %zu bytes", ok ? "success" : "failure", d->bigsent);
      current = "read into " + std::to_string(n) + " bytes";
      d->in += "hello"; d->recvs_ok = 0;
      size_t g = c->read(p, n);
      REQUIRE(g == 5 && !memcmp(p, "hello", 5), "read returned %zu of the 5 bytes received", g);
      munmap(p, n);
      rep::ran(current);
    }
  }
  simk::all_released();
}
int main(int argc, char** argv) {
  rep::init(argc, argv);
  Rng h = rep::rng(1); huge(h);
  for (uint64_t i = 0; !rep::out_of_time() && i < 400000; i++) { Rng r = rep::rng(i + 10); ops(r); Rng q = rep::rng(i + 0x100000000ull); opening(q); }
  return rep::done();
}
#else
#ifdef REP_REAL
static int port_no;
static std::string a_port() { if (!port_no) port_no = 20000 + static_cast<int>(getpid() % 20000); port_no = port_no >= 60000 ? 20000 : port_no + 1; return std::to_string(port_no); }
#endif
struct Conn { std::shared_ptr<dap::ReaderWriter> c, peer; };
static std::shared_ptr<Conn> pair() {
  auto x = std::make_shared<Conn>();
#ifdef REP_REAL
  for (int tries = 0; tries < 200; tries++) {
    std::string p = a_port();
    dap::Socket s("127.0.0.1", p.c_str());
    if (!s.isOpen()) continue;
    x->c = dap::Socket::connect("127.0.0.1", p.c_str(), tries % 2 ? 2000 : 0);
    if (!x->c) continue;
    x->peer = s.accept();
    if (x->peer) return x;
  }
  exit(rep::done());      // no loopback here
#else
  Rng r = rep::rng(5); simk::reset(r);
  x->c = dap::Socket::connect("h", "77", 0);
  REQUIRE(x->c, "connect without any fault gave no connection");
#endif
  return x;
}
static void c18(double sec) {
  double s = sec / 5;
  auto sc = [](int readers, int writers, int closers, int openers, int give, bool drop) {
    return [=](Fs& fs, Fn& check) {
      auto x = pair();
      auto n = std::make_shared<std::atomic<int>>(readers + writers + closers + openers);
#ifndef REP_REAL
      int fd = simk::fds.rbegin()->first; simk::fds[fd].in = std::string(static_cast<size_t>(give), 'a');
#else
      if (give) x->peer->write(std::string(static_cast<size_t>(give), 'a').data(), static_cast<size_t>(give));
#endif
      // the last user drops the connection
      auto keep = std::make_shared<std::shared_ptr<dap::ReaderWriter>>(x->c);
      x->c.reset();
      for (int i = 0; i < readers; i++) { auto c = *keep; fs.push_back([=]() mutable { char b[4]; size_t got = 0, k;
#ifndef REP_REAL
        for (;;) { simk::fds[fd].recvs_ok = 0; k = c->read(b, sizeof b); if (!k) break; got += k; }
#else
        while ((k = c->read(b, sizeof b)) > 0) got += k;
#endif
        FAILIF(got > static_cast<size_t>(give), "read %zu bytes, %d were received", got, give); c.reset(); }); }
      for (int i = 0; i < writers; i++) { auto c = *keep; fs.push_back([=]() mutable { for (int k = 0; k < 3; k++) if (!c->write("xy", 2)) break; c.reset(); }); }
      for (int i = 0; i < openers; i++) { auto c = *keep; fs.push_back([=]() mutable { c->isOpen(); c->isOpen(); c.reset(); }); }
      for (int i = 0; i < closers; i++) { auto c = *keep; fs.push_back([=]() mutable { c->close(); FAILIF(c->isOpen(), "open after close"); char b; FAILIF(c->read(&b, 1) != 0, "read after close"); FAILIF(c->write("z", 1), "write after close"); c.reset(); }); }
      keep->reset();
      (void)drop; (void)n;
      check = [=] {
#ifndef REP_REAL
        simk::all_released();
#endif
        x->peer.reset();
      };
    };
  };
  vs::explore("connection: a blocked reader and a close", s, sc(1, 0, 1, 0, 0, false), 3);
  vs::explore("connection: readers, data arriving and a close", s, sc(2, 0, 1, 0, 6, false), 2);
  vs::explore("connection: a writer, a reader and a close", s, sc(1, 1, 1, 0, 3, false), 2);
  vs::explore("connection: two closes", s, sc(0, 0, 2, 1, 0, false), 3);
  vs::explore("connection: writers, isOpen and a close", s, sc(0, 2, 1, 1, 0, false), 2);
}
// ------------------------------------------------------------------ C19 ----
struct Srv {
  std::unique_ptr<dap::net::Server> s = dap::net::Server::create();
  std::atomic<int> conns{0}, errors{0}, inside{0}, gen{0};
  std::vector<std::shared_ptr<dap::ReaderWriter>> got; std::mutex m;
  std::string host, port;
  static bool start(std::shared_ptr<Srv> v, bool local = false) {
    int g = ++v->gen;
    Srv* p = v.get();
    auto oc = [=](const std::shared_ptr<dap::ReaderWriter>& rw) {
      FAILIF(p->gen != g, "a connection was reported after its server had been stopped");
      p->inside = 1; vs::step();
      FAILIF(!rw, "no connection passed");
      { std::unique_lock<std::mutex> l(p->m); for (auto& o : p->got) FAILIF(o == rw, "the same connection passed twice"); p->got.push_back(rw); }
      ++p->conns; vs::step(); p->inside = 0;
    };
    auto oe = [=](const char* m) { FAILIF(!m, "no message"); ++p->errors; };
#ifdef REP_REAL
    for (int i = 0; i < 200; i++) { v->port = a_port(); int e = v->errors; if (v->s->start("127.0.0.1", atoi(v->port.c_str()), oc, oe)) return true; v->errors = e; }
    exit(rep::done());
#else
    bool ok = local ? v->s->start(4711, oc, oe) : v->s->start("hh", 4711, oc, oe);
    FAILIF(simk::last_host != (local ? "localhost" : "hh") || simk::last_port != "4711", "looked up %s:%s", simk::last_host.c_str(), simk::last_port.c_str());
    return ok;
#endif
  }
  static void stop(std::shared_ptr<Srv> v) {
    v->s->stop();
    FAILIF(v->inside, "stop returned while the accept loop is inside a callback");
    ++v->gen;
  }
};
#ifndef REP_REAL
static D* listener() { D* d = nullptr; for (auto& k : simk::fds) if (k.second.open && k.second.listening) { FAILIF(d, "two listening descriptors"); d = &k.second; } return d; }
static void arrive(int n) { simk::L l(simk::m); for (auto& k : simk::fds) if (k.second.open && k.second.listening) k.second.backlog += n; simk::cv.notify_all(); }
static void break_accept() { simk::L l(simk::m); for (auto& k : simk::fds) if (k.second.open && k.second.listening) k.second.accept_fails = true; simk::cv.notify_all(); }
static void c19(double sec) {
  double s = sec / 8;
  auto fresh = [] { Rng r = rep::rng(9); simk::reset(r); return std::make_shared<Srv>(); };
  auto fin = [](std::shared_ptr<Srv> v) { v->s.reset(); FAILIF(v->inside, "destroyed while the accept loop is inside a callback"); };
  auto end = [](std::shared_ptr<Srv> v, int errors, bool all) {
    return [=] {
      REQUIRE(v->errors == errors, "%d errors reported, %d failures happened", v->errors.load(), errors);
      REQUIRE(v->conns == static_cast<int>(simk::accepted.size()), "%d connections accepted, %d passed", static_cast<int>(simk::accepted.size()), v->conns.load());
      if (all) REQUIRE(v->conns == 2, "%d of 2 connections passed", v->conns.load());
      v->got.clear();
      simk::all_released();
    };
  };
  vs::explore("server: connections arrive, then stop", s, [=](Fs& fs, Fn& check) {
    auto v = fresh();
    fs.push_back([=] { FAILIF(!Srv::start(v), "start failed without a fault"); arrive(1); vs::step(); arrive(1); Srv::stop(v); Srv::stop(v); FAILIF(listener(), "stop left the socket listening"); fin(v); });
    check = end(v, 0, false);
  }, 3);
  vs::explore("server: connections are all served", s, [=](Fs& fs, Fn& check) {
    auto v = fresh();
    fs.push_back([=] { FAILIF(!Srv::start(v, true), "start failed without a fault"); arrive(2); for (int i = 0; i < 300 && v->conns < 2; i++) { std::unique_lock<std::mutex> l(v->m); std::condition_variable c; c.wait_for(l, std::chrono::milliseconds(1), [&] { return v->conns == 2; }); } fin(v); });
    check = end(v, 0, true);
  }, 1);
  vs::explore("server: accepting fails, then stop", s, [=](Fs& fs, Fn& check) {
    auto v = fresh();
    fs.push_back([=] {
      FAILIF(!Srv::start(v), "start failed without a fault"); break_accept();
      { std::unique_lock<std::mutex> l(v->m); std::condition_variable c; for (int i = 0; i < 300 && !v->errors; i++) c.wait_for(l, std::chrono::milliseconds(1), [&] { return v->errors != 0; }); }
      FAILIF(v->errors != 1, "a failed accept was reported %d times", v->errors.load());
      Srv::stop(v); FAILIF(v->errors != 1, "stop reported an error");
      FAILIF(!Srv::start(v), "restart failed without a fault"); Srv::stop(v); fin(v); });
    check = end(v, 1, false);
  }, 2);
  vs::explore("server: failed start, then start", s, [=](Fs& fs, Fn& check) {
    auto v = fresh();
    fs.push_back([=] {
      simk::fail_open = true; FAILIF(Srv::start(v), "start succeeded although no socket could be had"); simk::fail_open = false;
      FAILIF(v->errors != 1, "a failed start reported %d errors", v->errors.load());
      Srv::stop(v); FAILIF(v->errors != 1, "stop reported an error");
      simk::fail_open = true; FAILIF(Srv::start(v), "start succeeded although no socket could be had"); simk::fail_open = false;
      FAILIF(!Srv::start(v), "start failed without a fault"); arrive(1); fin(v); });
    check = end(v, 2, false);
  }, 2);
  vs::explore("server: restart while running, and a restart that fails", s, [=](Fs& fs, Fn& check) {
    auto v = fresh();
    fs.push_back([=] {
      FAILIF(!Srv::start(v), "start failed without a fault"); arrive(1);
      vs::step(); v->s->stop(); Srv::stop(v); FAILIF(!Srv::start(v), "restart failed without a fault"); arrive(1);
      simk::fail_open = true; { bool r = v->s->start("hh", 4711, [](const std::shared_ptr<dap::ReaderWriter>&) {}, [=](const char*) { ++v->errors; }); FAILIF(r, "start succeeded although no socket could be had"); } simk::fail_open = false;
      FAILIF(v->inside, "the old accept loop is still running after a restart"); FAILIF(listener(), "the old socket is still listening after a restart"); ++v->gen;
      FAILIF(!Srv::start(v), "restart failed without a fault"); fin(v); });
    check = end(v, 1, false);
  }, 2);
  vs::explore("server: two threads stop", s, [=](Fs& fs, Fn& check) {
    auto v = fresh();
    FAILIF(false, "");
    fs.push_back([=] {
      FAILIF(!Srv::start(v), "start failed without a fault"); arrive(1);
      std::thread t([=] { v->s->stop(); FAILIF(v->inside, "stop returned while the accept loop is inside a callback"); });
      v->s->stop(); FAILIF(v->inside, "stop returned while the accept loop is inside a callback");
      t.join(); fin(v); });
    check = end(v, 0, false);
  }, 2);
  vs::explore("server: stop and restart from two threads", s, [=](Fs& fs, Fn& check) {
    auto v = fresh();
    fs.push_back([=] {
      auto oc = [=](const std::shared_ptr<dap::ReaderWriter>& rw) { std::unique_lock<std::mutex> l(v->m); v->got.push_back(rw); ++v->conns; };
      auto oe = [=](const char*) { ++v->errors; };
      FAILIF(!v->s->start("hh", 4711, oc, oe), "start failed without a fault"); arrive(1);
      std::thread t([=] { v->s->stop(); });
      FAILIF(!v->s->start("hh", 4711, oc, oe), "restart failed without a fault");
      t.join(); fin(v); });
    check = end(v, 0, false);
  }, 2);
  vs::explore("server: destroyed while connections arrive", s, [=](Fs& fs, Fn& check) {
    auto v = fresh();
    fs.push_back([=] { FAILIF(!Srv::start(v), "start failed without a fault"); std::thread t([=] { arrive(1); arrive(1); }); fin(v); t.join(); });
    check = end(v, 0, false);
  }, 2);
}
#else
static void c19(double sec) {
  double s = sec / 3;
  auto connects = [](std::shared_ptr<Srv> v, int n) { int k = 0; for (int i = 0; i < n; i++) if (dap::net::connect("127.0.0.1", atoi(v->port.c_str()), i % 2 ? 1000 : 0)) k++; return k; };
  vs::explore("server: connections over loopback, stop and restart", s, [=](Fs& fs, Fn& check) {
    auto v = std::make_shared<Srv>();
    fs.push_back([=] {
      for (int round = 0; round < 2; round++) {
        Srv::start(v); int want = v->conns;
        for (int k = 0; k < 3; k++) {
          auto c = dap::net::connect("127.0.0.1", atoi(v->port.c_str()), k % 2 ? 1000 : 0);
          if (!c) continue;
          want++;
          for (int i = 0; i < 8000 && v->conns < want; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
          FAILIF(v->conns != want, "%d connections made, %d passed", want, v->conns.load());
        }
        Srv::stop(v); Srv::stop(v);
        FAILIF(connects(v, 1) != 0, "a stopped server accepts connections");
      }
      v->s.reset();
    });
    check = [=] { REQUIRE(v->errors == 0, "stopping reported an error"); };
  });
  vs::explore("server: stop from two threads", s, [=](Fs& fs, Fn& check) {
    auto v = std::make_shared<Srv>();
    Srv::start(v);
    for (int i = 0; i < 2; i++) fs.push_back([=] { v->s->stop(); FAILIF(v->inside, "stop returned while the accept loop is inside a callback"); });
    fs.push_back([=] { connects(v, 1); });
    check = [=] { v->s.reset(); REQUIRE(v->errors == 0, "stopping reported an error"); };
  });
  vs::explore("server: port already in use", s, [=](Fs& fs, Fn& check) {
    auto v = std::make_shared<Srv>();
    fs.push_back([=] {
      Srv::start(v);
      auto w = dap::net::Server::create(); int errors = 0;
      bool r = w->start("127.0.0.1", atoi(v->port.c_str()), [](const std::shared_ptr<dap::ReaderWriter>&) {}, [&](const char*) { errors++; });
      FAILIF(r || errors != 1, "start on a port in use: %d with %d errors", r, errors);
      w->stop(); Srv::stop(v);
      w.reset(); v->s.reset();
    });
    check = [=] { REQUIRE(v->errors == 0, "stopping reported an error"); };
  });
}
#endif
int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  rep::init(argc, argv);
  if (rep::prop == "C19") c19(rep::limit); else c18(rep::limit);
  return rep::done();
}
#endif
