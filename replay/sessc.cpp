// Native cross-check of the session with several threads (C11, C22, and the locking of C10/C12)
// under a schedule explorer (default) or on real threads (-DREP_REAL, with ThreadSanitizer).
#include "vsched.h"
#include <session.cpp>
typedef std::vector<std::function<void()>> Fs;
typedef std::function<void()> Fn;
#ifdef REP_REAL
#define SHOW() vs::scenario
static uintptr_t me() { return std::hash<std::thread::id>()(std::this_thread::get_id()); }
#else
#define SHOW() vs::show()
static uintptr_t me() { return reinterpret_cast<uintptr_t>(vs::cur); }
#endif
#define FAILIF(c, ...) do { if (c) { rep::current = SHOW(); rep::fail(__VA_ARGS__); } } while (0)
namespace {
struct Obj { int64_t v; };
struct CT : dap::TypeInfo {
  std::string nm;
  CT(const char* n) : nm(n) {}
  std::string name() const override { return nm; }
  size_t size() const override { return sizeof(Obj); }
  size_t alignment() const override { return alignof(Obj); }
  void construct(void* p) const override { new (p) Obj{-1}; }
  void copyConstruct(void* d, const void* s) const override { new (d) Obj(*static_cast<const Obj*>(s)); }
  void destruct(void*) const override {}
  bool deserialize(const dap::Deserializer* d, void* p) const override { dap::integer v; if (!d->field("v", &v)) return false; static_cast<Obj*>(p)->v = v; return true; }
  bool serialize(dap::Serializer* s, const void* p) const override { return s->object([&](dap::FieldSerializer* f) { return f->field("v", dap::integer(static_cast<const Obj*>(p)->v)); }); }
};
static CT rq("rq"), ev("ev"), rs("rs");
// blocking byte stream, as a connection behaves
struct Feed : dap::Reader {
  std::mutex m; std::condition_variable cv; std::string data; size_t at = 0; bool open = true, end = false;   // end: hangs up with the last byte
  bool isOpen() override { std::unique_lock<std::mutex> l(m); return open; }
  void close() override { std::unique_lock<std::mutex> l(m); open = false; cv.notify_all(); }
  size_t read(void* b, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return !open || at < data.size(); });
    if (!open) return 0;
    n = std::min(n, data.size() - at); memcpy(b, data.data() + at, n); at += n; if (end && at == data.size()) open = false; return n;
  }
  void frame(const std::string& s) { std::unique_lock<std::mutex> l(m); data += "Content-Length: " + std::to_string(s.size()) + "\r\n\r\n" + s; cv.notify_all(); }
  void hangup() { close(); }
};
struct Out : dap::Writer {
  std::mutex m; std::condition_variable cv; std::string data; bool open = true; size_t taken = 0;
  bool isOpen() override { std::unique_lock<std::mutex> l(m); return open; }
  void close() override { std::unique_lock<std::mutex> l(m); open = false; cv.notify_all(); }
  bool write(const void* b, size_t n) override { vs::step(); std::unique_lock<std::mutex> l(m); if (!open) return false; data.append(static_cast<const char*>(b), n); cv.notify_all(); return true; }
  // next whole frame (call under m); false if none
  bool next(size_t& p, std::string& msg) {
    if (p >= data.size()) return false;
    size_t len; int used = 0;
    std::string head = data.substr(p, 64);
    size_t e = head.find("\r\n\r\n");
    if (e == std::string::npos) { FAILIF(std::string("Content-Length: ").compare(0, std::min<size_t>(16, head.size()), head.substr(0, 16)) != 0, "the bytes sent are not whole frames: %s", rep::esc(data).c_str()); return false; }
    FAILIF(sscanf(head.c_str(), "Content-Length: %zu%n", &len, &used) != 1 || static_cast<size_t>(used) != e, "the bytes sent are not whole frames: %s", rep::esc(data).c_str());
    if (p + e + 4 + len > data.size()) return false;
    msg = data.substr(p + e + 4, len); p += e + 4 + len;
    FAILIF(msg.empty() || msg[0] != '{' || msg[msg.size() - 1] != '}', "the bytes sent are not whole frames: %s", rep::esc(data).c_str());
    return true;
  }
};
static int64_t num(const std::string& m, const char* f) {
  size_t p = m.find("\"" + std::string(f) + "\":");
  FAILIF(p == std::string::npos, "message without %s: %s", f, m.c_str());
  return strtoll(m.c_str() + p + strlen(f) + 3, nullptr, 10);
}
static std::string request(int v) { return "{\"seq\":" + std::to_string(v) + ",\"type\":\"request\",\"command\":\"rq\",\"arguments\":{\"v\":" + std::to_string(v) + "}}"; }
static std::string event(int v) { return "{\"seq\":" + std::to_string(v) + ",\"type\":\"event\",\"event\":\"ev\",\"body\":{\"v\":" + std::to_string(v) + "}}"; }
}
struct Sess { std::shared_ptr<Feed> in = std::make_shared<Feed>(); std::shared_ptr<Out> out = std::make_shared<Out>(); std::shared_ptr<dap::Session> s; };
// n threads send `each` messages; a peer answers every request as soon as its bytes are out
static void senders(double sec) {
  auto sc = [](int n, int each, bool peer, int kind) {
    return [=](Fs& fs, Fn& check) {
      auto x = std::make_shared<Sess>(); x->s = dap::Session::create();
      auto errs = std::make_shared<std::atomic<int>>(0);
      auto done = std::make_shared<std::vector<int>>(n * each, 0); auto dm = std::make_shared<std::mutex>();
      x->s->onError([=](const char* e) { FAILIF(true, "error reported: %s", e); });
      x->s->registerHandler(&rq, dap::Session::GenericRequestHandler([=](const void*, const dap::Session::RequestHandlerSuccessCallback& ok, const dap::Session::RequestHandlerErrorCallback&) { Obj o{7}; ok(&rs, &o); }));
      x->s->connect(x->in, x->out);
      for (int t = 0; t < n; t++) fs.push_back([=] {
        for (int k = 0; k < each; k++) {
          Obj o{t * 100 + k};
          int id = t * each + k;
          if (kind == 0 || (kind == 2 && t % 2 == 0)) FAILIF(!x->s->send(&rq, &rs, &o, [=](const void*, const dap::Error*) { std::unique_lock<std::mutex> l(*dm); (*done)[id]++; }), "send failed");
          else FAILIF(!x->s->send(&ev, &o), "send failed");
        }
      });
      if (peer) fs.push_back([=] {
        size_t p = 0; int got = 0;
        while (got < n * each) {
          std::string m;
          { std::unique_lock<std::mutex> l(x->out->m); x->out->cv.wait(l, [&] { return x->out->next(p, m); }); }
          got++;
          if (m.find("\"request\"") == std::string::npos) continue;
          x->in->frame("{\"seq\":1,\"type\":\"response\",\"request_seq\":" + std::to_string(num(m, "seq")) + ",\"success\":true,\"command\":\"rq\",\"body\":{\"v\":1}}");
          x->s->getPayload();
        }
      });
      if (!peer && kind == 3) fs.push_back([=] { x->in->frame(request(1)); auto p = x->s->getPayload(); FAILIF(!p, "request gave no payload"); p(); });
      check = [=] {
        size_t p = 0; std::string m; std::set<int64_t> seen; int cnt = 0;
        while (x->out->next(p, m)) { int64_t q = num(m, "seq"); REQUIRE(q > 0, "sequence number %lld", static_cast<long long>(q)); REQUIRE(seen.insert(q).second, "sequence number %lld sent twice: %s", static_cast<long long>(q), rep::esc(x->out->data, 900).c_str()); cnt++; }
        REQUIRE(p == x->out->data.size() && cnt == n * each + (!peer && kind == 3), "%d whole messages sent: %s", cnt, rep::esc(x->out->data, 900).c_str());
        if (peer) for (int t = 0; t < n; t++) for (int k = 0; k < each; k++) if (kind == 0 || (kind == 2 && t % 2 == 0)) REQUIRE((*done)[t * each + k] == 1, "request completed %d times", (*done)[t * each + k]);
        x->s->onError({});
      };
    };
  };
  double s = sec / 5;
  vs::explore("session: 2 threads send a request each", s, sc(2, 1, false, 0));
  vs::explore("session: 2 threads send 2 events each", s, sc(2, 2, false, 1));
  vs::explore("session: a request and an event sender, answered at once", s, sc(2, 1, true, 2));
  vs::explore("session: 2 event senders and a response", s, sc(2, 1, false, 3));
  vs::explore("session: 3 senders, answered at once", s, sc(3, 1, true, 0));
}
struct Log { std::mutex m; std::vector<int> order; std::set<uintptr_t> threads; int closed = 0; std::set<uintptr_t> others; std::condition_variable cv; };
static void processing(double sec) {
  auto sc = [](int msgs, int hang, bool reply, bool early) {
    return [=](Fs& fs, Fn& check) {
      auto x = std::make_shared<Sess>(); auto g = std::make_shared<Log>();
      if (hang == 3) { for (int i = 0; i < msgs; i++) x->in->frame(i % 2 ? event(i) : request(i)); x->in->end = true; }
      fs.push_back([=] {
        x->s = dap::Session::create();
        auto s = x->s.get();
        auto add = [=](int v) { vs::step(); std::unique_lock<std::mutex> l(g->m); g->order.push_back(v); g->threads.insert(me()); g->cv.notify_all(); };
        s->registerHandler(&rq, dap::Session::GenericRequestHandler([=](const void* a, const dap::Session::RequestHandlerSuccessCallback& ok, const dap::Session::RequestHandlerErrorCallback&) { add(static_cast<int>(static_cast<const Obj*>(a)->v)); Obj o{9}; if (reply) ok(&rs, &o); }));
        s->registerHandler(&ev, dap::Session::GenericEventHandler([=](const void* a) { add(static_cast<int>(static_cast<const Obj*>(a)->v)); if (reply) s->send(&ev, a); }));
        s->bind(x->in, x->out, [=] { std::unique_lock<std::mutex> l(g->m); g->closed++; g->others.insert(me()); g->cv.notify_all(); });
        if (hang == 1) { std::unique_lock<std::mutex> l(g->m); g->cv.wait(l, [&] { return g->closed > 0; }); }
        if (hang == 2 || hang == 3) { std::unique_lock<std::mutex> l(g->m); g->cv.wait(l, [&] { return static_cast<int>(g->order.size()) == msgs; }); }
        x->s.reset();
        FAILIF(x->in->open || x->out->open, "destroying the session left a stream open");
      });
      fs.push_back([=] {
        if (hang == 3) return;
        for (int i = 0; i < msgs; i++) x->in->frame(i % 2 ? event(i) : request(i));
        if (early) x->in->frame("{\"type\":\"nonsense\"}");
        if (hang == 1) {
          if (msgs) { std::unique_lock<std::mutex> l(x->in->m); x->in->cv.wait_for(l, std::chrono::milliseconds(1), [&] { return x->in->at == x->in->data.size(); }); }
          x->in->hangup();
        }
      });
      check = [=] {
        REQUIRE(g->closed == 1, "close callback ran %d times", g->closed);
        for (size_t i = 0; i < g->order.size(); i++) REQUIRE(g->order[i] == static_cast<int>(i), "message %d executed at position %zu", g->order[i], i);
        if (hang == 2) REQUIRE(static_cast<int>(g->order.size()) == msgs, "%zu of %d messages executed", g->order.size(), msgs);
        REQUIRE(g->threads.size() <= 1, "handlers ran on several threads");
        for (auto t : g->others) REQUIRE(!g->threads.count(t) , "handlers ran on the receiving thread");
      };
    };
  };
  double s = sec / 6;
  vs::explore("session: destroy while 2 messages arrive", s, sc(2, 0, false, false), 1);
  vs::explore("session: 3 messages processed, then destroyed", s, sc(3, 2, false, false), 1);
  vs::explore("session: peer hangs up after 2 messages", s, sc(2, 1, false, true), 1);
  vs::explore("session: handlers answer while the session is destroyed", s, sc(2, 0, true, false), 1);
  vs::explore("session: the peer hangs up with the last byte of its last message", s, sc(2, 3, false, false), 2);
  vs::explore("session: idle session destroyed", s, sc(0, 0, false, false), 2);
  vs::explore("session: replies processed, then destroyed", s, sc(3, 2, true, true), 1);
}
// registration and error reporting while messages arrive
static void registering(double sec) {
  vs::explore("session: error handler replaced while errors are reported", sec / 2, [](Fs& fs, Fn& check) {
    auto x = std::make_shared<Sess>(); x->s = dap::Session::create(); x->s->connect(x->in, x->out);
    auto n = std::make_shared<std::atomic<int>>(0);
    auto big = std::make_shared<std::string>(100, 'x');
    x->s->onError([=](const char*) { FAILIF(big->size() != 100, "gone"); ++*n; });
    for (int i = 0; i < 2; i++) { x->in->frame("{\"seq\":1,\"type\":\"response\",\"request_seq\":99,\"success\":true}"); x->in->frame("{\"seq\":1}"); }
    fs.push_back([=] { for (int i = 0; i < 4; i++) x->s->getPayload(); });
    fs.push_back([=] { auto b = std::make_shared<std::string>(100, 'y'); x->s->onError([=](const char*) { FAILIF(b->size() != 100, "gone"); ++*n; }); });
    fs.push_back([=] { x->s->registerHandler(&ev, dap::Session::GenericEventHandler([](const void*) {})); x->s->registerHandler(&ev, dap::Session::GenericEventHandler([](const void*) {})); });
    check = [=] { REQUIRE(*n >= 4, "%d errors reported", n->load()); };
  });
  vs::explore("session: handlers registered and requests sent while messages arrive", sec / 2, [](Fs& fs, Fn& check) {
    auto x = std::make_shared<Sess>(); x->s = dap::Session::create(); x->s->connect(x->in, x->out);
    auto n = std::make_shared<std::atomic<int>>(0), e = std::make_shared<std::atomic<int>>(0), d = std::make_shared<std::atomic<int>>(0);
    x->s->onError([=](const char*) { ++*e; });
    x->in->frame(event(1)); x->in->frame(request(2)); x->in->frame("{\"seq\":1,\"type\":\"response\",\"request_seq\":1,\"success\":false,\"message\":\"no\"}");
    fs.push_back([=] { for (int i = 0; i < 3; i++) if (auto p = x->s->getPayload()) p(); });
    fs.push_back([=] { x->s->registerHandler(&ev, dap::Session::GenericEventHandler([=](const void*) { ++*n; })); });
    fs.push_back([=] { x->s->registerHandler(&rq, dap::Session::GenericRequestHandler([=](const void*, const dap::Session::RequestHandlerSuccessCallback& ok, const dap::Session::RequestHandlerErrorCallback&) { ++*n; Obj o{1}; ok(&rs, &o); })); });
    fs.push_back([=] { x->s->registerHandler(&rs, dap::Session::GenericResponseSentHandler([](const void*, const dap::Error*) {})); Obj o{1}; x->s->send(&rq, &rs, &o, [=](const void*, const dap::Error*) { ++*d; }); });
    check = [=] { REQUIRE(*n + *d + (*e > 0 ? 1 : 0) >= 1, "messages vanished"); REQUIRE(*d <= 1, "response delivered %d times", d->load()); };
  });
}
int main(int argc, char** argv) {
  rep::init(argc, argv);
  double t = rep::limit;
  if (rep::prop == "C11") senders(t);
  else if (rep::prop == "C22") processing(t);
  else registering(t);
  return rep::done();
}
