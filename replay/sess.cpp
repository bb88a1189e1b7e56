// Native cross-check of the session (C09, C10, C11, C12, C22), one thread: random histories of
// registrations, sends and incoming messages against an independent account of what must happen.
#include "rep.h"
#include <map>
#include <memory>
#include <algorithm>
#include <nlohmann/json.hpp>
#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"
namespace dap {
struct MyResp : Response { string content; optional<string> mimeType; };
struct MyReq : Request { using Response = MyResp; integer sourceReference; };
DAP_DECLARE_STRUCT_TYPEINFO(MyResp);
DAP_DECLARE_STRUCT_TYPEINFO(MyReq);
DAP_IMPLEMENT_STRUCT_TYPEINFO(MyResp, "", DAP_FIELD(content, "content"), DAP_FIELD(mimeType, "mimeType"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(MyReq, "my", DAP_FIELD(sourceReference, "sourceReference"));
}
using dap::MyReq; using dap::MyResp;
typedef nlohmann::json J;
using rep::Rng;
static long g_live;
struct Obj { uint64_t magic; int64_t v; std::string s; };
struct CT : dap::TypeInfo {
  std::string nm; size_t extra; mutable long made = 0, gone = 0;
  std::string name() const override { return nm; }
  size_t size() const override { return sizeof(Obj) + extra; }
  size_t alignment() const override { return alignof(Obj); }
  void construct(void* p) const override { new (p) Obj{0x0B7EC7ull, -7, "default"}; memset(static_cast<char*>(p) + sizeof(Obj), 0x5a, extra); made++; g_live++; }
  void copyConstruct(void* d, const void* s) const override { new (d) Obj(*static_cast<const Obj*>(s)); made++; g_live++; }
  void destruct(void* p) const override {
    Obj* o = static_cast<Obj*>(p);
    REQUIRE(o->magic == 0x0B7EC7ull, "object of type '%s' destroyed twice or never constructed", nm.c_str());
    o->magic = 0; o->~Obj(); gone++; g_live--;
  }
  bool deserialize(const dap::Deserializer* d, void* p) const override {
    Obj* o = static_cast<Obj*>(p);
    REQUIRE(o->magic == 0x0B7EC7ull, "decoding into an object that is not alive");
    dap::integer v;
    if (!d->field("v", &v)) return false;
    o->v = v;
    return d->field("s", &o->s);
  }
  bool serialize(dap::Serializer* s, const void* p) const override {
    const Obj* o = static_cast<const Obj*>(p);
    return s->object([&](dap::FieldSerializer* f) { return f->field("v", dap::integer(o->v)) && f->field("s", o->s); });
  }
};
struct Feed : dap::Reader {
  std::string data; size_t at = 0; bool open = true;
  bool isOpen() override { return open; }
  void close() override { open = false; }
  size_t read(void* b, size_t n) override { if (!open) return 0; n = std::min(n, data.size() - at); memcpy(b, data.data() + at, n); at += n; return n; }
  void frame(const std::string& m) { data += "Content-Length: " + std::to_string(m.size()) + "\r\n\r\n" + m; }
};
struct Out : dap::Writer {
  std::string data; bool open = true, ok = true; std::function<void()> on;
  bool isOpen() override { return open; }
  void close() override { open = false; }
  bool write(const void* b, size_t n) override { if (!ok) return false; data.append(static_cast<const char*>(b), n); if (on) on(); return true; }
  // takes the messages written so far
  std::vector<J> take() {
    std::vector<J> r; size_t p = 0;
    while (p < data.size()) {
      size_t len = 0; int used = 0;
      REQUIRE(sscanf(data.c_str() + p, "Content-Length: %zu%n", &len, &used) == 1 && data.compare(p + used, 4, "\r\n\r\n") == 0, "bytes sent are not a frame: %s", rep::esc(data.substr(p)).c_str());
      p += used + 4;
      REQUIRE(p + len <= data.size(), "frame cut short");
      J j = J::parse(data.substr(p, len), nullptr, false);
      REQUIRE(j.is_object(), "message sent is not a JSON object: %s", rep::esc(data.substr(p, len)).c_str());
      r.push_back(j); p += len;
    }
    data.clear();
    return r;
  }
};
static std::string rstr(Rng& r) {
  static const char* pool[] = {"", "a", "%s%s%n%d", "hello world", "\xc3\xa9\xe2\x82\xac", "quote\"back\\slash", "line\nfeed\ttab"};
  switch (r.below(6)) {
    case 0: return pool[r.below(7)];
    case 1: return std::string(1 + r.below(3000), static_cast<char>('a' + r.below(26)));
    case 2: { std::string s = "nul"; s.push_back('\0'); s += "after"; return s; }
    default: { std::string s; for (uint64_t n = r.below(12); n--;) s += static_cast<char>(32 + r.below(95)); return s; }
  }
}
static int64_t rint(Rng& r) {
  switch (r.below(6)) { case 0: return static_cast<int64_t>(r.next()); case 1: return -static_cast<int64_t>(r.below(5)); case 2: return (1ll << 32) + static_cast<int64_t>(r.below(9)); case 3: return INT32_MAX + static_cast<int64_t>(r.below(4)); default: return static_cast<int64_t>(r.below(100)); }
}
static J junk(Rng& r, int not_) {          // a value of another kind: 0 bool 1 int 2 string 3 object
  for (;;) switch (r.below(6)) {
    case 0: if (not_ != 0) return J(true); break;
    case 1: if (not_ != 1) return J(12); break;
    case 2: if (not_ != 2) return J("text"); break;
    case 3: return J(nullptr);
    case 4: if (not_ != 3) return J::array({1, 2}); break;
    default: if (not_ == 1 || not_ == 0) return J(1.5); break;
  }
}
enum St { Good, Missing, Wrong };
static St put(Rng& r, J& m, const char* f, const J& good, int kind, int bad) {
  if (static_cast<int>(r.below(100)) >= bad) { m[f] = good; return Good; }
  if (r.below(2)) return Missing;
  m[f] = junk(r, kind); return Wrong;
}
static J args(Rng& r, int64_t v, const std::string& s, int bad, bool& ok) {
  J a = J::object(); ok = true;
  if (put(r, a, "v", v, 1, bad) != Good) ok = false;
  if (put(r, a, "s", s, 2, bad) != Good) ok = false;
  if (r.below(4) == 0) a["extra"] = 3;
  return a;
}
struct Pending { CT* t; int calls = 0; bool err = false, val = false; std::string msg; int64_t v = 0; std::string s; bool answered = false; };
static void history(uint64_t n) {
  Rng r = rep::rng(n);
  rep::current = "history " + std::to_string(n);
  long live0 = g_live;
  std::string log;
  {
    auto s = dap::Session::create();
    int errors = 0; bool with_err = r.below(8) != 0;
    if (with_err) s->onError([&](const char*) { errors++; });
    auto in = std::make_shared<Feed>(); auto out = std::make_shared<Out>();
    s->connect(in, out);
    std::vector<std::unique_ptr<CT>> types;
    auto mk = [&](const std::string& nm) { types.emplace_back(new CT()); types.back()->nm = nm; types.back()->extra = r.below(3) ? r.below(64) : r.below(5000); return types.back().get(); };
    static const char* names[] = {"a", "ab", "launch", "request", "stackTrace", "A", "\xc3\xa9", "x y"};
    std::map<std::string, CT*> rq, ev;
    CT* rt = mk("resp"); CT* rt2 = mk("resp2");
    struct Call { CT* t; int64_t v; std::string s; };
    std::vector<Call> calls;
    int mode = 0; int64_t rv = 0; std::string rs; std::string emsg; CT* use = rt;
    std::function<void()> deferred;
    for (auto nm : names) if (r.below(2)) {
      CT* t = mk(nm); rq[nm] = t;
      s->registerHandler(t, dap::Session::GenericRequestHandler([&, t](const void* a, const dap::Session::RequestHandlerSuccessCallback& ok, const dap::Session::RequestHandlerErrorCallback& err) {
        auto o = static_cast<const Obj*>(a);
        REQUIRE(o->magic == 0x0B7EC7ull, "handler called with a dead argument object");
        calls.push_back({t, o->v, o->s});
        auto ans = [&, ok, err] {
          if (mode & 1) { dap::Error e(emsg); err(use, e); }
          else { Obj ro{0x0B7EC7ull, rv, rs}; ok(use, &ro); }
        };
        if (mode & 2) deferred = ans; else ans();
        REQUIRE(o->magic == 0x0B7EC7ull, "argument object destroyed while its handler runs");
      }));
    }
    for (auto nm : names) if (r.below(2)) {
      CT* t = mk(nm); ev[nm] = t;
      s->registerHandler(t, dap::Session::GenericEventHandler([&, t](const void* a) { auto o = static_cast<const Obj*>(a); REQUIRE(o->magic == 0x0B7EC7ull, "handler called with a dead argument object"); calls.push_back({t, o->v, o->s}); }));
    }
    int sent = 0; bool sent_err = false; int64_t sent_v = 0; std::string sent_s, sent_m; bool written_before = false;
    bool with_sent = r.below(4) != 0;
    if (with_sent) s->registerHandler(rt, dap::Session::GenericResponseSentHandler([&](const void* d, const dap::Error* e) {
      sent++; written_before = !out->data.empty(); sent_err = e != nullptr;
      if (e) sent_m = e->message; else { sent_v = static_cast<const Obj*>(d)->v; sent_s = static_cast<const Obj*>(d)->s; }
    }));
    std::map<int64_t, std::shared_ptr<Pending>> pend; std::vector<int64_t> old;
    std::set<int64_t> seqs;
    auto newseq = [&](const J& m) {
      REQUIRE(m.count("seq") && m["seq"].is_number_integer(), "message sent without an integer seq: %s", m.dump().c_str());
      int64_t q = m["seq"].get<int64_t>();
      REQUIRE(q > 0, "sequence number %lld is not positive", static_cast<long long>(q));
      REQUIRE(seqs.insert(q).second, "sequence number %lld used twice", static_cast<long long>(q));
      return q;
    };
    bool failed = false;
    CT* qt = mk("cmd"); CT* et = mk("evt");
    int steps = 3 + static_cast<int>(r.below(12));
    for (int i = 0; i < steps; i++) {
      int e0 = errors; long made0 = g_live;
      calls.clear(); sent = 0;
      uint64_t what = r.below(10);
      if (what < 2) {                                      // send something
        Obj o{0x0B7EC7ull, rint(r), rstr(r)};
        auto p = std::make_shared<Pending>(); p->t = r.below(2) ? rt : rt2;
        bool isev = r.below(4) == 0; bool shut = r.below(10) == 0; bool refuse = !shut && r.below(10) == 0;
        out->open = !shut; out->ok = !refuse;
        rep::current = "history " + std::to_string(n) + ": " + log + (isev ? " send-event" : " send-request");
        bool ok = isev ? s->send(et, &o) : s->send(qt, p->t, &o, [p](const void* d, const dap::Error* e) {
          p->calls++;
          REQUIRE((d != nullptr) != (e != nullptr), "response handler gets neither or both of value and error");
          if (e) { p->err = true; p->msg = e->message; }
          else { p->val = true; p->v = static_cast<const Obj*>(d)->v; p->s = static_cast<const Obj*>(d)->s; }
        });
        out->open = true; out->ok = true;
        auto ms = out->take();
        if (shut || refuse) { REQUIRE(!ok, "send reported success although the transport %s", shut ? "is closed" : "refused it"); REQUIRE(ms.empty() , "bytes sent on a closed transport"); log += " failed-send"; failed = true; continue; }
        REQUIRE(ok && ms.size() == 1, "send wrote %zu messages and returned %d", ms.size(), ok);
        J& m = ms[0]; int64_t q = newseq(m);
        J body{{"v", o.v}, {"s", o.s}};
        J want = isev ? J{{"seq", q}, {"type", "event"}, {"event", "evt"}, {"body", body}} : J{{"seq", q}, {"type", "request"}, {"command", "cmd"}, {"arguments", body}};
        REQUIRE(m == want, "sent %s instead of %s", m.dump().c_str(), want.dump().c_str());
        if (!isev) pend[q] = p;
        log += isev ? " sent-event" : " sent-request#" + std::to_string(q);
        continue;
      }
      J m = J::object(); int64_t seq = rint(r);
      int kind = static_cast<int>(r.below(4));              // request, event, response, other
      int bad = r.below(3) ? 4 : 30;
      static const char* kinds[] = {"request", "event", "response"};
      static const char* others[] = {"", "requests", "Request", "reques", "notification", "event ", "respons"};
      St st = put(r, m, "type", kind < 3 ? kinds[kind] : others[r.below(7)], 2, bad / 2);
      St sq = put(r, m, "seq", seq, 1, bad / 2);
      bool head = st == Good && sq == Good && kind < 3;
      std::string cmd = r.below(6) ? names[r.below(8)] : rstr(r);
      if (r.below(40) == 0) { cmd.push_back('\0'); }
      int64_t v = rint(r); std::string str = rstr(r);
      bool aok = true;
      CT* t = nullptr; bool expect = false; int64_t rseq = 0; bool hasbody = false;
      std::shared_ptr<Pending> p; bool succ = r.below(2) != 0; std::string rmsg = rstr(r); St ss = Good, sm = Good; bool matched = false;
      if (kind == 0) {
        St sc = put(r, m, "command", cmd, 2, bad / 2);
        J a = args(r, v, str, bad, aok);
        St sa = put(r, m, "arguments", a, 3, bad / 2);
        auto it = rq.find(cmd); t = it == rq.end() ? nullptr : it->second;
        expect = head && sc == Good && t && sa == Good && aok;
      } else if (kind == 1) {
        St sc = put(r, m, "event", cmd, 2, bad / 2);
        J a = args(r, v, str, bad, aok);
        hasbody = r.below(5) != 0;
        if (hasbody) m["body"] = a; else aok = false;            // an absent body is no value of a type with required fields
        auto it = ev.find(cmd); t = it == ev.end() ? nullptr : it->second;
        expect = head && sc == Good && t && aok;
      } else if (kind == 2) {
        if (!pend.empty() && r.below(4)) { auto it = pend.begin(); std::advance(it, r.below(pend.size())); rseq = it->first; if (r.below(6) == 0) rseq += (r.below(2) ? 1ll : -1ll) * (1ll << 32); }
        else if (!old.empty() && r.below(2)) rseq = old[r.below(old.size())];
        else rseq = rint(r);
        if (failed && !pend.count(rseq) && rseq > 0 && rseq < 1000) rseq = -rseq;      // (numbers of failed sends are not visible)
        St sr = put(r, m, "request_seq", rseq, 1, bad / 2);
        ss = put(r, m, "success", succ, 0, bad); sm = put(r, m, "message", rmsg, 2, bad);
        J a = args(r, v, str, bad, aok);
        hasbody = r.below(5) != 0;
        if (hasbody) m["body"] = a;
        matched = head && sr == Good && pend.count(rseq);
        if (matched) { p = pend[rseq]; pend.erase(rseq); old.push_back(rseq); }
      } else { m["command"] = cmd; m["event"] = cmd; bool x; m["arguments"] = args(r, v, str, 0, x); m["body"] = m["arguments"]; }
      std::string text = r.below(50) == 0 ? std::string("[1,2]") : r.below(50) == 0 ? std::string("{\"type\":") : m.dump();
      if (text != m.dump()) { expect = false; head = false; if (matched) { pend[rseq] = p; old.pop_back(); matched = false; } }
      rep::current = "history " + std::to_string(n) + ":" + log + " receive " + rep::esc(text, 300);
      in->frame(text);
      auto pay = s->getPayload();
      REQUIRE(calls.empty(), "a request or event handler ran before its payload was executed");
      REQUIRE(static_cast<bool>(pay) == expect, expect ? "valid message gave no payload" : "invalid message gave a payload");
      bool run = pay && r.below(8) != 0;
      mode = static_cast<int>(r.below(4)); use = r.below(4) ? rt : rt2; rv = rint(r); rs = rstr(r); emsg = rstr(r); deferred = nullptr;
      if (run) pay();
      bool was_def = false;
      if (deferred) { REQUIRE(out->data.empty(), "response sent before the handler answered"); if (r.below(2)) pay = nullptr; auto d = deferred; deferred = nullptr; d(); was_def = true; }
      pay = nullptr;
      auto ms = out->take();
      if (kind < 2) {
        if (run) {
          REQUIRE(calls.size() == 1, "handler ran %zu times", calls.size());
          REQUIRE(calls[0].t == t, "message for '%s' reached the handler of '%s'", t->nm.c_str(), calls[0].t->nm.c_str());
          REQUIRE(calls[0].v == v && calls[0].s == str, "handler got (%lld, %s) instead of (%lld, %s)", static_cast<long long>(calls[0].v), rep::esc(calls[0].s, 80).c_str(), static_cast<long long>(v), rep::esc(str, 80).c_str());
        } else REQUIRE(calls.empty(), "handler ran for an invalid or dropped message");
        if (!expect && with_err) REQUIRE(errors > e0, "invalid message not reported");
        if (expect) REQUIRE(errors == e0, "valid message reported as an error");
      } else REQUIRE(calls.empty(), "handler ran for a response or unknown message");
      if (kind == 3 && with_err) REQUIRE(errors > e0, "message of unknown type not reported");
      if (kind == 0 && run) {
        REQUIRE(ms.size() == 1, "%zu messages sent in answer to one request", ms.size());
        J& a = ms[0]; int64_t q = newseq(a);
        J want{{"seq", q}, {"type", "response"}, {"request_seq", seq}, {"command", cmd}, {"success", !(mode & 1)}};
        if (mode & 1) want["message"] = emsg; else want["body"] = J{{"v", rv}, {"s", rs}};
        REQUIRE(a == want, "answered %s instead of %s", rep::esc(a.dump(), 600).c_str(), rep::esc(want.dump(), 600).c_str());
        int ws = with_sent && use == rt ? 1 : 0;
        REQUIRE(sent == ws, "response-sent callback ran %d times", sent);
        if (ws) {
          REQUIRE(written_before, "response-sent callback ran before the response was written");
          REQUIRE(sent_err == ((mode & 1) != 0), "response-sent callback got the wrong outcome");
          if (mode & 1) REQUIRE(sent_m == emsg, "response-sent callback got error '%s'", rep::esc(sent_m).c_str());
          else REQUIRE(sent_v == rv && sent_s == rs, "response-sent callback got another response");
        }
      } else REQUIRE(ms.empty() && sent == 0, "something was sent in answer to a message that is not an executed request: %s", ms.empty() ? "" : ms[0].dump().c_str());
      if (kind == 2) {
        if (!matched) { if (with_err) REQUIRE(errors > e0, "unmatched response not reported"); }
        else {
          REQUIRE(p->calls == 1, "response handler called %d times", p->calls);
          if (ss == Good && succ) {
            REQUIRE(p->val, "successful response delivered as an error");
            if (hasbody && aok) REQUIRE(p->v == v && p->s == str, "response handler got another value");
            if (!hasbody) REQUIRE(p->v == -7 && p->s == "default", "response handler got another value");
          } else {
            REQUIRE(p->err, "failed response delivered as a value");
            if (ss == Good && sm == Good) REQUIRE(p->msg == rmsg, "error message received as '%s' instead of '%s'", rep::esc(p->msg, 60).c_str(), rep::esc(rmsg, 60).c_str());
          }
        }
      }
      for (auto& x : pend) REQUIRE(x.second->calls == 0, "pending request %lld completed by another response", static_cast<long long>(x.first));
      if (p) REQUIRE(p->calls <= 1, "response handler called %d times", p->calls);
      REQUIRE(g_live == made0, "%ld argument objects leaked", g_live - made0);
      log += kind == 0 ? run ? " request" : " bad-request" : kind == 1 ? run ? " event" : " bad-event" : kind == 2 ? matched ? " response" : " stray" : " other";
      (void)was_def;
    }
    rep::current = "history " + std::to_string(n) + ":" + log + " destroy";
    s = nullptr;
    REQUIRE(!in->open && !out->open, "destroying the session left a stream open");
  }
  REQUIRE(g_live == live0, "%ld argument objects leaked", g_live - live0);
  rep::ran(log);
}
// the typed adaptors, end to end
static void typed(uint64_t n) {
  Rng r = rep::rng(n ^ 0x7777);
  int form = static_cast<int>(r.below(5)); bool fail = r.below(2); bool later = r.below(2);
  std::string msg = rstr(r); if (msg.empty()) msg = "e";
  rep::current = "typed handler form " + std::to_string(form) + (fail ? " error " : " value ") + (later ? "later " : "") + rep::esc(msg, 80);
  auto client = dap::Session::create(), server = dap::Session::create();
  auto a = std::make_shared<Feed>(), b = std::make_shared<Feed>(); auto oc = std::make_shared<Out>(), os = std::make_shared<Out>();
  client->connect(a, oc); server->connect(b, os);
  int calls = 0; int64_t got = 0; std::function<void()> d;
  typedef MyReq Q; typedef MyResp A;
  auto resp = [&] { A x; x.content = msg; x.mimeType = "m"; return x; };
  if (form == 0) server->registerHandler([&](const Q& q) -> dap::ResponseOrError<A> { calls++; got = q.sourceReference; if (fail) return dap::Error(msg); return resp(); });
  else if (form == 1) { fail = false; server->registerHandler([&](const Q& q) { calls++; got = q.sourceReference; return resp(); }); }
  else if (form == 2) { fail = true; server->registerHandler([&](const Q& q) { calls++; got = q.sourceReference; return dap::Error(msg); }); }
  else if (form == 3) { fail = false; server->registerHandler([&](const Q& q, std::function<void(A)> cb) { calls++; got = q.sourceReference; if (later) d = [=] { cb(resp()); }; else cb(resp()); }); }
  else server->registerHandler([&](const Q& q, std::function<void(dap::ResponseOrError<A>)> cb) { calls++; got = q.sourceReference; auto f = [=] { if (fail) cb(dap::Error(msg)); else cb(resp()); }; if (later) d = f; else f(); });
  int sent = 0; bool sent_ok = false;
  server->registerSentHandler([&](const dap::ResponseOrError<A>& x) { sent++; sent_ok = fail ? x.error.message == msg : (!x.error && x.response.content == msg); });
  bool shut = r.below(10) == 0; oc->open = !shut;
  Q q; q.sourceReference = rint(r);
  auto f = client->send(q);
  if (shut) { REQUIRE(f.wait_for(std::chrono::seconds(0)) == dap::future_status::ready && f.get().error, "failed send leaves its future pending or without error"); rep::ran(rep::current); return; }
  REQUIRE(f.wait_for(std::chrono::seconds(0)) == dap::future_status::timeout, "future ready before the response");
  b->data += oc->data;
  if (auto p = server->getPayload()) p();
  if (d) { REQUIRE(os->data.empty(), "response sent before the handler answered"); d(); d = nullptr; }
  REQUIRE(calls == 1 && got == q.sourceReference, "handler called %d times with %lld", calls, static_cast<long long>(got));
  REQUIRE(sent == 1 && sent_ok, "response-sent callback: %d calls, outcome %s", sent, sent_ok ? "right" : "wrong");
  a->data += os->data;
  client->getPayload();
  REQUIRE(f.wait_for(std::chrono::seconds(0)) == dap::future_status::ready, "the response did not complete its request");
  auto x = f.get();
  if (fail) REQUIRE(x.error.message == msg, "error arrived as '%s'", rep::esc(x.error.message, 80).c_str());
  else REQUIRE(!x.error && x.response.content == msg && x.response.mimeType.has_value(), "response arrived changed");
  rep::ran(rep::current);
}
// several requests pending at once, answered in any order
static void pending(uint64_t n) {
  Rng r = rep::rng(n * 3 + 0x77);
  CT a, b, rs; a.nm = "first"; b.nm = "second"; rs.nm = ""; a.extra = b.extra = rs.extra = 8;
  auto in = std::make_shared<Feed>(); auto out = std::make_shared<Out>();
  struct P { std::string cmd; int64_t seq, v; dap::Session::RequestHandlerSuccessCallback ok; dap::Session::RequestHandlerErrorCallback err; bool called; std::function<void()> payload; };
  std::vector<P> ps;
  {
    auto s = dap::Session::create();
    auto h = [&](const char* cmd) { return dap::Session::GenericRequestHandler([&, cmd](const void* x, const dap::Session::RequestHandlerSuccessCallback& ok, const dap::Session::RequestHandlerErrorCallback& err) {
      const Obj* o = static_cast<const Obj*>(x);
      bool found = false;
      for (auto& p : ps) if (p.v == o->v) { found = true; REQUIRE(p.cmd == cmd, "handler of '%s' got the arguments of a '%s' request", cmd, p.cmd.c_str()); REQUIRE(!p.called, "handler called twice for one request"); p.called = true; p.ok = ok; p.err = err; }
      REQUIRE(found, "handler got arguments nobody sent");
    }); };
    s->registerHandler(&a, h("first")); s->registerHandler(&b, h("second"));
    s->connect(in, out);
    int k = 2 + static_cast<int>(r.below(4));
    std::string log = "pending requests:";
    for (int i = 0; i < k; i++) {
      P p; p.cmd = r.below(2) ? "first" : "second"; p.seq = r.below(3) ? static_cast<int64_t>(10 + i * 7 + r.below(5)) : static_cast<int64_t>(r.below(1u << 31)) * 4 + i; p.v = 1000 + i; p.called = false;
      log += " " + p.cmd + "#" + std::to_string(p.seq);
      J m = {{"seq", p.seq}, {"type", "request"}, {"command", p.cmd}, {"arguments", {{"v", p.v}, {"s", "x"}}}};
      in->frame(m.dump()); ps.push_back(p);
    }
    rep::current = log; rep::ran(log);
    bool first = r.below(2);
    for (auto& p : ps) { p.payload = s->getPayload(); REQUIRE(p.payload, "a valid request gave no payload"); if (first && r.below(2)) { p.payload(); p.payload = nullptr; } }
    for (auto& p : ps) if (p.payload) { p.payload(); p.payload = nullptr; }
    REQUIRE(out->data.empty(), "something was sent before any handler answered");
    std::vector<size_t> order; for (size_t i = 0; i < ps.size(); i++) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    for (size_t i : order) {
      P& p = ps[i]; REQUIRE(p.called, "the handler was not called");
      bool good = r.below(2); std::string err = "failure " + std::to_string(i);
      Obj o{0x0B7EC7ull, p.v * 2, "body"};
      log += std::string("; ") + (good ? "answer #" : "refuse #") + std::to_string(p.seq); rep::current = log;
      if (good) p.ok(&rs, &o); else p.err(&rs, dap::Error("%s", err.c_str()));
      p.ok = nullptr; p.err = nullptr;
      auto w = out->take();
      REQUIRE(w.size() == 1, "%zu messages sent for one answer", w.size());
      J& m = w[0];
      REQUIRE(m.value("type", "") == "response" && m.value("request_seq", int64_t(-1)) == p.seq && m.value("command", "") == p.cmd && m.value("success", !good) == good, "wrong response: %s", m.dump().c_str());
      if (good) REQUIRE(m["body"].value("v", 0) == p.v * 2, "wrong body: %s", m.dump().c_str()); else REQUIRE(m.value("message", "") == err, "wrong message: %s", m.dump().c_str());
    }
    ps.clear();
  }
  REQUIRE(a.made == a.gone && b.made == b.gone, "argument objects leaked");
}
int main(int argc, char** argv) {
  rep::init(argc, argv);
  for (uint64_t n = 0; !rep::out_of_time(); n++) { history(n); if (n % 4 == 0) typed(n); if (rep::prop == "C09" || n % 8 == 0) pending(n); }
  return rep::done();
}
