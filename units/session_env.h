// The surroundings of the session, by contract.
namespace dap { struct Request {}; struct Response {}; struct Event {}; TypeInfo::~TypeInfo() {} }

// ---- messages received -------------------------------------------------------------------------
enum Kind { kAbsent, kBool, kInt, kStr, kOther };
enum FieldId { fType, fSeq, fCommand, fEvent, fRequestSeq, fSuccess, fMessage, fArguments, fBody, fNone };
struct Msg {
  int kind[fNone];
  std::string type, command, event, message;
  long seq, request_seq;
  bool success;
};
static Msg* g_msg;                 // the message last read
static bool g_got_msg;
static int field_id(const std::string& n) {
  if (n == "type") return fType;
  if (n == "seq") return fSeq;
  if (n == "command") return fCommand;
  if (n == "event") return fEvent;
  if (n == "request_seq") return fRequestSeq;
  if (n == "success") return fSuccess;
  if (n == "message") return fMessage;
  if (n == "arguments") return fArguments;
  if (n == "body") return fBody;
  return fNone;
}
struct ValueD : dap::Deserializer {
  const Msg* m; int f;             // field f of message m; f == fNone: the whole message
  ValueD(const Msg* m, int f) : m(m), f(f) {}
  using dap::Deserializer::field; using dap::Deserializer::deserialize;
  bool is(int k) const { return f != fNone && m->kind[f] == k; }
  bool deserialize(dap::boolean* v) const override { if (!is(kBool)) return false; *v = f == fSuccess ? m->success : __spec_nondet_bool(); return true; }
  bool deserialize(dap::integer* v) const override {
    if (!is(kInt)) return false;
    *v = f == fSeq ? m->seq : f == fRequestSeq ? m->request_seq : __spec_nondet_i64();
    return true;
  }
  bool deserialize(dap::number* v) const override { if (!is(kInt)) return false; *v = __spec_nondet_double(); return true; }
  bool deserialize(dap::string* v) const override {
    if (!is(kStr)) return false;
    if (f == fType) *v = m->type; else if (f == fCommand) *v = m->command; else if (f == fEvent) *v = m->event;
    else if (f == fMessage) *v = m->message; else v->__nondet();
    return true;
  }
  bool deserialize(dap::object*) const override { return __spec_nondet_bool(); }
  bool deserialize(dap::any*) const override { return __spec_nondet_bool(); }
  size_t count() const override { return 0; }
  bool array(const std::function<bool(dap::Deserializer*)>&) const override { return false; }
  bool field(const std::string& name, const std::function<bool(dap::Deserializer*)>& cb) const override {
    if (f != fNone) return false;
    int i = field_id(name);
    if (i == fNone) return false;
    ValueD v(m, i);              // an absent field is offered as a value of no kind
    return cb(&v);
  }
};

// ---- messages sent -----------------------------------------------------------------------------
struct Sent {
  int n[fNone];                    // how often each field was encoded
  int other;
  long seq, request_seq; bool success;
  std::string type, command, event, message;
  const void* data; const dap::TypeInfo* ti; int payload;   // value encoded as arguments/body
  bool complete;
  bool claimed_ok; unsigned long claim;
};
static Sent g_pool[4]; static int n_pool;
static Sent* g_cur;                // being built
static Sent* g_wrote;              // last written
static int g_writes;               // messages written to the transport
static std::string* g_text;        // text of the last complete message
static bool g_text_used;
static bool ser_may_fail, g_ser_failed;
static int g_seqs_used;

namespace dap { namespace json {
struct ValueS;
}}
static dap::Serializer* g_payload_s;
struct ValueS : dap::Serializer {
  Sent* m; int f;
  ValueS(Sent* m, int f) : m(m), f(f) {}
  bool serialize(dap::boolean v) override { __spec_assert(f == fSuccess, "C09.fields_have_their_types"); m->success = v; return true; }
  bool serialize(dap::integer v) override {
    __spec_assert((f == fSeq) | (f == fRequestSeq), "C09.fields_have_their_types");
    if (f == fSeq) { m->seq = v; m->claimed_ok = have_claim; m->claim = claimed; have_claim = false; }
    else m->request_seq = v;
    return true;
  }
  bool serialize(dap::number) override { __spec_assert(false, "C09.fields_have_their_types"); return true; }
  bool serialize(const dap::string& v) override {
    __spec_assert((f == fType) | (f == fCommand) | (f == fEvent) | (f == fMessage), "C09.fields_have_their_types");
    if (f == fType) m->type = v; else if (f == fCommand) m->command = v; else if (f == fEvent) m->event = v; else if (f == fMessage) m->message = v;
    return true;
  }
  bool serialize(const dap::object&) override { __spec_assert(false, "C09.fields_have_their_types"); return true; }
  bool serialize(const dap::any&) override { __spec_assert(false, "C09.fields_have_their_types"); return true; }
  bool array(size_t, const std::function<bool(dap::Serializer*)>&) override { __spec_assert(false, "C09.fields_have_their_types"); return true; }
  bool object(const std::function<bool(dap::FieldSerializer*)>&) override { __spec_assert(false, "C09.fields_have_their_types"); return true; }
  void remove() override {}
};
struct MsgFS : dap::FieldSerializer {
  using dap::FieldSerializer::field;
  Sent* m;
  bool field(const std::string& name, const SerializeFunc& cb) override {
    int i = field_id(name);
    if (i == fNone) { m->other++; return true; }
    m->n[i]++;
    ValueS v(m, i);
    g_payload_s = (i == fArguments) | (i == fBody) ? &v : nullptr;
    return cb(&v);
  }
};
namespace dap { namespace json {
struct Serializer : dap::Serializer {
  Sent* m;
  Serializer() : m(&g_pool[n_pool++]) {}
  bool serialize(dap::boolean) override { return true; }
  bool serialize(dap::integer) override { return true; }
  bool serialize(dap::number) override { return true; }
  bool serialize(const dap::string&) override { return true; }
  bool serialize(const dap::object&) override { return true; }
  bool serialize(const dap::any&) override { return true; }
  bool array(size_t, const std::function<bool(dap::Serializer*)>&) override { return true; }
  bool object(const std::function<bool(dap::FieldSerializer*)>& cb) override {
    MsgFS fs; fs.m = m;
    bool ok = cb(&fs);
    m->complete = ok;
    return ok;
  }
  void remove() override {}
  std::string dump() const {
    std::string t; t.__nondet();
    *g_text = t; g_text_used = false; g_cur = m;
    return t;
  }
};
struct Deserializer : ValueD {
  explicit Deserializer(const std::string&) : ValueD(g_msg, fNone) {}
};
}}

// ---- transport (whole messages, see C01-C04) -----------------------------------------------------
static bool r_open, w_open, w_ok;
static int r_closes, w_closes, r_binds, w_binds;
static void on_write(Sent*);
static bool joining;               // a thread is being waited for
static bool threads_run;
namespace dap {
class ContentReader {
 public:
  ContentReader() : bound(false) {}
  ContentReader(const std::shared_ptr<Reader>& r, OnInvalidData p = kIgnore) : bound(true), policy(p), rd(r) { r_binds++; }
  bool isOpen() {
    if (bound & r_open) {
      __spec_assert(!joining, "C22.streams_closed_before_joining");
      if (threads_run) r_open = __spec_nondet_bool();      // the peer may hang up at any time
    }
    return bound & r_open;
  }
  void close() { if (bound) { r_closes++; r_open = false; } }
  std::string read() {
    std::string s;
    if (g_got_msg) { s.__nondet(); __spec_assume(s.size() > 0); }
    return s;
  }
  bool bound; OnInvalidData policy; std::shared_ptr<Reader> rd;
};
class ContentWriter {
 public:
  ContentWriter() : bound(false) {}
  ContentWriter(const std::shared_ptr<Writer>& w) : bound(true), wr(w) { w_binds++; }
  bool isOpen() {
    if ((bound & w_open) && threads_run) w_open = __spec_nondet_bool();
    return bound & w_open;
  }
  void close() { if (bound) { w_closes++; w_open = false; } }
  bool write(const std::string& s) const {
    __spec_assert(bound, "C09.writes_only_when_connected");
    if (ob_on) shared_access(this, ~0ul);
    __spec_assert(s == *g_text, "C09.sends_exactly_the_encoded_message");
    __spec_assert(!g_text_used, "C09.each_message_sent_once");
    g_text_used = true;
    g_writes++;
    g_wrote = g_cur;
    on_write(g_cur);
    return w_ok;
  }
  bool bound; std::shared_ptr<Writer> wr;
};
// ---- queue (C06) -----------------------------------------------------------------------------------
static bool chan_closed; static int chan_closes;
template <typename T> struct Chan {
  void reset() { chan_closed = false; }
  void close() { chan_closed = true; chan_closes++; }
  optional<T> take();
  void put(T&& in) { put(static_cast<const T&>(in)); }
  void put(const T& in);
};
}
