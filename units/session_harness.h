static void env_step();
// ---- abstract payload types ------------------------------------------------------------------------
struct AT : dap::TypeInfo {
  std::string nm; unsigned long sz;
  mutable int constructs = 0, destructs = 0, decodes = 0, encodes = 0;
  mutable const void* obj = nullptr; mutable bool alive = false; mutable bool decoded = false;
  int expect;                        // field its values are decoded from
  std::string name() const override { return nm; }
  size_t size() const override { return sz; }
  size_t alignment() const override { return 1; }
  void construct(void* p) const override {
    __spec_writable(p, sz);
    __spec_assert(!alive, "C09.argument_object_constructed_once");
    constructs++; obj = p; alive = true; decoded = false;
  }
  void copyConstruct(void*, const void*) const override { __spec_assert(false, "C09.argument_object_not_copied_bytewise"); }
  void destruct(void* p) const override {
    __spec_assert(alive & (p == obj), "C09.argument_object_destroyed_once");
    destructs++; alive = false;
  }
  bool deserialize(const dap::Deserializer* d, void* p) const override {
    __spec_assert(alive & (p == obj), "C09.decodes_into_the_constructed_object");
    const ValueD* v = static_cast<const ValueD*>(d);
    __spec_assert((v->m == g_msg) & (v->f == expect), "C09.decodes_from_its_own_field");
    decodes++;
    decoded = __spec_choice();
    return decoded;
  }
  bool serialize(dap::Serializer* s, const void* p) const override {
    __spec_assert(s == g_payload_s, "C09.encodes_into_its_own_field");
    ValueS* v = static_cast<ValueS*>(s);
    v->m->data = p; v->m->ti = this; v->m->payload = v->f; encodes++;
    if (ser_may_fail && __spec_choice()) { g_ser_failed = true; return false; }
    return true;
  }
};
static AT* mk(int field) {
  AT* t = new AT(); t->nm.__nondet(); t->sz = __spec_nondet_u64(); __spec_assume(t->sz < (1ul << 40)); t->expect = field;
  return t;
}
// ---- ghost record of handler activity ----------------------------------------------------------------
static int g_errors;               // reports to the error handler
static int reqA, reqB, evA, evB;   // handler calls
static int sent_calls; static const void* sent_data; static const dap::Error* sent_err; static std::string* sent_msg;
static const dap::Session::RequestHandlerSuccessCallback* cb_ok;
static const dap::Session::RequestHandlerErrorCallback* cb_err;
static AT *tA, *tB, *tEA, *tEB, *tR;
static int outcome;                // what the handler does: 0 success, 1 error
static std::string* err_msg; static int resp_obj;
static int* cnt; static AT* cur_t;

static bool check_pending;
static void on_write(Sent* w) {
  if (check_pending && w->n[fArguments]) __spec_assert(pending_has(w->seq), "C11.pending_before_the_bytes_leave");
}
extern "C" { unsigned long g_in, g_put, g_taken, g_run, g_id; bool identify, g_stop; int g_onclose; }
template <typename T> dap::optional<T> dap::Chan<T>::take() {
  if (joining) { __spec_assert(chan_closed, "C22.queue_closed_before_joining"); return dap::optional<T>(); }
  if (__spec_nondet_bool()) return dap::optional<T>();
  unsigned long i = g_taken++;
  T f = [i] { __spec_assert(i == g_run, "C22.executed_in_order_exactly_once"); __spec_assert(held_locks == 0, "C22.handlers_run_without_locks"); g_run++; };
  return dap::optional<T>(f);
}
template <typename T> void dap::Chan<T>::put(const T& in) {
  identify = true; in(); identify = false;
  __spec_assert(g_id == g_put, "C22.queued_in_arrival_order_exactly_once");
  g_put++;
}
static const void* th_at[3]; static std::function<void()>* th_fn[3]; static int n_th, n_joined;
template <class F> static void session_thread(std::thread* t, F f) { th_at[n_th] = t; th_fn[n_th] = new std::function<void()>(f); n_th++; }
static void session_join(std::thread* t) {
  __spec_assert(held_locks == 0, "C22.no_lock_held_while_joining");
  for (int i = 0; i < n_th; i++) if (th_at[i] == t) { joining = true; (*th_fn[i])(); joining = false; n_joined++; }
}
static void session_thread_move(std::thread* to, std::thread* from) { for (int i = 0; i < n_th; i++) if (th_at[i] == from) th_at[i] = to; }

struct RW : dap::ReaderWriter {
  bool isOpen() override { return true; }
  void close() override {}
  size_t read(void*, size_t) override { return 0; }
  bool write(const void*, size_t) override { return true; }
};
static dap::Session* S;
static bool later;
static dap::Session::RequestHandlerSuccessCallback* later_ok;
static dap::Session::RequestHandlerErrorCallback* later_err;
static void answer(const dap::Session::RequestHandlerSuccessCallback& ok, const dap::Session::RequestHandlerErrorCallback& err) {
  if (outcome == 0) ok(tR, &resp_obj);
  else { dap::Error e(*err_msg); err(tR, e); }
}
static void request_handler(AT* t, int* count, const void* args, const dap::Session::RequestHandlerSuccessCallback& ok, const dap::Session::RequestHandlerErrorCallback& err) {
  (*count)++;
  __spec_assert(held_locks == 0, "C09.handlers_run_without_locks");
  __spec_assert(t->alive & (args == t->obj) & t->decoded, "C09.handler_gets_the_decoded_arguments");
  if (later) { *later_ok = ok; *later_err = err; }      // answers after it has returned
  else answer(ok, err);
  __spec_assert(t->alive, "C09.arguments_live_while_the_handler_runs");
}
static Msg* any_message() {
  Msg* m = new Msg();
  for (int i = 0; i < fNone; i++) m->kind[i] = kOther;
  m->seq = __spec_nondet_i64(); m->request_seq = __spec_nondet_i64(); m->success = __spec_nondet_bool();
  m->command.__nondet(); m->event.__nondet(); m->message.__nondet();
  return m;
}
static int has(int k) { return __spec_choice() ? k : __spec_choice() ? kOther : kAbsent; }
static void setup() {
  g_text = new std::string(); sent_msg = new std::string(); err_msg = new std::string(); err_msg->__nondet();
  tA = mk(fArguments); tB = mk(fArguments); tEA = mk(fBody); tEB = mk(fBody); tR = mk(fBody);
  S = dap::Session::create().release();
  g_session = S;
  w_open = true; w_ok = __spec_nondet_bool(); r_open = true;
  ob_on = true;
  S->onError([](const char*) { g_errors++; });
  S->connect(std::make_shared<RW>(), std::make_shared<RW>());
}
static void finish() {
  ob_on = false;
  g_session = nullptr;
  delete S;
}
// a name that is a's, b's or neither
static void pick_name(std::string* s, AT* a, AT* b, int who) {
  if (who == 0) *s = a->nm; else if (who == 1) *s = b->nm;
  else { __spec_assume(!(*s == a->nm)); __spec_assume(!(*s == b->nm)); }
}

static void env_step() {}
static long seq1, seq2;
extern "C" void harness_request() {
  setup();
  S->registerHandler(tA, [](const void* a, const dap::Session::RequestHandlerSuccessCallback& o, const dap::Session::RequestHandlerErrorCallback& e) { request_handler(tA, &reqA, a, o, e); });
  __spec_assume(!(tA->nm == tB->nm));
  S->registerHandler(tB, [](const void* a, const dap::Session::RequestHandlerSuccessCallback& o, const dap::Session::RequestHandlerErrorCallback& e) { request_handler(tB, &reqB, a, o, e); });
  __spec_assert(g_errors == 0, "C12.no_spurious_reports");
  bool with_sent = __spec_choice();
  if (with_sent) S->registerHandler(tR, dap::Session::GenericResponseSentHandler([](const void* d, const dap::Error* e) {
    sent_calls++; sent_data = d; sent_err = e; if (e) *sent_msg = e->message;
    __spec_assert(g_writes == 1, "C09.sent_callback_after_the_response");
  }));
  outcome = __spec_choice();
  later_ok = new dap::Session::RequestHandlerSuccessCallback(); later_err = new dap::Session::RequestHandlerErrorCallback();
  Msg* m = g_msg = any_message(); g_got_msg = true;
  m->type = "request"; m->kind[fType] = kStr;
  m->kind[fSeq] = has(kInt);
  m->kind[fCommand] = has(kStr);
  m->kind[fArguments] = has(kOther);
  int who = __spec_choice() ? 0 : __spec_choice() ? 1 : 2;
  pick_name(&m->command, tA, tB, who);
  bool isA = who == 0, isB = who == 1;
  unsigned long heap = __spec_live_heap();
  auto p = S->getPayload();
  __spec_assert(reqA + reqB == 0, "C09.handler_runs_only_when_the_payload_is_executed");
  bool header = (m->kind[fSeq] == kInt) & (m->kind[fCommand] == kStr);
  bool found = header & (isA | isB);
  AT* t = isA ? tA : tB;
  bool ok = found && t->decodes == 1 && t->decoded;
  __spec_assert(static_cast<bool>(p) == ok, "C12.payload_iff_the_request_is_valid");
  if (!ok) __spec_assert(g_errors >= 1, "C12.invalid_request_is_reported");
  else __spec_assert(g_errors == 0, "C12.no_spurious_reports");
  int how = 0;
  if (p) {
    if (__spec_choice()) {
      later = __spec_choice();
      how = 1; p();
      if (later) {
        __spec_assert(g_writes == 0, "C09.no_response_before_the_handler_answers");
        if (__spec_choice()) p = nullptr;
        answer(*later_ok, *later_err);
        *later_ok = nullptr; *later_err = nullptr;
        __spec_cover("C09.answered_later");
      }
    }
    p = nullptr;
  }
  __spec_assert(__spec_live_heap() == heap, "C12.no_memory_leaked");
  __spec_assert(tA->constructs + tB->constructs == tA->destructs + tB->destructs, "C09.argument_object_destroyed_once");
  __spec_assert(tA->constructs + tB->constructs <= 1, "C09.argument_object_constructed_once");
  if (how == 1) {
    __spec_cover("C09.executed");
    __spec_assert((reqA == (isA ? 1 : 0)) & (reqB == (isB ? 1 : 0)), "C09.its_own_handler_called_once");
    __spec_assert(g_writes == 1, "C09.one_response_per_request");
    Sent* w = g_wrote;
    __spec_assert(w->complete, "C09.response_complete");
    __spec_assert((w->n[fType] == 1) & (w->n[fSeq] == 1) & (w->n[fRequestSeq] == 1) & (w->n[fCommand] == 1) & (w->n[fSuccess] == 1), "C09.response_has_its_header");
    __spec_assert(w->type == "response", "C09.response_type");
    __spec_assert(w->request_seq == m->seq, "C09.response_carries_the_request_seq");
    __spec_assert(w->command == m->command, "C09.response_carries_the_command");
    __spec_assert(w->success == (outcome == 0), "C09.success_flag_is_the_outcome");
    if (outcome == 0) __spec_assert((w->n[fBody] == 1) & (w->n[fMessage] == 0) && w->data == &resp_obj && w->ti == tR, "C09.body_is_the_handlers_response");
    else __spec_assert((w->n[fBody] == 0) & (w->n[fMessage] == 1) && w->message == *err_msg, "C09.message_is_the_handlers_error");
    __spec_assert(sent_calls == (with_sent ? 1 : 0), "C09.sent_callback_once");
    if (with_sent) {
      if (outcome == 0) __spec_assert(sent_data == &resp_obj && sent_err == nullptr, "C09.sent_callback_gets_the_outcome");
      else __spec_assert(sent_data == nullptr && sent_err != nullptr && *sent_msg == *err_msg, "C09.sent_callback_gets_the_outcome");
    }
    __spec_assert(w->claimed_ok && static_cast<unsigned long>(w->seq) == w->claim, "C11.sequence_number_claimed_atomically");
    __spec_assert(w->seq >= 1, "C11.sequence_number_positive");
  } else {
    __spec_assert((reqA == 0) & (reqB == 0), "C12.no_handler_for_an_invalid_request");
    __spec_assert(g_writes == 0, "C12.no_response_to_an_invalid_request");
    if (ok) __spec_cover("C09.dropped"); else __spec_cover("C12.invalid");
  }
  finish();
}
// another message of any kind arrives, and may be executed and answered, while a request is pending
extern "C" void harness_interleaved() {
  setup();
  S->registerHandler(tA, [](const void* a, const dap::Session::RequestHandlerSuccessCallback& o, const dap::Session::RequestHandlerErrorCallback& e) { request_handler(tA, &reqA, a, o, e); });
  __spec_assume(!(tA->nm == tB->nm));
  S->registerHandler(tB, [](const void* a, const dap::Session::RequestHandlerSuccessCallback& o, const dap::Session::RequestHandlerErrorCallback& e) { request_handler(tB, &reqB, a, o, e); });
  outcome = __spec_choice();
  later_ok = new dap::Session::RequestHandlerSuccessCallback(); later_err = new dap::Session::RequestHandlerErrorCallback();
  Msg* m = g_msg = any_message(); g_got_msg = true;
  m->type = "request"; m->kind[fType] = kStr; m->kind[fSeq] = kInt; m->kind[fCommand] = kStr; m->command = tA->nm;
  auto p = S->getPayload();
  __spec_assume(static_cast<bool>(p));
  later = true;
  bool started = __spec_choice();
  if (started) p();
  // the other message
  Msg* o = g_msg = any_message();
  o->kind[fType] = kStr; o->kind[fSeq] = kInt; o->kind[fCommand] = kStr; o->kind[fRequestSeq] = kInt; o->kind[fSuccess] = kBool; o->kind[fMessage] = kStr; o->kind[fEvent] = kStr;
  int kind = __spec_choice() ? 0 : __spec_choice() ? 1 : 2;
  if (kind == 0) { o->type = "request"; o->command = tB->nm; } else if (kind == 1) o->type = "event"; else o->type = "response";
  auto q = S->getPayload();
  if (q && __spec_choice()) { later = false; q(); later = true; __spec_assert(g_writes == 1 && g_wrote->request_seq == o->seq, "C09.response_carries_the_request_seq"); __spec_cover("C09.overtaken"); }
  q = nullptr;
  int before = g_writes;
  if (!started) p();
  __spec_assert(g_writes == before, "C09.no_response_before_the_handler_answers");
  __spec_assert(reqA == 1, "C09.its_own_handler_called_once");
  p = nullptr;
  answer(*later_ok, *later_err);
  *later_ok = nullptr; *later_err = nullptr;
  __spec_assert(g_writes == before + 1, "C09.one_response_per_request");
  Sent* w = g_wrote;
  __spec_assert(w->request_seq == m->seq, "C09.response_carries_the_request_seq");
  __spec_assert(w->command == m->command, "C09.response_carries_the_command");
  __spec_assert(w->success == (outcome == 0), "C09.success_flag_is_the_outcome");
  if (outcome == 0) __spec_assert((w->n[fBody] == 1) & (w->n[fMessage] == 0) && w->data == &resp_obj && w->ti == tR, "C09.body_is_the_handlers_response");
  else __spec_assert((w->n[fBody] == 0) & (w->n[fMessage] == 1) && w->message == *err_msg, "C09.message_is_the_handlers_error");
  __spec_assert(tA->constructs == tA->destructs && tB->constructs == tB->destructs, "C09.argument_object_destroyed_once");
  __spec_cover("C09.interleaved");
  finish();
}

static int evA_, evB_;
static void event_handler(AT* t, int* count, const void* d) {
  (*count)++;
  __spec_assert(held_locks == 0, "C22.handlers_run_without_locks");
  __spec_assert(t->alive & (d == t->obj), "C22.event_handler_gets_the_decoded_body");
  __spec_assert(t->decoded, "C22.event_handler_gets_the_decoded_body");
}
extern "C" void harness_event() {
  setup();
  S->registerHandler(tEA, dap::Session::GenericEventHandler([](const void* d) { event_handler(tEA, &evA_, d); }));
  __spec_assume(!(tEA->nm == tEB->nm));
  S->registerHandler(tEB, dap::Session::GenericEventHandler([](const void* d) { event_handler(tEB, &evB_, d); }));
  __spec_assert(g_errors == 0, "C12.no_spurious_reports");
  Msg* m = g_msg = any_message(); g_got_msg = true;
  m->type = "event"; m->kind[fType] = kStr;
  m->kind[fSeq] = has(kInt);
  m->kind[fEvent] = has(kStr);
  m->kind[fBody] = __spec_choice() ? kOther : kAbsent;
  int who = __spec_choice() ? 0 : __spec_choice() ? 1 : 2;
  pick_name(&m->event, tEA, tEB, who);
  unsigned long heap = __spec_live_heap();
  auto p = S->getPayload();
  __spec_assert(evA_ + evB_ == 0, "C22.handler_runs_only_when_the_payload_is_executed");
  bool header = (m->kind[fSeq] == kInt) & (m->kind[fEvent] == kStr);
  AT* t = who == 0 ? tEA : tEB;
  bool ok = header && who < 2 && t->decodes == 1 && t->decoded;
  __spec_assert(static_cast<bool>(p) == ok, "C12.payload_iff_the_event_is_valid");
  if (!ok) { __spec_assert(g_errors >= 1, "C12.invalid_event_is_reported"); __spec_cover("C12.invalid_event"); }
  else __spec_assert(g_errors == 0, "C12.no_spurious_reports");
  int how = 0;
  if (p) { if (__spec_choice()) { how = 1; p(); __spec_cover("C22.event_executed"); } p = nullptr; }
  __spec_assert((evA_ == (how && who == 0)) & (evB_ == (how && who == 1)), "C22.event_reaches_its_own_handler_once");
  __spec_assert(g_writes == 0, "C22.events_are_not_answered");
  __spec_assert(tEA->constructs + tEB->constructs == tEA->destructs + tEB->destructs, "C12.event_object_destroyed_once");
  __spec_assert(__spec_live_heap() == heap, "C12.no_memory_leaked");
  finish();
}
// neither request, event nor response; or no header at all; or nothing read
extern "C" void harness_other() {
  setup();
  S->registerHandler(tA, [](const void* a, const dap::Session::RequestHandlerSuccessCallback& o, const dap::Session::RequestHandlerErrorCallback& e) { request_handler(tA, &reqA, a, o, e); });
  S->registerHandler(tEA, dap::Session::GenericEventHandler([](const void* d) { event_handler(tEA, &evA_, d); }));
  Msg* m = g_msg = any_message(); g_got_msg = __spec_choice();
  m->kind[fType] = has(kStr); m->kind[fSeq] = has(kInt); m->kind[fCommand] = has(kStr); m->kind[fEvent] = has(kStr);
  m->type.__nondet();
  __spec_assume(!(m->type == "request")); __spec_assume(!(m->type == "event")); __spec_assume(!(m->type == "response"));
  unsigned long heap = __spec_live_heap();
  auto p = S->getPayload();
  __spec_assert(!p, "C12.no_payload_for_an_unknown_message");
  if (g_got_msg) { __spec_assert(g_errors >= 1, "C12.unknown_message_is_reported"); __spec_cover("C12.unknown"); }
  __spec_assert(tA->constructs + tEA->constructs == 0, "C12.nothing_decoded_for_an_unknown_message");
  __spec_assert((g_writes == 0) & (reqA + evA_ == 0), "C12.no_handler_for_an_unknown_message");
  __spec_assert(__spec_live_heap() == heap, "C12.no_memory_leaked");
  finish();
}
// ---- responses -----------------------------------------------------------------------------------------
static int rsp1, rsp2; static bool rsp_err, rsp_val; static std::string* rsp_msg; static AT *tQ, *tR1, *tR2; static int req_obj;
static void response_handler(AT* t, int* count, const void* d, const dap::Error* e) {
  (*count)++;
  __spec_assert(held_locks == 0, "C10.handlers_run_without_locks");
  __spec_assert((d != nullptr) != (e != nullptr), "C10.value_or_error");
  rsp_err = e != nullptr; rsp_val = d != nullptr;
  if (e) *rsp_msg = e->message;
  if (d) __spec_assert(t->alive & (d == t->obj), "C10.handler_gets_the_decoded_body");
}
static void two_pending() {
  tQ = mk(fArguments); tR1 = mk(fBody); tR2 = mk(fBody); rsp_msg = new std::string();
  w_ok = true;
  bool ok = S->send(tQ, tR1, &req_obj, [](const void* d, const dap::Error* e) { response_handler(tR1, &rsp1, d, e); });
  __spec_assert(ok, "C11.send_succeeds_on_an_open_transport");
  seq1 = g_wrote->seq;
  ok = S->send(tQ, tR2, &req_obj, [](const void* d, const dap::Error* e) { response_handler(tR2, &rsp2, d, e); });
  __spec_assert(ok, "C11.send_succeeds_on_an_open_transport");
  seq2 = g_wrote->seq;
  __spec_assert(seq1 != seq2, "C11.sequence_numbers_distinct");
  __spec_assert(rsp1 + rsp2 == 0, "C10.no_response_before_one_arrives");
}
static void check_response(Msg* m, int who, int before_errors) {
  AT* t = who == 0 ? tR1 : tR2;
  bool matched = (m->kind[fSeq] == kInt) & (m->kind[fRequestSeq] == kInt) & (who < 2);
  __spec_assert((rsp1 == (matched && who == 0)) & (rsp2 == (matched && who == 1)), "C10.response_reaches_its_own_request_once");
  if (!matched) {
    __spec_assert(g_errors > before_errors, "C10.unmatched_response_is_reported");
    __spec_assert(tR1->constructs + tR2->constructs == 0, "C10.nothing_decoded_for_an_unmatched_response");
    __spec_cover("C10.unmatched");
  } else if (m->kind[fSuccess] == kBool && m->success) {
    __spec_assert(rsp_val, "C10.value_on_success");
    __spec_assert(t->decodes == 1, "C10.value_decoded_from_the_body");
    __spec_cover("C10.value");
  } else {
    __spec_assert(rsp_err, "C10.error_on_failure");
    if (m->kind[fSuccess] == kBool && m->kind[fMessage] == kStr) {
      __spec_assert(*rsp_msg == m->message, "C10.error_is_exactly_the_received_message");
      __spec_assert(g_errors == before_errors, "C10.no_spurious_reports");
      __spec_cover("C10.error");
    } else { __spec_assert(g_errors > before_errors, "C10.malformed_response_is_reported"); __spec_cover("C10.malformed"); }
  }
  __spec_assert(tR1->constructs == tR1->destructs && tR2->constructs == tR2->destructs, "C10.response_object_destroyed_once");
}
extern "C" void harness_response() {
  setup();
  two_pending();
  Msg* m = g_msg = any_message(); g_got_msg = true;
  m->type = "response"; m->kind[fType] = kStr;
  m->kind[fSeq] = __spec_choice() ? kInt : kAbsent; m->kind[fRequestSeq] = has(kInt);
  m->kind[fSuccess] = has(kBool); m->kind[fMessage] = has(kStr); m->kind[fBody] = __spec_choice() ? kOther : kAbsent;
  int who = __spec_choice() ? 0 : __spec_choice() ? 1 : 2;
  if (who == 0) m->request_seq = seq1; else if (who == 1) m->request_seq = seq2;
  else __spec_assume((m->request_seq != seq1) & (m->request_seq != seq2));
  unsigned long heap = __spec_live_heap();
  auto p = S->getPayload();
  __spec_assert(!p, "C10.responses_are_delivered_by_the_receiver");
  check_response(m, who, 0);
  __spec_assert(g_writes == 2, "C10.responses_are_not_answered");
  __spec_assert(__spec_live_heap() <= heap, "C10.no_memory_leaked");
  finish();
}
extern "C" void harness_response_again() {
  setup();
  two_pending();
  Msg* m = g_msg = any_message(); g_got_msg = true;
  m->type = "response"; m->kind[fType] = kStr; m->kind[fSeq] = kInt; m->kind[fRequestSeq] = kInt;
  m->kind[fSuccess] = has(kBool); m->kind[fMessage] = kStr; m->kind[fBody] = kAbsent;
  m->request_seq = seq1;
  S->getPayload();
  __spec_assert((rsp1 == 1) & (rsp2 == 0), "C10.response_reaches_its_own_request_once");
  int e = g_errors;
  bool again = __spec_choice();
  if (!again) m->request_seq = seq2;
  S->getPayload();
  if (again) {
    __spec_assert((rsp1 == 1) & (rsp2 == 0), "C10.answered_request_gets_nothing_more");
    __spec_assert(g_errors > e, "C10.unmatched_response_is_reported");
    __spec_cover("C10.duplicate");
  } else { __spec_assert((rsp1 == 1) & (rsp2 == 1), "C10.other_requests_stay_pending"); __spec_cover("C10.second"); }
  finish();
}

// sending, with other threads sending at the same time
extern "C" void harness_send() {
  setup();
  env_on = true; check_pending = true; ser_may_fail = true;
  tQ = mk(fArguments); tR1 = mk(fBody);
  w_open = __spec_choice();
  bool ev = __spec_choice();
  unsigned long heap = __spec_live_heap();
  bool ok;
  if (ev) ok = S->send(tEA, &req_obj);
  else ok = S->send(tQ, tR1, &req_obj, [](const void* d, const dap::Error* e) { response_handler(tR1, &rsp1, d, e); });
  env_on = false;
  if (g_ser_failed | !w_open) {
    __spec_assert(!ok & (g_writes == 0), "C11.failed_send_writes_nothing");
    __spec_cover("C11.send_failed");
  } else {
    __spec_assert(g_writes == 1, "C11.one_message_per_send");
    __spec_assert(ok == w_ok, "C11.send_result_is_the_transports");
    Sent* w = g_wrote;
    __spec_assert((w->n[fType] == 1) & (w->n[fSeq] == 1) & (w->n[fCommand] == !ev) & (w->n[fEvent] == ev) & (w->n[fArguments] == !ev) & (w->n[fBody] == ev), "C11.message_has_its_fields");
    __spec_assert(w->claimed_ok && static_cast<unsigned long>(w->seq) == w->claim, "C11.sequence_number_claimed_atomically");
    __spec_assert(w->seq >= 1, "C11.sequence_number_positive");
    if (ev) { __spec_assert(w->type == "event" && w->event == tEA->nm && w->ti == tEA, "C11.message_is_the_event"); __spec_cover("C11.event"); }
    else { __spec_assert(w->type == "request" && w->command == tQ->nm && w->ti == tQ, "C11.message_is_the_request"); __spec_cover("C11.request"); }
    __spec_assert(w->data == &req_obj, "C11.encodes_the_object_passed");
  }
  if (ev) __spec_assert(__spec_live_heap() == heap, "C11.no_memory_leaked");
  finish();
}
// ---- threads ----------------------------------------------------------------------------------------------
struct H : Impl {
  std::function<void()> getPayload() override {
    if (joining) return {};
    if (__spec_nondet_bool()) return {};          // a response, an invalid message, or the end of the stream
    unsigned long i = g_in++;
    return [i] { if (identify) g_id = i; else __spec_assert(false, "C22.executed_on_the_dispatch_thread"); };
  }
};
static void start(bool with_close) {
  g_text = new std::string();
  S = new H(); g_session = S; ob_on = true; r_open = w_open = true;
  S->onError([](const char*) { g_errors++; });
  S->connect(std::make_shared<RW>(), std::make_shared<RW>());
  __spec_assert((r_binds == 1) & (w_binds == 1), "C22.connect_binds_both_streams");
  if (with_close) S->startProcessingMessages([] {
    g_onclose++;
    __spec_assert(!r_open, "C22.close_callback_when_the_stream_closes");
    __spec_assert(g_in == g_put, "C22.every_payload_queued");
    __spec_assert(held_locks == 0, "C22.handlers_run_without_locks");
  });
  else S->startProcessingMessages(dap::Session::ClosedHandler());
  __spec_assert((n_th == 2) & (g_errors == 0), "C22.starts_its_threads");
}
extern "C" void harness_thread0() {
  bool cb = __spec_choice();
  start(cb);
  threads_run = true;
  (*th_fn[0])();
  threads_run = false;
  __spec_assert((g_in == g_put) & (g_run == g_taken), "C22.nothing_lost");
  __spec_assert(g_onclose <= (cb ? 1 : 0), "C22.close_callback_once");
  if (!r_open) __spec_assert(g_onclose == (cb ? 1 : 0), "C22.close_callback_once");
  __spec_cover("C22.thread_ends");
}
extern "C" void harness_thread1() {
  bool cb = __spec_choice();
  start(cb);
  threads_run = true;
  (*th_fn[1])();
  threads_run = false;
  __spec_assert((g_in == g_put) & (g_run == g_taken), "C22.nothing_lost");
  __spec_assert(g_onclose <= (cb ? 1 : 0), "C22.close_callback_once");
  if (!r_open) __spec_assert(g_onclose == (cb ? 1 : 0), "C22.close_callback_once");
  __spec_cover("C22.thread_ends");
}
extern "C" void harness_destroy() {
  int how = __spec_choice() ? 0 : __spec_choice() ? 1 : 2;
  if (how == 0) start(__spec_choice());
  else {
    S = new H(); ob_on = true; g_session = S; r_open = w_open = true;
    if (how == 1) S->connect(std::make_shared<RW>(), std::make_shared<RW>());
  }
  delete S;
  if (how < 2) __spec_assert((r_closes >= 1) & (w_closes >= 1), "C22.destroying_closes_both_streams");
  __spec_assert(n_joined == n_th, "C22.threads_are_joined");
  __spec_cover("C22.destroyed");
}
extern "C" void harness_twice() {
  start(false);
  int rb = r_binds, wb = w_binds;
  r_open = __spec_nondet_bool(); w_open = __spec_nondet_bool();    // whether or not the streams are still open
  if (__spec_choice()) {
    S->connect(std::make_shared<RW>(), std::make_shared<RW>());
    __spec_assert((r_binds == rb) & (w_binds == wb), "C22.second_connect_has_no_effect");
    __spec_cover("C22.connect_twice");
  } else {
    S->startProcessingMessages([] { g_onclose++; });
    __spec_cover("C22.start_twice");
  }
  __spec_assert(g_errors == 1, "C22.second_call_is_reported");
  __spec_assert((n_th == 2) & (n_joined == 0) & (r_closes == 0) & (w_closes == 0), "C22.second_call_has_no_effect");
  delete S;
  __spec_assert(g_onclose == 0, "C22.second_call_has_no_effect");
}

// ---- the typed adaptors of dap/session.h, against the generic interface above -------------------------------
struct MyResp : dap::Response { unsigned long v; std::string s; };
struct MyReq : dap::Request { using Response = MyResp; unsigned long v; };
struct MyEv : dap::Event { unsigned long v; };
static AT *tMyReq, *tMyResp, *tMyEv;
namespace dap {
template <> struct TypeOf<MyReq> { static const TypeInfo* type() { return tMyReq; } };
template <> struct TypeOf<MyResp> { static const TypeInfo* type() { return tMyResp; } };
template <> struct TypeOf<MyEv> { static const TypeInfo* type() { return tMyEv; } };
}
static int n_reg; static const dap::TypeInfo* reg_t;
static dap::Session::GenericRequestHandler* reg_req; static dap::Session::GenericEventHandler* reg_ev; static dap::Session::GenericResponseSentHandler* reg_sent;
static int n_send; static const dap::TypeInfo *send_t, *send_rt; static const void* send_d; static dap::Session::GenericResponseHandler* send_h; static bool send_ok;
static const void *bind_r, *bind_w; static int n_connect, n_start, n_onclose; static dap::Session::ClosedHandler* bind_h;
struct Cap : dap::Session {
  void setOnInvalidData(dap::OnInvalidData) override {}
  void onError(const ErrorHandler&) override {}
  void connect(const std::shared_ptr<dap::Reader>& r, const std::shared_ptr<dap::Writer>& w) override { bind_r = r.get(); bind_w = w.get(); n_connect++; __spec_assert(n_start == 0, "C22.connected_before_processing_starts"); }
  void startProcessingMessages(const ClosedHandler& h) override { n_start++; __spec_assert(n_connect == 1, "C22.connected_before_processing_starts"); bind_h = new ClosedHandler(h); }
  std::function<void()> getPayload() override { return {}; }
  void registerHandler(const dap::TypeInfo* t, const GenericRequestHandler& h) override { n_reg++; reg_t = t; reg_req = new GenericRequestHandler(h); }
  void registerHandler(const dap::TypeInfo* t, const GenericEventHandler& h) override { n_reg++; reg_t = t; reg_ev = new GenericEventHandler(h); }
  void registerHandler(const dap::TypeInfo* t, const GenericResponseSentHandler& h) override { n_reg++; reg_t = t; reg_sent = new GenericResponseSentHandler(h); }
  bool send(const dap::TypeInfo* t, const dap::TypeInfo* rt, const void* d, const GenericResponseHandler& h) override { n_send++; send_t = t; send_rt = rt; send_d = d; send_h = new GenericResponseHandler(h); return send_ok; }
  bool send(const dap::TypeInfo* t, const void* d) override { n_send++; send_t = t; send_d = d; return send_ok; }
  using dap::Session::registerHandler; using dap::Session::send;
};
static int h_calls, h_ok, h_err; static unsigned long h_arg, h_val; static std::string* h_msg; static std::string* h_str;
static MyResp mk_resp() { MyResp r; r.v = h_val; r.s = *h_str; return r; }
static void adaptors() {
  tMyReq = mk(fArguments); tMyResp = mk(fBody); tMyEv = mk(fBody);
  h_msg = new std::string(); h_msg->__nondet(); h_str = new std::string(); h_str->__nondet(); h_val = __spec_nondet_u64();
}
extern "C" void harness_adaptor_request() {
  adaptors();
  Cap c;
  bool fail = __spec_choice();
  outcome = fail;
  __spec_assume(!fail | (h_msg->size() > 0));          // an empty error message means success
  int form = __spec_choice() ? 0 : __spec_choice() ? 1 : __spec_choice() ? 2 : __spec_choice() ? 3 : 4;
  static std::function<void(MyResp)>* l1; static std::function<void(dap::ResponseOrError<MyResp>)>* l2;
  l1 = nullptr; l2 = nullptr;
  if (form == 0) c.registerHandler([](const MyReq& r) -> dap::ResponseOrError<MyResp> { h_calls++; h_arg = r.v; if (outcome) return dap::Error(*h_msg); return mk_resp(); });
  else if (form == 1) { __spec_assume(!fail); c.registerHandler([](const MyReq& r) { h_calls++; h_arg = r.v; return mk_resp(); }); }
  else if (form == 2) { __spec_assume(fail); c.registerHandler([](const MyReq& r) { h_calls++; h_arg = r.v; return dap::Error(*h_msg); }); }
  else if (form == 3) { __spec_assume(!fail); c.registerHandler([](const MyReq& r, std::function<void(MyResp)> cb) { h_calls++; h_arg = r.v; if (later) l1 = new std::function<void(MyResp)>(cb); else cb(mk_resp()); }); }
  else c.registerHandler([](const MyReq& r, std::function<void(dap::ResponseOrError<MyResp>)> cb) { h_calls++; h_arg = r.v; if (later) l2 = new std::function<void(dap::ResponseOrError<MyResp>)>(cb); else if (outcome) cb(dap::Error(*h_msg)); else cb(mk_resp()); });
  __spec_assert(n_reg == 1 && reg_t == tMyReq && reg_req != nullptr, "C09.registers_under_the_request_type");
  later = (form >= 3) && __spec_choice();
  MyReq q; q.v = __spec_nondet_u64();
  {
    dap::Session::RequestHandlerSuccessCallback ok = [](const dap::TypeInfo* t, const void* d) {
      h_ok++;
      const MyResp* r = static_cast<const MyResp*>(d);
      __spec_assert(t == tMyResp && r->v == h_val && r->s == *h_str, "C09.handlers_response_passed_on");
    };
    dap::Session::RequestHandlerErrorCallback err = [](const dap::TypeInfo* t, const dap::Error& e) {
      h_err++;
      __spec_assert(t == tMyResp && e.message == *h_msg, "C09.handlers_error_passed_on");
    };
    (*reg_req)(&q, ok, err);
  }
  __spec_assert(h_calls == 1, "C09.its_own_handler_called_once");
  __spec_assert(h_arg == q.v, "C09.handler_gets_the_decoded_arguments");
  if (later) {
    __spec_assert((h_ok == 0) & (h_err == 0), "C09.no_response_before_the_handler_answers");
    if (form == 3) (*l1)(mk_resp()); else if (outcome) (*l2)(dap::Error(*h_msg)); else (*l2)(mk_resp());
    __spec_cover("C09.adaptor_later");
  }
  __spec_assert((h_ok == !fail) & (h_err == fail), "C09.success_flag_is_the_outcome");
  if (fail) __spec_cover("C09.adaptor_error"); else __spec_cover("C09.adaptor_ok");
}
extern "C" void harness_adaptor_event_sent() {
  adaptors();
  Cap c;
  if (__spec_choice()) {
    c.registerHandler([](const MyEv& e) { h_calls++; h_arg = e.v; });
    __spec_assert(n_reg == 1 && reg_t == tMyEv && reg_ev != nullptr, "C22.registers_under_the_event_type");
    MyEv e; e.v = __spec_nondet_u64();
    (*reg_ev)(&e);
    __spec_assert((h_calls == 1) & (h_arg == e.v), "C22.event_reaches_its_own_handler_once");
    __spec_cover("C22.adaptor_event");
  } else {
    c.registerSentHandler([](const dap::ResponseOrError<MyResp>& r) {
      h_calls++;
      if (outcome) __spec_assert(r.error.message == *h_msg, "C09.sent_callback_gets_the_outcome");
      else __spec_assert(r.error.message.size() == 0 && r.response.v == h_val && r.response.s == *h_str, "C09.sent_callback_gets_the_outcome");
    });
    __spec_assert(n_reg == 1 && reg_t == tMyResp && reg_sent != nullptr, "C09.registers_under_the_response_type");
    outcome = __spec_choice();
    if (outcome) { dap::Error e(*h_msg); (*reg_sent)(nullptr, &e); }
    else { MyResp r = mk_resp(); (*reg_sent)(&r, nullptr); }
    __spec_assert(h_calls == 1, "C09.sent_callback_once");
    __spec_cover("C09.adaptor_sent");
  }
}
extern "C" void harness_adaptor_send() {
  adaptors();
  Cap c;
  send_ok = __spec_choice();
  if (__spec_choice()) {
    MyEv e; e.v = 5;
    c.send(e);
    __spec_assert(n_send == 1 && send_t == tMyEv && send_d == &e, "C11.encodes_the_object_passed");
    __spec_cover("C11.adaptor_event");
    return;
  }
  MyReq q; q.v = 5;
  auto f = c.send(q);
  __spec_assert(n_send == 1 && send_t == tMyReq && send_rt == tMyResp && send_d == &q, "C10.request_paired_with_its_response_type");
  outcome = 1;
  if (send_ok) {
    __spec_assert(f.wait_for(std::chrono::seconds(0)) != dap::future_status::ready, "C10.no_response_before_one_arrives");
    outcome = __spec_choice();
    if (outcome) { dap::Error e(*h_msg); (*send_h)(nullptr, &e); }
    else { MyResp r = mk_resp(); (*send_h)(&r, nullptr); }
  }
  __spec_assert(f.wait_for(std::chrono::seconds(0)) == dap::future_status::ready, "C10.matched_response_completes_the_request");
  auto r = f.get();
  if (!send_ok) { __spec_assert(r.error, "C10.failed_send_is_an_error"); __spec_cover("C10.adaptor_failed"); }
  else if (outcome) { __spec_assert(r.error.message == *h_msg, "C10.error_is_exactly_the_received_message"); __spec_cover("C10.adaptor_error"); }
  else { __spec_assert(r.error.message.size() == 0 && r.response.v == h_val && r.response.s == *h_str, "C10.value_reaches_the_future"); __spec_cover("C10.adaptor_value"); }
}
// an outcome (response or error) is carried unchanged by every way of making, copying and assigning one
extern "C" void harness_outcome() {
  adaptors();
  outcome = __spec_choice();
  typedef dap::ResponseOrError<MyResp> RE;
  MyResp v = mk_resp();
  dap::Error e(*h_msg);
  __spec_assert(e.message == *h_msg, "C10.error_carries_its_message");
  __spec_assert(static_cast<bool>(e) == (h_msg->size() > 0), "C10.error_iff_it_has_a_message");
  bool mv = __spec_choice();
  RE a = outcome ? (mv ? RE(std::move(e)) : RE(static_cast<const dap::Error&>(e))) : (mv ? RE(std::move(v)) : RE(static_cast<const MyResp&>(v)));
  if (!mv) __spec_assert(e.message == *h_msg && v.v == h_val && v.s == *h_str, "C10.copied_from_object_unchanged");
  RE* r = &a; RE* from = nullptr;
  int how = __spec_choice() ? 0 : __spec_choice() ? 1 : __spec_choice() ? 2 : __spec_choice() ? 3 : 4;
  if (how == 1) { r = new RE(static_cast<const RE&>(a)); from = &a; }
  else if (how == 2) r = new RE(std::move(a));
  else if (how >= 3) {
    r = __spec_choice() ? new RE() : new RE(dap::Error("other"));
    RE& x = how == 3 ? (*r = static_cast<const RE&>(a)) : (*r = std::move(a));
    __spec_assert(&x == r, "C10.assignment_returns_its_target");
    if (how == 3) from = &a;
  }
  for (int i = 0; i < 2; i++) {
    RE* y = i == 0 ? r : from;
    if (!y) continue;
    if (outcome) __spec_assert(y->error.message == *h_msg, "C10.outcome_error_carried_unchanged");
    else __spec_assert(y->error.message.size() == 0 && y->response.v == h_val && y->response.s == *h_str, "C10.outcome_value_carried_unchanged");
  }
  if (outcome) __spec_cover("C10.outcome_error"); else __spec_cover("C10.outcome_value");
}
// bind: connected to the streams given, then processing, with the close callback given
struct BR : dap::Reader { bool isOpen() override { return true; } void close() override {} size_t read(void*, size_t) override { return 0; } };
struct BW : dap::Writer { bool isOpen() override { return true; } void close() override {} bool write(const void*, size_t) override { return true; } };
struct BRW : dap::ReaderWriter { bool isOpen() override { return true; } void close() override {} size_t read(void*, size_t) override { return 0; } bool write(const void*, size_t) override { return true; } };
extern "C" void harness_bind() {
  Cap c;
  dap::Session& s = c;
  dap::Session::ClosedHandler h;
  bool cb = __spec_choice();
  if (cb) h = [] { n_onclose++; };
  if (__spec_choice()) {
    auto rw = std::make_shared<BRW>();
    s.connect(rw);
    __spec_assert(bind_r == static_cast<dap::Reader*>(rw.get()) && bind_w == static_cast<dap::Writer*>(rw.get()) && n_connect == 1 && n_start == 0, "C22.bound_to_the_streams_given");
    return;
  }
  if (__spec_choice()) {
    auto r = std::make_shared<BR>(); auto w = std::make_shared<BW>();
    s.bind(r, w, h);
    __spec_assert(bind_r == static_cast<dap::Reader*>(r.get()) && bind_w == static_cast<dap::Writer*>(w.get()), "C22.bound_to_the_streams_given");
  } else {
    auto rw = std::make_shared<BRW>();
    s.bind(rw, h);
    __spec_assert(bind_r == static_cast<dap::Reader*>(rw.get()) && bind_w == static_cast<dap::Writer*>(rw.get()), "C22.bound_to_the_streams_given");
  }
  __spec_assert(n_connect == 1 && n_start == 1, "C22.bound_once");
  __spec_assert(static_cast<bool>(*bind_h) == cb && n_onclose == 0, "C22.close_callback_handed_on");
  if (cb) { (*bind_h)(); __spec_assert(n_onclose == 1, "C22.close_callback_handed_on"); __spec_cover("C22.bind_callback"); }
}
