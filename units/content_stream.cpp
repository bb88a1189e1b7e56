// Contracts for ContentReader / ContentWriter (C01-C04) around the real sources.
#include "spec.h"
#include "../src/content_stream.cpp"

extern "C" {
unsigned long __uf_S(unsigned long);            // byte i of the incoming stream (-1 = none past the end)
long __uf_Sx(unsigned long);
unsigned long __uf_FH(unsigned long);
unsigned long __uf_WE(unsigned long);
unsigned long __uf_DE(unsigned long);
unsigned long __uf_V(unsigned long, unsigned long);
bool __uf_Vfits(unsigned long);
unsigned long __uf_END();
}
extern "C" {
unsigned long g_d;      // bytes delivered by the transport
unsigned long g_end;    // total bytes the peer will ever send
unsigned long g_pos;    // position of the first byte not yet consumed
bool g_closed;
// what the specification says about the data at g_pos
bool g_ok;              // a complete well-formed frame header stands there
unsigned long g_frame;  // first byte after that frame
bool g_invalid;         // (close policy) the data at g_pos is not a frame header
bool g_eof;
}

struct AbsReader : dap::Reader {
  bool isOpen() override { return !g_closed; }
  void close() override {
    __spec_assert(g_invalid || g_d == g_end, "C04.closed_only_on_invalid_data");
    g_closed = true;
  }
  size_t read(void* buf, size_t n) override {
    __spec_assert(n > 0, "C03.no_zero_byte_request");
    __spec_assert(!g_ok || (n <= g_frame && g_d <= g_frame - n), "C03.request_stays_within_frame");
    __spec_writable(buf, n);
    if (g_closed || g_d == g_end) return 0;
    size_t got = __spec_nondet_u64();
    __spec_assume(1 <= got && got <= n && got <= g_end - g_d);
    __spec_fill(buf, got, "S", g_d);
    g_d += got;
    return got;
  }
};

static bool crlf2(unsigned long p) {
  return __uf_Sx(p) == '\r' && __uf_Sx(p + 1) == '\n' && __uf_Sx(p + 2) == '\r' && __uf_Sx(p + 3) == '\n';
}
extern "C" bool __uf_CRLF2(unsigned long);
extern "C" bool __uf_HDR(unsigned long);

static void init() {
  g_end = __uf_END();
  __spec_assume(g_end < (1ul << 62));
  g_d = 0; g_pos = 0; g_closed = false; g_ok = false; g_frame = 0; g_invalid = false;
}

// ---- contract of ContentReader::buffer --------------------------------------------
// requires  buf holds the stream bytes [g_d - size, g_d)  (everything received, not consumed)
// ensures   consumed position unchanged, received grows, buf still aligned,
//           result <=> at least `bytes` bytes are buffered, false only at end of stream
static bool aligned(dap::ContentReader* self) {
  unsigned long sz = self->buf.size();
  if (g_d < sz || g_d > g_end) return false;
  unsigned long k = __spec_nondet_u64();
  return !(k < sz) || self->buf[k] == __uf_S(g_d - sz + k);
}
extern "C" bool contract_buffer(dap::ContentReader* self, size_t bytes) {
  unsigned long sz = self->buf.size();
  __spec_assert(aligned(self), "CTR.buffer.requires_aligned");
  if (bytes <= sz) return true;
  unsigned long want = bytes - sz;
  __spec_assert(!g_ok || (want <= g_frame && g_d <= g_frame - want), "C03.pre.buffer_requests_within_frame");
  unsigned long got = __spec_nondet_u64();
  __spec_assume(got <= want && got <= g_end - g_d);
  __spec_assume(!g_closed || got == 0);
  __spec_assume(got == want || g_closed || g_d + got == g_end);
  g_d += got;
  __seq_stream_abs(&self->buf.__s, 1, "S", g_d - (sz + got), g_d);
  return got == want;
}
static void general_state(dap::ContentReader* cr) {
  g_end = __uf_END();
  __spec_assume(g_end < (1ul << 62));
  g_d = __spec_nondet_u64(); g_closed = __spec_nondet_bool(); g_ok = __spec_nondet_bool();
  g_frame = __spec_nondet_u64(); g_invalid = true;
  unsigned long sz = __spec_nondet_u64();
  __spec_assume(g_d <= g_end && sz <= g_d);
  __seq_stream_abs(&cr->buf.__s, 1, "S", g_d - sz, g_d);
}
extern "C" void harness_buffer() {
  auto r = std::make_shared<AbsReader>();
  dap::ContentReader cr(r, dap::kIgnore);
  general_state(&cr);
  unsigned long d0 = g_d, sz0 = cr.buf.size(), bytes = __spec_nondet_u64();
  unsigned long want = bytes <= sz0 ? 0 : bytes - sz0;
  __spec_assume(!g_ok || want == 0 || (want <= g_frame && g_d <= g_frame - want));
  bool ok = cr.buffer(bytes);
  __spec_assert(g_d >= d0 && g_d <= g_end, "CTR.buffer.received_grows");
  __spec_assert(g_d - d0 <= want, "CTR.buffer.not_more_than_requested");
  __spec_assert(cr.buf.size() == sz0 + (g_d - d0), "CTR.buffer.nothing_consumed");
  __spec_assert(ok == (g_d - d0 == want), "CTR.buffer.result");
  __spec_assert(ok || g_closed || g_d == g_end, "CTR.buffer.false_only_at_end");
  __spec_assert(!g_closed || g_d == d0, "CTR.buffer.closed_reads_nothing");
  unsigned long k = __spec_nondet_u64();
  if (k < cr.buf.size()) __spec_assert(cr.buf[k] == __uf_S(g_d - cr.buf.size() + k), "CTR.buffer.aligned");
  if (ok) __spec_cover("CTR.buffer.ok"); else __spec_cover("CTR.buffer.short");
}

// ---- contract of ContentReader::match, for the two literals of the grammar ---------
// requires  buf aligned
// ensures   result <=> the unconsumed stream starts with the literal; then it is consumed,
//           otherwise the position is unchanged
static bool is_lit(const uint8_t* seq, size_t len, const char* lit, size_t n) {
  if (len != n) return false;
  for (size_t i = 0; i < n; i++) if (seq[i] != static_cast<uint8_t>(lit[i])) return false;
  return true;
}
extern "C" bool contract_match(dap::ContentReader* self, const uint8_t* seq, size_t len) {
  bool hdr = is_lit(seq, len, "Content-Length:", 15);
  if (!hdr && !is_lit(seq, len, "\r\n\r\n", 4)) return self->match(seq, len);
  bool avail = contract_buffer(self, len);
  unsigned long pos = g_d - self->buf.size();
  bool is = hdr ? __uf_HDR(pos) : __uf_CRLF2(pos);
  if (!(avail && is)) return false;
  __seq_stream_abs(&self->buf.__s, 1, "S", pos + len, g_d);
  return true;
}
static void check_match(const char* lit, unsigned long n) {
  auto r = std::make_shared<AbsReader>();
  dap::ContentReader cr(r, dap::kIgnore);
  general_state(&cr);
  unsigned long d0 = g_d, sz0 = cr.buf.size(), pos = g_d - sz0;
  unsigned long want = n <= sz0 ? 0 : n - sz0;
  __spec_assume(!g_ok || want == 0 || (want <= g_frame && g_d <= g_frame - want));
  bool ok = cr.match(reinterpret_cast<const uint8_t*>(lit), n);
  bool avail = g_d - d0 == want;
  bool is = n == 15 ? __uf_HDR(pos) : __uf_CRLF2(pos);
  __spec_assert(ok == (avail && is), "CTR.match.result");
  __spec_assert(g_d >= d0 && g_d - d0 <= want && g_d <= g_end, "CTR.match.received");
  __spec_assert(avail || g_closed || g_d == g_end, "CTR.match.short_only_at_end");
  __spec_assert(!g_closed || g_d == d0, "CTR.match.closed_reads_nothing");
  __spec_assert(cr.buf.size() == g_d - (ok ? pos + n : pos), "CTR.match.position");
  __spec_assert(aligned(&cr), "CTR.match.aligned");
  if (ok) __spec_cover("CTR.match.ok"); else __spec_cover("CTR.match.no");
}
extern "C" void harness_match_header() { check_match("Content-Length:", 15); }
extern "C" void harness_match_crlf() { check_match("\r\n\r\n", 4); }

// ---- contract of ContentReader::scan for the header literal ------------------------
// requires  buf aligned, transport not closed
// ensures   the first header at or after the position is consumed and nothing past it is
//           requested; false only if there is none before the end of the stream
extern "C" bool contract_scan(dap::ContentReader* self, const uint8_t* seq, size_t len) {
  if (!is_lit(seq, len, "Content-Length:", 15)) return self->scan(seq, len);
  __spec_assert(aligned(self), "CTR.scan.requires_aligned");
  __spec_assert(!g_closed, "CTR.scan.requires_open");
  unsigned long P = __uf_FH(g_d - self->buf.size());
  __spec_assert(!g_ok || (__uf_HDR(P) && P + 15 <= g_frame), "C03.pre.scan_requests_within_frame");
  if (__uf_HDR(P)) {
    unsigned long d = __spec_nondet_u64();
    __spec_assume(d >= g_d && d >= P + 15 && d <= g_end);
    g_d = d;
    __seq_stream_abs(&self->buf.__s, 1, "S", P + 15, g_d);
    return true;
  }
  unsigned long s = __spec_nondet_u64();
  __spec_assume(s < 15 && s <= g_end);
  g_d = g_end;
  __seq_stream_abs(&self->buf.__s, 1, "S", g_end - s, g_end);
  return false;
}
extern "C" void harness_scan() {
  auto r = std::make_shared<AbsReader>();
  dap::ContentReader cr(r, dap::kIgnore);
  general_state(&cr);
  __spec_assume(!g_closed);
  unsigned long d0 = g_d, P = __uf_FH(g_d - cr.buf.size());
  __spec_assume(!g_ok || (__uf_HDR(P) && P + 15 <= g_frame));
  bool ok = cr.scan(reinterpret_cast<const uint8_t*>("Content-Length:"), 15);
  __spec_assert(ok == __uf_HDR(P), "CTR.scan.result");
  __spec_assert(!g_closed, "CTR.scan.not_closed");
  if (ok) {
    __spec_cover("CTR.scan.found");
    __spec_assert(g_d >= d0 && g_d >= P + 15 && g_d <= g_end, "CTR.scan.received");
    __spec_assert(cr.buf.size() == g_d - (P + 15), "CTR.scan.position");
  } else {
    __spec_cover("CTR.scan.none");
    __spec_assert(g_d == g_end, "CTR.scan.all_received");
    __spec_assert(cr.buf.size() < 15, "CTR.scan.rest");
  }
  __spec_assert(aligned(&cr), "CTR.scan.aligned");
}

// ---- contract of ContentReader::read ------------------------------------------------
// class invariant: buf holds the received, unconsumed bytes, so g_pos == g_d - buf.size().
// Established by the constructor (empty buffer, nothing received), preserved by every read.
static void class_invariant(dap::ContentReader* cr) {
  __spec_assert(g_d <= g_end && cr->buf.size() <= g_d && g_pos == g_d - cr->buf.size(), "INV.position");
  __spec_assert(aligned(cr), "INV.buffer_is_unconsumed_stream");
}
extern "C" void harness_init() {
  init();
  auto r = std::make_shared<AbsReader>();
  dap::ContentReader cr(r, __spec_nondet_bool() ? dap::kIgnore : dap::kClose);
  class_invariant(&cr);
  dap::ContentReader cr2;
  cr2 = dap::ContentReader(r, dap::kClose);
  class_invariant(&cr2);
  __spec_assert(cr2.on_invalid_data == dap::kClose, "INV.policy_kept");
  __spec_assert(cr2.isOpen(), "INV.open");
}
// moving a reader moves its stream, its position in it and its policy; a reader without a stream is closed
extern "C" void harness_assign() {
  auto r = std::make_shared<AbsReader>();
  auto policy = __spec_choice() ? dap::kIgnore : dap::kClose;
  dap::ContentReader a(r, policy), b;
  __spec_assert(!b.isOpen(), "INV.unbound_is_closed");
  b.close();
  general_state(&a);
  g_closed = false;
  g_pos = g_d - a.buf.size();
  b = std::move(a);
  class_invariant(&b);
  __spec_assert(b.on_invalid_data == policy, "INV.policy_kept");
  __spec_assert(b.reader.get() == r.get(), "INV.stream_kept");
  __spec_assert(b.isOpen(), "INV.open_iff_the_stream_is");
  b.close();
  __spec_assert(g_closed, "INV.close_closes_the_stream");
  __spec_assert(!b.isOpen(), "INV.open_iff_the_stream_is");
}
static void any_state(dap::ContentReader* cr) {
  general_state(cr);
  __spec_assume(!g_closed);
  g_pos = g_d - cr->buf.size();
}

extern "C" void harness_ignore() {
  auto r = std::make_shared<AbsReader>();
  dap::ContentReader cr(r, dap::kIgnore);
  any_state(&cr);
  unsigned long P = __uf_FH(g_pos);          // next header, or >= END if none
  unsigned long w = __uf_WE(P + 15);
  unsigned long e = __uf_DE(w);
  bool found = __uf_HDR(P);
  unsigned long L = __uf_V(w, 0);
  bool wf = found & (e > w) & __uf_Vfits(L) & (L > 0) & __uf_CRLF2(e);
  unsigned long pl = e + 4;
  bool complete = wf & (L <= g_end) & (pl <= g_end - L);
  g_ok = wf & (L <= ~0ul - pl);
  g_frame = pl + L;
  g_invalid = false;
  std::string out = cr.read();
  __spec_assert(!g_closed, "C02.ignore_policy_never_closes");
  if (complete) {
    __spec_cover("C02.message");
    __spec_assert(out.size() == L, "C02.message_length");
    unsigned long k = __spec_nondet_u64();
    if (k < out.size()) {
      __spec_assert(static_cast<unsigned char>(out[k]) == __uf_S(pl + k), "C02.message_bytes");
    }
    g_pos = pl + L;
    class_invariant(&cr);
  } else {
    __spec_assert(out.size() == 0, "C02.no_message_from_malformed_or_truncated");
    if (!found || wf) {                        // the stream ended
      __spec_cover("C02.end_of_stream");
      __spec_assert(g_d == g_end, "C02.gives_up_only_at_end_of_stream");
    } else {
      __spec_cover("C02.malformed");
      g_pos = e;                               // resume right after the digits
      class_invariant(&cr);
    }
  }
}

extern "C" void harness_close() {
  auto r = std::make_shared<AbsReader>();
  dap::ContentReader cr(r, dap::kClose);
  any_state(&cr);
  unsigned long P = g_pos;
  unsigned long w = __uf_WE(P + 15);
  unsigned long e = __uf_DE(w);
  unsigned long L = __uf_V(w, 0);
  bool wf = __uf_HDR(P) & (e > w) & __uf_Vfits(L) & (L > 0) & __uf_CRLF2(e);
  unsigned long pl = e + 4;
  bool complete = wf & (L <= g_end) & (pl <= g_end - L);
  g_ok = wf & (L <= ~0ul - pl);
  g_frame = pl + L;
  g_invalid = !wf;
  std::string out = cr.read();
  if (complete) {
    __spec_cover("C04.message");
    __spec_assert(!g_closed, "C04.stays_open_on_valid_frame");
    __spec_assert(out.size() == L, "C04.message_length");
    unsigned long k = __spec_nondet_u64();
    if (k < out.size()) {
      __spec_assert(static_cast<unsigned char>(out[k]) == __uf_S(pl + k), "C04.message_bytes");
    }
    g_pos = pl + L;
    class_invariant(&cr);
  } else {
    __spec_assert(out.size() == 0, "C04.no_message_from_invalid_data");
    if (!wf) {
      __spec_cover("C04.invalid");
      __spec_assert(g_closed || g_d == g_end, "C04.invalid_data_closes");
    } else {
      __spec_assert(g_d == g_end, "C04.gives_up_only_at_end_of_stream");
    }
  }
}

// ---- C01 ---------------------------------------------------------------------
static std::string* g_out;     // bytes accepted by the transport
extern "C" { bool g_refused, g_wclosed; }
struct AbsWriter : dap::Writer {
  bool isOpen() override { return !g_wclosed; }
  void close() override { g_wclosed = true; }
  bool write(const void* buf, size_t n) override {
    __spec_assert(!g_refused, "C01.nothing_written_after_refusal");
    __spec_readable(buf, n);
    g_out->append(static_cast<const char*>(buf), n);
    if (__spec_nondet_bool()) { g_refused = true; return false; }
    return true;
  }
};
extern "C" void harness_write() {
  std::string out; g_out = &out; g_refused = false;
  auto w = std::make_shared<AbsWriter>();
  dap::ContentWriter cw(w);
  unsigned long n = __spec_nondet_u64();
  __spec_assume(n < (1ul << 62));
  std::string msg;
  msg.__stream("S", 0, n);
  bool ok = cw.write(msg);
  std::string hdr("Content-Length: ");
  std::string dec = std::to_string(n);
  unsigned long hl = 16 + dec.size() + 4;
  __spec_assert(ok == !g_refused, "C01.success_reported_iff_accepted");
  if (ok) {
    __spec_cover("C01.sent");
    __spec_assert(out.size() == hl + n, "C01.total_length");
  }
  __spec_assert(out.size() <= hl + n, "C01.nothing_more");
  unsigned long k = __spec_nondet_u64();
  if (k < out.size()) {
    unsigned char c = static_cast<unsigned char>(out[k]);
    if (k < 16) __spec_assert(c == static_cast<unsigned char>("Content-Length: "[k]), "C01.header_prefix");
    else if (k < 16 + dec.size()) __spec_assert(c == static_cast<unsigned char>(dec[k - 16]), "C01.header_length_digits");
    else if (k < hl) __spec_assert(c == static_cast<unsigned char>("\r\n\r\n"[k - 16 - dec.size()]), "C01.header_terminator");
    else __spec_assert(c == __uf_S(k - hl), "C01.message_bytes");
  }
}
extern "C" void harness_writer() {
  auto w = std::make_shared<AbsWriter>();
  g_wclosed = __spec_choice();
  dap::ContentWriter a(w), b;
  __spec_assert(!b.isOpen(), "C01.unbound_is_closed");
  b.close();
  __spec_assert(a.isOpen() == !g_wclosed, "C01.open_iff_the_stream_is");
  b = std::move(a);
  __spec_assert(b.writer.get() == w.get(), "C01.stream_kept");
  __spec_assert(b.isOpen() == !g_wclosed, "C01.open_iff_the_stream_is");
  b.close();
  __spec_assert(g_wclosed, "C01.close_closes_the_stream");
}
