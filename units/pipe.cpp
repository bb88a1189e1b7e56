// Contracts for the in-memory pipe (C05), decided per operation under monitor reasoning.
#include "../spec/monitor.h"
#include "../src/io.cpp"
extern "C" {
unsigned long __uf_S(unsigned long);   // byte i written to the pipe
unsigned long __uf_W(unsigned long);   // byte i handed to this write
int op;                       // 0 read 1 write 2 close 3 isOpen
bool entered, effect, closed0, sawclosed;
unsigned long g_cur, g_hi0;       // pipe holds S[g_cur,g_hi0) when the lock is taken
unsigned long g_last_hi, g_consumed, g_start, wn;
}
static Pipe* p;
static unsigned long g_want;
static bool inv() {
  bool avail = (__seq_size(&p->data.__s) > 0) | p->closed;
  return !avail | (mon_sleeping == 0) | mon_odebt | mon_debt;
}
extern "C" bool cand_wants() { __spec_guard_enable(false); return (g_consumed + (g_hi0 - g_cur) - __seq_size(&p->data.__s) < g_want) | (g_want == 0); }
extern "C" bool cand_inv() { __spec_guard_enable(false); return inv(); }
static void mon_havoc(void*) {
  g_hi0 = __spec_nondet_u64();
  bool c = __spec_nondet_bool();
  // rely: only this thread reads while the read runs; bytes are only appended; closing is for good
  __spec_assume((g_cur <= g_hi0) & (g_hi0 >= g_last_hi) & (g_hi0 < (1ul << 60)));
  __spec_assume(!closed0 | c);
  closed0 = c;
  p->closed = c;
  __seq_stream_abs(&p->data.__s, 1, "S", g_cur, g_hi0);
  __spec_assume(inv());
}
static void mon_exit_check(void*, bool sleeping) {
  unsigned long n = __seq_size(&p->data.__s), n0 = g_hi0 - g_cur;
  unsigned long k = __spec_nondet_u64();
  if (op == 0) {
    __spec_assert(n <= n0, "C05.read_only_removes");
    if (k < n) __spec_assert(p->data[k] == __uf_S(g_hi0 - n + k), "C05.read_removes_the_oldest_bytes");
    __spec_assert(p->closed == closed0, "C05.read_keeps_state");
    g_consumed += n0 - n; g_cur = g_hi0 - n; g_last_hi = g_hi0;
    if (closed0) sawclosed = true;
    if (sleeping) __spec_assert((n == 0) & !closed0, "C05.blocks_only_while_open_and_empty");
    if (sleeping) __spec_assert((g_consumed < g_want) | (g_want == 0), "C05.returns_once_it_has_what_was_asked_for");
  } else {
    __spec_assert(!sleeping, "C05.only_read_blocks");
    if (op == 1 && !effect && !closed0 && wn > 0) {
      __spec_assert(n == n0 + wn, "C05.write_appends_all_bytes");
      if (k < n0) __spec_assert(p->data[k] == __uf_S(g_cur + k), "C05.write_keeps_earlier_bytes");
      else if (k < n) __spec_assert(p->data[k] == __uf_W(k - n0), "C05.write_appends_exactly_the_bytes");
      __spec_assert(!p->closed, "C05.write_keeps_state");
      effect = true;
    } else {
      __spec_assert(n == n0, "C05.data_unchanged");
      if (k < n) __spec_assert(p->data[k] == __uf_S(g_cur + k), "C05.data_unchanged");
      __spec_assert(p->closed == ((op == 2) | closed0), "C05.close_closes_for_good");
      if (op == 2 || closed0 || op == 1) effect = true;
      if (closed0) sawclosed = true;
    }
  }
  bool avail = (n > 0) | p->closed;
  if (avail & (mon_sleeping > 0) & !mon_odebt) mon_debt = true;   // must notify later
}
static void begin(Pipe* q, int o) {
  p = q; op = o; effect = false; mon_debt = false; mon_in_wait = false; sawclosed = false; g_consumed = 0;
  g_cur = g_start = __spec_nondet_u64(); g_last_hi = g_start; closed0 = false;
  __spec_assume(g_start < (1ul << 60));
  __spec_guard(&q->closed, sizeof(q->closed), &q->mutex.__held);
  __spec_guard(&q->data, sizeof(q->data), &q->mutex.__held);
  __spec_guard_enable(true);
}
static void finish(Pipe* q) {
  __spec_guard_enable(false);
  __spec_assert(!mon_debt, "C05.sleepers_woken");
  __spec_assert(!q->mutex.__held, "LOCK.released");
}
extern "C" void harness_init() {
  auto rw = dap::pipe();
  p = static_cast<Pipe*>(rw.get());
  mon_sleeping = 0; mon_debt = false; mon_odebt = false;
  __spec_assert(__seq_size(&p->data.__s) == 0 && !p->closed, "C05.starts_open_and_empty");
  __spec_assert(inv(), "C05.inv_initially");
}
extern "C" void harness_read() {
  Pipe q;
  unsigned long n = __spec_nondet_u64();
  __spec_assume(n < (1ul << 60));
  g_want = n;
  unsigned char* buf = new unsigned char[n];
  begin(&q, 0);
  unsigned long r = static_cast<dap::ReaderWriter*>(&q)->read(buf, n);
  finish(&q);
  __spec_assert(r == g_consumed, "C05.every_byte_removed_is_returned");
  __spec_assert(r <= n, "C05.read_at_most_requested");
  __spec_assert((r == n) | sawclosed, "C05.short_read_only_if_closed");
  __spec_assert((r < n) | !sawclosed | (n == 0), "C05.read_of_a_closed_pipe_is_short");
  unsigned long k = __spec_nondet_u64();
  if (k < r) __spec_assert(buf[k] == __uf_S(g_start + k), "C05.read_returns_the_written_bytes_in_order");
  if (r == n) __spec_cover("C05.full_read"); else __spec_cover("C05.short_read");
  delete[] buf;
}
extern "C" void harness_write() {
  Pipe q;
  wn = __spec_nondet_u64();
  __spec_assume(wn < (1ul << 60));
  unsigned char* buf = new unsigned char[wn];
  __spec_fill(buf, wn, "W", 0);
  begin(&q, 1);
  bool ok = static_cast<dap::ReaderWriter*>(&q)->write(buf, wn);
  finish(&q);
  __spec_assert(ok == !sawclosed, "C05.write_succeeds_iff_open");
  __spec_assert(effect, "C05.write_takes_effect");
  if (ok) __spec_cover("C05.written"); else __spec_cover("C05.refused");
  unsigned long k = __spec_nondet_u64();
  if (k < wn) __spec_assert(buf[k] == __uf_W(k), "C05.source_untouched");
  delete[] buf;
}
extern "C" void harness_close() {
  Pipe q; begin(&q, 2); static_cast<dap::ReaderWriter*>(&q)->close(); finish(&q);
  __spec_assert(effect, "C05.close_takes_effect");
}
extern "C" void harness_isopen() {
  Pipe q; begin(&q, 3); bool o = static_cast<dap::ReaderWriter*>(&q)->isOpen(); finish(&q);
  __spec_assert(o == !closed0, "C05.isopen_iff_not_closed");
}
