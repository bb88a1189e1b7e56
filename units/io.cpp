// Contracts for the I/O adaptors of io.cpp (C21): combined reader-writer, spies, file.
#include <spec.h>
static void io_atomic(const void*);
#define SPEC_ATOMIC(p) io_atomic(p)
#include "../src/io.cpp"
extern "C" {
unsigned long __uf_D(unsigned long);    // bytes delivered by the wrapped reader / handed to the wrapped writer
unsigned long __uf_PX(unsigned long);   // the prefix
bool __uf_FB(unsigned long);            // (file) byte i of the file exists
int r_reads, r_closes, r_opens, w_writes, w_closes, w_opens, s_writes_, s_closes;
bool r_open, w_open, w_ok, delivered, empty_ok;   // (an empty write may or may not be spied on)
unsigned long g_start;
unsigned long r_res, r_n, w_n, g_out, plen, g_total;
const void* r_buf; const void* w_buf;
}
static void reset() {
  r_reads = r_closes = r_opens = w_writes = w_closes = w_opens = s_closes = 0; g_out = 0; g_total = 0; delivered = false; empty_ok = false;
  r_open = __spec_nondet_bool(); w_open = __spec_nondet_bool(); w_ok = __spec_nondet_bool();
}
struct R : dap::Reader {
  bool isOpen() override { return r_open; }
  void close() override { r_closes++; r_open = false; }
  size_t read(void* b, size_t n) override {
    __spec_writable(b, n);
    __spec_assert(r_reads == 0, "C21.one_read_of_the_wrapped_stream");
    r_reads++; r_buf = b; r_n = n; r_res = __spec_nondet_u64(); __spec_assume(r_res <= n);
    __spec_fill(b, r_res, "D", 0);
    delivered = true; g_total = r_res;
    return r_res;
  }
};
struct W : dap::Writer {
  bool isOpen() override { return w_open; }
  void close() override { w_closes++; w_open = false; }
  bool write(const void* b, size_t n) override {
    __spec_readable(b, n);
    __spec_assert(w_writes == 0, "C21.one_write_to_the_wrapped_stream");
    unsigned long k = __spec_nondet_u64();
    __spec_assert(n == r_n, "C21.length_passed_through");
    if ((k < n) & (n == r_n)) __spec_assert(static_cast<const unsigned char*>(b)[k] == __uf_D(k), "C21.bytes_passed_through");
    w_writes++; w_n = n;
    delivered = w_ok; g_total = n; empty_ok = true;
    return w_ok;
  }
};
// where the spy copies go: the concatenation of all writes must be prefix ++ transferred bytes
struct Sink : dap::Writer {
  bool isOpen() override { return true; }
  void close() override { s_closes++; }
  bool write(const void* b, size_t n) override {
    __spec_readable(b, n);
    __spec_assert(delivered & ((g_total > 0) | empty_ok), "C21.spy_only_on_success");
    __spec_assert(n <= plen + g_total - g_out, "C21.spy_writes_no_more_than_transferred");
    unsigned long k = __spec_nondet_u64();
    if (k < n) {
      unsigned long i = g_out + k;
      unsigned char c = static_cast<const unsigned char*>(b)[k];
      if (i < plen) __spec_assert(c == __uf_PX(i), "C21.spy_starts_with_the_prefix");
      else if (i < plen + g_total) __spec_assert(c == __uf_D(i - plen), "C21.spy_copies_the_transferred_bytes");
    }
    g_out += n;
    return __spec_nondet_bool();
  }
};
static char* prefix() {
  plen = __spec_nondet_u64(); __spec_assume(plen < (1ul << 50));
  char* p = new char[plen + 1];
  __spec_fill(p, plen, "PX", 0);
  p[plen] = 0;
  return p;
}
static unsigned long anylen() { unsigned long n = __spec_nondet_u64(); __spec_assume(n < (1ul << 50)); return n; }
static void check_read(dap::Reader* x, bool spied) {
  unsigned long n = anylen();
  unsigned char* buf = new unsigned char[n];
  unsigned long r = x->read(buf, n);
  __spec_assert(r_reads == 1, "C21.read_reaches_the_wrapped_stream");
  __spec_assert(r_buf == buf && r_n == n, "C21.read_arguments_passed_through");
  __spec_assert(r == r_res, "C21.read_result_passed_through");
  unsigned long k = __spec_nondet_u64();
  if (k < r) __spec_assert(buf[k] == __uf_D(k), "C21.bytes_passed_through");
  if (spied) __spec_assert(g_out == (r == 0 ? 0 : plen + r), "C21.spy_gets_every_transferred_byte");
  if (r == 0) __spec_cover("C21.empty_read"); else __spec_cover("C21.read");
  delete[] buf;
}
static void check_write(dap::Writer* x, bool spied) {
  unsigned long n = anylen(); r_n = n;
  unsigned char* buf = new unsigned char[n];
  __spec_fill(buf, n, "D", 0);
  bool ok = x->write(buf, n);
  __spec_assert(w_writes == 1, "C21.write_reaches_the_wrapped_stream");
  __spec_assert(ok == w_ok, "C21.write_result_passed_through");
  unsigned long k = __spec_nondet_u64();
  if (k < n) __spec_assert(buf[k] == __uf_D(k), "C21.source_untouched");
  if (spied) {
    if (!ok) { __spec_cover("C21.refused_write"); __spec_assert(g_out == 0, "C21.spy_only_on_success"); }
    else if (n > 0) { __spec_cover("C21.write"); __spec_assert(g_out == plen + n, "C21.spy_gets_every_transferred_byte"); }
  }
  delete[] buf;
}
extern "C" void harness_rw() {
  reset();
  auto r = std::make_shared<R>(); auto w = std::make_shared<W>();
  auto x = dap::ReaderWriter::create(r, w);
  bool ro = r_open, wo = w_open;
  int what = __spec_nondet_i32();
  if (what == 0) check_read(x.get(), false);
  else if (what == 1) check_write(x.get(), false);
  else if (what == 2) __spec_assert(x->isOpen() == (ro & wo), "C21.open_iff_both_open");
  else { x->close(); __spec_assert(r_closes == 1 && w_closes == 1, "C21.close_forwarded_to_both"); __spec_cover("C21.rw_close"); }
  if (what < 3 && what >= 0) __spec_assert(r_closes == 0 && w_closes == 0, "C21.closes_only_when_asked");
  if (what != 0) __spec_assert(r_reads == 0, "C21.reads_only_when_asked");
  if (what != 1) __spec_assert(w_writes == 0, "C21.writes_only_when_asked");
}
extern "C" void harness_spy_reader() {
  reset();
  auto r = std::make_shared<R>(); auto s = std::make_shared<Sink>();
  char* p = prefix();
  std::shared_ptr<dap::Reader> x = dap::spy(std::shared_ptr<dap::Reader>(r), std::shared_ptr<dap::Writer>(s), p);
  delete[] p;                       // the spy keeps its own copy
  int what = __spec_nondet_i32();
  if (what == 0) check_read(x.get(), true);
  else if (what == 1) __spec_assert(x->isOpen() == r_open, "C21.open_iff_wrapped_open");
  else { x->close(); __spec_assert(r_closes == 1, "C21.close_forwarded"); __spec_cover("C21.rspy_close"); }
  if (what == 0 || what == 1) __spec_assert(r_closes == 0, "C21.closes_only_when_asked");
  if (what != 0) __spec_assert(r_reads == 0, "C21.reads_only_when_asked");
  __spec_assert(s_closes == 0, "C21.sink_left_open");
}
extern "C" void harness_spy_writer() {
  reset();
  auto w = std::make_shared<W>(); auto s = std::make_shared<Sink>();
  char* p = prefix();
  std::shared_ptr<dap::Writer> x = dap::spy(std::shared_ptr<dap::Writer>(w), std::shared_ptr<dap::Writer>(s), p);
  delete[] p;
  int what = __spec_nondet_i32();
  if (what == 0) check_write(x.get(), true);
  else if (what == 1) __spec_assert(x->isOpen() == w_open, "C21.open_iff_wrapped_open");
  else { x->close(); __spec_assert(w_closes == 1, "C21.close_forwarded"); __spec_cover("C21.wspy_close"); }
  if (what == 0 || what == 1) __spec_assert(w_closes == 0, "C21.closes_only_when_asked");
  if (what != 0) __spec_assert(w_writes == 0, "C21.writes_only_when_asked");
  __spec_assert(s_closes == 0, "C21.sink_left_open");
}

// ---- file: contracts of the C stdio functions ---------------------------------------
extern "C" {
bool f_closed, f_mine, f_owned, f_other;   // f_other: another thread's close() has claimed the fclose
unsigned long g_fpos, g_fend, g_fout, f_reads;
int f_flushes; bool f_open_ok, f_unflushed;
FILE* g_file; bool f_armed; const char* f_path; bool f_fault;
int fclose(FILE* f) {
  __spec_assert(f == g_file, "C21.file_handle");
  __spec_assert(f_owned, "C21.not_closed_unless_owned");
  __spec_assert(!f_closed, "C21.file_closed_at_most_once");
  f_closed = true;
  return 0;
}
int fgetc(FILE* f) {
  __spec_assert(f == g_file && !f_closed, "C21.file_handle");
  if (g_fpos == g_fend) return -1;
  return static_cast<int>(__uf_D(g_fpos++));
}
int getc(FILE* f) { return fgetc(f); }
size_t fread(void* b, size_t sz, size_t n, FILE* f) {
  __spec_assert(f == g_file && !f_closed, "C21.file_handle");
  __spec_assert(sz == 1, "C21.file_handle");
  __spec_writable(b, n);
  unsigned long m = g_fend - g_fpos; if (n < m) m = n;
  __spec_fill(b, m, "D", g_fpos); g_fpos += m;
  return m;
}
int feof(FILE*) { return g_fpos == g_fend; }
int ferror(FILE*) { return 0; }
size_t fwrite(const void* b, size_t sz, size_t n, FILE* f) {
  __spec_assert(f == g_file && !f_closed, "C21.file_handle");
  __spec_assume(sz == 0 || n < (1ul << 60) / sz);
  unsigned long t = sz * n;
  __spec_readable(b, t);
  unsigned long k = __spec_nondet_u64();
  __spec_assert(t <= g_fend - g_fout, "C21.file_writes_no_more_than_given");
  if ((k < t) & (t <= g_fend - g_fout)) __spec_assert(static_cast<const unsigned char*>(b)[k] == __uf_D(g_fout + k), "C21.bytes_passed_through");
  unsigned long m = __spec_nondet_u64(); __spec_assume(m <= t);   // may be short: disk full
  g_fout += m; if (m < t) f_fault = true; if (m > 0) f_unflushed = true;
  return sz == 0 ? 0 : (m == t ? n : (sz == 1 ? m : __spec_nondet_u64() % (n == 0 ? 1 : n)));
}
int fflush(FILE* f) { __spec_assert(f == g_file && !f_closed, "C21.file_handle"); f_unflushed = false; f_flushes++; return 0; }
FILE* fopen(const char* p, const char*) { f_path = p; return f_open_ok ? g_file : nullptr; }
}
static void io_atomic(const void* a) {
  // between any two atomic accesses another thread may have closed the (owned) file
  if (!f_armed) return;
  bool* flag = static_cast<bool*>(const_cast<void*>(a));
  if (f_owned && !*flag && __spec_nondet_bool()) {
    *flag = true;
    __spec_assert(!f_closed, "C21.file_closed_at_most_once");
    f_closed = true; f_other = true;
  }
}
static void freset() {
  f_closed = f_other = f_unflushed = false; f_armed = false; f_flushes = 0; g_fpos = g_fout = 0; f_fault = false;
  g_file = reinterpret_cast<FILE*>(new unsigned long[2]);
  f_owned = __spec_nondet_bool(); f_open_ok = __spec_nondet_bool();
  g_fend = anylen();
}
extern "C" void harness_file_close() {
  freset();
  {
    auto x = dap::file(g_file, f_owned);
    __spec_assert(x->isOpen(), "C21.file_open_at_first");
    f_armed = true;
    int n = __spec_nondet_i32(); __spec_assume(0 <= n && n <= 2);
    for (int i = 0; i < 2; i++) if (i < n) {
      x->close();
      __spec_assert(f_closed == f_owned, "C21.close_forwarded");
      __spec_assert(x->isOpen() == !f_closed, "C21.file_open_iff_not_closed");
      __spec_cover("C21.file_close");
    }
    // anything others do meanwhile is covered by io_atomic
  }
  __spec_assert(f_closed == f_owned, "C21.file_closed_exactly_if_owned");
}
extern "C" void harness_file_open() {
  freset();
  f_owned = true;
  {
    auto x = dap::file("some/path");
    __spec_assert(static_cast<bool>(x.get()) == f_open_ok, "C21.null_iff_open_fails");
    __spec_assert(!f_closed, "C21.file_open_at_first");
  }
  __spec_assert(f_closed == f_open_ok, "C21.file_closed_exactly_if_owned");
}
extern "C" void harness_file_read() {
  freset(); f_owned = false;
  auto x = dap::file(g_file, f_owned);
  unsigned long n = anylen(); g_start = __spec_nondet_u64(); __spec_assume(g_start <= g_fend); g_fpos = g_start;
  unsigned char* buf = new unsigned char[n];
  unsigned long r = x->read(buf, n);
  unsigned long rest = g_fend - g_start;
  __spec_assert(r == (n < rest ? n : rest), "C21.file_read_returns_what_is_there");
  __spec_assert(g_fpos == g_start + r, "C21.file_read_consumes_what_it_returns");
  unsigned long k = __spec_nondet_u64();
  if (k < r) __spec_assert(buf[k] == __uf_D(g_start + k), "C21.bytes_passed_through");
  if (r < n) __spec_cover("C21.file_short_read"); else __spec_cover("C21.file_read");
  delete[] buf;
}
extern "C" void harness_file_write() {
  freset(); f_owned = false;
  auto x = dap::file(g_file, f_owned);
  unsigned char* buf = new unsigned char[g_fend];
  __spec_fill(buf, g_fend, "D", 0);
  bool ok = x->write(buf, g_fend);
  __spec_assert(ok == (g_fout == g_fend), "C21.file_write_ok_iff_all_written");
  __spec_assert(!ok | !f_unflushed, "C21.file_write_reaches_the_file");
  __spec_assert(ok | f_fault, "C21.file_write_fails_only_on_fault");
  if (ok) __spec_cover("C21.file_written"); else __spec_cover("C21.file_refused");
  delete[] buf;
}
