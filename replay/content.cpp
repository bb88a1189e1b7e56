// Concrete cases for C01-C04 against the real ContentReader / ContentWriter.
#include "rep.h"
#include "content_stream.h"
#include "dap/io.h"
using namespace rep;

struct Src : dap::Reader {
  const std::string& d; const std::vector<size_t>& chunks; size_t pos = 0, ci = 0; bool closed = false; bool c03 = false;
  std::vector<std::pair<size_t, size_t>> reqs;
  Src(const std::string& d, const std::vector<size_t>& c) : d(d), chunks(c) {}
  bool isOpen() override { return !closed; }
  void close() override { closed = true; }
  size_t read(void* b, size_t n) override {
    if (n == 0) { if (prop == "C03") fail("zero bytes requested at %zu", pos); return 0; }
    reqs.push_back({pos, n});
    memset(b, 0x5a, n < (1u << 20) ? n : (1u << 20));  // the buffer must hold n bytes
    if (closed || pos >= d.size()) return 0;
    size_t m = chunks[ci++ % chunks.size()];
    size_t k = std::min(std::min(m, n), d.size() - pos);
    memcpy(b, d.data() + pos, k); pos += k; return k;
  }
};
struct Frame { bool ok; size_t end; std::string msg; size_t next; bool eof; bool fits; };
static const std::string H = "Content-Length:";
// reference decoder, straight from the statement of C02/C04
static Frame parse(const std::string& d, size_t p) {
  size_t q = p + H.size();
  while (q < d.size() && (d[q] == ' ' || d[q] == '\t')) q++;
  size_t w = q; unsigned __int128 v = 0; bool big = false;
  while (q < d.size() && d[q] >= '0' && d[q] <= '9') { v = v * 10 + (d[q] - '0'); if (v > (unsigned __int128)UINT64_MAX) { big = true; v = (unsigned __int128)1 << 64; } q++; }
  bool okh = q > w && !big && v > 0 && d.compare(q, 4, "\r\n\r\n") == 0;
  Frame f{false, 0, "", q, false, true};
  if (!okh) { return f; }
  unsigned __int128 end = (unsigned __int128)q + 4 + v;
  f.eof = true; f.next = q + 4;
  if (end > d.size()) { f.fits = end <= (unsigned __int128)UINT64_MAX; f.end = f.fits ? (size_t)end : 0; f.eof = true; f.ok = false; return f; }
  f.ok = true; f.eof = false; f.end = (size_t)end; f.msg = d.substr(q + 4, (size_t)v); f.next = f.end;
  return f;
}
static void one(const std::string& d, const std::vector<size_t>& ch, bool closep) {
  current = std::string(closep ? "close" : "ignore") + " policy, stream \"" + esc(d) + "\", chunks";
  for (size_t i = 0; i < ch.size() && i < 8; i++) current += " " + std::to_string(ch[i]);
  auto src = std::make_shared<Src>(d, ch);
  dap::ContentReader cr(src, closep ? dap::kClose : dap::kIgnore);
  size_t pos = 0;
  for (int n = 0; n < 64; n++) {
    size_t r0 = src->reqs.size();
    size_t P = closep ? (d.compare(pos, H.size(), H) == 0 ? pos : std::string::npos) : d.find(H, pos);
    if (prop == "C04" && !closep) break;
    if (prop == "C02" && closep) break;
    Frame f{false, 0, "", 0, false, true};
    if (P != std::string::npos) f = parse(d, P);
    std::string out = cr.read();
    if (prop == "C03") {
      if (P != std::string::npos && (f.ok || (f.eof && f.end)))
        for (size_t i = r0; i < src->reqs.size(); i++)
          REQUIRE(src->reqs[i].first + src->reqs[i].second <= f.end, "requested %zu bytes at %zu, frame ends at %zu", src->reqs[i].second, src->reqs[i].first, f.end);
    }
    if (f.ok) {
      if (prop != "C03") {
        REQUIRE(out == f.msg, "message %d: got \"%s\" want \"%s\"", n, esc(out).c_str(), esc(f.msg).c_str());
        REQUIRE(!src->closed, "message %d: transport closed on valid data", n);
      } else if (out != f.msg) return;
      pos = f.next;
      continue;
    }
    if (prop != "C03") REQUIRE(out.empty(), "message %d: got \"%s\", want none", n, esc(out).c_str());
    if (closep) {
      if (prop == "C04") {
        bool invalid = !f.eof;  // not a well-formed header
        // is everything received so far a prefix of a well-formed header?
        if (invalid && src->pos < d.size()) REQUIRE(src->closed, "invalid data at %zu did not close the transport", pos);
        if (!invalid) REQUIRE(!src->closed, "transport closed although the data is a prefix of a frame");
      }
      return;
    }
    if (prop == "C02") REQUIRE(!src->closed, "ignore policy closed the transport");
    if (P == std::string::npos || f.eof) return;
    pos = f.next;
  }
}
static void all(const std::string& d, Rng& r) {
  std::vector<std::vector<size_t>> chs = {{1}, {1u << 30}, {2}, {3, 1}, {7}, {255}, {256}, {257}};
  chs.push_back({1 + r.below(20), 1 + r.below(5), 1 + r.below(300)});
  for (auto& c : chs) for (int p = 0; p < 2; p++) { one(d, c, p); }
  ran(d, d.find("Content") != std::string::npos);
}
static std::string frame(const std::string& m, const char* sp = " ") { return H + sp + std::to_string(m.size()) + "\r\n\r\n" + m; }
static std::string blob(size_t n, Rng& r) { std::string s; for (size_t i = 0; i < n; i++) s += static_cast<char>(r.below(4) ? 'a' + r.below(26) : r.below(256)); return s; }
static void reader() {
  Rng r = rng(1);
  for (size_t n : {1, 2, 9, 10, 14, 15, 16, 99, 100, 254, 255, 256, 257, 258, 300, 511, 512, 513, 768, 1000, 4096, 5000, 70000})
    for (size_t m : {1, 3, 256}) for (const char* sp : {"", " ", "\t", "  \t "}) all(frame(blob(n, r), sp) + frame(blob(m, r)), r);
  std::vector<std::string> tok = {H, " ", "\t", "\v", "\n", "\r", "\r\n", "\r\n\r\n", "0", "1", "2", "9", "00", "05", "10", "-1", "+1", "18446744073709551615", "18446744073709551616", "18446744073709551617",
    "18446744073709551621", "99999999999999999999999", "184467440737095516160", "3", "abc", "C", "Con", "Content-Length", "Content-Length;", "content-length:", "Content-Type: x\r\n", std::string(1, '\0'), std::string(5, '\0'),
    "\xff\x80", "ContentContent-Length: 1\r\n\r\nZ", "{}", frame("xyz"), frame("q", ""), frame(H + " 2\r\n\r\nhi"), frame(std::string("\0\r\n", 3)), "12", "\f", "0x5", "1 ", "1\t", ":"};
  // every sequence of up to three tokens, between two frames
  size_t T = tok.size();
  for (size_t i = 0; i < T; i++) { all(tok[i], r); all(tok[i] + frame("mm"), r); all(frame("ab") + tok[i] + frame("mm"), r); }
  for (size_t i = 0; i < T && !out_of_time(); i++) for (size_t j = 0; j < T; j++) { all(H + tok[i] + tok[j] + "\r\n\r\nabc" + frame("mm"), r); all(frame("A") + tok[i] + tok[j] + frame("mm"), r); all(H + " " + tok[i] + tok[j], r); all(H + "3" + tok[i] + tok[j] + frame("z"), r); }
  // truncations
  for (const std::string& s : {frame("hello"), frame("hello", "\t") + frame("w"), H + " 12"}) for (size_t k = 0; k <= s.size(); k++) { all(s.substr(0, k), r); all(s.substr(k), r); }
  while (!out_of_time() && evals < 200000) {
    std::string d; size_t n = 1 + r.below(8);
    for (size_t i = 0; i < n; i++) { auto& t = tok[r.below(T)]; d += r.below(3) ? t : frame(blob(1 + r.below(600), r)); }
    if (r.below(4) == 0 && !d.empty()) d[r.below(d.size())] = static_cast<char>(r.below(256));
    all(d, r);
  }
}
struct Dst : dap::Writer {
  std::string d; long budget = -1; bool refused = false; bool after = false;
  bool isOpen() override { return true; } void close() override {}
  bool write(const void* b, size_t n) override {
    if (refused) after = true;
    if (budget == 0) { refused = true; return false; }
    if (budget > 0) budget--;
    d.append(static_cast<const char*>(b), n); return true;
  }
};
static void writer() {
  Rng r = rng(2);
  for (int it = 0; it < 400 || (!out_of_time() && it < 3000); it++) {
    size_t n = it < 300 ? it : it < 340 ? (size_t(1) << (it % 20)) + it % 3 - 1 : r.below(100000);
    std::string m = blob(n, r); if (n > 3 && r.below(2)) m[n / 2] = 0;
    for (long b : {-1l, 0l, 1l, 2l, 3l}) {
      current = "message of " + std::to_string(n) + " bytes, transport refuses after " + std::to_string(b) + " writes";
      auto dst = std::make_shared<Dst>(); dst->budget = b;
      dap::ContentWriter w(dst);
      bool ok = w.write(m);
      std::string want = "Content-Length: " + std::to_string(n) + "\r\n\r\n" + m;
      REQUIRE(ok == !dst->refused, "result %d although refused=%d", ok, dst->refused);
      REQUIRE(!dst->after, "bytes written after the transport refused");
      REQUIRE(ok ? dst->d == want : want.compare(0, dst->d.size(), dst->d) == 0, "wrote \"%s\"", esc(dst->d).c_str());
    }
    ran(current + esc(m, 32));
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  if (prop == "C01") writer(); else reader();
  return done();
}
