// Concrete cases for C21: combined reader-writer, spies and file adaptors against reference behaviour.
#include "rep.h"
#include "dap/io.h"
#include <atomic>
#include <memory>
#include <thread>
using namespace rep;
static std::string bytes(Rng& r, size_t n) { std::string s(n, 0); for (auto& c : s) c = static_cast<char>(r.below(5) ? r.next() : 0); return s; }
static size_t pick(Rng& r) { static const size_t v[] = {0, 1, 2, 3, 7, 15, 16, 17, 100, 255, 256, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8192, 70000}; return r.below(3) ? v[r.below(sizeof v / sizeof *v)] : r.below(300); }
struct Rd : dap::Reader {
  std::string next; bool open = true; int closes = 0, reads = 0; void* b = nullptr; size_t n = 0, res = 0;
  bool isOpen() override { return open; }
  void close() override { closes++; open = false; }
  size_t read(void* p, size_t m) override { reads++; b = p; n = m; res = std::min(m, next.size()); if (res) memcpy(p, next.data(), res); return res; }
};
struct Wr : dap::Writer {
  std::string got; bool open = true, ok = true; int closes = 0, writes = 0;
  bool isOpen() override { return open; }
  void close() override { closes++; open = false; }
  bool write(const void* p, size_t n) override { writes++; if (!ok) return false; got.append(static_cast<const char*>(p), n); return true; }
};
// a FILE with a scripted back end
struct Ck { std::string in; size_t pos = 0; std::string out; std::atomic<int> closes{0}; bool fail = false; size_t chunk = 1; };
static ssize_t ckr(void* c, char* b, size_t n) { auto k = static_cast<Ck*>(c); size_t m = std::min(std::min(n, k->chunk), k->in.size() - k->pos); memcpy(b, k->in.data() + k->pos, m); k->pos += m; return static_cast<ssize_t>(m); }
static ssize_t ckw(void* c, const char* b, size_t n) { auto k = static_cast<Ck*>(c); if (k->fail) return 0; k->out.append(b, n); return static_cast<ssize_t>(n); }
static int ckc(void* c) { static_cast<Ck*>(c)->closes++; return 0; }
static FILE* mk(Ck* k, const char* mode) { cookie_io_functions_t f = {ckr, ckw, nullptr, ckc}; return fopencookie(k, mode, f); }
static void rw_and_spies(Rng& r) {
  for (int kind = 0; kind < 3; kind++) {
    auto rd = std::make_shared<Rd>(); auto wr = std::make_shared<Wr>(); auto sink = std::make_shared<Wr>();
    std::string px = bytes(r, r.below(4) ? r.below(6) : pick(r)); for (auto& c : px) if (!c) c = 'x';
    std::shared_ptr<dap::Reader> R; std::shared_ptr<dap::Writer> W;
    if (kind == 0) { auto x = dap::ReaderWriter::create(rd, wr); R = x; W = x; }
    else if (kind == 1) { R = dap::spy(std::shared_ptr<dap::Reader>(rd), std::shared_ptr<dap::Writer>(sink), px.c_str()); }
    else { W = dap::spy(std::shared_ptr<dap::Writer>(wr), std::shared_ptr<dap::Writer>(sink), px.c_str()); }
    std::string want, through; int rc = 0, wc = 0;
    const char* kn = kind == 0 ? "combined" : kind == 1 ? "reader spy" : "writer spy";
    for (int step = 0; step < 6; step++) {
      current = std::string(kn) + " prefix \"" + esc(px, 40) + "\" step " + std::to_string(step);
      int what = static_cast<int>(r.below(4));
      if (what == 0 && R) {
        size_t n = pick(r); rd->next = bytes(r, pick(r)); std::string b(n + 8, '#');
        current += " read " + std::to_string(n) + " of " + std::to_string(rd->next.size());
        int before = rd->reads;
        size_t g = R->read(&b[4], n);
        REQUIRE(rd->reads == before + 1 && rd->b == &b[4] && rd->n == n, "the wrapped reader was not asked for exactly this read");
        REQUIRE(g == rd->res, "read returned %zu, the wrapped reader %zu", g, rd->res);
        REQUIRE(b == "####" + rd->next.substr(0, g) + std::string(n + 4 - g, '#'), "the bytes in the caller's buffer differ");
        if (kind == 1 && g) want += px + rd->next.substr(0, g);
      } else if (what == 1 && W) {
        std::string d = bytes(r, pick(r)), keep = d; wr->ok = r.below(4) != 0; sink->ok = true;
        current += " write " + std::to_string(d.size()) + (wr->ok ? "" : " refused");
        int before = wr->writes; std::string sb = sink->got;
        bool ok = W->write(d.data(), d.size());
        REQUIRE(wr->writes == before + 1, "the wrapped writer was called %d times for one write", wr->writes - before);
        REQUIRE(ok == wr->ok, "write result %d, the wrapped writer's %d", ok, wr->ok);
        REQUIRE(d == keep, "write changed its source");
        if (ok) { through += d; if (kind == 2) { if (!d.empty()) want += px + d; else if (sink->got == sb + px) want += px; } }
        REQUIRE(wr->got == through, "the wrapped writer got different bytes");
      } else if (what == 2) {
        rd->open = r.below(2); wr->open = r.below(2);
        current += " isOpen";
        if (kind == 0) REQUIRE(W->isOpen() == (rd->open && wr->open) && R->isOpen() == W->isOpen(), "isOpen of the combination with reader %d writer %d is %d", rd->open, wr->open, W->isOpen());
        if (kind == 1) REQUIRE(R->isOpen() == rd->open, "reader spy reports %d for %d", R->isOpen(), rd->open);
        if (kind == 2) REQUIRE(W->isOpen() == wr->open, "writer spy reports %d for %d", W->isOpen(), wr->open);
      } else if (what == 3 && r.below(2)) {
        current += " close";
        if (R) { R->close(); } else W->close();
        if (kind == 0) { rc++; wc++; } else if (kind == 1) rc++; else wc++;
      }
      REQUIRE(rd->closes == rc && wr->closes == wc, "closes forwarded: reader %d of %d, writer %d of %d", rd->closes, rc, wr->closes, wc);
      REQUIRE(sink->got == want, "the spy copy is \"%s\", expected \"%s\"", esc(sink->got, 200).c_str(), esc(want, 200).c_str());
      REQUIRE(sink->closes == 0, "the spy closed its sink");
      ran(current);
    }
  }
}
static void files(Rng& r) {
  Ck k; k.in = bytes(r, pick(r)); k.chunk = 1 + r.below(300);
  bool owned = r.below(2);
  {
    FILE* f = mk(&k, "r");
    { auto x = dap::file(f, owned);
      size_t pos = 0;
      REQUIRE(x->isOpen(), "a fresh file is not open");
      for (int i = 0; i < 4; i++) {
        size_t n = pick(r); std::string b(n + 2, '#');
        current = "file of " + std::to_string(k.in.size()) + " bytes, read " + std::to_string(n) + " at " + std::to_string(pos);
        size_t g = x->read(&b[1], n), w = std::min(n, k.in.size() - pos);
        REQUIRE(g == w, "read returned %zu, expected %zu", g, w);
        REQUIRE(b == "#" + k.in.substr(pos, g) + std::string(n - g + 1, '#'), "the bytes read differ");
        pos += g; ran(current);
      }
      current = std::string("file closed twice, ") + (owned ? "owned" : "not owned");
      for (uint64_t i = r.below(3); i > 0; i--) { x->close(); REQUIRE(k.closes == owned, "after close the file was closed %d times", k.closes.load()); REQUIRE(x->isOpen() == !owned, "isOpen is %d after close", x->isOpen()); }
    }
    REQUIRE(k.closes == owned, "file closed %d times", k.closes.load());
    if (!owned) fclose(f);
    ran(current);
  }
  {
    Ck c; FILE* f = mk(&c, "w");
    auto x = dap::file(f, true); std::string all;
    for (int i = 0; i < 4; i++) {
      std::string d = bytes(r, pick(r)); c.fail = i == 3;
      current = "file write " + std::to_string(d.size()) + (c.fail ? " on a full disk" : "");
      bool ok = x->write(d.data(), d.size());
      if (!c.fail) { all += d; REQUIRE(ok, "write failed"); REQUIRE(c.out == all, "the file does not hold the bytes written"); }
      else if (d.size() > 9000) REQUIRE(!ok, "write reported success on a full disk");
      ran(current);
    }
  }
}
static void races(Rng& r) {
  Ck k; k.in = "x";
  { auto x = dap::file(mk(&k, "r"), true);
    current = "file closed by 4 threads at once";
    std::atomic<int> go{0}; std::vector<std::thread> t;
    for (int i = 0; i < 4; i++) t.emplace_back([&] { go++; while (go < 4) {} x->close(); });
    for (auto& y : t) y.join();
    REQUIRE(k.closes == 1, "closed %d times", k.closes.load()); }
  REQUIRE(k.closes == 1, "closed %d times", k.closes.load());
  ran("race " + std::to_string(r.below(1000000)));
}
int main(int argc, char** argv) {
  init(argc, argv);
  current = "file(path)";
  { auto f = dap::file("out.txt"); REQUIRE(f != nullptr, "cannot create"); std::string s("a\r\n\0b", 5); REQUIRE(f->write(s.data(), s.size()), "write failed"); f->close();
    FILE* g = fopen("out.txt", "rb"); char b[16]; size_t n = fread(b, 1, 16, g); fclose(g); REQUIRE(std::string(b, n) == s, "file holds other bytes"); }
  REQUIRE(dap::file("no/such/dir/x") == nullptr, "a file that cannot be opened is not null");
  for (uint64_t i = 0; !out_of_time(); i++) { Rng r = rng(i); r.next(); rw_and_spies(r); files(r); if (i % 8 == 0) races(r); }
  return done();
}
