// Native replay support: runs the real code and reports concrete failing cases.
#ifndef REP_H
#define REP_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <chrono>
#include <cstdarg>
#include <functional>
#include <mutex>
#include <set>
#include <string>
#include <vector>
namespace rep {
static std::string prop;
static uint64_t seed = 1;
static double limit = 60;
static long evals = 0;
static std::set<uint64_t> distinct;
static std::vector<std::string> samples;
static std::string current;
static std::mutex mu;
static std::chrono::steady_clock::time_point t0;
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool out_of_time() { return elapsed() > limit; }
inline std::string esc(const std::string& s, size_t max = 400) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    char b[8];
    if (c == '\\') o += "\\\\";
    else if (c == '"') o += "\\\"";
    else if (c >= 32 && c < 127) o += static_cast<char>(c);
    else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}
inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    char b[8];
    if (c == '\\' || c == '"') { o += '\\'; o += static_cast<char>(c); }
    else if (c >= 32 && c < 127) o += static_cast<char>(c);
    else { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
  }
  return o;
}
inline void report() {
  printf("REP {\"evaluations\": %ld, \"distinct\": %zu, \"samples\": [", evals, distinct.size());
  for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
  printf("]}\n");
  fflush(stdout);
}
[[noreturn]] inline void fail(const char* fmt, ...) {
  char b[4096];
  va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  printf("REPFAIL property=%s\n  case: %s\n  %s\n", prop.c_str(), current.c_str(), b);
  report();
  fflush(stdout);
  _exit(1);
}
inline uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
// one evaluated case
inline void ran(const std::string& what, bool nontrivial = true) {
  std::lock_guard<std::mutex> l(mu);
  evals++;
  if (nontrivial) {
    distinct.insert(fnv(what));
    if (samples.size() < 5 && (evals & (evals - 1)) == 0) samples.push_back(what.substr(0, 300));
  }
}
struct Rng { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } uint64_t below(uint64_t n) { return n ? next() % n : 0; } };
inline Rng rng(uint64_t salt) { return Rng{(seed + 1) * 0x9E3779B97F4A7C15ull ^ (salt * 0xD1B54A32D192ED03ull + 1)}; }
inline void init(int argc, char** argv) {
  prop = argc > 1 ? argv[1] : "?";
  seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  limit = argc > 3 ? atof(argv[3]) : 60;
  t0 = std::chrono::steady_clock::now();
  setvbuf(stdout, nullptr, _IOLBF, 0);
}
inline int done() { report(); return 0; }
}  // namespace rep
#define REQUIRE(c, ...) do { if (!(c)) rep::fail(__VA_ARGS__); } while (0)
#endif
