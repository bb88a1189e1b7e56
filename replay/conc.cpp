// Native cross-check of Pipe (C05), Chan (C06), promise/future (C16), RWMutex (C17) under a
// schedule explorer (default) or on real threads (-DREP_REAL, with ThreadSanitizer).
#include "vsched.h"
#include <io.cpp>
#include "chan.h"
#include "dap/future.h"
#include "rwmutex.h"
typedef std::vector<std::function<void()>> Fs;
typedef std::function<void()> Fn;
template <class T> using sp = std::shared_ptr<T>;
#define FAILIF(c, ...) do { if (c) { \
  if (vs::virtual_mode()) rep::current = SHOW(); else rep::current = vs::scenario; rep::fail(__VA_ARGS__); } } while (0)
#ifdef REP_REAL
#define SHOW() vs::scenario
#else
#define SHOW() vs::show()
#endif
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ",") + x; return "[" + s + "]"; }

// ------------------------------------------------------------------ C06 ----
static void chan(double sec) {
  typedef dap::Chan<std::string> Q;
  double s = sec / 9;
  auto many = [&](int takers, int putters, int each, bool copy) {
    return [=](Fs& fs, Fn& check) {
      auto q = std::make_shared<Q>();
      auto got = std::make_shared<std::vector<std::vector<std::string>>>(takers);
      auto left = std::make_shared<int>(putters);
      auto lm = std::make_shared<std::mutex>();
      for (int t = 0; t < takers; t++)
        fs.push_back([=] { for (;;) { auto v = q->take(); if (!v) break; (*got)[t].push_back(v.value()); } });
      for (int p = 0; p < putters; p++)
        fs.push_back([=] {
          for (int i = 0; i < each; i++) {
            std::string v = std::to_string(p) + ":" + std::to_string(i);
            if (copy) { const std::string c = v; q->put(c); FAILIF(c != v, "put changed the caller's item"); }
            else q->put(std::move(v));
          }
          bool last;
          { std::unique_lock<std::mutex> l(*lm); last = --*left == 0; }
          if (last) q->close();
        });
      check = [=] {
        std::map<std::string, int> seen;
        for (auto& g : *got) {
          std::vector<int> next(putters, -1);
          for (auto& v : g) {
            seen[v]++;
            int p = atoi(v.c_str()), i = atoi(v.c_str() + v.find(':') + 1);
            REQUIRE(i > next[p], "items of one putter taken out of order: %s", join(g).c_str());
            next[p] = i;
          }
        }
        for (int p = 0; p < putters; p++) for (int i = 0; i < each; i++) {
          std::string v = std::to_string(p) + ":" + std::to_string(i);
          REQUIRE(seen[v] == 1, "item %s handed out %d times", v.c_str(), seen[v]);
        }
        REQUIRE(seen.size() == static_cast<size_t>(putters * each), "an item that was never put was handed out");
      };
    };
  };
  vs::explore("chan: 1 taker, 1 putter x2, close", s, many(1, 1, 2, false));
  vs::explore("chan: 2 takers, 1 putter x2, close", s, many(2, 1, 2, true));
  vs::explore("chan: 1 taker, 2 putters x2, close", s, many(1, 2, 2, true));
  vs::explore("chan: 3 takers, 1 putter x1, close", s, many(3, 1, 1, false));
  auto once = [&](int takers, int putters, int each) {
    return [=](Fs& fs, Fn& check) {          // as many takes as puts, and no close
      auto q = std::make_shared<Q>();
      auto got = std::make_shared<std::vector<std::string>>(takers);
      for (int t = 0; t < takers; t++)
        fs.push_back([=] { auto v = q->take(); FAILIF(!v, "take returned nothing from an open queue"); (*got)[t] = v.value(); });
      for (int p = 0; p < putters; p++)
        fs.push_back([=] { for (int i = 0; i < each; i++) q->put(std::to_string(p) + ":" + std::to_string(i)); });
      check = [=] {
        std::map<std::string, int> seen; for (auto& g : *got) seen[g]++;
        for (auto& e : seen) REQUIRE(e.second == 1, "item %s handed out %d times", e.first.c_str(), e.second);
      };
    };
  };
  vs::explore("chan: 2 takers, 2 puts, no close", s, once(2, 1, 2));
  vs::explore("chan: 3 takers, 3 puts, no close", s, once(3, 1, 3));
  vs::explore("chan: 2 takers, 2 putters, no close", s, once(2, 2, 1));
  vs::explore("chan: 2 takers, close only", s, [&](Fs& fs, Fn&) {
    auto q = std::make_shared<Q>();
    for (int i = 0; i < 2; i++) fs.push_back([=] { auto v = q->take(); FAILIF(v.has_value(), "take returned an item from an empty queue"); });
    fs.push_back([=] { q->close(); });
  });
  vs::explore("chan: reset reopens", s, [&](Fs& fs, Fn&) {
    auto q = std::make_shared<Q>();
    fs.push_back([=] {
      q->put("a"); q->put("b"); q->close();
      auto v = q->take(); FAILIF(!v || v.value() != "a", "an item queued before close is not handed out");
      q->put("late");
      v = q->take(); FAILIF(!v || v.value() != "b", "an item queued before close is not handed out");
      v = q->take(); FAILIF(v && v.value() != "late", "foreign item");
      v = q->take(); FAILIF(v.has_value(), "a drained, closed queue hands out an item");
      q->put("c"); q->reset();
      q->put("d");
      v = q->take(); FAILIF(!v || v.value() != "d", "reset does not empty the queue");
    });
    fs.push_back([] {});
  });
  vs::explore("chan: reset, then a taker sleeps and is woken", s, [&](Fs& fs, Fn&) {
    auto q = std::make_shared<Q>();
    fs.push_back([=] {
      q->put("x"); q->close(); q->reset();
      std::thread t([=] { auto v = q->take(); FAILIF(!v || v.value() != "y", "after reset take returned without the item"); });
      vs::step(); q->put("y"); t.join();
    });
    fs.push_back([] {});
  });
}
// ------------------------------------------------------------------ C05 ----
static void pipes(double sec) {
  double s = sec / 6;
  auto chunks = [](std::vector<std::string> w, std::vector<size_t> r, bool close) {
    return [=](Fs& fs, Fn& check) {
      auto p = dap::pipe();
      auto got = std::make_shared<std::string>();
      auto ok = std::make_shared<bool>(true);
      std::string all; for (auto& c : w) all += c;
      fs.push_back([=] { for (auto& c : w) { std::string k = c; if (!p->write(k.data(), k.size())) *ok = false; FAILIF(k != c, "write changed its source"); } if (close) p->close(); });
      fs.push_back([=] {
        for (size_t n : r) {
          std::string b(n + 2, '#');
          size_t g = p->read(&b[0] + 1, n);
          FAILIF(g > n, "read returned more than asked for");
          FAILIF(b[0] != '#' || b[n + 1] != '#', "read wrote outside its buffer");
          FAILIF(g < n && p->isOpen(), "short read from an open pipe");
          got->append(b, 1, g);
          if (g < n) break;
        }
      });
      check = [=] {
        size_t want = 0; for (size_t n : r) want += n;
        REQUIRE(*ok, "write to an open pipe failed");
        REQUIRE(all.compare(0, got->size(), *got) == 0, "read %s, written %s", rep::esc(*got).c_str(), rep::esc(all).c_str());
        if (!close) REQUIRE(got->size() == want, "read %zu bytes of %zu", got->size(), want);
      };
    };
  };
  vs::explore("pipe: chunks abc,de / reads 1,3,1", s, chunks({"abc", "de"}, {1, 3, 1}, false));
  vs::explore("pipe: chunks a,,bc / read 3", s, chunks({"a", "", "bc"}, {3}, false));
  vs::explore("pipe: chunk then close", s, chunks({std::string("\0x\xff", 3)}, {2, 2}, true));
  vs::explore("pipe: two blocked readers, close", s, [&](Fs& fs, Fn&) {
    auto p = dap::pipe();
    for (int i = 0; i < 2; i++) fs.push_back([=] { char b[4]; size_t n = p->read(b, 4); FAILIF(n == 4, "read returned bytes never written"); });
    fs.push_back([=] { p->close(); FAILIF(p->isOpen(), "open after close"); FAILIF(p->write("x", 1), "write to a closed pipe succeeds"); char b[2]; p->read(b, 2); FAILIF(p->write("", 0), "write to a closed pipe succeeds"); });
  });
  vs::explore("pipe: two readers, one byte each", s, [&](Fs& fs, Fn& check) {
    auto p = dap::pipe();
    auto got = std::make_shared<std::array<char, 2>>();
    for (int i = 0; i < 2; i++) fs.push_back([=] { char c = 0; size_t n = p->read(&c, 1); FAILIF(n != 1, "short read from an open pipe"); (*got)[i] = c; });
    fs.push_back([=] { p->write("1", 1); p->write("2", 1); });
    check = [=] { REQUIRE((*got)[0] + (*got)[1] == '1' + '2' && (*got)[0] != (*got)[1], "readers got %c and %c", (*got)[0], (*got)[1]); };
  });
  vs::explore("pipe: random transfers against a model", s, [&](Fs& fs, Fn&) {
    static uint64_t n = 0; uint64_t k = n++;
    fs.push_back([=] {
      auto r = rep::rng(k); auto p = dap::pipe(); std::string model;
      for (int i = 0; i < 40; i++) {
        if (r.below(2)) { size_t l = r.below(4) ? r.below(9) : r.below(5000); std::string d; for (size_t j = 0; j < l; j++) d += static_cast<char>(r.next()); FAILIF(!p->write(d.data(), l), "write failed"); model += d; }
        else if (!model.empty()) { size_t l = 1 + r.below(r.below(3) ? std::min<size_t>(model.size(), 9) : model.size()); std::string b(l, 0); FAILIF(p->read(&b[0], l) != l, "short read"); FAILIF(b != model.substr(0, l), "wrong bytes"); model.erase(0, l); }
      }
    });
  }, 0);
}
// ------------------------------------------------------------------ C16 ----
static void futures(double sec) {
  double s = sec / 6;
  typedef dap::promise<std::string> P; typedef dap::future<std::string> F;
  auto setget = [](int waiters, bool late, bool move) {
    return [=](Fs& fs, Fn&) {
      auto p = std::make_shared<P>();
      for (int i = 0; i < waiters; i++) {
        auto f = late ? sp<F>() : std::make_shared<F>(p->get_future());
        fs.push_back([=] {
          auto g = f ? f : std::make_shared<F>(p->get_future());
          FAILIF(!g->valid(), "future not valid");
          if (i == 1) g->wait();
          FAILIF(g->get() != "value", "get returned something else than the value set");
          FAILIF(g->wait_for(std::chrono::seconds(0)) != dap::future_status::ready, "not ready although set");
        });
      }
      fs.push_back([=] { std::string v = "value"; if (move) p->set_value(std::move(v)); else { p->set_value(v); FAILIF(v != "value", "set_value changed its argument"); } });
    };
  };
  vs::explore("future: 2 waiters, set", s, setget(2, false, false));
  vs::explore("future: 2 waiters, late futures, moved value", s, setget(2, true, true));
  vs::explore("future: timed waits", s, [&](Fs& fs, Fn&) {
    auto p = std::make_shared<P>(); auto f = std::make_shared<F>(p->get_future());
    auto set = std::make_shared<bool>(false); auto m = std::make_shared<std::mutex>();
    fs.push_back([=] {
      bool before; { std::unique_lock<std::mutex> l(*m); before = *set; }
      auto r1 = f->wait_for(std::chrono::milliseconds(1));
      FAILIF(before && r1 != dap::future_status::ready, "timeout although the value was set");
      auto r2 = f->wait_until(std::chrono::steady_clock::now());
      FAILIF(r1 == dap::future_status::ready && r2 != dap::future_status::ready, "ready, then not");
      f->wait();
      FAILIF(f->wait_until(std::chrono::steady_clock::now()) != dap::future_status::ready, "not ready although set");
      FAILIF(f->get() != "v", "wrong value");
    });
    fs.push_back([=] { p->set_value("v"); std::unique_lock<std::mutex> l(*m); *set = true; });
  });
  vs::explore("future: unset is not ready", s, [&](Fs& fs, Fn&) {
    auto p = std::make_shared<P>(); auto f = std::make_shared<F>(p->get_future());
    fs.push_back([=] { FAILIF(f->wait_for(std::chrono::milliseconds(1)) == dap::future_status::ready, "ready although nothing was set");
                       FAILIF(f->wait_until(std::chrono::steady_clock::now()) == dap::future_status::ready, "ready although nothing was set"); });
    fs.push_back([] {});
  });
  vs::explore("future: promise gone before get", s, [&](Fs& fs, Fn&) {
    auto p = std::make_shared<sp<P>>(std::make_shared<P>()); auto f = std::make_shared<F>((*p)->get_future());
    fs.push_back([=] { FAILIF(f->get() != "w", "wrong value"); F g(std::move(*f)); FAILIF(g.get() != "w", "moved future lost the value"); });
    fs.push_back([=] { { P copy(**p); copy.set_value("w"); } p->reset(); });
  });
}
// ------------------------------------------------------------------ C17 ----
struct Shared { std::atomic<int> r{0}, w{0}; int data = 0; };
static void rwm(double sec) {
  double s = sec / 6;
  auto mix = [](int readers, int writers, int rounds, bool raw) {
    return [=](Fs& fs, Fn& check) {
      auto m = std::make_shared<dap::RWMutex>(); auto sh = std::make_shared<Shared>();
      for (int i = 0; i < readers; i++) fs.push_back([=] {
        for (int k = 0; k < rounds; k++) {
          if (raw) m->lockReader();
          sp<dap::RLock> l(raw ? nullptr : new dap::RLock(*m));
          sh->r++; FAILIF(sh->w != 0, "a reader and a writer hold the lock together"); int v = sh->data; (void)v; vs::step(); FAILIF(sh->w != 0, "a reader and a writer hold the lock together"); sh->r--;
          l.reset(); if (raw) m->unlockReader();
        }
      });
      for (int i = 0; i < writers; i++) fs.push_back([=] {
        for (int k = 0; k < rounds; k++) {
          if (raw) m->lockWriter();
          sp<dap::WLock> l(raw ? nullptr : new dap::WLock(*m));
          FAILIF(sh->w++ != 0, "two writers hold the lock together"); FAILIF(sh->r != 0, "a reader and a writer hold the lock together"); sh->data++; vs::step(); FAILIF(sh->r != 0, "a reader and a writer hold the lock together"); sh->w--;
          l.reset(); if (raw) m->unlockWriter();
        }
      });
      check = [=] { REQUIRE(sh->data == writers * rounds, "lost update"); };
    };
  };
  vs::explore("rwmutex: 1 reader 2 writers", s, mix(1, 2, 1, true));
  vs::explore("rwmutex: 2 readers 2 writers", s, mix(2, 2, 1, true));
  vs::explore("rwmutex: 2 readers 1 writer, twice, scoped", s, mix(2, 1, 2, false));
  vs::explore("rwmutex: 1 reader 3 writers", s, mix(1, 3, 1, false));
  // all readers may hold it at once: each waits for the other inside
  vs::explore("rwmutex: readers share", s, [&](Fs& fs, Fn&) {
    auto m = std::make_shared<dap::RWMutex>(); auto p = std::make_shared<std::array<dap::promise<int>, 2>>();
    for (int i = 0; i < 2; i++) fs.push_back([=] { dap::RLock l(*m); (*p)[i].set_value(1); (*p)[1 - i].get_future().get(); });
  });
  vs::explore("rwmutex: scoped locks move", s, [&](Fs& fs, Fn&) {
    auto a = std::make_shared<dap::RWMutex>(), b = std::make_shared<dap::RWMutex>();
    fs.push_back([=] {
      { dap::RLock x(*a); dap::RLock y(*b); dap::RLock z(std::move(x)); z = std::move(y);
        a->lockWriter(); a->unlockWriter(); }                       // z gave up a
      a->lockWriter(); b->lockWriter(); b->unlockWriter(); a->unlockWriter();
      { dap::RLock x(*a); dap::RLock& r = x; x = std::move(r); }
      a->lockWriter(); a->unlockWriter();
      { dap::WLock x(*a); dap::WLock y(*b); dap::WLock z(std::move(x)); z = std::move(y);
        a->lockReader(); a->unlockReader(); }
      { dap::WLock x(*a); dap::WLock& r = x; x = std::move(r); }
      a->lockReader(); b->lockReader(); b->unlockReader(); a->unlockReader();
      { dap::WLock x(*a); { dap::WLock y(std::move(x)); } a->lockWriter(); a->unlockWriter(); }
    });
    fs.push_back([] {});
  });
}
int main(int argc, char** argv) {
  rep::init(argc, argv);
  double t = rep::limit;
  if (rep::prop == "C05") pipes(t);
  if (rep::prop == "C06") chan(t);
  if (rep::prop == "C16") futures(t);
  if (rep::prop == "C17") rwm(t);
  return rep::done();
}
