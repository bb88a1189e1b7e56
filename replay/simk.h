// A simulated socket layer behind the real socket.cpp: the linker redirects the system calls here
// (--wrap). It records what is done with each descriptor and fails the case on misuse.
#ifndef SIMK_H
#define SIMK_H
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
namespace simk {
struct D {
  bool open = true, shut = false, nonblock = false, bound = false, listening = false, conn = false, pending = false, eof = false;
  int err = 0, closes = 0, users = 0, soerr_reads = 0;
  std::string in, out; size_t at = 0; int recvs_ok = 0;
  int backlog = 0, accepted = 0; bool accept_fails = false;
  const char* big = nullptr; size_t bigsent = 0;
};
static std::map<int, D> fds;
static int next_fd = 1000;
static std::mutex m;
static std::condition_variable cv;
static rep::Rng rng{1};
static int faults = 0;            // percentage of calls that fail
static bool partial = false;      // transfers may be partial
static int injected = 0;          // failures injected so far
static std::set<addrinfo*> infos; static int info_gets = 0;
static std::string last_host, last_port;
static uint64_t max_wait = ~0ull; // longest wait allowed (ms)
static uint64_t waited = 0;
static bool connect_pends = false, connect_ok = true, fail_open = false;
static std::vector<int> accepted;
typedef std::unique_lock<std::mutex> L;
[[noreturn]] static void bad(const std::string& s) {
#if !defined(REP_SEQ) && !defined(REP_REAL)
  rep::current = vs::show();
#endif
  rep::fail("%s", s.c_str());
}
static bool fault(const char* what) { (void)what; if (faults && static_cast<int>(rng.below(100)) < faults) { injected++; return true; } return false; }
static D* use(int fd, const char* call) {
  if (fd == -1) { errno = EBADF; return nullptr; }
  auto it = fds.find(fd);
  if (it == fds.end()) bad(std::string(call) + " on a descriptor that was never obtained: " + std::to_string(fd));
  if (!it->second.open) bad(std::string(call) + " on a descriptor that has been closed: " + std::to_string(fd));
  return &it->second;
}
static int fresh() { int f = next_fd++; fds[f] = D(); return f; }
static void reset(rep::Rng r) {
  fds.clear(); rng = r; faults = 0; partial = false; injected = 0; infos.clear(); info_gets = 0; max_wait = ~0ull; waited = 0;
  connect_pends = false; connect_ok = true; fail_open = false; accepted.clear();
  static const int starts[] = {3, 200, 1000, 1022, 1023, 1024, 1100, 5000, 70000};
  next_fd = starts[rng.below(9)];
}
static void point() {
#ifndef REP_SEQ
  vs::step();
#endif
}
// after everything was destroyed
static void all_released() {
  for (auto& k : fds) {
    if (k.second.open) bad("descriptor " + std::to_string(k.first) + " is never closed");
    if (k.second.closes != 1) bad("descriptor closed " + std::to_string(k.second.closes) + " times");
  }
  if (!infos.empty()) bad("an address list is never freed");
}
}  // namespace simk
using simk::D;
extern "C" {
int __wrap_socket(int, int, int) { simk::L l(simk::m); if (simk::fail_open || simk::fault("socket")) { errno = EMFILE; return -1; } return simk::fresh(); }
int __wrap_getaddrinfo(const char* h, const char* p, const addrinfo* hints, addrinfo** res) {
  simk::L l(simk::m);
  simk::last_host = h ? h : ""; simk::last_port = p ? p : "";
  if (simk::fault("getaddrinfo")) return EAI_AGAIN;
  auto a = new addrinfo(); auto sa = new sockaddr_in();
  a->ai_family = hints ? hints->ai_family : AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
  sa->sin_family = AF_INET; sa->sin_port = htons(static_cast<uint16_t>(atoi(simk::last_port.c_str())));
  a->ai_addr = reinterpret_cast<sockaddr*>(sa); a->ai_addrlen = sizeof(*sa);
  simk::infos.insert(a); simk::info_gets++;
  *res = a;
  return 0;
}
void __wrap_freeaddrinfo(addrinfo* a) {
  simk::L l(simk::m);
  if (!simk::infos.erase(a)) simk::bad("an address list is freed that is not live");
  delete reinterpret_cast<sockaddr_in*>(a->ai_addr); delete a;
}
static bool addr_ok(const sockaddr* a, socklen_t n) { return n >= sizeof(sockaddr_in) && reinterpret_cast<const sockaddr_in*>(a)->sin_port == htons(static_cast<uint16_t>(atoi(simk::last_port.c_str()))); }
int __wrap_bind(int fd, const sockaddr* a, socklen_t n) {
  simk::L l(simk::m); D* d = simk::use(fd, "bind"); if (!d) return -1;
  if (!addr_ok(a, n)) simk::bad("bind to an address other than the one looked up");
  if (simk::fault("bind")) { errno = EADDRINUSE; return -1; }
  d->bound = true; return 0;
}
int __wrap_listen(int fd, int) { simk::L l(simk::m); D* d = simk::use(fd, "listen"); if (!d) return -1; if (!d->bound || simk::fault("listen")) { errno = EADDRINUSE; return -1; } d->listening = true; return 0; }
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) {
  simk::point();
  simk::L l(simk::m); D* d = simk::use(fd, "connect"); if (!d) return -1;
  if (!addr_ok(a, n)) simk::bad("connect to an address other than the one looked up");
  if (simk::max_wait != ~0ull && !d->nonblock) simk::bad("connect may block although a timeout was given");
  if (simk::fault("connect")) { errno = ECONNREFUSED; return -1; }
  if (simk::connect_pends && d->nonblock) { d->pending = true; errno = EINPROGRESS; return -1; }
  if (!simk::connect_ok) { errno = ECONNREFUSED; return -1; }
  d->conn = true; return 0;
}
int __wrap_getsockopt(int fd, int level, int opt, void* p, socklen_t* n) {
  simk::L l(simk::m); D* d = simk::use(fd, "getsockopt"); if (!d) return -1;
  int v = level == SOL_SOCKET && opt == SO_ERROR ? d->err : 0;
  socklen_t k = *n < sizeof(v) ? *n : static_cast<socklen_t>(sizeof(v));
  memcpy(p, &v, k); *n = k; d->soerr_reads++;
  return 0;
}
int __wrap_setsockopt(int fd, int, int, const void* p, socklen_t n) { simk::L l(simk::m); D* d = simk::use(fd, "setsockopt"); if (!d) return -1; unsigned s = 0; for (socklen_t i = 0; i < n; i++) s += static_cast<const unsigned char*>(p)[i]; (void)s; return simk::faults && simk::rng.below(4) == 0 ? -1 : 0; }
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  simk::L l(simk::m); D* d = simk::use(fd, "fcntl"); if (!d) return -1;
  if (simk::fault("fcntl")) { errno = EINVAL; return -1; }
  if (cmd == F_GETFL) return O_RDWR | (d->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { d->nonblock = (static_cast<int>(arg) & O_NONBLOCK) != 0; return 0; }
  return 0;
}
static int waiting(int fd, bool forever, uint64_t ms) {
  simk::L l(simk::m); D* d = simk::use(fd, "wait"); if (!d) return -1;
  if (forever && simk::max_wait != ~0ull) simk::bad("connect waits without a time limit although a timeout was given");
  simk::waited += ms;
  if (simk::max_wait != ~0ull && simk::waited > simk::max_wait) simk::bad("connect waits " + std::to_string(simk::waited) + " ms, the timeout given was " + std::to_string(simk::max_wait) + " ms");
  if (simk::fault("poll")) { errno = ENOMEM; return -1; }
  if (d->pending) { if (simk::rng.below(4) == 0) { simk::injected++; return 0; } d->pending = false; if (simk::connect_ok) d->conn = true; else d->err = ECONNREFUSED; }
  return 1;
}
int __wrap_poll(pollfd* p, nfds_t n, int t) { if (n < 1) return 0; int r = waiting(p->fd, t < 0, t < 0 ? 0 : static_cast<uint64_t>(t)); p->revents = r > 0 ? static_cast<short>(p->events & (POLLOUT | POLLIN)) : 0; return r; }
int __wrap_select(int nfds, fd_set*, fd_set* w, fd_set*, timeval* tv) {
  int fd = -1;
  for (int i = 0; i < nfds && i < FD_SETSIZE; i++) if (w && FD_ISSET(i, w)) fd = i;
  if (fd < 0) { errno = EBADF; return -1; }
  return waiting(fd, tv == nullptr, tv ? static_cast<uint64_t>(tv->tv_sec) * 1000 + static_cast<uint64_t>(tv->tv_usec) / 1000 : 0);
}
int __wrap_shutdown(int fd, int) { simk::point(); simk::L l(simk::m); D* d = simk::use(fd, "shutdown"); if (!d) return -1; d->shut = true; simk::cv.notify_all(); return simk::faults && simk::rng.below(3) == 0 ? -1 : 0; }
int __wrap_close(int fd) {
  simk::point();
  simk::L l(simk::m);
  if (fd == -1) { errno = EBADF; return -1; }
  auto it = simk::fds.find(fd);
  if (it != simk::fds.end() && !it->second.open) simk::bad("descriptor " + std::to_string(fd) + " is closed twice");
  D* d = simk::use(fd, "close");
  if (d->users) simk::bad("descriptor closed while another thread is inside a call on it");
  d->open = false; d->closes++;
  return simk::faults && simk::rng.below(3) == 0 ? -1 : 0;
}
static int do_accept(int fd) {
  simk::point();
  simk::L l(simk::m); D* d = simk::use(fd, "accept"); if (!d) return -1;
  if (!d->listening) { errno = EINVAL; return -1; }
  d->users++;
#ifdef REP_SEQ
  bool ok = d->backlog > 0;
#else
  simk::cv.wait(l, [&] { return d->shut || d->backlog > 0 || d->accept_fails; });
  bool ok = !d->shut && d->backlog > 0;
#endif
  d->users--;
  if (!ok || simk::fault("accept")) { if (!d->shut) simk::injected++; errno = EINVAL; return -1; }
  d->backlog--; d->accepted++;
  int f = simk::fresh(); simk::fds[f].conn = true; simk::accepted.push_back(f);
  return f;
}
int __wrap_accept(int fd, sockaddr*, socklen_t*) { return do_accept(fd); }
int __wrap_accept4(int fd, sockaddr*, socklen_t*, int) { return do_accept(fd); }
static ssize_t do_recv(int fd, void* b, size_t n) {
  simk::point();
  simk::L l(simk::m); D* d = simk::use(fd, "recv"); if (!d) return -1;
  d->users++;
#ifndef REP_SEQ
  simk::cv.wait(l, [&] { return d->shut || d->eof || d->at < d->in.size(); });
#endif
  d->users--;
  if (simk::fault("recv")) { errno = ECONNRESET; d->recvs_ok = 0; return -1; }
#ifdef REP_SEQ
  if (d->recvs_ok) simk::bad("read asks for more after bytes were received");
#endif
  size_t k = std::min(n, d->in.size() - d->at);
  if (k > 1 && simk::partial) k = 1 + simk::rng.below(k);
  if (k) { memcpy(b, d->in.data() + d->at, k); d->at += k; d->recvs_ok = 1; }
  return static_cast<ssize_t>(k);
}
static ssize_t do_send(int fd, const void* b, size_t n) {
  simk::point();
  simk::L l(simk::m); D* d = simk::use(fd, "send"); if (!d) return -1;
  if (d->shut || simk::fault("send")) { errno = EPIPE; return -1; }
  if (static_cast<ssize_t>(n) < 0) simk::bad("send of a negative size");
  size_t k = n;
  if (d->big) {
    if (static_cast<const char*>(b) != d->big + d->bigsent) simk::bad("send of other bytes than the next ones");
    k = std::min<size_t>(k, 0x7ffff000); d->bigsent += k;
    return static_cast<ssize_t>(k);
  }
  if (k > 1 && simk::partial) k = simk::rng.below(3) ? 1 + simk::rng.below(k) : k;
  d->out.append(static_cast<const char*>(b), k);
  return static_cast<ssize_t>(k);
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int) { return do_recv(fd, b, n); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int) { return do_send(fd, b, n); }
ssize_t __wrap_read(int fd, void* b, size_t n) { return do_recv(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return do_send(fd, b, n); }
}
#endif
