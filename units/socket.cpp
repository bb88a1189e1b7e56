// Contracts for socket.cpp (C18, and the opening/accepting half of C19): every result the operating
// system may give, and other threads closing the socket between any two critical sections.
// RWMutex is used by contract (its own code is decided by C17); the system calls are stated below.
#include <spec.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include "../src/socket.cpp"
typedef dap::Socket::Shared Sh;
extern "C" {
unsigned long __uf_D(unsigned long);
// ---- descriptors ---------------------------------------------------------------------------------
struct Desc { int fd; bool open, shut, err, nonblock, bound, listening, conn, pending; int closes; };
Desc g_k[3]; int n_k;
unsigned long g_sent, g_n, g_got; bool g_recvd; int g_sends, g_recvs;
unsigned long g_timeout;
// ---- locks ---------------------------------------------------------------------------------------
struct Obj { Sh* sh; int r; bool w; bool shared; int snap; };
Obj g_o[3]; int n_o;
bool g_held;       // the object under test is locked, one way or the other
// ---- addresses -----------------------------------------------------------------------------------
addrinfo* g_info; bool g_info_live; int g_frees; int g_infos;
}
static int kfind(int fd) { for (int i = 0; i < n_k; i++) if (g_k[i].fd == fd && g_k[i].open) return i; return -1; }
static int knew() {
  int f = __spec_nondet_i32(); __spec_assume(f >= 0);
  for (int i = 0; i < n_k; i++) __spec_assume(!g_k[i].open || g_k[i].fd != f);
  Desc& d = g_k[n_k];
  d.fd = f; d.open = true; d.shut = d.err = d.nonblock = d.bound = d.listening = d.conn = d.pending = false; d.closes = 0;
  n_k++;
  return f;
}
// the descriptor an operation is applied to: an open one of ours (using -1 fails harmlessly)
static Desc* use(int fd) {
  if (fd == -1) return nullptr;
  int i = kfind(fd);
  __spec_assert(i >= 0, "C18.descriptor_used_only_while_open");
  if (i < 0) __spec_assume(false);
  return &g_k[i];
}
static Obj* obj_of(Sh* sh) {
  for (int i = 0; i < n_o; i++) if (g_o[i].sh == sh) return &g_o[i];
  g_o[n_o].sh = sh; g_o[n_o].r = 0; g_o[n_o].w = false; g_o[n_o].shared = false;
  return &g_o[n_o++];
}
static Sh* owner(dap::RWMutex* m) { return reinterpret_cast<Sh*>(reinterpret_cast<char*>(m) - __builtin_offsetof(Sh, mutex)); }
static Obj* locked_obj_using(int fd) { for (int i = 0; i < n_o; i++) if ((g_o[i].r > 0 || g_o[i].w) && g_o[i].snap == fd) return &g_o[i]; return nullptr; }
// while the lock is free, another thread may close the socket (once) or the connection may break
static void env(Obj* o) {
  bool g = __spec_guard_enable(false);
  if (o->shared) {
    int s = o->sh->s;
    if (s != -1) {
      int i = kfind(s);
      if (i >= 0) {
        if (__spec_choice()) { g_k[i].open = false; g_k[i].closes++; o->sh->s = -1; }
        else { g_k[i].shut = g_k[i].shut | __spec_nondet_bool(); }
      }
    }
  }
  o->snap = o->sh->s;
  __spec_guard_enable(g);
}
static void unchanged(Obj* o, bool may) {
  bool g = __spec_guard_enable(false);
  if (!may) __spec_assert(o->sh->s == o->snap, "C18.descriptor_changes_only_under_the_writer_lock");
  __spec_guard_enable(g);
}
static void held(Obj* o) { if (o == &g_o[0]) g_held = o->r > 0 || o->w; }
extern "C" {
void ctr_lock_reader(dap::RWMutex* m) {
  Obj* o = obj_of(owner(m));
  __spec_assert(!o->w, "LOCK.self_deadlock");
  if (o->r == 0) env(o);
  o->r++; held(o);
}
void ctr_unlock_reader(dap::RWMutex* m) {
  Obj* o = obj_of(owner(m));
  __spec_assert(o->r > 0, "LOCK.unlock_without_lock");
  unchanged(o, false);
  o->r--; held(o);
}
void ctr_lock_writer(dap::RWMutex* m) {
  Obj* o = obj_of(owner(m));
  __spec_assert(o->r == 0 && !o->w, "LOCK.self_deadlock");
  // others may be blocked in a call on the descriptor: they must have been woken before we wait for them
  bool g = __spec_guard_enable(false);
  int s = o->sh->s;
  __spec_guard_enable(g);
  if (o->shared && s != -1) { Desc* d = use(s); __spec_assert(d->shut || d->err, "C18.blocked_users_are_woken_before_waiting_for_them"); }
  env(o);
  o->w = true; held(o);
}
void ctr_unlock_writer(dap::RWMutex* m) {
  Obj* o = obj_of(owner(m));
  __spec_assert(o->w, "LOCK.unlock_without_lock");
  o->w = false; held(o);
}
// ---- the operating system ------------------------------------------------------------------------
static int g_errno;
int* __errno_location() noexcept { return &g_errno; }
static void os() { g_errno = __spec_nondet_i32(); }      // any call may leave any error number
int socket(int, int, int) noexcept { os(); if (__spec_choice()) return -1; return knew(); }
int bind(int fd, const sockaddr* a, socklen_t n) noexcept { os();
  Desc* d = use(fd);
  __spec_assert(g_info_live && a == g_info->ai_addr && n == g_info->ai_addrlen, "C18.binds_the_address_looked_up");
  if (!d || __spec_choice()) return -1;
  d->bound = true; return 0;
}
int listen(int fd, int) noexcept { os(); Desc* d = use(fd); if (!d || __spec_choice()) return -1; d->listening = true; return 0; }
int accept(int fd, sockaddr*, socklen_t*) { os();
  Desc* d = use(fd);
  if (!d) return -1;
  __spec_assert(locked_obj_using(fd) != nullptr, "C18.descriptor_protected_while_used");
  if (__spec_choice()) return -1;
  return knew();
}
int connect(int fd, const sockaddr* a, socklen_t n) {
  Desc* d = use(fd);
  __spec_assert(g_info_live && a == g_info->ai_addr && n == g_info->ai_addrlen, "C18.connects_to_the_address_looked_up");
  if (!d) return -1;
  __spec_assert(g_timeout == 0 || d->nonblock, "C18.connect_does_not_block_beyond_the_timeout");
  // a failed connect is in progress exactly if the descriptor is non-blocking and errno says so
  if (__spec_choice()) { g_errno = __spec_nondet_i32(); d->pending = d->nonblock & (g_errno == EINPROGRESS); return -1; }
  d->conn = true; return 0;
}
int setsockopt(int fd, int, int, const void* p, socklen_t n) noexcept { os(); use(fd); __spec_readable(p, n); return __spec_nondet_bool() ? 0 : -1; }
int getsockopt(int fd, int level, int opt, void* p, socklen_t* n) noexcept { os();
  Desc* d = use(fd);
  if (!d) return -1;
  __spec_assert(*n >= 1 && *n <= 4, "C18.socket_error_buffer");
  if (*n == 4) __spec_writable(p, 4); else __spec_writable(p, 1);
  bool e = __spec_choice();     // SO_ERROR: the error (below 256) of the connection, if any
  if (e) d->err = true;
  unsigned v = e ? (__spec_nondet_u8() | 1u) : 0u;
  if (*n == 4) *static_cast<int*>(p) = static_cast<int>(v); else *static_cast<char*>(p) = static_cast<char>(v);
  return 0;
}
// (the flags passed to F_SETFL are read with the verifier's va_arg)
int __spec_va_int(int i);
int fcntl(int fd, int cmd, ...) { os();
  Desc* d = use(fd);
  if (!d) return -1;
  if (cmd == F_GETFL) { if (__spec_choice()) return -1; return d->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR; }
  if (cmd == F_SETFL) { int a = __spec_va_int(0); if (__spec_choice()) return -1; d->nonblock = (a & O_NONBLOCK) != 0; return 0; }
  return __spec_nondet_i32();
}
int poll(pollfd* p, nfds_t n, int timeout) { os();
  __spec_writable(p, sizeof(pollfd));
  Desc* d = use(p->fd);
  if (!d || n != 1) return -1;
  __spec_assert(timeout >= 0 && static_cast<unsigned long>(timeout) <= g_timeout, "C18.connect_does_not_block_beyond_the_timeout");
  int r = __spec_choice() ? -1 : (__spec_choice() ? 1 : 0);
  // ready: connected or failed (SO_ERROR); one that is not connecting is ready at once and has no SO_ERROR
  if (r > 0 && (p->events & POLLOUT)) { d->conn = d->pending; p->revents = POLLOUT; }
  return r;
}
int select(int, fd_set*, fd_set*, fd_set*, timeval* tv) { os();
  Desc* d = n_k > 0 ? &g_k[0] : nullptr;
  if (!d || !tv) return -1;
  __spec_assert(static_cast<unsigned long>(tv->tv_sec) * 1000 + static_cast<unsigned long>(tv->tv_usec) / 1000 <= g_timeout, "C18.connect_does_not_block_beyond_the_timeout");
  int r = __spec_choice() ? -1 : (__spec_choice() ? 1 : 0);
  if (r > 0) d->conn = d->pending;
  return r;
}
int shutdown(int fd, int) noexcept { os(); Desc* d = use(fd); if (!d) return -1; d->shut = true; return __spec_nondet_bool() ? 0 : -1; }
int close(int fd) { os();
  Desc* d = use(fd);
  if (!d) return -1;
  // nobody else may be inside a call on this descriptor, or about to make one
  for (int i = 0; i < n_o; i++) if (g_o[i].shared && g_o[i].snap == fd) __spec_assert(g_o[i].w, "C18.closed_only_when_nobody_can_be_using_it");
  d->open = false; d->closes++;
  return __spec_nondet_bool() ? 0 : -1;
}
ssize_t recv(int fd, void* b, size_t n, int) { os();
  Desc* d = use(fd);
  if (!d) return -1;
  __spec_assert(locked_obj_using(fd) != nullptr, "C18.descriptor_protected_while_used");
  __spec_writable(b, n);
  __spec_assert(!g_recvd, "C18.read_does_not_wait_for_more");
  __spec_assert(n > 0 || g_n == 0, "C18.read_asks_for_something");
  long r = __spec_nondet_i64(); __spec_assume(r >= -1 && (r == -1 || static_cast<unsigned long>(r) <= n));
  if (r > 0) { __spec_fill(b, static_cast<unsigned long>(r), "D", g_got); g_got += static_cast<unsigned long>(r); g_recvd = true; }
  g_recvs++;
  return r;
}
ssize_t send(int fd, const void* b, size_t n, int) { os();
  Desc* d = use(fd);
  if (!d) return -1;
  __spec_assert(locked_obj_using(fd) != nullptr, "C18.descriptor_protected_while_used");
  __spec_readable(b, n);
  __spec_assert(n <= g_n - g_sent, "C18.sends_no_more_than_given");
  unsigned long k = __spec_nondet_u64();
  if (k < n) __spec_assert(static_cast<const unsigned char*>(b)[k] == __uf_D(g_sent + k), "C18.sends_the_bytes_in_order");
  long r = __spec_nondet_i64(); __spec_assume(r >= -1 && (r == -1 || static_cast<unsigned long>(r) <= n));
  if (r > 0) g_sent += static_cast<unsigned long>(r);
  return r;
}
int getaddrinfo(const char*, const char*, const addrinfo*, addrinfo** res) {
  if (__spec_choice()) return -2;
  addrinfo* a = static_cast<addrinfo*>(::operator new(sizeof(addrinfo)));
  a->ai_addr = reinterpret_cast<sockaddr*>(::operator new(sizeof(sockaddr)));
  a->ai_addrlen = sizeof(sockaddr);
  __spec_assert(!g_info_live, "C18.address_list_freed_exactly_once");
  g_info = a; g_info_live = true; g_infos++;
  *res = a;
  return 0;
}
void freeaddrinfo(addrinfo* a) noexcept {
  __spec_assert(a == g_info && g_info_live, "C18.address_list_freed_exactly_once");
  g_info_live = false; g_frees++;
}
}
static void reset() {
  n_k = n_o = 0; g_sent = g_got = g_n = 0; g_recvd = g_held = g_info_live = false; g_sends = g_recvs = g_infos = g_frees = 0; g_timeout = 0; g_info = nullptr;
}
// the invariant of a socket: either it holds an open descriptor, or it holds none and the one it had is closed (once)
static void inv(Sh* sh, int k) {
  bool g = __spec_guard_enable(false);
  if (sh->s != -1) __spec_assert(sh->s == g_k[k].fd && g_k[k].open && g_k[k].closes == 0, "C18.held_descriptor_is_open");
  else __spec_assert(!g_k[k].open && g_k[k].closes == 1, "C18.descriptor_closed_exactly_once");
  __spec_guard_enable(g);
}
static void all_released() {
  for (int i = 0; i < n_k; i++) __spec_assert(!g_k[i].open && g_k[i].closes == 1, "C18.descriptor_closed_exactly_once");
  __spec_assert(!g_info_live, "C18.address_list_freed_exactly_once");
}
// a socket in use by several threads, open or already closed
static Sh* arbitrary() {
  reset();
  int fd = knew();
  Sh* sh = new Sh(fd);
  if (__spec_choice()) { g_k[0].open = false; g_k[0].closes = 1; sh->s = -1; }
  else g_k[0].shut = __spec_nondet_bool();
  Obj* o = obj_of(sh); o->shared = true;
  __spec_guard(&sh->s, sizeof(sh->s), &g_held);
  return sh;
}
extern "C" void harness_write() {
  Sh* sh = arbitrary();
  unsigned long n = __spec_nondet_u64(); __spec_assume(n < (1ul << 62));
  unsigned char* b = new unsigned char[n];
  __spec_fill(b, n, "D", 0);
  g_n = n;
  bool ok = sh->write(b, n);
  if (ok) { __spec_assert(g_sent == n, "C18.write_succeeds_only_if_all_bytes_were_sent"); __spec_cover("C18.write_ok"); }
  else { __spec_assert(n == 0 || g_sent < n, "C18.write_of_all_bytes_succeeds"); __spec_cover("C18.write_fails"); }
  inv(sh, 0);
}
extern "C" void harness_read() {
  Sh* sh = arbitrary();
  unsigned long n = __spec_nondet_u64(); __spec_assume(n < (1ul << 62));
  unsigned char* b = new unsigned char[n];
  g_n = n;
  unsigned long r = sh->read(b, n);
  __spec_assert(r == g_got, "C18.read_returns_what_was_received");
  unsigned long k = __spec_nondet_u64();
  if (k < r) __spec_assert(b[k] == __uf_D(k), "C18.read_returns_the_bytes_received");
  if (r) __spec_cover("C18.read"); else __spec_cover("C18.read_nothing");
  inv(sh, 0);
}
extern "C" void harness_close() {
  Sh* sh = arbitrary();
  bool was = g_k[0].open;
  sh->close();
  bool g = __spec_guard_enable(false);
  __spec_assert(sh->s == -1, "C18.close_closes");
  __spec_guard_enable(g);
  inv(sh, 0);
  if (was) __spec_cover("C18.close"); else __spec_cover("C18.close_again");
}
extern "C" void harness_isopen() {
  Sh* sh = arbitrary();
  bool was = g_k[0].open;
  bool r = sh->isOpen();
  if (r) { __spec_assert(was && !g_k[0].err, "C18.open_means_a_working_descriptor"); __spec_cover("C18.is_open"); }
  else { __spec_assert(!g_k[0].open || g_k[0].err, "C18.a_working_socket_is_open"); __spec_cover("C18.is_not_open"); }
  inv(sh, 0);
}
extern "C" void harness_destroy() {
  reset();
  Sh* sh;
  if (__spec_choice()) { int fd = knew(); sh = new Sh(fd); }
  else {
    addrinfo* a = nullptr; getaddrinfo(nullptr, nullptr, nullptr, &a); __spec_assume(a != nullptr);
    int fd = __spec_choice() ? knew() : -1;
    sh = new Sh(a, fd);
  }
  if (__spec_choice() && n_k) { g_k[0].open = false; g_k[0].closes = 1; sh->s = -1; }
  obj_of(sh);
  delete sh;
  all_released();
  __spec_assert(g_frees == g_infos, "C18.address_list_freed_exactly_once");
  __spec_cover("C18.destroyed");
}
// ---- opening --------------------------------------------------------------------------------------
extern "C" void harness_listen() {
  reset();
  {
    dap::Socket s("addr", "port");
    if (s.shared) {
      __spec_assert(n_k == 1 && g_k[0].bound && g_k[0].listening, "C18.listening_socket_is_bound_and_listening");
      inv(s.shared.get(), 0);
      __spec_cover("C18.listening");
    } else { all_released(); __spec_assert(!s.isOpen(), "C18.failed_socket_is_not_open"); __spec_assert(!s.accept(), "C18.failed_socket_accepts_nothing"); __spec_cover("C18.cannot_listen"); }
  }
  all_released();
}
extern "C" void harness_accept() {
  reset();
  {
    dap::Socket s("addr", "port");
    __spec_assume(static_cast<bool>(s.shared));
    obj_of(s.shared.get())->shared = true;       // others may close it
    int before = n_k;
    auto c = s.accept();
    if (c) {
      __spec_assert(n_k == before + 1 && g_k[before].open, "C18.accepted_connection_holds_its_descriptor");
      inv(static_cast<Sh*>(c.get()), before);
      __spec_cover("C18.accepted");
    } else { __spec_assert(n_k == before, "C18.accepted_descriptors_are_not_lost"); __spec_cover("C18.not_accepted"); }
    inv(s.shared.get(), 0);
    if (__spec_choice()) { s.close(); __spec_assert(!g_k[0].open, "C18.close_closes"); __spec_cover("C18.listener_closed"); }
    for (int i = 0; i < n_o; i++) g_o[i].shared = false;
  }
  all_released();
}
extern "C" void harness_connect() {
  reset();
  g_timeout = __spec_nondet_u32();
  {
    auto c = dap::Socket::connect("addr", "port", static_cast<uint32_t>(g_timeout));
    if (c) {
      __spec_assert(n_k == 1 && g_k[0].conn && !g_k[0].err && g_k[0].open, "C18.connected_means_connected");
      __spec_assert(!g_k[0].nonblock, "C18.connection_is_blocking");
      inv(static_cast<Sh*>(c.get()), 0);
      __spec_cover("C18.connected");
    } else { all_released(); __spec_cover("C18.not_connected"); }
  }
  all_released();
}
