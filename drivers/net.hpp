// In-memory replacement of the TCP socket calls.  Include in exactly one translation unit of a driver.
//
// Every fake descriptor is one end of a byte stream.  How many bytes one recv/send moves, where the stream
// ends and whether it ends orderly, with a reset or is interrupted, is decided by the driver (masks) or, with
// several virtual ranks, by explorer choices.
#pragma once
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <poll.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <string>
#include "vmpi.hpp"
namespace net {
enum Fault { NONE = 0, CLOSED = 1, RESET = 2, INTR = 3 };   // INTR: one call fails with EINTR, then it goes on
struct End {
  std::string in; size_t got = 0; bool eof = false;         // received stream, bytes consumed, peer closed
  uint64_t rmask = 0, wmask = 0;                            // bit i: a call never moves byte i and byte i+1 together
  long rfail = -1, wfail = -1; int rkind = 0, wkind = 0;    // fault when this many bytes were moved
  size_t rlimit = 0, wlimit = 0;                            // at most this many bytes per call (0: any)
  size_t sent = 0; std::string out; int peer = -1; bool isOpen = true; long rcalls = 0, wcalls = 0; bool wfailed = false;
};
struct Listener { int port = 0; std::deque<int> pending; bool listening = false; };
struct Net { std::map<int, End> ends; std::map<int, Listener> lis; int next = 300; bool concurrent = false, frag = false; int nextPort = 20000; };
static const int LO = 300, HI = 1000;
// the state lies outside of the driver's data segment, which every rank has its own copy of
inline Net*& slot() {
  Net** s = (Net**)0x630000000000ul; static bool mapped = false;
  if (!mapped) { mmap(s, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); mapped = true; }
  return *s;
}
inline Net& net() { if (!slot()) slot() = new Net(); return *slot(); }
inline void reset(bool concurrent = false, bool frag = false) { delete slot(); slot() = new Net(); net().concurrent = concurrent; net().frag = frag; }
inline bool mine(int fd) { return fd >= LO && fd < HI; }
inline int alloc() { int fd = net().next++; if (fd >= HI) vmpi::fail("harness", "out of fake descriptors"); return fd; }
inline End* end(int fd) { auto i = net().ends.find(fd); return i == net().ends.end() ? nullptr : &i->second; }
inline ssize_t err(int e) { errno = e; return -1; }
inline ssize_t doRecv(int fd, void* buf, size_t n, int flags) {
  End* e = end(fd); if (!e || !e->isOpen) return err(e ? EBADF : ENOTCONN);
  e->rcalls++;
  if (e->rcalls > 1000000) vmpi::fail("net", "a receive is repeated forever");
  if (n == 0) return 0;
  if (net().concurrent) vmpi::yieldPoint("recv");
  size_t done = 0;
  do {
    if (e->rfail >= 0 && (long)e->got >= e->rfail) {
      int k = e->rkind; if (done) return (ssize_t)done;
      if (k == INTR) { e->rfail = -1; return err(EINTR); }
      return k == RESET ? err(ECONNRESET) : 0;
    }
    if (e->in.size() == e->got && !e->eof) {
      if (!net().concurrent) vmpi::fail("net", "receives more than was sent: waits forever");
      vmpi::blockUntil([e] { return e->in.size() > e->got || e->eof || !e->isOpen; }, "recv on a network connection");
      if (!e->isOpen) return err(EBADF);
    }
    size_t k = std::min(n - done, e->in.size() - e->got);
    if (k == 0) return (ssize_t)done;
    if (e->rfail >= 0) k = std::min(k, (size_t)(e->rfail - (long)e->got));
    for (size_t i = 0; i + 1 < k && e->got + i < 64; ++i) if (e->rmask >> (e->got + i) & 1) { k = i + 1; break; }
    if (e->rlimit) k = std::min(k, e->rlimit);
    if (net().frag && k > 1 && vmpi::choose(2, 1)) k = k > 2 ? k / 2 : 1;
    memcpy((char*)buf + done, e->in.data() + e->got, k);
    if (flags & MSG_PEEK) return (ssize_t)(done + k);
    e->got += k; done += k;
  } while ((flags & MSG_WAITALL) && done < n);
  vmpi::progress();
  return (ssize_t)done;
}
inline ssize_t doSend(int fd, const void* buf, size_t n) {
  End* e = end(fd); if (!e || !e->isOpen) return err(e ? EBADF : ENOTCONN);
  e->wcalls++;
  if (e->wcalls > 1000000) vmpi::fail("net", "a send is repeated forever");
  if (net().concurrent) vmpi::yieldPoint("send");
  if (e->wfail >= 0 && (long)e->sent >= e->wfail) {
    e->wfailed = true;
    if (e->wkind == INTR) { e->wfail = -1; return err(EINTR); }
    return e->wkind == RESET ? err(ECONNRESET) : e->wkind == CLOSED ? err(EPIPE) : 0;
  }
  if (n == 0) return 0;
  End* p = e->peer >= 0 ? end(e->peer) : nullptr;
  if (e->peer >= 0 && (!p || !p->isOpen)) return err(EPIPE);
  size_t k = n;
  if (e->wfail >= 0) k = std::min(k, (size_t)(e->wfail - (long)e->sent));
  for (size_t i = 0; i + 1 < k && e->sent + i < 64; ++i) if (e->wmask >> (e->sent + i) & 1) { k = i + 1; break; }
  if (e->wlimit) k = std::min(k, e->wlimit);
  if (net().frag && k > 1 && vmpi::choose(2, 1)) k = k > 2 ? k / 2 : 1;
  if (p) p->in.append((const char*)buf, k); else e->out.append((const char*)buf, k);
  e->sent += k;
  vmpi::progress();
  return (ssize_t)k;
}
inline void shut(int fd) {
  if (End* e = end(fd)) { if (!e->isOpen) return; e->isOpen = false; if (End* p = e->peer >= 0 ? end(e->peer) : nullptr) p->eof = true; vmpi::progress(); }
  else if (net().lis.count(fd)) net().lis[fd].listening = false;
}
// descriptor of a stream whose bytes to receive are given
inline int stream(const std::string& in, bool eof = false) { int fd = alloc(); End& e = net().ends[fd]; e.in = in; e.eof = eof; return fd; }
inline int listenOn(int port) { int fd = alloc(); net().lis[fd].port = port; net().lis[fd].listening = true; return fd; }
inline bool readable(int fd) { if (End* e = end(fd)) return !e->isOpen || e->eof || e->in.size() > e->got || (e->rfail >= 0 && (long)e->got >= e->rfail); auto l = net().lis.find(fd); return l != net().lis.end() && !l->second.pending.empty(); }
}  // namespace net
extern "C" {
ssize_t recv(int fd, void* b, size_t n, int f) { if (net::mine(fd)) return net::doRecv(fd, b, n, f); static auto r = (ssize_t(*)(int, void*, size_t, int))dlsym(RTLD_NEXT, "recv"); return r(fd, b, n, f); }
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int f) { return recv(fd, b, n, f); }   // called instead with _FORTIFY_SOURCE
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
int __poll_chk(struct pollfd* p, nfds_t n, int t, size_t) { return poll(p, n, t); }
ssize_t send(int fd, const void* b, size_t n, int f) { if (net::mine(fd)) return net::doSend(fd, b, n); static auto r = (ssize_t(*)(int, const void*, size_t, int))dlsym(RTLD_NEXT, "send"); return r(fd, b, n, f); }
ssize_t read(int fd, void* b, size_t n) { if (net::mine(fd)) return net::doRecv(fd, b, n, 0); static auto r = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read"); return r(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (net::mine(fd)) return net::doSend(fd, b, n); static auto r = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); return r(fd, b, n); }
int close(int fd) { if (net::mine(fd)) { net::shut(fd); return 0; } if (fd < 0) { errno = EBADF; return -1; } static auto r = (int (*)(int))dlsym(RTLD_NEXT, "close"); return r(fd); }
int shutdown(int fd, int how) noexcept { if (net::mine(fd)) { net::shut(fd); return 0; } static auto r = (int (*)(int, int))dlsym(RTLD_NEXT, "shutdown"); return r(fd, how); }
int socket(int d, int t, int p) noexcept { if (d == AF_INET && (t & 0xf) == SOCK_STREAM) return net::alloc(); static auto r = (int (*)(int, int, int))dlsym(RTLD_NEXT, "socket"); return r(d, t, p); }
int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept {
  if (!net::mine(fd)) { static auto r = (int (*)(int, const struct sockaddr*, socklen_t))dlsym(RTLD_NEXT, "bind"); return r(fd, a, l); }
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  for (auto& x : net::net().lis) if (port && x.second.port == port && x.first != fd) { errno = EADDRINUSE; return -1; }
  net::net().lis[fd].port = port ? port : net::net().nextPort++; return 0;
}
int listen(int fd, int b) noexcept { if (net::mine(fd)) { net::net().lis[fd].listening = true; vmpi::progress(); return 0; } static auto r = (int (*)(int, int))dlsym(RTLD_NEXT, "listen"); return r(fd, b); }
int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept { if (net::mine(fd)) { auto* s = (sockaddr_in*)a; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_port = htons((uint16_t)net::net().lis[fd].port); *l = sizeof *s; return 0; } static auto r = (int (*)(int, struct sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "getsockname"); return r(fd, a, l); }
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) noexcept { if (net::mine(fd)) { if (*l >= sizeof(int)) *(int*)v = o == SO_TYPE ? SOCK_STREAM : 0; return 0; } static auto r = (int (*)(int, int, int, void*, socklen_t*))dlsym(RTLD_NEXT, "getsockopt"); return r(fd, lv, o, v, l); }
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) noexcept { if (net::mine(fd)) return 0; static auto r = (int (*)(int, int, int, const void*, socklen_t))dlsym(RTLD_NEXT, "setsockopt"); return r(fd, lv, o, v, l); }
int connect(int fd, const struct sockaddr* a, socklen_t l) {
  if (!net::mine(fd)) { static auto r = (int (*)(int, const struct sockaddr*, socklen_t))dlsym(RTLD_NEXT, "connect"); return r(fd, a, l); }
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  for (auto& x : net::net().lis) if (x.second.listening && x.second.port == port) {
    int s = net::alloc(); net::net().ends[fd].peer = s; net::net().ends[s].peer = fd; x.second.pending.push_back(s); vmpi::progress(); return 0;
  }
  errno = ECONNREFUSED; return -1;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
  if (!net::mine(fd)) { static auto r = (int (*)(int, struct sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "accept"); return r(fd, a, l); }
  auto& L = net::net().lis[fd];
  if (L.pending.empty()) { if (!net::net().concurrent) vmpi::fail("net", "accept waits forever"); auto* q = &L.pending; vmpi::blockUntil([q] { return !q->empty(); }, "accept"); }
  int s = L.pending.front(); L.pending.pop_front();
  auto* x = (sockaddr_in*)a; if (x) { memset(x, 0, sizeof *x); x->sin_family = AF_INET; x->sin_port = htons(4242); x->sin_addr.s_addr = htonl(INADDR_LOOPBACK); } if (l) *l = sizeof *x;
  return s;
}
struct hostent* gethostbyname(const char*) { static thread_local in_addr ad; static thread_local char* list[2]; static thread_local hostent h; ad.s_addr = htonl(INADDR_LOOPBACK); list[0] = (char*)&ad; list[1] = nullptr; h.h_name = (char*)"localhost"; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list; return &h; }
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
  bool any = false; for (int i = net::LO; i < n && i < FD_SETSIZE; ++i) if ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w))) any = true;
  if (!any) { static auto f = (int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*))dlsym(RTLD_NEXT, "select"); return f(n, r, w, x, tv); }
  auto ready = [=](bool mark) { int k = 0; for (int i = net::LO; i < n && i < FD_SETSIZE; ++i) { if (r && FD_ISSET(i, r)) { if (net::readable(i)) ++k; else if (mark) FD_CLR(i, r); } if (w && FD_ISSET(i, w)) ++k; } return k; };
  if (!ready(false)) {
    if (!net::net().concurrent) { if (!tv) vmpi::fail("net", "select waits forever"); }
    else if (tv) vmpi::spin("select on network connections"); else vmpi::blockUntil([=] { return ready(false) > 0; }, "select on network connections");
  }
  return ready(true);
}
int poll(struct pollfd* p, nfds_t n, int t) {
  bool any = false; for (nfds_t i = 0; i < n; ++i) any |= net::mine(p[i].fd);
  if (!any) { static auto f = (int (*)(struct pollfd*, nfds_t, int))dlsym(RTLD_NEXT, "poll"); return f(p, n, t); }
  auto ready = [=] { int k = 0; for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if ((p[i].events & POLLIN) && net::readable(p[i].fd)) p[i].revents |= POLLIN; if (p[i].events & POLLOUT) p[i].revents |= POLLOUT; k += p[i].revents != 0; } return k; };
  if (!ready()) { if (!net::net().concurrent) { if (t < 0) vmpi::fail("net", "poll waits forever"); } else if (t >= 0) vmpi::spin("poll on network connections"); else vmpi::blockUntil([=] { return ready() > 0; }, "poll on network connections"); }
  return ready();
}
}
