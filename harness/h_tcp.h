// TCP helpers: a private block of ports per worker, sockets without Nagle delays, short and delayed transfers, raw clients
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>

#include "h_lin.h"
#include "vh.h"

#include "Distributed/TCPStore.h"
namespace htcp {
namespace dist = tinytorch::distributed;
inline volatile int& shortIo() {
  static volatile int d = 0;  // per cent of transfers cut short
  return d;
}
inline volatile int& capSleep() {
  static volatile int d = 0;
  return d;
}
struct Ports {
  int base = 0, next = 0, guard = -1;
  pid_t owner = 0;
  int take() {
    if (owner != getpid()) {  // this process reserves its own block by holding the block's first port
      owner = getpid();
      vh::Rng r((uint64_t)lin::nowNs() ^ ((uint64_t)getpid() << 32));
      for (int k = 0; k < 1000; k++) {
        guard = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        base = 10000 + 200 * (int)r.range(0, 99);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons((uint16_t)base);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (bind(guard, (sockaddr*)&a, sizeof a) == 0 && listen(guard, 1) == 0) break;
        close(guard);
      }
      next = 0;
    }
    next = next % 198 + 1;
    return base + next;
  }
};
inline uint16_t freePort() {
  static Ports p;
  for (int k = 0; k < 300; k++) {
    int port = p.take();
    int s = ::socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons((uint16_t)port);
    a.sin_addr.s_addr = INADDR_ANY;
    bool ok = bind(s, (sockaddr*)&a, sizeof a) == 0;
    close(s);
    if (ok) return (uint16_t)port;
  }
  throw vh::Fail{"harness.port", "no free port"};
}
struct Raw {
  int s = -1;
  explicit Raw(uint16_t port) {
    s = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(s, (sockaddr*)&a, sizeof a)) close(s), s = -1;
  }
  bool put(const std::string& d) const {
    size_t o = 0;
    while (o < d.size()) {
      ssize_t k = send(s, d.data() + o, d.size() - o, MSG_NOSIGNAL);
      if (k <= 0) return false;
      o += (size_t)k;
    }
    return true;
  }
  // reads up to n bytes, gives up after ms milliseconds
  std::string take(size_t n, int ms = 5000) const {
    std::string r;
    int64_t end = lin::nowNs() + ms * 1000000ll;
    while (r.size() < n) {
      int64_t left = (end - lin::nowNs()) / 1000000;
      pollfd p{s, POLLIN, 0};
      if (left <= 0 || poll(&p, 1, (int)left) <= 0) break;
      char b[4096];
      ssize_t k = recv(s, b, std::min(sizeof b, n - r.size()), 0);
      if (k <= 0) break;
      r.append(b, (size_t)k);
    }
    return r;
  }
  // abrupt end: the peer sees a reset instead of an orderly close
  void reset() {
    linger l{1, 0};
    setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    shut();
  }
  void shut() {
    if (s >= 0) close(s);
    s = -1;
  }
  ~Raw() { shut(); }
  Raw(const Raw&) = delete;
};
inline std::string u64(uint64_t v) { return std::string((const char*)&v, 8); }
inline std::string str(const std::string& k) { return u64(k.size()) + k; }
enum Cmd { C_SET, C_GET, C_ADD, C_CHECK, C_WAIT, C_DEL, C_NUM, C_REG, C_UNREG };
inline std::string cmd(int c) { return std::string(1, (char)c); }
}  // namespace htcp

// linked with --wrap for these functions
extern "C" {
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __wrap_setsockopt(int s, int level, int name, const void* v, socklen_t n) {
  if (level == SOL_SOCKET && name == SO_KEEPALIVE) {
    int one = 1;
    __real_setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  }
  return __real_setsockopt(s, level, name, v, n);
}
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __wrap_send(int s, const void* p, size_t n, int f) {
  lin::maybeDelay();
  if (n > 1 && htcp::shortIo()) {
    uint64_t x = lin::delaySeed() = vh::mix(lin::delaySeed());
    if ((int)(x % 100) < htcp::shortIo()) n = 1 + (size_t)((x >> 8) % (n - 1));
  }
  ssize_t r = __real_send(s, p, n, f);
  return r;
}
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __wrap_recv(int s, void* p, size_t n, int f) {
  if (n > 1 && htcp::shortIo()) {
    uint64_t x = lin::delaySeed() = vh::mix(lin::delaySeed());
    if ((int)(x % 100) < htcp::shortIo()) n = 1 + (size_t)((x >> 8) % (n - 1));
  }
  ssize_t r = __real_recv(s, p, n, f);
  lin::maybeDelay();
  return r;
}
int __real_nanosleep(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* t, timespec* rem) {
  timespec c = *t;
  if (htcp::capSleep() && (c.tv_sec > 0 || c.tv_nsec > 20000000)) c = {0, 20000000};
  return __real_nanosleep(&c, rem);
}
}
#define HTCP_WRAPPED 1
