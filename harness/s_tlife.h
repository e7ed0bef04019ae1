// C25: TCP store start-up, disconnects at every byte, teardown in any order and while others wait
#pragma once
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <thread>

#include "h_files.h"
#include "h_tcp.h"
namespace s_tlife {
using vh::fmt;
using vh::Rng;
typedef htcp::dist::TCPStore Store;
typedef std::chrono::milliseconds ms;

inline std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
inline std::string text(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
inline std::unique_ptr<Store> server(uint16_t port, ms timeout = ms(60000)) { return std::make_unique<Store>("127.0.0.1", port, true, false, -1, timeout); }
inline std::unique_ptr<Store> client(uint16_t port, ms timeout = ms(60000)) { return std::make_unique<Store>("127.0.0.1", port, false, false, -1, timeout); }
struct Knobs {
  Knobs(Rng& r) {
    lin::delays() = r.chance(0.4) ? 0 : (int)r.range(5, 60);
    htcp::shortIo() = r.chance(0.5) ? 0 : (int)r.range(5, 60);
    htcp::capSleep() = 1;
  }
  ~Knobs() { lin::delays() = 0, htcp::shortIo() = 0, htcp::capSleep() = 0; }
};
// ends the process with a violation if what it guards takes too long
struct Dog {
  std::atomic<bool> done{false};
  std::thread t;
  Dog(vh::Case& c, const char* sig, std::string what, int sec = 25)
      : t([this, &c, sig, what, sec] {
          int64_t end = lin::nowNs() + sec * 1000000000ll;
          while (!done.load()) {
            if (lin::nowNs() > end) {
              vh::addViol(c.suite, c.seed, sig, fmt("not finished within %d s: ", sec) + what + " | " + c.desc);
              fflush(nullptr);
              _exit(0);
            }
            usleep(2000);
          }
        }) {}
  ~Dog() {
    done = true;
    t.join();
  }
};
struct Threads {  // joined at the end of the scope, also when a check fails
  std::vector<std::thread> v;
  std::function<void()> release;
  template <typename F>
  void emplace_back(F f) { v.emplace_back(f); }
  void join() {
    for (auto& t : v)
      if (t.joinable()) t.join();
  }
  ~Threads() {
    if (release) release();
    join();
  }
};
inline size_t threads() {
  size_t n = 0;
  if (DIR* d = opendir("/proc/self/task")) {
    while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
    closedir(d);
  }
  return n;
}
// descriptors and threads must go back to what they were
struct Base {  // resources at the start; the harness's own lazily created ones exist by then
  size_t fds, ths;
  Base() {
    (void)htcp::freePort();
    std::thread([] {}).join();
    int64_t end = lin::nowNs() + 1000000000ll;
    do ths = threads();
    while (ths > idle() && lin::nowNs() < end);
    fds = hf::openFds();
  }
  static size_t idle() {
#ifdef VH_TSAN
    return 2;
#else
    return 1;
#endif
  }
};
inline void settled(vh::Case& c, const Base& base, const char* when) {
  const size_t fds = base.fds, ths = base.ths;
  int64_t end = lin::nowNs() + 20000000000ll;
  size_t f = 0, t = 0;
  while (lin::nowNs() < end) {
    f = hf::openFds(), t = threads();
    if (f <= fds && t <= ths) {
      c.obs("resources_settled");
      return;
    }
    usleep(1000);
  }
  c.fail(f > fds ? "tlife.fdLeak" : "tlife.threadLeak", fmt("%s: %zu descriptors (before: %zu), %zu threads (before: %zu)", when, f, fds, t, ths));
}
struct Req {
  std::string wire, name;
  int kind;
  std::string key;
};
static Req genReq(Rng& r, const std::string& key) {
  Req q;
  q.key = key;
  q.kind = (int)r.range(0, 6);
  std::string v(r.pick<size_t>({0, 1, 9, 200}), 'v');
  switch (q.kind) {
    case 0: q.name = "set", q.wire = htcp::cmd(htcp::C_SET) + htcp::str(key) + htcp::str(v); break;
    case 1: q.name = "add", q.wire = htcp::cmd(htcp::C_ADD) + htcp::str(key) + htcp::u64(5); break;
    case 2: q.name = "delete", q.wire = htcp::cmd(htcp::C_DEL) + htcp::str(key); break;
    case 3: q.name = "get", q.wire = htcp::cmd(htcp::C_GET) + htcp::str(r.chance(0.5) ? "keep" : "nothing"); break;
    case 4: {
      int n = (int)r.range(1, 3);
      q.name = "wait", q.wire = htcp::cmd(htcp::C_WAIT) + htcp::u64((uint64_t)n);
      for (int k = 0; k < n; k++) q.wire += htcp::str(r.chance(0.5) ? "keep" : "nothing");
      break;
    }
    case 5: q.name = "check", q.wire = htcp::cmd(htcp::C_CHECK) + htcp::u64(2) + htcp::str("keep") + htcp::str(key); break;
    default: q.name = "register", q.wire = htcp::cmd(htcp::C_REG) + (r.chance(0.5) ? htcp::cmd(htcp::C_UNREG) : "") + htcp::cmd(htcp::C_NUM);
  }
  return q;
}

// peers that vanish after any number of bytes of a request
SUITE_T(tlife_cut, 30, 100) {
  auto& r = c.rng;
  Base base;
  {
    Knobs knobs(r);
    uint16_t port = htcp::freePort();
    bool noT = r.chance(0.3);
    auto srv = server(port, noT ? Store::kNoTimeout : ms(60000));
    auto ok = client(port);
    ok->set("keep", bytes("precious"));
    std::atomic<bool> stop{false};
    std::atomic<int64_t> served{0};
    std::string trouble;
    std::thread healthy([&] {
      auto h = client(port);
      for (int k = 1; !stop.load(); k++) {
        if (h->add("healthy", 1) != k) trouble = fmt("another client's %d-th increment was lost", k);
        h->set("hk", bytes(std::to_string(k)));
        if (text(h->get("hk")) != std::to_string(k)) trouble = "another client reads back something else";
        if (!h->check({"hk", "healthy"}) || h->check({"nothing", "hk"})) trouble = "another client's check is wrong";
        if (!trouble.empty()) break;
        served++;
      }
    });
    int n = c.thorough ? 60 : 20;
    std::string msg;
    for (int k = 0; k < n && msg.empty(); k++) {
      std::string key = fmt("cut%d", k);
      Req q = genReq(r, key);
      if (q.kind == 2) ok->set(key, bytes("victim"));
      size_t cut = r.chance(0.2) ? q.wire.size() : (size_t)r.range(0, (int64_t)q.wire.size() - 1);
      int how = (int)r.range(0, 3);
      htcp::Raw raw(port);
      if (raw.s < 0) {
        msg = "a running server refused a connection";
        break;
      }
      if (r.chance(0.3)) {  // a complete exchange first
        raw.put(htcp::cmd(htcp::C_NUM));
        if (raw.take(8).size() != 8) msg = "a well-formed request got no answer";
      }
      size_t piece = r.chance(0.5) ? cut : (size_t)r.range(1, 9);
      for (size_t o = 0; o < cut; o += piece) raw.put(q.wire.substr(o, std::min(piece, cut - o)));
      if (r.chance(0.3)) usleep((useconds_t)r.range(0, 3000));
      bool whole = cut == q.wire.size();
      std::string answer;
      if (how == 0) raw.reset();
      else if (how == 1) raw.shut();
      else if (how == 2) {  // stops sending, still listens
        shutdown(raw.s, SHUT_WR);
        answer = raw.take(1, 30);
        if (!whole && !answer.empty() && q.kind != 6) msg = fmt("the server answered a %s request cut after %zu of %zu bytes", q.name.c_str(), cut, q.wire.size());
        raw.shut();
      } else {
        if (r.chance(0.5)) answer = raw.take(1, whole ? 200 : 20);
        raw.reset();
      }
      c.obs(whole ? "whole_requests" : "cut_requests");
      c.seen(q.name + fmt("/%zu/%d", cut, how));
      if (q.kind == 0 || q.kind == 1) {
        bool there = ok->check({key});
        if (!whole && there) msg = fmt("a %s request cut after %zu of %zu bytes took effect", q.name.c_str(), cut, q.wire.size());
        if (whole && !answer.empty() && !there) msg = fmt("a confirmed %s request took no effect", q.name.c_str());
      }
      if (q.kind == 2) {
        bool there = ok->check({key});
        if (!whole && !there) msg = fmt("a delete request cut after %zu of %zu bytes took effect", cut, q.wire.size());
        if (whole && !answer.empty() && there) msg = "a confirmed delete request took no effect";
      }
      if (!ok->check({"keep"}) || text(ok->get("keep")) != "precious") msg = "another key lost its value";
      if (msg.empty()) {
        int64_t before = served.load();
        if (r.chance(0.2))
          for (int w = 0; w < 20000 && served.load() == before && trouble.empty(); w++) usleep(1000);
      }
    }
    stop = true;
    healthy.join();
    if (trouble.empty() && served.load() == 0 && msg.empty()) c.obs("healthy_client_idle");
    c.obs("undisturbed_requests", (uint64_t)served.load() * 4);
    if (!trouble.empty()) c.fail("tlife.disturbed", trouble);
    if (!msg.empty()) c.fail("tlife.cut", msg);
    {
      Dog dog(c, "tlife.destructorHang", "destroying the server after cut requests");
      if (r.chance(0.5)) ok.reset();
      srv.reset();
    }
  }
  settled(c, base, "after cut requests");
}

// create, use and destroy servers and clients in any order
SUITE_T(tlife_order, 25, 110) {
  auto& r = c.rng;
  Base base;
  {
    Knobs knobs(r);
    struct Srv {
      uint16_t port;
      std::unique_ptr<Store> s;
      std::map<std::string, int64_t> ref;
    };
    std::vector<Srv> srvs;
    struct Cl {
      uint16_t port;
      std::unique_ptr<Store> s;
      bool live;  // connected to the server that now owns the port
    };
    std::vector<Cl> cls;
    auto find = [&](uint16_t port) -> Srv* {
      for (auto& s : srvs)
        if (s.port == port) return &s;
      return nullptr;
    };
    int steps = (int)r.range(6, c.thorough ? 60 : 25);
    std::string trace;
    std::vector<uint16_t> used;
    Dog dog(c, "tlife.orderHang", "a history of creations, requests and destructions", 90);
    for (int k = 0; k < steps; k++) {
      int what = (int)r.range(0, 9);
      if (what <= 1 && srvs.size() < 3) {  // a new server, perhaps on a port used before
        uint16_t port = !used.empty() && r.chance(0.5) ? r.pick(used) : htcp::freePort();
        if (find(port)) continue;
        trace += fmt(" S%u+", port % 1000);
        Srv s{port, server(port), {}};
        int64_t n = s.s->getNumKeys();
        if (n == -1 && htcp::shortIo() >= 0) {
          // the port may be in use by a connection of the harness itself; a free port must work
          bool taken = true;
          {
            int t = ::socket(AF_INET, SOCK_STREAM, 0), one = 1;
            setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
            sockaddr_in a{};
            a.sin_family = AF_INET, a.sin_port = htons(port), a.sin_addr.s_addr = INADDR_ANY;
            s.s.reset();
            taken = bind(t, (sockaddr*)&a, sizeof a) != 0;
            close(t);
          }
          if (!taken) c.fail("tlife.start", fmt("a server could not be started on a free port;%s", trace.c_str()));
          continue;
        }
        c.check(n == 0, "tlife.fresh", fmt("a new server has %lld keys;%s", (long long)n, trace.c_str()));
        used.push_back(port);
        srvs.push_back(std::move(s));
        c.obs("servers");
      } else if (what <= 4 && cls.size() < 6) {
        bool dead = r.chance(0.1);
        if (srvs.empty() && !dead) continue;
        uint16_t port = dead ? htcp::freePort() : r.pick(srvs).port;
        trace += fmt(" c%zu->%u", cls.size(), port % 1000);
        cls.push_back({port, client(port), !dead});  // refused connections are retried, then given up
        c.obs(dead ? "refused_clients" : "clients");
      } else if (what == 5 && !srvs.empty()) {
        size_t i = (size_t)r.range(0, (int64_t)srvs.size() - 1);
        trace += fmt(" S%u-", srvs[i].port % 1000);
        for (auto& x : cls)
          if (x.port == srvs[i].port) x.live = false;
        srvs.erase(srvs.begin() + (long)i);
        c.obs("servers_destroyed");
      } else if (what == 6 && !cls.empty()) {
        size_t i = (size_t)r.range(0, (int64_t)cls.size() - 1);
        trace += fmt(" c%zu-", i);
        cls.erase(cls.begin() + (long)i);
      } else if (what == 7 && !srvs.empty() && r.chance(0.5)) {  // the port is taken
        uint16_t port = r.pick(srvs).port;
        trace += fmt(" S%u!", port % 1000);
        auto second = server(port);
        int64_t n = second->getNumKeys();
        if (n != -1) {  // if it is usable at all, it talks to the running server
          c.check(n == (int64_t)find(port)->ref.size(), "tlife.secondServer", fmt("a second server on a taken port reports %lld keys;%s", (long long)n, trace.c_str()));
        }
        c.obs("taken_ports");
      } else if (!cls.empty()) {  // requests of any client
        auto& x = cls[(size_t)r.range(0, (int64_t)cls.size() - 1)];
        Srv* s = x.live ? find(x.port) : nullptr;
        std::string key = fmt("k%lld", (long long)r.range(0, 3));
        int op = (int)r.range(0, 5);
        trace += fmt(" q%d@%u%s", op, x.port % 1000, s ? "" : "(gone)");
        int64_t cur = s && s->ref.count(key) ? s->ref[key] : 0;
        if (op == 0) {
          int64_t v = x.s->add(key, 3);
          if (s) c.check(v == cur + 3, "tlife.add", fmt("add returned %lld, expected %lld;%s", (long long)v, (long long)cur + 3, trace.c_str())), s->ref[key] = v;
          else c.check(v == -1, "tlife.failedAdd", fmt("add without a server returned %lld;%s", (long long)v, trace.c_str()));
        } else if (op == 1) {
          x.s->set(key, bytes("17"));
          if (s) s->ref[key] = 17;
        } else if (op == 2 && (!s || s->ref.count(key))) {
          std::string v = text(x.s->get(key));
          c.check(v == (s ? std::to_string(cur) : ""), "tlife.get", "get returned " + v + ";" + trace);
        } else if (op == 3) {
          bool d = x.s->deleteKey(key);
          c.check(d == (s && s->ref.erase(key)), "tlife.delete", trace);
        } else if (op == 4) {
          bool d = x.s->check({key});
          c.check(d == (s && s->ref.count(key)), "tlife.check", trace);
        } else {
          int64_t n = x.s->getNumKeys();
          c.check(n == (s ? (int64_t)s->ref.size() : -1), "tlife.numKeys", fmt("%lld;%s", (long long)n, trace.c_str()));
        }
        c.obs(s ? "requests" : "requests_without_server");
      }
    }
    c.seen(trace);
    c.desc = trace;
    // the rest goes in any order
    while (!srvs.empty() || !cls.empty()) {
      if (!srvs.empty() && (cls.empty() || r.chance(0.4))) srvs.erase(srvs.begin() + r.range(0, (int64_t)srvs.size() - 1));
      else if (!cls.empty()) cls.erase(cls.begin() + r.range(0, (int64_t)cls.size() - 1));
    }
  }
  settled(c, base, "after everything was destroyed");
}

// the server goes while others wait, connect and send requests
SUITE_T(tlife_teardown, 40, 110) {
  auto& r = c.rng;
  Base base;
  {
    Knobs knobs(r);
    uint16_t port = htcp::freePort();
    bool noT = r.chance(0.5);
    auto srv = server(port, noT ? Store::kNoTimeout : ms(300000));
    int nw = (int)r.range(0, 4), nb = (int)r.range(0, 3), nc = (int)r.range(0, 2), nraw = (int)r.range(0, 3);
    bool stay = r.chance(0.5);
    c.desc = fmt("%d waiting, %d busy, %d connecting clients, %d raw; no timeout %d; clients live on %d", nw, nb, nc, nraw, noT, stay);
    Threads th;
    std::atomic<int> ready{0};
    std::atomic<bool> gone{false};
    std::mutex mu;
    std::string trouble;
    auto bad = [&](const std::string& s) {
      std::lock_guard<std::mutex> g(mu);
      trouble = s;
    };
    for (int i = 0; i < nw; i++)
      th.emplace_back([&, i, isGet = r.chance(0.5)] {
        auto s = client(port);
        ready++;
        if (isGet) {
          auto v = s->get("never");
          if (!v.empty()) bad("a get of a key that was never set returned a value");
        } else
          s->wait({"never", fmt("never%d", i)});
        if (!gone.load()) bad("a wait for a key that was never set returned although the server was there");
        if (s->getNumKeys() != -1) bad("a request to a destroyed server succeeded");
      });
    for (int i = 0; i < nb; i++)
      th.emplace_back([&, i] {
        auto s = client(port);
        ready++;
        std::string key = fmt("b%d", i);
        for (int64_t k = 1;; k++) {
          int64_t v = s->add(key, 1);
          if (v == -1) {
            if (!gone.load()) bad("a request failed although the server was there");
            break;
          }
          if (v != k) {
            bad(fmt("increment %lld returned %lld", (long long)k, (long long)v));
            break;
          }
          std::string val(1000, (char)('a' + k % 26));
          s->set(key + "s", bytes(val));
          std::string got = text(s->get(key + "s"));
          if (got != val && !got.empty()) {
            bad(fmt("a get during the teardown returned %zu wrong bytes", got.size()));
            break;
          }
          if (got.empty() && !gone.load()) bad("a get failed although the server was there");
        }
        if (stay)
          for (int k = 0; k < 3; k++)
            if (s->check({key}) || s->deleteKey(key) || !s->get(key).empty()) bad("a request to a destroyed server succeeded");
      });
    for (int i = 0; i < nc; i++)
      th.emplace_back([&] {
        ready++;
        while (!gone.load()) {
          auto s = client(port);
          if (s->add("conn", 1) == -1 && !gone.load()) bad("a new client's request failed although the server was there");
        }
      });
    std::vector<std::unique_ptr<htcp::Raw>> raws;
    for (int i = 0; i < nraw; i++) {  // stalled in the middle of a request, or not reading a big answer
      raws.push_back(std::make_unique<htcp::Raw>(port));
      if (r.chance(0.5)) {
        Req q = genReq(r, "half");
        raws.back()->put(q.wire.substr(0, (size_t)r.range(0, (int64_t)q.wire.size() - 1)));
      } else {
        raws.back()->put(htcp::cmd(htcp::C_SET) + htcp::str("big") + htcp::str(std::string(4 << 20, 'B')));
        raws.back()->take(1);
        raws.back()->put(htcp::cmd(htcp::C_GET) + htcp::str("big"));
        c.obs("stalled_answers");
      }
    }
    while (ready.load() < nw + nb + nc) usleep(200);
    if (r.chance(0.7)) usleep((useconds_t)r.range(0, 15000));
    gone = true;
    {
      Dog dog(c, "tlife.destructorHang", "destroying the server");
      srv.reset();
    }
    {
      Dog dog(c, "tlife.clientHang", "clients of a destroyed server");
      th.join();
    }
    if (!trouble.empty()) c.fail("tlife.teardown", trouble);
    c.obs("teardowns");
    c.obs("waiting_clients", (uint64_t)nw);
    // the port can be used again
    if (r.chance(0.5)) {
      raws.clear();
      auto again = server(port);
      c.check(again->getNumKeys() == 0 && again->add("x", 2) == 2, "tlife.restart", "a new server on the same port does not work");
      c.obs("restarts");
    }
    c.seen(c.desc);
  }
  settled(c, base, "after the teardown");
}

// a server that breaks off in the middle of its answer: failures are reported as failures
SUITE_T(tlife_fake, 60, 60) {
  auto& r = c.rng;
  Base base;
  {
    Knobs knobs(r);
    uint16_t port = htcp::freePort();
    int ls = ::socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET, a.sin_port = htons(port), a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(ls, (sockaddr*)&a, sizeof a) || listen(ls, 4)) throw vh::Fail{"harness.port", "cannot listen"};
    int op = (int)r.range(0, 6);
    std::string val(r.pick<size_t>({0, 1, 5, 300, 5000}), 'z');
    std::string answer;
    switch (op) {
      case 0: answer = htcp::u64(val.size()) + val; break;   // get
      case 1: answer = htcp::u64(0x0102030405060708ull); break;  // add
      case 2: answer = htcp::u64(42); break;                 // getNumKeys
      default: answer = "\1";                                // set, delete, check, wait
    }
    bool whole = r.chance(0.15);
    size_t cut = whole ? answer.size() : (size_t)r.range(0, (int64_t)answer.size() - 1);
    bool rst = r.chance(0.5);
    static const char* names[] = {"get", "add", "getNumKeys", "set", "delete", "check", "wait"};
    c.desc = fmt("%s, answer of %zu bytes cut after %zu, reset %d", names[op], answer.size(), cut, rst);
    Threads fake;
    fake.emplace_back([&] {
      int s = accept(ls, nullptr, nullptr);
      char b[4096];
      if (recv(s, b, 1, 0) != 1) return;
      (void)!send(s, "\1", 1, MSG_NOSIGNAL);  // registered
      (void)!recv(s, b, 1, 0);                // the command byte
      usleep(3000);
      pollfd p{s, POLLIN, 0};
      while (poll(&p, 1, 30) > 0)
        if (recv(s, b, sizeof b, 0) <= 0) break;
      for (size_t o = 0; o < cut;) {
        size_t n = std::min<size_t>(cut - o, 700);
        ssize_t k = send(s, answer.data() + o, n, MSG_NOSIGNAL);
        if (k <= 0) break;
        o += (size_t)k;
      }
      if (!whole && rst) {
        usleep(2000);
        linger l{1, 0};
        setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l);
      } else if (whole)
        usleep(20000);
      close(s);
    });
    {
      Dog dog(c, "tlife.clientHang", "a client whose server broke off");
      auto s = client(port);
      bool ok = true;
      std::string got;
      switch (op) {
        case 0: {
          auto v = text(s->get("k"));
          ok = v == (whole ? val : "");
          got = fmt("a value of %zu bytes", v.size());
          break;
        }
        case 1: {
          int64_t v = s->add("k", 1);
          ok = v == (whole ? 0x0102030405060708ll : -1);
          got = fmt("%llx", (long long)v);
          break;
        }
        case 2: {
          int64_t v = s->getNumKeys();
          ok = v == (whole ? 42 : -1);
          got = fmt("%lld", (long long)v);
          break;
        }
        case 3: s->set("k", bytes("v")); break;
        case 4: ok = s->deleteKey("k") == whole; break;
        case 5: ok = s->check({"k", "l"}) == whole; break;
        default: s->wait({"k", "l"});
      }
      if (!ok) c.fail("tlife.partialAnswer", fmt("%s whose answer broke off after %zu of %zu bytes returned %s", names[op], cut, answer.size(), got.c_str()));
      fake.join();
      // everything later fails cleanly
      if (!whole) c.check(s->getNumKeys() == -1 && s->add("k", 1) == -1 && s->get("k").empty() && !s->check({"k"}) && !s->deleteKey("k"), "tlife.afterBreak");
      s->wait({"k"});
      s->set("k", bytes("x"));
    }
    close(ls);
    c.obs("broken_answers");
    c.seen(c.desc);
  }
  settled(c, base, "after a broken-off answer");
}

// workers that come, stay away, or die while the server's constructor waits for them
SUITE_T(tlife_rendezvous, 8, 90) {
  auto& r = c.rng;
  Base base;
  {
    Knobs knobs(r);
    uint16_t port = htcp::freePort();
    int n = (int)r.range(2, 5), dying = (int)r.range(0, 3), T = (int)r.range(100, 600);
    c.desc = fmt("%d workers expected, %d die, timeout %d ms", n, dying, T);
    Threads th;
    for (int i = 0; i < dying; i++)
      th.emplace_back([&, rst = r.chance(0.5), reg = r.chance(0.6), d = r.range(0, 100000), x = r.range(0, 1)] {
        usleep((useconds_t)d);
        for (int k = 0; k < 20; k++) {
          htcp::Raw raw(port);
          if (raw.s < 0) {
            usleep(5000);
            continue;
          }
          if (reg) raw.put(htcp::cmd(htcp::C_REG));
          if (x) raw.take(1, 50);
          if (rst) raw.reset();
          break;
        }
      });
    std::unique_ptr<Store> srv;
    int64_t t0 = lin::nowNs();
    {
      Dog dog(c, "tlife.startHang", "the constructor that waits for workers");
      srv = std::make_unique<Store>("127.0.0.1", port, true, true, n, ms(T));
    }
    c.check(lin::nowNs() - t0 < T * 1000000ll + 15000000000ll, "tlife.startLate");
    th.join();
    c.check(srv->add("a", 1) == 1, "tlife.usable", "the server is not usable after workers died");
    {
      Dog dog(c, "tlife.destructorHang", "destroying the server");
      srv.reset();
    }
    c.obs("rendezvous");
    c.seen(c.desc);
  }
  settled(c, base, "after a rendezvous");
}
}  // namespace s_tlife
