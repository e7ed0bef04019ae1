// C24: the TCP store under concurrent clients: linearizability of recorded histories, exact waits, exact values
#pragma once
#include <atomic>
#include <mutex>
#include <thread>

#include "h_tcp.h"
namespace s_tcp {
using lin::Op;
using vh::fmt;
using vh::Rng;
typedef htcp::dist::TCPStore Store;
typedef std::chrono::milliseconds ms;

inline std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
inline std::string text(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
inline std::unique_ptr<Store> server(uint16_t port, ms timeout = ms(60000)) { return std::make_unique<Store>("127.0.0.1", port, true, false, -1, timeout); }
inline std::unique_ptr<Store> client(uint16_t port, ms timeout = ms(60000)) { return std::make_unique<Store>("localhost", port, false, false, -1, timeout); }
struct Knobs {
  Knobs(Rng& r) {
    lin::delays() = r.chance(0.3) ? 0 : (int)r.range(5, 60);
    htcp::shortIo() = r.chance(0.4) ? 0 : (int)r.range(5, 70);
  }
  ~Knobs() { lin::delays() = 0, htcp::shortIo() = 0; }
};
// releases all threads at the same moment
struct Gate {
  std::atomic<int> waiting{0};
  std::atomic<bool> go{false};
  void enter() {
    waiting++;
    while (!go.load()) sched_yield();
  }
  void open(int n) {
    while (waiting.load() < n) sched_yield();
    go = true;
  }
};
template <typename F>
inline void timed(Op& o, F f) {
  o.inv = lin::nowNs();
  f();
  o.res = lin::nowNs();
}

// histories of a few clients on a few keys
SUITE_T(tcp_history, 20, 90) {
  auto& r = c.rng;
  int nc = (int)r.range(2, 6), nk = (int)r.range(1, 3), nops = (int)r.range(3, std::max(4, 40 / nc));
  int rounds = c.thorough ? 12 : 5;
  double pAdd = r.pick({0.0, 0.3, 0.6}), pWait = r.pick({0.0, 0.1, 0.25});
  c.desc = fmt("%d clients, %d keys, %d operations each", nc, nk, nops);
  uint16_t port = htcp::freePort();
  Knobs knobs(r);
  auto srv = server(port);
  std::vector<std::unique_ptr<Store>> cl;
  for (int i = 0; i < nc; i++) cl.push_back(client(port));
  int64_t baseKeys = srv->getNumKeys();
  c.check(baseKeys == 0, "tcp.fresh", fmt("a new server has %lld keys", (long long)baseKeys));
  for (int round = 0; round < rounds; round++) {
    std::vector<std::string> keys, counters;
    for (int k = 0; k < nk; k++) keys.push_back(fmt("r%d/k%d", round, k)), counters.push_back(fmt("r%d/n%d", round, k));
    std::vector<std::vector<Op>> hist((size_t)nc + 1);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nc; i++) seeds.push_back(r.next());
    Gate gate;
    std::vector<std::thread> th;
    for (int i = 0; i < nc; i++)
      th.emplace_back([&, i] {
        Rng q(seeds[(size_t)i]);
        Store& s = *cl[(size_t)i];
        gate.enter();
        for (int k = 0; k < nops; k++) {
          Op o;
          o.client = i;
          double u = q.unit();
          if (u < pAdd) {
            o.kind = lin::ADD, o.keys = {q.pick(counters)}, o.num = q.pick<int64_t>({1, 1, 5, -3, 1000000007ll});
            timed(o, [&] { o.result = s.add(o.keys[0], o.num); });
          } else if (u < pAdd + pWait) {
            o.kind = q.chance(0.5) ? lin::GET : lin::WAIT, o.keys = {q.pick(keys)};
            if (o.kind == lin::WAIT && q.chance(0.5)) o.keys.push_back(q.pick(q.chance(0.3) ? counters : keys));
            timed(o, [&] {
              if (o.kind == lin::GET) o.value = text(s.get(o.keys[0]));
              else s.wait(o.keys);
            });
          } else
            switch (q.range(0, 6)) {
              case 0:
              case 1:
              case 2:
                o.kind = lin::SET, o.keys = {q.pick(keys)}, o.value = fmt("v%d.%d", i, k) + std::string((size_t)q.pick({0, 0, 1, 300}), 'x');
                timed(o, [&] { s.set(o.keys[0], bytes(o.value)); });
                break;
              case 3:
                o.kind = lin::DEL, o.keys = {q.pick(q.chance(0.3) ? counters : keys)};
                timed(o, [&] { o.result = s.deleteKey(o.keys[0]); });
                break;
              case 4:
              case 5:
                o.kind = lin::CHECK, o.keys = {q.pick(keys)};
                if (q.chance(0.5)) o.keys.push_back(q.pick(q.chance(0.5) ? counters : keys));
                if (q.chance(0.05)) o.keys.clear();
                timed(o, [&] { o.result = s.check(o.keys); });
                break;
              default:
                o.kind = lin::NUM;
                timed(o, [&] { o.result = s.getNumKeys(); });
            }
          hist[(size_t)i].push_back(o);
        }
      });
    gate.open(nc);
    // a last writer satisfies whoever still waits
    std::atomic<bool> done{false};
    std::thread last([&] {
      for (int k = 0; !done.load(); k++) {
        std::this_thread::sleep_for(ms(15));
        if (done.load()) break;
        for (auto* ks : {&keys, &counters})
          for (auto& key : *ks) {
            if (hist[(size_t)nc].size() > 24) break;
            Op o;
            o.client = nc, o.kind = ks == &keys ? lin::SET : lin::ADD, o.keys = {key}, o.num = 0;
            o.value = fmt("last%d", k);
            timed(o, [&] {
              if (o.kind == lin::SET) srv->set(key, bytes(o.value));
              else o.result = srv->add(key, 0);
            });
            hist[(size_t)nc].push_back(o);
          }
      }
    });
    for (auto& t : th) t.join();
    done = true;
    last.join();
    std::vector<Op> all;
    for (auto& h : hist) all.insert(all.end(), h.begin(), h.end());
    // operations on the counters of a round start from nothing, earlier rounds left a known number of keys
    lin::State init;
    for (int64_t k = 0; k < baseKeys; k++) init[fmt("old%lld", (long long)k)] = "x";
    std::string why;
    for (auto& o : all)
      if ((o.kind == lin::GET || o.kind == lin::WAIT) && o.res - o.inv > 25000000000ll)
        c.fail("tcp.lostWakeup", fmt("%s was not woken although its keys were set", o.str().c_str()));
    c.obs("operations", all.size());
    c.obs("overlapping_pairs", lin::overlaps(all));
    if (all.size() <= 128) {
      auto v = lin::check(all, init, &why);
      if (v == lin::BAD) c.fail("tcp.linearizable", why);
      c.obs(v == lin::OK ? "histories_checked" : "histories_undecided");
    } else
      c.obs("histories_too_long");
    c.seen(lin::interleaving(all));
    baseKeys = srv->getNumKeys();
  }
}

// counters never lose an increment, and each increment returns a different total
SUITE_T(tcp_counter, 6, 90) {
  auto& r = c.rng;
  int nc = (int)r.range(2, 8), n = (int)r.range(20, c.thorough ? 600 : 150);
  c.desc = fmt("%d clients add %d times", nc, n);
  uint16_t port = htcp::freePort();
  Knobs knobs(r);
  if (r.chance(0.7)) lin::delays() = 0;
  auto srv = server(port);
  std::vector<std::thread> th;
  std::vector<std::vector<int64_t>> got((size_t)nc);
  Gate gate;
  int64_t step = r.pick<int64_t>({1, 1, 7, -2, 3000000000ll});
  for (int i = 0; i < nc; i++)
    th.emplace_back([&, i] {
      auto s = client(port);
      gate.enter();
      for (int k = 0; k < n; k++) got[(size_t)i].push_back(s->add("counter", step));
    });
  gate.open(nc);
  for (auto& t : th) t.join();
  std::vector<int64_t> all;
  for (auto& g : got) {
    for (size_t k = 1; k < g.size(); k++) c.check((g[k] - g[k - 1]) * (step > 0 ? 1 : -1) > 0, "tcp.counterOrder", "one client's totals do not advance");
    all.insert(all.end(), g.begin(), g.end());
  }
  std::sort(all.begin(), all.end());
  if (step < 0) std::reverse(all.begin(), all.end());
  for (size_t k = 0; k < all.size(); k++)
    if (all[k] != step * (int64_t)(k + 1)) c.fail("tcp.counter", fmt("the %zu-th total is %lld, expected %lld", k + 1, (long long)all[k], (long long)(step * (int64_t)(k + 1))));
  c.check(text(srv->get("counter")) == std::to_string(step * nc * n), "tcp.counterValue", "final value " + text(srv->get("counter")));
  c.obs("increments", (uint64_t)(nc * n));
  c.seen(c.desc);
}

static std::string genBytes(Rng& r, size_t n) {
  std::string s(n, 0);
  int mode = (int)r.range(0, 2);
  uint64_t x = r.next();
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) x = vh::mix(x + i);
    s[i] = mode == 0 ? (char)(x >> (i % 8 * 8)) : mode == 1 ? (char)(i % 3 == 0 ? 0 : 255) : (char)('a' + i % 26);
  }
  return s;
}
// keys and values of any bytes and length
SUITE_T(tcp_values, 8, 90) {
  auto& r = c.rng;
  uint16_t port = htcp::freePort();
  Knobs knobs(r);
  lin::delays() = 0;
  auto srv = server(port);
  auto a = client(port), b = client(port);
  std::map<std::string, std::string> ref;
  int n = (int)r.range(4, 25);
  for (int k = 0; k < n; k++) {
    size_t kl = (size_t)r.pick<int64_t>({0, 1, 2, 7, 255, 256, 257, 4096, r.range(1, 70000)});
    std::string key = genBytes(r, kl);
    if (!ref.empty() && r.chance(0.4)) {
      key = std::next(ref.begin(), r.range(0, (int64_t)ref.size() - 1))->first;
      if (r.chance(0.4)) key += r.pick<char>({'\0', 'x', '/', ' '});
    }
    size_t vl = (size_t)r.pick<int64_t>({0, 0, 1, 2, 255, 256, 65535, 65536, r.range(1, 5000), r.range(1, c.thorough ? 8000000 : 900000)});
    if (htcp::shortIo() > 40) vl = std::min<size_t>(vl, 20000);
    std::string val = genBytes(r, vl);
    Store& w = r.chance(0.5) ? *a : *b;
    Store& q = r.chance(0.5) ? *a : *b;
    switch (r.range(0, 5)) {
      case 0: {
        bool had = ref.erase(key) > 0;
        c.check(w.deleteKey(key) == had, "tcp.delete", fmt("deleteKey of a key that %s", had ? "exists" : "does not exist"));
        c.check(!q.check({key}), "tcp.deleted", "a deleted key exists");
        break;
      }
      default:
        if (r.chance(0.3)) w.tinytorch::distributed::Store::set(key, val);
        else w.set(key, bytes(val));
        ref[key] = val;
    }
    for (auto& [k2, v2] : ref)
      if (k2 == key || r.chance(0.2)) {
        bool asStr = r.chance(0.3);
        std::string got = asStr ? q.getString(k2) : text(q.get(k2));
        if (got != v2) {
          size_t p = 0;
          while (p < got.size() && p < v2.size() && got[p] == v2[p]) p++;
          c.fail("tcp.value", fmt("a value of %zu bytes under a key of %zu bytes came back with %zu bytes, first difference at %zu", v2.size(), k2.size(), got.size(), p));
        }
        c.check(w.check({k2}), "tcp.check", "a key that was set does not exist");
        c.obs("values");
        c.obs("value_bytes", v2.size());
      }
    c.check(q.getNumKeys() == (int64_t)ref.size(), "tcp.numKeys", fmt("%lld keys, expected %zu", (long long)q.getNumKeys(), ref.size()));
    std::vector<std::string> some;
    bool all = true;
    for (int64_t j = r.range(0, 4); j > 0; j--) {
      std::string k2 = !ref.empty() && r.chance(0.8) ? std::next(ref.begin(), r.range(0, (int64_t)ref.size() - 1))->first : genBytes(r, 5) + "?";
      all = all && ref.count(k2);
      some.push_back(k2);
    }
    c.check(q.check(some) == all, "tcp.checkMany", fmt("check of %zu keys is not %d", some.size(), all));
    c.seen(fmt("%zu/%zu", kl, vl));
  }
}

// blocked readers are woken exactly when all their keys exist
SUITE_T(tcp_waiters, 12, 100) {
  auto& r = c.rng;
  uint16_t port = htcp::freePort();
  Knobs knobs(r);
  int nw = (int)r.range(1, 6), nk = (int)r.range(1, 4);
  bool noTimeout = r.chance(0.3);
  auto srv = server(port, noTimeout ? Store::kNoTimeout : ms(60000));
  auto w = client(port);
  bool counters = r.chance(0.3);
  struct Waiter {
    std::vector<std::string> keys;
    bool isGet;
    int64_t inv = 0, res = 0;
    std::string value;
  };
  std::vector<Waiter> ws((size_t)nw);
  for (auto& x : ws) {
    x.isGet = r.chance(0.4);
    int m = x.isGet ? 1 : (int)r.range(1, nk + 1);
    for (int k = 0; k < m; k++) x.keys.push_back(fmt("k%lld", (long long)r.range(0, nk - 1)));  // may repeat
  }
  c.desc = fmt("%d waiters, %d keys, no timeout %d, counters %d", nw, nk, noTimeout, counters);
  std::vector<std::thread> th;
  std::atomic<int> started{0}, finished{0};
  for (int i = 0; i < nw; i++)
    th.emplace_back([&, i] {
      auto s = client(port);
      auto& x = ws[(size_t)i];
      started++;
      x.inv = lin::nowNs();
      if (x.isGet) x.value = text(s->get(x.keys[0]));
      else s->wait(x.keys);
      x.res = lin::nowNs();
      finished++;
    });
  std::vector<int> order;
  for (int k = 0; k < nk; k++) order.push_back(k);
  r.shuffle(order);
  if (r.chance(0.7))
    while (started.load() < nw) sched_yield();
  std::map<std::string, std::pair<int64_t, int64_t>> setAt;  // key -> (before the call, after it)
  bool churn = r.chance(0.6);
  std::vector<bool> isSet((size_t)nk);
  for (int k : order) {
    if (r.chance(0.6)) usleep((useconds_t)r.range(0, 4000));
    if (churn)  // changes that satisfy nobody
      for (int64_t j = r.range(0, 3); j > 0; j--) {
        w->set("other", bytes("x"));
        w->add("count", 1);
        if (r.chance(0.5)) (void)w->deleteKey("other");
      }
    std::string key = fmt("k%d", k);
    int64_t t0 = lin::nowNs();
    if (counters) (void)w->add(key, k + 1);
    else w->set(key, bytes(std::to_string(k + 1)));
    setAt[key] = {t0, lin::nowNs()};
  }
  // everything they wait for exists now; nobody may sleep until the timeout
  int64_t end = lin::nowNs() + 25000000000ll;
  while (finished.load() < nw && lin::nowNs() < end) usleep(500);
  if (finished.load() < nw) {
    std::string s;
    for (auto& x : ws)
      if (!x.res) {
        s += x.isGet ? " get(" : " wait(";
        for (auto& k : x.keys) s += k + " ";
        s += ")";
      }
    vh::addViol(c.suite, c.seed, "tcp.lostWakeup", "not woken within 25 s although all keys exist:" + s + " | " + c.desc);
    fflush(nullptr);
    _exit(0);
  }
  for (auto& t : th) t.join();
  for (auto& x : ws) {
    int64_t ready = 0;
    for (auto& k : x.keys) ready = std::max(ready, setAt[k].first);
    if (x.res < ready) c.fail("tcp.earlyWake", fmt("a %s returned %lld us before its last key was set", x.isGet ? "get" : "wait", (long long)(ready - x.res) / 1000));
    if (x.isGet) c.check("k" + std::to_string(atoi(x.value.c_str()) - 1) == x.keys[0], "tcp.getValue", "get(" + x.keys[0] + ") returned " + x.value);
    c.obs(x.inv < ready ? "waiters_blocked" : "waiters_late");
  }
  c.seen(vh::mix(r.next()));
}

// failures come with the timeout, not before and not much later, whatever else happens; the connection stays usable
SUITE_T(tcp_timeouts, 4, 100) {
  auto& r = c.rng;
  uint16_t port = htcp::freePort();
  int T = (int)r.range(150, 500);
  auto srv = server(port, ms(T));
  auto s = client(port, ms(T)), w = client(port, ms(T));
  bool isGet = r.chance(0.5), churn = r.chance(0.7), deleted = r.chance(0.3);
  std::vector<std::string> keys{"missing"};
  if (!isGet && r.chance(0.6)) keys.insert(keys.begin() + r.range(0, 1), "present");
  c.desc = fmt("timeout %d ms, %s, churn %d, deleted before %d, %zu keys", T, isGet ? "get" : "wait", churn, deleted, keys.size());
  if (deleted) {
    s->set("missing", bytes("gone"));
    c.check(w->deleteKey("missing"), "tcp.delete");
  }
  if (!churn) w->set("present", bytes("1"));
  std::atomic<bool> stop{false};
  std::thread th([&] {
    while (churn && !stop.load()) {
      w->set("present", bytes("1"));
      w->add("missin", 1);
      (void)w->deleteKey("present");
      usleep(3000);
    }
  });
  int64_t t0 = lin::nowNs();
  std::string got = "?";
  std::thread guard([&] {  // a call that outlives its timeout is released after a while
    for (int k = 0; k < 200 && !stop.load(); k++) usleep(100000);
    if (!stop.load()) {
      auto e = client(port, ms(T));
      e->set("present", bytes("late"));
      e->set("missing", bytes("late"));
    }
  });
  if (isGet) got = text(s->get("missing"));
  else s->wait(keys);
  double el = (double)(lin::nowNs() - t0) / 1e6;
  stop = true;
  th.join();
  guard.join();
  if (el < T * 0.98) c.fail("tcp.earlyTimeout", fmt("failed after %.1f ms, the timeout is %d ms", el, T));
  if (el > T + 8000) c.fail("tcp.lateTimeout", fmt("failed after %.1f ms, the timeout is %d ms", el, T));
  if (isGet) c.check(got.empty(), "tcp.timeoutValue", "a get that failed returned " + got.substr(0, 50));
  c.obs("timeouts");
  // the same connections still answer correctly
  s->set("after", bytes("ok"));
  c.check(text(s->get("after")) == "ok" && s->add("n", 4) == 4 && w->add("n", 2) == 6 && s->check({"after"}) && !w->check({"missing"}), "tcp.afterTimeout");
  // and a later set still wakes a new waiter
  std::thread t2([&] { usleep(20000), w->set("missing", bytes("now")); });
  std::string v = text(s->get("missing"));
  t2.join();
  if (v != "now") c.obs("second_get_timed_out");
  c.seen(c.desc);
}

// a writer keeps at most one of the keys alive at any time: no check or wait may ever see two, no count may be off
SUITE_T(tcp_atomic, 8, 60) {
  auto& r = c.rng;
  uint16_t port = htcp::freePort();
  Knobs knobs(r);
  bool waits = r.chance(0.3);
  auto srv = server(port, waits ? ms(150) : ms(60000));
  auto w = client(port), s = client(port);
  int nk = (int)r.range(2, 4), moves = c.thorough ? 400 : 150;
  std::vector<std::string> keys;
  for (int k = 0; k < nk; k++) keys.push_back(fmt("a%d", k));
  w->set("stays", bytes("x"));
  std::atomic<bool> stop{false};
  std::thread th([&] {
    for (int k = 0; k < moves || (waits && !stop.load()); k++) {
      if (k % 3) w->set(keys[(size_t)(k % nk)], bytes("token"));
      else (void)w->add(keys[(size_t)(k % nk)], 1);
      (void)w->deleteKey(keys[(size_t)(k % nk)]);
    }
    stop = true;
  });
  std::string bad;
  uint64_t n = 0;
  while (!stop.load() && bad.empty()) {
    std::vector<std::string> q = keys;
    r.shuffle(q);
    q.resize((size_t)r.range(2, nk));
    if (r.chance(0.5)) q.insert(q.begin() + r.range(0, (int64_t)q.size()), "stays");
    if (waits) {
      int64_t t0 = lin::nowNs();
      s->wait(q);
      if (lin::nowNs() - t0 < 145000000) bad = fmt("wait for %zu keys ended after %lld us although at most one of them exists at any time", q.size(), (long long)(lin::nowNs() - t0) / 1000);
      stop = true;
      c.obs("timeouts");
    }
    if (s->check(q)) bad = fmt("check of %zu keys is true although at most one of them exists at any time", q.size());
    int64_t m = s->getNumKeys();
    if (m != 1 && m != 2) bad = fmt("getNumKeys is %lld, there are always one or two keys", (long long)m);
    if (!s->check({"stays"})) bad = "a key that is never touched is missing";
    n++;
  }
  stop = true;
  th.join();
  if (!bad.empty()) c.fail("tcp.atomicCheck", bad);
  c.obs("multi_key_checks", n);
  c.seen(vh::mix(r.next()));
}

// the server's constructor waits for its workers
SUITE_T(tcp_workers, 4, 100) {
  auto& r = c.rng;
  uint16_t port = htcp::freePort();
  int n = (int)r.range(1, 5);
  bool tooFew = n > 1 && r.chance(0.25);
  int T = tooFew ? 400 : 60000;
  bool noT = !tooFew && r.chance(0.3);
  c.desc = fmt("server waits for %d workers, too few %d, no timeout %d", n, tooFew, noT);
  std::vector<std::thread> th;
  std::vector<int64_t> begun((size_t)n, INT64_MAX);
  std::atomic<bool> ready{false};
  int64_t t0 = lin::nowNs();
  std::atomic<int> live{0};
  htcp::capSleep() = 1;
  for (int i = 1; i < n - (tooFew ? 1 : 0); i++)
    th.emplace_back([&, i, d = r.range(0, 30000)] {
      usleep((useconds_t)d);
      begun[(size_t)i] = lin::nowNs();
      auto s = client(port);  // retries until the server is there
      s->add("hello", 1);
      live++;
      while (!ready.load()) usleep(300);
    });
  auto srv = std::make_unique<Store>("127.0.0.1", port, true, true, n, noT ? Store::kNoTimeout : ms(T));
  int64_t t1 = lin::nowNs();
  if (tooFew) {
    double el = (double)(t1 - t0) / 1e6;
    if (el < T * 0.98) c.fail("tcp.workersEarly", fmt("the server gave up after %.1f ms, the timeout is %d ms", el, T));
  } else {
    for (int i = 1; i < n; i++)
      if (begun[(size_t)i] > t1) c.fail("tcp.workersEarly", fmt("the server's constructor returned before worker %d connected", i));
    if (t1 - t0 > 40000000000ll) c.fail("tcp.workersLate", "the server's constructor timed out although all workers came");
  }
  int64_t end = lin::nowNs() + 30000000000ll;
  while (live.load() < (int)th.size() && lin::nowNs() < end) usleep(300);
  c.check(srv->add("hello", 0) == (int64_t)th.size(), "tcp.workersUsable", "a worker's increment is missing");
  ready = true;
  for (auto& t : th) t.join();
  htcp::capSleep() = 0;
  c.obs(tooFew ? "starts_timed_out" : "starts");
  c.seen(c.desc);
}
}  // namespace s_tcp
