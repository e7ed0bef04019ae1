// C26: the file store under concurrent processes and threads: linearizability of recorded histories, exact values, waits
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>

#include <atomic>
#include <map>
#include <memory>
#include <thread>

#include "Distributed/FileStore.h"
#include "h_files.h"
#include "h_lin.h"
#include "vh.h"
namespace s_fstore {
using lin::Op;
using vh::fmt;
using vh::Rng;
namespace dist = tinytorch::distributed;
typedef std::chrono::milliseconds ms;
struct Store : dist::FileStore {
  explicit Store(const std::string& p, ms t = ms(60000)) : dist::FileStore(p) { timeout_ = t; }
};
inline std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
inline std::string text(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
// the value with a given number: its length and contents follow from the number
inline std::string valueOf(uint32_t id) {
  static const size_t lens[] = {0, 1, 7, 300, 4096, 5000, 20000};
  std::string s(id % 13 == 0 ? 0 : lens[1 + id % 6], 0);
  for (size_t i = 0; i < s.size(); i++) s[i] = (char)(vh::mix(id * 1000003ull + i / 8) >> (i % 8 * 8));
  return s;
}
constexpr size_t kMaxOps = 2048;
struct Rec {
  int kind, client, key, key2;
  uint32_t valueId;
  int64_t num, result, inv, res, readLen, readNum;
  uint64_t readHash;
};
struct Shared {
  std::atomic<uint32_t> n, ready, go, done;
  std::atomic<uint32_t> wrong;
  Rec r[kMaxOps];
};
struct Map {
  Shared* s;
  Map() {
    s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) throw vh::Fail{"harness.mmap", "mmap"};
  }
  ~Map() { munmap(s, sizeof(Shared)); }
};
// keys 0..nk-1 are values, nk..2nk-1 counters
inline std::string keyName(int k, int nk) { return k < nk ? fmt("k%d", k) : fmt("n%d", k - nk); }
struct Mix {
  int nk, nops;
  double pAdd, pWait, pNum;
};
inline void clientLoop(Shared* sh, Store& s, int client, uint64_t seed, const Mix& m) {
  Rng q(seed);
  sh->ready++;
  while (!sh->go.load()) sched_yield();
  for (int k = 0; k < m.nops; k++) {
    Rec o{};
    o.client = client, o.key = (int)q.range(0, m.nk - 1), o.key2 = -1;
    double u = q.unit();
    std::string got;
    auto timed = [&](auto f) {
      o.inv = lin::nowNs();
      f();
      o.res = lin::nowNs();
    };
    if (u < m.pAdd) {
      o.kind = lin::ADD, o.key += m.nk, o.num = q.pick<int64_t>({1, 1, 5, -3, 1000000007ll});
      timed([&] { o.result = s.add(keyName(o.key, m.nk), o.num); });
    } else if (u < m.pAdd + m.pWait) {
      o.kind = q.chance(0.6) ? lin::GET : lin::WAIT;
      if (o.kind == lin::WAIT && q.chance(0.5)) o.key2 = (int)q.range(0, q.chance(0.3) ? 2 * m.nk - 1 : m.nk - 1);
      if (o.kind == lin::GET) timed([&] { got = text(s.get(keyName(o.key, m.nk))); });
      else {
        std::vector<std::string> ks{keyName(o.key, m.nk)};
        if (o.key2 >= 0) ks.push_back(keyName(o.key2, m.nk));
        timed([&] { s.wait(ks); });
      }
    } else
      switch (q.range(0, 7)) {
        case 0:
        case 1:
        case 2:
        case 3:
          o.kind = lin::SET, o.valueId = (uint32_t)(client * 1000 + k + 1);
          {
            std::string v = valueOf(o.valueId);
            timed([&] { s.set(keyName(o.key, m.nk), bytes(v)); });
          }
          break;
        case 4:
          o.kind = lin::DEL;
          if (q.chance(0.3)) o.key += m.nk;
          timed([&] { o.result = s.deleteKey(keyName(o.key, m.nk)); });
          break;
        case 5:
        case 6: {
          o.kind = lin::CHECK;
          if (q.chance(0.5)) o.key2 = (int)q.range(0, 2 * m.nk - 1);
          std::vector<std::string> ks{keyName(o.key, m.nk)};
          if (o.key2 >= 0) ks.push_back(keyName(o.key2, m.nk));
          timed([&] { o.result = s.check(ks); });
          break;
        }
        default:
          if (q.chance(m.pNum)) {
            o.kind = lin::NUM;
            timed([&] { o.result = s.getNumKeys(); });
          } else {
            o.kind = lin::CHECK;
            timed([&] { o.result = s.check({keyName(o.key, m.nk)}); });
          }
      }
    if (o.kind == lin::GET) o.readLen = (int64_t)got.size(), o.readHash = vh::hashBytes(got.data(), got.size(), 7);
    uint32_t at = sh->n++;
    if (at < kMaxOps) sh->r[at] = o;
  }
  sh->done++;
}
// starts np processes with nt threads each; returns false if a process ended abnormally
struct Crew {
  Shared* sh;
  std::vector<pid_t> pids;
  std::vector<std::thread> th;
  std::vector<std::unique_ptr<Store>> stores;
  std::string trouble;
  Crew(Shared* sh, const std::string& dir, int np, int nt, bool ownStore, bool inThreads, Rng& r, const Mix& m, ms timeout) : sh(sh) {
    std::vector<uint64_t> seeds;
    for (int i = 0; i < np * nt; i++) seeds.push_back(r.next());
    auto runThreads = [&](int p, std::vector<std::thread>& out, std::vector<std::unique_ptr<Store>>& st) {
      for (int t = 0; t < nt; t++) {
        if (t == 0 || ownStore) st.push_back(std::make_unique<Store>(dir, timeout));
        Store* s = st.back().get();
        out.emplace_back([=] { clientLoop(sh, *s, p * nt + t, seeds[(size_t)(p * nt + t)], m); });
      }
    };
    if (inThreads) {
      for (int p = 0; p < np; p++) runThreads(p, th, stores);
      return;
    }
    for (int p = 0; p < np; p++) {
      pid_t pid = fork();
      if (pid < 0) throw vh::Fail{"harness.fork", "fork"};
      if (pid == 0) {
        std::vector<std::thread> t;
        std::vector<std::unique_ptr<Store>> st;
        runThreads(p, t, st);
        for (auto& x : t) x.join();
        st.clear();
        _exit(0);
      }
      pids.push_back(pid);
    }
  }
  void join() {
    for (auto p : pids) {
      int status = 0;
      waitpid(p, &status, 0);
      if (!WIFEXITED(status) || WEXITSTATUS(status)) trouble = fmt("a client process ended with status %x", status);
    }
    pids.clear();
    for (auto& t : th) t.join();
    th.clear();
  }
  ~Crew() {
    for (auto p : pids) kill(p, SIGKILL);
    join();
  }
};
struct Knobs {
  explicit Knobs(Rng& r) { lin::delays() = r.chance(0.2) ? 0 : (int)r.range(3, 50); }
  ~Knobs() { lin::delays() = 0; }
};
static std::string storeDir(Rng& r, const hf::Scratch& sc, bool create) {
  std::string d = sc.dir + "/store";
  if (create) mkdir(d.c_str(), 0755);
  return d + r.pick<const char*>({"", "", "/", "//"});
}

SUITE_T(fs_history, 25, 100) {
  auto& r = c.rng;
  hf::Scratch sc;
  std::string dir = storeDir(r, sc, r.chance(0.3));
  Knobs knobs(r);
#ifdef VH_TSAN
  bool inThreads = true;
#else
  bool inThreads = r.chance(0.3);
#endif
  int nt = (int)r.pick<int64_t>({1, 1, 2, 3}), np = (int)r.range(nt == 1 ? 2 : 1, nt == 1 ? 5 : 3);
  int nc = np * nt;
  Mix m;
  m.nk = (int)r.range(1, 3), m.nops = (int)r.range(3, std::max(4, 44 / nc));
  m.pAdd = r.pick({0.0, 0.3, 0.6}), m.pWait = r.pick({0.1, 0.2, 0.3}), m.pNum = 1;
  bool own = r.chance(0.6);
  c.desc = fmt("%d %s x %d threads, %d keys, %d operations each, own stores %d", np, inThreads ? "groups" : "processes", nt, m.nk, m.nops, own);
  lin::State state;
  auto parent = std::make_unique<Store>(dir);
  int rounds = c.thorough ? 6 : 3;
  for (int round = 0; round < rounds; round++) {
    Map map;
    Shared* sh = map.s;
    std::vector<Op> all;
    std::string trouble;
    {
      Crew crew(sh, dir, np, nt, own, inThreads, r, m, r.chance(0.3) ? dist::Store::kNoTimeout : ms(60000));
      while (sh->ready.load() < (uint32_t)nc) sched_yield();
      sh->go = 1;
      // a last writer satisfies whoever still waits
      int64_t t0 = lin::nowNs();
      uint32_t last = 0;
      for (int k = 0; sh->done.load() < (uint32_t)nc; k++) {
        usleep(k < 20 ? 1000 : 15000);
        if (sh->done.load() >= (uint32_t)nc || k < 20 || lin::nowNs() - t0 < 40000000ll) continue;
        if (lin::nowNs() - t0 > 60000000000ll) break;
        for (int key = 0; key < 2 * m.nk && last < 30; key++, last++) {
          Op o;
          o.client = nc, o.keys = {keyName(key, m.nk)};
          o.kind = key < m.nk ? lin::SET : lin::ADD;
          uint32_t id = 900000 + last;
          o.value = key < m.nk ? fmt("#%u", id) : "";
          std::string v = valueOf(id);
          o.inv = lin::nowNs();
          if (key < m.nk) parent->set(o.keys[0], bytes(v));
          else o.result = parent->add(o.keys[0], 0);
          o.res = lin::nowNs();
          all.push_back(o);
        }
      }
      if (sh->done.load() >= (uint32_t)nc) crew.join();
      trouble = crew.trouble;
    }
    if (!trouble.empty()) c.fail("fs.process", trouble);
    size_t n = sh->n.load();
    if (n != (size_t)(nc * m.nops)) c.fail("fs.stuck", fmt("only %zu of %d operations finished", n, nc * m.nops));
    // which value a reader saw
    std::map<std::pair<int64_t, uint64_t>, std::string> known;
    auto know = [&](const std::string& name, const std::string& v) { known[{(int64_t)v.size(), vh::hashBytes(v.data(), v.size(), 7)}] = name; };
    for (size_t i = 0; i < n; i++)
      if (sh->r[i].kind == lin::SET) know(fmt("#%u", sh->r[i].valueId), valueOf(sh->r[i].valueId));
    for (auto& o : all)
      if (o.kind == lin::SET) know(o.value, valueOf((uint32_t)atoi(o.value.c_str() + 1)));
    for (auto& [k, v] : state)
      if (v[0] == '#') know(v, valueOf((uint32_t)atoi(v.c_str() + 1)));
    // all empty values are the same value
    auto canon = [&](const std::string& name) { return name[0] == '#' && valueOf((uint32_t)atoi(name.c_str() + 1)).empty() ? std::string("#empty") : name; };
    for (auto& o : all) o.value = canon(o.value);
    for (size_t i = 0; i < n; i++) {
      auto& x = sh->r[i];
      Op o;
      o.kind = x.kind, o.client = x.client, o.num = x.num, o.result = x.result, o.inv = x.inv, o.res = x.res;
      o.keys = {keyName(x.key, m.nk)};
      if (x.key2 >= 0) o.keys.push_back(keyName(x.key2, m.nk));
      if (x.kind == lin::SET) o.value = canon(fmt("#%u", x.valueId));
      if (x.kind == lin::GET) {
        auto it = known.find({x.readLen, x.readHash});
        if (it == known.end()) c.fail("fs.tornValue", fmt("%s returned %lld bytes that nobody wrote", o.str().c_str(), (long long)x.readLen));
        o.value = canon(it->second);
      }
      if ((o.kind == lin::GET || o.kind == lin::WAIT) && o.res - o.inv > 40000000000ll)
        c.fail("fs.lateWake", o.str() + " took that long although its keys were set");
      all.push_back(o);
    }
    lin::State init = state;
    for (auto& [k, v] : init)
      if (v[0] == '#') v = canon(v);
    c.obs("operations", all.size());
    c.obs("overlapping_pairs", lin::overlaps(all));
    std::string why;
    if (all.size() <= 128) {
      auto v = lin::check(all, init, &why);
      if (v == lin::BAD) c.fail("fs.linearizable", why);
      c.obs(v == lin::OK ? "histories_checked" : "histories_undecided");
    } else
      c.obs("histories_too_long");
    c.seen(lin::interleaving(all));
    // the quiescent state is the start of the next round
    state.clear();
    for (int k = 0; k < 2 * m.nk; k++)
      if (parent->check({keyName(k, m.nk)})) {
        std::string v = text(parent->get(keyName(k, m.nk)));
        if (k < m.nk) {
          know("#empty", "");
          auto it = known.find({(int64_t)v.size(), vh::hashBytes(v.data(), v.size(), 7)});
          if (it == known.end()) c.fail("fs.tornValue", fmt("key %s is left with %zu bytes that nobody wrote", keyName(k, m.nk).c_str(), v.size()));
          state[keyName(k, m.nk)] = v.empty() ? fmt("#%u", 13u) : it->second;
        } else
          state[keyName(k, m.nk)] = v;
      }
    if (parent->getNumKeys() != (int64_t)state.size()) c.fail("fs.numKeys", fmt("%lld keys, expected %zu", (long long)parent->getNumKeys(), state.size()));
  }
}

// counters across processes never lose an increment
SUITE_T(fs_counter, 6, 100) {
  auto& r = c.rng;
  hf::Scratch sc;
  std::string dir = storeDir(r, sc, r.chance(0.3));
  Knobs knobs(r);
  int np = (int)r.range(2, 6), n = (int)r.range(10, c.thorough ? 300 : 80);
  int64_t step = r.pick<int64_t>({1, 1, 7, -2, 3000000000ll});
  c.desc = fmt("%d clients add %lld %d times", np, (long long)step, n);
  Map map;
  Shared* sh = map.s;
  std::vector<pid_t> pids;
  std::vector<std::thread> th;
  n = std::min<int>(n, (int)kMaxOps / np);
  auto work = [&](int p) {
    Store s(dir);
    sh->ready++;
    while (!sh->go.load()) sched_yield();
    for (int k = 0; k < n; k++) sh->r[p * n + k].result = s.add("counter", step);
  };
#ifdef VH_TSAN
  bool threads = true;
#else
  bool threads = r.chance(0.3);
#endif
  for (int p = 0; p < np; p++) {
    if (threads) {
      th.emplace_back([&, p] { work(p); });
      continue;
    }
    pid_t pid = fork();
    if (pid == 0) {
      work(p);
      _exit(0);
    }
    pids.push_back(pid);
  }
  while (sh->ready.load() < (uint32_t)np) sched_yield();
  sh->go = 1;
  for (auto& t : th) t.join();
  for (auto p : pids) {
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("fs.process", fmt("a client process ended with status %x", st));
  }
  std::vector<int64_t> all;
  for (int p = 0; p < np; p++)
    for (int k = 0; k < n; k++) {
      int64_t v = sh->r[p * n + k].result;
      if (k) c.check((v - sh->r[p * n + k - 1].result) * (step > 0 ? 1 : -1) > 0, "fs.counterOrder", "one client's totals do not advance");
      all.push_back(v);
    }
  std::sort(all.begin(), all.end());
  if (step < 0) std::reverse(all.begin(), all.end());
  for (size_t k = 0; k < all.size(); k++)
    if (all[k] != step * (int64_t)(k + 1)) c.fail("fs.counter", fmt("the %zu-th total is %lld, expected %lld", k + 1, (long long)all[k], (long long)(step * (int64_t)(k + 1))));
  Store s(dir);
  c.check(s.getString("counter") == std::to_string(step * np * n), "fs.counterValue", "final value " + s.getString("counter"));
  c.obs("increments", (uint64_t)(np * n));
  c.seen(c.desc);
}

static std::string genKey(Rng& r) {
  switch (r.range(0, 7)) {
    case 0: return r.pick<const char*>({".lock", "a.lock", "store.lock", ".k", "...", "-", " ", "~", "a b", "*", "%s%n", "\n", "\xc3\xa9", "\xff\xfe"});
    case 1: return fmt("k%lld", (long long)r.range(0, 3));
    case 2: return std::string((size_t)r.range(1, 200), (char)('a' + r.range(0, 25)));
    default: {
      std::string s((size_t)r.range(1, 12), 0);
      for (auto& ch : s) do ch = (char)r.range(1, 255); while (ch == '/');
      return s == "." || s == ".." ? "x" : s;
    }
  }
}
// sequential model check with keys and values of any bytes, over several stores and directories
SUITE_T(fs_values, 10, 90) {
  auto& r = c.rng;
  hf::Scratch sc;
  size_t fds = hf::openFds();
  int nd = (int)r.range(1, 3);
  std::vector<std::string> dirs;
  for (int i = 0; i < nd; i++) dirs.push_back(sc.dir + r.pick<const char*>({"/s", "/s s", "/deep/er", "/s.x"}) + std::to_string(i));
  mkdir((sc.dir + "/deep").c_str(), 0755);
  std::vector<std::map<std::string, std::string>> ref((size_t)nd);
  auto open = [&](size_t i) { return std::make_unique<Store>(dirs[i] + r.pick<const char*>({"", "", "/", "///"}), ms(60)); };
  std::vector<std::unique_ptr<Store>> st;
  for (size_t i = 0; i < (size_t)nd; i++) st.push_back(open(i));
  std::string trace;
  int steps = (int)r.range(10, c.thorough ? 120 : 60);
  for (int k = 0; k < steps; k++) {
    size_t i = (size_t)r.range(0, nd - 1);
    auto& m = ref[i];
    if (r.chance(0.1)) st[i] = open(i);  // contents outlive the object
    Store& s = *st[i];
    std::string key = !m.empty() && r.chance(0.5) ? std::next(m.begin(), r.range(0, (int64_t)m.size() - 1))->first : genKey(r);
    switch (r.range(0, 6)) {
      case 0:
      case 1:
      case 2: {
        size_t n = (size_t)r.pick<int64_t>({0, 1, 2, 63, 64, 255, 4095, 4096, 4097, 8192, r.range(0, 300000)});
        std::string v(n, 0);
        uint64_t x = r.next();
        for (size_t j = 0; j < n; j++) v[j] = (char)(vh::mix(x + j / 8) >> (j % 8 * 8));
        if (r.chance(0.3)) s.dist::Store::set(key, v);
        else s.set(key, bytes(v));
        m[key] = v;
        break;
      }
      case 3: {
        bool had = m.erase(key) > 0;
        c.check(s.deleteKey(key) == had, "fs.delete", fmt("deleteKey of a key that %s", had ? "exists" : "does not exist"));
        break;
      }
      case 4: {
        int64_t cur = 0, d = r.pick<int64_t>({0, 1, -1, 1000000007, -4000000000ll, INT64_C(1) << 61});
        if (m.count(key)) {
          char* e;
          cur = strtoll(m[key].c_str(), &e, 10);
          if (m[key].empty() || *e || (size_t)(e - m[key].c_str()) != m[key].size() || std::to_string(cur) != m[key]) {
            if (!m[key].empty()) break;  // not a number: unspecified
            cur = 0;
          }
          if (cur > (INT64_C(1) << 61) || cur < -(INT64_C(1) << 61)) break;
        }
        int64_t got = s.add(key, d);
        c.check(got == cur + d, "fs.add", fmt("%lld + %lld gave %lld", (long long)cur, (long long)d, (long long)got));
        m[key] = std::to_string(cur + d);
        break;
      }
      case 5: {
        if (m.count(key)) break;
        c.check(!s.check({key}), "fs.phantom", "a key that was never set exists");
        if (r.chance(0.1)) {
          int64_t t0 = lin::nowNs();
          c.check(s.get(key).empty(), "fs.phantomValue");
          c.check(lin::nowNs() - t0 > 58000000, "fs.earlyTimeout");
          c.obs("timeouts");
        }
        break;
      }
      default: {
        std::vector<std::string> some;
        bool all = true;
        for (int64_t j = r.range(0, 4); j > 0; j--) {
          std::string k2 = !m.empty() && r.chance(0.8) ? std::next(m.begin(), r.range(0, (int64_t)m.size() - 1))->first : genKey(r);
          all = all && m.count(k2);
          some.push_back(k2);
        }
        c.check(s.check(some) == all, "fs.checkMany", fmt("check of %zu keys is not %d", some.size(), all));
        if (all) s.wait(some);
      }
    }
    for (size_t j = 0; j < (size_t)nd; j++)
      for (auto& [k2, v2] : ref[j])
        if ((j == i && k2 == key) || r.chance(0.1)) {
          std::string got = r.chance(0.3) ? st[j]->getString(k2) : text(st[j]->get(k2));
          if (got != v2) c.fail("fs.value", fmt("a value of %zu bytes came back with %zu bytes", v2.size(), got.size()));
          c.check(st[j]->check({k2}), "fs.check", "a key that was set does not exist");
          c.obs("values");
        }
    for (size_t j = 0; j < (size_t)nd; j++)
      if (st[j]->getNumKeys() != (int64_t)ref[j].size()) c.fail("fs.numKeys", fmt("%lld keys, expected %zu", (long long)st[j]->getNumKeys(), ref[j].size()));
  }
  c.seen(vh::mix(r.next()));
  if (hf::openFds() != fds) c.fail("fs.fdLeak", fmt("%zu descriptors before, %zu after", fds, hf::openFds()));
}

// a writer keeps at most one of the keys alive at any time: no check may ever see two, no count may be off
SUITE_T(fs_atomic, 8, 60) {
  auto& r = c.rng;
  hf::Scratch sc;
  std::string dir = storeDir(r, sc, r.chance(0.3));
  int nk = (int)r.range(2, 4), moves = c.thorough ? 150 : 60;
  std::vector<std::string> keys;
  for (int k = 0; k < nk; k++) keys.push_back(fmt("a%d", k));
  r.shuffle(keys);
  Store w(dir), s(dir);
  w.set("stays", bytes("x"));
  std::atomic<bool> stop{false};
  lin::delays() = (int)r.pick<int64_t>({0, 20, 60});
  std::thread th([&] {
    for (int k = 0; k < moves; k++) {
      w.set(keys[(size_t)(k % nk)], bytes("token"));
      (void)w.deleteKey(keys[(size_t)(k % nk)]);
    }
    stop = true;
  });
  std::string bad;
  uint64_t n = 0;
  lin::delaySeed() = r.next();
  while (!stop.load() && bad.empty()) {
    std::vector<std::string> q = keys;
    r.shuffle(q);
    q.resize((size_t)r.range(2, nk));
    if (r.chance(0.5)) q.insert(q.begin() + r.range(0, (int64_t)q.size()), "stays");
    if (s.check(q)) bad = fmt("check of %zu keys is true although at most one of them exists at any time", q.size());
    int64_t m = s.getNumKeys();
    if (m != 1 && m != 2) bad = fmt("getNumKeys is %lld, there are always one or two keys", (long long)m);
    if (!s.check({"stays"})) bad = "a key that is never touched is missing";
    n++;
  }
  th.join();
  lin::delays() = 0;
  if (!bad.empty()) c.fail("fs.atomicCheck", bad);
  c.obs("multi_key_checks", n);
  c.seen(vh::mix(r.next()));
}

// time limits, and waits across processes
SUITE_T(fs_waiters, 6, 100) {
  auto& r = c.rng;
  hf::Scratch sc;
  std::string dir = storeDir(r, sc, r.chance(0.3));
  Knobs knobs(r);
  bool fails = r.chance(0.5), isGet = r.chance(0.5);
  int T = fails ? (int)r.range(50, 300) : r.chance(0.5) ? 0 : 60000, nk = isGet ? 1 : (int)r.range(1, 3);
  c.desc = fmt("%s of %d keys, timeout %d ms, one missing %d", isGet ? "get" : "wait", nk, T, fails);
  std::vector<std::string> keys;
  for (int k = 0; k < nk; k++) keys.push_back(fmt("w%d", k));
  Map map;
  Shared* sh = map.s;
  auto writer = [&] {
    Store w(dir);
    for (int k = nk - 1; k >= 0; k--) {
      usleep((useconds_t)(sh->r[0].num % 30000));
      if (fails && k == 0) break;
      w.set("unrelated", bytes("x"));
      sh->r[1].inv = lin::nowNs();
      w.set(keys[(size_t)k], bytes("v" + keys[(size_t)k]));
    }
  };
  sh->r[0].num = (int64_t)(r.next() >> 2);
  pid_t pid = -1;
  std::thread th;
#ifndef VH_TSAN
  pid = fork();
  if (pid == 0) {
    writer();
    _exit(0);
  }
#else
  th = std::thread(writer);
#endif
  Store s(dir, T ? ms(T) : dist::Store::kNoTimeout);
  int64_t t0 = lin::nowNs();
  std::string got;
  if (isGet) got = text(s.get(keys[0]));
  else s.wait(keys);
  int64_t t1 = lin::nowNs();
  if (pid > 0) {
    int st;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("fs.process", fmt("the writer ended with status %x", st));
  } else
    th.join();
  double el = (double)(t1 - t0) / 1e6;
  if (fails) {
    if (el < T * 0.98) c.fail("fs.earlyTimeout", fmt("failed after %.1f ms, the timeout is %d ms", el, T));
    if (el > T + 8000) c.fail("fs.lateTimeout", fmt("failed after %.1f ms, the timeout is %d ms", el, T));
    if (isGet) c.check(got.empty(), "fs.timeoutValue", "a get that failed returned " + got);
    c.obs("timeouts");
  } else {
    if (t1 < sh->r[1].inv) c.fail("fs.earlyWake", "returned before the last key was set");
    if (el > 25000) c.fail("fs.lateWake", fmt("woken after %.0f ms", el));
    if (isGet) c.check(got == "v" + keys[0], "fs.getValue", "get returned '" + got + "'");
    c.obs("wakeups");
  }
  c.seen(c.desc);
}
}  // namespace s_fstore

// linked with --wrap for these functions: pauses between the steps of every operation
extern "C" {
#define WRAP(ret, name, params, args) \
  ret __real_##name params;           \
  ret __wrap_##name params {          \
    lin::maybeDelay();                \
    ret r_ = __real_##name args;      \
    lin::maybeDelay();                \
    return r_;                        \
  }
WRAP(FILE*, fopen, (const char* p, const char* m), (p, m))
WRAP(int, fclose, (FILE * f), (f))
WRAP(int, access, (const char* p, int m), (p, m))
WRAP(int, unlink, (const char* p), (p))
WRAP(int, flock, (int f, int o), (f, o))
WRAP(size_t, fread, (void* p, size_t s, size_t n, FILE* f), (p, s, n, f))
WRAP(size_t, fwrite, (const void* p, size_t s, size_t n, FILE* f), (p, s, n, f))
WRAP(int, fseek, (FILE * f, long o, int w), (f, o, w))
WRAP(DIR*, opendir, (const char* p), (p))
WRAP(int, mkdir, (const char* p, mode_t m), (p, m))
#undef WRAP
}
