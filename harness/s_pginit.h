// C35: process-group initialisation: real processes (one per rank), every init method, malformed requests, retries
#pragma once
#include <sys/mman.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <atomic>
#include "h_dist.h"
#include "h_tcp.h"
#include "Distributed/TCPStore.h"
#include "Distributed/FileStore.h"
namespace s_pginit {
using namespace vh;
namespace dist = tinytorch::distributed;
typedef std::chrono::milliseconds Ms;
static void env(const char* k, const std::string* v) {
  if (v) setenv(k, v->c_str(), 1);
  else unsetenv(k);
}
static void clearEnv() {
  for (auto* k : {"MASTER_ADDR", "MASTER_PORT", "WORLD_SIZE", "RANK"}) unsetenv(k);
}
struct Shared {  // one per case, shared by its processes
  std::atomic<int> inited[8], leave;
  std::atomic<int64_t> began[8], ended[8];
  char err[8][300];
};
struct Map {
  Shared* s;
  Map() { s = new (mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Shared(); }
  ~Map() { munmap(s, sizeof(Shared)); }
};
static size_t fds() {
  size_t n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
static size_t threads() {
  size_t n = 0;
  DIR* d = opendir("/proc/self/task");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
struct Request {
  int method = 0;  // 0 tcp, 1 env, 2 file
  std::string url;
  int rank = -1, world = -1;  // arguments
  std::string vars[4];        // MASTER_ADDR MASTER_PORT WORLD_SIZE RANK
  bool has[4] = {};
  std::string str() const {
    std::string s = url + fmt(" rank=%d world=%d", rank, world);
    const char* n[] = {"MASTER_ADDR", "MASTER_PORT", "WORLD_SIZE", "RANK"};
    for (int i = 0; i < 4; i++)
      if (has[i]) s += fmt(" %s=%s", n[i], vars[i].c_str());
    return s;
  }
  void setEnv() const {
    const char* n[] = {"MASTER_ADDR", "MASTER_PORT", "WORLD_SIZE", "RANK"};
    for (int i = 0; i < 4; i++) env(n[i], has[i] ? &vars[i] : nullptr);
  }
};
// how rank k of n is told who it is
static Request genRequest(Rng& r, int method, int k, int n, uint16_t port, const std::string& dir) {
  Request q;
  q.method = method;
  std::string host = r.pick<std::string>({"127.0.0.1", "localhost", "127.0.0.1"});
  auto var = [&](int i, const std::string& v) { q.has[i] = true, q.vars[i] = v; };
  if (method == 1) {
    q.url = "env://";
    var(0, host);
    var(1, std::to_string(port));
    bool argR = r.chance(0.4), argW = r.chance(0.4);
    if (argR) q.rank = k;
    if (argW) q.world = n;
    // explicit arguments win over the environment
    if (!argR || r.chance(0.5)) var(3, argR ? r.pick<std::string>({"7", "0", "x", "", "-3"}) : std::to_string(k));
    if (!argW || r.chance(0.5)) var(2, argW ? r.pick<std::string>({"1", "99", "0", "many"}) : std::to_string(n));
  } else {
    q.rank = k, q.world = n;
    q.url = method == 0 ? "tcp://" + host + ":" + std::to_string(port) : "file://" + dir;
    if (r.chance(0.4)) {  // the environment does not matter here
      var(0, "10.1.2.3");
      var(1, "1");
      var(2, "17");
      var(3, "5");
    }
  }
  return q;
}
static void need(bool ok, const std::string& m) {
  if (!ok) throw Fail{"pg", m};
}
static void checkGroup(dist::DistributedProcessGroup& pg, int k, int n, Ms t, int method, uint16_t port) {
  need(pg.isInitialized(), "a successful initProcessGroup left the group uninitialised");
  need(pg.getRank() == k && pg.getWorldSize() == n, fmt("rank %d of %d instead of %d of %d", pg.getRank(), pg.getWorldSize(), k, n));
  auto p = pg.getProcessGroup();
  need(p->getBackendType() == dist::NCCL && p->getBackendName() == "nccl", "backend " + p->getBackendName());
  auto b = p->getBackend(dist::NCCL);
  need(b != nullptr, "no NCCL backend");
  need(b->getRank() == k && b->getSize() == n, "the backend has another rank or size");
  need(b->getBackendOptions()->timeout == t, fmt("the backend's timeout is %lld ms instead of %lld", (long long)b->getBackendOptions()->timeout.count(), (long long)t.count()));
  need(p->getStore() != nullptr, "no store");
  auto* ts = dynamic_cast<dist::TCPStore*>(p->getStore().get());
  if (method == 2) need(dynamic_cast<dist::FileStore*>(p->getStore().get()), "file:// without a file store");
  else need(ts && ts->getPort() == port, "not the requested port");
}
// all ranks as processes: they join one group, exchange data through its store, leave, and join another one
SUITE(pg_join, 40) {
  auto& r = c.rng;
  int n = (int)r.range(1, 4);
  int rounds = (int)r.range(1, 2);
  bool wait = r.chance(0.7), useInstance = r.chance(0.5);
  std::string d;
  struct Round {
    int method;
    uint16_t port;
    std::string dir;
    Ms timeout;
    std::vector<Request> q;
    std::vector<int> delayMs;
  };
  hf::Scratch scratch;
  std::vector<Round> R(rounds);
  for (int i = 0; i < rounds; i++) {
    auto& x = R[i];
    x.method = (int)r.range(0, 2);
    x.port = htcp::freePort();
    x.dir = scratch.dir + fmt("/r%d", i);
    x.timeout = Ms(r.range(20000, 90000));
    for (int k = 0; k < n; k++) {
      x.q.push_back(genRequest(r, x.method, k, n, x.port, x.dir));
      x.delayMs.push_back(r.chance(0.4) ? (int)r.range(0, 150) : 0);
    }
    c.desc += fmt("%sround of %d: ", i ? "; " : "", n) + x.q[n - 1].str();
  }
  c.desc += wait ? " waiting" : " not waiting";
  Map m;
  std::vector<pid_t> pids;
  fflush(stdout);
  for (int k = 0; k < n; k++) {
    pid_t pid = fork();
    if (pid == 0) {
      int rc = 0;
      alarm(60);
      htcp::capSleep() = 1;  // connection retries come sooner
      try {
        auto own = std::make_shared<dist::DistributedProcessGroup>();
        auto& pg = useInstance ? *dist::DistributedProcessGroup::getInstance() : *own;
        for (int i = 0; i < rounds; i++) {
          auto& x = R[i];
          x.q[k].setEnv();
          need(!pg.isInitialized(), "initialised before initProcessGroup");
          // without waiting for workers rank 0 comes up alone; nobody else starts before that
          if (!wait && k) while (m.s->inited[i * 4] == 0) usleep(300);
          usleep(x.delayMs[k] * 1000);
          m.s->began[i * 4 + k] = lin::nowNs();
          bool ok = pg.initProcessGroup(dist::NCCL, x.q[k].url, x.q[k].rank, x.q[k].world, x.timeout, wait);
          m.s->ended[i * 4 + k] = lin::nowNs();
          need(ok, "initProcessGroup failed");
          m.s->inited[i * 4 + k] = 1;
          checkGroup(pg, k, n, x.timeout, x.method, x.port);
          auto store = pg.getProcessGroup()->getStore();
          store->set(fmt("from%d", k), fmt("value %d of round %d", k, i));
          // a second initialisation is refused and changes nothing
          auto before = pg.getProcessGroup();
          need(!pg.initProcessGroup(dist::NCCL, x.q[k].url, (k + 1) % n, n, Ms(1000), false), "a live group was initialised again");
          need(!pg.initProcessGroup(dist::NCCL, "nonsense://", k, n), "a live group was initialised again");
          need(pg.getProcessGroup() == before, "a refused initialisation replaced the group");
          checkGroup(pg, k, n, x.timeout, x.method, x.port);
          std::vector<std::string> keys;
          for (int j = 0; j < n; j++) keys.push_back(fmt("from%d", j));
          store->wait(keys);
          for (int j = 0; j < n; j++) need(store->getString(keys[j]) == fmt("value %d of round %d", j, i), "the ranks do not share one store: " + keys[j] + " is '" + store->getString(keys[j]) + "'");
          need(store->add("sum", k + 1) > 0, "add");
          store->set(fmt("read%d", k), "1");
          std::vector<std::string> done;
          for (int j = 0; j < n; j++) done.push_back(fmt("read%d", j));
          store->wait(done);
          need(store->add("sum", 0) == n * (n + 1) / 2, "the ranks do not share one counter");
          if (k == 0 && x.method != 2) {  // the server goes last
            int64_t end = lin::nowNs() + 30000000000ll;
            store.reset(), before.reset();
            while (m.s->leave < (i + 1) * (n - 1) && lin::nowNs() < end) usleep(300);
          }
          store.reset(), before.reset();
          pg.destroyProcessGroup();
          need(!pg.isInitialized(), "still initialised after destroyProcessGroup");
          pg.destroyProcessGroup();
          if (k) m.s->leave++;
          if (k == 0 && x.method == 2) {
            int64_t end = lin::nowNs() + 30000000000ll;
            while (m.s->leave < (i + 1) * (n - 1) && lin::nowNs() < end) usleep(300);
          }
        }
      } catch (const Fail& e) {
        snprintf(m.s->err[k], sizeof m.s->err[k], "%s", e.msg.c_str());
        rc = 3;
      }
      fflush(stdout);
      _exit(rc);
    }
    pids.push_back(pid);
  }
  bool bad = false;
  std::string what;
  for (int left = n; left > 0; left--) {
    int st;
    pid_t p = ::waitpid(-1, &st, 0);
    int k = (int)(std::find(pids.begin(), pids.end(), p) - pids.begin());
    if (st != 0 && !bad) {
      bad = true;
      what = fmt("rank %d ended with status %x: %s", k, st, k < 8 ? m.s->err[k] : "");
      for (auto q : pids)
        if (q != p) kill(q, SIGKILL);
    }
  }
  c.check(!bad, "pg.join", what);
  for (int i = 0; i < rounds; i++) {
    if (wait && R[i].method != 2)
      for (int k = 1; k < n; k++) c.check(m.s->ended[i * 4] >= m.s->began[i * 4 + k], "pg.waitWorkers", fmt("round %d: rank 0 came back before rank %d began to join", i, k));
    c.obs("pg.ranksJoined", n);
    c.obs(R[i].method == 0 ? "pg.tcp" : R[i].method == 1 ? "pg.env" : "pg.file");
    if (!wait && R[i].method != 2 && n > 1) c.obs("pg.aloneFirst");
  }
  c.seen(c.desc);
}
struct Bad {
  Request q;
  dist::BackendType backend = dist::NCCL;
  bool wait = false;
  int minMs = 0;
  Ms timeout = Ms(3000);
  std::string what;
};
static Bad genBad(Rng& r, uint16_t port, const std::string& scratch, int& hold) {
  Bad b;
  Request& q = b.q;
  int n = (int)r.range(1, 4), k = (int)r.range(0, n - 1);
  auto var = [&](int i, const std::string& v) { q.has[i] = true, q.vars[i] = v; };
  auto envOk = [&] {
    q.url = "env://";
    var(0, "127.0.0.1"), var(1, std::to_string(port)), var(2, "1"), var(3, "0");
    q.rank = q.world = -1;
  };
  auto fileOk = [&] {
    q.url = "file://" + scratch + "/ok";
    q.rank = 0, q.world = 1;
  };
  int kind = (int)r.range(0, 12);
  switch (kind) {
    case 0: {  // url
      static const char* u[] = {"", "tcp", "tcp:", "tcp:/", "tcp://", "tcp://:1234", "tcp://127.0.0.1:", "tcp://127.0.0.1:x", "tcp://127.0.0.1:12x", "tcp://127.0.0.1:-1", "tcp://127.0.0.1:+5",
                                "tcp://127.0.0.1:65536", "tcp://127.0.0.1:99999999999999999999", "tcp://127.0.0.1: 80", "tcp://127.0.0.1:1:2", "tcp://:", "http://127.0.0.1:1234", "TCP://127.0.0.1:1234",
                                "env", "env:", "env:/", "env://x", "env:// ", " env://", "file", "file:", "file:/", "file:/tmp/x", "/tmp/x", "udp://127.0.0.1:1", "127.0.0.1:1234", "://", "nccl"};
      q.url = u[r.range(0, (int64_t)(sizeof u / sizeof *u) - 1)];
      q.rank = 0, q.world = 1;
      if (r.chance(0.5)) {
        std::string url = q.url;
        envOk();
        q.url = url, q.rank = 0, q.world = 1;
      }
      b.what = "url";
      break;
    }
    case 1:  // ranks
      fileOk();
      if (r.chance(0.3)) q.url = fmt("tcp://127.0.0.1:%d", port);
      switch (r.range(0, 4)) {
        case 0: q.rank = -1, q.world = n; break;
        case 1: q.rank = k, q.world = -1; break;
        case 2: q.rank = n + (int)r.range(0, 3), q.world = n; break;
        case 3: q.rank = 0, q.world = 0; break;
        default: q.rank = -(int)r.range(1, 5), q.world = r.chance(0.5) ? n : -(int)r.range(0, 5); break;
      }
      b.what = "ranks";
      break;
    case 2: envOk(), q.has[0] = false, b.what = "no MASTER_ADDR"; break;
    case 3: envOk(), q.has[r.chance(0.5) ? 2 : 3] = false, b.what = "no RANK or WORLD_SIZE"; break;
    case 4: {
      static const char* v[] = {"", "x", "-1", "1x", " 1", "1 ", "+1", "0x1", "1.5", "99999999999999999999", "4294967296", "4294967297", "-4294967296"};
      envOk();
      q.vars[r.range(1, 3)] = v[r.range(0, (int64_t)(sizeof v / sizeof *v) - 1)];
      b.what = "environment value";
      break;
    }
    case 5: envOk(), q.vars[1] = r.pick<std::string>({"65536", "70000", "131072", "999999"}), b.what = "port range"; break;
    case 6: envOk(), q.vars[2] = std::to_string(n), q.vars[3] = std::to_string(n + r.range(0, 2)), b.what = "rank outside the world"; break;
    case 7:
      fileOk();
      b.backend = r.chance(0.7) ? dist::UNDEFINED : (dist::BackendType)r.range(2, 250);
      if (r.chance(0.4)) q.url = fmt("tcp://127.0.0.1:%d", port);
      b.what = "backend";
      break;
    case 8:
      fileOk();
      if (r.chance(0.5)) {
        hf::spit(scratch + "/plainfile", "x");
        q.url = "file://" + scratch + "/plainfile";
      } else
        q.url = "file://" + scratch + "/missing/dir";
      b.what = "file path";
      break;
    case 9:  // nobody listens
      q.url = fmt("tcp://127.0.0.1:%d", port);
      q.rank = 1, q.world = 2;
      b.what = "no server";
      break;
    case 10: case 11:  // the others never come
      q.url = fmt("tcp://127.0.0.1:%d", port);
      q.rank = 0, q.world = (int)r.range(2, 4);
      b.wait = true;
      b.timeout = Ms(r.range(100, 500));
      b.minMs = (int)b.timeout.count() - 1;
      b.what = "missing workers";
      break;
    default: {  // somebody else has the port
      q.url = fmt("tcp://127.0.0.1:%d", port);
      q.rank = 0, q.world = 1;
      hold = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_port = htons(port);
      a.sin_addr.s_addr = INADDR_ANY;
      if (bind(hold, (sockaddr*)&a, sizeof a) || listen(hold, 4)) throw Fail{"harness.port", "cannot hold a port"};
      b.what = "port in use";
    }
  }
  return b;
}
// requests that cannot work: refused in time, nothing left behind, and a correct attempt works afterwards
SUITE(pg_refused, 60) {
  auto& r = c.rng;
  hf::Scratch scratch;
  struct Clean {
    ~Clean() { clearEnv(), htcp::capSleep() = 0, dist::DistributedProcessGroup::getInstance()->destroyProcessGroup(); }
  } clean;
  htcp::capSleep() = 1;
  auto fresh = std::make_shared<dist::DistributedProcessGroup>();
  auto& pg = r.chance(0.3) ? *dist::DistributedProcessGroup::getInstance() : *fresh;
  (void)htcp::freePort();
  size_t f0 = fds(), t0 = threads();
  int tries = (int)r.range(1, 3);
  std::string log;
  for (int i = 0; i < tries; i++) {
    uint16_t port = htcp::freePort();
    int hold = -1;
    Bad b = genBad(r, port, scratch.dir, hold);
    log += (i ? " | " : "") + b.what + ": " + b.q.str();
    c.desc = log;
    clearEnv();
    b.q.setEnv();
    int64_t t = lin::nowNs();
    bool ok = pg.initProcessGroup(b.backend, b.q.url, b.q.rank, b.q.world, b.timeout, b.wait);
    int64_t ms = (lin::nowNs() - t) / 1000000;
    if (hold >= 0) close(hold);
    c.check(!ok, "pg.accepted", "initProcessGroup succeeded (" + b.what + ")");
    c.check(!pg.isInitialized(), "pg.leftover", "the group counts as initialised after a failed initialisation");
    c.check(ms >= b.minMs, "pg.early", fmt("gave up after %lld ms, the timeout is %lld", (long long)ms, (long long)b.timeout.count()));
    c.check(ms <= 60000, "pg.late", fmt("failed only after %lld ms", (long long)ms));
    c.obs("pg.refused");
    c.obs("pg.refused." + b.what);
    pg.destroyProcessGroup();
  }
  size_t f1 = fds(), t1 = threads();
  for (int k = 0; k < 2000 && (f1 > f0 || t1 > t0); k++) usleep(1000), f1 = fds(), t1 = threads();
  c.check(f1 <= f0 && t1 <= t0, "pg.leak", fmt("failed initialisations left %zd descriptors and %zd threads", (ssize_t)(f1 - f0), (ssize_t)(t1 - t0)));
  // a valid request works now
  clearEnv();
  int method = (int)r.range(0, 2);
  uint16_t port = htcp::freePort();
  std::string dir = scratch.dir + "/retry";
  Request q = genRequest(r, method, 0, 1, port, dir);
  c.desc = log + " => " + q.str();
  q.setEnv();
  Ms t(r.range(1000, 50000));
  c.check(pg.initProcessGroup(dist::NCCL, q.url, q.rank, q.world, t, r.chance(0.5)), "pg.retry", "a valid request failed after a refused one");
  try {
    checkGroup(pg, 0, 1, t, method, port);
    auto s = pg.getProcessGroup()->getStore();
    s->set("k", std::string("v"));
    need(s->getString("k") == "v", "the store does not work");
  } catch (const Fail& e) {
    c.fail("pg.retryGroup", e.msg);
  }
  pg.destroyProcessGroup();
  c.check(!pg.isInitialized(), "pg.destroy", "still initialised");
  c.obs("pg.retries");
  c.seen(c.desc);
}
// the timeout is the store's too; defaults of the port and of the timeout
SUITE(pg_timeout, 12) {
  auto& r = c.rng;
  struct Clean {
    ~Clean() { clearEnv(); }
  } clean;
  clearEnv();
  dist::DistributedProcessGroup pg;
  if (r.chance(0.3)) {
    // default port: one case at a time, and only if nobody else uses it
    const char* base = getenv("VH_SCRATCH");
    int lock = open((std::string(base && *base ? base : "/tmp") + "/vh-default-port.lock").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
    while (flock(lock, LOCK_EX)) {}
    int s = ::socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(dist::TCPStore::kDefaultPort);
    bool freeNow = bind(s, (sockaddr*)&a, sizeof a) == 0;
    close(s);
    bool viaEnv = r.chance(0.5);
    c.desc = viaEnv ? "default port, env" : "default port, tcp";
    if (freeNow) {
      if (viaEnv) setenv("MASTER_ADDR", "127.0.0.1", 1);
      c.check(pg.initProcessGroup(dist::NCCL, viaEnv ? "env://" : "tcp://127.0.0.1", 0, 1), "pg.defaultPort", "initProcessGroup failed without a port");
      checkGroup(pg, 0, 1, dist::kProcessGroupDefaultTimeout, 0, dist::TCPStore::kDefaultPort);
      pg.destroyProcessGroup();
      c.obs("pg.defaultPort");
    }
    close(lock);
    return;
  }
  uint16_t port = htcp::freePort();
  Ms t(r.range(60, 400));
  c.desc = fmt("timeout %lld ms", (long long)t.count());
  c.check(pg.initProcessGroup(dist::NCCL, fmt("tcp://127.0.0.1:%d", port), 0, 1, t), "pg.init", "initProcessGroup failed");
  checkGroup(pg, 0, 1, t, 0, port);
  int64_t a = lin::nowNs();
  pg.getProcessGroup()->getStore()->wait({"never"});
  int64_t ms = (lin::nowNs() - a) / 1000000;
  c.check(ms >= t.count() - 1 && ms < 20000, "pg.storeTimeout", fmt("a wait on the store of a group with a timeout of %lld ms ended after %lld ms", (long long)t.count(), (long long)ms));
  pg.destroyProcessGroup();
  c.obs("pg.storeTimeouts");
  c.seen(c.desc);
}
}  // namespace s_pginit
