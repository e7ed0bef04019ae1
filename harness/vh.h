// Runtime-monitoring harness core: seeded cases, process isolation per batch, shared-memory event counters,
// violations identified by (suite, case seed) so that they can be replayed.
#pragma once
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hashStr(const char* s) {
  uint64_t h = 1469598103934665603ULL;
  for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ULL;
  return h;
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  auto* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}
inline double nowSec() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // inclusive range
  int64_t range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1));
  }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[next() % v.size()];
  }
  template <typename T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + next() % v.size());
  }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
  }
};

struct Fail {
  std::string sig, msg;
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ---------------------------------------------------------------- shared state
constexpr int kMaxCounters = 2048, kMaxViol = 40, kMaxSamples = 24;
constexpr size_t kHashCap = 1 << 20;
struct Shared {
  volatile uint64_t progress;
  volatile uint64_t caseStartMs;
  uint64_t evaluations;
  struct {
    char key[56];
    uint64_t n;
  } counters[kMaxCounters];
  uint64_t nHashes;
  uint64_t hashes[kHashCap];
  int nViol;
  struct {
    char suite[48];
    uint64_t seed;
    char sig[128];
    char msg[6000];
  } viol[kMaxViol];
  int nSamples;
  char samples[kMaxSamples][360];
};
inline Shared*& sh() {
  static Shared* s = nullptr;
  return s;
}
inline bool& quietCount() {
  static bool q = false;
  return q;
}

struct Case {
  Rng rng;
  uint64_t seed;
  const char* suite;
  bool thorough = false;
  uint64_t index = 0;    // case number within the suite
  uint64_t total = 0;    // number of cases of the suite
  bool verbose = false;
  std::string desc;  // description of the input, included in violation messages

  void obs(const char* key, uint64_t n = 1) {
    auto* s = sh();
    uint64_t h = hashStr(key) % kMaxCounters;
    for (int i = 0; i < kMaxCounters; i++, h = (h + 1) % kMaxCounters) {
      auto& c = s->counters[h];
      if (c.key[0] == 0) strncpy(c.key, key, sizeof(c.key) - 1);
      if (!strncmp(c.key, key, sizeof(c.key) - 1)) {
        __atomic_fetch_add(&c.n, n, __ATOMIC_RELAXED);
        return;
      }
    }
  }
  void obs(const std::string& key, uint64_t n = 1) { obs(key.c_str(), n); }
  // a distinct non-trivial behaviour (input class, interleaving, state) was observed
  void seen(uint64_t h) {
    auto* s = sh();
    if (h == 0) h = 1;
    uint64_t i = mix(h) % kHashCap;
    for (int k = 0; k < 64; k++, i = (i + 1) % kHashCap) {
      if (s->hashes[i] == h) return;
      if (s->hashes[i] == 0) {
        s->hashes[i] = h;
        s->nHashes++;
        return;
      }
    }
  }
  void seen(const std::string& s) { seen(hashStr(s.c_str())); }
  void sample(const std::string& t) {
    auto* s = sh();
    if (s->nSamples < kMaxSamples) {
      strncpy(s->samples[s->nSamples], t.c_str(), sizeof(s->samples[0]) - 1);
      s->nSamples++;
    }
  }
  [[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw Fail{sig, msg}; }
  void check(bool ok, const char* sig, const std::string& msg = "") {
    if (!ok) throw Fail{sig, msg};
  }
};

using SuiteFn = void (*)(Case&);
struct Suite {
  const char* name;
  SuiteFn fn;
  double weight;
  int timeout;  // seconds per case
  bool skipIsolatedCount;
};
inline std::vector<Suite>& suites() {
  static std::vector<Suite> v;
  return v;
}
struct Reg {
  Reg(const char* n, SuiteFn f, double w, int timeout = 60) { suites().push_back({n, f, w, timeout, false}); }
};
#define SUITE(name, weight)                              \
  static void suite_##name(vh::Case& c);                 \
  static vh::Reg reg_##name(#name, suite_##name, weight); \
  static void suite_##name(vh::Case& c)
#define SUITE_T(name, weight, timeout)                            \
  static void suite_##name(vh::Case& c);                          \
  static vh::Reg reg_##name(#name, suite_##name, weight, timeout); \
  static void suite_##name(vh::Case& c)

inline void addViol(const char* suite, uint64_t seed, const std::string& sig, const std::string& msg) {
  auto* s = sh();
  if (s->nViol >= kMaxViol) return;
  auto& v = s->viol[s->nViol];
  strncpy(v.suite, suite, sizeof(v.suite) - 1);
  v.seed = seed;
  strncpy(v.sig, sig.c_str(), sizeof(v.sig) - 1);
  strncpy(v.msg, msg.c_str(), sizeof(v.msg) - 1);
  s->nViol++;
}

// runs once per worker process before any case
inline std::function<void()>& workerInit() {
  static std::function<void()> f;
  return f;
}
// runs in each worker when its cases are done (leak checks etc.)
inline std::function<void()>& workerDone() {
  static std::function<void()> f;
  return f;
}

inline std::string jsonEsc(const char* s) {
  std::string r;
  for (; *s; s++) {
    unsigned char ch = *s;
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else
      r += ch;
  }
  return r;
}

struct Work {
  int suite;
  uint64_t seed;
  uint64_t index, total;
};

inline void runOne(const Work& w, bool thorough, bool verbose) {
  auto& s = suites()[w.suite];
  Case c;
  c.seed = w.seed;
  c.rng = Rng(w.seed);
  c.suite = s.name;
  c.thorough = thorough;
  c.index = w.index;
  c.total = w.total;
  c.verbose = verbose;
  try {
    s.fn(c);
    if (c.index % 1024 < 16 && c.index < 20000 && !c.desc.empty()) c.sample(std::string(s.name) + ": " + c.desc.substr(0, 300));
  } catch (const Fail& f) {
#ifdef VH_MEMONLY  // wrong results are the concern of other properties
    c.obs(std::string("not judged here: ") + s.name);
    if (verbose) fprintf(stderr, "not judged: [%s] %s | %s\n", f.sig.c_str(), f.msg.c_str(), c.desc.c_str());
    __atomic_fetch_add(&sh()->evaluations, 1, __ATOMIC_RELAXED);
    return;
#endif
    addViol(s.name, w.seed, f.sig, c.desc.empty() ? f.msg : (f.msg + " | " + c.desc));
    if (verbose) fprintf(stderr, "FAIL %s:%016llx:%llu/%llu [%s] %s | %s\n", s.name, (unsigned long long)w.seed,
                         (unsigned long long)w.index, (unsigned long long)w.total, f.sig.c_str(), f.msg.c_str(), c.desc.c_str());
  }
  __atomic_fetch_add(&sh()->evaluations, 1, __ATOMIC_RELAXED);
}

inline std::string tailOf(const char* path, size_t n) {
  FILE* f = fopen(path, "rb");
  if (!f) return "";
  fseek(f, 0, SEEK_END);
  long sz = ftell(f);
  std::string s;
  // prefer the start of a sanitizer report
  std::string all(sz, 0);
  fseek(f, 0, SEEK_SET);
  size_t rd = fread(&all[0], 1, sz, f);
  all.resize(rd);
  fclose(f);
  size_t pos = all.rfind("==ERROR: ");
  if (pos == std::string::npos) pos = all.rfind("runtime error:");
  if (pos == std::string::npos) pos = all.rfind("WARNING: ThreadSanitizer");
  if (pos != std::string::npos) {
    size_t ls = all.rfind('\n', pos);
    ls = ls == std::string::npos ? 0 : ls + 1;
    return all.substr(ls, n);
  }
  return all.size() > n ? all.substr(all.size() - n) : all;
}

inline int mainImpl(int argc, char** argv) {
  uint64_t seed = 1;
  double scale = 1;
  int shard = 0, nshards = 1;
  std::string out, replay, only, log = "/dev/null";
  bool thorough = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0);
    else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--shard") sscanf(nx().c_str(), "%d/%d", &shard, &nshards);
    else if (a == "--out") out = nx();
    else if (a == "--log") log = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--only") only = nx();
    else if (a == "--thorough") thorough = true;
    else if (a == "--list") {
      for (auto& s : suites()) printf("%s %g\n", s.name, s.weight);
      return 0;
    }
  }
  sh() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::sort(suites().begin(), suites().end(), [](const Suite& a, const Suite& b) { return strcmp(a.name, b.name) < 0; });

  if (!replay.empty()) {
    char name[128] = {0};
    unsigned long long sd = 0, ix = 0, tot = 1;
    sscanf(replay.c_str(), "%127[^:]:%llx:%llu/%llu", name, &sd, &ix, &tot);
    if (workerInit()) workerInit()();
    for (size_t i = 0; i < suites().size(); i++)
      if (!strcmp(suites()[i].name, name)) {
        runOne({(int)i, sd, ix, tot}, thorough, true);
        if (workerDone()) workerDone()();
        for (int k = 0; k < sh()->nViol; k++) printf("VIOL %s %s\n", sh()->viol[k].sig, sh()->viol[k].msg);
        return sh()->nViol ? 1 : 0;
      }
    fprintf(stderr, "unknown suite\n");
    return 3;
  }

  std::vector<Work> work;
  for (size_t i = 0; i < suites().size(); i++) {
    auto& s = suites()[i];
    if (!only.empty() && only != s.name) continue;
    uint64_t n = (uint64_t)ceil(s.weight * scale);
    for (uint64_t k = 0; k < n; k++) {
      if ((int)(k % nshards) != shard) continue;
      work.push_back({(int)i, mix(seed ^ mix(hashStr(s.name) + k * 0x2545F4914F6CDD1DULL)), k, n});
    }
  }
  // interleave suites
  Rng r(seed * 31 + shard);
  r.shuffle(work);

  // for trying the monitors out on many mutants: stop early, wait less
  const int maxViol = getenv("VH_MAXVIOL") ? atoi(getenv("VH_MAXVIOL")) : kMaxViol - 2;
  const int maxWait = getenv("VH_TIMEOUT") ? atoi(getenv("VH_TIMEOUT")) : 0;
  size_t next = 0;
  int harnessErr = 0, hangs = 0;
  const double startSec = nowSec();
  while (next < work.size() && sh()->nViol < maxViol) {
    sh()->progress = next;
    sh()->caseStartMs = (uint64_t)(nowSec() * 1000);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
      usleep(100000);
      if (++harnessErr > 50) break;
      continue;
    }
    if (pid == 0) {
      setpgid(0, 0);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      int lf = open(log.c_str(), O_WRONLY | O_CREAT | O_APPEND | (log == "/dev/null" ? 0 : O_TRUNC), 0644);
      dup2(lf, 2);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      if (workerInit()) workerInit()();
      uint64_t cnt = 0;
      for (size_t i = next; i < work.size(); i++) {
        sh()->progress = i;
        sh()->caseStartMs = (uint64_t)(nowSec() * 1000);
        if (log != "/dev/null" && (++cnt & 63) == 0) {
          struct stat st;
          if (fstat(2, &st) == 0 && st.st_size > (4 << 20)) (void)!ftruncate(2, 0);
        }
        runOne(work[i], thorough, false);
        if (sh()->nViol >= maxViol) break;
        // a failing run need not be complete
        if (sh()->nViol && nowSec() - startSec > (thorough ? 600 : 60)) break;
      }
      sh()->progress = work.size();
      sh()->caseStartMs = (uint64_t)(nowSec() * 1000);
      if (workerDone()) workerDone()();
      fflush(stderr);
      _exit(0);
    }
    setpgid(pid, pid);
    int status = 0;
    bool timedOut = false;
    while (true) {
      pid_t w = waitpid(pid, &status, WNOHANG);
      if (w == pid) break;
      size_t cur = sh()->progress;
      int to = cur < work.size() ? suites()[work[cur].suite].timeout : 120;
      if (maxWait) to = maxWait;
      double el = nowSec() - sh()->caseStartMs / 1000.0;
      if (el > to) {
        timedOut = true;
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        break;
      }
      usleep(4000);
    }
    size_t cur = sh()->progress;
    bool clean = !timedOut && WIFEXITED(status) && WEXITSTATUS(status) == 0;
    if (clean) break;
    // end processes a killed worker left behind
    kill(-pid, SIGKILL);
    std::string tail = tailOf(log.c_str(), 5000);
    std::string sig, suiteName = "end-of-run";
    uint64_t sd = 0;
    if (cur < work.size()) {
      suiteName = suites()[work[cur].suite].name;
      sd = work[cur].seed;
    }
    if (timedOut) sig = "hang";
    else if (WIFSIGNALED(status)) sig = fmt("signal-%s", strsignal(WTERMSIG(status)));
    else sig = fmt("exit-%d", WEXITSTATUS(status));
    static const char* kinds[] = {"AddressSanitizer: ", "LeakSanitizer: ", "runtime error: ", "ThreadSanitizer: ", "MemorySanitizer: "};
    for (auto k : kinds) {
      size_t p = tail.find(k);
      if (p != std::string::npos) {
        size_t e = tail.find_first_of("(\n", p);
        std::string t = tail.substr(p, std::min<size_t>(e == std::string::npos ? 80 : e - p, 80));
        size_t ad = t.find(" on address");
        if (ad != std::string::npos) t = t.substr(0, ad);
        sig += "/" + t;
        break;
      }
    }
    addViol(suiteName.c_str(), sd, sig, "worker ended abnormally: " + sig + "\n" + tail);
    if (cur >= work.size()) break;
    next = cur + 1;
    if (timedOut) hangs++;
    if (hangs >= 3 || nowSec() - startSec > (thorough ? 900 : 120)) break;
  }

  if (!out.empty()) {
    auto* s = sh();
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\":%llu,\"planned\":%llu,\"harness_errors\":%d,\"distinct\":%llu,\"counters\":{",
            (unsigned long long)s->evaluations, (unsigned long long)work.size(), harnessErr, (unsigned long long)s->nHashes);
    bool first = true;
    for (auto& c : s->counters)
      if (c.key[0]) {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(c.key).c_str(), (unsigned long long)c.n);
        first = false;
      }
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < s->nSamples; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(s->samples[i]).c_str());
    fprintf(f, "],\"violations\":[");
    for (int i = 0; i < s->nViol; i++) {
      uint64_t ix = 0, tot = 1;
      for (auto& w : work)
        if (w.seed == s->viol[i].seed && !strcmp(suites()[w.suite].name, s->viol[i].suite)) ix = w.index, tot = w.total;
      fprintf(f, "%s{\"replay\":\"%s:%016llx:%llu/%llu\",\"suite\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\"}", i ? "," : "",
              s->viol[i].suite, (unsigned long long)s->viol[i].seed, (unsigned long long)ix, (unsigned long long)tot,
              s->viol[i].suite, jsonEsc(s->viol[i].sig).c_str(), jsonEsc(s->viol[i].msg).c_str());
    }
    fprintf(f, "]}\n");
    fclose(f);
    std::string hp = out + ".hash";
    f = fopen(hp.c_str(), "wb");
    if (f) {
      for (auto h : s->hashes)
        if (h) fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  return sh()->nViol ? 1 : 0;
}
}  // namespace vh

#ifndef VH_NO_MAIN
#ifndef VH_PART  // one of several harness files of a program holds main
int main(int argc, char** argv) { return vh::mainImpl(argc, argv); }
#endif
#endif
