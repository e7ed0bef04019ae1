// C13: the caching allocator never hands out overlapping or undersized blocks, and survives failures of its base
#pragma once
#include <map>
#include <mutex>
#include <thread>
#include "tt.h"

#include "Tensor/CachedAllocator.h"
#include "Tensor/Storage.h"
namespace s_alloc {
using vh::fmt;

// records everything the cache asks of it; may refuse
struct Base : tt::Allocator {
  struct Log {
    std::mutex m;
    std::map<uintptr_t, size_t> out;                  // outstanding base blocks
    std::map<uintptr_t, size_t>* live = nullptr;      // allocations of the user, to check that no live one is released
    size_t bytes = 0, peak = 0, calls = 0, frees = 0, refused = 0;
    size_t budget = SIZE_MAX;
    int failNext = 0;          // refuse that many calls
    double failP = 0;
    bool lastRefused = false;
    bool lastHadFreeBlock = false;  // at the last refusal, some outstanding block held no live allocation
    std::string err;
    vh::Rng r{1};
    bool destroyed = false;
  };
  std::shared_ptr<Log> l;
  explicit Base(std::shared_ptr<Log> l) : l(std::move(l)) {}
  ~Base() override { l->destroyed = true; }
  void* allocate(int64_t n) override {
    std::lock_guard<std::mutex> g(l->m);
    l->calls++;
    if (n < 0) {
      l->err = fmt("base asked for %lld bytes", (long long)n);
      return nullptr;
    }
    bool refuse = l->failNext > 0 || (size_t)n > l->budget - std::min(l->budget, l->bytes) || l->r.chance(l->failP);
    if (l->failNext > 0) l->failNext--;
    l->lastRefused = refuse;
    if (refuse) {
      l->refused++;
      l->lastHadFreeBlock = false;
      if (l->live)
        for (auto& [p, s] : l->out) {
          auto it = l->live->lower_bound(p);
          if (it == l->live->end() || it->first >= p + s) l->lastHadFreeBlock = true;
        }
      return nullptr;
    }
    void* p = nullptr;
    if (posix_memalign(&p, 64, n + 64)) return nullptr;
    l->out[(uintptr_t)p] = n;
    l->bytes += n;
    l->peak = std::max(l->peak, l->bytes);
    return p;
  }
  void deallocate(void* p) override {
    std::lock_guard<std::mutex> g(l->m);
    l->frees++;
    auto it = l->out.find((uintptr_t)p);
    if (it == l->out.end()) {
      l->err = fmt("base asked to release %p, which it did not hand out (or already took back)", p);
      return;
    }
    if (l->live) {
      auto q = l->live->lower_bound((uintptr_t)p);
      if (q != l->live->end() && q->first < (uintptr_t)p + it->second) l->err = "a base block holding a live allocation was released";
    }
    l->bytes -= it->second;
    l->out.erase(it);
    free(p);
  }
};

struct Slot {
  uint8_t* p;
  size_t n;
  uint64_t tag;
};
static void paint(const Slot& s, bool verify, const char* sig) {
  // first and last bytes and a few in between
  auto at = [&](size_t i) {
    uint8_t v = (uint8_t)vh::mix(s.tag ^ i);
    if (!verify) s.p[i] = v;
    else if (s.p[i] != v) throw vh::Fail{sig, fmt("byte %zu of a live block of %zu bytes was overwritten", i, s.n)};
  };
  size_t e = std::min<size_t>(s.n, 40);
  for (size_t i = 0; i < e; i++) at(i);
  for (size_t i = s.n - e; i < s.n; i++) at(i);
  for (size_t i = e; i + e < s.n; i += s.n / 16 + 4001) at(i);
}
static size_t genSize(vh::Rng& r, int profile) {
  const size_t M = 1 << 20;
  switch (profile) {
    case 0: return r.range(0, 4096);
    case 1: return r.pick<size_t>({0, 1, 511, 512, 513, 1023, 1024, 1025, 2047, 2048});
    case 2: {
      size_t b = r.pick<size_t>({512, M, 2 * M, 10 * M, 20 * M, 4 * M, 12 * M, 22 * M, 19 * M, M + 512, 2 * M - 512});
      return b + r.range(0, 2) * (r.chance(0.5) ? 1 : 512) - (r.chance(0.5) ? 1 : 0) * r.pick<size_t>({1, 512});
    }
    case 3: return r.range(1, 3 * M);
    case 4: return r.range(M, 24 * M);
    default: return (size_t)pow(2, r.uniform(0, 24.5));
  }
}

SUITE(alloc_history, 120) {
  auto& r = c.rng;
  auto log = std::make_shared<Base::Log>();
  std::map<uintptr_t, size_t> live;
  log->live = &live;
  log->r = vh::Rng(r.next());
  auto a = std::make_unique<tt::CachedAllocator>(std::make_unique<Base>(log));
  tt::CachedAllocator::setCacheEnabled(true);
  struct Off {
    ~Off() { tt::CachedAllocator::setCacheEnabled(false); }
  } off;
  int profile = (int)r.range(0, 6), mode = (int)r.range(0, 4);
  if (mode == 1) log->budget = (size_t)r.pick<int>({2, 4, 20, 24, 44, 60}) << 20;
  if (mode == 2) log->failP = r.pick<double>({0.05, 0.3, 0.7});
  int n = (int)r.range(10, c.thorough ? 400 : 150), maxLive = (int)r.range(1, 40);
  double pFree = r.uniform(0.2, 0.7);
  c.desc = fmt("profile %d mode %d budget %zu failP %.2f steps %d", profile, mode, log->budget, log->failP, n);
  std::vector<Slot> s;
  int nulls = 0, splits = 0, rescued = 0;
  uint64_t h = 1;
  auto alloc = [&](size_t sz) {
    size_t calls0 = log->calls, ref0 = log->refused;
    auto* p = (uint8_t*)a->allocate((int64_t)sz);
    c.check(log->err.empty(), "alloc.base", log->err);
    h = vh::mix(h ^ sz ^ (p ? 0 : 1));
    if (!p) {
      nulls++;
      c.check(log->calls > calls0 && log->lastRefused, "alloc.nullWithoutRefusal", fmt("allocation of %zu bytes failed although the base did not refuse", sz));
      c.check(log->refused - ref0 >= 2, "alloc.noRetry", fmt("allocation of %zu bytes failed after %zu refusal(s) of the base: no retry", sz, log->refused - ref0));
      c.check(!log->lastHadFreeBlock, "alloc.cacheKept", fmt("allocation of %zu bytes failed while unused blocks were still cached", sz));
      return false;
    }
    if (log->refused > ref0) rescued++;
    uintptr_t q = (uintptr_t)p;
    c.check(q % 32 == 0, "alloc.align", fmt("block %p for %zu bytes is not aligned", (void*)p, sz));
    auto it = log->out.upper_bound(q);
    c.check(it != log->out.begin(), "alloc.foreign", "block outside every base block");
    --it;
    c.check(q + sz <= it->first + it->second, "alloc.undersized", fmt("block of %zu bytes at offset %zu exceeds its base block of %zu bytes", sz, (size_t)(q - it->first), it->second));
    if (q != it->first) splits++;
    // disjoint from the neighbours, both of which must end before / start after
    auto nx = live.lower_bound(q);
    if (nx != live.end()) c.check(q + std::max<size_t>(sz, 1) <= nx->first, "alloc.overlap", fmt("new block [%zx,+%zu) overlaps live block at %zx", q, sz, nx->first));
    if (nx != live.begin()) {
      --nx;
      c.check(nx->first + std::max<size_t>(nx->second, 1) <= q, "alloc.overlap", fmt("new block [%zx,+%zu) overlaps live block at [%zx,+%zu)", q, sz, nx->first, nx->second));
    }
    live[q] = sz;
    Slot sl{p, sz, r.next()};
    paint(sl, false, "");
    s.push_back(sl);
    c.obs("alloc.blocks");
    return true;
  };
  auto drop = [&](size_t i) {
    paint(s[i], true, "alloc.content");
    live.erase((uintptr_t)s[i].p);
    a->deallocate(s[i].p);
    c.check(log->err.empty(), "alloc.base", log->err);
    s.erase(s.begin() + i);
  };
  for (int i = 0; i < n; i++) {
    if (mode == 3 && r.chance(0.1)) log->failNext = (int)r.range(1, 3);
    if (!s.empty() && ((int)s.size() >= maxLive || r.chance(pFree))) {
      int burst = r.chance(0.05) ? (int)s.size() : 1;
      bool lifo = r.chance(0.3);
      for (int k = 0; k < burst; k++) drop(lifo ? s.size() - 1 : r.range(0, s.size() - 1));
    } else {
      size_t sz = genSize(r, profile == 6 ? (int)r.range(0, 5) : profile);
      if (!live.empty() && r.chance(0.2)) sz = s[r.range(0, s.size() - 1)].n;  // same class again
      alloc(sz);
    }
    // a refusal must not poison what follows
    if (mode == 3 && log->failNext == 0 && r.chance(0.05)) {
      log->failP = 0;
      c.check(alloc(r.range(1, 2000)), "alloc.recover", "allocation fails although the base no longer refuses");
    }
  }
  // memory pressure: exactly one refusal, everything else works
  if (mode == 4) {
    log->failNext = 1;
    size_t big = ((size_t)r.range(21, 30) << 20);
    c.check(alloc(big), "alloc.retry", "a single refusal of the base is not survived");
    c.obs("alloc.singleRefusal");
  }
  for (auto& q : s) paint(q, true, "alloc.content");
  while (!s.empty()) drop(r.range(0, s.size() - 1));
  // everything free again: pressure must be able to reclaim every base block
  if (r.chance(0.5) && !log->out.empty()) {
    log->failP = 0;
    log->failNext = 0;
    size_t largest = 0;
    for (auto& q : log->out) largest = std::max(largest, q.second);
    size_t want = std::max<size_t>(largest + (2 << 20), 20 << 20);
    log->budget = std::max<size_t>(log->bytes, want + (2 << 20));
    if (log->bytes + want > log->budget) {
      c.check(alloc(want), "alloc.reclaim", fmt("all blocks are free (%zu bytes cached) but %zu bytes cannot be had", log->bytes, want));
      c.obs("alloc.reclaimed");
      drop(0);
    }
  }
  a.reset();
  c.check(log->err.empty(), "alloc.base", log->err);
  c.check(log->destroyed, "alloc.baseKept", "the base allocator outlives the cache");
  c.check(log->out.empty(), "alloc.notReturned", fmt("%zu base blocks were never returned", log->out.size()));
  c.check(log->calls - log->refused == log->frees, "alloc.unbalanced", "base blocks obtained and returned differ in number");
  c.obs("alloc.split", splits);
  c.obs("alloc.null", nulls);
  c.obs("alloc.rescued", rescued);
  c.obs("alloc.baseBlocks", log->frees);
  c.seen(h);
}

// several threads share one allocator
SUITE(alloc_threads, 8) {
  auto& r = c.rng;
  auto log = std::make_shared<Base::Log>();
  if (r.chance(0.4)) log->failP = 0.2;
  auto a = std::make_unique<tt::CachedAllocator>(std::make_unique<Base>(log));
  tt::CachedAllocator::setCacheEnabled(true);
  struct Off {
    ~Off() { tt::CachedAllocator::setCacheEnabled(false); }
  } off;
  int nt = (int)r.range(2, 6);
  std::vector<std::string> err(nt);
  std::vector<std::thread> th;
  uint64_t seed = r.next();
  std::mutex hm;
  std::vector<Slot> handed;  // blocks freed by another thread than the one that got them
  for (int t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      try {
        vh::Rng q(seed + t * 7919);
        std::vector<Slot> s;
        for (int i = 0; i < 300; i++) {
          if (!s.empty() && q.chance(0.48)) {
            size_t k = q.range(0, s.size() - 1);
            paint(s[k], true, "alloc.threads.content");
            if (q.chance(0.2)) {
              std::lock_guard<std::mutex> g(hm);
              handed.push_back(s[k]);
            } else
              a->deallocate(s[k].p);
            s.erase(s.begin() + k);
          } else if (q.chance(0.1)) {
            Slot z{nullptr, 0, 0};
            {
              std::lock_guard<std::mutex> g(hm);
              if (!handed.empty()) {
                z = handed.back();
                handed.pop_back();
              }
            }
            if (z.p) {
              paint(z, true, "alloc.threads.content");
              a->deallocate(z.p);
            }
          } else {
            size_t n = genSize(q, (int)q.pick<int>({0, 1, 3}));
            auto* p = (uint8_t*)a->allocate((int64_t)n);
            if (!p) continue;
            Slot z{p, n, q.next()};
            paint(z, false, "");
            s.push_back(z);
          }
        }
        for (auto& z : s) {
          paint(z, true, "alloc.threads.content");
          a->deallocate(z.p);
        }
      } catch (const vh::Fail& f) {
        err[t] = f.sig + ": " + f.msg;
      }
    });
  for (auto& t : th) t.join();
  for (auto& e : err) c.check(e.empty(), "alloc.threads", e);
  for (auto& z : handed) {
    paint(z, true, "alloc.threads.content");
    a->deallocate(z.p);
  }
  a.reset();
  c.check(log->err.empty(), "alloc.threads.base", log->err);
  c.check(log->out.empty(), "alloc.threads.notReturned", "base blocks were never returned");
  c.obs("alloc.threads", nt);
  c.seen(seed);
}

// without the cache the base serves everything directly
SUITE(alloc_off, 4) {
  auto& r = c.rng;
  auto log = std::make_shared<Base::Log>();
  tt::CachedAllocator a(std::make_unique<Base>(log));
  std::vector<std::pair<void*, size_t>> s;
  for (int i = 0; i < 60; i++) {
    if (!s.empty() && r.chance(0.4)) {
      a.deallocate(s.back().first);
      s.pop_back();
    } else {
      size_t n = genSize(r, (int)r.range(0, 3));
      if (r.chance(0.1)) log->failNext = 1;
      size_t ref0 = log->refused;
      void* p = a.allocate((int64_t)n);
      c.check((p == nullptr) == (log->refused > ref0), "alloc.off.null");
      if (!p) continue;
      auto it = log->out.find((uintptr_t)p);
      c.check(it != log->out.end() && it->second >= n, "alloc.off.size");
      s.push_back({p, n});
    }
  }
  for (auto& q : s) a.deallocate(q.first);
  c.check(log->out.empty() && log->err.empty(), "alloc.off.balance", log->err);
  c.seen(c.seed);
}

// tensors living on the process-wide cache: values survive any mix of creation, growth and release
SUITE(alloc_tensors, 30) {
  auto& r = c.rng;
  tt::CachedAllocator::setCacheEnabled(true);
  struct Off {
    ~Off() { tt::CachedAllocator::setCacheEnabled(false); }
  } off;
  struct Ent {
    Tensor t;
    uint64_t tag;
  };
  std::vector<Ent> e;
  auto fill = [&](Tensor& t, uint64_t tag) {
    uint8_t* p = (uint8_t*)t.dataPtr<>();
    for (int64_t i = 0; i < t.nbytes(); i++) p[i] = (uint8_t)(vh::mix(tag) + i * 7);
  };
  auto ok = [&](const Ent& q) {
    const uint8_t* p = (const uint8_t*)q.t.dataPtr<>();
    for (int64_t i = 0; i < q.t.nbytes(); i++)
      c.check(p[i] == (uint8_t)(vh::mix(q.tag) + i * 7), "alloc.tensor.content", fmt("byte %lld of a tensor changed", (long long)i));
  };
  int n = (int)r.range(20, 120);
  for (int i = 0; i < n; i++) {
    double d = r.unit();
    if (d < 0.45 || e.empty()) {
      Shape s = genShape(r, 3, r.chance(0.1) ? 40000 : 600);
      Ent q{Tensor::empty(IntArrayView(s), optOf(r.pick<DType>({DType::Float32, DType::Int64, DType::Bool, DType::Float16}), false)), r.next()};
      fill(q.t, q.tag);
      e.push_back(q);
    } else if (d < 0.8) {
      size_t k = r.range(0, e.size() - 1);
      ok(e[k]);
      e.erase(e.begin() + k);
    } else if (d < 0.9) {  // copy, then write to the copy
      Ent q{e[r.range(0, e.size() - 1)].t.clone(), r.next()};
      q.t.copyOnWrite();
      fill(q.t, q.tag);
      e.push_back(q);
    } else {
      tt::Storage st(r.range(0, 3000), tt::Device::cpu());
      memset(st.dataPtr<uint8_t>(), 0x5a, st.size());
    }
    c.obs("alloc.tensor.events");
  }
  for (auto& q : e) ok(q);
  c.seen(c.seed);
}
}  // namespace s_alloc
