// C27: the distributed sampler, judged over all replicas together
#pragma once
#include <map>
#include <set>
#include "h_dist.h"
#include "Data/DataLoader.h"
#include "Distributed/DistributedSampler.h"
namespace s_dsamp {
using namespace vh;
namespace td = tt::data;
namespace dist = tinytorch::distributed;
typedef std::vector<size_t> Idx;
struct Conf {
  size_t n, reps;
  bool shuffle, drop;
  unsigned long seed;
  std::string str() const { return fmt("%zu samples, %zu replicas, shuffle %d, drop last %d, seed %lu", n, reps, shuffle, drop, seed); }
};
inline std::vector<std::unique_ptr<dist::DistributedSampler>> make(const Conf& k) {
  std::vector<std::unique_ptr<dist::DistributedSampler>> v;
  for (size_t r = 0; r < k.reps; r++) v.push_back(std::make_unique<dist::DistributedSampler>(k.n, k.reps, r, k.shuffle, k.seed, k.drop));
  return v;
}
// one epoch of all replicas; returns all indices in rank order
inline Idx judge(Case& c, const Conf& k, const std::vector<std::unique_ptr<dist::DistributedSampler>>& s, const std::string& when) {
  size_t per = k.drop ? k.n / k.reps : (k.n + k.reps - 1) / k.reps;
  std::vector<int> hits(k.n, 0);
  Idx all;
  for (size_t r = 0; r < k.reps; r++) {
    Idx ix = s[r]->indices();
    c.check(ix.size() == per && s[r]->size() == per, "dsamp.count", when + fmt(": replica %zu has %zu indices (size() %zu), expected %zu", r, ix.size(), s[r]->size(), per));
    for (size_t x : ix) {
      c.check(x < k.n, "dsamp.range", when + fmt(": replica %zu: index %zu of %zu samples", r, x, k.n));
      hits[x]++;
      all.push_back(x);
    }
  }
  size_t missing = 0, most = 0, extra = 0;
  for (int h : hits) {
    missing += h == 0;
    most = std::max<size_t>(most, h);
    extra += h > 1 ? h - 1 : 0;
  }
  size_t total = per * k.reps;
  if (k.drop) {
    c.check(most <= 1, "dsamp.dropRepeat", when + ": an index repeats although the tail is dropped");
    c.check(missing <= k.reps - 1, "dsamp.dropMissing", when + fmt(": %zu samples missing", missing));
  } else {
    c.check(missing == 0, "dsamp.cover", when + fmt(": %zu samples in no replica", missing));
    if (k.n) c.check(most <= (total + k.n - 1) / k.n, "dsamp.repeat", when + fmt(": an index comes %zu times in %zu places for %zu samples", most, total, k.n));
    c.check(extra == total - k.n || !k.n, "dsamp.pad", when + ": padding");
  }
  return all;
}
inline std::vector<Idx> lists(const std::vector<std::unique_ptr<dist::DistributedSampler>>& s) {
  std::vector<Idx> v;
  for (auto& x : s) v.push_back(x->indices());
  return v;
}
inline void unshuffled(Case& c, const Conf& k, const Idx& all, const std::string& when) {
  // every replica's share is in dataset order, apart from starting again at the beginning
  size_t per = k.reps ? all.size() / k.reps : 0;
  for (size_t r = 0; r < k.reps && per; r++) {
    size_t falls = 0;
    for (size_t i = 1; i < per; i++) falls += all[r * per + i] <= all[r * per + i - 1];
    c.check(falls <= (per * k.reps) / std::max<size_t>(k.n, 1) + 1, "dsamp.order", when + fmt(": replica %zu not in dataset order", r));
    if (per * k.reps <= k.n) c.check(falls == 0, "dsamp.order", when + fmt(": replica %zu not in dataset order", r));
  }
}
// every small size, replica count and setting
SUITE(dsamp_grid, 61) {
  size_t n = c.index % 61;
  auto& r = c.rng;
  for (size_t reps = 1; reps <= 12; reps++)
    for (int f = 0; f < 4; f++) {
      Conf k{n, reps, (f & 1) != 0, (f & 2) != 0, (unsigned long)r.range(0, 1000)};
      c.desc = k.str();
      auto s = make(k);
      std::map<size_t, std::vector<Idx>> at;
      at[0] = lists(s);
      std::vector<size_t> eps{0, 1, (size_t)r.range(2, 50), 0, 1};
      for (size_t e : eps) {
        for (auto& x : s) x->setEpoch(e);
        Idx all = judge(c, k, s, c.desc + fmt(", epoch %zu", e));
        if (!k.shuffle) unshuffled(c, k, all, c.desc);
        auto now = lists(s);
        auto it = at.find(e);
        if (it == at.end()) at[e] = now;
        else c.check(it->second == now, "dsamp.epochAgain", c.desc + fmt(": epoch %zu gives another order the second time", e));
        if (!k.shuffle) c.check(now == at[0], "dsamp.plainEpoch", c.desc + ": epoch changes the unshuffled order");
        c.obs("dsamp.epochs");
      }
      c.seen(c.desc);
    }
}
// larger sets, many epochs, seeds; the shared generator stays untouched and has no influence
SUITE(dsamp_shuffle, 40) {
  auto& r = c.rng;
  Conf k{(size_t)r.range(30, c.thorough ? 5000 : 600), (size_t)r.range(1, r.chance(0.2) ? 64 : 9), true, r.chance(0.5), (unsigned long)r.range(0, 1 << 20)};
  if (k.drop && k.n < 2 * k.reps) k.drop = false;  // the order of a few indices may repeat by chance
  if (r.chance(0.2)) k.seed = (unsigned long)r.range(0, 1);
  if (r.chance(0.1)) k.seed = (unsigned long)r.next();
  c.desc = k.str();
  tt::manualSeed((unsigned)r.range(0, 1000));
  Tensor probe = Tensor::randn({8});
  tt::manualSeed(77);
  RT clean = get(Tensor::randn({8}));
  tt::manualSeed(77);
  auto s = make(k);
  auto first = judge(c, k, s, c.desc);
  expectSame(clean, get(Tensor::randn({8})), "dsamp.sharedGenerator");
  auto t = make(k);
  c.check(lists(t) == lists(s), "dsamp.seedAgain", "the same seed gives another order");
  std::set<Idx> orders;
  std::vector<Idx> per;
  Idx sorted = first;
  orders.insert(first);
  per.push_back(first);
  int E = (int)r.range(3, 12);
  std::vector<size_t> eps;
  for (int e = 0; e < E; e++) eps.push_back(r.chance(0.5) ? (size_t)(e + 1) : (size_t)r.range(1, 100000));
  for (size_t e : eps) {
    tt::manualSeed((unsigned)r.range(0, 1000));
    for (auto& x : s) x->setEpoch(e);
    Idx a = judge(c, k, s, c.desc + fmt(", epoch %zu", e));
    if (orders.insert(a).second) per.push_back(a);
    // another process that jumps to this epoch directly
    auto q = make(k);
    for (auto& x : q) x->setEpoch(e);
    c.check(lists(q) == lists(s), "dsamp.epochJump", fmt("epoch %zu depends on the epochs before it", e));
    c.obs("dsamp.shuffledEpochs");
  }
  std::set<size_t> distinct(eps.begin(), eps.end());
  c.check(orders.size() == distinct.size() + 1, "dsamp.epochsDiffer", fmt("%zu orders in %zu epochs", orders.size(), distinct.size() + 1));
  // a real shuffle: neither the dataset order, nor its reverse, nor a rotation of another epoch's order
  auto rot = [](const Idx& a, const Idx& b) {
    auto p = std::find(b.begin(), b.end(), a[0]);
    if (p == b.end()) return false;
    size_t o = p - b.begin(), n = std::min(a.size(), b.size()), same = 0;
    for (size_t i = 0; i < n; i++) same += a[i] == b[(o + i) % b.size()];
    return same > n / 2 + 4;
  };
  Idx plain(k.n), rev(k.n);
  for (size_t i = 0; i < k.n; i++) plain[i] = i, rev[i] = k.n - 1 - i;
  for (size_t i = 0; i < per.size(); i++) {
    if (per[i].empty()) break;
    c.check(!rot(per[i], plain) && !rot(per[i], rev), "dsamp.notShuffled", "the order is the dataset's, rotated or reversed");
    for (size_t j = 0; j < i; j++) c.check(!rot(per[i], per[j]), "dsamp.rotated", "one epoch's order is another's, rotated");
  }
  Conf k2 = k;
  k2.seed = k.seed + (unsigned long)r.range(1000001, 2000000);
  auto u = make(k2);
  c.check(lists(u) != lists(t), "dsamp.seeds", "another seed gives the same order");
  (void)probe;
  c.seen(c.desc);
}
// over many epochs every sample reaches every replica
SUITE(dsamp_mix, 6) {
  auto& r = c.rng;
  Conf k{(size_t)r.range(8, 40), (size_t)r.range(2, 4), true, r.chance(0.3), (unsigned long)r.range(0, 1000)};
  c.desc = k.str();
  auto s = make(k);
  std::vector<std::vector<int>> cnt(k.reps, std::vector<int>(k.n, 0));
  const int E = 400;
  size_t per = 0;
  for (int e = 0; e < E; e++) {
    for (auto& x : s) x->setEpoch(e);
    for (size_t q = 0; q < k.reps; q++) {
      per = s[q]->size();
      for (size_t x : s[q]->indices()) cnt[q][x]++;
    }
  }
  // binomial: 9 standard deviations
  for (size_t q = 0; q < k.reps; q++)
    for (size_t x = 0; x < k.n; x++) {
      double p = (double)per / k.n, m = E * p, sd = sqrt(E * std::min(p, 1.0) * 1.0);
      c.check(fabs(cnt[q][x] - m) <= 9 * sd + 1, "dsamp.mix", fmt("sample %zu reached replica %zu %d times in %d epochs, expected about %.0f", x, q, cnt[q][x], E, m));
    }
  c.obs("dsamp.mixes");
  c.seen(c.desc);
}
struct Ds : td::Dataset {
  size_t n;
  explicit Ds(size_t n) : n(n) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override {
    RT v({1});
    v.d[0] = (double)i;
    return {mkPlain(v, DType::Int64)};
  }
};
// through the data loader, and with rank and size taken from the process group
SUITE(dsamp_loader, 30) {
  auto& r = c.rng;
  Conf k{(size_t)r.range(0, 80), (size_t)r.range(1, 5), r.chance(0.6), r.chance(0.4), (unsigned long)r.range(0, 1000)};
  c.desc = k.str();
  auto ds = std::make_shared<Ds>(k.n);
  auto s = make(k);
  size_t e = (size_t)r.range(0, 9);
  size_t bs = (size_t)r.range(1, 9);
  for (size_t q = 0; q < k.reps; q++) {
    auto sp = std::shared_ptr<td::Sampler>(std::move(s[q]));
    if (e) sp->setEpoch(e);
    bool dropBatch = r.chance(0.5);
    td::DataLoader dl(ds, bs, sp, r.chance(0.5), dropBatch);
    Idx got;
    for (auto [b, t] : dl) {
      c.check(t.size() == 1, "dsamp.loaderFields", "fields");
      RT v = get(t[0]);
      for (double x : v.d) got.push_back((size_t)x);
    }
    Idx want = sp->indices();
    if (dropBatch) want.resize(want.size() / bs * bs);
    c.check(got == want, "dsamp.loader", fmt("replica %zu: the loader delivers other samples than the sampler lists", q));
  }
  // rank and number of replicas default to the process group's
  fnccl::reset(fnccl::Cfg(), 1);
  hf::Scratch dir;
  size_t rank = (size_t)r.range(0, (int64_t)k.reps - 1);
  auto& pg = dist::DistributedProcessGroup::getInstance();
  c.check(pg->initProcessGroup(dist::NCCL, "file://" + dir.dir, (int)rank, (int)k.reps), "dsamp.init", "initProcessGroup failed");
  {
    dist::DistributedSampler a(k.n, std::nullopt, std::nullopt, k.shuffle, k.seed, k.drop), b(k.n, k.reps, rank, k.shuffle, k.seed, k.drop);
    dist::DistributedSampler a2(k.n, k.reps, std::nullopt, k.shuffle, k.seed, k.drop), a3(k.n, std::nullopt, (rank + 1) % k.reps, k.shuffle, k.seed, k.drop), b3(k.n, k.reps, (rank + 1) % k.reps, k.shuffle, k.seed, k.drop);
    c.check(a.indices() == b.indices() && a2.indices() == b.indices() && a3.indices() == b3.indices(), "dsamp.fromGroup", fmt("rank %zu of %zu taken from the process group gives other indices", rank, k.reps));
    size_t other = (size_t)r.range(0, 6);
    dist::DistributedSampler x(k.n, (size_t)7, other, k.shuffle, k.seed, k.drop);
    pg->destroyProcessGroup();
    dist::DistributedSampler y(k.n, (size_t)7, other, k.shuffle, k.seed, k.drop);
    c.check(x.indices() == y.indices(), "dsamp.explicit", "explicit rank and size depend on the process group");
  }
  c.obs("dsamp.loaders");
  c.seen(c.desc + fmt(" batch %zu", bs));
}
}  // namespace s_dsamp
