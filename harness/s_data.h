// C20: the data loader and the samplers over datasets that record every access
#pragma once
#include <map>
#include <set>

#include "tt.h"

#include "Data/DataLoader.h"
#include "Data/Sampler.h"
namespace s_data {
namespace td = tt::data;

// every element of field f of sample i carries (i, f, element)
static double cellOf(int64_t i, int64_t f, int64_t e, DType t) {
  if (t == DType::Bool) return (double)((i * 7 + f * 3 + e) % 3 == 0);
  if (t == DType::Float16 || t == DType::BFloat16) return (double)((i * 31 + f * 17 + e * 5) % 251);
  return (double)(i * 1009 + f * 101 + e);
}
struct Field {
  Shape shape;
  DType t;
};
struct Recording : td::Dataset {
  size_t n;
  std::vector<Field> fields;
  std::vector<int> hits;
  size_t outOfRange = 0;
  bool viewItems;
  Recording(size_t n, std::vector<Field> f, bool v) : n(n), fields(std::move(f)), hits(n, 0), viewItems(v) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override {
    if (i >= n) {
      outOfRange++;
      i = 0;
    } else
      hits[i]++;
    std::vector<Tensor> r;
    for (size_t f = 0; f < fields.size(); f++) {
      RT x(fields[f].shape);
      for (size_t e = 0; e < x.d.size(); e++) x.d[e] = cellOf((int64_t)i, (int64_t)f, (int64_t)e, fields[f].t);
      if (viewItems && x.numel() > 0) {
        Shape bs = x.shape;
        bs.insert(bs.begin(), 3);
        RT big(bs, 1);
        std::copy(x.d.begin(), x.d.end(), big.d.begin() + x.numel());
        Tensor b = mkPlain(big, fields[f].t);
        r.push_back(Tensor(IntArrayView(x.shape), optOf(fields[f].t), b.storage(), x.numel()));
      } else
        r.push_back(mkPlain(x, fields[f].t));
    }
    return r;
  }
};
struct ListSampler : td::Sampler {
  std::vector<size_t> v;
  explicit ListSampler(std::vector<size_t> v) : v(std::move(v)) {}
  std::vector<size_t> indices() const override { return v; }
  size_t size() const override { return v.size(); }
};
static std::vector<Field> genFields(vh::Rng& r) {
  std::vector<Field> f((size_t)r.range(1, 3));
  for (auto& x : f) {
    x.shape = genShape(r, 3, 12);
    x.t = r.pick(allTypes());
  }
  return f;
}
// a dataset's identity is recovered from the batch only through its cells: field 0 of every dataset is an Int64 id
static void checkBatch(vh::Case& c, const Recording& ds, const std::vector<Tensor>& batch, size_t want, std::vector<size_t>& ids) {
  c.check(batch.size() == ds.fields.size(), "loader.fields", fmt("%zu fields in the batch, samples have %zu", batch.size(), ds.fields.size()));
  std::vector<RT> v;
  for (size_t f = 0; f < batch.size(); f++) {
    c.check(batch[f].dtype() == ds.fields[f].t, "loader.dtype", fmt("field %zu has dtype %s", f, dtn(batch[f].dtype())));
    Shape s = ds.fields[f].shape;
    s.insert(s.begin(), (int64_t)want);
    c.check(toShape(batch[f].shape()) == s, "loader.shape", fmt("field %zu: shape %s, expected %s", f, shapeStr(toShape(batch[f].shape())).c_str(), shapeStr(s).c_str()));
    v.push_back(get(batch[f]));
  }
  for (size_t b = 0; b < want; b++) {
    size_t id = (size_t)((int64_t)v[0].d[b] / 1009);
    c.check(id < ds.n, "loader.id", "a batch row is none of the samples");
    for (size_t f = 0; f < v.size(); f++) {
      size_t k = v[f].d.size() / want;
      for (size_t e = 0; e < k; e++)
        if (v[f].d[b * k + e] != cellOf((int64_t)id, (int64_t)f, (int64_t)e, ds.fields[f].t))
          c.fail("loader.row", fmt("row %zu of field %zu does not hold sample %zu (element %zu is %g)", b, f, id, e, v[f].d[b * k + e]));
    }
    ids.push_back(id);
  }
  c.obs("rows_checked", want);
}

SUITE(loader_epochs, 20) {
  auto& r = c.rng;
  size_t n = (size_t)(r.chance(0.1) ? r.range(0, 2) : r.chance(0.8) ? r.range(1, 60) : r.range(60, 400));
  auto fields = genFields(r);
  fields.insert(fields.begin(), Field{{}, DType::Int64});
  size_t bs = (size_t)(r.chance(0.2) ? 1 : r.chance(0.2) ? std::max<size_t>(1, n) : r.chance(0.15) ? n + (size_t)r.range(1, 9) : (size_t)r.range(1, 24));
  bool dropLast = r.chance(0.5);
  int mode = (int)r.range(0, 5);  // 0 order, 1 shuffle, 2 default, 3 sequential sampler, 4 random sampler, 5 list sampler
  auto ds = std::make_shared<Recording>(n, fields, r.chance(0.3));
  c.desc = fmt("n %zu batch %zu mode %d drop %d fields %zu", n, bs, mode, dropLast, fields.size());
  if (r.chance(0.5)) tt::manualSeed((unsigned long)r.range(0, 1 << 20));
  std::shared_ptr<td::Sampler> smp;
  std::vector<size_t> want;
  for (size_t i = 0; i < n; i++) want.push_back(i);
  bool fixedOrder = mode == 0 || mode >= 3;
  if (mode == 3) smp = std::make_shared<td::SequentialSampler>(n);
  if (mode == 4) {
    smp = std::make_shared<td::RandomSampler>(n, (unsigned long)r.range(0, 100));
    if (r.chance(0.5)) smp->setEpoch((size_t)r.range(0, 50));
    want = smp->indices();
  }
  if (mode == 5) {
    want.clear();
    size_t m = n == 0 ? 0 : (size_t)r.range(0, 40);
    for (size_t k = 0; k < m; k++) want.push_back((size_t)r.range(0, (int64_t)n - 1));
    smp = std::make_shared<ListSampler>(want);
    dropLast = r.chance(0.5);
  }
  std::unique_ptr<td::DataLoader> ld;
  if (mode == 2 && !dropLast) ld = std::make_unique<td::DataLoader>(ds, bs);
  else if (mode <= 2) ld = std::make_unique<td::DataLoader>(ds, bs, nullptr, mode != 0, dropLast);
  else ld = std::make_unique<td::DataLoader>(ds, bs, smp, r.chance(0.5), dropLast);
  size_t total = want.size();
  size_t nb = dropLast ? total / bs : (total / bs + (total % bs != 0));
  size_t covered = dropLast ? nb * bs : total;
  c.check(ld->size() == nb, "loader.size", fmt("size() is %zu, expected %zu", ld->size(), nb));
  c.check(ld->batchSize() == bs, "loader.batchSize");
  c.check(&ld->dataset() == ds.get(), "loader.dataset");
  int epochs = (int)r.range(1, 4);
  for (int e = 0; e < epochs; e++) {
    // an epoch may be abandoned, and another iterator may run in between
    if (r.chance(0.3)) {
      size_t stop = (size_t)r.range(0, (int64_t)nb), k = 0;
      for (auto it = ld->begin(); it != ld->end() && k < stop; ++it, k++) (void)*it;
    }
    std::fill(ds->hits.begin(), ds->hits.end(), 0);
    std::vector<size_t> ids;
    size_t k = 0;
    for (auto [bi, batch] : *ld) {
      c.check(bi == k, "loader.batchIdx", fmt("batch %zu is numbered %zu", k, bi));
      c.check(k < nb, "loader.extraBatch", "more batches than size()");
      size_t rows = std::min(bs, total - k * bs);
      size_t before = ids.size();
      checkBatch(c, *ds, batch, rows, ids);
      c.check(ids.size() - before == rows, "loader.rows");
      k++;
    }
    c.check(k == nb, "loader.batches", fmt("%zu batches were yielded, size() is %zu", k, nb));
    c.check(ds->outOfRange == 0, "loader.range", "getItem was called with an index outside the dataset");
    c.check(ids.size() == covered, "loader.count", fmt("%zu samples were yielded, expected %zu", ids.size(), covered));
    std::vector<int> times(n, 0), exp(n, 0);
    for (auto i : ids) times[i]++;
    if (fixedOrder) {
      for (size_t i = 0; i < covered; i++)
        if (ids[i] != want[i]) c.fail("loader.order", fmt("position %zu holds sample %zu, expected %zu", i, ids[i], want[i]));
    } else {
      for (size_t i = 0; i < n; i++)
        if (times[i] > 1 || (covered == total && times[i] != 1)) c.fail("loader.once", fmt("sample %zu was yielded %d times in one epoch", i, times[i]));
      bool sorted = std::is_sorted(ids.begin(), ids.end());
      if (covered >= 12) c.check(!sorted, "loader.notShuffled", "a shuffled epoch is in order");
    }
    for (size_t i = 0; i < n; i++)
      if (ds->hits[i] != times[i]) c.fail("loader.fetch", fmt("sample %zu was fetched %d times for %d uses", i, ds->hits[i], times[i]));
    c.obs("epochs");
    c.obs("batches", nb);
    if (total % bs) c.obs(dropLast ? "epochs_tail_dropped" : "epochs_tail_kept");
  }
  // two iterators at different positions do not disturb each other
  if (nb >= 2) {
    auto a = ld->begin();
    auto b = ld->begin();
    ++b;
    auto [ia, ba] = *a;
    auto [ib, bb] = *b;
    ++a;
    auto [ia2, ba2] = *a;
    c.check(ia == 0 && ib == 1 && ia2 == 1, "loader.iterators");
    std::vector<size_t> x, y;
    size_t rows = std::min(bs, total - bs);
    checkBatch(c, *ds, bb, rows, x);
    checkBatch(c, *ds, ba2, rows, y);
    c.check(x == y, "loader.iterators", "two iterators at the same position yield different samples");
  }
  c.seen(c.desc);
}

// sizes where rounding in the batch count would show: only counting and the last batches are looked at
struct Huge : td::Dataset {
  size_t n, bad = 0;
  explicit Huge(size_t n) : n(n) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override {
    if (i >= n) bad++;
    return {Tensor::scalar((int64_t)i, tt::options::dtype(DType::Int64))};
  }
};
SUITE(loader_sizes, 1) {
  auto& r = c.rng;
  size_t n = (size_t)(r.chance(0.5) ? (1 << 24) + r.range(-4, 40) : r.range(1000, 3000000));
  auto ds = std::make_shared<Huge>(n);
  bool drop = r.chance(0.5);
  size_t bs = (size_t)(r.chance(0.4) ? r.range(1, 4) : r.range(1, 1000));
  c.desc = fmt("n %zu batch %zu drop %d", n, bs, drop);
  td::DataLoader ld(ds, bs, nullptr, false, drop);
  size_t nb = drop ? n / bs : n / bs + (n % bs != 0);
  c.check(ld.size() == nb, "loader.size", fmt("size() is %zu, expected %zu", ld.size(), nb));
  size_t k = 0;
  for (auto it = ld.begin(); it != ld.end() && k <= nb + 2; ++it) k++;
  c.check(k == nb, "loader.batches", fmt("iterating yields %zu batches, expected %zu", k, nb));
  for (size_t b = nb > 2 ? nb - 2 : 0; b < nb; b++) {
    auto [bi, batch] = *td::DataLoader::Iterator(ld, b);
    size_t rows = std::min(bs, n - b * bs);
    RT v = get(batch[0]);
    c.check(bi == b && v.d.size() == rows, "loader.lastBatch", fmt("batch %zu has %zu rows, expected %zu", b, v.d.size(), rows));
    for (size_t i = 0; i < rows; i++) c.check(v.d[i] == (double)(b * bs + i), "loader.lastBatchValue");
  }
  c.check(ds->bad == 0, "loader.range");
  c.obs("large_sizes");
  c.seen(c.desc);
}

SUITE(samplers, 12) {
  auto& r = c.rng;
  size_t n = (size_t)(r.chance(0.1) ? r.range(0, 2) : r.chance(0.9) ? r.range(2, 200) : r.range(200, 5000));
  c.desc = fmt("samplers n %zu", n);
  td::SequentialSampler s(n);
  c.check(s.size() == n && s.indices().size() == n, "sampler.size");
  for (int rep = 0; rep < 2; rep++) {
    auto v = s.indices();
    for (size_t i = 0; i < n; i++) c.check(v[i] == i, "sampler.sequential");
    s.setEpoch((size_t)r.range(0, 9));
  }
  unsigned long seed = r.chance(0.3) ? 0 : r.chance(0.2) ? (unsigned long)r.next() : (unsigned long)r.range(0, 1000);
  td::RandomSampler a = seed == 0 && r.chance(0.5) ? td::RandomSampler(n) : td::RandomSampler(n, seed), b(n, seed), d(n, seed + 1 + (unsigned long)r.range(50, 90));
  std::map<size_t, std::vector<size_t>> byEpoch;
  byEpoch[0] = a.indices();
  auto perm = [&](const std::vector<size_t>& v) {
    std::vector<char> seenIdx(n, 0);
    c.check(v.size() == n, "sampler.size", fmt("%zu indices for %zu samples", v.size(), n));
    for (auto i : v) {
      c.check(i < n && !seenIdx[i], "sampler.permutation", fmt("index %zu is out of range or repeated", i));
      seenIdx[i] = 1;
    }
  };
  for (int k = 0; k < 8; k++) {
    size_t e = (size_t)r.range(0, 20);
    a.setEpoch(e);
    if (r.chance(0.5)) b.setEpoch((size_t)r.range(0, 20));
    b.setEpoch(e);
    d.setEpoch(e);
    auto v = a.indices();
    perm(v);
    c.check(a.size() == n, "sampler.size");
    c.check(v == b.indices(), "sampler.sameSeed", "two samplers with one seed and epoch disagree");
    c.check(v == a.indices(), "sampler.stable", "indices() changes between calls");
    if (n >= 12) c.check(v != d.indices(), "sampler.otherSeed", "samplers with different seeds agree");
    if (byEpoch.count(e)) c.check(byEpoch[e] == v, "sampler.epochAgain", "returning to an epoch gives another order");
    for (auto& [o, w] : byEpoch)
      if (o != e && n >= 12 && w == v) c.fail("sampler.epochs", fmt("epochs %zu and %zu have the same order", o, e));
    byEpoch[e] = v;
    if (n >= 12) c.check(!std::is_sorted(v.begin(), v.end()), "sampler.notShuffled");
    c.obs("sampler_epochs");
  }
  c.seen(fmt("%zu/%lu", n, seed));
}
}  // namespace s_data
