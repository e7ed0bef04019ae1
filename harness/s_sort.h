// C05: sort / topk / cumsum contracts
#pragma once
#include "tt.h"
namespace s_sort {
namespace op = tt::op;

template <typename F>
static void lanes(const Shape& s, int64_t dim, F f) {
  int64_t outer = 1, inner = 1;
  for (int64_t i = 0; i < dim; i++) outer *= s[i];
  for (size_t i = dim + 1; i < s.size(); i++) inner *= s[i];
  for (int64_t o = 0; o < outer; o++)
    for (int64_t i = 0; i < inner; i++) f(o, i, inner);
}
static RT genKeys(vh::Rng& r, const Shape& s, DType t) {
  int k = (int)r.range(0, 5);
  RT x = genRT(r, s, t, -50, 50);
  if (k == 1 && t != DType::Bool)
    for (auto& v : x.d) v = (double)r.range(-2, 2);
  if (k == 2) {
    double q = 0;
    for (auto& v : x.d) v = t == DType::Bool ? 1 : (q += 1);
  }
  if (k == 3 && isFloat(t))
    for (auto& v : x.d)
      if (r.chance(0.1)) v = r.pick<double>({INFINITY, -INFINITY, 0, -0.0});
  if (k == 4 && t == DType::Int64)
    for (auto& v : x.d) v = (double)(r.range(-1000, 1000) * 1000003);
  if (k == 5)
    for (auto& v : x.d) v = genWild(r, t, false);
  for (auto& v : x.d) v = roundTo(t, v);
  return x;
}
static Shape sortShape(vh::Rng& r) {
  Shape s = genShape(r, 4, 150, false);
  if (r.chance(0.3)) s[r.range(0, s.size() - 1)] = r.range(1, 40);
  while (numelOf(s) > 1500) s.pop_back();
  if (r.chance(0.02)) s = genWide(r, 3, 150, false, 1);
  return s;
}

SUITE(sort_sort, 400) {
  auto& r = c.rng;
  DType t = allTypes()[c.index % 6];
  Shape s = sortShape(r);
  RT x = genKeys(r, s, t);
  int64_t nd = x.dim(), dim = r.range(0, nd - 1), ad = maybeNeg(r, dim, nd), n = s[dim];
  bool desc = r.chance(0.5);
  bool api = r.chance(0.5);
  c.desc = fmt("sort dim=%lld desc=%d %s x=", (long long)ad, desc, dtn(t)) + rtStr(x);
  Tensor a = mkView(r, x, t);
  tt::TensorPair p = api ? tt::function::sort(a, ad, desc) : op::sort(a, ad, desc);
  c.check(toShape(p.first.shape()) == s && toShape(p.second.shape()) == s, "sort.shape");
  c.check(p.first.dtype() == t && p.second.dtype() == DType::Int64, "sort.dtype");
  RT v = get(p.first), ix = get(p.second);
  lanes(s, dim, [&](int64_t o, int64_t in, int64_t inner) {
    std::vector<bool> used(n, false);
    for (int64_t i = 0; i < n; i++) {
      size_t q = (o * n + i) * inner + in;
      int64_t k = (int64_t)ix.d[q];
      c.check(k >= 0 && k < n && !used[k], "sort.permutation", fmt("index %lld at %zu", (long long)k, q));
      used[k] = true;
      c.check(v.d[q] == x.d[(o * n + k) * inner + in], "sort.value", fmt("value at %zu does not match its index", q));
      if (i) {
        double prev = v.d[q - inner];
        c.check(desc ? prev >= v.d[q] : prev <= v.d[q], "sort.order", fmt("at %zu: %g then %g", q, prev, v.d[q]));
      }
    }
  });
  expectSame(x, get(a), "sort.input");
  c.obs("sort.sort");
  c.seen(fmt("sort%lld%d%s", (long long)ad, desc, dtn(t)) + shapeStr(s));
  if (c.index % 97 == 0) c.sample(c.desc.substr(0, 200));
}

SUITE(sort_topk, 500) {
  auto& r = c.rng;
  DType t = allTypes()[c.index % 6];
  Shape s = sortShape(r);
  RT x = genKeys(r, s, t);
  int64_t nd = x.dim(), dim = r.range(0, nd - 1), ad = maybeNeg(r, dim, nd), n = s[dim];
  int64_t k = r.chance(0.2) ? n : r.range(1, n);
  bool largest = r.chance(0.5), sorted = r.chance(0.7), api = r.chance(0.5);
  c.desc = fmt("topk k=%lld dim=%lld largest=%d sorted=%d %s x=", (long long)k, (long long)ad, largest, sorted, dtn(t)) + rtStr(x);
  Tensor a = mkView(r, x, t);
  tt::TensorPair p = api ? tt::function::topk(a, k, ad, largest, sorted) : op::topk(a, k, ad, largest, sorted);
  Shape os = s;
  os[dim] = k;
  c.check(toShape(p.first.shape()) == os && toShape(p.second.shape()) == os, "topk.shape");
  c.check(p.first.dtype() == t && p.second.dtype() == DType::Int64, "topk.dtype");
  RT v = get(p.first), ix = get(p.second);
  lanes(s, dim, [&](int64_t o, int64_t in, int64_t inner) {
    std::vector<bool> used(n, false);
    std::vector<double> all, got;
    for (int64_t i = 0; i < n; i++) all.push_back(x.d[(o * n + i) * inner + in]);
    for (int64_t i = 0; i < k; i++) {
      size_t q = (o * k + i) * inner + in;
      int64_t id = (int64_t)ix.d[q];
      c.check(id >= 0 && id < n && !used[id], "topk.index", fmt("index %lld at %zu", (long long)id, q));
      used[id] = true;
      c.check(v.d[q] == all[id], "topk.value", fmt("value at %zu does not match its index", q));
      if (i && sorted) {
        double prev = got.back();
        c.check(largest ? prev >= v.d[q] : prev <= v.d[q], "topk.order", fmt("at %zu: %g then %g", q, prev, v.d[q]));
      }
      got.push_back(v.d[q]);
    }
    std::sort(all.begin(), all.end());
    if (largest) std::reverse(all.begin(), all.end());
    std::sort(got.begin(), got.end());
    if (largest) std::reverse(got.begin(), got.end());
    for (int64_t i = 0; i < k; i++) c.check(got[i] == all[i], "topk.extremes", fmt("rank %lld: %g expected %g", (long long)i, got[i], all[i]));
  });
  expectSame(x, get(a), "topk.input");
  c.obs("sort.topk");
  c.seen(fmt("topk%lld %lld%d%d%s", (long long)k, (long long)ad, largest, sorted, dtn(t)) + shapeStr(s));
}

SUITE(sort_cumsum, 300) {
  auto& r = c.rng;
  DType t = allTypes()[c.index % 5];
  Shape s = sortShape(r);
  RT x = genRT(r, s, t, -4, 4);
  if (!isFloat(t) && r.chance(0.4)) {  // integer sums are exact
    int64_t lim = t == DType::Int32 ? 1000000 : 3000000000000;
    for (auto& v : x.d) v = (double)r.range(-lim / (r.chance(0.5) ? 1 : 10), lim);
  }
  int64_t nd = x.dim(), dim = r.range(0, nd - 1), ad = maybeNeg(r, dim, nd), n = s[dim];
  bool api = r.chance(0.5);
  c.desc = fmt("cumsum dim=%lld %s x=", (long long)ad, dtn(t)) + rtStr(x);
  Tensor a = mkView(r, x, t);
  Tensor o = api ? tt::function::cumsum(a, ad) : op::cumsum(a, ad);
  RT ref(s), mag(s);
  lanes(s, dim, [&](int64_t ou, int64_t in, int64_t inner) {
    double v = 0, m = 0;
    for (int64_t i = 0; i < n; i++) {
      size_t q = (ou * n + i) * inner + in;
      v += x.d[q];
      m += fabs(x.d[q]);
      ref.d[q] = v;
      mag.d[q] = m * (i + 1) / 2;
    }
  });
  expectMag(ref, mag.d, o, t, 2, "cumsum");
  expectSame(x, get(a), "cumsum.input");
  c.obs("sort.cumsum");
  c.seen(fmt("cumsum%lld%s", (long long)ad, dtn(t)) + shapeStr(s));
}
}  // namespace s_sort
