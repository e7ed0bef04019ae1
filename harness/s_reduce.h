// C04: reductions against slice-wise double references
#pragma once
#include "tt.h"
namespace s_reduce {
namespace op = tt::op;

// calls f(outIdx, list of flat source positions, list of positions along the reduced block)
template <typename F>
static Shape eachSlice(const RT& x, const std::vector<bool>& red, bool keep, F f) {
  Shape os, ks, rs;
  for (size_t i = 0; i < x.shape.size(); i++) {
    if (red[i]) {
      if (keep) os.push_back(1);
      ks.push_back(1);
      rs.push_back(x.shape[i]);
    } else {
      os.push_back(x.shape[i]);
      ks.push_back(x.shape[i]);
    }
  }
  int64_t o = 0;
  forIdx(ks, [&](const Shape& base, int64_t) {
    std::vector<size_t> src;
    forIdx(rs, [&](const Shape& ri, int64_t) {
      Shape j = base;
      size_t q = 0;
      for (size_t i = 0; i < j.size(); i++)
        if (red[i]) j[i] = ri[q++];
      src.push_back(x.flat(j));
    });
    f(o++, src);
  });
  return os;
}

static RT genReduce(vh::Case& c, const Shape& s, DType t, int& kind) {
  auto& r = c.rng;
  kind = (int)r.range(0, 5);
  RT x = genRT(r, s, t, -4, 4);
  if (kind == 1)
    for (auto& v : x.d) v = (double)r.range(-2, 2);  // ties
  if (kind == 2)
    for (auto& v : x.d) v = -fabs(v) - 0.5;
  if (kind == 3)
    for (auto& v : x.d) v = fabs(v) + 0.5;
  if (kind == 2 || kind == 3)
    for (auto& v : x.d) v = roundTo(t, v);
  return x;
}
static void addInf(vh::Rng& r, RT& x) {
  for (auto& v : x.d)
    if (r.chance(0.3)) v = r.chance(0.5) ? INFINITY : -INFINITY;
  if (r.chance(0.3)) {
    double k = r.chance(0.5) ? INFINITY : -INFINITY;
    for (auto& v : x.d) v = k;
  }
}
static Shape reduceShape(vh::Case& c, int64_t maxn = 250) {
  auto& r = c.rng;
  if (r.chance(0.08)) {
    Shape s((size_t)r.range(5, 8));
    for (auto& d : s) d = r.range(1, 3);
    return s;
  }
  if (r.chance(0.1)) return Shape{r.range(1, 30), r.range(1, 30)};
  if (r.chance(0.05)) return Shape{};
  return genShape(r, 4, maxn, false);
}

SUITE(reduce_minmax, 500) {
  auto& r = c.rng;
  DType t = r.pick(floatTypes());
  Shape s = reduceShape(c);
  int kind;
  RT x = genReduce(c, s, t, kind);
  bool inf = r.chance(0.2);
  if (inf) addInf(r, x);
  bool mx = r.chance(0.5), keep = r.chance(0.5);
  Tensor a = mkView(r, x, t);
  int api = (int)r.range(0, 2);
  auto better = [&](double p, double q) { return mx ? p > q : p < q; };
  c.obs(std::string("reduce.") + (mx ? "max" : "min"));
  if (r.chance(0.35)) {
    c.desc = fmt("%s(all) %s x=", mx ? "max" : "min", dtn(t)) + rtStr(x);
    double best = x.d[0];
    for (auto v : x.d)
      if (better(v, best)) best = v;
    Tensor o = api ? (mx ? a.max() : a.min()) : (mx ? op::max(a) : op::min(a));
    expectT(RT(Shape{}, best), o, t, exact(), "reduce.minmax.all");
    Tensor ai = api ? (mx ? a.argmax() : a.argmin()) : (mx ? op::argmax(a) : op::argmin(a));
    c.check(ai.dtype() == DType::Int64 && ai.numel() == 1, "reduce.argminmax.all.shape");
    int64_t k = (int64_t)get(ai).d[0];
    c.check(k >= 0 && k < x.numel() && x.d[k] == best, "reduce.argminmax.all", fmt("index %lld", (long long)k));
    c.seen(fmt("mmall%d%d%s%d", mx, kind, dtn(t), inf) + shapeStr(s));
  } else {
    int64_t nd = x.dim();
    int64_t dim = nd ? r.range(0, nd - 1) : 0;
    std::vector<bool> red(nd, false);
    if (nd) red[dim] = true;
    int64_t ad = nd ? maybeNeg(r, dim, nd) : (r.chance(0.5) ? 0 : -1);
    c.desc = fmt("%s(dim=%lld keep=%d) %s x=", mx ? "max" : "min", (long long)ad, keep, dtn(t)) + rtStr(x);
    tt::TensorPair p;
    Tensor ai;
    if (api == 0) p = mx ? op::maxOnDim(a, ad, keep) : op::minOnDim(a, ad, keep);
    else p = mx ? a.max(ad, keep) : a.min(ad, keep);
    ai = api == 2 ? (mx ? a.argmax(ad, keep) : a.argmin(ad, keep)) : p.second;
    RT ref, idx = get(ai);
    std::vector<double> vals;
    Shape os = eachSlice(x, red, keep, [&](int64_t o, const std::vector<size_t>& src) {
      double best = x.d[src[0]];
      for (auto q : src)
        if (better(x.d[q], best)) best = x.d[q];
      vals.push_back(best);
      c.check(o < idx.numel(), "reduce.argminmax.shape");
      int64_t k = (int64_t)idx.d[o];
      c.check(k >= 0 && k < (int64_t)src.size() && x.d[src[k]] == best, "reduce.argminmax", fmt("slice %lld index %lld", (long long)o, (long long)k));
    });
    ref = RT(os, vals);
    expectT(ref, p.first, t, exact(), "reduce.minmax.dim");
    c.check(toShape(ai.shape()) == os && ai.dtype() == DType::Int64, "reduce.argminmax.shape");
    c.seen(fmt("mmdim%d%d%s%d%d%lld", mx, kind, dtn(t), inf, keep, (long long)ad) + shapeStr(s));
  }
  expectSame(x, get(a), "reduce.input");
  if (c.index % 151 == 0) c.sample(c.desc.substr(0, 200));
}

SUITE(reduce_sum, 800) {
  auto& r = c.rng;
  DType t = r.pick(floatTypes());
  bool half = t != DType::Float32;
  Shape s = reduceShape(c, half ? 60 : 250);
  if (half && numelOf(s) > 120) s = Shape{r.range(2, 9), r.range(2, 9)};
  int kind;
  RT x = genReduce(c, s, t, kind);
  int64_t nd = x.dim();
  int what = (int)r.range(0, 3);  // sum mean var varMean
  bool unb = r.chance(0.5), keep = r.chance(0.5);
  int mode = (int)r.range(0, 2);  // all, dim, dims
  std::vector<bool> red(nd, mode == 0);
  Shape dims;
  if (mode && nd == 0) dims = {0};
  if (mode == 1 && nd) {
    int64_t d = r.range(0, nd - 1);
    red[d] = true;
    dims = {maybeNeg(r, d, nd)};
  } else if (mode == 2 && nd) {
    for (int64_t i = 0; i < nd; i++)
      if (r.chance(0.5)) red[i] = true;
    if (std::find(red.begin(), red.end(), true) == red.end()) red[r.range(0, nd - 1)] = true;
    for (int64_t i = 0; i < nd; i++)
      if (red[i]) dims.push_back(maybeNeg(r, i, nd));
    r.shuffle(dims);
  }
  int64_t cnt = 1;
  for (int64_t i = 0; i < nd; i++)
    if (red[i]) cnt *= x.shape[i];
  if (what >= 2 && (nd == 0 || (unb && cnt < 2))) unb = false;
  if (what >= 2 && nd == 0) what = 1;
  if (what <= 1 && !half && r.chance(0.1) && cnt > 0) {
    // wide dynamic range
    for (auto& v : x.d) v = roundTo(t, v * pow(10, r.range(-3, 3)));
  }
  static const char* nm[] = {"sum", "mean", "var", "varMean"};
  c.desc = fmt("%s mode %d dims=%s keep=%d unbiased=%d %s x=", nm[what], mode, shapeStr(dims).c_str(), keep, unb, dtn(t)) + rtStr(x, 60);
  bool kd = mode == 0 ? false : keep;
  std::vector<double> sum, mean, var, ms, mm, mv;
  Shape os = eachSlice(x, red, kd, [&](int64_t, const std::vector<size_t>& src) {
    double s1 = 0, sa = 0;
    for (auto q : src) s1 += x.d[q], sa += fabs(x.d[q]);
    double n = (double)src.size(), m = s1 / n, v = 0, vm = 0;
    for (auto q : src) {
      double d = x.d[q] - m;
      v += d * d;
      vm += d * d + 2 * fabs(d) * (fabs(x.d[q]) + sa / n) + epsOf(t) * (x.d[q] * x.d[q] + sa * sa / n / n) * n;
    }
    double dn = unb ? n - 1 : n;
    sum.push_back(s1);
    mean.push_back(m);
    var.push_back(v / dn);
    ms.push_back(sa);
    mm.push_back(sa / n);
    mv.push_back(vm / dn);
  });
  Tensor a = mkView(r, x, t);
  int api = (int)r.range(0, 1);
  IntArrayView dv(dims);
  double mul = 2 + cnt;
  c.obs(std::string("reduce.") + nm[what]);
  std::string sig = std::string("reduce.") + nm[what] + (mode == 0 ? ".all" : mode == 1 ? ".dim" : ".dims");
  if (what == 0) {
    Tensor o = mode == 0 ? (api ? a.sum() : op::sum(a)) : mode == 1 ? (api ? a.sum(dims[0], keep) : op::sumOnDim(a, dims[0], keep))
                                                                      : (api ? a.sum(dv, keep) : op::sumOnDims(a, dv, keep));
    expectMag(RT(os, sum), ms, o, t, mul, sig);
  } else if (what == 1) {
    Tensor o = mode == 0 ? (api ? a.mean() : op::mean(a)) : mode == 1 ? (api ? a.mean(dims[0], keep) : op::meanOnDim(a, dims[0], keep))
                                                                        : (api ? a.mean(dv, keep) : op::meanOnDims(a, dv, keep));
    expectMag(RT(os, mean), mm, o, t, mul, sig);
  } else if (what == 2) {
    Tensor o = mode == 0 ? a.var(unb) : mode == 1 ? a.var(dims[0], unb, keep) : a.var(dv, unb, keep);
    expectMag(RT(os, var), mv, o, t, mul, sig);
  } else {
    tt::TensorPair p = mode == 0 ? (api ? a.varMean(unb) : op::varMean(a, unb))
                       : mode == 1 ? (api ? a.varMean(dims[0], unb, keep) : op::varMeanOnDim(a, dims[0], unb, keep))
                                   : (api ? a.varMean(dv, unb, keep) : op::varMeanOnDims(a, dv, unb, keep));
    expectMag(RT(os, var), mv, p.first, t, mul, sig + ".var");
    expectMag(RT(os, mean), mm, p.second, t, mul, sig + ".mean");
  }
  expectSame(x, get(a), "reduce.input");
  c.seen(fmt("%s%d%s%d%d", nm[what], mode, dtn(t), keep, unb) + shapeStr(dims) + shapeStr(s));
  if (c.index % 151 == 0) c.sample(c.desc.substr(0, 200));
}

// a large reduction, and one along each axis of it
SUITE(reduce_large, 6) {
  auto& r = c.rng;
  Shape s{r.range(20, 60), r.range(20, 60), r.range(1, 20)};
  if (r.chance(0.5)) {  // one long dimension, around powers of two
    s = {r.range(1, 3), r.range(1, 3), r.range(1, 3)};
    s[r.range(0, 2)] = std::max<int64_t>(1, ((int64_t)1 << r.range(5, 16)) + r.range(-2, 2));
  }
  RT x = genRT(r, s, DType::Float32, -1, 1);
  Tensor a = mkView(r, x, DType::Float32);
  for (int64_t d = 0; d < 3; d++) {
    std::vector<bool> red(3, false);
    red[d] = true;
    std::vector<double> sum, mag, mxv;
    Shape os = eachSlice(x, red, false, [&](int64_t, const std::vector<size_t>& src) {
      double v = 0, m = 0, b = -INFINITY;
      for (auto q : src) v += x.d[q], m += fabs(x.d[q]), b = std::max(b, x.d[q]);
      sum.push_back(v);
      mag.push_back(m);
      mxv.push_back(b);
    });
    c.desc = "large " + shapeStr(s) + fmt(" dim %lld", (long long)d);
    expectMag(RT(os, sum), mag, a.sum(d), DType::Float32, 64, "reduce.large.sum");
    expectT(RT(os, mxv), a.max(d).first, DType::Float32, exact(), "reduce.large.max");
    auto p = a.max(d == 2 ? -1 : d, false);
    RT ix = get(p.second);
    eachSlice(x, red, false, [&](int64_t o, const std::vector<size_t>& src) {
      int64_t k = (int64_t)ix.d[o];
      c.check(k >= 0 && k < (int64_t)src.size() && x.d[src[k]] == mxv[o], "reduce.large.index", fmt("slice %lld: index %lld", (long long)o, (long long)k));
    });
    for (size_t q = 0; q < sum.size(); q++) sum[q] /= s[d], mag[q] /= s[d];
    expectMag(RT(os, sum), mag, a.mean(d), DType::Float32, 64, "reduce.large.mean");
  }
  double v = 0, m = 0, b = -INFINITY, lo = INFINITY;
  for (double e : x.d) v += e, m += fabs(e), b = std::max(b, e), lo = std::min(lo, e);
  expectMag(RT(Shape{}, v), {m}, a.sum(), DType::Float32, 64, "reduce.large.sumAll");
  expectMag(RT(Shape{}, v / x.numel()), {m / x.numel()}, a.mean(), DType::Float32, 64, "reduce.large.meanAll");
  expectT(RT(Shape{}, b), a.max(), DType::Float32, exact(), "reduce.large.maxAll");
  expectT(RT(Shape{}, lo), a.min(), DType::Float32, exact(), "reduce.large.minAll");
  size_t am = (size_t)get(a.argmax()).d[0], an = (size_t)get(a.argmin()).d[0];
  c.check(am < x.d.size() && x.d[am] == b, "reduce.large.argmax", fmt("%zu", am));
  c.check(an < x.d.size() && x.d[an] == lo, "reduce.large.argmin", fmt("%zu", an));
  double var = 0;
  for (double e : x.d) var += (e - v / x.numel()) * (e - v / x.numel());
  if (x.numel() > 1) expectMag(RT(Shape{}, var / (x.numel() - 1)), {var / (x.numel() - 1) + 1e-3}, a.var(true), DType::Float32, 256 + x.numel() / 16.0, "reduce.large.varAll");
  c.obs("reduce.large");
  c.seen("large" + shapeStr(s));
}
}  // namespace s_reduce
