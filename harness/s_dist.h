// C23: distributions of random draws, dropout, multinomial sampling and initialisers (concentration bounds with an
// error probability below 1e-14 per statistic)
#pragma once
#include <map>
#include <set>

#include "tt.h"

#include "Initializer.h"
#include "Modules.h"
namespace s_dist {
namespace fn = tt::function;
namespace nn = tt::nn;

static const double L = 33;  // ln(2 / 1e-14)
// Bernstein: deviation of the sum of n independent variables with variance <= v, |x - mean| <= m
static double dev(double n, double v, double m) { return sqrt(2 * n * v * L) + 2.0 / 3 * m * L; }
static void count(vh::Case& c, const char* sig, const std::string& what, double hits, double n, double p) {
  double d = dev(n, p * (1 - p), 1);
  if (!(fabs(hits - n * p) <= d)) c.fail(sig, fmt("%s: %.0f of %.0f, expected %.0f +- %.0f", what.c_str(), hits, n, n * p, d));
  c.obs("statistics");
}
static void seed(vh::Case& c) { tt::manualSeed((unsigned long)c.rng.next()); }
static Shape bigShape(vh::Rng& r, int64_t n) {
  switch (r.range(0, 3)) {
    case 0: return {n};
    case 1: return {n / 50, 50};
    case 2: return {n / 100, 5, 20};
    default: return {n / 7 + 1, 7};
  }
}

// values of a bounded uniform sample
static void uniformStats(vh::Case& c, const std::vector<double>& v, double lo, double hi, DType t, const char* what) {
  double n = (double)v.size(), w = hi - lo;
  double e = t == DType::Float32 ? 2e-7 : epsOf(t);
  double slack = e * std::max(fabs(lo), fabs(hi));
  double s = 0, s2 = 0, mid = (lo + hi) / 2;
  std::vector<double> bins(8);
  double rlo = roundTo(t, (double)(float)lo), rhi = roundTo(t, (double)(float)hi);
  for (auto x : v) {
    if (!(x >= rlo && x <= rhi)) c.fail("uniform.range", fmt("%s: %.9g outside [%g, %g]", what, x, lo, hi));
    s += x - mid;
    s2 += (x - mid) * (x - mid);
    int b = (int)floor((x - lo) / w * 8);
    bins[(size_t)std::min(std::max(b, 0), 7)]++;
  }
  c.check(fabs(s) <= dev(n, w * w / 12, w / 2) + n * slack, "uniform.mean", fmt("%s(%g, %g): mean %g over %g draws", what, lo, hi, mid + s / n, n));
  double ev = w * w / 12, vv = w * w * w * w / 180;
  c.check(fabs(s2 - n * ev) <= dev(n, vv, w * w / 4) + n * slack * w, "uniform.variance", fmt("%s(%g, %g): variance %g, expected %g", what, lo, hi, s2 / n, ev));
  if (t == DType::Float32)
    for (int b = 0; b < 8; b++) count(c, "uniform.bin", fmt("%s(%g, %g) bin %d", what, lo, hi, b), bins[b], n, 0.125);
  // neighbouring elements are unrelated
  for (size_t lag : {1, 2, 5, 20, 50}) {
    if (v.size() < lag * 20) continue;
    double cc = 0;
    size_t m = 0;
    for (size_t i = 0; i + lag < v.size(); i += (i % (2 * lag) == lag - 1 ? lag + 1 : 1), m++) cc += (v[i] - mid) * (v[i + lag] - mid);
    c.check(fabs(cc) <= dev((double)m, w * w * w * w / 144, w * w / 4) + (double)m * slack * w, "uniform.lag", fmt("%s: elements %zu apart are correlated", what, lag));
  }
  c.obs("statistics", 7);
  c.obs("draws", v.size());
}
SUITE(dist_uniform, 10) {
  auto& r = c.rng;
  seed(c);
  int64_t n = c.thorough && r.chance(0.1) ? 400000 : r.range(5000, 30000);
  Shape s = bigShape(r, n);
  DType t = r.chance(0.6) ? DType::Float32 : r.pick(floatTypes());
  double lo = r.chance(0.3) ? 0 : r.uniform(-20, 20), hi = lo + r.pick({1.0, 0.01, 5.0, 40.0});
  if (t != DType::Float32) hi = lo + 10 + fabs(lo);
  lo = (double)(float)lo, hi = (double)(float)hi;
  int how = (int)r.range(0, 4);
  c.desc = fmt("uniform %d(%g, %g) %s %s", how, lo, hi, shapeStr(s).c_str(), dtn(t));
  Tensor x;
  const char* what = "uniform";
  if (how == 0) {
    x = Tensor::rand(IntArrayView(s), optOf(t));
    lo = 0, hi = 1;
    what = "rand";
  } else if (how == 1)
    x = Tensor::uniform(IntArrayView(s), (float)lo, (float)hi, optOf(t));
  else {
    x = Tensor::zeros(IntArrayView(s), optOf(t));
    if (how == 2) x.fillUniform_((float)lo, (float)hi), what = "fillUniform_";
    else nn::Initializer::uniform(x, (float)lo, (float)hi), what = "Initializer::uniform";
  }
  c.check(toShape(x.shape()) == s && x.dtype() == t, "uniform.shape");
  uniformStats(c, get(x).d, lo, hi, t, what);
  c.seen(c.desc);
}

static double Phi(double z) { return 0.5 * erfc(-z / sqrt(2)); }
static void normalStats(vh::Case& c, const std::vector<double>& v, double mean, double sd, DType t, const char* what) {
  double n = (double)v.size(), e = t == DType::Float32 ? 2e-7 : epsOf(t);
  double s = 0, s2 = 0;
  std::vector<double> edges{-2.5, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2.5}, bins(10);
  for (auto x : v) {
    double z = (x - mean) / sd;
    if (!(fabs(z) < 9)) c.fail("normal.tail", fmt("%s(%g, %g) drew %.9g", what, mean, sd, x));
    s += z;
    s2 += z * z;
    size_t b = 0;
    while (b < 9 && z >= edges[b]) b++;
    bins[b]++;
  }
  double slack = e * (fabs(mean) / sd + 3);
  c.check(fabs(s) <= sqrt(2 * n * L) + n * slack, "normal.mean", fmt("%s(%g, %g): mean %g over %g draws", what, mean, sd, mean + sd * s / n, n));
  c.check(fabs(s2 - n) <= 2 * sqrt(n * L) + 2 * L + 2 * n * slack, "normal.variance", fmt("%s(%g, %g): deviation %g", what, mean, sd, sd * sqrt(s2 / n)));
  if (slack < 1e-3)
    for (size_t b = 0; b < 10; b++) {
      double p = (b < 9 ? Phi(edges[b]) : 1) - (b > 0 ? Phi(edges[b - 1]) : 0);
      double d = dev(n, p * (1 - p), 1) + n * slack;
      if (!(fabs(bins[b] - n * p) <= d)) c.fail("normal.bin", fmt("%s(%g, %g): bin %zu has %g of %g, expected %g", what, mean, sd, b, bins[b], n, n * p));
    }
  // neighbours: sign agreement of disjoint pairs is a fair coin
  for (size_t lag : {1, 2, 7}) {
    double agree = 0, m = 0;
    for (size_t i = 0; i + 2 * lag <= v.size(); i += 2 * lag)
      for (size_t k = 0; k < lag; k++, m++) agree += (v[i + k] > mean) == (v[i + k + lag] > mean);
    if (slack < 1e-3) count(c, "normal.lag", fmt("%s: sign agreement %zu apart", what, lag), agree, m, 0.5);
  }
  c.obs("statistics", 12);
  c.obs("draws", v.size());
}
SUITE(dist_normal, 10) {
  auto& r = c.rng;
  seed(c);
  Shape s = bigShape(r, c.thorough && r.chance(0.1) ? 400000 : r.range(5000, 30000));
  DType t = r.chance(0.6) ? DType::Float32 : r.pick(floatTypes());
  double mean = (double)(float)(r.chance(0.3) ? 0 : r.uniform(-5, 5)), sd = (double)(float)r.pick({1.0, 0.1, 3.0, 0.7});
  if (t != DType::Float32) sd = 2;
  int how = (int)r.range(0, 3);
  c.desc = fmt("normal %d(%g, %g) %s %s", how, mean, sd, shapeStr(s).c_str(), dtn(t));
  Tensor x;
  if (how == 0) {
    x = Tensor::randn(IntArrayView(s), optOf(t));
    mean = 0, sd = 1;
  } else {
    x = Tensor::ones(IntArrayView(s), optOf(t));
    if (how == 1) x.fillNormal_((float)mean, (float)sd);
    else if (how == 2) nn::Initializer::normal(x, (float)mean, (float)sd);
    else {
      x.fillNormal_();
      mean = 0, sd = 1;
    }
  }
  c.check(toShape(x.shape()) == s && x.dtype() == t, "normal.shape");
  normalStats(c, get(x).d, mean, sd, t, "normal");
  c.seen(c.desc);
}

// positions of kept elements: overall, in every half, quarter, parity and lag
static void maskStats(vh::Case& c, const std::vector<char>& m, double p, const char* what) {
  size_t n = m.size();
  auto part = [&](const char* name, auto f) {
    double k = 0, h = 0;
    for (size_t i = 0; i < n; i++)
      if (f(i)) k++, h += m[i];
    count(c, (std::string(what) + ".probability").c_str(), fmt("%s with probability %g, %s", what, p, name), h, k, p);
  };
  part("all", [](size_t) { return true; });
  part("first half", [&](size_t i) { return i < n / 2; });
  part("last quarter", [&](size_t i) { return i >= n - n / 4; });
  part("even positions", [](size_t i) { return i % 2 == 0; });
  part("every fifth", [](size_t i) { return i % 5 == 0; });
  for (size_t lag : {1, 2, 5, 20, 50}) {
    double k = 0, h = 0;
    for (size_t i = 0; i + 2 * lag <= n; i += 2 * lag)
      for (size_t q = 0; q < lag; q++, k++) h += m[i + q] == m[i + q + lag];
    count(c, (std::string(what) + ".lag").c_str(), fmt("%s with probability %g: agreement %zu apart", what, p, lag), h, k, p * p + (1 - p) * (1 - p));
  }
  c.obs("draws", n);
}
static double genP(vh::Rng& r) { return r.chance(0.15) ? 0 : r.chance(0.15) ? 1 : r.chance(0.2) ? 0.5 : r.chance(0.3) ? r.pick({0.1, 0.9, 0.01, 0.99}) : r.uniform(0, 1); }
SUITE(dist_bernoulli, 10) {
  auto& r = c.rng;
  seed(c);
  Shape s = bigShape(r, r.range(3000, 20000));
  DType t = r.pick(floatTypes());
  double p = (double)(float)genP(r);
  bool fill = r.chance(0.5);
  c.desc = fmt("bernoulli %d(%g) %s %s", fill, p, shapeStr(s).c_str(), dtn(t));
  Tensor x;
  if (fill) {
    x = Tensor::full(IntArrayView(s), 5.f, optOf(t));
    x.fillBernoulli_((float)p);
  } else
    x = Tensor::bernoulli(IntArrayView(s), (float)p, optOf(t));
  c.check(toShape(x.shape()) == s && x.dtype() == t, "bernoulli.shape");
  std::vector<char> m;
  for (auto v : get(x).d) {
    if (v != 0 && v != 1) c.fail("bernoulli.value", fmt("%g is neither 0 nor 1", v));
    m.push_back(v == 1);
  }
  if (p == 0 || p == 1)
    for (auto v : m) c.check(v == (p == 1), "bernoulli.certain");
  maskStats(c, m, p, "bernoulli");
  c.seen(c.desc);
}

SUITE(dist_dropout, 14) {
  auto& r = c.rng;
  seed(c);
  Shape s = bigShape(r, r.range(2000, 12000));
  DType t = r.chance(0.6) ? DType::Float32 : r.pick(floatTypes());
  double p = (double)(float)genP(r);
  int how = (int)r.range(0, 3);  // 0 function, 1 module, 2 op, 3 attention
  if (how == 3) p = r.uniform(0.1, 0.9), t = DType::Float32;
  c.desc = fmt("dropout %d(%g) %s %s", how, p, shapeStr(s).c_str(), dtn(t));
  std::vector<char> m;
  double scale = 1 / (1 - p);
  if (how == 3) {
    // uniform attention over a key axis of length 16, values = identity: the output is the dropped weights
    int64_t B = r.range(20, 120), K = 16, Q = 3;
    RT eye({B, K, K});
    forIdx(eye.shape, [&](const Shape& i, int64_t f) { eye.d[f] = i[1] == i[2]; });
    RT w = get(fn::sdpAttention(Tensor::zeros({B, Q, 4}), Tensor::zeros({B, K, 4}), mkPlain(eye, DType::Float32), false, {}, (float)p));
    for (auto v : w.d) {
      bool keep = v != 0;
      if (keep && fabs(v * 16 * (1 - p) - 1) > 1e-5) c.fail("dropout.scale", fmt("attention weight %.9g, expected 0 or %.9g", v, scale / 16));
      m.push_back(keep);
    }
    maskStats(c, m, 1 - p, "dropout");
    c.seen(c.desc);
    return;
  }
  RT v = genRT(r, s, t, -3, 3);
  for (auto& x : v.d)
    if (fabs(x) < 0.01) x = roundTo(t, 0.5);
  bool grad = r.chance(0.5);
  Tensor x = mkPlain(v, t, how < 2 && grad);
  bool train = how == 2 || r.chance(0.8);
  Tensor y;
  if (how == 0) y = train && p == 0.5 && r.chance(0.5) ? fn::dropout(x) : fn::dropout(x, (float)p, train);
  else if (how == 1) {
    nn::Dropout d((float)p);
    if (!train) d.eval();
    y = d(x);
  } else
    y = tt::op::dropout(x, (float)(1 - p));
  c.check(toShape(y.shape()) == s && y.dtype() == t, "dropout.shape");
  expectSame(v, get(x), "dropout.input");
  RT g = get(y);
  if (!train) {
    expectSame(v, g, "dropout.eval");
    c.obs("eval_identity");
  } else {
    for (size_t i = 0; i < g.d.size(); i++) {
      bool keep = g.d[i] != 0;
      if (keep && !(fabs(g.d[i] - v.d[i] * scale) <= 4 * epsOf(t) * fabs(v.d[i] * scale) + 1e-6) && fabs(v.d[i] * scale) < 6e4)
        c.fail("dropout.scale", fmt("element %zu: %.9g became %.9g, expected 0 or %.9g", i, v.d[i], g.d[i], v.d[i] * scale));
      m.push_back(keep);
    }
    if (p == 0 || p == 1)
      for (auto k : m) c.check(k == (p == 0), "dropout.certain");
    maskStats(c, m, 1 - p, "dropout");
  }
  if (how < 2 && grad && y.requiresGrad()) {
    Tensor G = mkPlain(RT(s, 1), t);
    y.backward(G);
    RT gx = get(x.grad());
    for (size_t i = 0; i < gx.d.size(); i++) {
      double w = !train ? 1 : m[i] ? scale : 0;
      if (!(fabs(gx.d[i] - w) <= 4 * epsOf(t) * w) && w < 6e4) c.fail("dropout.grad", fmt("gradient of element %zu is %.9g, expected %.9g", i, gx.d[i], w));
    }
    c.obs("gradients");
  }
  c.seen(c.desc);
}

SUITE(dist_multinomial, 14) {
  auto& r = c.rng;
  seed(c);
  int64_t n = r.range(1, 12);
  bool two = r.chance(0.6);
  DType t = r.chance(0.7) ? DType::Float32 : r.pick(floatTypes());
  bool repl = r.chance(0.5);
  int64_t B = two ? r.range(1, 4) : 1;
  bool sameRows = two && r.chance(0.5);
  if (sameRows) B = r.range(1500, 4000);
  auto row = [&] {
    std::vector<double> w((size_t)n);
    double tot = 0;
    do {
      tot = 0;
      double mag = r.pick({1.0, 1.0, 100.0, 0.01});
      for (auto& x : w) tot += x = r.chance(0.3) ? 0 : roundTo(t, r.uniform(0.05, 1) * mag);
      if (r.chance(0.2)) {
        tot -= w.back();
        w.back() = 0;
      }
      if (r.chance(0.1)) w.front() = 0, tot = 0, std::for_each(w.begin(), w.end(), [&](double x) { tot += x; });
    } while (tot <= 0);
    return w;
  };
  RT W(two ? Shape{B, n} : Shape{n});
  std::vector<double> first = row();
  int64_t support = n;
  for (int64_t b = 0; b < B; b++) {
    auto w = sameRows || b == 0 ? first : row();
    std::copy(w.begin(), w.end(), W.d.begin() + b * n);
    support = std::min<int64_t>(support, std::count_if(w.begin(), w.end(), [](double x) { return x > 0; }));
  }
  int64_t k = repl ? (sameRows ? r.range(1, 5) : r.range(1, 4000)) : r.range(1, support);
  if (!repl && r.chance(0.3)) k = support;
  c.desc = fmt("multinomial n %lld rows %lld (same %d) k %lld repl %d %s: %s", (long long)n, (long long)B, sameRows, (long long)k, repl, dtn(t), rtStr(W, 12).c_str());
  Tensor p = r.chance(0.3) && B < 100 ? mkView(r, W, t) : mkPlain(W, t, r.chance(0.1));
  Tensor x = r.chance(0.5) ? fn::multinomial(p, k, repl) : tt::op::multinomial(p, k, repl);
  c.check(toShape(x.shape()) == (two ? Shape{B, k} : Shape{k}), "multinomial.shape", shapeStr(toShape(x.shape())));
  c.check(x.dtype() == DType::Int64, "multinomial.dtype");
  RT g = get(x);
  std::vector<double> hist((size_t)n), hist2((size_t)n);
  for (int64_t b = 0; b < B; b++) {
    const double* w = &W.d[(size_t)(b * n)];
    std::vector<int> used((size_t)n);
    std::vector<double> rowHist((size_t)n);
    for (int64_t j = 0; j < k; j++) {
      double id = g.d[(size_t)(b * k + j)];
      if (!(id >= 0 && id < (double)n)) c.fail("multinomial.range", fmt("row %lld drew outcome %g of %lld", (long long)b, id, (long long)n));
      if (w[(int)id] <= 0) c.fail("multinomial.zeroWeight", fmt("row %lld drew outcome %g, whose weight is zero", (long long)b, id));
      if (used[(int)id]++ && !repl) c.fail("multinomial.repeat", fmt("row %lld drew outcome %g twice", (long long)b, id));
      rowHist[(int)id]++;
      if (j == 0) hist[(int)id]++;
      if (j == 1) hist2[(int)id]++;
    }
    double tot = 0;
    for (int64_t i = 0; i < n; i++) tot += w[i];
    if (repl)
      for (int64_t i = 0; i < n; i++) count(c, "multinomial.weight", fmt("row %lld outcome %lld", (long long)b, (long long)i), rowHist[i], (double)k, w[i] / tot);
    c.obs("draws", (uint64_t)k);
  }
  if (sameRows) {
    double tot = 0;
    for (auto w : first) tot += w;
    for (int64_t i = 0; i < n; i++) count(c, "multinomial.first", fmt("first draw, outcome %lld", (long long)i), hist[i], (double)B, first[i] / tot);
    if (k > 1) {
      for (int64_t i = 0; i < n; i++) {
        double q = 0;
        if (repl) q = first[i] / tot;
        else
          for (int64_t j = 0; j < n; j++)
            if (j != i && first[j] > 0) q += first[j] / tot * first[i] / (tot - first[j]);
        count(c, "multinomial.second", fmt("second draw, outcome %lld", (long long)i), hist2[i], (double)B, std::min(q, 1.0));
      }
    }
    c.obs("row_ensembles");
  }
  if (!repl && k == support) c.obs("exhausted_supports");
  c.seen(c.desc);
}
// weights near the bottom of the range still give an outcome
SUITE(dist_tiny_weights, 2) {
  auto& r = c.rng;
  seed(c);
  int64_t n = r.range(1, 6);
  RT w({n});
  for (auto& x : w.d) x = r.chance(0.3) ? 0 : ldexp(1.0, -(int)r.range(140, 149)) * (double)r.range(1, 1);
  w.d[(size_t)r.range(0, n - 1)] = ldexp(1.0, -149);
  int64_t support = std::count_if(w.d.begin(), w.d.end(), [](double x) { return x > 0; });
  bool repl = r.chance(0.5);
  int64_t k = repl ? 50 : support;
  c.desc = "multinomial " + rtStr(w);
  RT g = get(fn::multinomial(mkPlain(w, DType::Float32), k, repl));
  std::set<double> seenIds;
  for (auto id : g.d) {
    c.check(id >= 0 && id < (double)n && w.d[(size_t)id] > 0, "multinomial.tiny", fmt("drew outcome %g", id));
    if (!repl) c.check(seenIds.insert(id).second, "multinomial.repeat");
  }
  c.obs("tiny_weights");
  c.seen(c.desc);
}

SUITE(dist_init, 14) {
  auto& r = c.rng;
  seed(c);
  int what = (int)r.range(0, 4);
  auto bounded = [&](const RT& v, double bound, const char* name) {
    double mx = 0;
    for (auto x : v.d) {
      if (!(fabs(x) <= bound * (1 + 1e-6))) c.fail("init.bound", fmt("%s holds %.9g, the bound is %.9g", name, x, bound));
      mx = std::max(mx, fabs(x));
    }
    // all n draws below (1 - q) of the bound has probability (1 - q)^n
    double n = (double)v.d.size();
    if (n > 40) c.check(mx >= bound * (1 - L / n), "init.reach", fmt("%s: the largest of %g values is %.9g, the bound is %.9g", name, n, mx, bound));
    if (n >= 1000) uniformStats(c, v.d, -bound * (1 + 1e-6), bound * (1 + 1e-6), DType::Float32, name);
    c.obs("tensors_initialised");
  };
  if (what == 0) {
    int64_t in = r.range(1, 300), out = r.range(1, 60);
    bool bias = r.chance(0.7);
    c.desc = fmt("Linear(%lld, %lld)", (long long)in, (long long)out);
    nn::Linear m(in, out, bias);
    m.initParameters();
    auto ps = m.parameters();
    c.check(ps.size() == (bias ? 2u : 1u), "init.params");
    bounded(get(*ps[0]), 1 / sqrt((double)in), "Linear weight");
    if (bias) bounded(get(*ps[1]), 1 / sqrt((double)in), "Linear bias");
  } else if (what == 1) {
    int64_t in = r.range(1, 12), out = r.range(1, 40), kh = r.range(1, 5), kw = r.range(1, 5);
    bool bias = r.chance(0.7);
    c.desc = fmt("Conv2D(%lld, %lld, %lldx%lld)", (long long)in, (long long)out, (long long)kh, (long long)kw);
    nn::Conv2D m(in, out, tt::Dim2D(kh, kw), 1, 0, bias);
    m.initParameters();
    auto ps = m.parameters();
    bounded(get(*ps[0]), 1 / sqrt((double)(in * kh * kw)), "Conv2D weight");
    if (bias) bounded(get(*ps[1]), 1 / sqrt((double)(in * kh * kw)), "Conv2D bias");
  } else if (what == 2) {
    int64_t n = r.range(20, 100), d = r.range(50, 200);
    c.desc = fmt("Embedding(%lld, %lld)", (long long)n, (long long)d);
    nn::Embedding m(n, d);
    m.initParameters();
    normalStats(c, get(*m.parameters()[0]).d, 0, 1, DType::Float32, "Embedding weight");
    c.obs("tensors_initialised");
  } else if (what == 3) {
    Shape s;
    int nd = (int)r.range(2, 5);
    for (int i = 0; i < nd; i++) s.push_back(r.range(1, i < 2 ? 30 : 5));
    float a = r.pick({0.f, 1.f, 0.2f, 2.2360680f});
    bool out = r.chance(0.5);
    c.desc = fmt("kaimingUniform %s a %g %s", shapeStr(s).c_str(), a, out ? "fan out" : "fan in");
    double rf = 1;
    for (int i = 2; i < nd; i++) rf *= (double)s[i];
    double fan = (double)(out ? s[0] : s[1]) * rf;
    Tensor t = Tensor::full(IntArrayView(s), 9.f);
    auto [fi, fo] = nn::Initializer::calculateFan(t);
    c.check((double)fi == (double)s[1] * rf && (double)fo == (double)s[0] * rf, "init.fan", fmt("fans %lld, %lld", (long long)fi, (long long)fo));
    nn::Initializer::kaimingUniform(t, a, out ? nn::FanMode::FAN_OUT : nn::FanMode::FAN_IN);
    bounded(get(t), sqrt(2 / (1 + (double)a * a)) * sqrt(3.0 / fan), "kaimingUniform");
    c.check(fabs(nn::Initializer::calculateGain(a) - sqrt(2 / (1 + (double)a * a))) < 1e-6, "init.gain");
  } else {
    int64_t d = r.range(1, 40);
    c.desc = fmt("norm layers and constants %lld", (long long)d);
    nn::LayerNorm l({d});
    nn::RMSNorm q({d});
    Tensor z = Tensor::rand({d, 3}), o = Tensor::rand({3, d});
    for (auto* p : l.parameters()) p->fillUniform_(2, 3);
    for (auto* p : q.parameters()) p->fillUniform_(2, 3);
    l.initParameters();
    q.initParameters();
    auto ps = l.parameters();
    for (auto v : get(*ps[0]).d) c.check(v == 1, "init.norm");
    for (auto v : get(*ps[1]).d) c.check(v == 0, "init.norm");
    for (auto v : get(*q.parameters()[0]).d) c.check(v == 1, "init.norm");
    nn::Initializer::zeros(z);
    nn::Initializer::ones(o);
    for (auto v : get(z).d) c.check(v == 0, "init.zeros");
    for (auto v : get(o).d) c.check(v == 1, "init.ones");
    c.obs("tensors_initialised", 5);
  }
  c.seen(c.desc);
}
}  // namespace s_dist
