// C07: layers, activations, normalisation, attention and losses
#pragma once
#include "tt.h"

#include "Modules.h"
namespace s_nn {
namespace op = tt::op;
namespace fn = tt::function;
namespace nn = tt::nn;

static RT genV(vh::Rng& r, const Shape& s, DType t, bool ints, double lim = 3) {
  RT x(s);
  for (auto& v : x.d) v = ints ? (double)r.range(-2, 2) : genVal(r, t, -lim, lim);
  return x;
}
static void verdict(const RT& ref, const std::vector<double>& mag, const Tensor& got, DType t, bool ex, const std::string& sig) {
  if (ex) expectT(ref, got, t, exact(), sig);
  else expectMag(ref, mag, got, t, 1.5, sig);
}
static void setP(Tensor& p, const RT& v) { writeRaw(p, v.d); }

// ---- activations ----
SUITE(nn_activation, 200) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  int k = (int)r.range(0, 2), how = (int)r.range(0, 2);
  Shape s = genWide(r, 5, 200);
  RT x = genRT(r, s, t, -6, 6);
  if (r.chance(0.2))
    for (auto& v : x.d)
      if (r.chance(0.2)) v = r.pick<double>({-30, 30, -100, 80, 0, -0.0, INFINITY});
  static const char* nm[] = {"relu", "gelu", "silu"};
  c.desc = fmt("%s how=%d %s x=", nm[k], how, dtn(t)) + rtStr(x);
  Tensor a = mkView(r, x, t);
  Tensor o;
  if (k == 0) {
    if (how == 0) o = fn::relu(a);
    else if (how == 1) o = nn::Relu()(a);
    else o = op::clampMin(a, Tensor::scalar(0, optOf(t)));
  } else if (k == 1) o = how == 0 ? fn::gelu(a) : how == 1 ? nn::Gelu()(a) : op::gelu(a);
  else o = how == 0 ? fn::silu(a) : how == 1 ? nn::Silu()(a) : op::silu(a);
  RT ref = map1(x, [&](double v) {
    if (k == 0) return v > 0 ? v : 0.0;
    if (k == 1) return 0.5 * v * (1 + tanh(0.7978845608028654 * (v + 0.044715 * v * v * v)));
    return v / (1 + exp(-v));
  });
  std::vector<double> mag;
  for (auto v : x.d) mag.push_back(std::isinf(v) ? 1 : std::max(fabs(v), v * v * fabs(v) > 1e4 ? fabs(v) : fabs(v) * (1 + fabs(v))));
  if (k == 0) expectT(ref, o, t, exact(), "relu");
  else expectMag(ref, mag, o, t, 6, nm[k]);
  expectSame(x, get(a), std::string(nm[k]) + ".input");
  c.obs(std::string("nn.") + nm[k]);
  c.seen(fmt("%s%d%s", nm[k], how, dtn(t)) + shapeStr(s));
}

SUITE(nn_silumul, 60) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  Shape s = genShape(r, 4, 60, false);
  s.back() *= 2;
  RT x = genRT(r, s, t, -4, 4);
  c.desc = fmt("siluMul %s x=", dtn(t)) + rtStr(x);
  Tensor a = mkView(r, x, t);
  Tensor o = r.chance(0.5) ? fn::siluMul(a) : op::siluMul(a);
  Shape os = s;
  os.back() /= 2;
  RT ref(os), mag(os);
  int64_t h = os.back();
  for (int64_t i = 0; i < (int64_t)ref.d.size(); i++) {
    double g = x.d[i / h * 2 * h + i % h], u = x.d[i / h * 2 * h + h + i % h];
    ref.d[i] = g / (1 + exp(-g)) * u;
    mag.d[i] = fabs(g * u);
  }
  expectMag(ref, mag.d, o, t, 8, "siluMul");
  c.obs("nn.siluMul");
  c.seen(fmt("silumul%s", dtn(t)) + shapeStr(s));
}

// ---- softmax ----
SUITE(nn_softmax, 300) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  Shape s = genShape(r, 5, 200, false);
  if (r.chance(0.2)) s[r.range(0, s.size() - 1)] = r.range(1, 33);
  while (numelOf(s) > 1500) s.pop_back();
  if (t == DType::Float32 && r.chance(0.02)) s = genWide(r, 3, 200, false, 1);
  bool lg = r.chance(0.5);
  int how = (int)r.range(0, 3), kind = (int)r.range(0, 5);
  RT x = genRT(r, s, t, -4, 4);
  if (kind == 1)
    for (auto& v : x.d) v = roundTo(t, v + (t == DType::Float32 ? 1000 : 60));  // large offset: exp overflows unless shifted
  if (kind == 2)
    for (auto& v : x.d) v = roundTo(t, v * (t == DType::Float16 ? 500. : 2e4));
  if (kind == 3)
    for (auto& v : x.d) v = roundTo(t, v - (t == DType::Float32 ? 2000 : 70));
  int64_t nd = x.dim(), dim = r.range(0, nd - 1), ad = maybeNeg(r, dim, nd), n = s[dim];
  if (kind == 4 && n > 1) {
    int64_t inner = 1;
    for (size_t i = dim + 1; i < s.size(); i++) inner *= s[i];
    int64_t keep = r.range(0, n - 1);
    for (size_t i = 0; i < x.d.size(); i++)
      if ((int64_t)(i / inner) % n != keep && r.chance(0.3)) x.d[i] = -INFINITY;
  }
  const char* nm = lg ? "logSoftmax" : "softmax";
  c.desc = fmt("%s dim=%lld how=%d %s x=", nm, (long long)ad, how, dtn(t)) + rtStr(x);
  Tensor a = mkView(r, x, t);
  Tensor o;
  switch (how) {
    case 0: o = lg ? fn::logSoftmax(a, ad) : fn::softmax(a, ad); break;
    case 1: o = lg ? nn::LogSoftmax(ad)(a) : nn::Softmax(ad)(a); break;
    case 2: o = lg ? op::logSoftmax(a, ad) : op::softmax(a, ad); break;
    default:
      o = mkPlain(RT(s, 7), t);
      if (lg) op::logSoftmaxOut(o, a, ad);
      else op::softmaxOut(o, a, ad);
  }
  RT ref(s), mag(s);
  int64_t inner = 1;
  for (size_t i = dim + 1; i < s.size(); i++) inner *= s[i];
  int64_t outer = numelOf(s) / (inner * n);
  RT g = get(o);
  for (int64_t ou = 0; ou < outer; ou++)
    for (int64_t in = 0; in < inner; in++) {
      auto at = [&](int64_t i) { return (size_t)((ou * n + i) * inner + in); };
      double mx = -INFINITY, sum = 0, tot = 0, amax = 0;
      for (int64_t i = 0; i < n; i++) {
        mx = std::max(mx, x.d[at(i)]);
        if (std::isfinite(x.d[at(i)])) amax = std::max(amax, fabs(x.d[at(i)]));
      }
      for (int64_t i = 0; i < n; i++) sum += exp(x.d[at(i)] - mx);
      for (int64_t i = 0; i < n; i++) {
        double z = x.d[at(i)] - mx;
        ref.d[at(i)] = lg ? z - log(sum) : exp(z) / sum;
        // rounding of the shifted argument and of the running sum
        mag.d[at(i)] = lg ? (std::isfinite(z) ? fabs(z) + fabs(log(sum)) : 0) + n + 2 : ref.d[at(i)] * (std::isfinite(z) ? fabs(z) : 0) + ref.d[at(i)] * (n + 4);
      }
      if (g.shape == s && !lg) {
        for (int64_t i = 0; i < n; i++) {
          c.check(g.d[at(i)] >= 0 && std::isfinite(g.d[at(i)]), "softmax.range", fmt("element %zu is %g", at(i), g.d[at(i)]));
          tot += g.d[at(i)];
        }
        c.check(fabs(tot - 1) <= epsOf(t) * 2 * (n + 3), "softmax.sum", fmt("slice sums to %.9g", tot));
      }
    }
  expectMag(ref, mag.d, o, t, 2, nm);
  expectSame(x, get(a), std::string(nm) + ".input");
  c.obs(std::string("nn.") + nm);
  c.seen(fmt("%s%lld%d%d%s", nm, (long long)ad, how, kind, dtn(t)) + shapeStr(s));
}

// ---- losses ----
static Tensor lossCall(vh::Rng& r, bool nll, Tensor& in, Tensor& tg, tt::LossReduction red) {
  switch (r.range(0, 2)) {
    case 0: return nll ? fn::nllLoss(in, tg, red) : fn::mseLoss(in, tg, red);
    case 1: return nll ? op::nllLoss(in, tg, red) : op::mseLoss(in, tg, red);
    default: {
      if (nll) return nn::NLLLoss(red)(in, tg);
      return nn::MSELoss(red)(in, tg);
    }
  }
}
SUITE(nn_loss, 300) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  bool nll = r.chance(0.5);
  auto red = r.pick<tt::LossReduction>({tt::LossReduction::NONE, tt::LossReduction::MEAN, tt::LossReduction::SUM});
  RT ref;
  Tensor o;
  double sum = 0, mg = 0;
  int64_t n = 0;
  if (nll) {
    int64_t b = r.range(1, 20), k = r.range(1, 12);
    if (t == DType::Float32 && r.chance(0.03)) b = r.range(1, 600), k = r.range(1, 300);
    RT x = genRT(r, {b, k}, t, -5, 0);
    RT y({b});
    for (auto& v : y.d) v = (double)r.range(0, k - 1);
    c.desc = fmt("nllLoss red=%d %s y=", (int)red, dtn(t)) + rtStr(y) + " x=" + rtStr(x);
    Tensor in = mkView(r, x, t), tg = mkView(r, y, DType::Int64);
    o = lossCall(r, true, in, tg, red);
    ref = RT({b});
    for (int64_t i = 0; i < b; i++) ref.d[i] = -x.d[i * k + (int64_t)y.d[i]];
    n = b;
    expectSame(x, get(in), "nllLoss.input");
    c.seen(fmt("nll%d%s%lld,%lld", (int)red, dtn(t), (long long)b, (long long)k));
  } else {
    Shape s = genShape(r, 4, 60);
    RT x = genRT(r, s, t, -3, 3), y = genRT(r, s, t, -3, 3);
    c.desc = fmt("mseLoss red=%d %s x=", (int)red, dtn(t)) + rtStr(x) + " y=" + rtStr(y);
    Tensor in = mkView(r, x, t), tg = mkView(r, y, t);
    o = lossCall(r, false, in, tg, red);
    ref = map2(x, y, [](double a, double b) { return (a - b) * (a - b); });
    n = numelOf(s);
    expectSame(x, get(in), "mseLoss.input");
    c.seen(fmt("mse%d%s", (int)red, dtn(t)) + shapeStr(s));
  }
  const char* nm = nll ? "nllLoss" : "mseLoss";
  if (red == tt::LossReduction::NONE) {
    std::vector<double> mag;
    for (auto v : ref.d) mag.push_back(fabs(v) + sqrt(fabs(v)) * 3);
    expectMag(ref, mag, o, t, 4, std::string(nm) + ".none");
  } else {
    for (auto v : ref.d) sum += v, mg += fabs(v) + sqrt(fabs(v)) * 3;
    double dv = red == tt::LossReduction::MEAN ? (double)n : 1;
    // halves accumulate in their own precision: n roundings of a value up to the total
    expectMag(RT(Shape{}, sum / dv), {mg / dv * (n + 2)}, o, t, 2, std::string(nm) + (red == tt::LossReduction::MEAN ? ".mean" : ".sum"));
  }
  c.obs(std::string("nn.") + nm);
}

// ---- linear ----
SUITE(nn_linear, 250) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  bool ex = r.chance(0.6), bias = r.chance(0.6), mod = r.chance(0.5);
  int64_t in = r.range(1, 12), out = r.range(1, 9);
  Shape s = genShape(r, 4, 40, true);
  if (t == DType::Float32 && r.chance(0.02)) {  // sizes at which an implementation may switch its method
    in = r.range(1, 600), out = r.range(1, 70);
    s = r.chance(0.5) ? Shape{r.range(1, 130)} : Shape{r.range(1, 3), r.range(1, 40)};
  }
  s.push_back(in);
  RT x = genV(r, s, t, ex), w = genV(r, {out, in}, t, ex), b = genV(r, {out}, t, ex);
  c.desc = fmt("linear %s bias=%d module=%d x=", dtn(t), bias, mod) + rtStr(x) + " w=" + rtStr(w) + " b=" + rtStr(b);
  Tensor tx = mkView(r, x, t), o;
  if (mod) {
    nn::Linear l(in, out, bias, optOf(t));
    setP(l.weight(), w);
    if (bias) setP(l.bias(), b);
    o = l(tx);
  } else
    o = bias ? fn::linear(tx, mkView(r, w, t), mkView(r, b, t)) : fn::linear(tx, mkView(r, w, t));
  Shape os = s;
  os.back() = out;
  RT ref(os), mag(os);
  for (size_t q = 0; q < ref.d.size(); q++) {
    size_t row = q / out, j = q % out;
    double v = 0, g = 0;
    for (int64_t p = 0; p < in; p++) {
      double y = x.d[row * in + p] * w.d[j * in + p];
      v += y, g += fabs(y);
    }
    if (bias) v += b.d[j], g += fabs(b.d[j]);
    ref.d[q] = v;
    mag.d[q] = g * (in + 2);
  }
  verdict(ref, mag.d, o, t, ex, "linear");
  expectSame(x, get(tx), "linear.input");
  c.obs("nn.linear");
  c.seen(fmt("lin%s%d%d%lld", dtn(t), bias, mod, (long long)out) + shapeStr(s));
}

// ---- convolution / pooling geometry ----
struct Geo {
  int64_t N, C, H, W, kh, kw, sh, sw, ph, pw, OH, OW;
  std::string str() const {
    return fmt("N%lld C%lld %lldx%lld k%lldx%lld s%lldx%lld p%lldx%lld", (long long)N, (long long)C, (long long)H, (long long)W, (long long)kh,
               (long long)kw, (long long)sh, (long long)sw, (long long)ph, (long long)pw);
  }
};
static Geo genGeo(vh::Rng& r, bool pool, bool wide = false) {
  while (true) {
    Geo g;
    g.N = r.range(1, 3);
    g.C = r.range(1, 4);
    g.H = r.range(1, 8);
    g.W = r.range(1, 8);
    g.kh = r.range(1, 4);
    g.kw = r.chance(0.5) ? g.kh : r.range(1, 4);
    g.sh = r.range(1, 3);
    g.sw = r.chance(0.5) ? g.sh : r.range(1, 3);
    if (wide && r.chance(0.03)) {  // many channels, many samples or a large picture
      int k = (int)r.range(0, 3);
      if (k == 0) g.C = r.range(5, 40);
      if (k == 1) g.N = r.range(4, 40);
      if (k == 2) g.H = r.range(9, 40), g.W = r.range(9, 40);
      if (k == 3) g.kh = r.range(5, 8), g.kw = r.range(5, 8), g.H = r.range(5, 16), g.W = r.range(5, 16);
    }
    g.ph = r.chance(0.4) ? 0 : r.range(0, pool ? g.kh - 1 : 3);
    g.pw = r.chance(0.4) ? std::min(g.ph, g.kw - 1) : r.range(0, pool ? g.kw - 1 : 3);
    if (g.H + 2 * g.ph < g.kh || g.W + 2 * g.pw < g.kw) continue;
    g.OH = (g.H + 2 * g.ph - g.kh) / g.sh + 1;
    g.OW = (g.W + 2 * g.pw - g.kw) / g.sw + 1;
    return g;
  }
}
static RT refConv(const RT& x, const RT& w, const RT* b, const Geo& g, int64_t O, std::vector<double>& mag) {
  RT ref({g.N, O, g.OH, g.OW});
  mag.assign(ref.d.size(), 0);
  size_t q = 0;
  for (int64_t n = 0; n < g.N; n++)
    for (int64_t o = 0; o < O; o++)
      for (int64_t y = 0; y < g.OH; y++)
        for (int64_t z = 0; z < g.OW; z++, q++) {
          double v = 0, m = 0;
          for (int64_t ch = 0; ch < g.C; ch++)
            for (int64_t i = 0; i < g.kh; i++)
              for (int64_t j = 0; j < g.kw; j++) {
                int64_t h = y * g.sh - g.ph + i, k = z * g.sw - g.pw + j;
                if (h < 0 || k < 0 || h >= g.H || k >= g.W) continue;
                double p = x.d[((n * g.C + ch) * g.H + h) * g.W + k] * w.d[((o * g.C + ch) * g.kh + i) * g.kw + j];
                v += p, m += fabs(p);
              }
          if (b) v += b->d[o], m += fabs(b->d[o]);
          ref.d[q] = v;
          mag[q] = m * (g.C * g.kh * g.kw + 2);
        }
  return ref;
}
SUITE(nn_conv, 300) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  bool ex = r.chance(0.6), bias = r.chance(0.6), mod = r.chance(0.4);
  Geo g = genGeo(r, false, t == DType::Float32);
  int64_t O = t == DType::Float32 && r.chance(0.02) ? r.range(5, 40) : r.range(1, 4);
  RT x = genV(r, {g.N, g.C, g.H, g.W}, t, ex), w = genV(r, {O, g.C, g.kh, g.kw}, t, ex), b = genV(r, {O}, t, ex);
  c.desc = fmt("conv2d %s O=%lld bias=%d module=%d ", dtn(t), (long long)O, bias, mod) + g.str() + " x=" + rtStr(x) + " w=" + rtStr(w);
  Tensor tx = mkView(r, x, t), o;
  tt::Dim2D k(g.kh, g.kw), s(g.sh, g.sw), p(g.ph, g.pw);
  if (mod) {
    nn::Conv2D l(g.C, O, k, s, p, bias, optOf(t));
    setP(l.weight(), w);
    if (bias) setP(l.bias(), b);
    o = l(tx);
  } else
    o = fn::conv2d(tx, mkView(r, w, t), bias ? mkView(r, b, t) : Tensor(), s, p);
  std::vector<double> mag;
  RT ref = refConv(x, w, bias ? &b : nullptr, g, O, mag);
  verdict(ref, mag, o, t, ex, "conv2d");
  expectSame(x, get(tx), "conv2d.input");
  c.obs("nn.conv2d");
  c.seen(fmt("conv%s%lld%d%d", dtn(t), (long long)O, bias, mod) + g.str());
  if (c.index % 499 == 0) c.sample(c.desc.substr(0, 200));
}
SUITE(nn_pool, 250) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  Geo g = genGeo(r, true, true);
  bool mod = r.chance(0.5), defStride = mod && r.chance(0.3);
  if (defStride) {
    g.sh = g.kh, g.sw = g.kw;
    g.OH = (g.H + 2 * g.ph - g.kh) / g.sh + 1;
    g.OW = (g.W + 2 * g.pw - g.kw) / g.sw + 1;
  }
  RT x = genRT(r, {g.N, g.C, g.H, g.W}, t, -5, r.chance(0.4) ? -0.5 : 5);
  c.desc = fmt("maxPool2d %s module=%d default stride=%d ", dtn(t), mod, defStride) + g.str() + " x=" + rtStr(x, 60);
  Tensor tx = mkView(r, x, t), o;
  tt::Dim2D k(g.kh, g.kw), s(g.sh, g.sw), p(g.ph, g.pw);
  if (defStride) o = nn::MaxPool2D(k, std::nullopt, p)(tx);
  else if (mod) o = nn::MaxPool2D(k, s, p)(tx);
  else o = fn::maxPool2d(tx, k, s, p);
  RT ref({g.N, g.C, g.OH, g.OW});
  size_t q = 0;
  for (int64_t n = 0; n < g.N * g.C; n++)
    for (int64_t y = 0; y < g.OH; y++)
      for (int64_t z = 0; z < g.OW; z++, q++) {
        double m = -INFINITY;
        for (int64_t i = 0; i < g.kh; i++)
          for (int64_t j = 0; j < g.kw; j++) {
            int64_t h = y * g.sh - g.ph + i, w = z * g.sw - g.pw + j;
            if (h < 0 || w < 0 || h >= g.H || w >= g.W) continue;
            m = std::max(m, x.d[(n * g.H + h) * g.W + w]);
          }
        ref.d[q] = m;
      }
  expectT(ref, o, t, exact(), "maxPool2d");
  expectSame(x, get(tx), "maxPool2d.input");
  c.obs("nn.maxPool2d");
  c.seen(fmt("pool%s%d", dtn(t), mod) + g.str());
}
SUITE(nn_im2col, 120) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  Geo g = genGeo(r, false);
  bool d3 = r.chance(0.3);
  if (d3) g.N = 1;
  Shape s = d3 ? Shape{g.C, g.H, g.W} : Shape{g.N, g.C, g.H, g.W};
  tt::Dim2D k(g.kh, g.kw), st(g.sh, g.sw), p(g.ph, g.pw);
  bool back = r.chance(0.5);
  Shape cs{g.N * g.OH * g.OW, g.C * g.kh * g.kw};
  RT x = genV(r, back ? cs : s, t, true);
  c.desc = fmt("%s %s 3d=%d ", back ? "col2im" : "im2col", dtn(t), d3) + g.str() + " x=" + rtStr(x, 60);
  Tensor tx = mkView(r, x, t);
  RT ref(back ? s : cs);
  for (int64_t n = 0; n < g.N; n++)
    for (int64_t y = 0; y < g.OH; y++)
      for (int64_t z = 0; z < g.OW; z++)
        for (int64_t ch = 0; ch < g.C; ch++)
          for (int64_t i = 0; i < g.kh; i++)
            for (int64_t j = 0; j < g.kw; j++) {
              int64_t h = y * g.sh - g.ph + i, w = z * g.sw - g.pw + j;
              size_t cq = ((n * g.OH + y) * g.OW + z) * cs[1] + (ch * g.kh + i) * g.kw + j;
              bool in = h >= 0 && w >= 0 && h < g.H && w < g.W;
              size_t iq = ((n * g.C + ch) * g.H + h) * g.W + w;
              if (!back) ref.d[cq] = in ? x.d[iq] : 0;
              else if (in) ref.d[iq] += x.d[cq];
            }
  Tensor o = back ? op::col2im(tx, IntArrayView(s), k, st, p) : op::im2col(tx, k, st, p);
  expectT(ref, o, t, exact(), back ? "col2im" : "im2col");
  c.obs(back ? "nn.col2im" : "nn.im2col");
  c.seen(fmt("im%d%s%d", back, dtn(t), d3) + g.str());
}

// ---- embedding ----
SUITE(nn_embedding, 80) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  int64_t V = r.range(1, 20), D = r.range(1, 9);
  Shape s = genWide(r, 3, 30, false);
  RT w = genRT(r, {V, D}, t), ix(s);
  for (auto& v : ix.d) v = (double)r.range(0, V - 1);
  c.desc = fmt("embedding %s ", dtn(t)) + rtStr(ix) + " w=" + rtStr(w);
  Tensor ti = mkView(r, ix, DType::Int64), o;
  if (r.chance(0.5)) {
    nn::Embedding e(V, D, optOf(t));
    setP(e.weight(), w);
    o = e(ti);
  } else
    o = fn::embedding(ti, mkView(r, w, t));
  Shape os = s;
  os.push_back(D);
  RT ref(os);
  for (size_t i = 0; i < ref.d.size(); i++) ref.d[i] = w.d[(int64_t)ix.d[i / D] * D + i % D];
  expectT(ref, o, t, exact(), "embedding");
  c.obs("nn.embedding");
  c.seen(fmt("emb%s%lld", dtn(t), (long long)V) + shapeStr(os));
}

// ---- normalisation ----
SUITE(nn_norm, 200) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  bool layer = r.chance(0.5), bias = layer && r.chance(0.6), wt = r.chance(0.8), mod = r.chance(0.4);
  Shape s = t == DType::Float32 ? genWide(r, 4, 100, false) : genShape(r, 4, 100, false);
  int64_t D = s.back();
  float eps = r.pick<float>({1e-5f, 1e-6f, 1e-2f, 0.5f});
  RT x = genRT(r, s, t, -3, 3), w = genRT(r, {D}, t, -2, 2), b = genRT(r, {D}, t, -2, 2);
  if (t == DType::Float32 && r.chance(0.3)) {
    double off = r.pick<double>({100, -300, 1000});
    for (auto& v : x.d) v = roundTo(t, v + off);
  }
  c.desc = fmt("%s %s eps=%g weight=%d bias=%d module=%d x=", layer ? "layerNorm" : "rmsNorm", dtn(t), eps, wt, bias, mod) + rtStr(x) + " w=" + rtStr(w) +
           " b=" + rtStr(b);
  Tensor tx = mkView(r, x, t), o;
  SizeVector ns{D};
  if (mod) {
    wt = true;
    if (layer) {
      nn::LayerNorm l(ns, eps, bias, optOf(t));
      setP(l.weight(), w);
      if (bias) setP(l.bias(), b);
      o = l(tx);
    } else {
      nn::RMSNorm l(ns, eps, optOf(t));
      setP(l.weight(), w);
      o = l(tx);
    }
  } else if (layer)
    o = fn::layerNorm(tx, ns, wt ? mkView(r, w, t) : Tensor(), bias ? mkView(r, b, t) : Tensor(), eps);
  else
    o = fn::rmsNorm(tx, ns, wt ? mkView(r, w, t) : Tensor(), eps);
  RT ref(s), mag(s);
  for (size_t row = 0; row < x.d.size() / D; row++) {
    double m = 0, v = 0, mx = 0;
    for (int64_t j = 0; j < D; j++) m += x.d[row * D + j], mx = std::max(mx, fabs(x.d[row * D + j]));
    m = layer ? m / D : 0;
    for (int64_t j = 0; j < D; j++) v += (x.d[row * D + j] - m) * (x.d[row * D + j] - m);
    v /= D;
    double is = 1 / sqrt(v + eps);
    // rounding of the mean: (D * eps) * max|x|, seen through the scale; rounding of the variance: relative
    double e1 = epsOf(t) * D * mx;
    double rel = (v + eps) > 0 ? std::min(1e3, (2 * e1 * sqrt(v) + e1 * e1) / (v + eps) / epsOf(t)) : 0;
    // squares of small half values and a small eps land among the subnormals, whose steps are 6e-8 wide
    if (t == DType::Float16 && v + eps > 0) rel += std::min(1e3, 1.2e-7 / (v + eps) / epsOf(t));
    for (int64_t j = 0; j < D; j++) {
      double z = (x.d[row * D + j] - m) * is, y = z;
      if (wt) y *= w.d[j];
      if (bias) y += b.d[j];
      ref.d[row * D + j] = y;
      mag.d[row * D + j] = ((layer ? (D + 2) * mx * is : 0) + fabs(z) * (D + 4 + rel)) * (wt ? fabs(w.d[j]) : 1) + (bias ? 2 * fabs(b.d[j]) : 0);
    }
  }
  expectMag(ref, mag.d, o, t, 1.5, layer ? "layerNorm" : "rmsNorm");
  expectSame(x, get(tx), "norm.input");
  c.obs(layer ? "nn.layerNorm" : "nn.rmsNorm");
  c.seen(fmt("norm%d%s%d%d%d%g", layer, dtn(t), wt, bias, mod, eps) + shapeStr(s));
}

// ---- rotary encoding ----
SUITE(nn_rope_apply, 80) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  int64_t B = r.range(1, 3), H = r.range(1, 3), S = r.range(1, 5), D = 2 * r.range(1, 5), ctx = S + r.range(0, 6), off = r.range(0, ctx - S);
  RT x = genRT(r, {B, H, S, D}, t), rp({ctx, D, 2});
  for (int64_t q = 0; q < ctx; q++)
    for (int64_t i = 0; i < D / 2; i++)
      for (int64_t k = 0; k < 2; k++) rp.d[(q * D + i) * 2 + k] = rp.d[(q * D + D / 2 + i) * 2 + k] = genVal(r, t, -1, 1);
  c.desc = fmt("ropeApply %s offset=%lld x=", dtn(t), (long long)off) + rtStr(x) + " rope=" + rtStr(rp);
  Tensor tx = mkView(r, x, t), tr = mkView(r, rp, t);
  Tensor o = r.chance(0.5) ? fn::ropeApply(tx, tr, off) : op::ropeApply(tx, tr, off);
  RT ref(x.shape), mag(x.shape);
  for (int64_t bh = 0; bh < B * H; bh++)
    for (int64_t q = 0; q < S; q++)
      for (int64_t i = 0; i < D / 2; i++) {
        size_t b = (bh * S + q) * D;
        double a1 = x.d[b + i], a2 = x.d[b + D / 2 + i], cs = rp.d[((off + q) * D + i) * 2], sn = rp.d[((off + q) * D + i) * 2 + 1];
        ref.d[b + i] = a1 * cs - a2 * sn;
        ref.d[b + D / 2 + i] = a2 * cs + a1 * sn;
        mag.d[b + i] = fabs(a1 * cs) + fabs(a2 * sn);
        mag.d[b + D / 2 + i] = fabs(a2 * cs) + fabs(a1 * sn);
      }
  expectMag(ref, mag.d, o, t, 3, "ropeApply");
  expectSame(x, get(tx), "ropeApply.input");
  c.obs("nn.ropeApply");
  c.seen(fmt("ropea%s%lld", dtn(t), (long long)off) + shapeStr(x.shape) + shapeStr(rp.shape));
}
SUITE(nn_rope_init, 60) {
  auto& r = c.rng;
  int64_t D = 2 * r.range(1, 16), ctx = r.range(1, 40);
  float theta = r.pick<float>({10000.f, 500000.f, 100.f, 10.f});
  bool sc = r.chance(0.5);
  float factor = r.pick<float>({8.f, 2.f, 32.f}), hi = r.pick<float>({4.f, 8.f}), lo = r.pick<float>({1.f, 2.f});
  int64_t orig = r.pick<int64_t>({8192, 64, 100, 1024});
  c.desc = fmt("ropeInit headDim=%lld ctx=%lld theta=%g scaling=%d factor=%g hi=%g lo=%g orig=%lld", (long long)D, (long long)ctx, theta, sc, factor, hi, lo,
               (long long)orig);
  std::optional<tt::RopeScalingConfig> cfg;
  if (sc) cfg = tt::RopeScalingConfig(factor, hi, lo, orig);
  std::vector<double> f(D / 2);
  for (int64_t i = 0; i < D / 2; i++) {
    double w = 1 / pow((double)theta, 2.0 * i / D);
    if (sc) {
      double wl = 2 * M_PI / w;
      if (wl > orig / (double)lo) w /= factor;
      else if (wl >= orig / (double)hi) {
        double sm = (orig / wl - lo) / ((double)hi - lo);
        w = (1 - sm) * w / factor + sm * w;
      }
    }
    f[i] = w;
  }
  RT ref({ctx, D, 2}), mag({ctx, D, 2});
  for (int64_t q = 0; q < ctx; q++)
    for (int64_t i = 0; i < D; i++) {
      double a = q * f[i % (D / 2)];
      ref.d[(q * D + i) * 2] = cos(a);
      ref.d[(q * D + i) * 2 + 1] = sin(a);
      mag.d[(q * D + i) * 2] = mag.d[(q * D + i) * 2 + 1] = 1 + a * 6;
    }
  if (r.chance(0.5)) {
    Tensor o = op::ropeInit(D, ctx, theta, cfg, optOf(DType::Float32));
    expectMag(ref, mag.d, o, DType::Float32, 3, "ropeInit");
  } else {
    nn::RoPE m(D, ctx, theta, cfg);
    expectMag(ref, mag.d, m.cache(), DType::Float32, 3, "ropeInit.module");
    // the module rotates by the position of each row plus the offset; norms of the pairs are preserved
    int64_t S = r.range(1, ctx), off = r.range(0, ctx - S);
    RT x = genRT(r, {1, 2, S, D}, DType::Float32);
    Tensor tx = mkView(r, x, DType::Float32);
    Tensor o = off == 0 && r.chance(0.5) ? m.forward(tx) : m(tx, off);
    RT rx(x.shape), mg(x.shape);
    for (int64_t h = 0; h < 2; h++)
      for (int64_t q = 0; q < S; q++)
        for (int64_t i = 0; i < D / 2; i++) {
          double a = (off + q) * f[i];
          size_t b = (h * S + q) * D;
          rx.d[b + i] = x.d[b + i] * cos(a) - x.d[b + D / 2 + i] * sin(a);
          rx.d[b + D / 2 + i] = x.d[b + D / 2 + i] * cos(a) + x.d[b + i] * sin(a);
          mg.d[b + i] = mg.d[b + D / 2 + i] = (fabs(x.d[b + i]) + fabs(x.d[b + D / 2 + i])) * (1 + a * 6);
        }
    expectMag(rx, mg.d, o, DType::Float32, 4, "rope.module");
  }
  c.obs("nn.ropeInit");
  c.seen(c.desc);
}

// ---- attention ----
SUITE(nn_attention, 200) {
  auto& r = c.rng;
  DType t = r.chance(0.7) ? DType::Float32 : floatTypes()[c.index % 3];
  Shape batch = genShape(r, 3, 8);
  int64_t L = r.range(1, 6), S = r.range(1, 6), D = r.range(1, 6), E = r.range(1, 5);
  if (t == DType::Float32 && r.chance(0.02)) L = r.range(1, 70), S = r.range(1, 70), D = r.range(1, 33), E = r.range(1, 33);
  int mk = (int)r.range(0, 4);  // 0,1 none 2 causal 3 bool mask 4 float mask
  auto sh = [&](int64_t a, int64_t b) {
    Shape s = batch;
    s.push_back(a);
    s.push_back(b);
    return s;
  };
  RT q = genRT(r, sh(L, D), t, -2, 2), k = genRT(r, sh(S, D), t, -2, 2), v = genRT(r, sh(S, E), t, -2, 2);
  std::optional<float> scale;
  if (r.chance(0.4)) scale = (float)roundTo(t, r.uniform(0.1, 1.5));
  double sf = scale ? *scale : 1 / sqrt((double)D);
  RT mask;
  if (mk >= 3) {
    Shape ms = sh(L, S);
    for (size_t i = 0; i + 2 < ms.size(); i++)
      if (r.chance(0.5)) ms[i] = 1;
    if (r.chance(0.5)) ms.erase(ms.begin(), ms.end() - 2);
    mask = RT(ms);
    for (size_t i = 0; i < mask.d.size(); i++) {
      if (mk == 3) mask.d[i] = r.range(0, 1);
      else mask.d[i] = r.chance(0.2) ? -INFINITY : roundTo(t, r.uniform(-2, 2));
    }
    // no row is masked out completely
    for (size_t row = 0; row < mask.d.size() / S; row++) mask.d[row * S + r.range(0, S - 1)] = mk == 3 ? 1 : 0.5;
  }
  c.desc = fmt("sdpAttention %s mask=%d scale=%g q=", dtn(t), mk, sf) + rtStr(q) + " k=" + rtStr(k) + " v=" + rtStr(v) + " m=" + rtStr(mask);
  Tensor tq = mkView(r, q, t), tk = mkView(r, k, t), tv = mkView(r, v, t);
  Tensor tm;
  if (mk >= 3) tm = mkView(r, mask, mk == 3 ? DType::Bool : t);
  Tensor o = fn::sdpAttention(tq, tk, tv, mk == 2, tm, 0.f, scale);
  RT ref(sh(L, E)), mag(sh(L, E));
  Shape fs = sh(L, S);
  int64_t nb = numelOf(batch);
  RT fm = mk >= 3 ? bcastTo(mask, fs) : RT();
  for (int64_t b = 0; b < nb; b++)
    for (int64_t i = 0; i < L; i++) {
      std::vector<double> a(S);
      double mx = -INFINITY, dm = 0, sum = 0;
      for (int64_t j = 0; j < S; j++) {
        double x = 0, g = 0;
        for (int64_t p = 0; p < D; p++) {
          double y = q.d[(b * L + i) * D + p] * k.d[(b * S + j) * D + p];
          x += y, g += fabs(y);
        }
        x *= sf;
        dm = std::max(dm, g * sf * (D + 4));
        if (mk == 2 && j > i) x = -INFINITY;
        if (mk == 3 && fm.d[(b * L + i) * S + j] == 0) x = -INFINITY;
        if (mk == 4) x += fm.d[(b * L + i) * S + j], dm += 2;
        a[j] = x;
        mx = std::max(mx, x);
      }
      for (auto& x : a) x = exp(x - mx), sum += x;
      for (int64_t e = 0; e < E; e++) {
        double y = 0, g = 0;
        for (int64_t j = 0; j < S; j++) {
          double z = a[j] / sum * v.d[(b * S + j) * E + e];
          y += z, g += fabs(z);
        }
        // also bounded by |v| if the score errors blow up the weights
        ref.d[(b * L + i) * E + e] = y;
        mag.d[(b * L + i) * E + e] = (g + 0.02) * (2 * dm + 2 * S + 8 + 2 * fabs(mx));
      }
    }
  expectMag(ref, mag.d, o, t, 1.5, "sdpAttention");
  expectSame(q, get(tq), "sdpAttention.q");
  expectSame(k, get(tk), "sdpAttention.k");
  expectSame(v, get(tv), "sdpAttention.v");
  if (mk >= 3) expectSame(mask, get(tm), "sdpAttention.mask");
  c.obs("nn.attention");
  c.seen(fmt("att%s%d%d", dtn(t), mk, scale.has_value()) + shapeStr(q.shape) + shapeStr(v.shape) + shapeStr(mask.shape));
}

// ---- dropout outside of training, masked dropout, flatten module ----
SUITE(nn_dropout_eval, 80) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  Shape s = genWide(r, 4, 60);
  RT x = genRT(r, s, t);
  float p = r.pick<float>({0.1f, 0.5f, 0.9f, 0.25f});
  Tensor a = mkView(r, x, t);
  int how = (int)r.range(0, 3);
  c.desc = fmt("dropout eval how=%d p=%g %s x=", how, p, dtn(t)) + rtStr(x);
  if (how == 0) expectT(x, fn::dropout(a, p, false), t, exact(), "dropout.eval");
  else if (how == 1) {
    nn::Dropout d(p);
    d.eval();
    expectT(x, d(a), t, exact(), "dropout.evalModule");
    nn::Sequential q{std::make_shared<nn::Dropout>(p), std::make_shared<nn::Relu>()};
    q.eval();
    expectT(map1(x, [](double v) { return v > 0 ? v : 0.0; }), q(a), t, exact(), "dropout.evalSequential");
  } else if (how == 2) {
    RT m(s);
    for (auto& v : m.d) v = r.range(0, 1);
    Tensor o = op::dropoutMasked(a, mkView(r, m, t), p);
    RT ref(s);
    for (size_t i = 0; i < x.d.size(); i++) ref.d[i] = x.d[i] * m.d[i] / p;
    expectMag(ref, o, t, 3, "dropoutMasked");
  } else if (!s.empty()) {
    int64_t a0 = r.range(0, s.size() - 1), a1 = r.range(a0, s.size() - 1);
    Shape os(s.begin(), s.begin() + a0);
    int64_t n = 1;
    for (int64_t i = a0; i <= a1; i++) n *= s[i];
    os.push_back(n);
    os.insert(os.end(), s.begin() + a1 + 1, s.end());
    expectT(RT(os, x.d), nn::Flatten(maybeNeg(r, a0, s.size()), maybeNeg(r, a1, s.size()))(a), t, exact(), "flatten.module");
  }
  expectSame(x, get(a), "dropout.input");
  c.obs("nn.dropoutEval");
  c.seen(fmt("do%d%s%g", how, dtn(t), p) + shapeStr(s));
}
}  // namespace s_nn
