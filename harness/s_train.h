// C30: whole training runs against an independent double-precision implementation, and against themselves
#pragma once
#include "h_files.h"
#include "h_opt.h"
#include "Data/DataLoader.h"
#include "Functions.h"
#include "Modules.h"
#include "Scheduler.h"
#include "Serializer.h"
namespace s_train {
using namespace vh;
namespace nn = tt::nn;
namespace fn = tt::function;
namespace td = tt::data;
enum L { lLinear, lConv, lPool, lRelu, lSoftmax, lFlatten, lResidual, lSin, lScale, lDropout, lLogSoftmax };
struct Layer {
  L k;
  int in = 0, out = 0;      // features or channels
  int kh = 1, kw = 1, sh = 1, sw = 1, ph = 0, pw = 0;
  bool bias = true;
  double s = 1;             // factor, dropout rate
  std::vector<Layer> inner; // residual branch
};
struct Plan {
  bool image = false;
  int C = 1, H = 1, W = 1, features = 1, classes = 1;
  std::vector<Layer> layers;
  bool nll = false;
  int red = 0;  // 0 mean 1 sum
  int samples = 8, batch = 4, epochs = 2;
  bool dropLast = false, shuffle = true;
  int zeroEvery = 1;        // gradients accumulate over this many batches
  int lrStep = 0;
  double lrGamma = 0.5;
  s_opt::Hyper h;
  unsigned seed = 1;
  bool hasDropout = false;
  std::string str() const {
    static const char* n[] = {"linear", "conv", "pool", "relu", "softmax", "flatten", "residual", "sin", "scale", "dropout", "logSoftmax"};
    std::string s = image ? fmt("%dx%dx%d", C, H, W) : fmt("%d", features);
    for (auto& l : layers) s += fmt(" %s%s", n[l.k], l.k == lLinear || l.k == lConv ? fmt("%d", l.out).c_str() : "");
    return s + fmt(" -> %d %s %s; %d samples, batch %d, %d epochs, accumulate %d, lr step %d; ", classes, nll ? "nll" : "mse", red ? "sum" : "mean", samples, batch, epochs, zeroEvery, lrStep) + h.str();
  }
};
// ---- library side ----
struct Residual : nn::Module {
  nn::Sequential f;
  explicit Residual() : f({}) { registerModule("f", f); }
  Tensor forward(const Tensor& x) override { return f(x) + x; }
};
struct Sin : nn::Module {
  Tensor forward(const Tensor& x) override { return fn::sin(x); }
};
struct Scale : nn::Module {
  float s;
  explicit Scale(float s) : s(s) {}
  Tensor forward(const Tensor& x) override { return x * s + 0.125f; }
};
inline std::shared_ptr<nn::Module> mkLayer(const Layer& l) {
  switch (l.k) {
    case lLinear: return std::make_shared<nn::Linear>(l.in, l.out, l.bias);
    case lConv: return std::make_shared<nn::Conv2D>(l.in, l.out, tt::Dim2D(l.kh, l.kw), tt::Dim2D(l.sh, l.sw), tt::Dim2D(l.ph, l.pw), l.bias);
    case lPool: return std::make_shared<nn::MaxPool2D>(tt::Dim2D(l.kh, l.kw), tt::Dim2D(l.sh, l.sw), tt::Dim2D(l.ph, l.pw));
    case lRelu: return std::make_shared<nn::Relu>();
    case lSoftmax: return std::make_shared<nn::Softmax>(1);
    case lFlatten: return std::make_shared<nn::Flatten>(1, -1);
    case lSin: return std::make_shared<Sin>();
    case lScale: return std::make_shared<Scale>((float)l.s);
    case lDropout: return std::make_shared<nn::Dropout>((float)l.s);
    case lLogSoftmax: return std::make_shared<nn::LogSoftmax>(1);
    default: {
      auto r = std::make_shared<Residual>();
      for (auto& q : l.inner) r->f.pushBack(mkLayer(q));
      return r;
    }
  }
}
// ---- reference side: explicit forward and backward passes over doubles ----
struct Node {
  const Layer* l = nullptr;
  RT in, out;
  std::vector<int64_t> arg;       // pooling winners
  std::vector<Node> inner;
  int firstParam = 0;
};
struct RefNet {
  std::vector<RT> p, g;           // parameters and gradients, in the library's order
  double kink = 1e300;            // distance from the nearest point where the derivative jumps, relative
  double bigIn = 0;
  RT forward(const std::vector<Layer>& ls, RT x, std::vector<Node>& tape, int& pi) {
    for (auto& l : ls) {
      Node n;
      n.l = &l;
      n.in = x;
      n.firstParam = pi;
      switch (l.k) {
        case lLinear: {
          const RT& w = p[pi++];
          const RT* b = l.bias ? &p[pi++] : nullptr;
          int64_t B = x.shape[0];
          RT y({B, l.out});
          for (int64_t i = 0; i < B; i++)
            for (int o = 0; o < l.out; o++) {
              double v = b ? b->d[o] : 0;
              for (int k = 0; k < l.in; k++) v += x.d[i * l.in + k] * w.d[o * l.in + k];
              y.d[i * l.out + o] = v;
            }
          x = y;
          break;
        }
        case lConv: {
          const RT& w = p[pi++];
          const RT* b = l.bias ? &p[pi++] : nullptr;
          int64_t B = x.shape[0], H = x.shape[2], W = x.shape[3], OH = (H + 2 * l.ph - l.kh) / l.sh + 1, OW = (W + 2 * l.pw - l.kw) / l.sw + 1;
          RT y({B, l.out, OH, OW});
          each(l, B, H, W, OH, OW, [&](int64_t yi, int64_t xi, int64_t wi) { y.d[yi] += x.d[xi] * w.d[wi]; });
          if (b)
            for (int64_t i = 0; i < (int64_t)y.d.size(); i++) y.d[i] += b->d[i / (OH * OW) % l.out];
          x = y;
          break;
        }
        case lPool: {
          int64_t B = x.shape[0], C = x.shape[1], H = x.shape[2], W = x.shape[3], OH = (H + 2 * l.ph - l.kh) / l.sh + 1, OW = (W + 2 * l.pw - l.kw) / l.sw + 1;
          RT y({B, C, OH, OW});
          n.arg.assign(y.d.size(), -1);
          for (int64_t bc = 0; bc < B * C; bc++)
            for (int64_t a = 0; a < OH; a++)
              for (int64_t q = 0; q < OW; q++) {
                double best = -1e300, second = -1e300;
                int64_t at = -1;
                for (int i = 0; i < l.kh; i++)
                  for (int j = 0; j < l.kw; j++) {
                    int64_t h = a * l.sh - l.ph + i, w = q * l.sw - l.pw + j;
                    if (h < 0 || w < 0 || h >= H || w >= W) continue;
                    double v = x.d[(bc * H + h) * W + w];
                    if (v > best) second = best, best = v, at = (bc * H + h) * W + w;
                    else second = std::max(second, v);
                  }
                if (second > -1e300) kink = std::min(kink, best - second);
                y.d[(bc * OH + a) * OW + q] = best;
                n.arg[(bc * OH + a) * OW + q] = at;
              }
          x = y;
          break;
        }
        case lRelu:
          for (auto& v : x.d) kink = std::min(kink, fabs(v)), v = std::max(v, 0.0);
          break;
        case lSoftmax: case lLogSoftmax: {
          int64_t B = x.shape[0], F = x.numel() / std::max<int64_t>(B, 1);
          for (int64_t i = 0; i < B; i++) {
            double m = -1e300, s = 0;
            for (int64_t k = 0; k < F; k++) m = std::max(m, x.d[i * F + k]);
            for (int64_t k = 0; k < F; k++) s += exp(x.d[i * F + k] - m);
            for (int64_t k = 0; k < F; k++) {
              double& v = x.d[i * F + k];
              v = l.k == lSoftmax ? exp(v - m) / s : v - m - log(s);
            }
          }
          break;
        }
        case lFlatten: x.shape = {x.shape[0], x.numel() / x.shape[0]}; break;
        case lSin:
          for (auto& v : x.d) v = sin(v);
          break;
        case lScale:
          for (auto& v : x.d) v = v * (double)(float)l.s + 0.125;
          break;
        case lDropout: break;
        case lResidual: {
          RT y = forward(l.inner, x, n.inner, pi);
          for (size_t i = 0; i < x.d.size(); i++) x.d[i] += y.d[i];
          break;
        }
      }
      n.out = x;
      for (double v : x.d) bigIn = std::max(bigIn, fabs(v));
      tape.push_back(std::move(n));
    }
    return x;
  }
  template <typename F>
  static void each(const Layer& l, int64_t B, int64_t H, int64_t W, int64_t OH, int64_t OW, F f) {
    for (int64_t b = 0; b < B; b++)
      for (int64_t o = 0; o < l.out; o++)
        for (int64_t a = 0; a < OH; a++)
          for (int64_t q = 0; q < OW; q++)
            for (int64_t ch = 0; ch < l.in; ch++)
              for (int i = 0; i < l.kh; i++)
                for (int j = 0; j < l.kw; j++) {
                  int64_t h = a * l.sh - l.ph + i, w = q * l.sw - l.pw + j;
                  if (h < 0 || w < 0 || h >= H || w >= W) continue;
                  f(((b * l.out + o) * OH + a) * OW + q, ((b * l.in + ch) * H + h) * W + w, ((o * l.in + ch) * l.kh + i) * l.kw + j);
                }
  }
  RT backward(std::vector<Node>& tape, RT gy) {
    for (size_t t = tape.size(); t-- > 0;) {
      Node& n = tape[t];
      const Layer& l = *n.l;
      RT gx(n.in.shape);
      switch (l.k) {
        case lLinear: {
          RT &w = p[n.firstParam], &gw = g[n.firstParam];
          int64_t B = n.in.shape[0];
          for (int64_t i = 0; i < B; i++)
            for (int o = 0; o < l.out; o++) {
              double d = gy.d[i * l.out + o];
              if (l.bias) g[n.firstParam + 1].d[o] += d;
              for (int k = 0; k < l.in; k++) {
                gw.d[o * l.in + k] += d * n.in.d[i * l.in + k];
                gx.d[i * l.in + k] += d * w.d[o * l.in + k];
              }
            }
          break;
        }
        case lConv: {
          RT &w = p[n.firstParam], &gw = g[n.firstParam];
          auto& s = n.out.shape;
          each(l, s[0], n.in.shape[2], n.in.shape[3], s[2], s[3], [&](int64_t yi, int64_t xi, int64_t wi) {
            gw.d[wi] += gy.d[yi] * n.in.d[xi];
            gx.d[xi] += gy.d[yi] * w.d[wi];
          });
          if (l.bias)
            for (int64_t i = 0; i < (int64_t)gy.d.size(); i++) g[n.firstParam + 1].d[i / (s[2] * s[3]) % l.out] += gy.d[i];
          break;
        }
        case lPool:
          for (size_t i = 0; i < gy.d.size(); i++) gx.d[n.arg[i]] += gy.d[i];
          break;
        case lRelu:
          for (size_t i = 0; i < gy.d.size(); i++) gx.d[i] = n.in.d[i] < 0 ? 0 : gy.d[i];
          break;
        case lSoftmax: case lLogSoftmax: {
          int64_t B = n.in.shape[0], F = n.in.numel() / std::max<int64_t>(B, 1);
          for (int64_t i = 0; i < B; i++) {
            double s = 0;
            for (int64_t k = 0; k < F; k++) s += gy.d[i * F + k] * (l.k == lSoftmax ? n.out.d[i * F + k] : 1);
            for (int64_t k = 0; k < F; k++) {
              double y = n.out.d[i * F + k], d = gy.d[i * F + k];
              gx.d[i * F + k] = l.k == lSoftmax ? y * (d - s) : d - exp(y) * s;
            }
          }
          break;
        }
        case lSin:
          for (size_t i = 0; i < gy.d.size(); i++) gx.d[i] = gy.d[i] * cos(n.in.d[i]);
          break;
        case lScale:
          for (size_t i = 0; i < gy.d.size(); i++) gx.d[i] = gy.d[i] * (double)(float)l.s;
          break;
        case lFlatten: case lDropout: gx.d = gy.d; break;
        case lResidual: {
          gx = backward(n.inner, gy);
          for (size_t i = 0; i < gy.d.size(); i++) gx.d[i] += gy.d[i];
          break;
        }
      }
      gy = gx;
    }
    return gy;
  }
};
// ---- plans ----
inline std::vector<Layer> vectorLayers(Rng& r, int in, int out, int depth, bool dropout) {
  std::vector<Layer> v;
  int w = in;
  auto act = [&] {
    Layer a;
    int q = (int)r.range(0, dropout ? 9 : 7);
    a.k = q <= 3 ? lRelu : q <= 5 ? lSin : q == 6 ? lScale : q == 7 ? lSoftmax : lDropout;
    a.s = a.k == lDropout ? r.pick({0.1, 0.3, 0.5}) : r.pick({0.5, 1.5, -0.75});
    v.push_back(a);
  };
  for (int i = 0; i < depth; i++) {
    if (r.chance(0.25)) {
      Layer q;
      q.k = lResidual;
      Layer a, b;
      a.k = b.k = lLinear;
      int mid = (int)r.range(1, 5);
      a.in = w, a.out = mid, b.in = mid, b.out = w;
      a.bias = r.chance(0.8), b.bias = r.chance(0.8);
      Layer s;
      s.k = r.chance(0.5) ? lRelu : lSin;
      q.inner = {a, s, b};
      v.push_back(q);
    } else {
      Layer a;
      a.k = lLinear;
      a.in = w, a.out = w = (int)r.range(1, 10), a.bias = r.chance(0.8);
      v.push_back(a);
    }
    act();
  }
  Layer a;
  a.k = lLinear;
  a.in = w, a.out = out, a.bias = r.chance(0.9);
  v.push_back(a);
  return v;
}
inline Plan genPlan(Rng& r, bool dropout, bool thorough) {
  Plan p;
  p.image = r.chance(0.4);
  p.classes = (int)r.range(1, 5);
  p.nll = r.chance(0.5);
  if (p.nll) p.classes = std::max(2, p.classes);
  p.red = r.chance(0.8) ? 0 : 1;
  int w;
  if (p.image) {
    p.C = (int)r.range(1, 3), p.H = (int)r.range(4, 9), p.W = (int)r.range(4, 9);
    int c = p.C, h = p.H, q = p.W, nc = (int)r.range(1, 2);
    for (int i = 0; i < nc; i++) {
      Layer l;
      l.k = lConv;
      l.kh = (int)r.range(1, std::min(3, h)), l.kw = (int)r.range(1, std::min(3, q));
      l.sh = (int)r.range(1, 2), l.sw = (int)r.range(1, 2), l.ph = (int)r.range(0, l.kh - 1), l.pw = (int)r.range(0, l.kw - 1);
      l.in = c, l.out = c = (int)r.range(1, 4);
      l.bias = r.chance(0.8);
      h = (h + 2 * l.ph - l.kh) / l.sh + 1, q = (q + 2 * l.pw - l.kw) / l.sw + 1;
      p.layers.push_back(l);
      if (r.chance(0.8)) {
        Layer a;
        a.k = r.chance(0.8) ? lRelu : lSin;
        p.layers.push_back(a);
      }
      if (r.chance(0.5) && h >= 2 && q >= 2) {
        Layer m;
        m.k = lPool;
        m.kh = m.kw = 2, m.sh = (int)r.range(1, 2), m.sw = (int)r.range(1, 2);
        m.ph = m.pw = (int)r.range(0, 1);
        h = (h + 2 * m.ph - 2) / m.sh + 1, q = (q + 2 * m.pw - 2) / m.sw + 1;
        // a pooling window over relu zeros has no unique winner
        if (p.layers.back().k == lRelu) p.layers.back().k = lSin;
        p.layers.push_back(m);
      }
    }
    Layer f;
    f.k = lFlatten;
    p.layers.push_back(f);
    w = c * h * q;
  } else
    w = p.features = (int)r.range(1, 8);
  p.hasDropout = dropout;
  for (auto& l : vectorLayers(r, w, p.classes, (int)r.range(0, 3), dropout)) p.layers.push_back(l);
  if (p.nll) {
    Layer a;
    a.k = lLogSoftmax;
    p.layers.push_back(a);
  }
  p.samples = (int)r.range(3, 24), p.batch = (int)r.range(1, 8), p.epochs = (int)r.range(1, thorough ? 12 : 4);
  p.dropLast = r.chance(0.3), p.shuffle = r.chance(0.7);
  p.zeroEvery = r.chance(0.7) ? 1 : (int)r.range(2, 3);
  if (r.chance(0.4)) p.lrStep = (int)r.range(1, 2), p.lrGamma = r.pick({0.5, 0.1, 0.9});
  do p.h = s_opt::genHyper(r);
  while (p.h.kind == 2 && p.h.centered);
  p.h.lr = std::min(p.h.lr, p.red ? 0.01f : 0.1f);
  p.seed = (unsigned)r.range(1, 1 << 30);
  return p;
}
struct Ds : td::Dataset {
  std::vector<RT> x, y;
  bool nll;
  Ds(const Plan& p, uint64_t seed) : nll(p.nll) {
    Rng r(seed);
    for (int i = 0; i < p.samples; i++) {
      RT a(p.image ? Shape{p.C, p.H, p.W} : Shape{p.features}), b(p.nll ? Shape{} : Shape{p.classes});
      for (auto& v : a.d) v = roundTo(DType::Float32, r.uniform(-1, 1));
      for (auto& v : b.d) v = p.nll ? (double)r.range(0, p.classes - 1) : roundTo(DType::Float32, r.uniform(-1, 1));
      x.push_back(a), y.push_back(b);
    }
  }
  size_t size() const override { return x.size(); }
  std::vector<Tensor> getItem(size_t i) override { return {mkPlain(x[i], DType::Float32), mkPlain(y[i], nll ? DType::Int64 : DType::Float32)}; }
};
inline std::shared_ptr<nn::Sequential> mkModel(const Plan& p) {
  auto m = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
  for (auto& l : p.layers) m->pushBack(mkLayer(l));
  return m;
}
inline Tensor lossOf(const Plan& p, Tensor& out, Tensor& target) {
  auto red = p.red ? tt::LossReduction::SUM : tt::LossReduction::MEAN;
  if (p.nll) {
    nn::NLLLoss l(red);
    return l(out, target);
  }
  nn::MSELoss l(red);
  return l(out, target);
}
struct Trace {  // what one run showed
  std::vector<uint32_t> loss;
  std::vector<std::vector<uint8_t>> params;
  bool finite = true;
};
inline std::vector<uint8_t> bytesOf(nn::Module& m) {
  std::vector<uint8_t> b;
  for (auto* p : m.parameters()) {
    auto* q = p->dataPtr<uint8_t>();
    b.insert(b.end(), q, q + p->nbytes());
  }
  return b;
}
struct Interrupts {
  bool on = false;
  uint64_t seed = 1;
  std::string dir;
};
// one training run; step(...) is called around every backward pass and optimizer step
struct Hooks {
  std::function<void(nn::Module&)> start;
  std::function<void(nn::Module&, const RT& x, const RT& y, double loss, const RT& out)> back;
  std::function<void(nn::Module&, tt::optim::Optimizer&)> before, after;
  std::function<void(bool)> zeroed;
};
inline Trace train(const Plan& p, const Interrupts& in, const Hooks* hk, vh::Case* c = nullptr) {
  Trace t;
  Rng ri(in.seed);
  tt::manualSeed(p.seed);
  auto model = mkModel(p);
  model->initParameters();
  auto ds = std::make_shared<Ds>(p, p.seed * 77ull + 5);
  auto opt = s_opt::make(p.h, model->parameters());
  std::unique_ptr<tt::optim::lr_scheduler::StepLR> sched;
  if (p.lrStep) sched = std::make_unique<tt::optim::lr_scheduler::StepLR>(*opt, p.lrStep, (float)p.lrGamma);
  if (hk) hk->start(*model);
  model->train(true);
  auto disturb = [&](const Tensor* x) {
    if (!in.on || !ri.chance(0.5)) return;
    switch (ri.range(0, 5)) {
      case 0: {  // evaluation in between
        model->eval();
        {
          tt::NoGradGuard g;
          Tensor q = x ? *x : std::get<1>(*td::DataLoader(ds, 2, nullptr, false).begin())[0];
          (void)(*model)(q);
        }
        model->train(true);
        break;
      }
      case 1:  // saving
        tt::save(*model, in.dir + "/m.bin");
        break;
      case 2:  // saving, and loading into another model
        if (tt::save(*model, in.dir + "/m2.bin")) {
          auto other = mkModel(p);
          tt::load(*other, in.dir + "/m2.bin");
          if (c) c->check(bytesOf(*other) == bytesOf(*model), "train.saved", "the saved model differs from the one in training");
        }
        break;
      case 3: {  // another model trains, without random numbers
        tt::nn::Linear l(3, 2);
        for (auto* q : l.parameters()) {
          tt::NoGradGuard g;
          q->fill_(tt::Scalar(0.25f));
        }
        auto o2 = s_opt::make(p.h, l.parameters());
        Tensor a = Tensor::ones({2, 3});
        fn::sum(l(a)).backward();
        o2->step();
        o2->zeroGrad();
        break;
      }
      case 4: {  // a forward pass in evaluation mode that records a graph nobody differentiates
        model->eval();
        if (x) (void)(*model)(*x);
        model->train(true);
        break;
      }
      default: {  // the parameters are read and copied around
        std::vector<Tensor> cp;
        for (auto* q : model->parameters()) cp.push_back(q->clone());
        tt::NoGradGuard g;
        for (auto& q : cp) q.fill_(tt::Scalar(7.f));
      }
    }
    if (c) c->obs("train.interruptions");
  };
  int k = 0;
  for (int e = 0; e < p.epochs; e++) {
    td::DataLoader dl(ds, p.batch, nullptr, p.shuffle, p.dropLast);
    for (auto [bi, b] : dl) {
      (void)bi;
      bool zero = k % p.zeroEvery == 0;
      if (zero) opt->zeroGrad();
      if (hk) hk->zeroed(zero);
      disturb(&b[0]);
      Tensor out = (*model)(b[0]);
      Tensor loss = lossOf(p, out, b[1]);
      float lv = loss.item<float>();
      disturb(nullptr);
      loss.backward();
      disturb(&b[0]);
      if (hk) hk->back(*model, get(b[0]), get(b[1]), lv, get(out));
      k++;
      if (k % p.zeroEvery == 0) {
        if (hk) hk->before(*model, *opt);
        opt->step();
        if (hk) hk->after(*model, *opt);
      }
      uint32_t lb;
      memcpy(&lb, &lv, 4);
      t.loss.push_back(lb);
      t.params.push_back(bytesOf(*model));
      t.finite = t.finite && std::isfinite(lv) && fabs(lv) < 1e6;
      if (!t.finite) return t;
    }
    if (sched) sched->step();
  }
  return t;
}
inline void sameTrace(vh::Case& c, const Trace& a, const Trace& b, const char* sig, const char* what) {
  c.check(a.loss.size() == b.loss.size(), sig, fmt("%s: %zu and %zu steps", what, a.loss.size(), b.loss.size()));
  for (size_t i = 0; i < a.loss.size(); i++) {
    c.check(a.loss[i] == b.loss[i], sig, fmt("%s: the loss of step %zu differs", what, i));
    c.check(a.params[i] == b.params[i], sig, fmt("%s: the parameters after step %zu differ", what, i));
  }
}
// every step against the independent implementation
SUITE(train_reference, 40) {
  auto& r = c.rng;
  Plan p = genPlan(r, false, c.thorough);
  c.desc = p.str();
  RefNet net;
  std::vector<RT> acc;                       // gradients the library must hold
  std::vector<double> tolBase;
  std::vector<s_opt::Ref> refs(3);
  std::vector<std::vector<double>> pBefore, tol;
  int64_t steps = 0, compared = 0;
  bool skipGrad = false;
  double lr0 = p.h.lr;
  auto values = [&](nn::Module& m) {
    std::vector<RT> v;
    for (auto* q : m.parameters()) v.push_back(get(*q));
    return v;
  };
  Hooks hk;
  hk.start = [&](nn::Module& m) {
    auto v = values(m);
    std::vector<std::vector<double>> d;
    for (auto& q : v) d.push_back(q.d);
    for (int k = 0; k < 3; k++) {
      refs[k].h = p.h;
      refs[k].noise = k ? 6e-8 : 0;
      refs[k].rng = Rng(r.next());
      refs[k].init(d);
    }
    for (auto& q : v) acc.push_back(RT(q.shape)), tolBase.push_back(0);
  };
  hk.zeroed = [&](bool z) {
    if (!z) return;
    for (auto& q : acc) std::fill(q.d.begin(), q.d.end(), 0.0);
    std::fill(tolBase.begin(), tolBase.end(), 0.0);
    skipGrad = false;
  };
  hk.back = [&](nn::Module& m, const RT& x, const RT& y, double loss, const RT& outLib) {
    net.p = values(m);
    net.g.clear();
    for (auto& q : net.p) net.g.push_back(RT(q.shape));
    net.kink = 1e300, net.bigIn = 1;
    for (double v : x.d) net.bigIn = std::max(net.bigIn, fabs(v));
    std::vector<Node> tape;
    int pi = 0;
    RT out = net.forward(p.layers, x, tape, pi);
    c.check(out.shape == outLib.shape, "train.outShape", "output shape " + shapeStr(outLib.shape) + " expected " + shapeStr(out.shape));
    double pm = 1;
    for (auto& q : net.p)
      for (double v : q.d) pm = std::max(pm, fabs(v));
    if (!(net.bigIn < 30 && pm < 30)) {
      // single precision has too few digits left for a comparison of gradients (or the run diverges)
      c.obs("train.large");
      skipGrad = true;
      return;
    }
    double unit = 3e-6 * net.bigIn * pm * 8;
    for (size_t i = 0; i < out.d.size(); i++)
      if (!(fabs(out.d[i] - outLib.d[i]) <= unit)) c.fail("train.output", fmt("step %lld: output %zu is %.9g, expected %.9g", (long long)steps, i, outLib.d[i], out.d[i]));
    double ref = 0, mag = 0;
    int64_t B = out.shape[0];
    double div = p.red ? 1 : p.nll ? (double)B : (double)out.numel();
    RT go(out.shape);
    if (p.nll)
      for (int64_t i = 0; i < B; i++) {
        int64_t k = i * p.classes + (int64_t)y.d[i];
        ref -= out.d[k] / div, mag += fabs(out.d[k]) / div;
        go.d[k] -= 1 / div;
      }
    else
      for (size_t i = 0; i < out.d.size(); i++) {
        double d = out.d[i] - y.d[i];
        ref += d * d / div, mag += d * d / div + 2 * fabs(d) * unit / div;
        go.d[i] = 2 * d / div;
      }
    double lt = 2e-5 * mag + unit * (p.red ? (double)out.numel() : 1) * 2;
    if (!(fabs(ref - loss) <= lt)) c.fail("train.loss", fmt("step %lld: loss %.9g, expected %.9g (tolerance %.2g)", (long long)steps, loss, ref, lt));
    net.backward(tape, go);
    skipGrad = skipGrad || net.kink < 1e-4 * net.bigIn * pm;
    auto ps = m.parameters();
    // rounding in the backward pass scales with the gradients that flow through it
    double gm = 0;
    for (double v : go.d) gm = std::max(gm, fabs(v));
    if (!p.nll) gm += 0.1 * 2 * (net.bigIn + 1) / div;  // near convergence: the rounding of the outputs themselves
    for (size_t i = 0; i < ps.size(); i++) {
      double big = gm * (double)go.d.size();
      for (double v : net.g[i].d) big = std::max(big, fabs(v));
      tolBase[i] += 2e-5 * big * net.bigIn * pm;
      for (size_t k = 0; k < acc[i].d.size(); k++) acc[i].d[k] += net.g[i].d[k];
      RT got = get(ps[i]->grad());
      c.check(got.shape == acc[i].shape, "train.gradShape", fmt("parameter %zu: gradient of shape ", i) + shapeStr(got.shape));
      if (skipGrad) continue;
      for (size_t k = 0; k < got.d.size(); k++)
        if (!(fabs(got.d[k] - acc[i].d[k]) <= tolBase[i]))
          c.fail("train.grad", fmt("step %lld: gradient of parameter %zu element %zu is %.9g, expected %.9g (tolerance %.2g)", (long long)steps, i, k, got.d[k], acc[i].d[k], tolBase[i]));
      compared++;
    }
    if (skipGrad) c.obs("train.nearKink");
    steps++;
  };
  hk.before = [&](nn::Module& m, tt::optim::Optimizer& o) {
    pBefore.clear();
    std::vector<RT> gs;
    for (auto* q : m.parameters()) pBefore.push_back(get(*q).d), gs.push_back(get(q->grad()));
    std::vector<const std::vector<double>*> gp;
    for (auto& q : gs) gp.push_back(&q.d);
    for (auto& ref : refs) {
      ref.p = pBefore;
      ref.h.lr = o.getLr();
      ref.doStep(gp);
    }
  };
  int64_t updates = 0;
  hk.after = [&](nn::Module& m, tt::optim::Optimizer&) {
    auto ps = m.parameters();
    updates++;
    for (size_t i = 0; i < ps.size(); i++) {
      RT got = get(*ps[i]);
      for (size_t k = 0; k < got.d.size(); k++) {
        double e = refs[0].p[i][k], d = fabs(e - pBefore[i][k]);
        double spread = std::max(fabs(refs[1].p[i][k] - e), fabs(refs[2].p[i][k] - e));
        double t = 16 * spread + 2e-4 * d + 5e-7 * fabs(e) + 1e-9;
        if (!(fabs(got.d[k] - e) <= t))
          c.fail("train.update", fmt("update %lld: parameter %zu element %zu becomes %.9g, expected %.9g (before %.9g, tolerance %.2g)", (long long)updates, i, k, got.d[k], e, pBefore[i][k], t));
      }
    }
    c.obs("train.updates");
  };
  Trace t = train(p, {}, &hk, &c);
  (void)lr0;
  c.obs("train.steps", steps);
  c.obs("train.gradientsCompared", compared);
  if (!t.finite) c.obs("train.diverged");
  c.seen(c.desc);
}
// the same run again, with and without interruptions
SUITE(train_repeat, 40) {
  auto& r = c.rng;
  Plan p = genPlan(r, r.chance(0.6), c.thorough);
  c.desc = p.str() + fmt(" seed %u", p.seed);
  hf::Scratch dir;
  Trace a = train(p, {}, nullptr);
  Trace b = train(p, {}, nullptr);
  sameTrace(c, a, b, "train.again", "the same run again");
  Interrupts in;
  in.on = true, in.seed = r.next(), in.dir = dir.dir;
  Trace d = train(p, in, nullptr, &c);
  sameTrace(c, a, d, "train.interrupted", "with evaluation, inference, saving and other models in between");
  c.obs("train.repeated", (int64_t)a.loss.size());
  c.seen(c.desc);
}
// training continued from a saved model is the uninterrupted training (plain gradient descent keeps no state)
SUITE(train_resume, 15) {
  auto& r = c.rng;
  Plan p = genPlan(r, false, c.thorough);
  p.h.kind = 0, p.h.momentum = 0, p.h.dampening = 0, p.h.nesterov = false;
  p.shuffle = false, p.lrStep = 0, p.zeroEvery = 1;
  p.epochs = std::max(2, p.epochs);
  int cut = (int)r.range(1, p.epochs - 1);
  c.desc = p.str() + fmt(" resumed after epoch %d", cut);
  hf::Scratch dir;
  Trace a = train(p, {}, nullptr);
  if (!a.finite) return;
  auto ds = std::make_shared<Ds>(p, p.seed * 77ull + 5);
  Trace t;
  std::shared_ptr<nn::Sequential> model;
  std::unique_ptr<tt::optim::Optimizer> opt;
  for (int e = 0; e < p.epochs; e++) {
    if (e == 0 || e == cut) {
      auto m2 = mkModel(p);
      tt::manualSeed(e ? 999 : p.seed);
      m2->initParameters();
      if (e) {
        c.check(tt::save(*model, dir.file("m")) && tt::load(*m2, dir.file("m")), "train.resumeFile", "saving or loading failed");
      }
      opt.reset();
      model = m2;
      opt = s_opt::make(p.h, model->parameters());
    }
    td::DataLoader dl(ds, p.batch, nullptr, false, p.dropLast);
    for (auto [bi, b] : dl) {
      (void)bi;
      opt->zeroGrad();
      Tensor out = (*model)(b[0]);
      Tensor loss = lossOf(p, out, b[1]);
      float lv = loss.item<float>();
      loss.backward();
      opt->step();
      uint32_t lb;
      memcpy(&lb, &lv, 4);
      t.loss.push_back(lb);
      t.params.push_back(bytesOf(*model));
    }
  }
  sameTrace(c, a, t, "train.resumed", "resumed from a file");
  c.obs("train.resumed", (int64_t)t.loss.size());
  c.seen(c.desc);
}
}  // namespace s_train
