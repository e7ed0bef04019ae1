// optimizer configurations and a reference implementation of their recurrences
#pragma once
#include "tt.h"

#include "Optimizer.h"
namespace s_opt {
namespace fn = tt::function;
namespace optim = tt::optim;

struct Hyper {
  int kind = 0;  // 0 SGD 1 Adagrad 2 RMSprop 3 AdaDelta 4 Adam 5 AdamW
  float lr = 0.01f, momentum = 0, dampening = 0, wd = 0, lrDecay = 0, initAcc = 0, eps = 1e-8f, alpha = 0.99f, rho = 0.9f, b1 = 0.9f, b2 = 0.999f;
  bool nesterov = false, centered = false, amsgrad = false;
  std::string str() const {
    static const char* n[] = {"SGD", "Adagrad", "RMSprop", "AdaDelta", "Adam", "AdamW"};
    switch (kind) {
      case 0: return fmt("%s lr %g momentum %g dampening %g wd %g nesterov %d", n[kind], lr, momentum, dampening, wd, nesterov);
      case 1: return fmt("%s lr %g lrDecay %g wd %g initAcc %g eps %g", n[kind], lr, lrDecay, wd, initAcc, eps);
      case 2: return fmt("%s lr %g alpha %g eps %g wd %g momentum %g centered %d", n[kind], lr, alpha, eps, wd, momentum, centered);
      case 3: return fmt("%s lr %g rho %g eps %g wd %g", n[kind], lr, rho, eps, wd);
      default: return fmt("%s lr %g betas %g %g eps %g wd %g amsgrad %d", n[kind], lr, b1, b2, eps, wd, amsgrad);
    }
  }
};

static Hyper genHyper(vh::Rng& r) {
  Hyper h;
  h.kind = (int)r.range(0, 5);
  h.lr = r.pick({0.001f, 0.01f, 0.05f, 0.1f, 0.3f, 1.0f});
  h.wd = r.chance(0.5) ? 0.f : r.pick({0.001f, 0.01f, 0.1f, 0.3f});
  h.eps = r.pick({1e-8f, 1e-6f, 1e-3f, 1e-2f, 0.1f});
  switch (h.kind) {
    case 0:
      h.momentum = r.chance(0.35) ? 0.f : r.pick({0.5f, 0.9f, 0.99f, 0.1f});
      h.nesterov = h.momentum > 0 && r.chance(0.4);
      h.dampening = h.nesterov || r.chance(0.5) ? 0.f : r.pick({0.1f, 0.5f, 0.9f});
      break;
    case 1:
      h.lrDecay = r.chance(0.4) ? 0.f : r.pick({0.01f, 0.1f, 0.5f});
      h.initAcc = r.chance(0.4) ? 0.f : r.pick({0.1f, 1.f, 2.5f});
      if (r.chance(0.3)) h.eps = 1e-10f;
      break;
    case 2:
      h.alpha = r.pick({0.99f, 0.9f, 0.5f, 0.2f});
      h.momentum = r.chance(0.5) ? 0.f : r.pick({0.5f, 0.9f});
      h.centered = r.chance(0.5);
      break;
    case 3: h.rho = r.pick({0.9f, 0.5f, 0.95f, 0.1f}); break;
    default:
      h.b1 = r.pick({0.9f, 0.5f, 0.99f, 0.f, 0.1f});
      h.b2 = r.pick({0.999f, 0.99f, 0.9f, 0.5f});
      h.amsgrad = r.chance(0.4);
  }
  return h;
}

static std::unique_ptr<optim::Optimizer> make(const Hyper& h, std::vector<tt::TensorPtr> ps) {
  switch (h.kind) {
    case 0: return std::make_unique<optim::SGD>(std::move(ps), h.lr, h.momentum, h.dampening, h.wd, h.nesterov);
    case 1: return std::make_unique<optim::Adagrad>(std::move(ps), h.lr, h.lrDecay, h.wd, h.initAcc, h.eps);
    case 2: return std::make_unique<optim::RMSprop>(std::move(ps), h.lr, h.alpha, h.eps, h.wd, h.momentum, h.centered);
    case 3: return std::make_unique<optim::AdaDelta>(std::move(ps), h.lr, h.rho, h.eps, h.wd);
    case 4: return std::make_unique<optim::Adam>(std::move(ps), h.lr, std::make_pair(h.b1, h.b2), h.eps, h.wd, h.amsgrad);
    default: return std::make_unique<optim::AdamW>(std::move(ps), h.lr, std::make_pair(h.b1, h.b2), h.eps, h.wd, h.amsgrad);
  }
}

// reference optimizer over doubles; noise > 0 perturbs and rounds every operation, to measure how far rounding can carry
struct Ref {
  Hyper h;
  double noise = 0;
  DType t = DType::Float32;
  vh::Rng rng{1};
  std::vector<std::vector<double>> p, s1, s2, s3;
  std::vector<bool> started;
  int64_t step = 0;
  double q(double x) {
    if (noise == 0) return x;
    return roundTo(t, x * (1 + noise * (2 * rng.unit() - 1)));
  }
  void init(const std::vector<std::vector<double>>& ps) {
    p = ps;
    s1.clear();
    for (auto& v : ps) {
      s1.emplace_back(v.size(), h.kind == 1 ? (double)h.initAcc : 0.0);
      s2.emplace_back(v.size(), 0.0);
      s3.emplace_back(v.size(), 0.0);
      started.push_back(false);
    }
  }
  void doStep(const std::vector<const std::vector<double>*>& g) {
    step++;
    double lr = h.lr;
    for (size_t i = 0; i < p.size(); i++) {
      if (!g[i]) continue;
      for (size_t k = 0; k < p[i].size(); k++) {
        double w = p[i][k], d = (*g[i])[k];
        double &a = s1[i][k], &b = s2[i][k], &cc = s3[i][k];
        if (h.kind == 5) w = q(w * q(1 - (double)h.lr * h.wd));
        else if (h.wd != 0) d = q(d + q(h.wd * w));
        switch (h.kind) {
          case 0: {
            if (h.momentum != 0) {
              a = started[i] ? q(q(h.momentum * a) + q((1 - (double)h.dampening) * d)) : d;
              d = h.nesterov ? q(d + q(h.momentum * a)) : a;
            }
            w = q(w - q(lr * d));
            break;
          }
          case 1: {
            double clr = q(lr / q(1 + (double)(step - 1) * h.lrDecay));
            a = q(a + q(d * d));
            w = q(w - q(q(clr * d) / q(q(sqrt(a)) + h.eps)));
            break;
          }
          case 2: {
            a = q(q(h.alpha * a) + q(q((1 - (double)h.alpha) * d) * d));
            double avg;
            if (h.centered) {
              b = q(q(h.alpha * b) + q((1 - (double)h.alpha) * d));
              avg = q(sqrt(q(a - q(b * b))));
            } else avg = q(sqrt(a));
            avg = q(avg + h.eps);
            if (h.momentum != 0) {
              cc = q(q(h.momentum * cc) + q(d / avg));
              w = q(w - q(lr * cc));
            } else w = q(w - q(q(lr * d) / avg));
            break;
          }
          case 3: {
            a = q(q(h.rho * a) + q(q((1 - (double)h.rho) * d) * d));
            double dl = q(q(q(sqrt(q(b + h.eps))) / q(sqrt(q(a + h.eps)))) * d);
            b = q(q(h.rho * b) + q(q((1 - (double)h.rho) * dl) * dl));
            w = q(w - q(lr * dl));
            break;
          }
          default: {
            // the scalar bias corrections are computed in single precision
            auto qs = [&](double x) { return noise == 0 ? x : (double)(float)(x * (1 + 1.2e-7 * (2 * rng.unit() - 1))); };
            double c1 = 1 - qs(pow((double)h.b1, (double)step)), c2 = 1 - qs(pow((double)h.b2, (double)step));
            a = q(q(h.b1 * a) + q((1 - (double)h.b1) * d));
            b = q(q(h.b2 * b) + q(q((1 - (double)h.b2) * d) * d));
            double mh = q(a / q(c1)), vh = q(b / q(c2));
            if (h.amsgrad) vh = cc = std::max(cc, vh);
            w = q(w - q(q(lr * mh) / q(q(sqrt(vh)) + h.eps)));
          }
        }
        p[i][k] = w;
      }
      started[i] = true;
    }
  }
};
}  // namespace s_opt
