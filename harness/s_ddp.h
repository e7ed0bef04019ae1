// C28: data-parallel training: parameters equal after wrapping, gradients are the mean over the ranks, ranks stay identical
#pragma once
#include "h_dist.h"
#include "Distributed/DistributedModule.h"
#include "Functions.h"
#include "Modules.h"
#include "Optimizer.h"
#include <set>
namespace s_ddp {
using namespace vh;
namespace dist = tinytorch::distributed;
namespace nn = tt::nn;
namespace fn = tt::function;
struct Arch {
  int in, out;
  bool conv = false;          // image front end
  int ch = 1, side = 6;
  std::vector<int> widths;    // hidden layers
  int reuse = 1;              // how often the square layer is applied (one parameter, several uses)
  bool square = false;
  std::vector<bool> bias;
  std::vector<bool> frozen;   // per parameter
  int loss = 0;
  std::string str() const {
    std::string s = fmt("in%d %s", in, conv ? fmt("conv%dx%d ", ch, side).c_str() : "");
    for (int w : widths) s += fmt("%d-", w);
    if (square) s += fmt("sq*%d-", reuse);
    s += fmt("out%d", out);
    for (size_t i = 0; i < frozen.size(); i++)
      if (frozen[i]) s += fmt(" frozen%zu", i);
    return s;
  }
};
struct Net : nn::Module {
  Arch a;
  std::unique_ptr<nn::Conv2D> conv;
  std::vector<std::unique_ptr<nn::Linear>> lin;
  std::unique_ptr<nn::Linear> sq, last;
  explicit Net(const Arch& arch) : a(arch) {
    int w = a.in;
    if (a.conv) {
      conv = std::make_unique<nn::Conv2D>(a.ch, 2, tt::Dim2D(3), tt::Dim2D(1), tt::Dim2D(0), true);
      registerModule("conv", *conv);
      w = 2 * (a.side - 2) * (a.side - 2);
    }
    for (size_t i = 0; i < a.widths.size(); i++) {
      lin.push_back(std::make_unique<nn::Linear>(w, a.widths[i], a.bias[i % a.bias.size()]));
      registerModule(fmt("l%zu", i), *lin.back());
      w = a.widths[i];
    }
    if (a.square) {
      sq = std::make_unique<nn::Linear>(w, w, a.bias[0]);
      registerModule("sq", *sq);
    }
    last = std::make_unique<nn::Linear>(w, a.out, true);
    registerModule("last", *last);
  }
  Tensor forward(const Tensor& input) override {
    Tensor x = input;
    if (conv) x = fn::flatten(fn::relu((*conv)(x)), 1, -1);
    for (auto& l : lin) x = fn::relu((*l)(x));
    if (sq)
      for (int i = 0; i < a.reuse; i++) x = (*sq)(x) * 0.5f;
    return (*last)(x);
  }
};
inline Arch genArch(Rng& r) {
  Arch a;
  a.conv = r.chance(0.25);
  a.in = (int)r.range(1, 6);
  a.out = (int)r.range(1, 4);
  int h = (int)r.range(0, 3);
  for (int i = 0; i < h; i++) a.widths.push_back((int)r.range(1, 9));
  a.square = r.chance(0.4);
  a.reuse = (int)r.range(1, 3);
  a.bias = {r.chance(0.7), r.chance(0.7)};
  a.loss = (int)r.range(0, 2);
  return a;
}
inline void setValues(nn::Module& m, Rng& r) {
  for (auto* p : m.parameters()) {
    RT v(toShape(p->shape()));
    for (auto& q : v.d) q = roundTo(DType::Float32, r.uniform(-0.9, 0.9));
    tt::NoGradGuard g;
    p->copy_(mkPlain(v, DType::Float32));
  }
}
inline std::vector<RT> values(nn::Module& m) {
  std::vector<RT> v;
  for (auto* p : m.parameters()) v.push_back(get(*p));
  return v;
}
inline std::vector<RT> grads(nn::Module& m) {
  std::vector<RT> v;
  for (auto* p : m.parameters()) v.push_back(p->requiresGrad() && p->grad().defined() ? get(p->grad()) : RT());
  return v;
}
inline Tensor lossOf(const Arch& a, const Tensor& y, Rng& r) {
  if (a.loss == 0) {
    RT t(toShape(y.shape()));
    for (auto& q : t.d) q = roundTo(DType::Float32, r.uniform(-1, 1));
    return fn::mseLoss(y, mkPlain(t, DType::Float32), tt::LossReduction::MEAN);
  }
  if (a.loss == 1) {
    Shape s{y.shape()[0]};
    RT t(s);
    for (auto& q : t.d) q = (double)r.range(0, a.out - 1);
    return fn::nllLoss(fn::logSoftmax(y, 1), mkPlain(t, DType::Int64), tt::LossReduction::MEAN);
  }
  return fn::sum(y * y * 0.25f);
}
inline Tensor inputOf(const Arch& a, Rng& r) {
  int64_t b = r.range(1, 5);
  RT x(a.conv ? Shape{b, a.ch, a.side, a.side} : Shape{b, a.in});
  for (auto& q : x.d) q = roundTo(DType::Float32, r.uniform(-1, 1));
  return mkPlain(x, DType::Float32);
}
inline std::unique_ptr<tt::optim::Optimizer> mkOpt(int k, nn::Module& m) {
  switch (k) {
    case 0: return std::make_unique<tt::optim::SGD>(m.parameters(), 0.05f);
    case 1: return std::make_unique<tt::optim::SGD>(m.parameters(), 0.05f, 0.9f);
    case 2: return std::make_unique<tt::optim::Adam>(m.parameters(), 0.01f);
    default: return std::make_unique<tt::optim::RMSprop>(m.parameters(), 0.01f);
  }
}
struct Rec {  // what one rank saw
  std::vector<RT> wrapped;
  struct Back {
    std::vector<RT> before, local, after, params;
    RT y, yPlain;
    bool raw = false;
  };
  std::vector<Back> backs;
};
inline void same(const std::vector<RT>& a, const std::vector<RT>& b, const char* sig, const std::string& what) {
  hd::check(a.size() == b.size(), sig, what + ": different number of parameters");
  for (size_t i = 0; i < a.size(); i++) {
    hd::check(a[i].shape == b[i].shape && a[i].d.size() == b[i].d.size(), sig, what + fmt(": parameter %zu: shapes or presence differ", i));
    for (size_t j = 0; j < a[i].d.size(); j++)
      if (!(a[i].d[j] == b[i].d[j])) throw Fail{sig, what + fmt(": parameter %zu element %zu: %.9g and %.9g", i, j, a[i].d[j], b[i].d[j])};
  }
}
SUITE(ddp_train, 100) {
  auto& r = c.rng;
  int n = (int)r.range(1, c.thorough ? 5 : 4);
  Arch a = genArch(r);
  int root = r.chance(0.5) ? 0 : (int)r.range(0, n - 1);
  int64_t cap = r.pick<int64_t>({1, 16, 64, 200, 1000, dist::kDefaultBucketBytesCap, r.range(1, 400)});
  int steps = (int)r.range(1, c.thorough ? 12 : 5), opt = (int)r.range(0, 3);
  bool rewrap = r.chance(0.2), unwrap = r.chance(0.3);
  double zeroP = r.pick<double>({1, 0.5, 0}), evalP = r.pick<double>({0, 0.3});
  size_t nParams;
  {
    Net t(a);
    nParams = t.parameters().size();
  }
  a.frozen.assign(nParams, false);
  bool frz = r.chance(0.3);
  if (frz)
    for (size_t i = 0; i + 2 < nParams; i++) a.frozen[i] = r.chance(0.4);
  c.desc = fmt("%d ranks, root %d, buckets of %lld bytes, %d steps, opt %d, zero %.1f%s%s: ", n, root, (long long)cap, steps, opt, zeroP, rewrap ? ", wrapped again" : "", unwrap ? ", unwrapped at the end" : "") + a.str();
  auto cfg = hd::genCfg(r);
  fnccl::reset(cfg, r.next());
  hf::Scratch dir;
  uint64_t seed = r.next(), planSeed = r.next();
  std::vector<Rec> rec(n);
  // the library's generator is not used by the ranks: all models are made here
  std::vector<std::unique_ptr<Net>> nets, shadows;
  std::vector<std::vector<RT>> init;
  for (int k = 0; k < n; k++) {
    nets.push_back(std::make_unique<Net>(a));
    shadows.push_back(std::make_unique<Net>(a));
    nets[k]->initParameters();
    shadows[k]->initParameters();
    setValues(*nets[k], r);
    init.push_back(values(*nets[k]));
    for (auto* net : {nets[k].get(), shadows[k].get()}) {
      auto ps = net->parameters();
      for (size_t i = 0; i < ps.size(); i++) ps[i]->setRequiresGrad(!a.frozen[i]);
    }
  }
  hd::ranks(n, [&](int rank) {
    Rng own(seed + 31 * rank), plan(planSeed);
    auto& me = rec[rank];
    auto& net = *nets[rank];
    auto& sh = *shadows[rank];
    auto pg = hd::join(dir.dir, rank, n);
    auto ddp = std::make_unique<dist::DistributedModule>(net, pg, root, cap);
    me.wrapped = values(net);
    auto optim = mkOpt(opt, net);
    auto syncShadow = [&] {
      auto from = net.parameters(), to = sh.parameters();
      tt::NoGradGuard g;
      for (size_t i = 0; i < from.size(); i++) to[i]->copy_(*from[i]);
    };
    auto oneBack = [&](bool raw) {
      Rec::Back b;
      b.raw = raw;
      b.before = grads(net);
      syncShadow();
      sh.zeroGrad();
      Tensor x = inputOf(a, own);
      Rng l1 = own, l2 = own;
      own.next();
      own = Rng(own.next());
      {
        Tensor y = sh(x);
        b.yPlain = get(y);
        lossOf(a, y, l1).backward();
        b.local = grads(sh);
      }
      {
        Tensor y = raw ? net(x) : (*ddp)(x);
        b.y = get(y);
        if (plan.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(own.range(0, 800)));
        lossOf(a, y, l2).backward();
        b.after = grads(net);
      }
      b.params = values(net);
      me.backs.push_back(std::move(b));
    };
    for (int s = 0; s < steps; s++) {
      if (rewrap && s == steps / 2) {
        int64_t cap2 = plan.pick<int64_t>({1, 100, 100000});
        ddp.reset();
        ddp = std::make_unique<dist::DistributedModule>(net, pg, root, cap2);
      }
      if (plan.chance(zeroP)) optim->zeroGrad();
      if (plan.chance(evalP)) {  // a forward pass that is never differentiated
        bool ng = plan.chance(0.5);
        std::unique_ptr<tt::NoGradGuard> g;
        if (ng) g = std::make_unique<tt::NoGradGuard>();
        ddp->eval();
        (void)(*ddp)(inputOf(a, own));
        ddp->train();
      }
      oneBack(false);
      if (plan.chance(0.6)) optim->step();
    }
    if (unwrap) {
      ddp.reset();
      optim->zeroGrad();
      oneBack(true);
    }
    ddp.reset();
    pg->destroyProcessGroup();
  });
  hd::faults(c);
  c.check(fnccl::quiesce() && fnccl::W().liveComms == 0, "ddp.leftovers", "streams or communicators left behind");
  // offline: the records of all ranks together
  for (int k = 0; k < n; k++) same(init[root], rec[k].wrapped, "ddp.wrapped", fmt("rank %d's parameters after wrapping against the root's", k));
  for (size_t b = 0; b < rec[0].backs.size(); b++) {
    // a training run that diverges ends the comparison (every earlier pass was compared)
    bool huge = false;
    for (int k = 0; k < n; k++)
      for (auto& l : rec[k].backs[b].local)
        for (double v : l.d) huge = huge || !(fabs(v) < 1e5);
    if (huge && b > 0) {
      c.obs("ddp.diverged");
      break;
    }
    auto& b0 = rec[0].backs[b];
    for (int k = 0; k < n; k++) {
      auto& q = rec[k].backs[b];
      expectSame(q.yPlain, q.y, "ddp.forward");
      if (!b0.raw || k == 0) same(b0.params, q.params, "ddp.params", fmt("pass %zu: parameters of ranks 0 and %d", b, k));
      if (!b0.raw) same(b0.after, q.after, "ddp.identical", fmt("pass %zu: gradients of ranks 0 and %d", b, k));
    }
    for (size_t i = 0; i < nParams; i++) {
      for (int k = 0; k < n; k++) {
        auto& q = rec[k].backs[b];
        if (a.frozen[i]) {
          c.check(q.after[i].d.empty(), "ddp.frozen", fmt("pass %zu: frozen parameter %zu has a gradient", b, i));
          continue;
        }
        c.check(q.after[i].shape == q.local[i].shape, "ddp.noGrad", fmt("pass %zu: no gradient of parameter %zu", b, i));
        for (size_t j = 0; j < q.after[i].d.size(); j++) {
          double e = q.before[i].d.size() ? q.before[i].d[j] : 0, mag = fabs(e), sum = 0;
          if (q.raw) sum = q.local[i].d[j], mag += fabs(sum);
          else {
            for (int m = 0; m < n; m++) sum += rec[m].backs[b].local[i].d[j], mag += fabs(rec[m].backs[b].local[i].d[j]);
            sum /= n;
          }
          e += sum;
          // every element of a contribution may have rounded at the size of the largest
          double big = 0;
          for (int m = 0; m < n; m++)
            for (double v : rec[m].backs[b].local[i].d) big = std::max(big, fabs(v));
          double tol = 3e-6 * (mag + big) + 1e-30;
          if (!(fabs(q.after[i].d[j] - e) <= tol))
            c.fail(q.raw ? "ddp.unwrapped" : "ddp.mean", fmt("pass %zu rank %d parameter %zu element %zu: gradient %.9g, expected %.9g (tolerance %.2g)", b, k, i, j, q.after[i].d[j], e, tol));
        }
      }
    }
    c.obs("ddp.backwardPasses");
  }
  if (!rewrap) {
    std::set<size_t> whole;
    for (auto* p : nets[0]->parameters()) whole.insert((size_t)p->numel());
    for (size_t k : fnccl::W().allReduced)
      c.check((int64_t)k * 4 <= cap || whole.count(k), "ddp.bucketSize", fmt("a bucket of %zu bytes was reduced, the limit is %lld and no parameter is that large", k * 4, (long long)cap));
    c.obs("ddp.bucketsReduced", (int64_t)fnccl::W().allReduced.size());
  }
  c.obs("ddp.runs");
  if (frz) c.obs("ddp.frozenRuns");
  if (unwrap) c.obs("ddp.unwrapped");
  c.seen(c.desc);
}
}  // namespace s_ddp
