// C10: no-grad scopes and propagation of the gradient requirement
#pragma once
#include <atomic>
#include <thread>

#include "gprog.h"
namespace s_nograd {
using namespace gp;
using tt::NoGradGuard;

// open scopes, always ended innermost first
struct Scopes {
  std::vector<std::unique_ptr<NoGradGuard>> g;
  ~Scopes() { clear(); }
  void open() { g.push_back(std::make_unique<NoGradGuard>()); }
  void close() { g.pop_back(); }
  void clear() {
    while (!g.empty()) g.pop_back();
  }
  bool empty() const { return g.empty(); }
  size_t size() const { return g.size(); }
};

// programs in which every instruction runs under a random depth of no-grad scopes
SUITE(ng_program, 300) {
  auto& r = c.rng;
  Prog p(r);
  int nl = (int)r.range(1, 3), n = (int)r.range(2, 10);
  bool img = r.chance(0.3);
  for (int i = 0; i < nl; i++) {
    Shape s = img && i == 0 ? Shape{r.range(1, 2), r.range(1, 2), r.range(2, 3), r.range(2, 3)} : genShape(r, 4, 16);
    p.newLeaf(s);
  }
  std::string key;
  double pn = r.pick<double>({0.2, 0.5, 0.8});
  Scopes scopes;
  for (int k = 0, tries = 0; k < n && tries < 300; tries++) {
    if (r.chance(pn)) {
      if (scopes.size() < 4 && r.chance(0.6)) scopes.open();
      else if (!scopes.empty()) scopes.close();
    }
    c.check(NoGradGuard::isGradEnabled() == scopes.empty(), "ng.state", "recording state does not match the open scopes");
    p.recording = scopes.empty();
    c.desc = p.str();
    if (!p.step()) continue;
    k++;
    Var& o = p.v.back();
    c.desc = fmt("scopes=%zu ", scopes.size()) + p.str();
    c.check(o.t.requiresGrad() == o.req, "ng.requires", fmt("result of %s requiresGrad=%d expected %d", opName[p.ins.back().op], o.t.requiresGrad(), o.req));
    for (auto& x : p.v)
      if (x.leaf) c.check(x.t.requiresGrad() == x.req && x.t.isLeaf() == x.req, "ng.leaf", "a leaf's requirement changed");
    // the same instruction in the other mode: same values, bit for bit
    const Instr& I = p.ins.back();
    if (I.op != oDropout) {
      std::vector<Tensor> a;
      bool anyReq = false;
      for (auto q : I.in) a.push_back(p.v[q].t), anyReq |= p.v[q].req;
      Instr J = I;
      if (J.api == 2) J.api = 1;
      Tensor o2;
      if (scopes.empty()) {
        NoGradGuard g;
        o2 = evalLib(J, a, false);
        c.check(!o2.requiresGrad(), "ng.noGradResult", fmt("%s recorded inside a no-grad scope", opName[I.op]));
      } else {
        std::thread th([&] { o2 = evalLib(J, a, false); });  // a new thread records
        th.join();
        c.check(o2.requiresGrad() == anyReq, "ng.otherThread", fmt("%s in another thread: requiresGrad=%d expected %d", opName[I.op], o2.requiresGrad(), anyReq));
        c.obs("ng.thread");
      }
      expectSame(get(o.t), get(o2), fmt("ng.sameValue.%s", opName[I.op]));
    }
    c.obs(scopes.empty() ? "ng.recorded" : "ng.unrecorded");
    key += fmt("%d%zu", I.op, scopes.size());
  }
  scopes.clear();
  c.check(NoGradGuard::isGradEnabled(), "ng.restore", "recording is off after all scopes ended");
  std::vector<int> roots;
  for (size_t i = 0; i < p.v.size(); i++)
    if (p.v[i].req && !p.v[i].leaf) roots.push_back((int)i);
  if (roots.empty()) return;
  int root = r.pick(roots);
  // gradients treat what was computed inside scopes as constant
  if (backAndCheck(c, p, root, "ngGrad")) c.obs("ng.backward");
  c.seen(key + std::to_string(root));
}

// every function: recorded outside, not recorded inside, same values
struct F {
  const char* name;
  std::function<std::vector<Tensor>(const Tensor&, const Tensor&, const Tensor&)> f;
  bool check = true;  // result is differentiable in the inputs (not an index or a comparison)
};
#define L1(e) [](const Tensor& a, const Tensor& b, const Tensor& m) -> std::vector<Tensor> { (void)a, (void)b, (void)m; return {e}; }
static const std::vector<F>& funcs() {
  using tt::Scalar;
  // a, b: [2,3,4,4] positive values; m: [6,4]
  static const std::vector<F> v{
      {"sqrt", L1(fn::sqrt(a))}, {"gelu", L1(fn::gelu(a))}, {"silu", L1(fn::silu(a))}, {"siluMul", L1(fn::siluMul(a))},
      {"maximum", L1(fn::maximum(a, b))}, {"minimum", L1(fn::minimum(a, b))}, {"matmul", L1(fn::matmul(a, b))},
      {"matmulT", L1(fn::matmul(a, b, true, true))}, {"operator matmul", L1(a.matmul(b))},
      {"min", L1(fn::min(a))}, {"max", L1(fn::max(a))}, {"maxDim", L1(fn::max(a, 1, false).first)}, {"minDim", L1(fn::min(a, -1, true).first)},
      {"sumDim", L1(fn::sum(a, 2))}, {"mean", L1(fn::mean(a))}, {"meanDim", L1(fn::mean(a, 1))}, {"var", L1(fn::var(a, true))},
      {"varDim", L1(fn::var(a, 1, true))}, {"sumDims", L1(a.sum(IntArrayView{0, 2}))}, {"meanDims", L1(a.mean(IntArrayView{0, 2}, true))},
      {"varMean", [](const Tensor& a, const Tensor&, const Tensor&) -> std::vector<Tensor> { auto p = a.varMean(); return {p.first, p.second}; }},
      {"transpose", L1(a.transpose(0, 2))}, {"t", L1(m.t())}, {"tril", L1(m.tril())}, {"triu", L1(fn::triu(m, 1))},
      {"split", [](const Tensor& a, const Tensor&, const Tensor&) -> std::vector<Tensor> { return a.split(2, 2); }},
      {"splitSections", [](const Tensor& a, const Tensor&, const Tensor&) -> std::vector<Tensor> { return a.split(IntArrayView{1, 2}, 1); }},
      {"chunk", [](const Tensor& a, const Tensor&, const Tensor&) -> std::vector<Tensor> { return a.chunk(2, 3); }},
      {"concat", [](const Tensor& a, const Tensor& b, const Tensor&) -> std::vector<Tensor> { std::vector<Tensor> l{a, b}; return {fn::concat(tt::ArrayView<Tensor>(l), 1)}; }},
      {"stack", [](const Tensor& a, const Tensor& b, const Tensor&) -> std::vector<Tensor> { std::vector<Tensor> l{b, a}; return {fn::stack(tt::ArrayView<Tensor>(l), 0)}; }},
      {"vstack", [](const Tensor& a, const Tensor& b, const Tensor&) -> std::vector<Tensor> { std::vector<Tensor> l{b, a}; return {fn::vstack(tt::ArrayView<Tensor>(l))}; }},
      {"hstack", [](const Tensor& a, const Tensor& b, const Tensor&) -> std::vector<Tensor> { std::vector<Tensor> l{a, b}; return {fn::hstack(tt::ArrayView<Tensor>(l))}; }},
      {"narrow", L1(a.narrow(1, 1, 2))}, {"expand", L1(fn::expand(m.reshape({6, 1, 4}), IntArrayView{6, 3, 4}))},
      {"repeatInterleave", L1(fn::repeatInterleave(m, 2, 0))},
      {"gather", L1(fn::gather(m, 1, Tensor(std::vector<std::vector<int64_t>>{{0, 3}, {1, 1}})))},
      {"indexSelect", L1(fn::indexSelect(m, 0, Tensor(std::vector<int64_t>{5, 0})))},
      {"embedding", L1(fn::embedding(Tensor(std::vector<int64_t>{5, 0, 2}), m))},
      {"layerNorm", L1(fn::layerNorm(a, IntArrayView{4}, Tensor(), Tensor()))}, {"rmsNorm", L1(fn::rmsNorm(a, IntArrayView{4}, Tensor()))},
      {"sdpAttention", L1(fn::sdpAttention(a, b, a))}, {"sdpCausal", L1(fn::sdpAttention(a, b, b, true))},
      {"sin", L1(a.sin())}, {"mulS", L1(a * Scalar(2.f))}, {"Smul", L1(Scalar(2.f) * a)}, {"reshape", L1(a.reshape({-1}))}, {"view", L1(a.view({6, 16}))},
      {"permute", L1(a.permute(IntArrayView{1, 0, 3, 2}))}, {"permuteAll", L1(a.permute())}, {"squeeze", L1(a.unsqueeze(1).squeeze(1))},
      {"flatten", L1(a.flatten(1, 2))}, {"unflatten", L1(a.unflatten(3, {2, 2}))}, {"softmax", L1(fn::softmax(a, 1))}, {"logSoftmax", L1(fn::logSoftmax(a, 1))},
      {"sum", L1(a.sum())}, {"linear", L1(fn::linear(a, m))}, {"maxPool", L1(fn::maxPool2d(a, 2, 2))}, {"conv", L1(fn::conv2d(a, b))},
      {"dropoutEval", L1(fn::dropout(a, 0.5f, false))}, {"relu", L1(fn::relu(a))}, {"pow", L1(a.pow(b))}, {"powS", L1(a.pow(Scalar(2.f)))},
      {"mse", L1(fn::mseLoss(a, Tensor::zeros(a.shape())))}, {"nll", L1(fn::nllLoss(m, Tensor(std::vector<int64_t>{0, 1, 2, 3, 0, 1})))},
      {"lt", L1(a < b), false}, {"eq", L1(a == b), false}, {"argmax", L1(a.argmax(1)), false}, {"cmpS", L1(a >= tt::Scalar(1.f)), false},
  };
  return v;
}
SUITE(ng_functions, 130) {
  auto& r = c.rng;
  const F& f = funcs()[c.index % funcs().size()];
  bool ra = r.chance(0.7), rb = r.chance(0.7), rm = r.chance(0.7);
  RT x = genRT(r, {2, 3, 4, 4}, DType::Float32, 0.25, 2), y = genRT(r, {2, 3, 4, 4}, DType::Float32, 0.25, 2), z = genRT(r, {6, 4}, DType::Float32, 0.25, 2);
  c.desc = fmt("%s requiresGrad=%d%d%d", f.name, ra, rb, rm);
  Tensor a = mkPlain(x, DType::Float32, ra), b = mkPlain(y, DType::Float32, rb), m = mkPlain(z, DType::Float32, rm);
  auto on = f.f(a, b, m);
  std::vector<Tensor> off, base;
  int depth = (int)r.range(1, 3);
  {
    Scopes g;
    for (int i = 0; i < depth; i++) g.open();
    off = f.f(a, b, m);
    g.close();
    if (depth > 1) {
      auto o3 = f.f(a, b, m);
      for (auto& t : o3) c.check(!t.requiresGrad(), "ngF.nested", "recorded inside the outer scope after the inner one ended");
    }
  }
  Tensor pa = mkPlain(x, DType::Float32), pb = mkPlain(y, DType::Float32), pm = mkPlain(z, DType::Float32);
  base = f.f(pa, pb, pm);
  c.check(on.size() == off.size() && on.size() == base.size(), "ngF.count", "number of results differs");
  // which inputs matter: recorded exactly when one of the inputs it is differentiable in requires a gradient
  auto uses = [&](int k) {
    Tensor qa = mkPlain(x, DType::Float32, k == 0), qb = mkPlain(y, DType::Float32, k == 1), qm = mkPlain(z, DType::Float32, k == 2);
    return f.f(qa, qb, qm)[0].requiresGrad();
  };
  bool ua = uses(0), ub = uses(1), um = uses(2);
  bool expect = (ra && ua) || (rb && ub) || (rm && um);
  if (f.check) c.check(ua || ub || um, "ngF.recorded", "a result of inputs that require gradients does not require one");
  for (size_t i = 0; i < on.size(); i++) {
    c.check(!off[i].requiresGrad(), "ngF.scope", "result recorded inside a no-grad scope");
    c.check(!base[i].requiresGrad(), "ngF.base", "result requires a gradient though no input does");
    if (f.check) c.check(on[i].requiresGrad() == expect, "ngF.propagate", fmt("requiresGrad=%d expected %d", on[i].requiresGrad(), expect));
    expectSame(get(base[i]), get(on[i]), "ngF.valueOn");
    expectSame(get(base[i]), get(off[i]), "ngF.valueOff");
  }
  c.check(a.requiresGrad() == ra && b.requiresGrad() == rb && m.requiresGrad() == rm, "ngF.inputs", "an input's requirement changed");
  c.obs(std::string("ngF.") + f.name);
  c.seen(c.desc + std::to_string(depth));
}

// scopes that end in unusual ways
static int scopeReturn(int k) {
  WithNoGrad {
    if (k > 0) return NoGradGuard::isGradEnabled() ? -1 : scopeReturn(k - 1);
    return NoGradGuard::isGradEnabled() ? -1 : 7;
  }
  return -2;
}
SUITE(ng_nesting, 80) {
  auto& r = c.rng;
  c.check(NoGradGuard::isGradEnabled(), "ngN.start", "recording is off at the start");
  int depth = (int)r.range(0, 6);
  c.check(scopeReturn(depth) == 7, "ngN.return", "recording inside a scope");
  c.check(NoGradGuard::isGradEnabled(), "ngN.afterReturn", fmt("recording is off after returning out of %d scopes", depth + 1));
  try {
    NoGradGuard g;
    WithNoGrad { throw 1; }
  } catch (int) {
  }
  c.check(NoGradGuard::isGradEnabled(), "ngN.afterThrow", "recording is off after leaving scopes by an exception");
  for (int i = 0; i < depth; i++) {
    WithNoGrad {
      if (i % 2) continue;
      c.check(!NoGradGuard::isGradEnabled(), "ngN.in", "recording inside a scope");
    }
    c.check(NoGradGuard::isGradEnabled(), "ngN.loop", "recording is off after a scope in a loop");
  }
  // a model inside a scope
  int64_t in = r.range(1, 5), out = r.range(1, 4);
  tt::nn::Sequential q{std::make_shared<tt::nn::Linear>(in, out), std::make_shared<tt::nn::Relu>(), std::make_shared<tt::nn::Dropout>(0.5f), std::make_shared<tt::nn::LogSoftmax>(-1)};
  for (auto& p : q.parameters()) writeRaw(*p, genRT(r, toShape(p->shape()), DType::Float32).d);
  q.eval();
  RT x = genRT(r, {r.range(1, 4), in}, DType::Float32);
  Tensor tx = mkPlain(x, DType::Float32, r.chance(0.5)), y1 = q(tx), y2;
  WithNoGrad { y2 = q(tx); }
  c.check(y1.requiresGrad() && !y2.requiresGrad(), "ngN.model", "model output's requirement");
  expectSame(get(y1), get(y2), "ngN.modelValue");
  for (auto& p : q.parameters()) c.check(p->requiresGrad() && p->isLeaf() && !p->grad().defined(), "ngN.param", "a parameter's gradient state changed");
  // chains inside a scope keep nothing of the past alive
  std::vector<std::weak_ptr<tt::Storage>> w;
  {
    NoGradGuard g;
    Tensor z = mkPlain(genRT(r, {4}, DType::Float32), DType::Float32, true);
    for (int i = 0; i < 6; i++) {
      z = z * 1.5f + 1.f;
      w.push_back(z.storage());
    }
    for (size_t i = 0; i + 1 < w.size(); i++) c.check(w[i].expired(), "ngN.kept", "an intermediate computed inside a scope is kept alive");
  }
  // outside the graph does keep what it needs
  Tensor z = mkPlain(genRT(r, {4}, DType::Float32, 0.5, 1), DType::Float32, true), z0 = z;
  for (int i = 0; i < 3; i++) z = z * z;
  z.backward(Tensor::ones({4}));
  c.check(z0.grad().defined(), "ngN.chain", "no gradient through the chain");
  c.obs("ng.nesting");
  c.seen(fmt("nest%d,%lld,%lld", depth, (long long)in, (long long)out));
}

// requirement switched on and off by hand
SUITE(ng_toggle, 60) {
  auto& r = c.rng;
  Shape s = genShape(r, 3, 12);
  RT x = genRT(r, s, DType::Float32);
  Tensor a = mkPlain(x, DType::Float32);
  bool cur = false;
  for (int i = 0; i < 6; i++) {
    bool want = r.chance(0.5);
    a.setRequiresGrad(want);
    cur = want;
    Tensor y = a * 2.f, k;
    c.check(y.requiresGrad() == cur, "ngT.follow", fmt("requiresGrad=%d expected %d", y.requiresGrad(), cur));
    WithNoGrad { k = a * 2.f; }
    c.check(!k.requiresGrad() && a.requiresGrad() == cur, "ngT.scope", "scope changed the requirement");
    if (cur) {
      a.setGrad(Tensor());
      y.backward(Tensor::ones(IntArrayView(s)));
      expectSame(RT(s, 2), get(a.grad()), "ngT.grad");
    } else {
      y.backward(Tensor::ones(IntArrayView(s)));  // ignored with an error message
      c.check(!y.requiresGrad(), "ngT.ignored", "");
    }
    Tensor cl = a.clone();
    c.check(cl.requiresGrad() == cur, "ngT.clone", "clone's requirement");
  }
  c.obs("ng.toggle");
  c.seen("tog" + shapeStr(s));
}

// scopes in several threads at once
SUITE(ng_threads, 20) {
  auto& r = c.rng;
  int T = (int)r.range(2, 5), steps = 40;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < T; i++) seeds.push_back(r.next());
  std::atomic<int> bad{0}, ready{0};
  Tensor shared = mkPlain(genRT(r, {8}, DType::Float32), DType::Float32, true);
  NoGradGuard* outer = r.chance(0.5) ? new NoGradGuard() : nullptr;
  std::vector<std::thread> th;
  for (int i = 0; i < T; i++)
    th.emplace_back([&, i] {
      vh::Rng q(seeds[i]);
      Scopes g;
      ready++;
      while (ready < T) {
      }
      for (int k = 0; k < steps; k++) {
        int e = (int)q.range(0, 3);
        if (e == 0 && g.size() < 5) g.open();
        if (e == 1 && !g.empty()) g.close();
        if (e == 2) std::this_thread::yield();
        if (NoGradGuard::isGradEnabled() != g.empty()) bad |= 1;
        Tensor y = shared * 2.f;
        if (y.requiresGrad() != g.empty()) bad |= 2;
      }
      g.clear();
      if (!NoGradGuard::isGradEnabled()) bad |= 4;
    });
  for (auto& t : th) t.join();
  c.check(NoGradGuard::isGradEnabled() == !outer, "ngThr.main", "the main thread's state changed");
  delete outer;
  c.check(NoGradGuard::isGradEnabled(), "ngThr.after", "recording is off");
  c.check(bad == 0, "ngThr.interference", fmt("threads see each other's scopes (%d)", (int)bad));
  c.obs("ng.threads", T * steps);
  c.seen(fmt("thr%d%d", T, outer != nullptr) + std::to_string(seeds[0] % 1000));
}
}  // namespace s_nograd
