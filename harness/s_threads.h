// C34: jobs on tensors of their own, run alone and then together
#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <sched.h>
#include <thread>
#include "Data/DataLoader.h"
#include "Modules.h"
#include "Scheduler.h"
#include "Serializer.h"
#include "gprog.h"
#include "h_files.h"
#include "h_opt.h"
namespace s_threads {
using namespace vh;
namespace nn = tt::nn;
namespace fn = tt::function;
namespace op = tt::op;
namespace td = tt::data;
// the order in which the threads get to work, without ordering them (relaxed counters synchronise nothing)
struct Clock {
  std::atomic<uint32_t> next{0};
  std::atomic<uint8_t> who[4096] = {};
  void tick(int thread) {
    uint32_t k = next.fetch_add(1, std::memory_order_relaxed);
    if (k < 4096) who[k].store((uint8_t)(thread + 1), std::memory_order_relaxed);
  }
};
struct Ctx {
  Rng r;
  std::vector<uint64_t> log;   // digests, one per step
  Clock* clock = nullptr;
  int thread = 0;
  int pause = 0;               // how eagerly to give way
  std::string dir;
  uint64_t pauses;
  explicit Ctx(uint64_t seed) : r(seed), pauses(seed * 31 + 7) {}
  void step() {
    if (!clock) return;
    clock->tick(thread);
    pauses = mix(pauses + 1);
    if (pause && (int)(pauses % 100) < pause) {
      if (pauses & 256) sched_yield();
      else std::this_thread::sleep_for(std::chrono::microseconds((pauses >> 9) % 60));
    }
  }
  void add(const Tensor& t) {
    uint64_t h = 1469598103934665603ull;
    auto eat = [&](uint64_t v) { h = mix(h ^ v); };
    if (!t.defined()) {
      log.push_back(7);
      step();
      return;
    }
    eat((uint64_t)t.dtype() * 2 + t.requiresGrad());
    for (auto d : t.shape()) eat((uint64_t)d + 1);
    if (t.numel()) {
      const uint8_t* p = (const uint8_t*)t.dataPtr<>();
      for (int64_t i = 0; i < t.nbytes(); i++) h = (h ^ p[i]) * 1099511628211ull;
    }
    log.push_back(h);
    step();
  }
  void add(double v) {
    uint64_t b;
    memcpy(&b, &v, 8);
    log.push_back(mix(b));
    step();
  }
};
// what every job may read and none may write
struct Shared {
  std::vector<Tensor> f;                  // float tensors
  std::vector<std::pair<Tensor, DType>> any;
  Tensor cube;                            // three dimensions
  std::shared_ptr<nn::Sequential> model;  // inference only
  int modelIn = 4;
  std::shared_ptr<td::Dataset> data;
  std::vector<std::vector<RT>> init;      // start values of the models to be trained
};
struct Ds : td::Dataset {
  std::vector<Tensor> x, y;
  size_t size() const override { return x.size(); }
  std::vector<Tensor> getItem(size_t i) override { return {x[i], y[i]}; }
};
// ---- jobs ----
// a differentiable program: forward, backward, gradients, hooks
struct ProgJob {
  std::vector<std::pair<RT, bool>> leaves;
  std::vector<int> leafAt;
  std::vector<gp::Instr> ins;
  int vars = 0, root = 0, rounds = 1;
  RT W;
};
inline void hookCount(void* p, Tensor& g) { *(double*)p += g.numel() ? get(g).d[0] : 1; }
inline void runProg(const ProgJob& j, Ctx& x) {
  for (int k = 0; k < j.rounds; k++) {
    std::vector<Tensor> v(j.vars);
    double seen = 0;
    for (size_t i = 0; i < j.leaves.size(); i++) {
      Tensor t = mkView(x.r, j.leaves[i].first, DType::Float32);
      if (j.leaves[i].second) {
        t.setRequiresGrad(true);
        if (x.r.chance(0.3)) t.registerHook(hookCount, &seen);
      }
      v[j.leafAt[i]] = t;
    }
    for (auto& I : j.ins) {
      std::vector<Tensor> a;
      for (int q : I.in) a.push_back(v[q]);
      if (x.r.chance(0.15)) {  // what another thread's state must not decide
        tt::NoGradGuard g;
        gp::Instr J = I;
        if (J.api == 2) J.api = 1;
        Tensor quiet = gp::evalLib(J, a, false);
        x.add((double)(quiet.requiresGrad() * 2 + tt::NoGradGuard::isGradEnabled()));
      }
      bool leaf = std::find(j.leafAt.begin(), j.leafAt.end(), I.in[0]) != j.leafAt.end();
      v[I.out] = gp::evalLib(I, a, !leaf);
      x.add(v[I.out]);
    }
    if (v[j.root].requiresGrad()) v[j.root].backward(mkPlain(j.W, DType::Float32));
    for (int at : j.leafAt)
      if (v[at].requiresGrad()) x.add(v[at].grad());
    x.add(seen);
  }
}
// a model of its own, trained from given values
struct TrainJob {
  int kind = 0, in = 4, hid = 5, out = 3, batch = 4, steps = 6, init = 0;
  bool conv = false, nll = false;
  s_opt::Hyper h;
};
inline std::shared_ptr<nn::Sequential> build(const TrainJob& j) {
  auto m = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
  if (j.conv) {
    m->pushBack(std::make_shared<nn::Conv2D>(1, 2, tt::Dim2D(3, 3), tt::Dim2D(1, 1), tt::Dim2D(1, 1)));
    m->pushBack(std::make_shared<nn::Relu>());
    m->pushBack(std::make_shared<nn::MaxPool2D>(tt::Dim2D(2, 2)));
    m->pushBack(std::make_shared<nn::Flatten>(1, -1));
    m->pushBack(std::make_shared<nn::Linear>(2 * 3 * 3, j.out));
  } else {
    m->pushBack(std::make_shared<nn::Linear>(j.in, j.hid));
    m->pushBack(std::make_shared<nn::Relu>());
    m->pushBack(std::make_shared<nn::Linear>(j.hid, j.out));
  }
  if (j.nll) m->pushBack(std::make_shared<nn::LogSoftmax>(1));
  return m;
}
inline void runTrain(const TrainJob& j, const Shared& sh, Ctx& x) {
  auto m = build(j);
  auto ps = m->parameters();
  for (size_t i = 0; i < ps.size(); i++) {
    tt::NoGradGuard g;
    ps[i]->copy_(mkPlain(sh.init[j.init][i], DType::Float32));
  }
  auto o = s_opt::make(j.h, ps);
  tt::optim::lr_scheduler::StepLR sched(*o, 2, 0.5f);
  for (int s = 0; s < j.steps; s++) {
    RT in(j.conv ? Shape{j.batch, 1, 6, 6} : Shape{j.batch, j.in}), y(j.nll ? Shape{j.batch} : Shape{j.batch, j.out});
    for (auto& v : in.d) v = roundTo(DType::Float32, x.r.uniform(-1, 1));
    for (auto& v : y.d) v = j.nll ? (double)x.r.range(0, j.out - 1) : roundTo(DType::Float32, x.r.uniform(-1, 1));
    o->zeroGrad();
    Tensor out = (*m)(mkPlain(in, DType::Float32));
    x.step();
    Tensor loss = j.nll ? fn::nllLoss(out, mkPlain(y, DType::Int64), tt::LossReduction::MEAN) : fn::mseLoss(out, mkPlain(y, DType::Float32), tt::LossReduction::MEAN);
    x.add(loss);
    loss.backward();
    for (auto* p : ps) x.add(p->grad());
    o->step();
    for (auto* p : ps) x.add(*p);
    sched.step();
    if (s % 3 == 2) {
      m->eval();
      tt::NoGradGuard g;
      x.add((*m)(mkPlain(in, DType::Float32)));
      m->train(true);
    }
  }
  if (!x.dir.empty()) {
    std::string f = x.dir + fmt("/t%d_%llu", x.thread, (unsigned long long)x.r.next());
    bool ok = tt::save(*m, f);
    auto m2 = build(j);
    ok = ok && tt::load(*m2, f);
    unlink(f.c_str());
    x.add((double)ok);
    for (auto* p : m2->parameters()) x.add(*p);
  }
}
// a mix of operations on shared tensors, and on own copies of them
inline void runOps(const Shared& sh, Ctx& x, int steps) {
  auto& r = x.r;
  std::vector<Tensor> own;
  for (int s = 0; s < steps; s++) {
    const Tensor& a = r.pick(sh.f);
    int64_t nd = a.dim(), d = r.range(0, nd - 1), dn = r.chance(0.5) ? d - nd : d;
    switch (r.range(0, 21)) {
      case 0: {
        Shape pm(nd);
        for (int64_t i = 0; i < nd; i++) pm[i] = i;
        r.shuffle(pm);
        x.add(op::permute(a, IntArrayView(pm)));
        break;
      }
      case 1: x.add(op::permuteAll(a)); break;
      case 2: x.add(a + r.pick(sh.f).sum()); break;
      case 3: x.add(a * a - 0.5f); break;
      case 4: x.add(a.sum(dn, r.chance(0.5))); break;
      case 5: {
        auto p = r.chance(0.5) ? a.max(dn, false) : a.min(dn, true);
        x.add(p.first), x.add(p.second);
        break;
      }
      case 6: {
        auto p = op::sort(a, dn, r.chance(0.5));
        x.add(p.first);
        break;
      }
      case 7: {
        auto p = op::topk(a, r.range(1, a.size(d)), dn, r.chance(0.5), true);
        x.add(p.first);
        break;
      }
      case 8: x.add(op::cumsum(a, dn)); break;
      case 9: {
        Shape sp(1, -1);
        Tensor q = a.reshape(IntArrayView(sp));
        x.add(op::matmul(q.reshape(IntArrayView(Shape{1, a.numel()})), q.reshape(IntArrayView(Shape{a.numel(), 1})), false, false));
        break;
      }
      case 10: {
        std::vector<Tensor> l{a, a};
        x.add(op::concat(tt::ArrayView<Tensor>(l), dn));
        break;
      }
      case 11: x.add(op::narrow(a, d, 0, r.range(1, a.size(d)))); break;
      case 12: x.add(op::softmax(a, dn)); break;
      case 13: x.add(a.varMean(dn, false).first); break;
      case 14: {
        auto& p = r.pick(sh.any);
        x.add(p.first.to(r.pick(allTypes())));
        break;
      }
      case 15: {  // own copy of a shared tensor: the first write detaches it
        Tensor c = a.clone();
        c.fill_(tt::Scalar((float)r.range(-5, 5)));
        x.add(c);
        own.push_back(c);
        break;
      }
      case 16: {
        if (own.empty()) break;
        Tensor& t = own[r.range(0, (int64_t)own.size() - 1)];
        t += 1.5f;
        t *= 0.5f;
        x.add(t);
        break;
      }
      case 17: {
        if (own.empty()) break;
        own.erase(own.begin() + r.range(0, (int64_t)own.size() - 1));
        break;
      }
      case 18: {
        Tensor q = a.clone();
        RT ix(Shape{r.range(1, 5)});
        for (auto& v : ix.d) v = (double)r.range(0, a.size(0) - 1);
        Tensor it = mkPlain(ix, DType::Int64);
        x.add(op::indexSelect(q, (int64_t)0, it));
        break;
      }
      case 19: if (nd >= 2) x.add(op::tril(a, r.range(-1, 1))); break;
      case 20: {
        auto l = a.toList<float>();
        double s2 = 0;
        for (float v : l) s2 += v;
        x.add(s2);
        break;
      }
      default: {
        Tensor b = (a > 0.f);
        x.add(b);
        x.add(op::fillMasked(a, b, tt::Scalar(2.f)));
      }
    }
  }
}
// one operation after another on a shared tensor: scratch space of a kernel must not be shared
inline void runKernels(const Shared& sh, Ctx& x, int steps) {
  auto& r = x.r;
  for (int s = 0; s < steps; s++) {
    DType dt = r.pick(floatTypes());
    bool full = r.chance(0.5);
    int64_t B = r.range(1, 3), R = r.range(2, 6), C = r.range(2, 6);
    Tensor a = full ? sh.cube.to(dt) : mkPlain(genRT(r, {B, R, C}, dt, -2, 2), dt);
    B = a.size(0), R = a.size(1), C = a.size(2);
    int64_t d = r.range(0, 2), dn = r.chance(0.5) ? d : d - 3;
    auto one = [&](double v) { return Tensor::scalar(tt::Scalar((float)v), optOf(dt)); };
    auto idx = [&](const Shape& sp, int64_t top) {
      RT i(sp);
      for (auto& v : i.d) v = (double)r.range(0, top - 1);
      return mkPlain(i, DType::Int64);
    };
    Shape row{0, 2, 1};
    switch (r.range(0, 33)) {
      case 0: x.add(op::exp(a)), x.add(op::tanh(a)), x.add(op::sigmoid(a)); break;
      case 1: x.add(op::gelu(a)), x.add(op::silu(a)), x.add(op::relu(a)); break;
      case 2: x.add(op::clamp(a, one(-1), one(1))); break;
      case 3: x.add(op::addcmul(a, a, a, tt::Scalar(0.5f))); break;
      case 4: x.add(op::maximum(a, one(0))), x.add(op::minimum(a, one(0.5))); break;
      case 5: x.add(op::pow(op::abs(a), one(1.5))); break;
      case 6: x.add(op::logicOr(op::gt(a, one(0)), op::lt(a, one(-1)))); break;
      case 7: x.add(op::matmul(a, op::permute(a, IntArrayView(row)), false, false)); break;
      case 8: x.add(op::matmul(a, a, false, true)); break;
      case 9: x.add(op::sumOnDim(a, dn, true)), x.add(op::meanOnDim(a, dn, false)); break;
      case 10: {
        Shape ds{0, -1};
        x.add(op::sumOnDims(a, IntArrayView(ds), r.chance(0.5))), x.add(op::varMeanOnDims(a, IntArrayView(ds), true, r.chance(0.5)).first);
        break;
      }
      case 11: x.add(op::varMeanOnDim(a, dn, true, false).first); break;
      case 12: x.add(op::argmax(a)), x.add(op::argmin(a)), x.add(op::max(a)), x.add(op::min(a)); break;
      case 13: x.add(op::maxOnDim(a, dn, true).second), x.add(op::minOnDim(a, dn, false).first); break;
      case 14: x.add(op::transpose(a, (int64_t)0, (int64_t)-1)); break;
      case 15: {
        Shape q{r.range(0, B - 1), r.range(0, R - 1)};
        x.add(op::index(a, IntArrayView(q)));
        Tensor w = a.clone();
        op::indexPut(w, IntArrayView(q), one(3));
        x.add(w);
        break;
      }
      case 16: {
        std::vector<Tensor> ix{idx({3}, B), idx({3}, R)};
        x.add(op::indexAdvance(a, tt::ArrayView<Tensor>(ix)));
        break;
      }
      case 17: x.add(op::triu(a, (int64_t)r.range(-1, 1))); break;
      case 18:
        for (auto& t : op::split(a, (int64_t)1, d)) x.add(t);
        break;
      case 19:
        for (auto& t : op::chunk(a, (int64_t)a.size(d), d)) x.add(t);
        break;
      case 20: {
        std::vector<Tensor> l{a, a, a};
        x.add(op::stack(tt::ArrayView<Tensor>(l), dn));
        x.add(op::hstack(tt::ArrayView<Tensor>(l))), x.add(op::vstack(tt::ArrayView<Tensor>(l)));
        break;
      }
      case 21: x.add(op::gather(a, dn, idx(toShape(a.shape()), a.size(d)))); break;
      case 22: {
        Shape one1 = toShape(a.shape());
        one1[d] = 1;
        x.add(op::scatter(a, dn, idx(one1, a.size(d)), mkPlain(RT(one1, 9), dt)));
        break;
      }
      case 23: {
        Tensor t = op::narrow(a, d, (int64_t)0, (int64_t)1);
        Shape e = toShape(a.shape());
        e[d] = 4;
        x.add(op::expand(t, IntArrayView(e)));
        break;
      }
      case 24: x.add(op::repeatInterleave(a, (int64_t)r.range(1, 3), dn)); break;
      case 25: x.add(op::cumsum(a, dn)); break;
      case 26: x.add(op::sort(a, dn, r.chance(0.5)).first); break;
      case 27: x.add(op::topk(a, (int64_t)r.range(1, a.size(d)), dn, r.chance(0.5), true).first); break;
      case 28: x.add(op::softmax(a, dn)), x.add(op::logSoftmax(a, dn)); break;
      case 29: {
        Shape n{C};
        Tensor w = mkPlain(RT(n, 1.5), dt), b = mkPlain(RT(n, 0.25), dt);
        x.add(fn::layerNorm(a, IntArrayView(n), w, b, 1e-5f));
        x.add(fn::rmsNorm(a, IntArrayView(n), w, 1e-5f));
        break;
      }
      case 30: x.add(fn::embedding(idx({2, 2}, B * R), a.reshape(IntArrayView(Shape{B * R, C})))); break;
      case 31: {
        if (dt != DType::Float32) break;
        Tensor q = a.reshape(IntArrayView(Shape{1, B, R, C}));
        x.add(fn::sdpAttention(q, q, q, r.chance(0.5), Tensor(), 0.f));
        break;
      }
      case 32: {
        if (dt != DType::Float32) break;
        Tensor im = a.reshape(IntArrayView(Shape{1, B, R, C}));
        Tensor col = op::im2col(im, tt::Dim2D(2, 2), tt::Dim2D(1, 1), tt::Dim2D(0, 0));
        x.add(col);
        x.add(op::col2im(col, im.shape(), tt::Dim2D(2, 2), tt::Dim2D(1, 1), tt::Dim2D(0, 0)));
        x.add(fn::maxPool2d(im, tt::Dim2D(2, 2), tt::Dim2D(1, 1), tt::Dim2D(0, 0)));
        break;
      }
      default: x.add(op::permuteAll(a)), x.add(op::dot(a.flatten(), a.flatten()));
    }
  }
}
// inference on a shared model, and batches of a shared dataset
inline void runInfer(const Shared& sh, Ctx& x, int steps) {
  for (int s = 0; s < steps; s++) {
    RT in(Shape{x.r.range(1, 5), sh.modelIn});
    for (auto& v : in.d) v = roundTo(DType::Float32, x.r.uniform(-1, 1));
    Tensor t = mkPlain(in, DType::Float32);
    if (x.r.chance(0.5)) {
      tt::NoGradGuard g;
      x.add((*sh.model)(t));
    } else
      x.add((*sh.model)(t));
    x.add((double)tt::NoGradGuard::isGradEnabled());
    if (s % 3 == 0) {
      td::DataLoader dl(sh.data, (size_t)x.r.range(1, 5), nullptr, false, x.r.chance(0.5));
      for (auto [i, b] : dl) {
        (void)i;
        x.add(b[0]), x.add(b[1]);
        tt::NoGradGuard g;
        x.add((*sh.model)(b[0]));
      }
    }
  }
}
// allocations of every size class; tensors move to other threads
struct Mail {
  std::mutex m;
  std::deque<std::pair<Tensor, float>> q;
};
inline void runAlloc(Ctx& x, int steps, Mail& mail, std::atomic<int64_t>& bad) {
  auto& r = x.r;
  std::vector<std::pair<Tensor, float>> held;
  auto check = [&](std::pair<Tensor, float>& p) {
    const float* d = p.first.dataPtr<float>();
    int64_t n = p.first.numel();
    for (int64_t i = 0; i < n; i += n > 4096 ? 61 : 1)
      if (d[i] != p.second) {
        bad++;
        return;
      }
  };
  for (int s = 0; s < steps; s++) {
    int k = (int)r.range(0, 9);
    if (k < 5) {
      int64_t n = r.chance(0.05) ? r.range(262144, 700000) : r.chance(0.2) ? r.range(1000, 60000) : r.range(1, 400);
      float v = (float)r.range(1, 1000);
      held.push_back({Tensor::full(IntArrayView(Shape{n}), v), v});
    } else if (k < 7 && !held.empty()) {
      size_t i = r.range(0, (int64_t)held.size() - 1);
      check(held[i]);
      held.erase(held.begin() + i);
    } else if (k == 7 && !held.empty()) {
      auto p = held.back();
      held.pop_back();
      std::lock_guard<std::mutex> l(mail.m);
      mail.q.push_back(std::move(p));
    } else if (k == 8) {
      std::lock_guard<std::mutex> l(mail.m);
      if (!mail.q.empty()) {
        held.push_back(std::move(mail.q.front()));
        mail.q.pop_front();
      }
    } else if (!held.empty()) {
      auto& p = held[r.range(0, (int64_t)held.size() - 1)];
      check(p);
      p.second += 1;
      p.first += 1.f;
    }
    x.step();
  }
  for (auto& p : held) check(p);
}
struct Job {
  int kind = 0;
  uint64_t seed = 1;
  int steps = 10;
  ProgJob prog;
  TrainJob train;
};
inline void runJob(const Job& j, const Shared& sh, Ctx& x, Mail& mail, std::atomic<int64_t>& bad) {
  switch (j.kind) {
    case 0: runProg(j.prog, x); break;
    case 1: runTrain(j.train, sh, x); break;
    case 2: runOps(sh, x, j.steps); break;
    case 3: runInfer(sh, x, j.steps / 3 + 1); break;
    case 5: runKernels(sh, x, j.steps * 2); break;
    default: runAlloc(x, j.steps * 4, mail, bad);
  }
}
inline ProgJob genProg(Rng& r) {
  Rng g(r.next());
  gp::Prog p(g);
  p.newLeaf(genShape(g, 3, 24, false));
  if (g.chance(0.6)) p.newLeaf(genShape(g, 3, 24, false));
  int want = (int)g.range(3, 12);
  for (int i = 0; i < 60 && (int)p.ins.size() < want; i++) p.step();
  ProgJob j;
  for (auto& I : p.ins) {
    if (I.op == gp::oDropout) break;  // draws from the one random generator
    j.ins.push_back(I);
    j.root = I.out;
  }
  for (size_t i = 0; i < p.v.size(); i++)
    if (p.v[i].leaf) j.leaves.push_back({p.v[i].val, p.v[i].req}), j.leafAt.push_back((int)i);
  j.vars = (int)p.v.size();
  j.W = RT(p.v[j.root].val.shape);
  for (auto& v : j.W.d) v = roundTo(DType::Float32, g.uniform(-1, 1));
  j.rounds = (int)g.range(1, 3);
  return j;
}
inline void genShared(Rng& r, Shared& sh) {
  for (int i = 0; i < 5; i++) {
    Shape s = genShape(r, 4, 120, false);
    RT x(s);
    for (auto& v : x.d) v = roundTo(DType::Float32, r.uniform(-3, 3));
    sh.f.push_back(mkView(r, x, DType::Float32));
  }
  for (DType d : allTypes()) sh.any.push_back({mkPlain(genRT(r, genShape(r, 3, 80), d), d), d});
  sh.cube = mkView(r, genRT(r, {r.range(1, 3), r.range(2, 6), r.range(2, 6)}, DType::Float32, -2, 2), DType::Float32);
  sh.modelIn = (int)r.range(1, 6);
  sh.model = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
  int hid = (int)r.range(1, 7);
  tt::manualSeed((unsigned)r.range(1, 1 << 20));
  sh.model->pushBack(std::make_shared<nn::Linear>(sh.modelIn, hid));
  sh.model->pushBack(std::make_shared<nn::Relu>());
  sh.model->pushBack(std::make_shared<nn::Dropout>(0.4f));
  sh.model->pushBack(std::make_shared<nn::LayerNorm>(IntArrayView(Shape{hid})));
  sh.model->pushBack(std::make_shared<nn::Linear>(hid, 3));
  sh.model->pushBack(std::make_shared<nn::Softmax>(1));
  sh.model->initParameters();
  sh.model->eval();
  auto ds = std::make_shared<Ds>();
  int n = (int)r.range(2, 9);
  for (int i = 0; i < n; i++) {
    RT x(Shape{sh.modelIn});
    for (auto& v : x.d) v = roundTo(DType::Float32, r.uniform(-1, 1));
    ds->x.push_back(mkPlain(x, DType::Float32));
    ds->y.push_back(mkPlain(RT(Shape{}, (double)r.range(0, 2)), DType::Int64));
  }
  sh.data = ds;
}
struct CacheOn {  // the library's default; everything made here is released before it is switched off again
  bool on;
  explicit CacheOn(bool on) : on(on) { if (on) tt::CachedAllocator::setCacheEnabled(true); }
  ~CacheOn() { if (on) tt::CachedAllocator::setCacheEnabled(false); }
};
inline void together(vh::Case& c, int kindOnly) {
  auto& r = c.rng;
  CacheOn cache(r.chance(0.7));
  hf::Scratch dir;
  Shared sh;
  genShared(r, sh);
  int threads = (int)r.range(2, 8);
  std::vector<std::vector<Job>> plan(threads);
  std::string kinds;
  for (auto& t : plan) {
    int n = (int)r.range(1, 4);
    for (int k = 0; k < n; k++) {
      Job j;
      j.kind = kindOnly >= 0 ? kindOnly : (int)r.range(0, 5);
      j.seed = r.next();
      j.steps = (int)r.range(5, 30);
      if (j.kind == 0) j.prog = genProg(r);
      if (j.kind == 1) {
        auto& q = j.train;
        q.conv = r.chance(0.4), q.nll = r.chance(0.5), q.in = (int)r.range(1, 6), q.hid = (int)r.range(1, 8), q.out = (int)r.range(2, 4), q.batch = (int)r.range(1, 5), q.steps = (int)r.range(2, 6);
        q.h = s_opt::genHyper(r);
        auto m = build(q);
        std::vector<RT> v;
        for (auto* p : m->parameters()) {
          RT x(toShape(p->shape()));
          for (auto& e : x.d) e = roundTo(DType::Float32, r.uniform(-0.6, 0.6));
          v.push_back(x);
        }
        q.init = (int)sh.init.size();
        sh.init.push_back(v);
      }
      kinds += (char)('0' + j.kind);
      t.push_back(std::move(j));
    }
    kinds += '|';
  }
  int pause = r.pick({0, 0, 5, 30});
  c.desc = fmt("%d threads, jobs %s cache %d, pauses %d", threads, kinds.c_str(), cache.on, pause);
  std::atomic<int64_t> bad{0};
  // alone, one after another
  std::vector<std::vector<std::vector<uint64_t>>> alone(threads);
  {
    Mail mail;
    for (int t = 0; t < threads; t++)
      for (auto& j : plan[t]) {
        Ctx x(j.seed);
        x.dir = dir.dir, x.thread = t;
        runJob(j, sh, x, mail, bad);
        alone[t].push_back(x.log);
      }
  }
  c.check(bad == 0, "thr.alone", "a value changed while running alone");
  std::vector<uint64_t> before, after;
  auto digest = [&](std::vector<uint64_t>& out) {
    Ctx x(1);
    for (auto& t : sh.f) x.add(t);
    for (auto& p : sh.any) x.add(p.first);
    x.add(sh.cube);
    for (auto* p : sh.model->parameters()) x.add(*p);
    out = x.log;
  };
  digest(before);
  // together
  Clock clock;
  std::atomic<int> ready{0};
  std::vector<std::vector<std::vector<uint64_t>>> got(threads);
  std::vector<std::string> errors(threads);
  {
    Mail mail;
    std::vector<std::thread> th;
    for (int t = 0; t < threads; t++)
      th.emplace_back([&, t] {
        ready.fetch_add(1);
        while (ready.load(std::memory_order_relaxed) < threads) sched_yield();
        try {
          for (auto& j : plan[t]) {
            Ctx x(j.seed);
            x.clock = &clock, x.thread = t, x.pause = pause, x.dir = dir.dir;
            runJob(j, sh, x, mail, bad);
            got[t].push_back(x.log);
          }
        } catch (vh::Fail& f) { errors[t] = f.sig + " " + f.msg; }
      });
    for (auto& t : th) t.join();
  }
  for (int t = 0; t < threads; t++) {
    c.check(errors[t].empty(), "thr.failed", errors[t]);
    for (size_t k = 0; k < plan[t].size(); k++) {
      auto &a = alone[t][k], &b = got[t][k];
      c.check(a.size() == b.size(), "thr.steps", fmt("thread %d job %zu (kind %d): %zu results instead of %zu", t, k, plan[t][k].kind, b.size(), a.size()));
      for (size_t i = 0; i < a.size(); i++)
        if (a[i] != b[i]) c.fail("thr.result", fmt("thread %d job %zu (kind %d): result %zu differs from the one computed alone", t, k, plan[t][k].kind, i));
      c.obs("thr.results", (int64_t)a.size());
    }
    c.obs("thr.jobs", (int64_t)plan[t].size());
  }
  c.check(bad == 0, "thr.memory", fmt("%lld tensors of allocation jobs hold another value", (long long)bad.load()));
  digest(after);
  c.check(before == after, "thr.shared", "a shared tensor changed");
  // the interleaving that happened
  uint32_t n = std::min<uint32_t>(clock.next.load(), 4096);
  uint64_t h = hashStr(kinds.c_str());
  int switches = 0;
  for (uint32_t i = 0; i < n; i++) {
    uint8_t w = clock.who[i].load(std::memory_order_relaxed);
    h = mix(h ^ w);
    if (i && w != clock.who[i - 1].load(std::memory_order_relaxed)) switches++;
  }
  c.obs("thr.steps", n);
  c.obs("thr.switches", switches);
  if (switches >= threads) c.seen(h);
}
SUITE_T(thr_mixed, 10, 120) { together(c, -1); }
SUITE_T(thr_same, 10, 120) { together(c, c.rng.chance(0.4) ? 5 : (int)c.rng.range(0, 4)); }
// handles of one value given to several threads; each writes its own
SUITE_T(thr_shared_value, 10, 120) {
  auto& r = c.rng;
  CacheOn cache(r.chance(0.5));
  int threads = (int)r.range(2, 6), rounds = (int)r.range(2, 12);
  c.desc = fmt("%d threads, %d rounds", threads, rounds);
  std::atomic<int64_t> bad{0};
  for (int k = 0; k < rounds; k++) {
    RT x(genShape(r, 3, 200, false));
    for (auto& v : x.d) v = (double)r.range(-50, 50);
    Tensor parent = mkView(r, x, DType::Float32);
    std::vector<Tensor> mine;
    bool keep = r.chance(0.5);
    for (int t = 0; t < threads; t++) mine.push_back(r.chance(0.5) ? parent.clone() : op::reshape(parent, IntArrayView(x.shape)));
    if (!keep) parent = Tensor();
    std::vector<int> how(threads);
    for (auto& h : how) h = (int)r.range(0, 5);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < threads; t++)
      th.emplace_back([&, t, own = std::move(mine[t])]() mutable {
        ready.fetch_add(1);
        while (ready.load(std::memory_order_relaxed) < threads) {}
        RT want = x;
        if (how[t] != 5) {
          RT first = get(own);
          if (first.d != x.d) bad++;
        }
        switch (how[t]) {
          case 0: own.fill_(tt::Scalar((float)t)), want = RT(x.shape, t); break;
          case 1: own += 1.f; for (auto& v : want.d) v += 1; break;
          case 2: own = Tensor(), want = RT(); break;
          case 3: own.copy_(mkPlain(RT(x.shape, 7 + t), DType::Float32)), want = RT(x.shape, 7 + t); break;
          case 5: op::mulInplace(own, Tensor::scalar(2.f)); for (auto& v : want.d) v *= 2; break;
          default: break;
        }
        if (own.defined() && get(own).d != want.d) bad++;
      });
    for (auto& t : th) t.join();
    if (keep) c.check(get(parent).d == x.d, "thr.parent", "the value kept by the main thread changed");
    c.obs("thr.handedOut", threads);
  }
  c.check(bad == 0, "thr.value", fmt("%lld threads saw another value than their own", (long long)bad.load()));
  c.seen(c.desc + fmt("%llu", (unsigned long long)r.next()));
}
}  // namespace s_threads
