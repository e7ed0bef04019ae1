// C15: optimizers follow their recurrences over whole histories
#pragma once
#include "h_opt.h"
namespace s_opt {
static std::vector<double> rawOf(const Tensor& t) { return get(t).d; }

static void history(vh::Case& c, DType t, int maxSteps, int minSteps = 1) {
  auto& r = c.rng;
  Hyper h = genHyper(r);
  if (t != DType::Float32) {
    // keep the state representable
    if (h.eps < 1e-2f) h.eps = 1e-2f;
    h.centered = false;
  }
  int np = (int)r.range(1, minSteps > 1 ? 2 : 4);
  std::vector<std::unique_ptr<Tensor>> ps;
  std::vector<tt::TensorPtr> ptrs;
  std::vector<std::vector<double>> init;
  for (int i = 0; i < np; i++) {
    Shape s = minSteps > 1 ? genShape(r, 2, 3) : genWide(r, 3, 24, true, 0.01);
    RT v = genRT(r, s, t, -2, 2);
    ps.push_back(std::make_unique<Tensor>(mkPlain(v, t, true)));
    ptrs.push_back(ps.back().get());
    init.push_back(v.d);
  }
  auto opt = make(h, ptrs);
  c.check(opt->getLr() == h.lr, "opt.getLr", fmt("getLr is %g, expected %g", opt->getLr(), h.lr));
  constexpr int NR = 7;
  std::vector<Ref> refs(NR);
  for (int k = 0; k < NR; k++) {
    refs[k].h = h;
    refs[k].t = t;
    refs[k].noise = k == 0 ? 0 : epsOf(t);
    refs[k].rng = vh::Rng(c.seed + k);
    refs[k].init(init);
  }
  // the frozen parameter (if any) no longer requires a gradient: the optimizer must leave it alone
  int frozen = r.chance(0.1) ? (int)r.range(0, np - 1) : -1;
  if (frozen >= 0) ps[frozen]->setRequiresGrad(false);
  std::vector<std::vector<double>> grad(np);
  std::vector<bool> has(np, false);
  int steps = (int)r.range(minSteps, maxSteps);
  double pMissing = r.chance(0.5) ? 0 : 0.4;
  int gradMode = (int)r.range(0, 3);
  c.desc = h.str() + fmt(" dtype %s params %d steps %d", dtn(t), np, steps);
  std::vector<std::vector<bool>> dead(np);
  for (int i = 0; i < np; i++) dead[i].assign(init[i].size(), false);
  std::string trace;
  int64_t zeroGrads = 0, missing = 0, lrChanges = 0;
  for (int st = 0; st < steps; st++) {
    // --- produce gradients
    int zg = (int)r.range(0, 3);
    if (zg == 0) {
      opt->zeroGrad();
      for (int i = 0; i < np; i++)
        if (i != frozen) grad[i].assign(init[i].size(), 0), has[i] = true;
      zeroGrads++;
    } else if (zg == 1) {
      for (int i = 0; i < np; i++)
        if (i != frozen) ps[i]->setGrad(Tensor()), has[i] = false;
    }
    int nb = (int)r.range(0, 2);
    for (int b = 0; b < nb; b++)
      for (int i = 0; i < np; i++) {
        if (i == frozen || r.chance(pMissing)) {
          missing++;
          continue;
        }
        RT g(toShape(ps[i]->shape()));
        for (auto& x : g.d) {
          switch (gradMode) {
            case 0: x = r.uniform(-2, 2); break;
            case 1: x = r.chance(0.4) ? 0 : r.uniform(-1, 1); break;
            case 2: x = (double)r.range(-3, 3); break;
            default: x = r.uniform(-1, 1) * r.pick({0.01, 1., 20.}); break;
          }
          if (fabs(x) < 1e-3) x = 0;
          x = roundTo(t, x);
        }
        int how = (int)r.range(0, 2);
        Tensor G = mkPlain(g, t);
        if (how == 0) ps[i]->backward(G);
        else if (how == 1) {
          if (t == DType::Float32) fn::sum(fn::mul(*ps[i], G)).backward();
          else ps[i]->backward(G);
        } else ps[i]->addGrad(G);
        std::vector<double> now(g.d.size());
        for (size_t k = 0; k < now.size(); k++) now[k] = has[i] ? roundTo(t, grad[i][k] + g.d[k]) : g.d[k];
        grad[i] = now;
        has[i] = true;
      }
    std::vector<const std::vector<double>*> gp(np, nullptr);
    for (int i = 0; i < np; i++) {
      if (i == frozen) continue;
      bool def = ps[i]->grad().defined();
      c.check(def == has[i], "opt.gradPresence", "harness lost track of a gradient");
      if (has[i]) {
        gp[i] = &grad[i];
        RT g = get(ps[i]->grad());
        for (size_t k = 0; k < g.d.size(); k++)
          if (g.d[k] != grad[i][k]) c.fail("opt.gradBefore", fmt("gradient %d[%zu] is %.9g, expected %.9g", i, k, g.d[k], grad[i][k]));
      }
    }
    if (r.chance(0.15)) {
      float nl = r.pick({0.02f, 0.2f, 0.005f});
      opt->setLr(nl);
      c.check(opt->getLr() == nl, "opt.setLr", "getLr does not return the rate just set");
      for (auto& x : refs) x.h.lr = nl;
      lrChanges++;
    }
    std::vector<std::vector<double>> before;
    for (auto& p : ps) before.push_back(rawOf(*p));
    opt->step();
    for (auto& x : refs) x.doStep(gp);
    for (int i = 0; i < np; i++) {
      Tensor& p = *ps[i];
      c.check(p.dtype() == t && toShape(p.shape()) == toShape(IntArrayView(p.shape())), "opt.dtype", "parameter changed its data type");
      std::vector<double> now = rawOf(p);
      c.check(now.size() == init[i].size(), "opt.shape", "parameter changed its size");
      if (i == frozen || !has[i]) {
        if (now != before[i] && !(std::equal(now.begin(), now.end(), before[i].begin(), [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); })))
          c.fail("opt.untouched", fmt("step %d changed parameter %d that has no gradient", st, i));
      }
      if (i != frozen) {
        c.check(p.requiresGrad() && p.isLeaf(), "opt.leaf", "parameter stopped being a leaf that requires a gradient");
        // the step reads gradients, it does not change them
        if (has[i]) {
          RT g = get(p.grad());
          for (size_t k = 0; k < g.d.size(); k++)
            if (g.d[k] != grad[i][k]) c.fail("opt.gradAfter", fmt("step %d changed gradient %d[%zu] from %.9g to %.9g", st, i, k, grad[i][k], g.d[k]));
        } else c.check(!p.grad().defined(), "opt.gradAppeared", "step created a gradient");
      }
      for (size_t k = 0; k < now.size(); k++) {
        if (dead[i][k]) continue;
        double ref = refs[0].p[i][k], dev = 0;
        bool bad = !std::isfinite(ref) || fabs(ref) > (t == DType::Float16 ? 6e4 : 1e30);
        for (int n = 1; n < NR; n++) {
          double x = refs[n].p[i][k];
          if (!std::isfinite(x)) bad = true;
          dev = std::max(dev, fabs(x - ref));
        }
        if (bad) {  // ill-conditioned or overflowing: nothing is specified from here on
          dead[i][k] = true;
          c.obs("elements_abandoned");
          continue;
        }
        double tol = 8 * dev + 6 * epsOf(t) * fabs(ref) + 1e-30;
        if (!(fabs(now[k] - ref) <= tol))
          c.fail("opt.value", fmt("step %d parameter %d[%zu] is %.9g, expected %.9g (tolerance %g, gradient %.9g, before %.9g)", st, i, k, now[k], ref, tol,
                                  has[i] ? grad[i][k] : NAN, before[i][k]));
        c.obs("values");
      }
    }
    c.obs("steps");
  }
  c.obs("zero_grads", zeroGrads);
  c.obs("missing_gradients", missing);
  c.obs("lr_changes", lrChanges);
  c.obs("kind_" + h.str().substr(0, h.str().find(' ')));
  if (frozen >= 0) c.obs("frozen_parameters");
  c.seen(c.desc);
}
SUITE(opt_history, 10) { history(c, DType::Float32, c.thorough ? 200 : 40); }
// histories far beyond a few dozen steps
SUITE(opt_history_long, 1) {
  if (c.index >= (c.thorough ? 4000u : 160u)) return;
  history(c, DType::Float32, c.thorough ? 5000 : 1400, 200); }
SUITE(opt_history_half, 2) { history(c, c.rng.pick({DType::BFloat16, DType::Float16}), 6); }

// parameters do not influence one another, whatever the rest of the group does: bit for bit
SUITE(opt_independent, 4) {
  auto& r = c.rng;
  Hyper h = genHyper(r);
  int np = (int)r.range(2, 5), steps = (int)r.range(1, 12);
  std::vector<RT> init;
  std::vector<std::vector<RT>> g(np);
  std::vector<std::vector<bool>> has(np);
  for (int i = 0; i < np; i++) {
    init.push_back(genRT(r, genShape(r, 3, 20), DType::Float32, -2, 2));
    for (int s = 0; s < steps; s++) {
      g[i].push_back(genRT(r, init[i].shape, DType::Float32, -2, 2));
      has[i].push_back(r.chance(0.75));
    }
  }
  c.desc = h.str() + fmt(" params %d steps %d", np, steps);
  auto run = [&](const std::vector<int>& which) {
    std::vector<std::unique_ptr<Tensor>> ps;
    std::vector<tt::TensorPtr> ptrs;
    for (int i : which) {
      ps.push_back(std::make_unique<Tensor>(mkPlain(init[i], DType::Float32, true)));
      ptrs.push_back(ps.back().get());
    }
    auto opt = make(h, ptrs);
    for (int s = 0; s < steps; s++) {
      for (size_t k = 0; k < which.size(); k++) {
        int i = which[k];
        ps[k]->setGrad(has[i][s] ? mkPlain(g[i][s], DType::Float32) : Tensor());
      }
      opt->step();
    }
    std::vector<RT> out;
    for (auto& p : ps) out.push_back(get(*p));
    return out;
  };
  std::vector<int> all(np);
  for (int i = 0; i < np; i++) all[i] = i;
  auto whole = run(all);
  r.shuffle(all);
  auto perm = run(all);
  for (int k = 0; k < np; k++) expectSame(whole[all[k]], perm[k], "opt.order");
  for (int i = 0; i < np; i++) {
    auto one = run({i});
    expectSame(whole[i], one[0], "opt.alone");
    c.obs("parameters");
  }
  c.seen(c.desc);
}

// zeroing gradients after a step (in place) or dropping them leaves the optimizer's own state alone: bit for bit
SUITE(opt_zeroing, 4) {
  auto& r = c.rng;
  Hyper h = genHyper(r);
  int steps = (int)r.range(2, 12);
  RT init = genRT(r, genShape(r, 3, 20), DType::Float32, -2, 2);
  std::vector<RT> g;
  for (int s = 0; s < steps; s++) g.push_back(genRT(r, init.shape, DType::Float32, -2, 2));
  c.desc = h.str() + fmt(" steps %d", steps);
  auto run = [&](int mode) {
    Tensor p = mkPlain(init, DType::Float32, true);
    std::vector<tt::TensorPtr> ptrs{&p};
    auto opt = make(h, ptrs);
    for (int s = 0; s < steps; s++) {
      Tensor G = mkPlain(g[s], DType::Float32);
      if (mode == 0) p.setGrad(G);
      else if (mode == 1) {
        opt->zeroGrad();
        p.addGrad(G);
      } else if (mode == 2) {
        p.zeroGrad();
        fn::sum(fn::mul(p, G)).backward();
      } else {
        p.setGrad(Tensor());
        p.backward(G);
      }
      opt->step();
      if (mode == 1) opt->zeroGrad();
      if (mode == 2) {
        // scribble over the gradient tensor the step has consumed
        p.grad().fill_(tt::Scalar(777.f));
      }
    }
    return get(p);
  };
  RT a = run(0);
  for (int m = 1; m < 4; m++) {
    RT b = run(m);
    expectSame(a, b, fmt("opt.zeroing.mode%d", m));
  }
  c.obs("runs", 4);
  c.seen(c.desc);
}
}  // namespace s_opt
