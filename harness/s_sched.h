// C16: the step scheduler's closed form at every epoch, and the updates it causes
#pragma once
#include "h_opt.h"

#include "Scheduler.h"
namespace s_sched {
using namespace s_opt;
namespace sched = tt::optim::lr_scheduler;

static double want(double lr0, double gamma, int64_t epoch, int64_t size) { return lr0 * pow(gamma, (double)(epoch / size)); }
static void expectLr(vh::Case& c, const char* what, double got, double ref, int64_t decays) {
  double tol = (decays + 3) * 1.2e-7 * ref + 3e-45 * (decays + 1);
  if (!(fabs(got - ref) <= tol)) c.fail("sched.lr", fmt("%s is %.9g, expected %.9g after %lld decays", what, got, ref, (long long)decays));
}

SUITE(sched_epochs, 20) {
  auto& r = c.rng;
  Hyper h = genHyper(r);
  h.lr = (float)r.pick({0.05, 0.1, 1.0, 0.003, 0.75});
  h.wd = 0;
  int64_t size = r.chance(0.3) ? 1 : r.range(1, 30);
  double gamma = r.pick({0.1, 0.5, 0.9, 0.95, 1.0, 0.25, 1.1, 0.7, 2.0});
  int64_t epochs = r.range(1, std::min<int64_t>(c.thorough ? 2000 : 300, 30 * size + 5));
  bool dflt = r.chance(0.1);
  if (dflt) gamma = 0.1;
  bool exactG = gamma == 0.5 || gamma == 1.0 || gamma == 0.25 || gamma == 2.0;
  RT v = genRT(r, {3}, DType::Float32, -2, 2);
  Tensor p = mkPlain(v, DType::Float32, true), other = mkPlain(v, DType::Float32, true);
  auto opt = make(h, {&p});
  Hyper h2 = h;
  auto bystander = make(h2, {&other});
  // start fresh or resume after `start` epochs with the rate in force then
  int64_t start = r.chance(0.3) ? r.range(0, 3 * size) : -1;
  float lrStart = h.lr;
  if (start >= 0) {
    lrStart = (float)want(h.lr, gamma, start, size);
    opt->setLr(lrStart);
  }
  int explicitEpochs = r.chance(0.25);
  c.desc = h.str() + fmt(" step size %lld gamma %g epochs %lld start %lld explicit %d", (long long)size, gamma, (long long)epochs, (long long)start, explicitEpochs);
  std::unique_ptr<sched::StepLR> s;
  if (dflt && start < 0) s = std::make_unique<sched::StepLR>(*opt, size);
  else if (start < 0) s = std::make_unique<sched::StepLR>(*opt, size, (float)gamma);
  else s = std::make_unique<sched::StepLR>(*opt, size, (float)gamma, start);
  double g = (double)(float)gamma;
  int64_t e = start + 1;
  for (int64_t k = 0; k <= epochs; k++) {
    int64_t decays = e / size;
    double ref = want(h.lr, g, e, size);
    if (ref > 1e30 || ref < 1e-36) break;
    c.check(s->getLastEpoch() == e, "sched.epoch", fmt("epoch is %lld, expected %lld", (long long)s->getLastEpoch(), (long long)e));
    expectLr(c, "the optimizer's rate", opt->getLr(), ref, decays);
    expectLr(c, "getLastLr", s->getLastLr(), ref, decays);
    c.check(opt->getLr() == s->getLastLr(), "sched.agree", "getLastLr differs from the optimizer's rate");
    if (exactG && start < 0 && opt->getLr() != (float)ref) c.fail("sched.exact", fmt("epoch %lld: rate %.9g, expected exactly %.9g", (long long)e, opt->getLr(), ref));
    c.check(bystander->getLr() == h.lr, "sched.bystander", "another optimizer's rate changed");
    c.obs("epochs");
    if (decays) c.obs("epochs_after_decay");
    // several optimizer steps per epoch do not move the schedule
    if (r.chance(0.3)) {
      float before = opt->getLr();
      int n = (int)r.range(1, 3);
      for (int i = 0; i < n; i++) {
        p.setGrad(mkPlain(genRT(r, {3}, DType::Float32, -1, 1), DType::Float32));
        opt->step();
      }
      c.check(opt->getLr() == before, "sched.stepMoves", "an optimizer step changed the rate");
    }
    e++;
    if (explicitEpochs) s->step(e);
    else s->step();
  }
  c.seen(c.desc);
}

// the update made in each epoch uses the rate of that epoch
SUITE(sched_updates, 10) {
  auto& r = c.rng;
  Hyper h = genHyper(r);
  h.lr = (float)r.pick({0.05, 0.1, 0.003});
  h.wd = 0;
  int64_t size = r.range(1, 5);
  float gamma = r.pick({0.1f, 0.5f, 0.9f, 1.5f});
  int epochs = (int)r.range(2, 15);
  RT v = genRT(r, {4}, DType::Float32, -2, 2);
  Tensor p = mkPlain(v, DType::Float32, true), q = mkPlain(v, DType::Float32, true);
  auto a = make(h, {&p}), b = make(h, {&q});
  c.desc = h.str() + fmt(" step size %lld gamma %g epochs %d", (long long)size, gamma, epochs);
  sched::StepLR s(*a, size, gamma);
  float lr = h.lr;
  for (int e = 0; e < epochs; e++) {
    if (e > 0 && e % size == 0) lr *= gamma;
    b->setLr(lr);
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++) {
      RT g = genRT(r, {4}, DType::Float32, -1, 1);
      p.setGrad(mkPlain(g, DType::Float32));
      q.setGrad(mkPlain(g, DType::Float32));
      a->step();
      b->step();
      RT x = get(p), y = get(q);
      for (int k = 0; k < 4; k++) {
        double tol = 1e-4 * (fabs(x.d[k] - v.d[k]) + fabs(y.d[k] - v.d[k])) + 1e-6 * fabs(x.d[k]);
        if (!(fabs(x.d[k] - y.d[k]) <= tol)) c.fail("sched.update", fmt("epoch %d: parameter %.9g, expected %.9g", e, x.d[k], y.d[k]));
      }
      c.obs("updates");
    }
    s.step();
  }
  c.seen(c.desc);
}
}  // namespace s_sched
