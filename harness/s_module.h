// C17: module trees
#pragma once
#include "h_tree.h"

#include "Optimizer.h"
namespace s_module {
using namespace tree;

static void sameNamed(vh::Case& c, const Named& got, const Named& want, const char* what) {
  std::string g, w;
  for (auto& x : got) g += x.first + " ";
  for (auto& x : want) w += x.first + " ";
  if (got.size() != want.size()) c.fail(std::string(what) + ".count", fmt("%zu entries, expected %zu: ", got.size(), want.size()) + g + "| expected " + w);
  for (size_t i = 0; i < got.size(); i++) {
    if (got[i].first != want[i].first) c.fail(std::string(what) + ".name", "entry " + std::to_string(i) + ": " + g + "| expected " + w);
    if (got[i].second != want[i].second) c.fail(std::string(what) + ".tensor", "entry " + got[i].first + " is another tensor");
  }
}

SUITE(mod_listing, 10) {
  auto& r = c.rng;
  Opts o;
  auto n = gen(r, o);
  c.desc = str(n).substr(0, 400);
  std::string prefix = r.chance(0.3) ? "root." : "";
  Named wp, ws;
  expected(*n, prefix, false, wp);
  expected(*n, prefix, true, ws);
  auto gp = prefix.empty() ? n->m->namedParameters() : n->m->namedParameters(prefix);
  auto gs = prefix.empty() ? n->m->namedStates() : n->m->namedStates(prefix);
  sameNamed(c, gp, wp, "mod.parameters");
  sameNamed(c, gs, ws, "mod.states");
  auto pp = n->m->parameters();
  auto ss = n->m->states();
  c.check(pp.size() == wp.size() && ss.size() == ws.size(), "mod.pointers.count");
  for (size_t i = 0; i < pp.size(); i++) c.check(pp[i] == wp[i].second, "mod.pointers.parameter");
  for (size_t i = 0; i < ss.size(); i++) c.check(ss[i] == ws[i].second, "mod.pointers.state");
  // listing is repeatable, and each subtree lists its own part
  sameNamed(c, n->m->namedParameters(prefix), wp, "mod.again");
  visit(n, [&](Node& k) {
    Named a;
    expected(k, "", false, a);
    sameNamed(c, k.m->namedParameters(), a, "mod.subtree");
    if (k.kind == Node::kList || k.kind == Node::kSeq) {
      auto& l = dynamic_cast<nn::ModuleList&>(*k.m);
      c.check(l.size() == k.kids.size() && l.empty() == k.kids.empty(), "mod.list.size");
      size_t i = 0;
      for (auto& x : l) c.check(i < k.kids.size() && x.get() == k.kids[i++].second->m.get(), "mod.list.iteration");
      for (i = 0; i < l.size(); i++) {
        c.check(&l[i] == k.kids[i].second->m.get(), "mod.list.index");
        c.check(&((const nn::ModuleList&)l)[i] == k.kids[i].second->m.get(), "mod.list.constIndex");
      }
      const nn::ModuleList& cl = l;
      c.check((size_t)(cl.end() - cl.begin()) == l.size(), "mod.list.constIteration");
      c.obs("containers");
    }
  });
  c.obs("parameters", wp.size());
  c.obs("states", ws.size());
  c.obs("modules", countNodes(n));
  c.seen(c.desc);
}

SUITE(mod_modes, 10) {
  auto& r = c.rng;
  Opts o;
  auto n = gen(r, o);
  c.desc = str(n).substr(0, 400);
  auto all = [&](bool want, const char* sig) {
    visit(n, [&](Node& k) {
      if (auto p = k.probe()) c.check(p->isTraining() == want, sig, fmt("module %d is in %s mode", p->id, p->isTraining() ? "training" : "evaluation"));
      if (k.what == "Dropout") {
        RT x({512}, 1.0);
        Tensor in = mkPlain(x, DType::Float32);
        RT y = get((*k.m)(in));
        bool dropped = false;
        for (auto v : y.d) dropped |= v == 0;
        c.check(dropped == want, sig, want ? "a dropout layer in training mode dropped nothing" : "a dropout layer in evaluation mode dropped elements");
        c.obs("dropouts");
      }
    });
  };
  all(true, "mod.mode.initial");
  int k = (int)r.range(1, 5);
  bool mode = true;
  for (int i = 0; i < k; i++) {
    // switch the whole tree, or one subtree and then the whole tree
    if (r.chance(0.3)) {
      std::vector<Node*> nodes;
      visit(n, [&](Node& x) { nodes.push_back(&x); });
      nodes[r.range(0, (int64_t)nodes.size() - 1)]->m->train(r.chance(0.5));
    }
    mode = r.chance(0.5);
    if (mode) {
      if (r.chance(0.5)) n->m->train();
      else n->m->train(true);
    } else {
      if (r.chance(0.5)) n->m->eval();
      else n->m->train(false);
    }
    all(mode, "mod.mode.switched");
    c.obs("switches");
  }
  // a subtree switch reaches that subtree only
  if (!n->kids.empty()) {
    n->m->train(mode);
    auto& kid = n->kids[r.range(0, (int64_t)n->kids.size() - 1)].second;
    kid->m->train(!mode);
    std::set<nn::Module*> in;
    visit(kid, [&](Node& x) { in.insert(x.m.get()); });
    visit(n, [&](Node& x) {
      if (auto p = x.probe()) c.check(p->isTraining() == (in.count(x.m.get()) ? !mode : mode), "mod.mode.subtree");
    });
  }
  c.seen(c.desc + std::to_string(k));
}

SUITE(mod_zero_reset, 6) {
  auto& r = c.rng;
  Opts o;
  auto n = gen(r, o);
  c.desc = str(n).substr(0, 400);
  Named ps;
  expected(*n, "", false, ps);
  std::vector<int> state(ps.size());
  for (size_t i = 0; i < ps.size(); i++) {
    Tensor& p = *ps[i].second;
    state[i] = (int)r.range(0, 3);
    if (state[i] == 0) continue;                          // no gradient yet
    if (state[i] == 3) {
      p.setRequiresGrad(false);                           // frozen
      continue;
    }
    p.addGrad(mkPlain(genRT(r, toShape(p.shape()), p.dtype(), 1, 3), p.dtype()));
  }
  std::vector<RT> vals;
  for (auto& p : ps) vals.push_back(get(*p.second));
  if (r.chance(0.5)) n->m->zeroGrad();
  else {
    tt::optim::SGD opt(n->m->parameters(), 0.1f);
    opt.zeroGrad();
  }
  for (size_t i = 0; i < ps.size(); i++) {
    Tensor& p = *ps[i].second;
    expectSame(vals[i], get(p), "mod.zeroGrad.value");
    if (state[i] == 3) {
      c.check(!p.requiresGrad(), "mod.zeroGrad.frozen");
      continue;
    }
    if (p.grad().defined()) {
      expectSame(RT(toShape(p.shape()), 0.0), get(p.grad()), "mod.zeroGrad.grad");
    } else c.check(state[i] == 0, "mod.zeroGrad.dropped", "an existing gradient became undefined");
    c.obs("gradients_zeroed");
  }
  // resetParameters reaches every descendant once
  int probes = 0;
  visit(n, [&](Node& x) {
    if (auto p = x.probe()) p->resets = 0, probes++;
    if (x.what == "Linear" || x.what == "Conv2D" || x.what == "Embedding" || x.what == "LayerNorm" || x.what == "RMSNorm")
      for (auto& s : x.params)
        if (s.second->numel()) writeRaw(*s.second, std::vector<double>(s.second->numel(), 9999));
  });
  for (auto& p : ps) p.second->setRequiresGrad(true);
  n->m->initParameters();
  visit(n, [&](Node& x) {
    if (auto p = x.probe()) c.check(p->resets == 1, "mod.reset.count", fmt("module reset %d times", p->resets));
    if (x.what == "Linear" || x.what == "Conv2D" || x.what == "Embedding" || x.what == "LayerNorm" || x.what == "RMSNorm")
      for (auto& s : x.params) {
        RT v = get(*s.second);
        for (auto d : v.d) c.check(d != 9999 && std::isfinite(d), "mod.reset.value", x.what + "." + s.first + " was not initialised");
        c.obs("tensors_reset");
      }
  });
  c.obs("probes", probes);
  c.seen(c.desc);
}

SUITE(mod_to, 8) {
  auto& r = c.rng;
  Opts o;
  o.allDtypes = r.chance(0.5);
  auto n = gen(r, o);
  Named ws, wp;
  expected(*n, "", true, ws);
  expected(*n, "", false, wp);
  std::vector<RT> vals;
  std::vector<DType> dts;
  std::vector<bool> req;
  for (auto& s : ws) vals.push_back(get(*s.second)), dts.push_back(s.second->dtype()), req.push_back(s.second->requiresGrad());
  DType t = r.pick(floatTypes());
  int how = (int)r.range(0, 2);
  c.desc = fmt("to %s form %d ", dtn(t), how) + str(n).substr(0, 400);
  if (how == 0) n->m->to(t);
  else if (how == 1) n->m->to(t, tt::Device::cpu());
  else {
    n->m->to(tt::Device::cpu());
    for (size_t i = 0; i < ws.size(); i++) {
      c.check(ws[i].second->dtype() == dts[i], "mod.toDevice.dtype");
      expectSame(vals[i], get(*ws[i].second), "mod.toDevice");
    }
    n->m->to(t);
  }
  sameNamed(c, n->m->namedStates(), ws, "mod.to.states");
  sameNamed(c, n->m->namedParameters(), wp, "mod.to.parameters");
  for (size_t i = 0; i < ws.size(); i++) {
    Tensor& s = *ws[i].second;
    RT want = vals[i];
    for (auto& x : want.d) x = roundTo(t, x);
    expectT(want, s, t, exact(), "mod.to");
    c.check(s.requiresGrad() == req[i], "mod.to.requiresGrad", ws[i].first);
    c.check(s.device().isCpu(), "mod.to.device");
    if (req[i]) c.check(s.isLeaf(), "mod.to.leaf", ws[i].first);
    c.obs("states_moved");
  }
  c.seen(c.desc);
}

// calling a container composes its children in insertion order
SUITE(mod_forward, 10) {
  auto& r = c.rng;
  Opts o;
  o.forwardable = true;
  o.builtins = false;
  auto n = gen(r, o);
  c.desc = str(n).substr(0, 400);
  std::vector<int> order, want;
  std::vector<Probe*> seq;
  visit(n, [&](Node& x) {
    if (auto p = x.probe()) {
      p->order = &order;
      want.push_back(p->id);
      seq.push_back(p);
    }
  });
  RT x = genRT(r, genShape(r, 3, 16), DType::Float32, -2, 2);
  Tensor in = mkPlain(x, DType::Float32, r.chance(0.5));
  Tensor y;
  bool viaForward = r.chance(0.5);
  y = viaForward ? n->m->forward(in) : (*n->m)(in);
  if (order != want) c.fail("mod.forward.order", "children were applied in another order or number");
  std::vector<float> v;
  for (auto d : x.d) v.push_back((float)d);
  double mul = 1;
  for (auto p : seq) {
    for (auto& f : v) {
      f = f * p->mul;
      f = f + p->add;
    }
    mul *= p->mul;
  }
  RT ref(x.shape);
  for (size_t i = 0; i < v.size(); i++) ref.d[i] = v[i];
  expectT(ref, y, DType::Float32, Cmp{1e-6, 1e-6}, "mod.forward");
  for (auto p : seq) c.check(p->forwards == 1, "mod.forward.count");
  if (in.requiresGrad() && x.numel() > 0) {
    fn::sum(y).backward();
    expectT(RT(x.shape, mul), in.grad(), DType::Float32, Cmp{1e-6, 0}, "mod.forward.grad");
  }
  expectSame(x, get(in), "mod.forward.input");
  c.obs("children_applied", want.size());
  c.seen(c.desc);
}

// real layers: a sequential equals calling its layers by hand, and every parameter receives its gradient
SUITE(mod_network, 6) {
  auto& r = c.rng;
  int layers = (int)r.range(1, 6);
  int64_t feat = r.range(1, 5), batch = r.range(1, 4), cur = feat;
  std::vector<std::shared_ptr<nn::Module>> ms;
  auto flat = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
  auto outer = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
  auto group = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
  std::string d;
  size_t nparam = 0;
  for (int i = 0; i < layers; i++) {
    std::shared_ptr<nn::Module> m;
    int64_t nx = r.range(1, 5);
    switch (r.range(0, 5)) {
      case 0: m = std::make_shared<nn::Relu>(), d += "relu "; break;
      case 1: m = std::make_shared<nn::LogSoftmax>(1), d += "logsoftmax "; break;
      case 2: m = std::make_shared<nn::Dropout>(0.3f), d += "dropout "; break;
      default: {
        bool bias = r.chance(0.7);
        m = std::make_shared<nn::Linear>(cur, nx, bias), cur = nx, d += fmt("linear%lld%s ", (long long)nx, bias ? "b" : "");
        nparam += bias ? 2 : 1;
      }
    }
    m->initParameters();
    ms.push_back(m);
    flat->pushBack(m);
    group->pushBack(m);
    if (r.chance(0.4)) {
      outer->pushBack(group);
      group = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
    }
  }
  if (!group->empty()) outer->pushBack(group);
  c.desc = d;
  outer->eval();
  flat->eval();
  Tensor x = mkPlain(genRT(r, {batch, feat}, DType::Float32, -1, 1), DType::Float32);
  Tensor a = (*flat)(x), b = (*outer)(x), h = x;
  for (auto& m : ms) h = (*m)(h);
  expectSame(get(h), get(a), "mod.network.flat");
  expectSame(get(h), get(b), "mod.network.nested");
  auto ps = outer->parameters();
  c.check(ps.size() == nparam && flat->parameters().size() == nparam, "mod.network.parameters", fmt("%zu parameters, expected %zu", ps.size(), nparam));
  if (nparam) {
    outer->zeroGrad();
    fn::sum(fn::mul(b, b)).backward();
    for (auto p : ps) {
      c.check(p->grad().defined() && toShape(p->grad().shape()) == toShape(p->shape()), "mod.network.grad", "a parameter received no gradient");
    }
  }
  // in training mode the dropout layers act again
  outer->train();
  if (d.find("dropout") != std::string::npos) {
    tt::manualSeed(5);
    Tensor t1 = (*outer)(x);
    tt::manualSeed(5);
    Tensor h2 = x;
    for (auto& m : ms) h2 = (*m)(h2);
    expectSame(get(h2), get(t1), "mod.network.train");
  }
  c.obs("layers", layers);
  c.seen(c.desc);
}
}  // namespace s_module
