// random module trees with a record of what was registered where
#pragma once
#include <set>

#include "tt.h"

#include "Modules.h"
namespace tree {
namespace nn = tt::nn;
namespace fn = tt::function;
using tt::TensorPtr;

typedef std::vector<std::pair<std::string, TensorPtr>> Named;

// leaf with its own parameters and buffers; forward(x) = x * mul + add
struct Probe : nn::Module {
  std::vector<std::pair<std::string, std::unique_ptr<Tensor>>> params, buffers;
  bool overrideStates = false;
  float mul = 1, add = 0;
  int resets = 0, forwards = 0, id = 0;
  std::vector<int>* order = nullptr;
  std::vector<int>* resetOrder = nullptr;
  bool isTraining() const { return training_; }
  Tensor forward(const Tensor& x) override {
    forwards++;
    if (order) order->push_back(id);
    return x * mul + add;
  }
  void resetParameters() override {
    resets++;
    if (resetOrder) resetOrder->push_back(id);
    nn::Module::resetParameters();
  }
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override {
    std::vector<std::pair<std::string, TensorPtr>> r;
    for (auto& p : params) r.emplace_back(p.first, p.second.get());
    return r;
  }
  std::vector<std::pair<std::string, TensorPtr>> namedStates_() override {
    if (!overrideStates) return namedParameters_();
    auto r = namedParameters_();
    for (auto& p : buffers) r.emplace_back(p.first, p.second.get());
    return r;
  }
};
// composite: own parameters plus named children
struct Composite : Probe {
  std::vector<std::shared_ptr<nn::Module>> kids;
  Tensor forward(const Tensor& x) override {
    Tensor t = Probe::forward(x);
    for (auto& k : kids) t = (*k)(t);
    return t;
  }
};

struct Node {
  enum Kind { kProbe, kComposite, kList, kSeq, kBuiltin } kind;
  std::shared_ptr<nn::Module> m;
  std::string what;
  Named params, states;  // own ones, in registration order
  std::vector<std::pair<std::string, std::shared_ptr<Node>>> kids;
  Probe* probe() const { return dynamic_cast<Probe*>(m.get()); }
};
typedef std::shared_ptr<Node> NodeP;

struct Opts {
  int maxDepth = 4, maxKids = 4;
  bool builtins = true;
  bool allDtypes = false;   // buffers of every data type
  bool forwardable = false; // no list containers below a callable (a plain list has no forward), only probes
  int64_t maxNumel = 24;
};

static int gId = 0;
inline std::string genName(vh::Rng& r, std::set<std::string>& used) {
  static const std::vector<std::string> n{"weight", "bias", "w", "b", "fc", "conv", "layer", "0", "1", "10", "block_a", "attn", "norm", "x", "buf", "head"};
  for (;;) {
    std::string s = r.pick(n);
    if (r.chance(0.4)) s += std::to_string(r.range(0, 20));
    if (r.chance(0.02)) s = std::string((size_t)r.range(100, 400), 'n') + s;
    if (used.insert(s).second) return s;
  }
}
inline void fillTensor(vh::Rng& r, Tensor& t) {
  if (t.numel() == 0) return;
  writeRaw(t, genRT(r, toShape(t.shape()), t.dtype(), -3, 3).d);
}
inline void ownTensors(vh::Rng& r, Probe& p, Node& n, const Opts& o, int maxOwn) {
  std::set<std::string> used;
  int np = (int)r.range(0, maxOwn);
  for (int i = 0; i < np; i++) {
    Shape s = genShape(r, 3, o.maxNumel);
    if (r.chance(0.04) && !s.empty()) s[0] = 0;
    auto t = std::make_unique<Tensor>(Tensor::empty(IntArrayView(s), optOf(o.allDtypes ? r.pick(floatTypes()) : DType::Float32, true)));
    fillTensor(r, *t);
    p.params.emplace_back(genName(r, used), std::move(t));
    n.params.emplace_back(p.params.back().first, p.params.back().second.get());
  }
  n.states = n.params;
  if (r.chance(0.4)) {
    p.overrideStates = true;
    int nb = (int)r.range(1, 2);
    for (int i = 0; i < nb; i++) {
      auto t = std::make_unique<Tensor>(Tensor::empty(IntArrayView(genShape(r, 3, o.maxNumel)), optOf(o.allDtypes ? r.pick(allTypes()) : DType::Float32, false)));
      fillTensor(r, *t);
      p.buffers.emplace_back(genName(r, used), std::move(t));
      n.states.emplace_back(p.buffers.back().first, p.buffers.back().second.get());
    }
  }
  p.mul = (float)r.pick({1., 2., 0.5, -1., 3.});
  p.add = (float)r.range(-3, 3);
  p.id = ++gId;
}

template <typename M>
inline NodeP wrap(std::shared_ptr<M> m, const std::string& what, Named ps) {
  auto n = std::make_shared<Node>();
  n->kind = Node::kBuiltin;
  n->m = m;
  n->what = what;
  n->params = ps;
  n->states = ps;
  return n;
}
inline NodeP genBuiltin(vh::Rng& r) {
  int64_t a = r.range(1, 4), b = r.range(1, 4);
  NodeP n;
  switch (r.range(0, 11)) {
    case 0: {
      bool bias = r.chance(0.6);
      auto m = std::make_shared<nn::Linear>(a, b, bias);
      n = wrap(m, "Linear", {{"weight", &m->weight()}});
      if (bias) n->params.emplace_back("bias", &m->bias()), n->states = n->params;
      break;
    }
    case 1: {
      bool bias = r.chance(0.6);
      auto m = std::make_shared<nn::Conv2D>(a, b, tt::Dim2D(r.range(1, 3), r.range(1, 3)), 1, 0, bias);
      n = wrap(m, "Conv2D", {{"weight", &m->weight()}});
      if (bias) n->params.emplace_back("bias", &m->bias()), n->states = n->params;
      break;
    }
    case 2: {
      auto m = std::make_shared<nn::Embedding>(a, b);
      n = wrap(m, "Embedding", {{"weight", &m->weight()}});
      break;
    }
    case 3: {
      bool bias = r.chance(0.6);
      auto m = std::make_shared<nn::LayerNorm>(IntArrayView(Shape{a}), 1e-5f, bias);
      n = wrap(m, "LayerNorm", {{"weight", &m->weight()}});
      if (bias) n->params.emplace_back("bias", &m->bias()), n->states = n->params;
      break;
    }
    case 4: {
      auto m = std::make_shared<nn::RMSNorm>(IntArrayView(Shape{a}));
      n = wrap(m, "RMSNorm", {{"weight", &m->weight()}});
      break;
    }
    case 5: {
      auto m = std::make_shared<nn::RoPE>(2 * a, 4);
      n = wrap(m, "RoPE", {});
      n->states.emplace_back("rope", &m->cache());
      break;
    }
    case 6: n = wrap(std::make_shared<nn::Relu>(), "Relu", {}); break;
    case 7: n = wrap(std::make_shared<nn::Dropout>(0.5f), "Dropout", {}); break;
    case 8: n = wrap(std::make_shared<nn::Gelu>(), "Gelu", {}); break;
    case 9: n = wrap(std::make_shared<nn::Softmax>(0), "Softmax", {}); break;
    case 10: n = wrap(std::make_shared<nn::Flatten>(), "Flatten", {}); break;
    default: n = wrap(std::make_shared<nn::MaxPool2D>(2), "MaxPool2D", {});
  }
  for (auto& s : n->states) fillTensor(r, *s.second);
  return n;
}

inline NodeP gen(vh::Rng& r, const Opts& o, int depth = 0) {
  int k = (int)r.range(0, 9);
  if (depth >= o.maxDepth) k = (int)r.range(6, 9);
  if (depth == 0 && k > 5) k = (int)r.range(0, 5);
  if (o.forwardable && k == 2) k = 3;
  if (!o.builtins && k >= 8) k = 6;
  auto n = std::make_shared<Node>();
  if (k <= 1) {
    auto m = std::make_shared<Composite>();
    n->kind = Node::kComposite;
    n->what = "Composite";
    n->m = m;
    ownTensors(r, *m, *n, o, 2);
    std::set<std::string> used;
    int nk = (int)r.range(0, o.maxKids);
    std::vector<std::pair<std::string, std::reference_wrapper<nn::Module>>> batch;
    for (int i = 0; i < nk; i++) {
      auto c = gen(r, o, depth + 1);
      std::string nm = genName(r, used);
      m->kids.push_back(c->m);
      n->kids.emplace_back(nm, c);
      batch.emplace_back(nm, std::ref(*c->m));
    }
    // one by one, in one call, or both
    size_t cut = (size_t)r.range(0, (int64_t)batch.size());
    if (cut) m->registerModules({batch.begin(), batch.begin() + cut});
    for (size_t i = cut; i < batch.size(); i++) m->registerModule(batch[i].first, batch[i].second);
  } else if (k == 2) {
    n->kind = Node::kList;
    n->what = "ModuleList";
    std::vector<NodeP> cs;
    int nk = (int)r.range(0, r.chance(0.05) ? 14 : o.maxKids);
    for (int i = 0; i < nk; i++) cs.push_back(gen(r, o, depth + 1));
    std::shared_ptr<nn::ModuleList> m;
    size_t first = 0;
    if (nk >= 3 && r.chance(0.4)) {
      m = std::make_shared<nn::ModuleList>(std::initializer_list<std::shared_ptr<nn::Module>>{cs[0]->m, cs[1]->m});
      first = 2;
    } else m = std::make_shared<nn::ModuleList>();
    for (size_t i = first; i < cs.size(); i++) m->pushBack(cs[i]->m);
    if (r.chance(0.25)) {
      m->emplaceBack<nn::Linear>(2, 3);
      auto& l = dynamic_cast<nn::Linear&>((*m)[cs.size()]);
      fillTensor(r, l.weight());
      fillTensor(r, l.bias());
      auto lp = *(m->begin() + cs.size());
      auto c = wrap(lp, "Linear", {{"weight", &l.weight()}, {"bias", &l.bias()}});
      cs.push_back(c);
    }
    for (size_t i = 0; i < cs.size(); i++) n->kids.emplace_back(std::to_string(i), cs[i]);
    n->m = m;
  } else if (k <= 5) {
    n->kind = Node::kSeq;
    n->what = "Sequential";
    std::vector<NodeP> cs;
    int nk = (int)r.range(0, o.maxKids);
    for (int i = 0; i < nk; i++) cs.push_back(gen(r, o, depth + 1));
    std::shared_ptr<nn::Sequential> m;
    size_t first = 0;
    if (nk >= 2 && r.chance(0.6)) {
      m = nk >= 3 && r.chance(0.5) ? std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{cs[0]->m, cs[1]->m, cs[2]->m})
                                   : std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{cs[0]->m, cs[1]->m});
      first = m->size();
    } else m = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
    for (size_t i = first; i < cs.size(); i++) m->pushBack(cs[i]->m);
    for (size_t i = 0; i < cs.size(); i++) n->kids.emplace_back(std::to_string(i), cs[i]);
    n->m = m;
  } else if (k <= 7 || !o.builtins) {
    auto m = std::make_shared<Probe>();
    n->kind = Node::kProbe;
    n->what = "Probe";
    n->m = m;
    ownTensors(r, *m, *n, o, 3);
  } else {
    n = genBuiltin(r);
  }
  return n;
}

inline void expected(const Node& n, const std::string& prefix, bool states, Named& out) {
  for (auto& p : states ? n.states : n.params) out.emplace_back(prefix + p.first, p.second);
  for (auto& k : n.kids) expected(*k.second, prefix + k.first + ".", states, out);
}
template <typename F>
inline void visit(const NodeP& n, F f) {
  f(*n);
  for (auto& k : n->kids) visit(k.second, f);
}
inline int countNodes(const NodeP& n) {
  int c = 0;
  visit(n, [&](Node&) { c++; });
  return c;
}
inline std::string str(const NodeP& n) {
  std::string s = n->what;
  if (!n->kids.empty()) {
    s += "(";
    for (size_t i = 0; i < n->kids.size(); i++) s += (i ? "," : "") + str(n->kids[i].second);
    s += ")";
  }
  return s;
}
}  // namespace tree
