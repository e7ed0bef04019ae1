// C11: operations change only the tensor they were asked to change
#pragma once
#include "s_nograd.h"

#include "Data/Transform.h"
#include "Optimizer.h"
namespace s_own {
namespace op = tt::op;
namespace fn = tt::function;
using tt::ArrayView;
using tt::Scalar;

struct Snap {
  Shape shape;
  DType dt;
  bool req;
  std::vector<uint8_t> bytes;
};
static Snap snapOf(const Tensor& t) {
  Snap s{toShape(t.shape()), t.dtype(), t.requiresGrad(), {}};
  s.bytes.resize(t.nbytes());
  if (!s.bytes.empty()) memcpy(s.bytes.data(), t.dataPtr<>(), s.bytes.size());
  return s;
}
static bool sameSnap(const Snap& a, const Snap& b) { return a.shape == b.shape && a.dt == b.dt && a.req == b.req && a.bytes == b.bytes; }
static Tensor deep(const Tensor& t) {
  Tensor x = Tensor::empty(t.shape(), optOf(t.dtype(), false));
  if (t.nbytes()) memcpy(x.dataPtr<>(), t.dataPtr<>(), t.nbytes());
  return x;
}
static std::string snapStr(const Snap& s) {
  RT x(s.shape);
  for (int64_t i = 0; i < x.numel(); i++) x.d[i] = decodeAt(s.bytes.data(), s.dt, i);
  return std::string(dtn(s.dt)) + rtStr(x, 12) + (s.req ? "g" : "");
}

struct Ent {
  Tensor t;
  Snap s;
  int group;  // handles of one and the same tensor
  std::string how;
};

// operands of a write: taken from the pool or derived from the target in the live run, deep copies in the model run
struct Ops {
  vh::Rng* r = nullptr;
  std::vector<Ent>* pool = nullptr;
  Tensor* target = nullptr;
  int targetGroup = -1;
  bool live = true;
  size_t next = 0;
  std::vector<Tensor> kept, copies;
  std::vector<Snap> snaps;
  std::vector<bool> isTarget;
  std::string log;
  int from[4] = {0, 0, 0, 0};
  // a tensor of exactly this shape and type; lo..hi for fresh ones; anyVal: values may come from the pool
  Tensor get(const Shape& s, DType dt, double lo, double hi, bool anyVal = true) {
    if (!live) return copies[next++];
    Tensor o;
    bool self = false;
    int how = 0;
    if (anyVal && r->chance(0.75)) {
      std::vector<size_t> c;
      for (size_t i = 0; i < pool->size(); i++)
        if ((*pool)[i].t.dtype() == dt && toShape((*pool)[i].t.shape()) == s) c.push_back(i);
      if (!c.empty() && r->chance(0.6)) {
        auto& e = (*pool)[r->pick(c)];
        o = e.t;
        self = e.group == targetGroup;
        how = self ? 1 : 2;
      } else if (target->dtype() == dt && target->numel() >= numelOf(s) && numelOf(s) > 0) {
        // part of the target itself
        int64_t off = r->range(0, target->numel() - numelOf(s));
        WithNoGrad { o = target->reshape({-1}).narrow(0, off, numelOf(s)).reshape(IntArrayView(s)); }
        how = 3;
      }
    }
    if (!o.defined()) o = mkView(*r, genRT(*r, s, dt, lo, hi), dt);
    from[how]++;
    log += fmt(" operand%s", how == 0 ? "(fresh)" : how == 1 ? "(same tensor)" : how == 2 ? "(pool)" : "(part of target)");
    kept.push_back(o);
    isTarget.push_back(self);
    snaps.push_back(snapOf(o));
    copies.push_back(deep(o));
    return o;
  }
  bool anySelf() const {
    for (bool b : isTarget)
      if (b) return true;
    return false;
  }
};
struct W {
  const char* name;
  int types;  // 1 float, 2 int, 4 bool
  std::function<void(vh::Rng&, Tensor&, Ops&)> f;
  bool random = false;
  bool keepsHandles = false;  // may replace what this handle refers to, other handles of the tensor then keep the old value
  bool selfOk = true;         // may take the target itself as an operand
};
static Shape sh(const Tensor& t) { return toShape(t.shape()); }
static float fv(vh::Rng& r, const Tensor& t) { return t.dtype() == DType::Bool ? (float)r.range(0, 1) : (float)r.range(-3, 3); }

static const std::vector<W>& writes() {
#define UNA(n) {#n, 1, [](vh::Rng&, Tensor& t, Ops&) { op::n(t); }}
#define BIN(n, ty, any) {#n, ty, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor b = o.get(r.chance(0.5) ? sh(t) : genBcastOperand(r, sh(t)), t.dtype(), -1, 1, any); op::n(t, b); }}
#define OPR(n, sym, ty, any, lo, hi) {n, ty, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor b = o.get(r.chance(0.5) ? sh(t) : genBcastOperand(r, sh(t)), t.dtype(), lo, hi, any); t sym b; }, false, true}
#define OPS(n, sym, v) {n, 1, [](vh::Rng& r, Tensor& t, Ops&) { t sym Scalar(v); (void)r; }, false, true}
#define OUT1(n) {#n, 1, [](vh::Rng&, Tensor& t, Ops& o) { Tensor b = o.get(sh(t), t.dtype(), 0, 3); op::n(t, b); }}
#define OUT2(n) {#n, 1, [](vh::Rng&, Tensor& t, Ops& o) { Tensor a = o.get(sh(t), t.dtype(), -2, 3), b = o.get(sh(t), t.dtype(), 1, 3); op::n(t, a, b); }}
  static const std::vector<W> v{
      UNA(absInplace), UNA(negInplace), UNA(signInplace), UNA(sqrtInplace), UNA(squareInplace), UNA(expInplace), UNA(logInplace),
      UNA(sinInplace), UNA(cosInplace), UNA(sigmoidInplace), UNA(tanhInplace), UNA(reluInplace), UNA(geluInplace), UNA(siluInplace),
      {"addInplace", 1, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor b = o.get(r.chance(0.5) ? sh(t) : genBcastOperand(r, sh(t)), t.dtype(), -3, 3); op::addInplace(t, b, r.chance(0.7) ? Scalar(1) : Scalar(2)); }},
      {"subInplace", 1, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor b = o.get(r.chance(0.5) ? sh(t) : genBcastOperand(r, sh(t)), t.dtype(), -3, 3); op::subInplace(t, b, Scalar(1)); }},
      BIN(mulInplace, 1, true), BIN(divInplace, 1, true), BIN(powInplace, 1, true),
      BIN(clampMinInplace, 1, true), BIN(clampMaxInplace, 1, true), BIN(logicAndInplace, 4, true), BIN(logicOrInplace, 4, true),
      {"logicNotInplace", 4, [](vh::Rng&, Tensor& t, Ops&) { op::logicNotInplace(t); }},
      {"clampInplace", 1, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor a = o.get(sh(t), t.dtype(), -2, 0), b = o.get(r.chance(0.5) ? sh(t) : Shape{}, t.dtype(), 0, 2); op::clampInplace(t, a, b); }},
      {"addcmulInplace", 1, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor a = o.get(sh(t), t.dtype(), -2, 2), b = o.get(r.chance(0.5) ? sh(t) : Shape{}, t.dtype(), -2, 2); op::addcmulInplace(t, a, b, Scalar(0.5f)); }},
      OPR("+=", +=, 1, true, -3, 3), OPR("-=", -=, 1, true, -3, 3), OPR("*=", *=, 1, true, -2, 2), OPR("/=", /=, 1, true, 1, 2),
      OPS("+=s", +=, 1.5f), OPS("-=s", -=, 0.5f), OPS("*=s", *=, -0.5f), OPS("/=s", /=, 2.f),
      OUT1(absOut), OUT1(negOut), OUT1(signOut), OUT1(sqrtOut), OUT1(squareOut), OUT1(expOut), OUT1(logOut), OUT1(sinOut), OUT1(cosOut),
      OUT1(sigmoidOut), OUT1(tanhOut), OUT1(reluOut), OUT1(geluOut), OUT1(siluOut), OUT2(mulOut), OUT2(divOut), OUT2(powOut), OUT2(maximumOut), OUT2(minimumOut),
      {"addOut", 1, [](vh::Rng&, Tensor& t, Ops& o) { Tensor a = o.get(sh(t), t.dtype(), -3, 3), b = o.get(sh(t), t.dtype(), -3, 3); op::addOut(t, a, b, Scalar(1)); }},
      {"subOut", 1, [](vh::Rng&, Tensor& t, Ops& o) { Tensor a = o.get(sh(t), t.dtype(), -3, 3), b = o.get(sh(t), t.dtype(), -3, 3); op::subOut(t, a, b, Scalar(1)); }},
      {"clampMinOut", 1, [](vh::Rng&, Tensor& t, Ops& o) { Tensor a = o.get(sh(t), t.dtype(), -3, 3), b = o.get(sh(t), t.dtype(), -3, 3); op::clampMinOut(t, a, b); }},
      {"fill_", 7, [](vh::Rng& r, Tensor& t, Ops&) { t.fill_(Scalar(fv(r, t))); }},
      {"fillZero_", 7, [](vh::Rng&, Tensor& t, Ops&) { t.fillZero_(); }}, {"fillOne_", 7, [](vh::Rng&, Tensor& t, Ops&) { t.fillOne_(); }},
      {"fillMasked_", 7, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor m = o.get(sh(t), DType::Bool, 0, 1, t.dtype() != DType::Bool); t.fillMasked_(m, Scalar(fv(r, t))); }},
      {"fillMaskedOut", 7, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor a = o.get(sh(t), t.dtype(), 0, 1), m = o.get(sh(t), DType::Bool, 0, 1, t.dtype() != DType::Bool); op::fillMaskedOut(t, a, m, Scalar(fv(r, t))); }},
      {"fillLinSpace_", 3, [](vh::Rng& r, Tensor& t, Ops&) { t.fillLinSpace_(Scalar(fv(r, t)), Scalar(1), t.numel()); }},
      {"fillUniform_", 1, [](vh::Rng&, Tensor& t, Ops&) { t.fillUniform_(-1, 1); }, true}, {"fillNormal_", 1, [](vh::Rng&, Tensor& t, Ops&) { t.fillNormal_(); }, true},
      {"fillBernoulli_", 1, [](vh::Rng&, Tensor& t, Ops&) { t.fillBernoulli_(0.5f); }, true},
      {"fillOffset", 7, [](vh::Rng& r, Tensor& t, Ops& o) { Tensor v = o.get({}, t.dtype(), 0, 1); int64_t off = r.range(0, t.numel() - 1); op::fillOffset(t, v, off, r.range(1, t.numel() - off)); }, false, false, false},
      {"copy_", 7, [](vh::Rng&, Tensor& t, Ops& o) { t.copy_(o.get(sh(t), t.dtype(), 0, 1)); }},
      {"indexPut", 7, [](vh::Rng& r, Tensor& t, Ops& o) {
         if (t.dim() == 0) return;
         Shape s = sh(t), ix(r.range(1, t.dim()));
         for (size_t i = 0; i < ix.size(); i++) ix[i] = r.range(-s[i], s[i] - 1);
         Tensor v = o.get(r.chance(0.4) ? Shape{} : Shape(s.begin() + ix.size(), s.end()), t.dtype(), 0, 1);
         op::indexPut(t, IntArrayView(ix), v);
       }, false, false, false},
      {"indexPutAdvance", 7, [](vh::Rng& r, Tensor& t, Ops& o) {
         if (t.dim() == 0) return;
         Shape s = sh(t);
         int64_t n = r.range(1, std::min<int64_t>(t.dim(), 3));
         RT one({1});
         std::vector<Tensor> its;
         for (int64_t i = 0; i < n; i++) {
           one.d[0] = (double)r.range(0, s[i] - 1);
           its.push_back(mkPlain(one, DType::Int64));
         }
         Shape vs(s.begin() + n, s.end());
         vs.insert(vs.begin(), 1);
         Tensor v = o.get(r.chance(0.4) ? Shape{} : vs, t.dtype(), 0, 1);
         op::indexPutAdvance(t, ArrayView<Tensor>(its), v);
       }, false, false, false},
      {"scatter_", 7, [](vh::Rng& r, Tensor& t, Ops& o) {
         if (t.dim() == 0) return;
         Shape s = sh(t);
         int64_t d = r.range(0, t.dim() - 1);
         RT ix(s);  // a permutation along d: every target written once
         int64_t k = r.range(0, s[d] - 1);
         forIdx(s, [&](const Shape& id, int64_t i) { ix.d[i] = (double)((id[d] + k) % s[d]); });
         Tensor it = mkView(r, ix, DType::Int64), src = o.get(s, t.dtype(), 0, 1);
         t.scatter_(d, it, src);
       }, false, false, false},
      {"softmaxOut", 1, [](vh::Rng& r, Tensor& t, Ops& o) {
         if (t.dim() == 0) return;
         Tensor a = o.get(sh(t), t.dtype(), -2, 2);
         op::softmaxOut(t, a, r.range(0, t.dim() - 1));
       }, false, false, false},
      {"logSoftmaxOut", 1, [](vh::Rng& r, Tensor& t, Ops& o) {
         if (t.dim() == 0) return;
         Tensor a = o.get(sh(t), t.dtype(), -2, 2);
         op::logSoftmaxOut(t, a, r.range(0, t.dim() - 1));
       }, false, false, false},
      {"reshape_", 7, [](vh::Rng&, Tensor& t, Ops&) { t.reshape_({-1}); }, false, true},
      {"unsqueeze_", 7, [](vh::Rng& r, Tensor& t, Ops&) { if (t.dim() < 6) t.unsqueeze_(r.range(0, t.dim())); }, false, true},
      {"squeeze_", 7, [](vh::Rng&, Tensor& t, Ops&) { t.squeeze_(IntArrayView{}); }, false, true},
      {"flatten_", 7, [](vh::Rng&, Tensor& t, Ops&) { if (t.dim() > 1) t.flatten_(0, 1); }, false, true},
      {"unflatten_", 7, [](vh::Rng&, Tensor& t, Ops&) { if (t.dim() > 0 && t.dim() < 6) t.unflatten_(0, IntArrayView{1, -1}); }, false, true},
      {"permute_", 7, [](vh::Rng&, Tensor& t, Ops&) { t.permute_(); }, false, true},
      {"transpose_", 7, [](vh::Rng&, Tensor& t, Ops&) { if (t.dim() > 1) t.transpose_(0, -1); }, false, true},
      {"op reshapeInplace", 7, [](vh::Rng&, Tensor& t, Ops&) { op::reshapeInplace(t, IntArrayView{-1}); }},
      {"op unsqueezeInplace", 7, [](vh::Rng& r, Tensor& t, Ops&) { if (t.dim() < 6) op::unsqueezeInplace(t, r.range(0, t.dim())); }},
      {"op flattenInplace", 7, [](vh::Rng&, Tensor& t, Ops&) { if (t.dim() > 1) op::flattenInplace(t, (int64_t)0, (int64_t)-1); }},
  };
  return v;
}

// tensors derived from t; each result is a tensor of its own
static std::vector<Tensor> derive(vh::Rng& r, const Tensor& t, std::string& how, bool& handle) {
  Shape s = sh(t);
  int64_t nd = t.dim(), n = t.numel();
  bool raw = r.chance(0.4);
  handle = false;
  for (;;) {
    switch (r.range(0, 18)) {
      case 0: how = "clone"; return {t.clone()};
      case 1: how = "reshape"; return {raw ? op::reshape(t, IntArrayView{-1}) : t.reshape({-1})};
      case 2: how = "view"; return {raw ? op::view(t, IntArrayView(s)) : t.view(IntArrayView(s))};
      case 3: if (nd < 1) break; how = "flatten"; return {raw ? op::flatten(t, (int64_t)0, (int64_t)-1) : t.flatten()};
      case 4: if (nd < 1 || nd > 6) break; how = "unflatten"; return {raw ? op::unflatten(t, (int64_t)0, IntArrayView{-1, 1}) : t.unflatten(0, IntArrayView{-1, 1})};
      case 5: if (nd > 6) break; how = "unsqueeze"; return {raw ? op::unsqueeze(t, (int64_t)0) : t.unsqueeze(0)};
      case 6: how = "squeeze"; return {raw ? op::squeeze(t, IntArrayView{}) : t.squeeze(IntArrayView{})};
      case 7: case 8: {
        if (nd < 1) break;
        int64_t d = r.chance(0.7) ? 0 : r.range(0, nd - 1), a = r.range(0, s[d] - 1), l = r.range(1, s[d] - a);
        how = fmt("narrow(%lld,%lld,%lld)", (long long)d, (long long)a, (long long)l);
        return {raw ? op::narrow(t, d, a, l) : t.narrow(d, a, l)};
      }
      case 9: {
        if (nd < 1) break;
        int64_t d = r.chance(0.7) ? 0 : r.range(0, nd - 1);
        how = "split";
        if (s[d] > 4) break;
        return raw ? op::split(t, (int64_t)1, d) : t.split(1, d);
      }
      case 10: {
        if (nd < 1) break;
        how = "chunk";
        return raw ? op::chunk(t, (int64_t)2, (int64_t)0) : t.chunk(2, 0);
      }
      case 11: {
        if (nd < 1) break;
        how = "index";
        Shape ix(r.range(1, nd));
        for (size_t i = 0; i < ix.size(); i++) ix[i] = r.range(0, s[i] - 1);
        return {op::index(t, IntArrayView(ix))};
      }
      case 12: how = "permute"; return {raw ? op::permuteAll(t) : t.permute()};
      case 13: if (nd != 2) break; how = "t"; return {t.t()};
      case 14: how = "handle"; handle = true; return {t};
      case 15: how = "to(same)"; handle = true; return {t.to(t.dtype())};
      case 16: {
        how = "storage view";
        int64_t a = r.range(0, n - 1), l = r.range(1, n - a);
        Shape q{l};
        return {Tensor(IntArrayView(q), optOf(t.dtype()), t.storage(), t.storageOffset() + a)};
      }
      case 17: if (nd != 2) break; how = "tril"; return {t.tril()};
      case 18: {
        std::vector<Tensor> l{t};
        if (nd < 1) break;
        how = "concat";
        return {fn::concat(ArrayView<Tensor>(l), 0)};
      }
    }
  }
}

SUITE_T(own_pool, 400, 120) {
  auto& r = c.rng;
  std::vector<Ent> pool;
  int nextGroup = 0;
  std::string hist;
  auto add = [&](const Tensor& t, int g, const std::string& how) {
    if (t.numel() == 0) return;
    pool.push_back({t, snapOf(t), g, how});
  };
  DType dt0 = r.pick(allTypes());
  int nb = (int)r.range(1, 3);
  for (int i = 0; i < nb; i++) {
    DType dt = r.chance(0.7) ? dt0 : r.pick(allTypes());
    RT x = genRT(r, r.chance(0.01) ? Shape{r.range(500, 5000)} : genShape(r, 4, 24), dt, -3, 3);
    if (isFloat(dt) && r.chance(0.4)) add(mkPlain(x, dt, true), nextGroup++, "leaf");
    else add(mkView(r, x, dt), nextGroup++, "base");
  }
  int steps = (int)r.range(4, c.thorough ? 40 : 22), nw = 0;
  auto verify = [&](const char* after, int exceptGroup, size_t exceptIx) {
    for (size_t i = 0; i < pool.size(); i++) {
      if (i == exceptIx) continue;
      Snap now = snapOf(pool[i].t);
      if (sameSnap(now, pool[i].s)) continue;
      if (pool[i].group == exceptGroup) {  // another handle of the tensor that was written
        pool[i].s = now;
        continue;
      }
      c.desc = hist;
      c.fail(fmt("own.changed.%s", after), fmt("%s changed another tensor (#%zu, %s): was ", after, i, pool[i].how.c_str()) + snapStr(pool[i].s) + " now " + snapStr(now));
    }
  };
  std::string key;
  for (int k = 0; k < steps && !pool.empty(); k++) {
    int act = (int)r.range(0, 9);
    size_t i = r.range(0, (int64_t)pool.size() - 1);
    if (act <= 3 && pool.size() < 14) {
      std::string how;
      bool handle;
      auto l = derive(r, pool[i].t, how, handle);
      hist += fmt(" #%zu.%s->#%zu", i, how.c_str(), pool.size());
      int g = pool[i].group;
      for (auto& x : l)
        if (pool.size() < 14) add(x, handle ? g : nextGroup++, how);
      verify(how.c_str(), -1, (size_t)-1);
      key += "d" + how.substr(0, 2);
    } else if (act == 4 && pool.size() > 2) {
      hist += fmt(" drop#%zu", i);
      pool.erase(pool.begin() + i);
      verify("drop", -1, (size_t)-1);
      key += "x";
    } else if (act == 5 && pool.size() < 14) {  // assignment between handles
      size_t j = r.range(0, (int64_t)pool.size() - 1);
      hist += fmt(" #%zu=#%zu", j, i);
      pool[j].t = pool[i].t;
      pool[j].s = pool[i].s;
      pool[j].group = pool[i].group;
      pool[j].how = "assigned";
      verify("assign", -1, (size_t)-1);
      key += "a";
    } else {
      Ent& e = pool[i];
      int ty = isFloat(e.t.dtype()) ? 1 : e.t.dtype() == DType::Bool ? 4 : 2;
      const W* w;
      do w = &writes()[r.range(0, (int64_t)writes().size() - 1)];
      while (!(w->types & ty));
      if (e.t.dtype() == DType::Bool && !strcmp(w->name, "fillLinSpace_")) continue;
      Tensor model = deep(e.t);
      const void* impl0 = &e.t.getImpl();
      vh::Rng r0 = r;
      Ops o;
      vh::Rng ro(r.next());
      o.r = &ro;
      o.pool = &pool;
      o.target = &e.t;
      o.targetGroup = w->selfOk ? e.group : e.group;
      hist += fmt(" %s#%zu", w->name, i);
      bool noGrad = r.chance(0.3);
      r0 = r;
      if (noGrad) {
        tt::NoGradGuard g;
        w->f(r, e.t, o);
      } else
        w->f(r, e.t, o);
      hist += o.log;
      c.desc = hist;
      if (!w->selfOk && o.anySelf()) {  // reading and writing the same elements at different places: unspecified
        Snap now = snapOf(e.t);
        verify(w->name, e.group, i);
        e.s = now;
        continue;
      }
      {
        Ops m;
        m.live = false;
        m.copies = o.copies;
        w->f(r0, model, m);
      }
      if (!w->random) {
        RT a = get(model), b = get(e.t);
        expectSame(a, b, fmt("own.target.%s", w->name));
      }
      // the operands keep their values (unless they are handles of the target)
      for (size_t q = 0; q < o.kept.size(); q++)
        if (!o.isTarget[q] && !sameSnap(snapOf(o.kept[q]), o.snaps[q]))
          c.fail(fmt("own.operand.%s", w->name), fmt("%s changed its operand: was ", w->name) + snapStr(o.snaps[q]) + " now " + snapStr(snapOf(o.kept[q])));
      bool moved = &e.t.getImpl() != impl0;
      verify(w->name, moved ? -1 : e.group, i);
      e.s = snapOf(e.t);
      if (moved) e.group = nextGroup++;
      nw++;
      for (int q = 0; q < 4; q++)
        if (o.from[q]) c.obs(fmt("own.operand%d", q), o.from[q]);
      c.obs(std::string("own.w.") + w->name);
      key += "w" + std::string(w->name).substr(0, 5);
    }
  }
  c.obs("own.writes", nw);
  c.seen(key);
  if (c.rng.chance(0.002)) c.sample(hist.substr(0, 340));
}

// every function: inputs survive the forward and the backward pass; results are independent of the inputs
SUITE(own_functions, 140) {
  auto& r = c.rng;
  const auto& f = s_nograd::funcs()[c.index % s_nograd::funcs().size()];
  RT x = genRT(r, {2, 3, 4, 4}, DType::Float32, 0.25, 2), y = genRT(r, {2, 3, 4, 4}, DType::Float32, 0.25, 2), z = genRT(r, {6, 4}, DType::Float32, 0.25, 2);
  bool rg = r.chance(0.5);
  c.desc = fmt("%s requiresGrad=%d", f.name, rg);
  Tensor in[3];
  std::vector<Tensor> rel;  // relatives of the inputs: bases, views and clones
  for (int k = 0; k < 3; k++) {
    const RT& v = k == 0 ? x : k == 1 ? y : z;
    if (rg) in[k] = mkPlain(v, DType::Float32, true);
    else in[k] = mkView(r, v, DType::Float32);
    rel.push_back(Tensor({in[k].storage()->size() / 4}, optOf(DType::Float32), in[k].storage(), 0));
    rel.push_back(in[k].clone());
    WithNoGrad { rel.push_back(in[k].reshape({-1})); }
  }
  std::vector<Snap> s;
  for (auto& t : in) s.push_back(snapOf(t));
  for (auto& t : rel) s.push_back(snapOf(t));
  auto verify = [&](const char* sig, const char* what, int except = -1) {
    for (size_t i = 0; i < s.size(); i++)
      if ((int)i != except && !sameSnap(s[i], snapOf(i < 3 ? in[i] : rel[i - 3]))) c.fail(sig, fmt("%s changed %s %zu", what, i < 3 ? "input" : "a relative of input", i < 3 ? i : (i - 3) / 3));
  };
  auto out = f.f(in[0], in[1], in[2]);
  verify("ownF.forward", "the call");
  std::vector<Snap> so;
  for (auto& t : out) so.push_back(snapOf(t));
  // a second call gives other tensors with the same values
  auto out2 = f.f(in[0], in[1], in[2]);
  for (size_t i = 0; i < out.size(); i++) c.check(so[i].bytes == snapOf(out2[i]).bytes, "ownF.again", "second call gives other values");
  // write to one result
  size_t k = r.range(0, (int64_t)out.size() - 1);
  {
    tt::NoGradGuard g;
    switch (r.range(0, 3)) {
      case 0: out[k].fill_(Scalar(1)); break;
      case 1: out[k].fillZero_(); break;
      case 2: out[k].copy_(Tensor::onesLike(out[k], out[k].options().noGrad())); break;
      default: op::fillOffset(out[k], Tensor::scalar(1, out[k].options().noGrad()), (int64_t)0, out[k].numel());
    }
  }
  verify("ownF.resultWrite", "writing to the result");
  for (size_t i = 0; i < out.size(); i++) {
    if (i != k) c.check(sameSnap(so[i], snapOf(out[i])), "ownF.siblings", "writing to one result changed another");
    c.check(so[i].bytes == snapOf(out2[i]).bytes, "ownF.otherCall", "writing to one result changed the result of another call");
  }
  // write to the inputs: results of the other call stay
  int w = (int)r.range(0, 2);
  {
    tt::NoGradGuard g;
    if (r.chance(0.5)) in[w].fill_(Scalar(9));
    else op::addInplace(in[w], in[w], Scalar(1));
  }
  verify("ownF.inputWrite", "writing to an input", w);
  for (size_t i = 0; i < out2.size(); i++) c.check(so[i].bytes == snapOf(out2[i]).bytes, "ownF.resultFollows", "writing to an input changed the result");
  c.obs(std::string("ownF.") + f.name);
  c.seen(c.desc + fmt("%zu %d", k, w));
}

// backward, optimizers, modules and transforms write only what they own
SUITE(own_training, 80) {
  auto& r = c.rng;
  gp::Prog p(r);
  int nl = (int)r.range(1, 3), n = (int)r.range(2, 9);
  for (int i = 0; i < nl; i++) p.newLeaf(genShape(r, 3, 12));
  for (int k = 0, tries = 0; k < n && tries < 200; tries++) k += p.step();
  std::vector<int> roots;
  for (size_t i = 0; i < p.v.size(); i++)
    if (p.v[i].req && !p.v[i].leaf) roots.push_back((int)i);
  if (roots.empty()) return;
  int root = r.pick(roots);
  c.desc = p.str();
  std::vector<Tensor> params, watch;
  for (auto& x : p.v)
    if (x.leaf && x.req) params.push_back(x.t);
  for (auto& q : params) {
    WithNoGrad {
      watch.push_back(q.reshape({-1}));
      watch.push_back(q.clone());
      if (q.dim()) watch.push_back(q.narrow(0, 0, 1));
    }
  }
  size_t nw = watch.size();
  for (auto& x : p.v)
    if (!(x.leaf && x.req)) watch.push_back(x.t);
  Tensor up = mkPlain(genRT(r, toShape(p.v[root].t.shape()), DType::Float32), DType::Float32);
  watch.push_back(up);
  WithNoGrad { watch.push_back(up.reshape({-1})); }
  std::vector<Snap> s, sp;
  for (auto& t : watch) s.push_back(snapOf(t));
  for (auto& t : params) sp.push_back(snapOf(t));
  auto verify = [&](const char* sig, const char* what) {
    for (size_t i = 0; i < watch.size(); i++)
      if (!sameSnap(s[i], snapOf(watch[i]))) c.fail(sig, fmt("%s changed %s: was ", what, i < nw ? "a view or clone of a parameter" : "a forward value or the upstream gradient") + snapStr(s[i]) + " now " + snapStr(snapOf(watch[i])));
  };
  p.v[root].t.backward(up);
  verify("ownT.backward", "backward");
  for (size_t i = 0; i < params.size(); i++) c.check(sameSnap(sp[i], snapOf(params[i])), "ownT.backwardParam", "backward changed a parameter");
  // writing to a gradient changes only it
  std::vector<Tensor> grads;
  for (auto& q : params)
    if (q.grad().defined()) grads.push_back(q.grad());
  if (!grads.empty() && r.chance(0.5)) {
    std::vector<Snap> sg;
    for (auto& g : grads) sg.push_back(snapOf(g));
    size_t k = r.range(0, (int64_t)grads.size() - 1);
    grads[k].fill_(Scalar(7));
    for (size_t i = 0; i < grads.size(); i++)
      if (i != k) c.check(sameSnap(sg[i], snapOf(grads[i])), "ownT.gradShared", "writing to one gradient changed another");
    verify("ownT.gradWrite", "writing to a gradient");
    for (size_t i = 0; i < params.size(); i++) c.check(sameSnap(sp[i], snapOf(params[i])), "ownT.gradWriteParam", "writing to a gradient changed a parameter");
  }
  // optimizer: one step changes the parameters only
  std::vector<tt::TensorPtr> pp;
  for (auto& q : params)
    if (q.grad().defined()) pp.push_back(&q);
  if (!pp.empty()) {
    int kind = (int)r.range(0, 6);
    float wd = r.chance(0.5) ? 0.1f : 0.f;
    std::unique_ptr<tt::optim::Optimizer> o;
    switch (kind) {
      case 0: o = std::make_unique<tt::optim::SGD>(std::move(pp), 0.1f, 0.9f, 0.f, wd, true); break;
      case 1: o = std::make_unique<tt::optim::SGD>(std::move(pp), 0.1f, 0.f, 0.f, wd); break;
      case 2: o = std::make_unique<tt::optim::Adagrad>(std::move(pp), 0.1f, 0.1f, wd, 0.1f); break;
      case 3: o = std::make_unique<tt::optim::RMSprop>(std::move(pp), 0.01f, 0.99f, 1e-8f, wd, 0.5f, true); break;
      case 4: o = std::make_unique<tt::optim::AdaDelta>(std::move(pp), 1.f, 0.9f, 1e-6f, wd); break;
      case 5: o = std::make_unique<tt::optim::Adam>(std::move(pp), 0.01f, std::pair<float, float>{0.9f, 0.999f}, 1e-8f, wd, true); break;
      default: o = std::make_unique<tt::optim::AdamW>(std::move(pp), 0.01f, std::pair<float, float>{0.9f, 0.999f}, 1e-8f, wd, false);
    }
    std::vector<Snap> sg;
    for (auto& g : grads) sg.push_back(snapOf(g));
    int st = (int)r.range(1, 3);
    for (int i = 0; i < st; i++) o->step();
    verify("ownT.step", "an optimizer step");
    for (size_t i = 0; i < grads.size(); i++) c.check(sameSnap(sg[i], snapOf(grads[i])), "ownT.stepGrad", fmt("optimizer %d changed a gradient", kind));
    std::vector<Snap> after;
    for (auto& t : params) after.push_back(snapOf(t));
    o->zeroGrad();
    for (size_t i = 0; i < params.size(); i++) c.check(sameSnap(after[i], snapOf(params[i])), "ownT.zeroGrad", "zeroGrad changed a parameter");
    verify("ownT.zeroGradOther", "zeroGrad");
    c.obs("own.optim");
    c.seen(fmt("opt%d wd%g st%d", kind, wd, st) + p.str());
  }
  // transforms keep the input
  Tensor img = mkView(r, genRT(r, genShape(r, 3, 20, false), DType::Float32, 0, 1), DType::Float32), h = img;
  Snap si = snapOf(img);
  tt::data::transforms::Compose tr(tt::data::transforms::Normalize(0.3f, 2.f), tt::data::transforms::Normalize(-0.1f, 0.5f));
  Tensor o1 = tr.process(h);
  c.check(sameSnap(si, snapOf(img)), "ownT.transform", "a transform changed its input");
  o1.fill_(Scalar(3));
  c.check(sameSnap(si, snapOf(img)), "ownT.transformAlias", "a transform's result shares its input");
  c.obs("own.training");
}
}  // namespace s_own
