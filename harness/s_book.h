// C09: gradient bookkeeping over histories of forward / backward / zero / hook events
#pragma once
#include "gprog.h"
namespace s_book {
using namespace gp;

struct HookRec {
  std::vector<RT>* log = nullptr;
  int64_t id = -1;
  double scale = 1;
  std::vector<RT> got;
};
static void hookFn(void* ctx, Tensor& g) {
  auto* h = (HookRec*)ctx;
  h->got.push_back(get(g));
  if (h->scale != 1) op::mulInplace(g, Tensor::scalar((float)h->scale, g.options()));
}
struct LeafState {
  bool def = false;       // gradient defined
  RT g;                   // expected gradient
  double mag = 0;         // magnitude of the contributions so far (for the tolerance)
  std::vector<std::shared_ptr<HookRec>> hooks;
  bool decided = true;    // all contributions were decidable by finite differences
};

static void near(const RT& ref, const RT& got, double mag, const std::string& sig, const std::string& what) {
  if (ref.shape != got.shape) throw vh::Fail{sig + ".shape", what + ": shape " + shapeStr(got.shape) + " expected " + shapeStr(ref.shape)};
  double tol = 6e-5 * (mag + 0.2);
  for (size_t i = 0; i < ref.d.size(); i++)
    if (!(fabs(ref.d[i] - got.d[i]) <= tol))
      throw vh::Fail{sig + ".value", what + fmt(": element %zu is %.9g expected %.9g; got ", i, got.d[i], ref.d[i]) + rtStr(got) + " expected " + rtStr(ref)};
}

SUITE(book_history, 400) {
  auto& r = c.rng;
  Prog p(r);
  p.repeatable = true;
  p.maxNumel = 16;
  p.lim = 6;
  int nl = (int)r.range(1, 3);
  for (int i = 0; i < nl; i++) p.newLeaf(genShape(r, 3, 8), -1.5, 1.5);
  std::map<int, LeafState> st;
  std::vector<Tensor> ups;      // upstream gradients the caller passed in
  std::vector<RT> upv;
  std::string hist;
  std::vector<std::shared_ptr<HookRec>> dead;
  int events = (int)r.range(4, c.thorough ? 30 : 16), backs = 0;
  std::string key;
  auto verify = [&](const char* when) {
    c.desc = std::string(when) + " after: " + hist + " | " + p.str();
    for (size_t i = 0; i < p.v.size(); i++) {
      Var& x = p.v[i];
      if (x.leaf && x.req) {
        auto& s = st[(int)i];
        Tensor g = x.t.grad();
        c.check(g.defined() == s.def, "book.defined", fmt("gradient of v%zu is %s", i, g.defined() ? "defined" : "undefined"));
        if (s.def && s.decided) {
          near(s.g, get(g), s.mag, "book", fmt("gradient of v%zu", i));
          c.obs("book.checked");
        }
      }
      if (x.leaf) expectSame(x.val, get(x.t), "book.leafValue");
    }
    for (size_t k = 0; k < ups.size(); k++) expectSame(upv[k], get(ups[k]), "book.upstream");
  };
  std::vector<RT> fwd;
  for (int e = 0; e < events; e++) {
    int k = (int)r.range(0, 13);
    std::vector<int> leaves, roots;
    for (size_t i = 0; i < p.v.size(); i++)
      if (p.v[i].req) {
        if (p.v[i].leaf) leaves.push_back((int)i);
        else roots.push_back((int)i);
      }
    if (k <= 3 || roots.empty()) {  // grow the graph (sharing what is there)
      for (int t = 0; t < 30; t++)
        if (p.step()) break;
      hist += "grow; ";
      key += "f";
      continue;
    }
    if (k <= 8) {  // backward
      int root = r.chance(0.9) ? r.pick(roots) : r.pick(leaves);
      Var& R = p.v[root];
      bool implicit = R.val.dim() == 0 && r.chance(0.5);
      RT W(R.val.shape, 1);
      // snapshot of the forward values
      fwd.clear();
      for (auto& x : p.v) fwd.push_back(get(x.t));
      std::vector<RT> before;
      if (!implicit) {
        for (auto& q : W.d) q = roundTo(p.dt, r.uniform(-1.5, 1.5));
        // sometimes the upstream gradient is somebody's gradient or value handle
        Tensor u = mkPlain(W, p.dt);
        int how = (int)r.range(0, 5);
        if (how == 0 && R.leaf && st[root].def && st[root].decided) {
          u = R.t.grad();
          W = get(u);
        } else if (how == 1) {
          u = p.v[root].t.clone();
          u.setRequiresGrad(false);
          W = get(u);
        }
        bool shared = how == 0 && R.leaf && st[root].def && st[root].decided;
        hist += fmt("backward(v%d,W%s); ", root, shared ? "=own gradient" : "");
        for (auto& l : st)
          for (auto& h : l.second.hooks) h->got.clear();
        c.desc = hist + " | " + p.str();
        R.t.backward(u);
        if (!shared) {
          ups.push_back(u);
          upv.push_back(W);
        }
      } else {
        hist += fmt("backward(v%d); ", root);
        for (auto& l : st)
          for (auto& h : l.second.hooks) h->got.clear();
        c.desc = hist + " | " + p.str();
        R.t.backward();
      }
      backs++;
      c.obs("book.backward");
      for (auto& h : dead) c.check(h->got.empty(), "book.hook.removed", "an unregistered hook still runs");
      key += fmt("b%d", root);
      for (auto li : leaves) {
        if (!R.deps[li] && li != root) {
          for (auto& h : st[li].hooks) c.check(h->got.empty(), "book.hook.unreached", fmt("hook of v%d ran in a pass that does not reach it", li));
          continue;
        }
        auto& s = st[li];
        RT g = li == root ? W : p.grad(root, W, li);
        double mg = 0;
        for (auto& q : g.d) {
          if (std::isnan(q)) s.decided = false, q = 0;
          mg = std::max(mg, fabs(q));
        }
        // cancelling contributions: measure how rounding shows
        if (li != root) {
          RT n1 = p.grad(root, W, li, 2.4e-7, 5), n2 = p.grad(root, W, li, 2.4e-7, 6);
          for (size_t q = 0; q < g.d.size(); q++) {
            double d = std::max(fabs(n1.d[q] - g.d[q]), fabs(n2.d[q] - g.d[q]));
            if (!std::isfinite(d)) s.decided = false;
            else mg = std::max(mg, d * 25 / 6e-5);
          }
        }
        if (!s.def) s.g = RT(g.shape);
        s.def = true;
        s.mag += mg;
        for (size_t q = 0; q < g.d.size(); q++) s.g.d[q] += g.d[q];
        for (auto& h : s.hooks) {
          c.check(h->got.size() == 1, "book.hook.count", fmt("hook of v%d ran %zu times in one backward pass", li, h->got.size()));
          if (s.decided) near(s.g, h->got[0], s.mag, "book.hook", fmt("gradient seen by a hook of v%d", li));
          for (auto& q : s.g.d) q *= h->scale;
          s.mag *= std::max(1.0, h->scale);
          c.obs("book.hookRun");
        }
      }
      // forward values stay
      for (size_t i = 0; i < p.v.size(); i++) expectSame(fwd[i], get(p.v[i].t), "book.forwardValue");
      // no two gradients share storage with each other, with a value or with an upstream gradient
      if (r.chance(0.5)) {
        int li = r.pick(leaves);
        auto& s = st[li];
        if (s.def) {
          Tensor g = p.v[li].t.grad();
          g.fill_(3.f);
          s.g = RT(s.g.shape, 3);
          s.mag = 3;
          s.decided = true;
          hist += fmt("v%d.grad.fill(3); ", li);
          c.obs("book.fillGrad");
        }
      }
      verify("backward");
      continue;
    }
    if (k == 9) {
      int li = r.pick(leaves);
      p.v[li].t.zeroGrad();
      auto& s = st[li];
      s.def = true;
      s.decided = true;
      s.mag = 0;
      s.g = RT(p.v[li].val.shape);
      hist += fmt("zeroGrad(v%d); ", li);
      key += "z";
      c.obs("book.zeroGrad");
      verify("zeroGrad");
    } else if (k == 10) {
      int li = r.pick(leaves);
      auto& s = st[li];
      for (int reps = (int)r.range(1, 3); reps > 0; reps--) {
      auto h = std::make_shared<HookRec>();
      h->scale = r.pick<double>({1, 1, 0.5, 2});
      h->id = p.v[li].t.registerHook(hookFn, h.get());
      c.check(h->id >= 0, "book.hook.id", "negative hook id");
      for (auto& o : s.hooks) c.check(o->id != h->id, "book.hook.id", "two registered hooks share an id");
      s.hooks.push_back(h);
      hist += fmt("hook(v%d,x%g); ", li, h->scale);
      key += "h";
      }
    } else if (k == 11) {
      int li = r.pick(leaves);
      auto& s = st[li];
      for (int reps = (int)r.range(1, 2); reps > 0 && !s.hooks.empty(); reps--) {
      // any of them: the ids of the others stay what they are
      size_t q = r.range(0, s.hooks.size() - 1);
      auto h = s.hooks[q];
      p.v[li].t.unregisterHook(h->id);
      hist += fmt("unhook(v%d,#%zu of %zu); ", li, q, s.hooks.size());
      key += "u";
      // the record stays alive so that a stale call is seen
      h->got.clear();
      dead.push_back(h);
      s.hooks.erase(s.hooks.begin() + q);
      if (q < s.hooks.size()) c.obs("book.unhookEarlier");
      c.obs("book.unhook");
      }
    } else if (k == 12 && !ups.empty()) {
      // the caller reuses the tensor it passed in
      size_t q = r.range(0, ups.size() - 1);
      ups[q].fill_(-5.f);
      upv[q] = RT(upv[q].shape, -5);
      hist += "caller overwrites an upstream gradient; ";
      c.obs("book.overwriteUpstream");
      verify("overwriting an upstream gradient");
    } else if (k == 13) {
      int li = r.pick(leaves);
      auto& s = st[li];
      if (r.chance(0.5)) {
        p.v[li].t.setGrad(Tensor());
        s.def = false;
        s.mag = 0;
        s.decided = true;
        hist += fmt("v%d.setGrad({}); ", li);
      } else {
        RT g = p.genLeafVal(p.v[li].val.shape, -2, 2);
        p.v[li].t.setGrad(mkPlain(g, p.dt));
        s.def = s.decided = true;
        s.g = g;
        s.mag = 2;
        hist += fmt("v%d.setGrad(T); ", li);
      }
      verify("setGrad");
    }
  }
  verify("end");
  if (backs > 1) c.obs("book.multiBackward");
  c.seen(key + p.str().substr(0, 120));
  if (c.index % 499 == 0) c.sample(hist.substr(0, 300));
}

// graphs whose backward returns the incoming gradient itself (add, reshape, eval-mode dropout ...): every leaf must
// still own its gradient
SUITE(book_alias, 150) {
  auto& r = c.rng;
  Shape s = genShape(r, 3, 12);
  int n = (int)r.range(2, 4);
  std::vector<Tensor> l;
  std::vector<RT> lv;
  for (int i = 0; i < n; i++) {
    lv.push_back(genRT(r, s, DType::Float32));
    l.push_back(mkPlain(lv.back(), DType::Float32, true));
  }
  Tensor acc = l[0];
  std::string d = "l0";
  for (int i = 1; i < n; i++) {
    acc = acc + l[i];
    int k = (int)r.range(0, 3);
    if (k == 0) acc = acc.reshape(IntArrayView(s));
    if (k == 1) acc = acc.unsqueeze(0), acc = acc.squeeze(0);
    if (k == 2) acc = fn::dropout(acc, 0.5f, false);
    d += fmt("+l%d(%d)", i, k);
  }
  RT W = genRT(r, s, DType::Float32, 0.5, 2);
  Tensor w = mkPlain(W, DType::Float32);
  c.desc = d + " W=" + rtStr(W);
  acc.backward(w);
  for (int i = 0; i < n; i++) expectSame(W, get(l[i].grad()), "bookAlias.first");
  // change them one after the other
  std::vector<RT> exp(n, W);
  int order = (int)r.range(0, n - 1);
  for (int q = 0; q < n; q++) {
    int i = (q + order) % n;
    int how = (int)r.range(0, 3);
    if (how == 0) l[i].grad().fill_(7.f), exp[i] = RT(s, 7);
    else if (how == 1) op::mulInplace(l[i].grad(), Tensor::scalar(2)), exp[i] = map1(exp[i], [](double v) { return 2 * v; });
    else if (how == 2) l[i].zeroGrad(), exp[i] = RT(s, 0);
    else {
      (l[i] * 2.f).backward(w);
      exp[i] = map2(exp[i], W, [](double a, double b) { return a + 2 * b; });
    }
    for (int j = 0; j < n; j++) expectMag(exp[j], l[j].grad(), DType::Float32, 4, "bookAlias.independent");
    expectSame(W, get(w), "bookAlias.upstream");
    for (int j = 0; j < n; j++) expectSame(lv[j], get(l[j]), "bookAlias.value");
  }
  c.obs("book.alias");
  c.seen(d + shapeStr(s));
}

// optimizer-like loop: the same parameters over many fresh graphs
SUITE(book_epochs, 60) {
  auto& r = c.rng;
  int64_t in = r.range(1, 4), out = r.range(1, 3), b = r.range(1, 4);
  Tensor w = mkPlain(genRT(r, {out, in}, DType::Float32), DType::Float32, true), bias = mkPlain(genRT(r, {out}, DType::Float32), DType::Float32, true);
  RT wv = get(w), gw({out, in}), gb({out});
  int steps = (int)r.range(2, 12), since = 0;
  for (int k = 0; k < steps; k++) {
    RT x = genRT(r, {b, in}, DType::Float32), W = genRT(r, {b, out}, DType::Float32, -1, 1);
    Tensor y = fn::linear(mkPlain(x, DType::Float32), w, bias);
    y.backward(mkPlain(W, DType::Float32));
    for (int64_t i = 0; i < b; i++)
      for (int64_t o = 0; o < out; o++) {
        gb.d[o] += W.d[i * out + o];
        for (int64_t j = 0; j < in; j++) gw.d[o * in + j] += W.d[i * out + o] * x.d[i * in + j];
      }
    since++;
    c.desc = fmt("step %d, %d passes since zeroing", k, since);
    RT mw({out, in}, 4.0 * b * since * 4), mb({out}, 2.0 * b * since * 4);
    expectMag(gw, mw.d, w.grad(), DType::Float32, 2, "bookEpochs.weight");
    expectMag(gb, mb.d, bias.grad(), DType::Float32, 2, "bookEpochs.bias");
    if (r.chance(0.4)) {
      w.zeroGrad();
      bias.zeroGrad();
      gw = RT({out, in});
      gb = RT({out});
      since = 0;
      expectSame(gw, get(w.grad()), "bookEpochs.zeroed");
    }
  }
  expectSame(wv, get(w), "bookEpochs.param");
  c.obs("book.epochs", steps);
  c.seen(fmt("ep%lld,%lld,%lld,%d", (long long)in, (long long)out, (long long)b, steps));
}

// long chains, repeated diamonds and wide fan-out: every leaf and every hook is reached exactly once per pass
struct DeepHook {
  int calls = 0;
  double seen = 0;
};
static void deepHook(void* ctx, Tensor& g) {
  auto* h = (DeepHook*)ctx;
  h->calls++;
  h->seen = get(g).d[0];
}
SUITE(book_deep, 12) {
  auto& r = c.rng;
  int nl = (int)r.range(1, 40), nodes = (int)(r.chance(0.3) ? r.range(1, 40) : r.range(100, 1500)), wide = (int)(r.chance(0.5) ? r.range(2, 300) : r.range(2, 9));
  Shape s = genShape(r, 2, 4);
  std::vector<Tensor> l;
  std::vector<double> exp(nl, 0);
  std::vector<DeepHook> hooks(nl);
  for (int i = 0; i < nl; i++) {
    l.push_back(mkPlain(genRT(r, s, DType::Float32), DType::Float32, true));
    l[i].registerHook(&deepHook, &hooks[i]);
  }
  auto leaf = [&](double scale) {
    int i = (int)r.range(0, nl - 1), k = (int)r.range(0, 2);
    double f = k == 0 ? 1 : k == 1 ? -2 : 3;
    exp[i] += f * scale;
    return k == 0 ? l[i] : l[i] * (float)f;
  };
  c.desc = fmt("leaves %d chain %d fan-out %d ", nl, nodes, wide) + shapeStr(s);
  // the value used `wide` times, far below the top
  Tensor x = leaf(wide);
  for (int k = 0; k < nodes / 2; k++) {
    int what = (int)r.range(0, 5);
    if (what <= 2) x = x + leaf(wide);
    else if (what == 3) x = x * 0.5f + x * 0.5f;
    else if (what == 4) x = leaf(wide) - x * -1.f;
    else x = x.reshape(IntArrayView(s));
  }
  Tensor y = x * 1.f;
  for (int k = 1; k < wide; k++) y = r.chance(0.5) ? y + x : x + y;
  for (int k = 0; k < nodes / 2; k++) {
    int what = (int)r.range(0, 3);
    if (what <= 1) y = y + leaf(1);
    else if (what == 2) y = y * 0.25f + y * 0.75f;
    else y = y - leaf(-1);
  }
  int passes = (int)r.range(1, 3);
  for (int p = 1; p <= passes; p++) {
    y.backward(mkPlain(RT(s, 1), DType::Float32));
    for (int i = 0; i < nl; i++) {
      bool used = hooks[i].calls > 0;
      if (!used) {
        c.check(exp[i] == 0 && !l[i].grad().defined(), "bookDeep.unreached", fmt("leaf %d", i));
        continue;
      }
      c.check(hooks[i].calls == p, "bookDeep.hook", fmt("the hook of leaf %d ran %d times in %d passes", i, hooks[i].calls, p));
      RT g = get(l[i].grad());
      c.check(g.shape == s, "bookDeep.shape");
      for (double v : g.d)
        if (v != exp[i] * p) c.fail("bookDeep.grad", fmt("after %d passes leaf %d has gradient %.9g, expected %.9g", p, i, v, exp[i] * p));
      c.check(hooks[i].seen == exp[i] * p, "bookDeep.hookValue", fmt("the hook of leaf %d saw %.9g, expected %.9g", i, hooks[i].seen, exp[i] * p));
      c.obs("book.deepLeaves");
    }
  }
  c.obs("book.deepNodes", nodes);
  c.seen(c.desc);
}
}  // namespace s_book
