// C08: gradients equal the derivatives (finite differences of a double-precision reference)
#pragma once
#include "gprog.h"
namespace s_grad {
using namespace gp;

static void checkForward(const Prog& p, DType dt) {
  for (auto& I : p.ins) {
    const Var& x = p.v[I.out];
    RT g = get(x.t);
    if (g.shape != x.val.shape) throw vh::Fail{fmt("grad.forward.%s.shape", opName[I.op]), shapeStr(g.shape) + " expected " + shapeStr(x.val.shape)};
  }
  (void)dt;
}

// whole programs
SUITE(grad_program, 500) {
  auto& r = c.rng;
  Prog p(r);
  int nl = (int)r.range(1, 3), n = (int)r.range(1, c.thorough ? 16 : 10);
  bool img = r.chance(0.3);
  for (int i = 0; i < nl; i++) {
    Shape s = img && i == 0 ? Shape{r.range(1, 2), r.range(1, 3), r.range(2, 4), r.range(2, 4)} : genShape(r, 4, 24);
    p.newLeaf(s);
  }
  for (int k = 0, tries = 0; k < n && tries < 300; tries++) {
    c.desc = p.str();
    if (p.step()) k++;
  }
  c.desc = p.str();
  std::vector<int> roots;
  for (size_t i = 0; i < p.v.size(); i++)
    if (p.v[i].req && !p.v[i].leaf) roots.push_back((int)i);
  if (roots.empty()) return;
  int root = r.chance(0.7) ? roots.back() : r.pick(roots);
  if (p.v[root].val.dim() > 0 && r.chance(0.5)) {
    Instr I;
    I.op = oSum;
    I.in = {root};
    double l = p.lim;
    p.lim = 1e3;
    if (p.push(I)) root = (int)p.v.size() - 1;
    p.lim = l;
  }
  checkForward(p, p.dt);
  int k = backAndCheck(c, p, root, "grad");
  if (k) {
    std::string key;
    for (auto& I : p.ins) {
      c.obs(std::string("grad.op.") + opName[I.op]);
      key += opName[I.op];
      for (auto q : I.in) key += std::to_string(q);
    }
    if (p.inplaceUsed) c.obs("grad.inplace", p.inplaceUsed);
    c.seen(key + std::to_string(root));
  }
  if (c.index % 997 == 0) c.sample(c.desc.substr(0, 300));
}

// one operation at a time, all floating types, larger and higher-rank shapes
SUITE(grad_single, 600) {
  auto& r = c.rng;
  Prog p(r);
  int o = (int)(c.index % kOps);
  p.dt = (c.index / kOps) % 4 == 1 ? DType::Float16 : (c.index / kOps) % 4 == 3 ? DType::BFloat16 : DType::Float32;
  p.maxNumel = 150;
  p.lim = 60;
  p.gap = p.dt == DType::Float32 ? 0.02 : 0.1;
  for (int tries = 0; tries < 60 && p.ins.empty(); tries++) {
    p.v.clear();
    Shape s;
    if (o == oPool || o == oConv) s = {r.range(1, 3), r.range(1, 3), r.range(2, 6), r.range(2, 5)};
    else if (o == oNll) s = {r.range(1, 6), r.range(1, 6)};
    else s = genShape(r, o == oUnflatten || o == oUnsqueeze ? 4 : 5, 120);
    bool pos = o == oDiv || o == oSDiv || ((o == oPow || o == oPowS) && r.chance(0.6));
    p.addLeaf(p.genLeafVal(s, pos ? 0.45 : -2, pos ? 3 : 2), r.chance(0.9));
    c.desc = std::string(opName[o]) + " " + p.str();
    p.step(o);
  }
  if (p.ins.empty() || !p.v[p.ins[0].out].req) return;
  c.desc = p.str();
  int k = backAndCheck(c, p, p.ins[0].out, std::string("grad1.") + opName[o], p.dt == DType::Float32 ? 1 : 3);
  if (k) {
    c.obs(std::string("grad1.") + opName[o] + "." + dtn(p.dt));
    c.seen(std::string(opName[o]) + dtn(p.dt) + shapeStr(p.v[0].val.shape) + shapeStr(p.ins[0].p) + std::to_string(p.ins[0].in.size()));
  }
}

// the same handle in several operand positions
SUITE(grad_reuse, 150) {
  auto& r = c.rng;
  Prog p(r);
  p.newLeaf(genShape(r, 3, 24), 0.5, 2);
  if (!p.v[0].req) return;
  int n = (int)r.range(1, 6);
  for (int k = 0; k < n; k++) {
    Instr I;
    I.op = r.pick<int>({oAdd, oSub, oMul, oDiv, oPow, oSin});
    int cur = (int)p.v.size() - 1;
    I.in = {r.chance(0.5) ? cur : (int)r.range(0, cur)};
    if (I.op != oSin) I.in.push_back(r.chance(0.5) ? I.in[0] : (int)r.range(0, cur));
    if (I.op == oDiv && !p.away(p.v[I.in[1]].val, 0.4)) continue;
    if (I.op == oPow && !(p.within(p.v[I.in[0]].val, 0.3, 4) && p.within(p.v[I.in[1]].val, -3, 3))) continue;
    I.api = (int)r.range(0, 2);
    c.desc = p.str();
    p.push(I);
  }
  if (p.ins.empty()) return;
  c.desc = p.str();
  if (backAndCheck(c, p, (int)p.v.size() - 1, "gradReuse")) c.obs("grad.reuse");
  c.seen(p.str().substr(0, 200));
}

// operand order and broadcasting of binary operations, gradient restricted to either operand
SUITE(grad_broadcast, 200) {
  auto& r = c.rng;
  Prog p(r);
  p.maxNumel = 200;
  p.lim = 60;
  Shape so = genShape(r, 5, 100), a = genBcastOperand(r, so), b = genBcastOperand(r, so);
  int o = r.pick<int>({oAdd, oSub, oMul, oDiv, oPow});
  int which = (int)r.range(0, 2);
  p.addLeaf(p.genLeafVal(a, 0.5, 2.5), which != 1);
  p.addLeaf(p.genLeafVal(b, 0.5, 2.5), which != 0);
  Instr I;
  I.op = o;
  I.api = (int)r.range(0, 1);
  I.in = {0, 1};
  c.desc = p.str();
  if (!p.push(I)) return;
  if (backAndCheck(c, p, 2, std::string("gradBroadcast.") + opName[o])) c.obs("grad.broadcast");
  c.seen(std::string(opName[o]) + shapeStr(a) + shapeStr(b) + std::to_string(which));
}

// sizes far beyond what finite differences can afford: closed forms, on integers (exact) where possible
SUITE(grad_large, 12) {
  auto& r = c.rng;
  auto F = DType::Float32;
  auto ints = [&](const Shape& s) {
    RT x(s);
    for (auto& v : x.d) v = (double)r.range(-2, 2);
    return x;
  };
  auto big = [&] { return std::max<int64_t>(1, ((int64_t)1 << r.range(4, 11)) + r.range(-2, 2)); };
  int k = (int)(c.index % 6);
  if (k == 0) {  // linear
    int64_t n = r.range(1, 20), in = r.range(1, 20), out = r.range(1, 20);
    (r.chance(0.4) ? n : r.chance(0.5) ? in : out) = big();
    RT x = ints({n, in}), w = ints({out, in}), b = ints({out}), W = ints({n, out});
    c.desc = fmt("linear %lld x %lld -> %lld", (long long)n, (long long)in, (long long)out);
    Tensor tx = mkPlain(x, F, true), tw = mkPlain(w, F, true), tb = mkPlain(b, F, true);
    fn::linear(tx, tw, tb).backward(mkPlain(W, F));
    RT dx(x.shape), dw(w.shape), db(b.shape);
    for (int64_t i = 0; i < n; i++)
      for (int64_t o = 0; o < out; o++) {
        double g = W.d[i * out + o];
        db.d[o] += g;
        for (int64_t q = 0; q < in; q++) dx.d[i * in + q] += g * w.d[o * in + q], dw.d[o * in + q] += g * x.d[i * in + q];
      }
    expectT(dx, tx.grad(), F, exact(), "gradLarge.linear.x");
    expectT(dw, tw.grad(), F, exact(), "gradLarge.linear.w");
    expectT(db, tb.grad(), F, exact(), "gradLarge.linear.b");
  } else if (k == 1) {  // broadcasting
    Shape s{r.range(1, 12), r.range(1, 12), r.range(1, 12)};
    s[r.range(0, 2)] = big();
    Shape sb = genBcastOperand(r, s);
    RT x = ints(s), y = ints(sb), W = ints(s);
    int o = (int)r.range(0, 2);
    c.desc = fmt("broadcast op %d ", o) + shapeStr(s) + shapeStr(sb);
    Tensor a = mkPlain(x, F, true), b = mkPlain(y, F, true);
    bool swap = r.chance(0.5);
    Tensor t = o == 0 ? (swap ? b + a : a + b) : o == 1 ? (swap ? b - a : a - b) : (swap ? b * a : a * b);
    t.backward(mkPlain(W, F));
    RT ga(s), gb(sb);
    forIdx(s, [&](const Shape& idx, int64_t q) {
      size_t fo = 0, off = idx.size() - sb.size();
      for (size_t i = 0; i < sb.size(); i++) fo = fo * sb[i] + (sb[i] == 1 ? 0 : idx[i + off]);
      double sa = o == 1 && swap ? -1 : 1, sbn = o == 1 && !swap ? -1 : 1;
      ga.d[q] += W.d[q] * (o == 2 ? y.d[fo] : sa);
      gb.d[fo] += W.d[q] * (o == 2 ? x.d[q] : sbn);
    });
    expectT(ga, a.grad(), F, exact(), "gradLarge.broadcast.a");
    expectT(gb, b.grad(), F, exact(), "gradLarge.broadcast.b");
  } else if (k == 2) {  // softmax, logSoftmax
    Shape s{r.range(1, 9), r.range(1, 9)};
    int64_t d = r.range(0, 1), n = s[d] = big(), inner = d == 0 ? s[1] : 1;
    bool lg = r.chance(0.5);
    RT x = genRT(r, s, F, -3, 3), W = genRT(r, s, F, -1, 1), ref(s);
    std::vector<double> mag(ref.d.size());
    c.desc = fmt("softmax log=%d ", lg) + shapeStr(s) + fmt(" dim %lld", (long long)d);
    Tensor a = mkPlain(x, F, true);
    (lg ? fn::logSoftmax(a, d) : fn::softmax(a, d)).backward(mkPlain(W, F));
    for (int64_t o = 0; o < numelOf(s) / n; o++) {
      int64_t base = d == 0 ? o : o * n;
      double z = 0, dot = 0, md = 0;
      for (int64_t i = 0; i < n; i++) z += exp(x.d[base + i * inner]);
      for (int64_t i = 0; i < n; i++) {
        double y = lg ? 1 : exp(x.d[base + i * inner]) / z;
        dot += W.d[base + i * inner] * y, md += fabs(W.d[base + i * inner] * y);
      }
      for (int64_t i = 0; i < n; i++) {
        double y = exp(x.d[base + i * inner]) / z, w = W.d[base + i * inner];
        ref.d[base + i * inner] = lg ? w - y * dot : y * (w - dot);
        mag[base + i * inner] = lg ? fabs(w) + y * md : y * (fabs(w) + md);
      }
    }
    expectMag(ref, mag, a.grad(), F, 64 + n / 8.0, "gradLarge.softmax");
  } else if (k == 3) {  // convolution
    int64_t N = r.range(1, 3), C = r.range(1, 3), O = r.range(1, 3), H = r.range(4, 9), w = r.range(4, 9), kh = r.range(1, 3), kw = r.range(1, 3);
    int q = (int)r.range(0, 3);
    if (q == 0) N = r.range(10, 70);
    if (q == 1) C = r.range(8, 40);
    if (q == 2) O = r.range(8, 40);
    if (q == 3) H = r.range(16, 40), w = r.range(16, 40);
    int64_t st = r.range(1, 2), pd = r.range(0, 1), OH = (H + 2 * pd - kh) / st + 1, OW = (w + 2 * pd - kw) / st + 1;
    RT x = ints({N, C, H, w}), W = ints({O, C, kh, kw}), b = ints({O}), G = ints({N, O, OH, OW});
    c.desc = fmt("conv N=%lld C=%lld O=%lld H=%lld W=%lld k=%lld,%lld s=%lld p=%lld", (long long)N, (long long)C, (long long)O, (long long)H, (long long)w, (long long)kh,
                 (long long)kw, (long long)st, (long long)pd);
    Tensor tx = mkPlain(x, F, true), tw = mkPlain(W, F, true), tb = mkPlain(b, F, true);
    fn::conv2d(tx, tw, tb, tt::Dim2D(st, st), tt::Dim2D(pd, pd)).backward(mkPlain(G, F));
    RT dx(x.shape), dw(W.shape), db(b.shape);
    for (int64_t n = 0; n < N; n++)
      for (int64_t o = 0; o < O; o++)
        for (int64_t i = 0; i < OH; i++)
          for (int64_t j = 0; j < OW; j++) {
            double g = G.d[((n * O + o) * OH + i) * OW + j];
            db.d[o] += g;
            for (int64_t ch = 0; ch < C; ch++)
              for (int64_t u = 0; u < kh; u++)
                for (int64_t v = 0; v < kw; v++) {
                  int64_t y = i * st - pd + u, z = j * st - pd + v;
                  if (y < 0 || z < 0 || y >= H || z >= w) continue;
                  size_t xi = ((n * C + ch) * H + y) * w + z, wi = ((o * C + ch) * kh + u) * kw + v;
                  dx.d[xi] += g * W.d[wi], dw.d[wi] += g * x.d[xi];
                }
          }
    expectT(dx, tx.grad(), F, exact(), "gradLarge.conv.x");
    expectT(dw, tw.grad(), F, exact(), "gradLarge.conv.w");
    expectT(db, tb.grad(), F, exact(), "gradLarge.conv.b");
  } else if (k == 4) {  // pooling: all values different
    int64_t N = r.range(1, 4), C = r.range(1, 6), H = r.range(8, 40), w = r.range(8, 40), kh = r.range(1, 5), kw = r.range(1, 5), st = r.range(1, 5);
    int64_t OH = (H - kh) / st + 1, OW = (w - kw) / st + 1;
    RT x(Shape{N, C, H, w}), G = ints({N, C, OH, OW}), dx(x.shape);
    for (size_t i = 0; i < x.d.size(); i++) x.d[i] = (double)i - 1000;
    r.shuffle(x.d);
    c.desc = fmt("maxPool N=%lld C=%lld H=%lld W=%lld k=%lld,%lld s=%lld", (long long)N, (long long)C, (long long)H, (long long)w, (long long)kh, (long long)kw, (long long)st);
    Tensor tx = mkPlain(x, F, true);
    fn::maxPool2d(tx, tt::Dim2D(kh, kw), tt::Dim2D(st, st), tt::Dim2D(0, 0)).backward(mkPlain(G, F));
    for (int64_t n = 0; n < N * C; n++)
      for (int64_t i = 0; i < OH; i++)
        for (int64_t j = 0; j < OW; j++) {
          size_t best = (n * H + i * st) * w + j * st;
          for (int64_t u = 0; u < kh; u++)
            for (int64_t v = 0; v < kw; v++) {
              size_t xi = (n * H + i * st + u) * w + j * st + v;
              if (x.d[xi] > x.d[best]) best = xi;
            }
          dx.d[best] += G.d[(n * OH + i) * OW + j];
        }
    expectT(dx, tx.grad(), F, exact(), "gradLarge.pool");
  } else {  // losses and whole-tensor reductions
    int64_t n = big(), m = r.range(1, 12);
    RT x = genRT(r, {n, m}, F, -2, 2), y = genRT(r, {n, m}, F, -2, 2), ref(x.shape), cls(Shape{n});
    for (auto& v : cls.d) v = (double)r.range(0, m - 1);
    int o = (int)r.range(0, 3);
    bool mean = r.chance(0.5);
    auto red = mean ? tt::LossReduction::MEAN : tt::LossReduction::SUM;
    c.desc = fmt("loss %d mean=%d n=%lld m=%lld", o, mean, (long long)n, (long long)m);
    Tensor a = mkPlain(x, F, true), l;
    double N = (double)(n * m);
    if (o == 0) {
      l = fn::mseLoss(a, mkPlain(y, F), red);
      for (size_t i = 0; i < ref.d.size(); i++) ref.d[i] = 2 * (x.d[i] - y.d[i]) / (mean ? N : 1);
    } else if (o == 1) {
      l = fn::nllLoss(a, mkPlain(cls, DType::Int64), red);
      for (int64_t i = 0; i < n; i++) ref.d[i * m + (int64_t)cls.d[i]] = -1 / (mean ? (double)n : 1);
    } else {
      mean = false;
      l = a.sum();
      for (auto& v : ref.d) v = 1 / (mean ? N : 1);
    }
    double up = r.pick<double>({1, 3, -0.5});
    l.backward(mkPlain(RT(Shape{}, up), F));
    for (auto& v : ref.d) v *= up;
    std::vector<double> mg;
    for (size_t i = 0; i < ref.d.size(); i++) mg.push_back(o == 0 ? 2 * (fabs(x.d[i]) + fabs(y.d[i])) / (mean ? N : 1) * fabs(up) : fabs(ref.d[i]));
    expectMag(ref, mg, a.grad(), F, 8, "gradLarge.loss");
  }
  c.obs(fmt("grad.large%d", k));
  c.seen("large" + c.desc);
}

// the scaled forms add(a, b, alpha) and sub(a, b, alpha)
SUITE(grad_alpha, 40) {
  auto& r = c.rng;
  Shape so = genShape(r, 3, 30), sa = so, sb = genBcastOperand(r, so);
  RT x = genRT(r, sa, DType::Float32), y = genRT(r, sb, DType::Float32), W = genRT(r, so, DType::Float32, 0.25, 2);
  double al = r.pick<double>({2, 0.5, -1, 3, 1, 1});
  bool sub = r.chance(0.5);
  c.desc = fmt("%s alpha=%g a=", sub ? "sub" : "add", al) + rtStr(x) + " b=" + rtStr(y);
  Tensor a = mkPlain(x, DType::Float32, true), b = mkPlain(y, DType::Float32, true);
  Tensor o = sub ? fn::sub(a, b, tt::Scalar((float)al)) : fn::add(a, b, tt::Scalar((float)al));
  expectMag(map2(x, y, [&](double p, double q) { return sub ? p - al * q : p + al * q; }),
            map2(x, y, [&](double p, double q) { return fabs(p) + fabs(al * q); }).d, o, DType::Float32, 4, "gradAlpha.forward");
  o.backward(mkPlain(W, DType::Float32));
  auto close = [&](const RT& ref, const Tensor& g) {
    RT q = get(g);
    if (q.shape != ref.shape) throw vh::Fail{"gradAlpha.shape", "gradient shape"};
    for (size_t i = 0; i < ref.d.size(); i++)
      if (fabs(q.d[i] - ref.d[i]) > 2e-5 * (1 + fabs(ref.d[i]))) return false;
    return true;
  };
  RT ga(sa), gb(sb), gbu(sb);
  forIdx(so, [&](const Shape& idx, int64_t k) {
    size_t fo = 0, off = idx.size() - sb.size();
    for (size_t i = 0; i < sb.size(); i++) fo = fo * sb[i] + (sb[i] == 1 ? 0 : idx[i + off]);
    ga.d[k] += W.d[k];
    gb.d[fo] += W.d[k] * al * (sub ? -1 : 1);
    gbu.d[fo] += W.d[k] * (sub ? -1 : 1);
  });
  c.check(close(ga, a.grad()), "gradAlpha.first", "gradient of the first operand: got " + rtStr(get(a.grad())) + " expected " + rtStr(ga));
  c.obs("grad.alpha");
  c.seen(c.desc);
  if (!close(gb, b.grad())) {
    bool unscaled = al != 1 && close(gbu, b.grad());
    if (unscaled) c.obs("grad.alphaUnscaled");
    // one and the same finding: reported for the first cases only, so that it does not use up the room for others
    if (unscaled && c.index >= 24) return;
    if (unscaled) c.fail("gradAlpha.second.unscaled", "the gradient of the second operand is not multiplied by alpha");
    c.fail("gradAlpha.second", "gradient of the second operand: got " + rtStr(get(b.grad())) + " expected " + rtStr(gb));
  }
}
}  // namespace s_grad
