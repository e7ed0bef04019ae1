// C06: matrix products
#pragma once
#include "tt.h"
namespace s_linalg {
namespace op = tt::op;

// values whose products and sums are exact in every float type (small integers), or general ones
static RT genMat(vh::Rng& r, const Shape& s, DType t, bool exactVals) {
  RT x(s);
  for (auto& v : x.d) v = exactVals ? (double)r.range(-2, 2) : genVal(r, t, -3, 3);
  return x;
}
static int64_t dimOf(vh::Rng& r) {
  int k = (int)r.range(0, 11);
  return k < 2 ? 1 : k < 9 ? r.range(2, 7) : k < 11 ? r.range(8, 20) : r.range(21, 70);
}

// reference product; a, b of rank >= 1; trans flags apply to the last two dims of operands of rank >= 2
static RT refMatmul(const RT& a0, const RT& b0, bool ta, bool tb, std::vector<double>& mag) {
  RT a = a0, b = b0;
  bool va = a.dim() == 1, vb = b.dim() == 1;
  if (va) a.shape.insert(a.shape.begin(), 1), ta = false;
  if (vb) b.shape.push_back(1), tb = false;
  size_t na = a.shape.size(), nb = b.shape.size();
  int64_t m = ta ? a.shape[na - 1] : a.shape[na - 2], k = ta ? a.shape[na - 2] : a.shape[na - 1];
  int64_t n = tb ? b.shape[nb - 2] : b.shape[nb - 1];
  Shape ba(a.shape.begin(), a.shape.end() - 2), bb(b.shape.begin(), b.shape.end() - 2), bo;
  if (!bcastShape(ba, bb, bo)) throw vh::Fail{"harness", "batch shapes"};
  Shape full = bo;
  full.push_back(m);
  full.push_back(n);
  RT r(full);
  mag.assign(r.d.size(), 0);
  auto off = [](const Shape& bs, const Shape& idx, int64_t stride) {
    int64_t o = 0;
    size_t d = idx.size() - bs.size();
    for (size_t i = 0; i < bs.size(); i++) o = o * bs[i] + (bs[i] == 1 ? 0 : idx[i + d]);
    return o * stride;
  };
  forIdx(bo, [&](const Shape& bi, int64_t bk) {
    const double* pa = a.d.data() + off(ba, bi, m * k);
    const double* pb = b.d.data() + off(bb, bi, k * n);
    for (int64_t i = 0; i < m; i++)
      for (int64_t j = 0; j < n; j++) {
        double v = 0, g = 0;
        for (int64_t p = 0; p < k; p++) {
          double x = (ta ? pa[p * m + i] : pa[i * k + p]) * (tb ? pb[j * k + p] : pb[p * n + j]);
          v += x;
          g += fabs(x);
        }
        r.d[(bk * m + i) * n + j] = v;
        mag[(bk * m + i) * n + j] = g * (k + 1);
      }
  });
  Shape os = bo;
  if (!va) os.push_back(m);
  if (!vb) os.push_back(n);
  r.shape = os;
  return r;
}

static Tensor callMatmul(vh::Rng& r, const Tensor& a, const Tensor& b, bool ta, bool tb) {
  switch (r.range(0, 2)) {
    case 0: return op::matmul(a, b, ta, tb);
    case 1: return tt::function::matmul(a, b, ta, tb);
    default: return a.matmul(b, ta, tb);
  }
}
static void verdict(vh::Case& c, const RT& ref, const std::vector<double>& mag, const Tensor& got, DType t, bool ex, const char* sig) {
  if (ex) expectT(ref, got, t, exact(), sig);
  else expectMag(ref, mag, got, t, 1.5, sig);
}

SUITE(linalg_matmul, 700) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  bool ex = r.chance(0.6);
  int64_t m = dimOf(r), k = dimOf(r), n = dimOf(r);
  bool ta = r.chance(0.4), tb = r.chance(0.4);
  int kind = (int)r.range(0, 9);
  Shape ba, bb, sa, sb;
  bool va = false, vb = false;
  if (kind < 3) {
  } else if (kind == 3) va = true;
  else if (kind == 4) vb = true;
  else if (kind == 5) va = vb = true;
  else {
    Shape bo = genShape(r, r.chance(0.2) ? 5 : 3, 24, false);
    ba = genBcastOperand(r, bo);
    bb = genBcastOperand(r, bo);
    // keep the pair compatible
    Shape tmp;
    while (!bcastShape(ba, bb, tmp)) bb = genBcastOperand(r, bo);
    int64_t bn = numelOf(tmp);
    while (bn * m * n * k > 200000) m = std::max<int64_t>(1, m / 2), n = std::max<int64_t>(1, n / 2), k = std::max<int64_t>(1, k / 2);
    int one = (int)r.range(0, 7);
    if (one == 0) va = true, ba.clear();
    if (one == 1) vb = true, bb.clear();
  }
  if (ex && k > 64) k = 64;
  if (va) sa = {k};
  else {
    sa = ba;
    sa.push_back(ta ? k : m);
    sa.push_back(ta ? m : k);
  }
  if (vb) sb = {k};
  else {
    sb = bb;
    sb.push_back(tb ? n : k);
    sb.push_back(tb ? k : n);
  }
  RT A = genMat(r, sa, t, ex), B = genMat(r, sb, t, ex);
  c.desc = fmt("matmul %s transA=%d transB=%d exact=%d a=", dtn(t), ta, tb, ex) + rtStr(A, 12) + " b=" + rtStr(B, 12);
  std::vector<double> mag;
  RT ref = refMatmul(A, B, ta, tb, mag);
  Tensor a = mkView(r, A, t), b = mkView(r, B, t);
  Tensor o = callMatmul(r, a, b, ta, tb);
  verdict(c, ref, mag, o, t, ex, "matmul");
  expectSame(A, get(a), "matmul.inputA");
  expectSame(B, get(b), "matmul.inputB");
  c.obs(fmt("linalg.matmul.rank%zux%zu", sa.size(), sb.size()));
  c.obs("linalg.matmul");
  c.seen(fmt("mm%d%d%s", ta, tb, dtn(t)) + shapeStr(sa) + shapeStr(sb));
  if (c.index % 199 == 0) c.sample(c.desc.substr(0, 220));
}

// the same matrix as both operands (gram matrix), associativity with the identity, and linearity on exact values
SUITE(linalg_algebra, 250) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  int64_t m = r.range(1, 9), k = r.range(1, 9);
  RT A = genMat(r, {m, k}, t, true);
  Tensor a = mkView(r, A, t);
  c.desc = fmt("gram %s a=", dtn(t)) + rtStr(A);
  std::vector<double> mag;
  RT g1 = refMatmul(A, A, false, true, mag);
  expectT(g1, op::matmul(a, a, false, true), t, exact(), "matmul.gram");
  RT g2 = refMatmul(A, A, true, false, mag);
  expectT(g2, op::matmul(a, a, true, false), t, exact(), "matmul.gramT");
  RT I({k, k});
  for (int64_t i = 0; i < k; i++) I.d[i * k + i] = 1;
  Tensor id = mkPlain(I, t);
  expectT(A, op::matmul(a, id, false, r.chance(0.5)), t, exact(), "matmul.identity");
  // views of one storage as the two operands
  RT W = genMat(r, {2, m, m}, t, true);
  Tensor w = mkPlain(W, t);
  Tensor w0 = op::narrow(w, (int64_t)0, (int64_t)0, (int64_t)1), w1 = op::narrow(w, (int64_t)0, (int64_t)1, (int64_t)1);
  RT W0({1, m, m}, std::vector<double>(W.d.begin(), W.d.begin() + m * m)), W1({1, m, m}, std::vector<double>(W.d.begin() + m * m, W.d.end()));
  bool ta = r.chance(0.5), tb = r.chance(0.5);
  RT ref = refMatmul(W0, W1, ta, tb, mag);
  expectT(ref, op::matmul(w0, w1, ta, tb), t, exact(), "matmul.sameStorage");
  c.obs("linalg.algebra");
  c.seen(fmt("alg%s%lld %lld", dtn(t), (long long)m, (long long)k));
}

SUITE(linalg_dot, 200) {
  auto& r = c.rng;
  DType t = floatTypes()[c.index % 3];
  bool ex = r.chance(0.6);
  int64_t n = r.chance(0.15) ? r.range(50, 300) : r.range(1, 40);
  if (ex) n = std::min<int64_t>(n, 60);
  RT A = genMat(r, {n}, t, ex), B = genMat(r, {n}, t, ex);
  c.desc = fmt("dot %s exact=%d a=", dtn(t), ex) + rtStr(A) + " b=" + rtStr(B);
  Tensor a = mkView(r, A, t), b = mkView(r, B, t);
  Tensor o = op::dot(a, b);
  double v = 0, g = 0;
  for (int64_t i = 0; i < n; i++) v += A.d[i] * B.d[i], g += fabs(A.d[i] * B.d[i]);
  RT ref(Shape{}, v);
  verdict(c, ref, {g * (n + 1)}, o, t, ex, "dot");
  c.obs("linalg.dot");
  c.seen(fmt("dot%s%lld", dtn(t), (long long)n));
}

// products big enough for blocked kernels, compared on exact values
SUITE(linalg_large, 4) {
  auto& r = c.rng;
  DType t = c.index % 4 == 3 ? DType::BFloat16 : DType::Float32;
  int64_t m = r.range(30, 140), k = r.range(30, t == DType::Float32 ? 140 : 60), n = r.range(30, 140);
  bool ta = r.chance(0.5), tb = r.chance(0.5);
  if (t == DType::Float32 && r.chance(0.6)) {  // one dimension long, the others short
    m = r.range(1, 20), k = r.range(1, 20), n = r.range(1, 20);
    int64_t big = ((int64_t)1 << r.range(5, 12)) + r.range(-2, 2);
    (r.chance(0.4) ? k : r.chance(0.5) ? m : n) = big;
  }
  RT A = genMat(r, ta ? Shape{k, m} : Shape{m, k}, t, true), B = genMat(r, tb ? Shape{n, k} : Shape{k, n}, t, true);
  if (t == DType::BFloat16)
    for (auto& v : A.d) v = v > 0 ? 1 : 0;
  c.desc = fmt("large matmul %s m=%lld k=%lld n=%lld %d %d", dtn(t), (long long)m, (long long)k, (long long)n, ta, tb);
  std::vector<double> mag;
  RT ref = refMatmul(A, B, ta, tb, mag);
  expectT(ref, op::matmul(mkPlain(A, t), mkPlain(B, t), ta, tb), t, exact(), "matmul.large");
  c.obs("linalg.large");
  c.seen(c.desc);
}
}  // namespace s_linalg
