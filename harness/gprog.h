// Random differentiable programs with a double-precision reference evaluator. The reference gradient is a central
// finite difference of the reference evaluation, so no derivative formula is written down twice.
#pragma once
#include "tt.h"

#include <map>

#include "Modules.h"
namespace gp {
namespace op = tt::op;
namespace fn = tt::function;

enum Op {
  oSin, oCos, oAdd, oSub, oMul, oDiv, oPow, oRelu, oSoftmax, oLogSoftmax, oMse, oNll, oSum, oReshape, oView, oPermute, oPermuteAll, oFlatten,
  oUnflatten, oSqueeze, oUnsqueeze, oLinear, oDropout, oDropoutEval, oPool, oConv, oAddS, oSubS, oMulS, oDivS, oPowS, oSAdd, oSSub, oSMul, oSDiv, kOps
};
static const char* opName[] = {"sin", "cos", "add", "sub", "mul", "div", "pow", "relu", "softmax", "logSoftmax", "mse", "nll", "sum", "reshape", "view",
                               "permute", "permuteAll", "flatten", "unflatten", "squeeze", "unsqueeze", "linear", "dropout", "dropoutEval", "maxPool",
                               "conv2d", "add.s", "sub.s", "mul.s", "div.s", "pow.s", "s.add", "s.sub", "s.mul", "s.div"};
inline bool onceOnly(int o) { return o == oSoftmax || o == oLogSoftmax || o == oMse || o == oNll || o == oDropout || o == oDropoutEval || o == oPool || o == oConv; }

struct Instr {
  int op;
  std::vector<int> in;      // variables
  Shape p;                  // integer parameters / shape
  double s = 0;             // scalar operand
  RT aux;                   // target, mask
  int api = 0;
  int out = 0;
};
struct Var {
  bool leaf = false, req = false;   // req: requires a gradient
  RT val;                           // reference value
  std::vector<char> deps;           // leaves (by variable index) the value depends on differentiably
  bool detached = false;            // computed without recording: a constant for every derivative
  Tensor t;
};

// ---- reference evaluation of one instruction ----
inline RT evalRef(const Instr& I, const std::vector<const RT*>& a) {
  const RT& x = *a[0];
  auto un = [&](auto f) { return map1(x, f); };
  switch (I.op) {
    case oSin: return un([](double v) { return sin(v); });
    case oCos: return un([](double v) { return cos(v); });
    case oAdd: return map2(x, *a[1], [](double p, double q) { return p + q; });
    case oSub: return map2(x, *a[1], [](double p, double q) { return p - q; });
    case oMul: return map2(x, *a[1], [](double p, double q) { return p * q; });
    case oDiv: return map2(x, *a[1], [](double p, double q) { return p / q; });
    case oPow: return map2(x, *a[1], [](double p, double q) { return pow(p, q); });
    case oRelu: return un([](double v) { return v > 0 ? v : 0.0; });
    case oAddS: case oSAdd: return un([&](double v) { return v + I.s; });
    case oSubS: return un([&](double v) { return v - I.s; });
    case oMulS: case oSMul: return un([&](double v) { return v * I.s; });
    case oDivS: return un([&](double v) { return v / I.s; });
    case oPowS: return un([&](double v) { return pow(v, I.s); });
    case oSSub: return un([&](double v) { return I.s - v; });
    case oSDiv: return un([&](double v) { return I.s / v; });
    case oSoftmax:
    case oLogSoftmax: {
      RT r(x.shape);
      int64_t dim = normDim(I.p[0], x.dim()), n = x.shape[dim], inner = 1;
      for (int64_t i = dim + 1; i < x.dim(); i++) inner *= x.shape[i];
      for (int64_t o = 0; o < x.numel() / (n * inner); o++)
        for (int64_t in = 0; in < inner; in++) {
          double mx = -INFINITY, s = 0;
          for (int64_t i = 0; i < n; i++) mx = std::max(mx, x.d[(o * n + i) * inner + in]);
          for (int64_t i = 0; i < n; i++) s += exp(x.d[(o * n + i) * inner + in] - mx);
          for (int64_t i = 0; i < n; i++) {
            double z = x.d[(o * n + i) * inner + in] - mx;
            r.d[(o * n + i) * inner + in] = I.op == oSoftmax ? exp(z) / s : z - log(s);
          }
        }
      return r;
    }
    case oMse:
    case oNll: {
      RT e;
      if (I.op == oMse) e = map2(x, I.aux, [](double p, double q) { return (p - q) * (p - q); });
      else {
        int64_t n = x.shape[0], k = x.shape[1];
        e = RT({n});
        for (int64_t i = 0; i < n; i++) e.d[i] = -x.d[i * k + (int64_t)I.aux.d[i]];
      }
      if (I.p[0] == 0) return e;
      double s = 0;
      for (auto v : e.d) s += v;
      return RT(Shape{}, std::vector<double>{I.p[0] == 1 ? s / (double)e.d.size() : s});
    }
    case oSum: {
      double s = 0;
      for (auto v : x.d) s += v;
      return RT(Shape{}, std::vector<double>{s});
    }
    case oReshape: case oView: return RT(I.p, x.d);
    case oPermute:
    case oPermuteAll: {
      Shape dims = I.p;
      if (I.op == oPermuteAll) {
        dims.clear();
        for (int64_t i = x.dim() - 1; i >= 0; i--) dims.push_back(i);
      }
      Shape s(dims.size()), src(dims.size());
      for (size_t i = 0; i < dims.size(); i++) s[i] = x.shape[normDim(dims[i], x.dim())];
      RT r(s);
      forIdx(s, [&](const Shape& idx, int64_t k) {
        for (size_t i = 0; i < dims.size(); i++) src[normDim(dims[i], x.dim())] = idx[i];
        r.d[k] = x.at(src);
      });
      return r;
    }
    case oFlatten: {
      int64_t f = normDim(I.p[0], x.dim()), l = normDim(I.p[1], x.dim()), n = 1;
      Shape s(x.shape.begin(), x.shape.begin() + f);
      for (int64_t i = f; i <= l; i++) n *= x.shape[i];
      s.push_back(n);
      s.insert(s.end(), x.shape.begin() + l + 1, x.shape.end());
      return RT(s, x.d);
    }
    case oUnflatten: {
      Shape s = x.shape;
      int64_t d = normDim(I.p[0], x.dim());
      s.erase(s.begin() + d);
      s.insert(s.begin() + d, I.p.begin() + 1, I.p.end());
      return RT(s, x.d);
    }
    case oSqueeze: {
      Shape s = x.shape;
      int64_t d = normDim(I.p[0], x.dim());
      if (s[d] == 1) s.erase(s.begin() + d);
      return RT(s, x.d);
    }
    case oUnsqueeze: {
      Shape s = x.shape;
      s.insert(s.begin() + (I.p[0] < 0 ? I.p[0] + x.dim() + 1 : I.p[0]), 1);
      return RT(s, x.d);
    }
    case oLinear: {
      const RT& w = *a[1];
      int64_t out = w.shape[0], in = w.shape[1];
      Shape s = x.shape;
      s.back() = out;
      RT r(s);
      for (int64_t q = 0; q < r.numel(); q++) {
        double v = a.size() > 2 ? a[2]->d[q % out] : 0;
        for (int64_t p = 0; p < in; p++) v += x.d[q / out * in + p] * w.d[q % out * in + p];
        r.d[q] = v;
      }
      return r;
    }
    case oDropout: {
      RT r(x.shape);
      for (size_t i = 0; i < x.d.size(); i++) r.d[i] = x.d[i] * I.aux.d[i] / (1 - I.s);
      return r;
    }
    case oDropoutEval: return x;
    case oPool: {
      // p: kh kw sh sw ph pw
      int64_t N = x.shape[0], C = x.shape[1], H = x.shape[2], W = x.shape[3];
      int64_t oh = (H + 2 * I.p[4] - I.p[0]) / I.p[2] + 1, ow = (W + 2 * I.p[5] - I.p[1]) / I.p[3] + 1;
      RT r({N, C, oh, ow}, -INFINITY);
      size_t q = 0;
      for (int64_t n = 0; n < N * C; n++)
        for (int64_t y = 0; y < oh; y++)
          for (int64_t z = 0; z < ow; z++, q++)
            for (int64_t i = 0; i < I.p[0]; i++)
              for (int64_t j = 0; j < I.p[1]; j++) {
                int64_t h = y * I.p[2] - I.p[4] + i, w = z * I.p[3] - I.p[5] + j;
                if (h >= 0 && w >= 0 && h < H && w < W) r.d[q] = std::max(r.d[q], x.d[(n * H + h) * W + w]);
              }
      return r;
    }
    case oConv: {
      // p: sh sw ph pw
      const RT& w = *a[1];
      int64_t N = x.shape[0], C = x.shape[1], H = x.shape[2], W = x.shape[3], O = w.shape[0], kh = w.shape[2], kw = w.shape[3];
      int64_t oh = (H + 2 * I.p[2] - kh) / I.p[0] + 1, ow = (W + 2 * I.p[3] - kw) / I.p[1] + 1;
      RT r({N, O, oh, ow});
      size_t q = 0;
      for (int64_t n = 0; n < N; n++)
        for (int64_t o = 0; o < O; o++)
          for (int64_t y = 0; y < oh; y++)
            for (int64_t z = 0; z < ow; z++, q++) {
              double v = a.size() > 2 ? a[2]->d[o] : 0;
              for (int64_t ch = 0; ch < C; ch++)
                for (int64_t i = 0; i < kh; i++)
                  for (int64_t j = 0; j < kw; j++) {
                    int64_t h = y * I.p[0] - I.p[2] + i, g = z * I.p[1] - I.p[3] + j;
                    if (h < 0 || g < 0 || h >= H || g >= W) continue;
                    v += x.d[((n * C + ch) * H + h) * W + g] * w.d[((o * C + ch) * kh + i) * kw + j];
                  }
              r.d[q] = v;
            }
      return r;
    }
  }
  return RT();
}

inline tt::LossReduction redOf(int64_t k) { return k == 0 ? tt::LossReduction::NONE : k == 1 ? tt::LossReduction::MEAN : tt::LossReduction::SUM; }

// ---- library evaluation of one instruction (handles in `a` stay as they are) ----
inline Tensor evalLib(const Instr& I, const std::vector<Tensor>& a, bool inplaceOk) {
  Tensor x = a[0];
  bool ip = inplaceOk && I.api == 2;
  tt::Scalar S((float)I.s);
  switch (I.op) {
    case oSin: return I.api ? x.sin() : fn::sin(x);
    case oCos: return I.api ? x.cos() : fn::cos(x);
    case oAdd: if (ip) { x += a[1]; return x; } return I.api ? x + a[1] : fn::add(x, a[1]);
    case oSub: if (ip) { x -= a[1]; return x; } return I.api ? x - a[1] : fn::sub(x, a[1]);
    case oMul: if (ip) { x *= a[1]; return x; } return I.api ? x * a[1] : fn::mul(x, a[1]);
    case oDiv: if (ip) { x /= a[1]; return x; } return I.api ? x / a[1] : fn::div(x, a[1]);
    case oPow: return I.api ? x.pow(a[1]) : fn::pow(x, a[1]);
    case oRelu: return I.api ? tt::nn::Relu()(x) : fn::relu(x);
    case oAddS: if (ip) { x += S; return x; } return x + S;
    case oSubS: if (ip) { x -= S; return x; } return x - S;
    case oMulS: if (ip) { x *= S; return x; } return x * S;
    case oDivS: if (ip) { x /= S; return x; } return x / S;
    case oPowS: return x.pow(S);
    case oSAdd: return S + x;
    case oSSub: return S - x;
    case oSMul: return S * x;
    case oSDiv: return S / x;
    case oSoftmax: return I.api ? tt::nn::Softmax(I.p[0])(x) : fn::softmax(x, I.p[0]);
    case oLogSoftmax: return I.api ? tt::nn::LogSoftmax(I.p[0])(x) : fn::logSoftmax(x, I.p[0]);
    case oMse: {
      Tensor tg = mkPlain(I.aux, x.dtype());
      if (I.api) return tt::nn::MSELoss(redOf(I.p[0]))(x, tg);
      return fn::mseLoss(x, tg, redOf(I.p[0]));
    }
    case oNll: {
      Tensor tg = mkPlain(I.aux, DType::Int64);
      if (I.api) return tt::nn::NLLLoss(redOf(I.p[0]))(x, tg);
      return fn::nllLoss(x, tg, redOf(I.p[0]));
    }
    case oSum: return I.api ? x.sum() : fn::sum(x);
    case oReshape: if (ip) { x.reshape_(IntArrayView(I.p)); return x; } return I.api ? x.reshape(IntArrayView(I.p)) : fn::reshape(x, IntArrayView(I.p));
    case oView: return I.api ? x.view(IntArrayView(I.p)) : fn::view(x, IntArrayView(I.p));
    case oPermute: if (ip) { x.permute_(IntArrayView(I.p)); return x; } return I.api ? x.permute(IntArrayView(I.p)) : fn::permute(x, IntArrayView(I.p));
    case oPermuteAll: if (ip) { x.permute_(); return x; } return I.api ? x.permute() : fn::permute(x);
    case oFlatten: if (ip) { x.flatten_(I.p[0], I.p[1]); return x; } return I.api ? x.flatten(I.p[0], I.p[1]) : fn::flatten(x, I.p[0], I.p[1]);
    case oUnflatten: {
      Shape s(I.p.begin() + 1, I.p.end());
      if (ip) { x.unflatten_(I.p[0], IntArrayView(s)); return x; }
      return I.api ? x.unflatten(I.p[0], IntArrayView(s)) : fn::unflatten(x, I.p[0], IntArrayView(s));
    }
    case oSqueeze: if (ip) { x.squeeze_(I.p[0]); return x; } return I.api ? x.squeeze(I.p[0]) : fn::squeeze(x, I.p[0]);
    case oUnsqueeze: if (ip) { x.unsqueeze_(I.p[0]); return x; } return I.api ? x.unsqueeze(I.p[0]) : fn::unsqueeze(x, I.p[0]);
    case oLinear: return a.size() > 2 ? fn::linear(x, a[1], a[2]) : fn::linear(x, a[1]);
    case oDropout: return fn::dropout(x, (float)I.s, true);
    case oDropoutEval: return fn::dropout(x, (float)I.s, false);
    case oPool: return fn::maxPool2d(x, tt::Dim2D(I.p[0], I.p[1]), tt::Dim2D(I.p[2], I.p[3]), tt::Dim2D(I.p[4], I.p[5]));
    case oConv: return fn::conv2d(x, a[1], a.size() > 2 ? a[2] : Tensor(), tt::Dim2D(I.p[0], I.p[1]), tt::Dim2D(I.p[2], I.p[3]));
  }
  return x;
}

struct Prog {
  vh::Rng& r;
  DType dt = DType::Float32;
  std::vector<Var> v;
  std::vector<Instr> ins;
  double lim = 8;          // bound on the magnitude of values
  int64_t maxNumel = 48;
  bool repeatable = false; // only operations whose backward can run several times
  bool lib = true;         // evaluate with the library as well
  double gap = 0.02;       // distance kept from kinks
  int inplaceUsed = 0;
  bool recording = true;   // false while the caller holds a no-grad scope

  explicit Prog(vh::Rng& rng) : r(rng) {}

  std::string str() const {
    std::string s;
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].leaf) s += fmt("v%zu=leaf%s", i, v[i].req ? "*" : "") + rtStr(v[i].val, 16) + "; ";
    for (auto& I : ins) {
      s += fmt("v%d=%s(", I.out, opName[I.op]);
      for (auto k : I.in) s += fmt("v%d ", k);
      s += shapeStr(I.p) + fmt(" s=%g api=%d", I.s, I.api) + (I.aux.d.empty() ? "" : " aux=" + rtStr(I.aux, 12)) + ")" + shapeStr(v[I.out].val.shape) + "; ";
    }
    return s;
  }
  int addLeaf(const RT& val, bool req) {
    Var x;
    x.leaf = true;
    x.req = req;
    x.val = val;
    if (lib) {
      x.t = r.chance(0.3) ? mkView(r, val, dt) : mkPlain(val, dt);
      if (req) x.t.setRequiresGrad(true);
    }
    v.push_back(std::move(x));
    int k = (int)v.size() - 1;
    for (auto& y : v) y.deps.resize(v.size(), 0);
    if (req) v[k].deps[k] = 1;
    return k;
  }
  RT genLeafVal(const Shape& s, double lo, double hi) {
    RT x(s);
    for (auto& e : x.d) {
      e = roundTo(dt, r.uniform(lo, hi));
      if (fabs(e) < 0.05) e = roundTo(dt, e < 0 ? -0.0625 : 0.0625);
    }
    return x;
  }
  int newLeaf(const Shape& s, double lo = -2, double hi = 2) { return addLeaf(genLeafVal(s, lo, hi), r.chance(0.8)); }

  int pickVar() {
    // prefer recent values, keep fan-out likely
    if (r.chance(0.5)) return (int)r.range(std::max<int64_t>(0, (int64_t)v.size() - 3), v.size() - 1);
    return (int)r.range(0, v.size() - 1);
  }
  bool within(const RT& x, double lo, double hi) const {
    for (auto e : x.d)
      if (!(e >= lo && e <= hi)) return false;
    return true;
  }
  bool away(const RT& x, double g) const {
    for (auto e : x.d)
      if (fabs(e) < g) return false;
    return true;
  }
  // operand that broadcasts with x: an existing variable or a new leaf
  int operandFor(int xi, bool inplace) {
    const Shape xs = v[xi].val.shape;
    std::vector<int> cand;
    for (size_t i = 0; i < v.size(); i++) {
      Shape o;
      if (bcastShape(xs, v[i].val.shape, o) && numelOf(o) <= maxNumel && o.size() <= 5 && (!inplace || o == xs)) cand.push_back((int)i);
    }
    if (!cand.empty() && r.chance(0.7)) return r.pick(cand);
    return newLeaf(genBcastOperand(r, xs));
  }
  // appends one random instruction; false when the drawn one does not fit
  bool step(int force = -1) {
    Instr I;
    I.op = force >= 0 ? force : (int)r.range(0, kOps - 1);
    if (repeatable && onceOnly(I.op)) return false;
    I.api = (int)r.range(0, 2);
    int xi = pickVar();
    RT x = v[xi].val;
    int64_t nd = x.dim();
    I.in = {xi};
    bool ip = I.api == 2;
    switch (I.op) {
      case oSin: case oCos: break;
      case oAdd: case oSub: case oMul: I.in.push_back(operandFor(xi, ip)); break;
      case oDiv: {
        int y = operandFor(xi, ip);
        if (!away(v[y].val, 0.4)) return false;
        I.in.push_back(y);
        break;
      }
      case oPow: {
        if (!within(x, 0.3, 4)) {
          // integral exponents that need no gradient work on any base
          if (!away(x, 0.1) || !within(x, -4, 4)) return false;
          RT e(genBcastOperand(r, x.shape));
          for (auto& q : e.d) q = (double)r.range(-1, 3);
          I.in.push_back(addLeaf(e, false));
          break;
        }
        int y = operandFor(xi, false);
        if (!within(v[y].val, -3, 3)) return false;
        I.in.push_back(y);
        break;
      }
      case oRelu:
        if (!away(x, gap)) return false;
        break;
      case oSoftmax: case oLogSoftmax:
        if (nd == 0) return false;
        I.p = {maybeNeg(r, r.range(0, nd - 1), nd)};
        break;
      case oMse:
        I.aux = genLeafVal(x.shape, -2, 2);
        I.p = {r.range(0, 2)};
        break;
      case oNll:
        if (nd != 2) return false;
        I.aux = RT({x.shape[0]});
        for (auto& q : I.aux.d) q = (double)r.range(0, x.shape[1] - 1);
        I.p = {r.range(0, 2)};
        break;
      case oSum: break;
      case oReshape: case oView: {
        Shape s;
        int64_t n = x.numel();
        while (n > 1 && s.size() < 4) {
          std::vector<int64_t> ds;
          for (int64_t d = 1; d <= n; d++)
            if (n % d == 0) ds.push_back(d);
          int64_t d = r.pick(ds);
          s.push_back(d);
          n /= d;
        }
        if (n > 1) s.push_back(n);
        if (s.size() < 5 && r.chance(0.3)) s.insert(s.begin() + r.range(0, s.size()), 1);
        I.p = s;
        break;
      }
      case oPermute:
        for (int64_t i = 0; i < nd; i++) I.p.push_back(i);
        r.shuffle(I.p);
        for (auto& q : I.p) q = maybeNeg(r, q, nd);
        if (nd == 0) return false;
        break;
      case oPermuteAll:
        if (nd == 0) return false;
        break;
      case oFlatten: {
        if (nd == 0) return false;
        int64_t f = r.range(0, nd - 1), l = r.range(f, nd - 1);
        I.p = {maybeNeg(r, f, nd), maybeNeg(r, l, nd)};
        break;
      }
      case oUnflatten: {
        if (nd == 0 || nd > 4) return false;
        int64_t d = r.range(0, nd - 1), n = x.shape[d];
        std::vector<int64_t> ds;
        for (int64_t q = 1; q <= n; q++)
          if (n % q == 0) ds.push_back(q);
        int64_t q = r.pick(ds);
        I.p = {maybeNeg(r, d, nd), q, n / q};
        break;
      }
      case oSqueeze:
        if (nd == 0) return false;
        I.p = {maybeNeg(r, r.range(0, nd - 1), nd)};
        break;
      case oUnsqueeze:
        if (nd > 4) return false;
        I.p = {r.range(0, nd)};
        if (r.chance(0.3)) I.p[0] -= nd + 1;
        break;
      case oLinear: {
        if (nd == 0) return false;
        int64_t in = x.shape.back(), out = r.range(1, 4);
        int wi = -1;
        for (size_t i = 0; i < v.size(); i++)
          if (v[i].val.dim() == 2 && v[i].val.shape[1] == in && r.chance(0.4)) wi = (int)i;
        if (wi < 0) wi = newLeaf({out, in}, -1, 1);
        out = v[wi].val.shape[0];
        I.in.push_back(wi);
        if (r.chance(0.6)) {
          int bi = -1;
          for (size_t i = 0; i < v.size(); i++)
            if (v[i].val.shape == Shape{out} && r.chance(0.4)) bi = (int)i;
          if (bi < 0) bi = newLeaf({out}, -1, 1);
          I.in.push_back(bi);
        }
        break;
      }
      case oDropout:
        if (!away(x, 1e-3)) return false;
        I.s = r.pick<double>({0.25, 0.5, 0.75, 0.125});
        break;
      case oDropoutEval: I.s = 0.5; break;
      case oPool: {
        if (nd != 4) return false;
        int64_t kh = r.range(1, 3), kw = r.range(1, 3), sh = r.range(1, 3), sw = r.range(1, 3), ph = r.range(0, kh - 1), pw = r.range(0, kw - 1);
        if (x.shape[2] + 2 * ph < kh || x.shape[3] + 2 * pw < kw) return false;
        I.p = {kh, kw, sh, sw, ph, pw};
        // no two values of one plane closer than the gap
        int64_t hw = x.shape[2] * x.shape[3];
        for (int64_t n = 0; n < x.shape[0] * x.shape[1]; n++) {
          std::vector<double> q(x.d.begin() + n * hw, x.d.begin() + (n + 1) * hw);
          std::sort(q.begin(), q.end());
          for (size_t i = 1; i < q.size(); i++)
            if (q[i] - q[i - 1] < gap * 0.2) return false;
        }
        break;
      }
      case oConv: {
        if (nd != 4) return false;
        int64_t kh = r.range(1, 3), kw = r.range(1, 3), sh = r.range(1, 2), sw = r.range(1, 2), ph = r.range(0, 2), pw = r.range(0, 2), O = r.range(1, 3);
        if (x.shape[2] + 2 * ph < kh || x.shape[3] + 2 * pw < kw) return false;
        if (O * x.shape[1] * kh * kw > 40) return false;
        I.in.push_back(newLeaf({O, x.shape[1], kh, kw}, -1, 1));
        if (r.chance(0.6)) I.in.push_back(newLeaf({O}, -1, 1));
        I.p = {sh, sw, ph, pw};
        break;
      }
      case oAddS: case oSubS: case oMulS: case oSAdd: case oSSub: case oSMul:
        I.s = roundTo(dt, r.uniform(-2, 2));
        break;
      case oDivS:
        I.s = roundTo(dt, r.uniform(0.4, 2) * (r.chance(0.5) ? 1 : -1));
        break;
      case oPowS:
        if (within(x, 0.3, 4)) I.s = roundTo(dt, r.uniform(-2, 3));
        else I.s = (double)r.range(1, 3);
        if (!within(x, -4, 4)) return false;
        break;
      case oSDiv:
        if (!away(x, 0.4)) return false;
        I.s = roundTo(dt, r.uniform(-2, 2));
        break;
    }
    return push(I);
  }
  bool push(Instr I) {
    std::vector<const RT*> a;
    for (auto k : I.in) a.push_back(&v[k].val);
    if (I.op == oDropout) I.aux = RT(a[0]->shape, 1);
    RT y = evalRef(I, a);
    if (y.numel() > maxNumel * 2 || y.dim() > 5 || y.numel() == 0 || !within(y, -lim, lim)) return false;
    Var o;
    o.req = false;
    o.deps.assign(v.size() + 1, 0);
    for (auto k : I.in) {
      o.req |= v[k].req;
      for (size_t i = 0; i < v[k].deps.size(); i++) o.deps[i] |= v[k].deps[i];
    }
    if (!recording) {
      o.detached = true;
      o.req = false;
      o.deps.assign(o.deps.size(), 0);
    }
    if (lib) {
      std::vector<Tensor> ta;
      for (auto k : I.in) ta.push_back(v[k].t);
      // in-place forms keep the leaf or the requirement of the handle they are applied to
      bool ipOk = !v[I.in[0]].leaf && (recording || !v[I.in[0]].req);
      if (I.api == 2 && ipOk) inplaceUsed++;
      o.t = evalLib(I, ta, ipOk);
      if (I.op == oDropout) {
        RT g = get(o.t);
        if (g.shape != a[0]->shape) throw vh::Fail{"grad.dropout.shape", "dropout changed the shape"};
        for (size_t i = 0; i < g.d.size(); i++) I.aux.d[i] = g.d[i] != 0;
        y = evalRef(I, a);
      }
    }
    o.val = y;
    v.push_back(std::move(o));
    for (auto& q : v) q.deps.resize(v.size(), 0);
    I.out = (int)v.size() - 1;
    ins.push_back(I);
    return true;
  }
  // re-evaluates the program in double. delta: added to element (leaf, idx); noise: relative error injected per element
  std::vector<RT> run(int leaf, int64_t idx, double delta, double noise, uint64_t seed) const {
    std::vector<RT> x(v.size());
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].leaf) x[i] = v[i].val;
    if (leaf >= 0) x[leaf].d[idx] += delta;
    for (auto& I : ins) {
      if (v[I.out].detached) {
        x[I.out] = v[I.out].val;
        continue;
      }
      std::vector<const RT*> a;
      std::vector<RT> edge;
      if (noise > 0) {
        // every use of a value gets its own constant error, every result a relative one
        edge.reserve(I.in.size());
        for (size_t j = 0; j < I.in.size(); j++) {
          edge.push_back(x[I.in[j]]);
          auto& base = v[I.in[j]].val.d;
          for (size_t q = 0; q < edge[j].d.size(); q++) {
            double u = (double)(vh::mix(seed ^ (I.out * 7000003ull + j * 99991 + q * 17 + 5)) >> 11) * (1.0 / 9007199254740992.0) * 2 - 1;
            edge[j].d[q] += noise * u * fabs(base[q]);
          }
        }
        for (auto& q : edge) a.push_back(&q);
      } else
        for (auto k : I.in) a.push_back(&x[k]);
      x[I.out] = evalRef(I, a);
      if (noise > 0)
        for (size_t q = 0; q < x[I.out].d.size(); q++) {
          double u = (double)(vh::mix(seed ^ (I.out * 1000003ull + q)) >> 11) * (1.0 / 9007199254740992.0) * 2 - 1;
          x[I.out].d[q] *= 1 + noise * u;
        }
    }
    return x;
  }
  static double dot(const RT& a, const RT& w) {
    double s = 0;
    for (size_t i = 0; i < a.d.size(); i++) s += a.d[i] * w.d[i];
    return s;
  }
  // d <W, v[root]> / d v[leaf][idx]; false if the function is not smooth enough there
  bool fd(int root, const RT& W, int leaf, int64_t idx, double& out, double noise = 0, uint64_t seed = 0) const {
    double h1 = 2e-5, h2 = 1e-4;
    auto f = [&](double d) { return dot(run(leaf, idx, d, noise, seed)[root], W); };
    double g1 = (f(h1) - f(-h1)) / (2 * h1), g2 = (f(h2) - f(-h2)) / (2 * h2);
    out = (4 * g1 - g2) / 3;
    out = g1;
    return std::isfinite(g1) && std::isfinite(g2) && fabs(g1 - g2) <= 1e-5 * (1 + fabs(g1));
  }
  // reference gradient of every element of the leaf (NaN where it cannot be decided)
  RT grad(int root, const RT& W, int leaf, double noise = 0, uint64_t seed = 0) const {
    RT g(v[leaf].val.shape);
    for (int64_t i = 0; i < g.numel(); i++)
      if (!fd(root, W, leaf, i, g.d[i], noise, seed)) g.d[i] = NAN;
    return g;
  }
};

// compares a library gradient with the reference one; the tolerance is widened only by the measured effect of rounding
inline int compareGrad(const Prog& p, int root, const RT& W, int leaf, const RT& ref, const RT& got, DType dt, const std::string& sig, double extra = 1) {
  if (got.shape != ref.shape) throw vh::Fail{sig + ".shape", fmt("gradient of v%d has shape ", leaf) + shapeStr(got.shape) + " leaf " + shapeStr(ref.shape)};
  double scale = 0;
  for (auto e : ref.d)
    if (!std::isnan(e)) scale = std::max(scale, fabs(e));
  double e = epsOf(dt);
  int n = 0;
  std::vector<RT> noisy;
  for (size_t i = 0; i < ref.d.size(); i++) {
    if (std::isnan(ref.d[i])) continue;
    n++;
    double tol = (e * 60 + 2e-5) * (scale + 0.2) * extra;
    if (fabs(got.d[i] - ref.d[i]) <= tol) continue;
    if (noisy.empty())
      for (int k = 0; k < 8; k++) noisy.push_back(p.grad(root, W, leaf, e * 2, 77 + k));
    double spread = 0;
    for (auto& q : noisy) spread = std::max(spread, std::isnan(q.d[i]) ? 0 : fabs(q.d[i] - ref.d[i]));
    if (fabs(got.d[i] - ref.d[i]) <= tol + 25 * spread) continue;
    throw vh::Fail{sig + ".value", fmt("gradient of v%d element %zu is %.9g expected %.9g (tolerance %.3g); got ", leaf, i, got.d[i], ref.d[i], tol + 25 * spread) +
                                       rtStr(got) + " expected " + rtStr(ref)};
  }
  return n;
}

// backward from v[root] with a random upstream gradient, then compares every leaf
inline int backAndCheck(vh::Case& c, Prog& p, int root, const std::string& sig, double extra = 1) {
  auto& r = c.rng;
  Var& R = p.v[root];
  RT W(R.val.shape, 1);
  Tensor keepW;
  if (R.val.dim() == 0 && r.chance(0.5)) R.t.backward();
  else {
    if (r.chance(0.8))
      for (auto& e : W.d) e = roundTo(p.dt, r.uniform(-1.5, 1.5));
    keepW = r.chance(0.3) ? mkView(r, W, p.dt) : mkPlain(W, p.dt);
    R.t.backward(keepW);
    expectSame(W, get(keepW), sig + ".upstream");
  }
  c.desc = fmt("root v%d W=", root) + rtStr(W, 12) + " program: " + p.str();
  int n = 0;
  for (size_t i = 0; i < p.v.size(); i++) {
    Var& x = p.v[i];
    if (!x.leaf || !x.req) continue;
    bool reach = R.deps[i];
    Tensor g = x.t.grad();
    if (!reach) {
      c.check(!g.defined(), (sig + ".unreached").c_str(), fmt("v%zu is not part of the graph but received a gradient", i));
      continue;
    }
    c.check(g.defined(), (sig + ".missing").c_str(), fmt("v%zu received no gradient", i));
    c.check(g.dtype() == p.dt, (sig + ".dtype").c_str(), fmt("gradient of v%zu has dtype %s", i, dtn(g.dtype())));
    RT ref = p.grad(root, W, (int)i);
    int k = compareGrad(p, root, W, (int)i, ref, get(g), p.dt, sig, extra);
    n += k;
    c.obs("grad.leaves");
    c.obs("grad.elements", k);
    c.obs("grad.undecided", ref.d.size() - k);
  }
  // leaves keep their values
  for (size_t i = 0; i < p.v.size(); i++)
    if (p.v[i].leaf) expectSame(p.v[i].val, get(p.v[i].t), sig + ".leafValue");
  return n;
}

}  // namespace gp
