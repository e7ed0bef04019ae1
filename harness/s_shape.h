// C03: shape, view, joining and indexing operations against index-map references
#pragma once
#include "tt.h"
namespace s_shape {
namespace op = tt::op;
using tt::ArrayView;

static RT permuteRef(const RT& x, const Shape& dims) {
  Shape s(dims.size());
  for (size_t i = 0; i < dims.size(); i++) s[i] = x.shape[normDim(dims[i], dims.size())];
  RT r(s);
  Shape src(dims.size());
  forIdx(s, [&](const Shape& idx, int64_t k) {
    for (size_t i = 0; i < dims.size(); i++) src[normDim(dims[i], dims.size())] = idx[i];
    r.d[k] = x.at(src);
  });
  return r;
}
static RT narrowRef(const RT& x, int64_t dim, int64_t start, int64_t len) {
  Shape s = x.shape;
  s[dim] = len;
  RT r(s);
  forIdx(s, [&](const Shape& idx, int64_t k) {
    Shape j = idx;
    j[dim] += start;
    r.d[k] = x.at(j);
  });
  return r;
}
static RT concatRef(const std::vector<RT>& v, int64_t dim) {
  Shape s = v[0].shape;
  s[dim] = 0;
  for (auto& x : v) s[dim] += x.shape[dim];
  RT r(s);
  int64_t off = 0;
  for (auto& x : v) {
    forIdx(x.shape, [&](const Shape& idx, int64_t k) {
      Shape j = idx;
      j[dim] += off;
      r.at(j) = x.d[k];
    });
    off += x.shape[dim];
  }
  return r;
}
static RT stackRef(const std::vector<RT>& v, int64_t dim) {
  Shape s = v[0].shape;
  s.insert(s.begin() + dim, (int64_t)v.size());
  RT r(s);
  for (size_t i = 0; i < v.size(); i++)
    forIdx(v[i].shape, [&](const Shape& idx, int64_t k) {
      Shape j = idx;
      j.insert(j.begin() + dim, (int64_t)i);
      r.at(j) = v[i].d[k];
    });
  return r;
}
// random factorisation of n
static Shape factor(vh::Rng& r, int64_t n) {
  Shape s;
  while (n > 1 && s.size() < 6) {
    std::vector<int64_t> divs;
    for (int64_t d = 1; d <= n; d++)
      if (n % d == 0) divs.push_back(d);
    int64_t d = r.pick(divs);
    s.push_back(d);
    n /= d;
  }
  if (n > 1) s.back() *= n;
  if (s.empty()) s.push_back(1);
  if (s.size() < 5 && r.chance(0.3)) s.insert(s.begin() + r.range(0, s.size()), 1);
  return s;
}

enum {
  kReshape, kView, kFlatten, kUnflatten, kSqueeze, kSqueezeDims, kUnsqueeze, kPermute, kPermuteAll, kTranspose, kT, kNarrow, kSplit,
  kSplitSec, kChunk, kConcat, kStack, kVstack, kHstack, kExpand, kGather, kScatter, kIndex, kIndexAdv, kTril, kTriu, kIndexSelect,
  kRepeat, kClone, kNumSteps
};
static const char* kNames[] = {"reshape", "view", "flatten", "unflatten", "squeeze", "squeezeDims", "unsqueeze", "permute", "permuteAll",
                               "transpose", "t", "narrow", "split", "splitSections", "chunk", "concat", "stack", "vstack", "hstack", "expand",
                               "gather", "scatter", "index", "indexAdvance", "tril", "triu", "indexSelect", "repeatInterleave", "clone"};

// applies one operation to (x, t); false if it does not apply to this shape
static bool step(vh::Case& c, RT& x, Tensor& t, DType dt, int k) {
  auto& r = c.rng;
  RT x0 = x;
  Tensor t0 = t;
  int64_t nd = x.dim();
  int api = (int)r.range(0, 2);
  std::string d = kNames[k];
  RT ref;
  Tensor out;
  switch (k) {
    case kReshape:
    case kView: {
      if (x.numel() == 0) return false;
      Shape s = factor(r, x.numel());
      Shape arg = s;
      if (r.chance(0.4)) arg[r.range(0, arg.size() - 1)] = -1;
      d += shapeStr(arg);
      ref = RT(s, x.d);
      if (k == kReshape && api == 2) {
        out = t;
        out.reshape_(IntArrayView(arg));
      } else if (k == kReshape)
        out = api ? t.reshape(IntArrayView(arg)) : op::reshape(t, IntArrayView(arg));
      else
        out = api ? t.view(IntArrayView(arg)) : op::view(t, IntArrayView(arg));
      break;
    }
    case kFlatten: {
      int64_t a = 0, b = -1;
      if (nd > 0) {
        a = r.range(0, nd - 1);
        b = r.range(a, nd - 1);
      }
      Shape s;
      if (nd > 0) {
        for (int64_t i = 0; i < a; i++) s.push_back(x.shape[i]);
        int64_t m = 1;
        for (int64_t i = a; i <= b; i++) m *= x.shape[i];
        s.push_back(m);
        for (int64_t i = b + 1; i < nd; i++) s.push_back(x.shape[i]);
        a = maybeNeg(r, a, nd);
        b = maybeNeg(r, b, nd);
      } else
        s = {1};
      d += fmt("(%lld,%lld)", (long long)a, (long long)b);
      ref = RT(s, x.d);
      if (api == 2) {
        out = t;
        out.flatten_(a, b);
      } else
        out = api ? t.flatten(a, b) : op::flatten(t, a, b);
      break;
    }
    case kUnflatten: {
      if (nd == 0 || nd > 4) return false;
      int64_t a = r.range(0, nd - 1);
      if (x.shape[a] == 0) return false;
      Shape f = factor(r, x.shape[a]);
      if ((int64_t)f.size() + nd - 1 > 8) return false;
      Shape s(x.shape.begin(), x.shape.begin() + a);
      s.insert(s.end(), f.begin(), f.end());
      s.insert(s.end(), x.shape.begin() + a + 1, x.shape.end());
      if (r.chance(0.4)) f[r.range(0, f.size() - 1)] = -1;
      int64_t aa = maybeNeg(r, a, nd);
      d += fmt("(%lld,", (long long)aa) + shapeStr(f) + ")";
      ref = RT(s, x.d);
      if (api == 2) {
        out = t;
        out.unflatten_(aa, IntArrayView(f));
      } else
        out = api ? t.unflatten(aa, IntArrayView(f)) : op::unflatten(t, aa, IntArrayView(f));
      break;
    }
    case kSqueeze: {
      if (nd == 0) return false;
      int64_t a = r.range(0, nd - 1);
      for (int q = 0; q < 3 && x.shape[a] != 1; q++) a = r.range(0, nd - 1);
      Shape s = x.shape;
      if (s[a] == 1) s.erase(s.begin() + a);
      int64_t aa = maybeNeg(r, a, nd);
      d += fmt("(%lld)", (long long)aa);
      ref = RT(s, x.d);
      if (api == 2) {
        out = t;
        out.squeeze_(aa);
      } else
        out = t.squeeze(aa);
      break;
    }
    case kSqueezeDims: {
      Shape dims, s;
      std::vector<bool> sel(nd, false);
      for (int64_t i = 0; i < nd; i++)
        if (r.chance(0.6)) {
          sel[i] = true;
          dims.push_back(maybeNeg(r, i, nd));
        }
      r.shuffle(dims);
      for (int64_t i = 0; i < nd; i++)
        if (!(x.shape[i] == 1 && (sel[i] || dims.empty()))) s.push_back(x.shape[i]);
      d += shapeStr(dims);
      ref = RT(s, x.d);
      out = api ? t.squeeze(IntArrayView(dims)) : op::squeeze(t, IntArrayView(dims));
      break;
    }
    case kUnsqueeze: {
      if (nd >= 7) return false;
      int64_t a = r.range(0, nd);
      Shape s = x.shape;
      s.insert(s.begin() + a, 1);
      int64_t aa = r.chance(0.4) ? a - nd - 1 : a;
      d += fmt("(%lld)", (long long)aa);
      ref = RT(s, x.d);
      if (api == 2) {
        out = t;
        out.unsqueeze_(aa);
      } else
        out = api ? t.unsqueeze(aa) : op::unsqueeze(t, aa);
      break;
    }
    case kPermute: {
      if (nd == 0) return false;
      Shape dims(nd);
      for (int64_t i = 0; i < nd; i++) dims[i] = i;
      r.shuffle(dims);
      ref = permuteRef(x, dims);
      for (auto& q : dims) q = maybeNeg(r, q, nd);
      d += shapeStr(dims);
      if (api == 2) {
        out = t;
        out.permute_(IntArrayView(dims));
      } else
        out = api ? t.permute(IntArrayView(dims)) : op::permute(t, IntArrayView(dims));
      break;
    }
    case kPermuteAll: {
      if (nd == 0) return false;
      Shape dims(nd);
      for (int64_t i = 0; i < nd; i++) dims[i] = nd - 1 - i;
      ref = permuteRef(x, dims);
      if (api == 2) {
        out = t;
        out.permute_();
      } else
        out = api ? t.permute() : op::permuteAll(t);
      break;
    }
    case kTranspose: {
      if (nd < 1) return false;
      int64_t a = r.range(0, nd - 1), b = r.range(0, nd - 1);
      Shape dims(nd);
      for (int64_t i = 0; i < nd; i++) dims[i] = i;
      std::swap(dims[a], dims[b]);
      ref = permuteRef(x, dims);
      a = maybeNeg(r, a, nd);
      b = maybeNeg(r, b, nd);
      d += fmt("(%lld,%lld)", (long long)a, (long long)b);
      if (api == 2) {
        out = t;
        out.transpose_(a, b);
      } else
        out = api ? t.transpose(a, b) : op::transpose(t, a, b);
      break;
    }
    case kT: {
      if (nd != 2) return false;
      ref = permuteRef(x, {1, 0});
      if (api == 2) {
        out = t;
        out.t_();
      } else
        out = api ? t.t() : op::transpose2d(t);
      break;
    }
    case kNarrow: {
      if (nd == 0) return false;
      int64_t a = r.range(0, nd - 1);
      if (x.shape[a] == 0) return false;
      int64_t st = r.range(0, x.shape[a] - 1), len = r.range(1, x.shape[a] - st);
      ref = narrowRef(x, a, st, len);
      int64_t aa = maybeNeg(r, a, nd), ss = r.chance(0.3) ? st - x.shape[a] : st;
      d += fmt("(%lld,%lld,%lld)", (long long)aa, (long long)ss, (long long)len);
      out = api ? t.narrow(aa, ss, len) : op::narrow(t, aa, ss, len);
      break;
    }
    case kSplit:
    case kSplitSec:
    case kChunk: {
      if (nd == 0) return false;
      int64_t a = r.range(0, nd - 1), n = x.shape[a];
      if (n == 0) return false;
      Shape sec;
      int64_t arg = 0;
      if (k == kSplit) {
        std::vector<int64_t> divs;
        for (int64_t q = 1; q <= n; q++)
          if (n % q == 0) divs.push_back(q);
        arg = r.pick(divs);
        for (int64_t q = 0; q < n; q += arg) sec.push_back(arg);
      } else if (k == kSplitSec) {
        int64_t left = n;
        while (left > 0) {
          int64_t q = r.range(1, left);
          sec.push_back(q);
          left -= q;
        }
      } else {
        arg = r.range(1, n + 2);
        int64_t q = std::min(arg, n);
        int64_t sz = (n + q - 1) / q;
        for (int64_t st = 0; st < n; st += sz) sec.push_back(std::min(sz, n - st));
      }
      int64_t aa = maybeNeg(r, a, nd);
      d += fmt("(%lld,dim %lld)", (long long)arg, (long long)aa) + shapeStr(sec);
      std::vector<Tensor> o;
      if (k == kSplit) o = api ? t.split(arg, aa) : op::split(t, arg, aa);
      else if (k == kSplitSec) o = api ? t.split(IntArrayView(sec), aa) : op::splitSections(t, IntArrayView(sec), aa);
      else o = api ? t.chunk(arg, aa) : op::chunk(t, arg, aa);
      c.check(o.size() == sec.size(), (std::string("shape.") + kNames[k] + ".count").c_str(), d + fmt(": %zu parts, expected %zu", o.size(), sec.size()));
      int64_t st = 0;
      std::vector<RT> parts;
      for (size_t i = 0; i < sec.size(); i++) {
        parts.push_back(narrowRef(x, a, st, sec[i]));
        st += sec[i];
        expectT(parts[i], o[i], dt, exact(), std::string("shape.") + kNames[k]);
      }
      size_t pick = r.range(0, sec.size() - 1);
      ref = parts[pick];
      out = o[pick];
      break;
    }
    case kConcat:
    case kStack:
    case kVstack:
    case kHstack: {
      if (nd == 0 && k != kStack) return false;
      if (nd >= 7) return false;
      int n = (int)r.range(1, 4);
      int64_t a = k == kStack ? r.range(0, nd) : k == kConcat ? r.range(0, nd - 1) : k == kVstack ? 0 : (nd == 1 ? 0 : 1);
      bool st = k == kStack || (k == kVstack && nd == 1);
      std::vector<RT> parts;
      std::vector<Tensor> ts;
      int pos = (int)r.range(0, n - 1);
      for (int i = 0; i < n; i++) {
        if (i == pos) {
          parts.push_back(x);
          ts.push_back(t);
        } else {
          Shape s = x.shape;
          if (!st) s[a] = r.range(1, 4);
          RT p = genPayload(r, s, dt);
          ts.push_back(mkView(r, p, dt));
          parts.push_back(p);
        }
      }
      ref = st ? stackRef(parts, a) : concatRef(parts, a);
      if (ref.numel() > 4000) return false;
      int64_t aa = k == kStack ? (r.chance(0.4) ? a - nd - 1 : a) : maybeNeg(r, a, nd);
      d += fmt("(n=%d pos=%d dim=%lld)", n, pos, (long long)aa);
      ArrayView<Tensor> av(ts);
      switch (k) {
        case kConcat: out = api ? tt::function::concat(av, aa) : op::concat(av, aa); break;
        case kStack: out = api ? tt::function::stack(av, aa) : op::stack(av, aa); break;
        case kVstack: out = api ? tt::function::vstack(av) : op::vstack(av); break;
        default: out = api ? tt::function::hstack(av) : op::hstack(av);
      }
      for (int i = 0; i < n; i++) expectSame(parts[i], get(ts[i]), std::string("shape.") + kNames[k] + ".input");
      break;
    }
    case kExpand: {
      if (x.numel() == 0 || nd >= 6) return false;
      Shape s = x.shape, arg;
      for (auto& q : s)
        if (q == 1 && r.chance(0.6)) q = r.range(2, 4);
      arg = s;
      for (size_t i = 0; i < arg.size(); i++)
        if (arg[i] == x.shape[i] && r.chance(0.3)) arg[i] = -1;
      int64_t extra = r.range(0, 2);
      for (int64_t i = 0; i < extra; i++) {
        int64_t q = r.range(1, 3);
        s.insert(s.begin(), q);
        arg.insert(arg.begin(), q);
      }
      if (numelOf(s) > 3000) return false;
      d += shapeStr(arg);
      ref = bcastTo(x, s);
      out = api ? tt::function::expand(t, IntArrayView(arg)) : op::expand(t, IntArrayView(arg));
      break;
    }
    case kGather: {
      if (nd == 0 || x.numel() == 0) return false;
      int64_t a = r.range(0, nd - 1);
      Shape is = x.shape;
      for (int64_t i = 0; i < nd; i++) is[i] = i == a ? r.range(1, 5) : r.range(1, is[i]);
      RT idx(is);
      for (auto& v : idx.d) v = (double)r.range(-x.shape[a], x.shape[a] - 1);
      ref = RT(is);
      forIdx(is, [&](const Shape& id, int64_t q) {
        Shape j = id;
        j[a] = normDim((int64_t)idx.d[q], x.shape[a]);
        ref.d[q] = x.at(j);
      });
      Tensor it = mkView(r, idx, DType::Int64);
      int64_t aa = maybeNeg(r, a, nd);
      d += fmt("(%lld,", (long long)aa) + rtStr(idx) + ")";
      out = api ? tt::function::gather(t, aa, it) : op::gather(t, aa, it);
      expectSame(idx, get(it), "shape.gather.index");
      break;
    }
    case kScatter: {
      if (nd == 0 || x.numel() == 0) return false;
      int64_t a = r.range(0, nd - 1);
      Shape is = x.shape;
      for (int64_t i = 0; i < nd; i++) is[i] = r.range(1, is[i]);
      // along the axis every target is used at most once
      RT idx(is);
      Shape outer = is;
      outer[a] = 1;
      forIdx(outer, [&](const Shape& id, int64_t) {
        std::vector<int64_t> p(x.shape[a]);
        for (size_t i = 0; i < p.size(); i++) p[i] = (int64_t)i;
        r.shuffle(p);
        Shape j = id;
        for (int64_t q = 0; q < is[a]; q++) {
          j[a] = q;
          idx.at(j) = (double)(r.chance(0.2) ? p[q] - x.shape[a] : p[q]);
        }
      });
      RT src = genPayload(r, is, dt);
      ref = x;
      forIdx(is, [&](const Shape& id, int64_t q) {
        Shape j = id;
        j[a] = normDim((int64_t)idx.d[q], x.shape[a]);
        ref.at(j) = src.d[q];
      });
      Tensor it = mkView(r, idx, DType::Int64), stn = mkView(r, src, dt);
      int64_t aa = maybeNeg(r, a, nd);
      d += fmt("(api %d,%lld,", api, (long long)aa) + rtStr(idx) + "," + rtStr(src) + ")";
      if (api == 0) out = op::scatter(t, aa, it, stn);
      else if (api == 1) out = tt::function::scatter(t, aa, it, stn);
      else {
        out = t.clone();
        out.scatter_(aa, it, stn);
      }
      expectSame(idx, get(it), "shape.scatter.index");
      expectSame(src, get(stn), "shape.scatter.src");
      break;
    }
    case kIndex: {
      if (nd == 0 || x.numel() == 0) return false;
      int64_t n = r.range(1, nd);
      Shape ix(n);
      RT cur = x;
      for (int64_t i = 0; i < n; i++) {
        int64_t q = r.range(0, x.shape[i] - 1);
        cur = narrowRef(cur, i, q, 1);
        ix[i] = r.chance(0.3) ? q - x.shape[i] : q;
      }
      ref = RT(Shape(x.shape.begin() + n, x.shape.end()), cur.d);
      d += shapeStr(ix);
      out = op::index(t, IntArrayView(ix));
      break;
    }
    case kIndexAdv: {
      if (nd == 0 || x.numel() == 0) return false;
      int64_t n = r.range(1, nd);
      Shape is = genShape(r, 2, 8, false);
      std::vector<RT> ixs;
      std::vector<Tensor> its;
      for (int64_t i = 0; i < n; i++) {
        RT q(is);
        for (auto& v : q.d) v = (double)r.range(-x.shape[i], x.shape[i] - 1);
        ixs.push_back(q);
        its.push_back(mkView(r, q, DType::Int64));
      }
      Shape s = is;
      s.insert(s.end(), x.shape.begin() + n, x.shape.end());
      if (s.size() > 8) return false;
      ref = RT(s);
      forIdx(s, [&](const Shape& id, int64_t q) {
        Shape li(id.begin(), id.begin() + is.size()), j;
        for (int64_t i = 0; i < n; i++) j.push_back(normDim((int64_t)ixs[i].at(li), x.shape[i]));
        j.insert(j.end(), id.begin() + is.size(), id.end());
        ref.d[q] = x.at(j);
      });
      d += fmt("(%lld idx tensors ", (long long)n) + rtStr(ixs[0]) + ")";
      out = op::indexAdvance(t, ArrayView<Tensor>(its));
      break;
    }
    case kTril:
    case kTriu: {
      if (nd < 2) return false;
      int64_t dg = r.range(-4, 4);
      ref = x;
      forIdx(x.shape, [&](const Shape& id, int64_t q) {
        bool keep = k == kTril ? id[nd - 1] <= id[nd - 2] + dg : id[nd - 1] >= id[nd - 2] + dg;
        if (!keep) ref.d[q] = 0;
      });
      d += fmt("(%lld)", (long long)dg);
      if (k == kTril) out = api ? t.tril(dg) : op::tril(t, dg);
      else out = api ? t.triu(dg) : op::triu(t, dg);
      break;
    }
    case kIndexSelect: {
      if (nd == 0 || x.numel() == 0) return false;
      int64_t a = r.range(0, nd - 1), n = r.range(1, 6);
      RT idx({n});
      for (auto& v : idx.d) v = (double)r.range(0, x.shape[a] - 1);
      std::vector<RT> parts;
      for (auto v : idx.d) parts.push_back(narrowRef(x, a, (int64_t)v, 1));
      ref = concatRef(parts, a);
      int64_t aa = maybeNeg(r, a, nd);
      d += fmt("(%lld,", (long long)aa) + rtStr(idx) + ")";
      Tensor it = mkView(r, idx, DType::Int64);
      out = api ? tt::function::indexSelect(t, aa, it) : op::indexSelect(t, aa, it);
      break;
    }
    case kRepeat: {
      if (nd == 0 || x.numel() == 0 || x.numel() > 500) return false;
      int64_t a = r.range(0, nd - 1), n = r.range(1, 4);
      Shape s = x.shape;
      s[a] *= n;
      ref = RT(s);
      forIdx(s, [&](const Shape& id, int64_t q) {
        Shape j = id;
        j[a] /= n;
        ref.d[q] = x.at(j);
      });
      int64_t aa = maybeNeg(r, a, nd);
      d += fmt("(%lld,%lld)", (long long)n, (long long)aa);
      out = api ? tt::function::repeatInterleave(t, n, aa) : op::repeatInterleave(t, n, aa);
      break;
    }
    default:
      ref = x;
      out = t.clone();
  }
  c.desc += (c.desc.empty() ? "" : " -> ") + d;
  expectT(ref, out, dt, exact(), std::string("shape.") + kNames[k]);
  expectSame(x0, get(t0), std::string("shape.") + kNames[k] + ".input");
  c.check(out.numel() == ref.numel() && out.dim() == ref.dim(), "shape.numel");
  c.obs(std::string("shape.") + kNames[k]);
  x = ref;
  t = out;
  return true;
}

static Shape shapeFor(vh::Case& c) {
  auto& r = c.rng;
  if (r.chance(0.1)) {
    Shape s((size_t)r.range(5, 7));
    for (auto& d : s) d = r.range(1, 3);
    return s;
  }
  if (r.chance(0.1)) return Shape{r.range(1, 40), r.range(1, 40)};
  return genWide(r, 4, 200);
}

SUITE(shape_single, 1000) {
  auto& r = c.rng;
  int k = (int)(c.index % kNumSteps);
  DType t = allTypes()[(c.index / kNumSteps) % 6];
  for (int tries = 0; tries < 6; tries++) {
    RT x = genPayload(r, shapeFor(c), t);
    c.desc = std::string(dtn(t)) + rtStr(x);
    bool v;
    Tensor a = mkView(r, x, t, &v);
    Shape s0 = x.shape;
    if (step(c, x, a, t, k)) {
      c.seen(std::string(kNames[k]) + dtn(t) + shapeStr(s0) + shapeStr(x.shape) + (v ? "v" : "p"));
      if (c.index % 211 == 0) c.sample(c.desc.substr(0, 300));
      return;
    }
  }
}

SUITE(shape_chain, 600) {
  auto& r = c.rng;
  DType t = r.pick(allTypes());
  RT x = genPayload(r, shapeFor(c), t);
  Tensor a = mkView(r, x, t);
  c.desc = std::string(dtn(t)) + rtStr(x);
  int n = (int)r.range(2, 9);
  // earlier links of the chain stay as they were
  std::vector<std::pair<RT, Tensor>> hist{{x, a}};
  std::string key = dtn(t);
  for (int i = 0; i < n; i++) {
    int k = (int)r.range(0, kNumSteps - 1);
    if (x.numel() > 600) break;
    if (step(c, x, a, t, k)) key += std::string(kNames[k]) + shapeStr(x.shape);
    hist.push_back({x, a});
  }
  for (auto& h : hist) expectSame(h.first, get(h.second), "shape.chain.kept");
  c.seen(key);
  c.obs("shape.chainLength", hist.size() - 1);
  if (c.index % 101 == 0) c.sample(c.desc.substr(0, 350));
}

SUITE(shape_indexput, 500) {
  auto& r = c.rng;
  DType t = r.pick(allTypes());
  RT x;
  do x = genPayload(r, genWide(r, 4, 120, false), t);
  while (x.numel() == 0);
  int64_t nd = x.dim();
  Tensor a = mkView(r, x, t);
  c.desc = std::string(dtn(t)) + rtStr(x);
  int64_t n = r.range(1, nd);
  int mode = (int)r.range(0, 3);
  RT ref = x;
  if (mode < 2) {  // fixed leading indices
    Shape ix(n), nix(n);
    for (int64_t i = 0; i < n; i++) {
      nix[i] = r.range(0, x.shape[i] - 1);
      ix[i] = r.chance(0.3) ? nix[i] - x.shape[i] : nix[i];
    }
    Shape sub(x.shape.begin() + n, x.shape.end());
    bool scalar = mode == 0;
    RT v = genPayload(r, scalar ? Shape{} : sub, t);
    forIdx(sub, [&](const Shape& id, int64_t q) {
      Shape j = nix;
      j.insert(j.end(), id.begin(), id.end());
      ref.at(j) = scalar || sub.empty() ? v.d[0] : v.d[q];
    });
    c.desc += " indexPut" + shapeStr(ix) + "=" + rtStr(v);
    Tensor vt = mkView(r, v, t);
    op::indexPut(a, IntArrayView(ix), vt);
    expectT(ref, a, t, exact(), "shape.indexPut");
    expectSame(v, get(vt), "shape.indexPut.value");
    c.obs("shape.indexPut");
    c.seen(fmt("put%d%s", mode, dtn(t)) + shapeStr(x.shape) + shapeStr(ix));
  } else {
    bool scalar = mode == 2;
    // distinct targets
    Shape lead(x.shape.begin(), x.shape.begin() + n);
    int64_t tot = numelOf(lead);
    std::vector<int64_t> all(tot);
    for (int64_t i = 0; i < tot; i++) all[i] = i;
    r.shuffle(all);
    int64_t cnt = r.range(1, std::min<int64_t>(tot, 6));
    std::vector<RT> ixs(n, RT(Shape{cnt}));
    std::vector<Shape> tgt;
    for (int64_t k = 0; k < cnt; k++) {
      int64_t f = all[k];
      Shape q(n);
      for (int64_t i = n - 1; i >= 0; i--) {
        q[i] = f % lead[i];
        f /= lead[i];
      }
      for (int64_t i = 0; i < n; i++) ixs[i].d[k] = (double)(r.chance(0.3) ? q[i] - lead[i] : q[i]);
      tgt.push_back(q);
    }
    Shape sub(x.shape.begin() + n, x.shape.end());
    Shape vs{cnt};
    vs.insert(vs.end(), sub.begin(), sub.end());
    RT v = genPayload(r, scalar ? Shape{} : vs, t);
    for (int64_t k = 0; k < cnt; k++)
      forIdx(sub, [&](const Shape& id, int64_t q) {
        Shape j = tgt[k];
        j.insert(j.end(), id.begin(), id.end());
        ref.at(j) = scalar ? v.d[0] : v.d[k * numelOf(sub) + q];
      });
    std::vector<Tensor> its;
    for (auto& q : ixs) its.push_back(mkView(r, q, DType::Int64));
    Tensor vt = mkView(r, v, t);
    c.desc += fmt(" indexPutAdvance n=%lld ", (long long)n) + rtStr(ixs[0]) + "=" + rtStr(v);
    op::indexPutAdvance(a, ArrayView<Tensor>(its), vt);
    expectT(ref, a, t, exact(), "shape.indexPutAdvance");
    c.obs("shape.indexPutAdvance");
    c.seen(fmt("putadv%d%s", mode, dtn(t)) + shapeStr(x.shape) + fmt("%lld %lld", (long long)n, (long long)cnt));
  }
}

SUITE(shape_meta, 120) {
  auto& r = c.rng;
  DType t = r.pick(allTypes());
  Shape s = shapeFor(c);
  RT x = genPayload(r, s, t);
  Tensor a = mkView(r, x, t);
  c.desc = "meta " + shapeStr(s);
  int64_t st = 1, es = t == DType::Float32 || t == DType::Int32 ? 4 : t == DType::Int64 ? 8 : t == DType::Bool ? 1 : 2;
  c.check(a.dim() == (int64_t)s.size() && a.numel() == x.numel() && a.nbytes() == x.numel() * es, "shape.meta");
  for (int64_t i = (int64_t)s.size() - 1; i >= 0; i--) {
    c.check(a.shape(i) == s[i] && a.size(i) == s[i] && a.shape(i - (int64_t)s.size()) == s[i], "shape.meta.shape");
    c.check(a.stride(i) == st, "shape.meta.stride", fmt("stride(%lld)=%lld expected %lld", (long long)i, (long long)a.stride(i), (long long)st));
    st *= s[i];
  }
  // expanding a scalar or reading a single element
  if (x.numel() > 0) {
    Shape ix;
    for (auto d : s) ix.push_back(r.range(0, d - 1));
    if (!ix.empty()) {
      Tensor e = op::index(a, IntArrayView(ix));
      float got = e.item<float>(), want = (float)x.at(ix);
      c.check(got == want || (std::isnan(got) && std::isnan(want)), "shape.item");
      if (t == DType::Int64) c.check(e.item<int64_t>() == (int64_t)x.at(ix), "shape.item64");
    }
    Tensor lk = Tensor::zerosLike(a);
    expectT(RT(s, 0), lk, t, exact(), "shape.zerosLike");
  }
  c.obs("shape.meta");
  c.seen("meta" + shapeStr(s) + dtn(t));
}
}  // namespace s_shape
