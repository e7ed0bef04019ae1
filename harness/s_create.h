// C33: creation, filling, copying and conversion of tensors
#pragma once
#include <climits>
#include "tt.h"
namespace s_create {
using namespace vh;
namespace op = tt::op;
using tt::Half;
using tt::BFloat16;
inline double conv(DType to, double v) {
  switch (to) {
    case DType::Bool: return v != 0;
    case DType::Int32: case DType::Int64: return trunc(v);
    default: return roundTo(to, v);
  }
}
// every way a shape can look: scalars, ranks up to the limit, empty dimensions, sizes around vector widths, large
inline Shape anyShape(Rng& r) {
  switch (r.range(0, 11)) {
    case 0: return {};
    case 1: {
      Shape s(8);
      for (auto& d : s) d = r.range(1, 2);
      return s;
    }
    case 2: {
      Shape s((size_t)r.range(1, 5));
      for (auto& d : s) d = r.range(1, 4);
      s[r.range(0, (int64_t)s.size() - 1)] = 0;
      return s;
    }
    case 3: return {r.range(0, 70)};
    case 4: return {r.range(1, 9) * 256 + r.range(-1, 1)};
    case 5: {
      Shape s((size_t)r.range(5, 8));
      for (auto& d : s) d = r.range(1, 3);
      return s;
    }
    default: return genWide(r, 5, 300);
  }
}
inline void meta(vh::Case& c, const Tensor& t, const Shape& s, DType d, bool rg, const char* sig) {
  std::string gs = std::string(sig) + ".meta";
  const char* g = gs.c_str();
  c.check(t.defined(), g, "undefined");
  c.check(t.dtype() == d, g, fmt("data type %s instead of %s", dtn(t.dtype()), dtn(d)));
  c.check(toShape(t.shape()) == s && toShape(t.sizes()) == s, g, "shape " + shapeStr(toShape(t.shape())) + " instead of " + shapeStr(s));
  int64_t n = numelOf(s), e = d == DType::Float32 || d == DType::Int32 ? 4 : d == DType::Int64 ? 8 : d == DType::Bool ? 1 : 2;
  c.check(t.numel() == n && t.nbytes() == n * e && t.dim() == (int64_t)s.size() && t.isScalar() == s.empty(), g, fmt("numel %lld nbytes %lld dim %lld", (long long)t.numel(), (long long)t.nbytes(), (long long)t.dim()));
  int64_t st = 1;
  bool empty = n == 0;
  for (int64_t i = (int64_t)s.size() - 1; i >= 0; i--) {
    if (!empty) c.check(t.stride(i) == st && t.strides()[i] == st && t.stride(i - (int64_t)s.size()) == st, g, fmt("stride of dim %lld is %lld, expected %lld", (long long)i, (long long)t.stride(i), (long long)st));
    c.check(t.size(i) == s[i] && t.shape(i - (int64_t)s.size()) == s[i], g, "size(i)");
    st *= s[i];
  }
  c.check(t.device().isCpu(), g, "device");
  c.check(t.requiresGrad() == rg && (!rg || (t.isLeaf() && !t.grad().defined())), g, "gradient flag");
}
template <typename T> struct Tag { using type = T; };
template <typename F>
inline void withType(DType t, F f) {
  switch (t) {
    case DType::Float32: f(Tag<float>{}); break;
    case DType::Float16: f(Tag<Half>{}); break;
    case DType::BFloat16: f(Tag<BFloat16>{}); break;
    case DType::Int32: f(Tag<int32_t>{}); break;
    case DType::Int64: f(Tag<int64_t>{}); break;
    default: f(Tag<uint8_t>{});
  }
}
template <typename T>
inline T rawVal(Rng& r) {
  DType d = tt::TypeToDType_v<T>;
  if constexpr (std::is_same_v<T, uint8_t>) return (uint8_t)r.range(0, 1);
  else if constexpr (std::is_integral_v<T>) {
    if (r.chance(0.1)) return r.pick({std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)-1, (T)0});
    return (T)(r.chance(0.3) ? (int64_t)r.next() : r.range(-100, 100));
  } else {
    double v = r.chance(0.1) ? r.pick<double>({INFINITY, -INFINITY, -0.0, 0.0, 1e-30}) : r.uniform(-100, 100);
    return static_cast<T>((float)roundTo(d, v));
  }
}
template <typename T>
inline double val(T v) {
  if constexpr (std::is_arithmetic_v<T>) return (double)v;
  else return decodeAt(&v, tt::TypeToDType_v<T>, 0);
}
template <typename T>
inline bool sameBits(const T* a, const T* b, size_t n) { return n == 0 || memcmp((const void*)a, (const void*)b, n * sizeof(T)) == 0; }
inline tt::Scalar mkScalar(Rng& r, DType t, double lo, double hi, double& v) {
  switch (t) {
    case DType::Float32: v = (float)r.uniform(lo, hi); if (r.chance(0.2)) v = 0; return tt::Scalar((float)v);
    case DType::Float16: v = roundHalf(r.uniform(lo, hi)); return tt::Scalar(Half((float)v));
    case DType::BFloat16: v = roundBF16(r.uniform(lo, hi)); return tt::Scalar(BFloat16((float)v));
    case DType::Int32: v = (double)r.range((int64_t)lo, (int64_t)hi); return tt::Scalar((int32_t)v);
    case DType::Int64: v = (double)r.range((int64_t)lo, (int64_t)hi); return tt::Scalar((int64_t)v);
    default: v = (double)r.range(0, 1); return tt::Scalar(v != 0);
  }
}
template <typename T>
inline void nested(vh::Case& c, bool rg) {
  auto& r = c.rng;
  DType d = tt::TypeToDType_v<T>;
  int k = (int)r.range(1, 4);
  Shape s;
  for (int i = 0; i < (k == 4 ? 1 : k); i++) s.push_back(r.chance(0.1) ? 1 : r.range(1, 7));
  if (k == 4) s = anyShape(r);
  else if (r.chance(0.1)) s.back() = 0;
  std::vector<T> flat((size_t)numelOf(s));
  for (auto& v : flat) v = rawVal<T>(r);
  Tensor t;
  bool withOpt = rg || r.chance(0.5);
  tt::Options o = optOf(d, rg);
  size_t at = 0;
  if (k == 4) {
    std::vector<T> src = flat;
    t = withOpt ? Tensor(src, IntArrayView(s), o) : Tensor(src, IntArrayView(s));
    for (auto& v : src) v = static_cast<T>(1);
  } else if (k == 1) {
    std::vector<T> src = flat;
    t = withOpt ? Tensor(src, o) : Tensor(src);
    for (auto& v : src) v = static_cast<T>(1);
  } else if (k == 2) {
    std::vector<std::vector<T>> src(s[0], std::vector<T>(s[1]));
    for (auto& a : src)
      for (auto& v : a) v = flat[at++];
    t = withOpt ? Tensor(src, o) : Tensor(src);
    for (auto& a : src)
      for (auto& v : a) v = static_cast<T>(1);
  } else {
    std::vector<std::vector<std::vector<T>>> src(s[0], std::vector<std::vector<T>>(s[1], std::vector<T>(s[2])));
    for (auto& a : src)
      for (auto& b : a)
        for (auto& v : b) v = flat[at++];
    t = withOpt ? Tensor(src, o) : Tensor(src);
    for (auto& a : src)
      for (auto& b : a)
        for (auto& v : b) v = static_cast<T>(1);
  }
  c.desc = fmt("list of %s rank %d ", dtn(d), k) + shapeStr(s);
  meta(c, t, s, d, rg, "create.list");
  std::vector<T> back = t.template toList<T>();
  c.check(back.size() == flat.size() && sameBits(back.data(), flat.data(), flat.size()), "create.list.values", "the list that comes back is another one");
  // lists of the other types
  bool bounded = true;
  for (auto v : flat) bounded = bounded && std::isfinite(val(v)) && fabs(val(v)) < 60000;
  if (bounded)
    for (DType u : allTypes())
      withType(u, [&](auto tag) {
        using U = typename decltype(tag)::type;
        auto l = t.template toList<U>();
        c.check(l.size() == flat.size(), "create.toList.size", "length");
        for (size_t i = 0; i < l.size(); i++)
          if (val(l[i]) != conv(u, val(flat[i]))) c.fail("create.toList", fmt("element %zu of a %s tensor is %.9g, as %s %.9g", i, dtn(d), val(flat[i]), dtn(u), val(l[i])));
        if (flat.size() == 1) {
          c.check(val(t.template item<U>()) == conv(u, val(flat[0])), "create.item", fmt("item of %.9g as %s", val(flat[0]), dtn(u)));
          c.obs("create.items");
        }
      });
  if (!back.empty()) back[0] = static_cast<T>(1);
  std::vector<T> again = t.template toList<T>();
  c.check(sameBits(again.data(), flat.data(), flat.size()), "create.list.alias", "the tensor changed with a list taken from it");
  c.obs("create.lists");
  c.obs("create.elements", (int64_t)flat.size());
  c.seen(c.desc);
}
SUITE(create_list, 400) {
  bool rg = c.rng.chance(0.3);
  DType d = c.rng.pick(allTypes());
  withType(d, [&](auto tag) { nested<typename decltype(tag)::type>(c, rg); });
}
SUITE(create_constant, 500) {
  auto& r = c.rng;
  Shape s = anyShape(r);
  DType d = r.pick(allTypes()), sd = r.pick(allTypes());
  bool rg = r.chance(0.3), viaDefault = r.chance(0.25);
  double v = 0;
  tt::Scalar sc = mkScalar(r, sd, -500, 500, v);
  int k = (int)r.range(0, 7);
  c.desc = fmt("constant %d %s%s from %s %.9g ", k, dtn(d), viaDefault ? " by default" : "", dtn(sd), v) + shapeStr(s);
  double w = conv(d, v);
  auto o = [&] { return viaDefault ? tt::Options().requiresGrad(rg) : optOf(d, rg); };
  IntArrayView sv(s);
  struct Restore {
    ~Restore() { tt::setDefaultDType(DType::Float32); }
  } restore;
  if (viaDefault) tt::setDefaultDType(d);
  Tensor t;
  double expect = 0;
  switch (k) {
    case 0: t = Tensor::full(sv, sc, o()), expect = w; break;
    case 1: t = Tensor::zeros(sv, o()), expect = 0; break;
    case 2: t = Tensor::ones(sv, o()), expect = 1; break;
    case 3: t = Tensor::scalar(sc, o()), expect = w, s = {}; break;
    case 4: t = Tensor::empty(sv, o()); break;
    default: {
      DType ld = r.pick(allTypes());
      bool lrg = r.chance(0.3), own = r.chance(0.5);
      Tensor like = lrg ? mkPlain(genRT(r, s, ld), ld, true) : mkView(r, genRT(r, s, ld), ld);
      RT before = get(like);
      std::optional<tt::Options> lo;
      if (own) lo = o();
      t = k == 5 ? Tensor::fullLike(like, sc, lo) : k == 6 ? Tensor::zerosLike(like, lo) : Tensor::onesLike(like, lo);
      if (!own) d = ld, rg = lrg;
      expect = k == 5 ? conv(d, v) : k == 6 ? 0 : 1;
      expectSame(before, get(like), "create.like.input");
      c.obs("create.likes");
    }
  }
  meta(c, t, s, d, rg, "create.constant");
  if (k != 4) expectT(RT(s, expect), t, d, exact(), "create.constant");
  else if (t.numel()) {
    RT x = genPayload(r, s, d);
    writeRaw(t, x.d);
    expectSame(x, get(t), "create.empty");
  }
  c.obs("create.constants");
  c.seen(c.desc);
}
template <typename T>
inline void ranges(vh::Case& c) {
  auto& r = c.rng;
  DType d = tt::TypeToDType_v<T>;
  bool rg = r.chance(0.2);
  tt::Options o = optOf(r.pick(allTypes()), rg);  // the element type comes from the arguments
  bool lin = r.chance(0.4);
  auto asT = [](double v) {
    if constexpr (std::is_integral_v<T>) return (T)v;
    else return static_cast<T>((float)v);
  };
  if constexpr (std::is_integral_v<T>) {
    int64_t lo = r.range(-2000, 2000), st = r.range(1, 7) * (r.chance(0.4) ? -1 : 1), n = r.chance(0.1) ? r.range(500, 3000) : r.range(0, 70);
    if (r.chance(0.1)) st *= 100000;
    if (!lin) {
      // the stop lies anywhere behind the last value, up to and including the next one
      int64_t last = lo + (n - 1) * st, hi = n == 0 ? lo : last + r.range(1, std::abs(st)) * (st < 0 ? -1 : 1);
      bool one = st == 1 && r.chance(0.5);
      c.desc = fmt("arange<%s>(%lld, %lld, %lld)", dtn(d), (long long)lo, (long long)hi, (long long)st);
      Tensor t = one ? Tensor::arange<T>((T)lo, (T)hi) : Tensor::arange<T>((T)lo, (T)hi, (T)st, o);
      meta(c, t, {n}, d, one ? false : rg, "create.arange");
      auto l = t.template toList<T>();
      for (int64_t i = 0; i < n; i++)
        if (l[i] != (T)(lo + i * st)) c.fail("create.arange", fmt("element %lld is %lld", (long long)i, (long long)l[i]));
      if (n && (hi - lo) % st) c.obs("create.rangesCutShort");
    } else {
      n = std::max<int64_t>(n, 1);
      int64_t hi = lo + (n - 1) * st;
      c.desc = fmt("linspace<%s>(%lld, %lld, %lld)", dtn(d), (long long)lo, (long long)hi, (long long)n);
      Tensor t = Tensor::linspace<T>((T)lo, (T)hi, n, o);
      meta(c, t, {n}, d, rg, "create.linspace");
      auto l = t.template toList<T>();
      for (int64_t i = 0; i < n; i++)
        if (l[i] != (T)(lo + i * st)) c.fail("create.linspace", fmt("element %lld is %lld", (long long)i, (long long)l[i]));
    }
  } else {
    bool half = sizeof(T) == 2;
    int64_t n = r.chance(0.1) && !half ? r.range(500, 3000) : r.range(0, half ? 60 : 120);
    double step = r.pick({1.0, 0.5, 0.25, 2.0, 0.125}) * (r.chance(0.4) ? -1 : 1);
    double lo = (double)r.range(-8, 8);
    double eps = epsOf(d);
    if (!lin) {
      // positions inside a step, away from the multiples where rounding may decide
      double frac = r.pick({0.25, 0.5, 0.75, 1.0}), hi = n == 0 ? lo : lo + (n - 1) * step + frac * step;
      if (roundTo(d, hi) != hi || roundTo(d, lo) != lo) frac = 1, n = std::min<int64_t>(n, 8), hi = lo + n * step;
      if (roundTo(d, hi - lo) != hi - lo) return;
      c.desc = fmt("arange<%s>(%g, %g, %g)", dtn(d), lo, hi, step);
      Tensor t = Tensor::arange<T>(asT(lo), asT(hi), asT(step), o);
      meta(c, t, {n}, d, rg, "create.arange");
      RT x = get(t);
      for (int64_t i = 0; i < n; i++)
        if (!(fabs(x.d[i] - (lo + i * step)) <= 2 * eps * (fabs(lo) + fabs(i * step)))) c.fail("create.arange", fmt("element %lld is %.9g, expected %.9g", (long long)i, x.d[i], lo + i * step));
      if (frac != 1) c.obs("create.rangesCutShort");
    } else {
      n = std::max<int64_t>(n, 1);
      double a = roundTo(d, r.uniform(-50, 50)), b = r.chance(0.1) ? a : roundTo(d, r.uniform(-50, 50));
      c.desc = fmt("linspace<%s>(%g, %g, %lld)", dtn(d), a, b, (long long)n);
      Tensor t = Tensor::linspace<T>(asT(a), asT(b), n, o);
      meta(c, t, {n}, d, rg, "create.linspace");
      RT x = get(t);
      for (int64_t i = 0; i < n; i++) {
        double e = n == 1 ? a : a + i * (b - a) / (double)(n - 1);
        if (!(fabs(x.d[i] - e) <= 6 * eps * (fabs(a) + fabs(b)))) c.fail("create.linspace", fmt("element %lld is %.9g, expected %.9g", (long long)i, x.d[i], e));
      }
      if (n) c.check(x.d[0] == a, "create.linspace.start", "the first element is not the start");
    }
  }
  c.obs("create.ranges");
  c.seen(c.desc);
}
SUITE(create_range, 400) {
  DType d = c.rng.pick({DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64});
  withType(d, [&](auto tag) {
    using T = typename decltype(tag)::type;
    if constexpr (!std::is_same_v<T, uint8_t>) ranges<T>(c);
  });
}
// writing into a part of a bigger storage
SUITE(create_write, 500) {
  auto& r = c.rng;
  DType d = r.pick(allTypes()), sd = r.pick(allTypes());
  Shape s = anyShape(r);
  int64_t n = numelOf(s), lead = r.range(0, 40), trail = r.range(0, 40);
  RT big(Shape{lead + n + trail});
  bool wild = r.chance(0.4);
  for (auto& v : big.d) v = wild ? genWild(r, d, false) : genVal(r, d, -90, 90);
  Tensor base = mkPlain(big, d);
  bool shared = r.chance(0.5), rg = r.chance(0.15) && d == DType::Float32;
  if (!big.numel()) shared = false, base = mkPlain(RT(Shape{1}), d), big = get(base), trail = 1;
  Tensor t(IntArrayView(s), optOf(d, rg), base.storage(), lead);
  Tensor sibling(IntArrayView(big.shape), optOf(d), base.storage(), 0);
  auto storageBytes = base.storage()->size();
  (void)storageBytes;
  if (!shared) base = Tensor(), sibling = Tensor();
  double v = 0;
  tt::Scalar sc = mkScalar(r, sd, -500, 500, v);
  RT want(s);
  for (int64_t i = 0; i < n; i++) want.d[i] = big.d[lead + i];
  expectSame(want, get(t), "create.view");
  std::string what;
  int times = (int)r.range(1, 4);
  for (int q = 0; q < times; q++) {
    int k = (int)r.range(0, 6);
    what += fmt(" %d", k);
    switch (k) {
      case 0: t.fill_(sc), want = RT(s, conv(d, v)); break;
      case 1: t.fillZero_(), want = RT(s, 0); break;
      case 2: t.fillOne_(), want = RT(s, 1); break;
      case 3: {
        RT m = genRT(r, s, DType::Bool);
        Tensor mk = mkView(r, m, DType::Bool);
        t.fillMasked_(mk, sc);
        for (int64_t i = 0; i < n; i++)
          if (m.d[i]) want.d[i] = conv(d, v);
        expectSame(m, get(mk), "create.mask.input");
        break;
      }
      case 4: {
        RT x = genPayload(r, s, d);
        Tensor src = mkView(r, x, d);
        t.copy_(src);
        want = x;
        expectSame(x, get(src), "create.copy.input");
        if (n && d != DType::Bool) {
          src.fill_(tt::Scalar((int32_t)3));
          expectSame(want, get(t), "create.copy.alias");
        }
        break;
      }
      case 5: {
        if (!n) break;
        int64_t off = r.range(0, n), cnt = r.range(0, n - off);
        Tensor sv = Tensor::scalar(sc, optOf(r.chance(0.5) ? d : sd));
        double e = conv(d, get(sv).d[0]);
        op::fillOffset(t, sv, off, cnt);
        for (int64_t i = off; i < off + cnt; i++) want.d[i] = e;
        break;
      }
      default: {
        if (d == DType::Bool) break;
        double st = (double)r.range(-3, 3), a = (double)r.range(-9, 9);
        if (n > 100 && epsOf(d) > 1e-6) st = 0;
        t.fillLinSpace_(tt::Scalar((float)a), tt::Scalar((float)st), n);
        for (int64_t i = 0; i < n; i++) want.d[i] = roundTo(d, a + (double)i * st);
        if (d == DType::Float16 || d == DType::BFloat16) {
          RT g = get(t);
          for (int64_t i = 0; i < n; i++) {
            if (!(fabs(g.d[i] - want.d[i]) <= 3 * epsOf(d) * (fabs(a) + fabs(i * st)))) c.fail("create.fillLinSpace", fmt("element %lld is %.9g, expected %.9g", (long long)i, g.d[i], want.d[i]));
            want.d[i] = g.d[i];
          }
        }
      }
    }
    c.obs("create.writes");
  }
  c.desc = fmt("writes%s on %s at %lld of %lld%s, scalar %s %.9g ", what.c_str(), dtn(d), (long long)lead, (long long)big.numel(), shared ? " shared" : "", dtn(sd), v) + shapeStr(s);
  meta(c, t, s, d, rg, "create.write");
  expectSame(want, get(t), "create.write");
  // what lies around it in its storage
  if (n) {
    const uint8_t* p = (const uint8_t*)t.storage()->dataPtr<>();
    for (int64_t i = 0; i < big.numel(); i++) {
      if (i >= lead && i < lead + n) continue;
      if (t.storageOffset() != lead || (int64_t)t.storage()->size() < (lead + n + trail) * (int64_t)(t.nbytes() / n)) break;
      c.check(decodeAt(p, d, i) == big.d[i], "create.write.around", fmt("element %lld of the storage changed", (long long)i));
      c.obs("create.around");
    }
  }
  if (shared) expectSame(big, get(sibling), "create.write.sibling");
  if (shared) expectSame(big, get(base), "create.write.base");
  c.seen(c.desc);
}
SUITE(create_convert, 400) {
  auto& r = c.rng;
  DType a = r.pick(allTypes()), b = r.pick(allTypes());
  Shape s = anyShape(r);
  RT x = genRT(r, s, a, -2000, 2000);
  bool rg = r.chance(0.2);
  Tensor t = rg ? mkPlain(x, a, true) : mkView(r, x, a);
  c.desc = fmt("convert %s to %s ", dtn(a), dtn(b)) + shapeStr(s);
  RT want(s);
  for (size_t i = 0; i < x.d.size(); i++) want.d[i] = conv(b, x.d[i]);
  int k = (int)r.range(0, 2);
  Tensor o = k == 0 ? t.to(b) : k == 1 ? t.to(b, tt::Device::cpu()) : t.to(tt::Device::cpu()).to(b);
  if (a != b) meta(c, o, s, b, rg, "create.convert");
  expectT(want, o, b, exact(), "create.convert");
  expectSame(x, get(t), "create.convert.input");
  if (a != b && x.numel()) {  // a converted tensor is another tensor
    tt::NoGradGuard g;
    o.fillOne_();
    expectSame(x, get(t), "create.convert.alias");
  }
  c.obs("create.conversions");
  c.seen(c.desc);
}
}  // namespace s_create
