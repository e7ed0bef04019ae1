// C14: Half / BFloat16 values, arithmetic and comparisons, and tensor dtype casts
#pragma once
#include <limits>
#include <type_traits>

#include "tt.h"
namespace s_half {
using tt::BFloat16;
using tt::Half;
namespace op = tt::op;
namespace fn = tt::function;

static float fbits(uint32_t u) {
  float f;
  memcpy(&f, &u, 4);
  return f;
}
static uint32_t bitsf(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return u;
}

// independent integer-only rounding of a float pattern (nearest, ties to even)
static uint16_t refHalf(uint32_t u) {
  uint16_t s = (u >> 16) & 0x8000;
  uint32_t a = u & 0x7fffffff;
  if (a > 0x7f800000) return s | 0x7e00;
  if (a == 0x7f800000) return s | 0x7c00;
  int e = (int)(a >> 23) - 127;
  if (a < 0x00800000 || e < -25) return s;  // below half of the smallest subnormal
  uint64_t m = (a & 0x7fffff) | 0x800000;   // value = m * 2^(e-23)
  int drop = e >= -14 ? 13 : 13 + (-14 - e);
  uint64_t q = m >> drop, rem = m & ((1ull << drop) - 1), half = 1ull << (drop - 1);
  if (rem > half || (rem == half && (q & 1))) q++;
  // q carries the implicit bit when e >= -14
  uint32_t r = e >= -14 ? (uint32_t)(((uint32_t)(e + 14) << 10) + q) : (uint32_t)q;
  if (r >= 0x7c00) r = 0x7c00;
  return s | (uint16_t)r;
}
static uint16_t refBF(uint32_t u) {
  if ((u & 0x7fffffff) > 0x7f800000) return 0x7fc0;
  uint32_t q = u >> 16, rem = u & 0xffff;
  if (rem > 0x8000 || (rem == 0x8000 && (q & 1))) q++;
  return (uint16_t)q;
}
static bool nanH(uint16_t x) { return (x & 0x7fff) > 0x7c00; }
static bool nanB(uint16_t x) { return (x & 0x7fff) > 0x7f80; }

SUITE(half_from_float, 11) {
  // one block = the 65536 patterns sharing the high 16 bits
  uint32_t hi;
  if (c.total >= 65536) hi = (uint32_t)(c.index & 0xffff);
  else {
    // stratified: every sign/exponent region is visited as soon as there are enough cases
    static const int ex[] = {0, 1, 101, 102, 103, 104, 110, 111, 112, 113, 114, 120, 126, 127, 128, 140, 141, 142, 143, 144, 253, 254, 255};
    int e = c.rng.chance(0.6) ? ex[c.index % (sizeof ex / sizeof *ex)] : (int)c.rng.range(0, 255);
    int64_t m = c.rng.chance(0.3) ? 127 : c.rng.chance(0.3) ? 0 : c.rng.range(0, 127);
    hi = (uint32_t)((c.rng.range(0, 1) << 15) | (e << 7) | m);
  }
  c.desc = fmt("patterns %04x0000..%04xffff", hi, hi);
  std::vector<uint16_t> h(65536), b(65536);
  for (uint32_t lo = 0; lo < 65536; lo++) {
    uint32_t u = hi << 16 | lo;
    volatile float f = fbits(u);
    Half x((float)f);
    BFloat16 y((float)f);
    h[lo] = x.x;
    b[lo] = y.x;
  }
  for (uint32_t lo = 0; lo < 65536; lo++) {
    uint32_t u = hi << 16 | lo;
    uint16_t rh = refHalf(u), rb = refBF(u);
    if (!(h[lo] == rh || (nanH(rh) && nanH(h[lo])))) c.fail("half.fromFloat", fmt("Half(%08x = %.9g) is %04x, expected %04x", u, fbits(u), h[lo], rh));
    if (!(b[lo] == rb || (nanB(rb) && nanB(b[lo])))) c.fail("bf16.fromFloat", fmt("BFloat16(%08x = %.9g) is %04x, expected %04x", u, fbits(u), b[lo], rb));
  }
  // the same rounding through a tensor cast of the whole block
  Tensor t = Tensor::empty(IntArrayView({(int64_t)65536}), optOf(DType::Float32));
  for (uint32_t lo = 0; lo < 65536; lo++) {
    uint32_t u = hi << 16 | lo;
    memcpy(t.dataPtr<float>() + lo, &u, 4);
  }
  Tensor th = t.to(DType::Float16), tb = t.to(DType::BFloat16);
  const uint16_t* ph = (const uint16_t*)th.dataPtr<>();
  const uint16_t* pb = (const uint16_t*)tb.dataPtr<>();
  for (uint32_t lo = 0; lo < 65536; lo++) {
    if (!(ph[lo] == h[lo] || (nanH(ph[lo]) && nanH(h[lo])))) c.fail("half.castBlock", fmt("cast of %08x is %04x, expected %04x", hi << 16 | lo, ph[lo], h[lo]));
    if (!(pb[lo] == b[lo] || (nanB(pb[lo]) && nanB(b[lo])))) c.fail("bf16.castBlock", fmt("cast of %08x is %04x, expected %04x", hi << 16 | lo, pb[lo], b[lo]));
  }
  c.obs("float_patterns", 65536);
  c.seen(fmt("block%04x", hi));
}

SUITE(half_to_float, 0.01) {
  c.desc = "all 65536 patterns";
  for (uint32_t u = 0; u < 65536; u++) {
    float f = (float)Half((unsigned short)u, Half::from_bits());
    double r = halfToDouble((uint16_t)u);
    if (!(std::isnan(r) ? std::isnan(f) : ((double)f == r && std::signbit(f) == std::signbit(r))))
      c.fail("half.toFloat", fmt("(float)Half{%04x} is %.9g, expected %.9g", u, f, r));
    float g = (float)BFloat16((unsigned short)u, BFloat16::from_bits());
    if (bitsf(g) != u << 16 && !std::isnan(g)) c.fail("bf16.toFloat", fmt("(float)BFloat16{%04x} is %.9g", u, g));
    if (std::isnan(g) != nanB((uint16_t)u)) c.fail("bf16.toFloat", fmt("(float)BFloat16{%04x} is %.9g", u, g));
    // round trip
    if (!nanH((uint16_t)u) && Half(f).x != u) c.fail("half.roundTrip", fmt("Half((float)Half{%04x}) is %04x", u, Half(f).x));
    if (!nanB((uint16_t)u) && BFloat16(g).x != u) c.fail("bf16.roundTrip", fmt("BFloat16((float)BFloat16{%04x}) is %04x", u, BFloat16(g).x));
  }
  c.obs("half_patterns", 65536 * 2);
  // limits agree with the format
  typedef std::numeric_limits<Half> H;
  typedef std::numeric_limits<BFloat16> B;
  auto eq = [&](const char* n, double got, double want) {
    if (!(got == want || (std::isnan(got) && std::isnan(want)))) c.fail("limits", fmt("%s is %.17g, expected %.17g", n, got, want));
  };
  eq("Half max", (float)H::max(), 65504);
  eq("Half lowest", (float)H::lowest(), -65504);
  eq("Half min", (float)H::min(), ldexp(1, -14));
  eq("Half denorm_min", (float)H::denorm_min(), ldexp(1, -24));
  eq("Half epsilon", (float)H::epsilon(), ldexp(1, -10));
  eq("Half infinity", (float)H::infinity(), INFINITY);
  eq("Half NaN", (float)H::quiet_NaN(), NAN);
  eq("BFloat16 max", (float)B::max(), ldexp(255.0 / 128, 127));
  eq("BFloat16 lowest", (float)B::lowest(), -ldexp(255.0 / 128, 127));
  eq("BFloat16 min", (float)B::min(), ldexp(1, -126));
  eq("BFloat16 denorm_min", (float)B::denorm_min(), ldexp(1, -133));
  eq("BFloat16 epsilon", (float)B::epsilon(), ldexp(1, -7));
  eq("BFloat16 infinity", (float)B::infinity(), INFINITY);
  eq("BFloat16 NaN", (float)B::quiet_NaN(), NAN);
  c.obs("limits", 14);
  c.seen("limits");
}

static uint16_t genBits(vh::Rng& r, bool bf) {
  int em = bf ? 255 : 31, mb = bf ? 7 : 10, bias = bf ? 127 : 15;
  int64_t e;
  switch (r.range(0, 6)) {
    case 0: e = 0; break;
    case 1: e = em; break;
    case 2: e = em - 1; break;
    case 3: e = r.range(bias - 4, bias + 4); break;
    case 4: e = r.range(1, 3); break;
    default: e = r.range(0, em);
  }
  int64_t m = r.chance(0.25) ? 0 : r.chance(0.15) ? (1 << mb) - 1 : r.range(0, (1 << mb) - 1);
  return (uint16_t)(r.range(0, 1) << 15 | e << mb | m);
}

template <typename T>
struct Tr;
template <>
struct Tr<Half> {
  static constexpr bool bf = false;
  static double dec(uint16_t x) { return halfToDouble(x); }
  static uint16_t enc(double x) { return doubleToHalfBits(x); }
  static bool nan(uint16_t x) { return nanH(x); }
  static const char* name() { return "half"; }
};
template <>
struct Tr<BFloat16> {
  static constexpr bool bf = true;
  static double dec(uint16_t x) { return bf16ToDouble(x); }
  static uint16_t enc(double x) { return doubleToBF16Bits(x); }
  static bool nan(uint16_t x) { return nanB(x); }
  static const char* name() { return "bf16"; }
};

static double apply(int k, double a, double b) { return k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b; }
static float applyf(int k, float a, float b) { return k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b; }
static const char* opn(int k) { return k == 0 ? "+" : k == 1 ? "-" : k == 2 ? "*" : "/"; }

template <typename T>
static void arith(vh::Case& c) {
  typedef Tr<T> R;
  for (int it = 0; it < 400; it++) {
    uint16_t ab = genBits(c.rng, R::bf), bb = c.rng.chance(0.05) ? ab : c.rng.chance(0.05) ? (uint16_t)(ab ^ 0x8000) : genBits(c.rng, R::bf);
    T a(ab, T::from_bits()), b(bb, T::from_bits());
    double da = R::dec(ab), db = R::dec(bb);
    auto same = [&](const char* what, uint16_t got, double want) {
      uint16_t w = R::enc(want);
      bool ok = std::isnan(want) ? R::nan(got) : got == w;
      if (!ok) c.fail(std::string(R::name()) + ".arith", fmt("%s %s: %04x (%.9g), %04x (%.9g) gives %04x, expected %04x (%.9g)", R::name(), what, ab, da, bb, db, got, w, want));
    };
    auto sameD = [&](const char* what, double got, double want) {
      if (!(got == want ? std::signbit(got) == std::signbit(want) : (std::isnan(got) && std::isnan(want))))
        c.fail(std::string(R::name()) + ".arith", fmt("%s %s: %04x (%.9g), %04x (%.9g) gives %.17g, expected %.17g", R::name(), what, ab, da, bb, db, got, want));
    };
    auto flag = [&](const char* what, bool got, bool want) {
      if (got != want) c.fail(std::string(R::name()) + ".compare", fmt("%s %04x (%.9g) %s %04x (%.9g) is %d", R::name(), ab, da, what, bb, db, (int)got));
    };
    for (int k = 0; k < 4; k++) {
      // float arithmetic of the operands, then one rounding (the float result itself may overflow or underflow for bfloat16)
      double want = (double)applyf(k, (float)da, (float)db);
      T r = k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b;
      same(opn(k), r.x, want);
      T q = a;
      if (k == 0) q += b;
      else if (k == 1) q -= b;
      else if (k == 2) q *= b;
      else q /= b;
      same(fmt("%s=", opn(k)).c_str(), q.x, want);
      // with wider types the result is wider
      float f = (float)c.rng.uniform(-9, 9);
      double d = c.rng.uniform(-9, 9);
      auto rf = k == 0 ? a + f : k == 1 ? a - f : k == 2 ? a * f : a / f;
      auto fr = k == 0 ? f + a : k == 1 ? f - a : k == 2 ? f * a : f / a;
      auto rd = k == 0 ? a + d : k == 1 ? a - d : k == 2 ? a * d : a / d;
      auto dr = k == 0 ? d + a : k == 1 ? d - a : k == 2 ? d * a : d / a;
      static_assert(std::is_same<decltype(rf), float>::value && std::is_same<decltype(rd), double>::value, "result type");
      sameD("op float", rf, applyf(k, (float)da, f));
      sameD("float op", fr, applyf(k, f, (float)da));
      sameD("op double", rd, apply(k, da, d));
      sameD("double op", dr, apply(k, d, da));
      float g = f;
      if (k == 0) g += a;
      else if (k == 1) g -= a;
      else if (k == 2) g *= a;
      else g /= a;
      sameD("float op=", g, applyf(k, f, (float)da));
      int i = (int)c.rng.range(-300, 300);
      int64_t l = c.rng.chance(0.2) ? c.rng.range(-70000, 70000) : c.rng.range(-300, 300);
      float fi = (float)R::dec(R::enc(i)), fl = (float)R::dec(R::enc((double)l));
      T ri = k == 0 ? a + i : k == 1 ? a - i : k == 2 ? a * i : a / i;
      T ir = k == 0 ? i + a : k == 1 ? i - a : k == 2 ? i * a : i / a;
      T rl = k == 0 ? a + l : k == 1 ? a - l : k == 2 ? a * l : a / l;
      T lr = k == 0 ? l + a : k == 1 ? l - a : k == 2 ? l * a : l / a;
      same("op int", ri.x, (double)applyf(k, (float)da, fi));
      same("int op", ir.x, (double)applyf(k, fi, (float)da));
      same("op int64", rl.x, (double)applyf(k, (float)da, fl));
      same("int64 op", lr.x, (double)applyf(k, fl, (float)da));
    }
    same("neg", (-a).x, -da);
    const T ca = a, cb = b;
    flag("<", a < b, da < db);
    flag(">", a > b, da > db);
    flag("<=", a <= b, da <= db);
    flag(">=", a >= b, da >= db);
    flag("==", a == b, da == db);
    flag("!=", a != b, da != db);
    flag("const <", ca < cb, da < db);
    flag("const >", ca > cb, da > db);
    flag("const <=", ca <= cb, da <= db);
    flag("const >=", ca >= cb, da >= db);
    flag("const ==", ca == cb, da == db);
    flag("const !=", ca != cb, da != db);
    c.obs(R::bf ? "bf16_pairs" : "half_pairs");
  }
  c.seen(fmt("%s%llx", R::name(), (unsigned long long)c.seed));
}
SUITE(half_arith, 3) { arith<Half>(c); }
SUITE(bf16_arith, 3) { arith<BFloat16>(c); }

// element-wise tensor arithmetic on half types: every element is rounded exactly once
SUITE(half_tensor_arith, 3) {
  DType t = c.rng.pick({DType::Float16, DType::BFloat16});
  bool bf = t == DType::BFloat16;
  int64_t n = c.rng.range(1, 300);
  Tensor a = Tensor::empty(IntArrayView({n}), optOf(t)), b = Tensor::empty(IntArrayView({n}), optOf(t));
  uint16_t* pa = (uint16_t*)a.dataPtr<>();
  uint16_t* pb = (uint16_t*)b.dataPtr<>();
  for (int64_t i = 0; i < n; i++) pa[i] = genBits(c.rng, bf), pb[i] = genBits(c.rng, bf);
  std::vector<uint16_t> va(pa, pa + n), vb(pb, pb + n);
  int k = (int)c.rng.range(0, 3);
  int form = (int)c.rng.range(0, 2);
  c.desc = fmt("%s tensor %s form %d n %lld", dtn(t), opn(k), form, (long long)n);
  auto dec = [&](uint16_t x) { return bf ? bf16ToDouble(x) : halfToDouble(x); };
  auto enc = [&](double x) { return bf ? doubleToBF16Bits(x) : doubleToHalfBits(x); };
  auto nan = [&](uint16_t x) { return bf ? nanB(x) : nanH(x); };
  Tensor r;
  if (form == 0) r = k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b;
  else if (form == 1) {
    r = a;
    if (k == 0) r += b;
    else if (k == 1) r -= b;
    else if (k == 2) r *= b;
    else r /= b;
  } else r = k == 0 ? op::add(a, b, tt::Scalar(1.f)) : k == 1 ? op::sub(a, b, tt::Scalar(1.f)) : k == 2 ? op::mul(a, b) : op::div(a, b);
  c.check(r.dtype() == t && r.numel() == n, "half.tensor.meta", "wrong dtype or size");
  const uint16_t* pr = (const uint16_t*)r.dataPtr<>();
  for (int64_t i = 0; i < n; i++) {
    double want = (double)applyf(k, (float)dec(va[i]), (float)dec(vb[i]));
    if (!(std::isnan(want) ? nan(pr[i]) : pr[i] == enc(want)))
      c.fail("half.tensor.arith", fmt("element %lld: %.9g %s %.9g gives %04x, expected %04x", (long long)i, dec(va[i]), opn(k), dec(vb[i]), pr[i], enc(want)));
  }
  c.obs("tensor_elements", n);
  c.seen(fmt("%s%s%d%lld", dtn(t), opn(k), form, (long long)n));
}

// value of `v` (held exactly by src) converted to dst
static double castRef(DType dst, double v) {
  switch (dst) {
    case DType::Bool: return v != 0 ? 1 : 0;  // NaN is non-zero
    case DType::Int32:
    case DType::Int64: return std::trunc(v);
    case DType::Float32: return (double)(float)v;
    case DType::Float16: return roundHalf((double)(float)v);
    default: return roundBF16((double)(float)v);
  }
}
SUITE(cast_tensor, 12) {
  auto& r = c.rng;
  DType src = r.pick(allTypes()), dst = r.pick(allTypes());
  Shape s = genWide(r, 5, 300);
  if (r.chance(0.08) && !s.empty()) s[r.range(0, (int64_t)s.size() - 1)] = 0;
  bool toInt = dst == DType::Int32 || dst == DType::Int64;
  RT v(s);
  for (auto& x : v.d) {
    if (src == DType::Bool) x = r.range(0, 1);
    else if (src == DType::Int32) x = r.chance(0.3) ? (double)(int32_t)r.next() : (double)r.range(-70000, 70000);
    else if (src == DType::Int64) {
      // exactly representable in double
      int64_t q = (int64_t)r.next() >> r.range(10, 60);
      if (dst == DType::Int32) q = (int32_t)q;
      if (r.chance(0.1)) q = 0;
      if (r.chance(0.1) && dst == DType::Bool) q = (int64_t)1 << r.range(0, 52);  // low bytes all zero
      x = (double)q;
    } else {
      int k = (int)r.range(0, 9);
      if (k == 0) x = 0;
      else if (k == 1) x = r.range(-300, 300);
      else if (k == 2) x = r.uniform(-1, 1);
      else if (k < 6) x = r.uniform(-60000, 60000);
      else if (toInt) x = r.uniform(-300, 300);
      else if (k == 6) x = r.pick({(double)INFINITY, -(double)INFINITY, (double)NAN});
      else if (k == 7) x = ldexp(r.uniform(1, 2), (int)r.range(-30, 17)) * (r.chance(0.5) ? 1 : -1);
      else if (k == 8) x = ldexp(r.uniform(1, 2), (int)r.range(-140, 127)) * (r.chance(0.5) ? 1 : -1);
      else x = r.uniform(-3, 3);
      x = roundTo(src, x);
      if (toInt && std::isinf(x)) x = 1;
    }
  }
  bool view = false;
  Tensor t = mkView(r, v, src, &view);
  bool rg = isFloat(src) && r.chance(0.3);
  if (rg) t.setRequiresGrad(true);
  c.desc = fmt("%s -> %s %s view %d", dtn(src), dtn(dst), shapeStr(s).c_str(), view);
  RT before = get(t);
  Tensor o = t.to(dst);
  c.check(o.dtype() == dst, "cast.dtype", fmt("result dtype %s", dtn(o.dtype())));
  c.check(toShape(o.shape()) == s, "cast.shape", shapeStr(toShape(o.shape())));
  RT g = get(o);
  for (size_t i = 0; i < v.d.size(); i++) {
    double want = castRef(dst, v.d[i]);
    if (!(g.d[i] == want ? (std::signbit(want) == std::signbit(g.d[i]) || !isFloat(dst)) : (std::isnan(g.d[i]) && std::isnan(want))))
      c.fail("cast.value", fmt("element %zu: %.17g cast to %s is %.17g, expected %.17g", i, v.d[i], dtn(dst), g.d[i], want));
  }
  expectSame(before, get(t), "cast.source");
  c.check(t.dtype() == src, "cast.source.dtype");
  // a second cast back is exact when the destination holds every source value
  static auto wider = [](DType a, DType b) {
    if (a == b || a == DType::Bool) return true;
    if ((a == DType::Float16 || a == DType::BFloat16) && b == DType::Float32) return true;
    return a == DType::Int32 && b == DType::Int64;
  };
  if (wider(src, dst)) {
    expectSame(before, get(o.to(src)), "cast.roundTrip");
    c.obs("round_trips");
  }
  if (src != dst && v.numel() > 0) {
    // the result is a tensor of its own
    c.check(o.dataPtr<>() != t.dataPtr<>(), "cast.aliases", "result shares the source's memory");
  }
  c.obs("elements", v.numel());
  c.obs(std::string("cast_") + dtn(src) + "_" + dtn(dst));
  c.seen(c.desc);
}
// Scalar conversions
SUITE(cast_scalar, 3) {
  auto& r = c.rng;
  for (int it = 0; it < 50; it++) {
    double v = 0;
    tt::Scalar s(0.f);
    DType src = r.pick(allTypes());
    switch (src) {
      case DType::Float32: v = (float)r.uniform(-60000, 60000), s = tt::Scalar((float)v); break;
      case DType::Float16: v = roundHalf(r.uniform(-60000, 60000)), s = tt::Scalar(Half((float)v)); break;
      case DType::BFloat16: v = roundBF16(r.uniform(-60000, 60000)), s = tt::Scalar(BFloat16((float)v)); break;
      case DType::Int32: v = (double)r.range(-70000, 70000), s = tt::Scalar((int32_t)v); break;
      case DType::Int64: v = (double)r.range(-70000, 70000), s = tt::Scalar((int64_t)v); break;
      default: v = (double)r.range(0, 1), s = tt::Scalar(v != 0);
    }
    c.check(s.dtype() == src, "scalar.dtype", fmt("%s", dtn(s.dtype())));
    auto eq = [&](const char* n, double got, double want) {
      if (got != want) c.fail("scalar.value", fmt("Scalar %s %.17g to %s is %.17g, expected %.17g", dtn(src), v, n, got, want));
    };
    eq("float", s.to<float>(), castRef(DType::Float32, v));
    eq("half", halfToDouble(s.to<Half>().x), castRef(DType::Float16, v));
    eq("bf16", bf16ToDouble(s.to<BFloat16>().x), castRef(DType::BFloat16, v));
    eq("i32", s.to<int32_t>(), castRef(DType::Int32, v));
    eq("i64", (double)s.to<int64_t>(), castRef(DType::Int64, v));
    eq("bool", s.to<bool>(), castRef(DType::Bool, v));
    c.obs("scalars");
  }
}
}  // namespace s_half
