// C02: elementwise operations against a double-precision reference with its own broadcasting
#pragma once
#include "tt.h"
namespace s_elem {
namespace op = tt::op;
typedef double (*F1)(double);
typedef double (*F2)(double, double);

struct Un {
  const char* name;
  Tensor (*f)(const Tensor&);
  void (*out)(Tensor&, const Tensor&);
  void (*inpl)(Tensor&);
  Tensor (*fn)(const Tensor&);  // user-facing variant
  F1 ref;
  F1 mag;  // magnitude of the terms of the formula, null: |result|
  double lo, hi;
  double mul;
  bool special;  // infinities and NaN propagate as IEEE prescribes
};
static double rgelu(double x) { return 0.5 * x * (1 + tanh(0.7978845608028654 * (x + 0.044715 * x * x * x))); }
#define UN(n) #n, [](const Tensor& a) { return op::n(a); }, [](Tensor& o, const Tensor& a) { op::n##Out(o, a); }, [](Tensor& a) { op::n##Inplace(a); }
static const std::vector<Un>& unary() {
  static const std::vector<Un> v{
      {UN(abs), nullptr, [](double x) { return fabs(x); }, nullptr, -1e4, 1e4, 1, true},
      {UN(neg), nullptr, [](double x) { return -x; }, nullptr, -1e4, 1e4, 1, true},
      {UN(sign), nullptr, [](double x) { return x > 0 ? 1. : x < 0 ? -1. : 0.; }, nullptr, -5, 5, 1, false},
      {UN(sqrt), [](const Tensor& a) { return a.sqrt(); }, [](double x) { return sqrt(x); }, nullptr, 0, 6e4, 2, true},
      {UN(square), nullptr, [](double x) { return x * x; }, nullptr, -200, 200, 2, true},
      {UN(exp), nullptr, [](double x) { return exp(x); }, nullptr, -9, 9, 4, true},
      {UN(log), nullptr, [](double x) { return log(x); }, nullptr, 0, 5e3, 4, true},
      {UN(sin), [](const Tensor& a) { return a.sin(); }, [](double x) { return sin(x); }, [](double) { return 1.; }, -20, 20, 4, false},
      {UN(cos), [](const Tensor& a) { return a.cos(); }, [](double x) { return cos(x); }, [](double) { return 1.; }, -20, 20, 4, false},
      {UN(sigmoid), nullptr, [](double x) { return 1 / (1 + exp(-x)); }, nullptr, -9, 9, 8, false},
      {UN(tanh), nullptr, [](double x) { return tanh(x); }, nullptr, -9, 9, 4, true},
      {UN(relu), [](const Tensor& a) { return tt::function::relu(a); }, [](double x) { return x > 0 ? x : 0.; }, nullptr, -50, 50, 1, false},
      {UN(gelu), [](const Tensor& a) { return tt::function::gelu(a); }, rgelu, [](double x) { return fabs(x) * (1 + 0.05 * x * x); }, -6, 6, 8, false},
      {UN(silu), [](const Tensor& a) { return tt::function::silu(a); }, [](double x) { return x / (1 + exp(-x)); }, nullptr, -9, 9, 8, false},
  };
  return v;
}

static double specialVal(vh::Rng& r, DType t, bool nan) {
  switch (r.range(0, nan ? 7 : 6)) {
    case 0: return INFINITY;
    case 1: return -INFINITY;
    case 2: return -0.0;
    case 3: return t == DType::Float16 ? 65504. : t == DType::BFloat16 ? bf16ToDouble(0x7f7f) : 3.4028234663852886e38;
    case 4: return t == DType::Float16 ? ldexp(1, -24) : t == DType::BFloat16 ? bf16ToDouble(0x0080) : 1.1754943508222875e-38;
    case 5: return 1;
    case 6: return -1;
    default: return NAN;
  }
}
static Tensor garbageLike(vh::Rng& r, const Shape& s, DType t) {
  RT g(s, t == DType::Bool ? 1 : 99);
  return mkView(r, g, t);
}
static Shape elemShape(vh::Case& c) {
  auto& r = c.rng;
  int k = (int)r.range(0, 19);
  if (k == 0) return Shape{r.range(500, 3000)};
  if (k == 1) return Shape{r.range(1, 40), r.range(1, 40)};
  if (k == 2) {
    Shape s((size_t)r.range(5, 8));
    for (auto& d : s) d = r.range(1, 3);
    return s;
  }
  if (k == 3) {
    Shape s = genWide(r, 4, 60, false);
    s[r.range(0, s.size() - 1)] = 0;
    return s;
  }
  return genWide(r, 5, 300);
}
static void note(vh::Case& c, const char* name, DType t, const Shape& s, const std::string& variant) {
  c.obs(std::string("elem.") + name);
  c.seen(std::string(name) + dtn(t) + shapeStr(s) + variant);
  if (c.index % 97 == 0) c.sample(std::string(name) + " " + dtn(t) + " " + shapeStr(s) + " " + variant);
}

SUITE(elem_unary, 500) {
  auto& r = c.rng;
  const Un& u = unary()[c.index % unary().size()];
  DType t = floatTypes()[(c.index / unary().size()) % 3];
  Shape s = elemShape(c);
  RT x = genRT(r, s, t, u.lo, u.hi);
  if (r.chance(0.5))
    for (auto& v : x.d)
      if (r.chance(0.2)) {
        double q = specialVal(r, t, u.special);
        bool ok = u.special ? true : (std::isfinite(q) && fabs(q) < 100);
        if ((!strcmp(u.name, "sign") || !strcmp(u.name, "relu"))) ok = true;
        if (ok) v = q;
      }
  RT ref = map1(x, u.ref);
  std::vector<double> mag = ref.d;
  if (u.mag)
    for (size_t i = 0; i < mag.size(); i++) mag[i] = u.mag(x.d[i]);
  int variant = (int)r.range(0, 4);
  c.desc = fmt("%s %s variant %d x=", u.name, dtn(t), variant) + rtStr(x);
  bool view;
  Tensor a = mkView(r, x, t, &view);
  note(c, u.name, t, s, std::to_string(variant) + (view ? "v" : "p"));
  std::string sig = std::string("elem.") + u.name;
  if (variant == 0 || variant == 4) {
    Tensor y = (variant == 4 && u.fn) ? u.fn(a) : u.f(a);
    expectMag(ref, mag, y, t, u.mul, sig);
    expectSame(x, get(a), sig + ".input");
  } else if (variant == 1) {
    Tensor y = garbageLike(r, s, t);
    u.out(y, a);
    expectMag(ref, mag, y, t, u.mul, sig + "Out");
    expectSame(x, get(a), sig + "Out.input");
  } else if (variant == 2) {
    u.inpl(a);
    expectMag(ref, mag, a, t, u.mul, sig + "Inplace");
  } else {  // output is the operand
    u.out(a, a);
    expectMag(ref, mag, a, t, u.mul, sig + "Out.alias");
  }
}

struct Bin {
  const char* name;
  Tensor (*f)(const Tensor&, const Tensor&);
  void (*out)(Tensor&, const Tensor&, const Tensor&);
  void (*inpl)(Tensor&, const Tensor&);
  Tensor (*fn)(const Tensor&, const Tensor&);
  F2 ref;
  F2 mag;
  double lo1, hi1, lo2, hi2;
  double mul;
  int kind;  // 0 arithmetic, 1 comparison, 2 select (max/min/clamp)
  Tensor (*sr)(const Tensor&, const tt::Scalar&);
  Tensor (*sl)(const tt::Scalar&, const Tensor&);
  void (*ia)(Tensor&, const Tensor&);
  void (*is)(Tensor&, const tt::Scalar&);
};
#define OPR(o)                                                                                                            \
  [](const Tensor& a, const tt::Scalar& b) { return a o b; }, [](const tt::Scalar& a, const Tensor& b) { return a o b; }, \
      [](Tensor& a, const Tensor& b) { a o##= b; }, [](Tensor& a, const tt::Scalar& b) { a o##= b; }
#define CMPR(o) [](const Tensor& a, const tt::Scalar& b) { return a o b; }, nullptr, nullptr, nullptr
#define B3(n) #n, [](const Tensor& a, const Tensor& b) { return op::n(a, b); }, [](Tensor& o, const Tensor& a, const Tensor& b) { op::n##Out(o, a, b); }
#define BI(n) [](Tensor& a, const Tensor& b) { op::n##Inplace(a, b); }
#define FN(e) [](const Tensor& a, const Tensor& b) { return e; }
#define R2(e) [](double a, double b) -> double { return e; }
static const std::vector<Bin>& binary() {
  using tt::Scalar;
  static const std::vector<Bin> v{
      {"add", FN(op::add(a, b, Scalar(1.f))), [](Tensor& o, const Tensor& a, const Tensor& b) { op::addOut(o, a, b, Scalar(1.f)); },
       [](Tensor& a, const Tensor& b) { op::addInplace(a, b, Scalar(1.f)); }, FN(a + b), R2(a + b), R2(fabs(a) + fabs(b)), -9, 9, -9, 9, 2, 0, OPR(+)},
      {"sub", FN(op::sub(a, b, Scalar(1.f))), [](Tensor& o, const Tensor& a, const Tensor& b) { op::subOut(o, a, b, Scalar(1.f)); },
       [](Tensor& a, const Tensor& b) { op::subInplace(a, b, Scalar(1.f)); }, FN(a - b), R2(a - b), R2(fabs(a) + fabs(b)), -9, 9, -9, 9, 2, 0, OPR(-)},
      {B3(mul), BI(mul), FN(a * b), R2(a * b), nullptr, -9, 9, -9, 9, 2, 0, OPR(*)},
      {B3(div), BI(div), FN(a / b), R2(a / b), nullptr, -9, 9, 0.25, 9, 2, 0, OPR(/)},
      {B3(pow), BI(pow), FN(a.pow(b)), R2(pow(a, b)), nullptr, 0.125, 5, -2, 3, 4, 0, [](const Tensor& a, const Scalar& b) { return a.pow(b); }, nullptr, nullptr, nullptr},
      {B3(maximum), nullptr, FN(Tensor::maximum(a, b)), R2(a > b ? a : b), nullptr, -9, 9, -9, 9, 0, 2, nullptr, nullptr, nullptr, nullptr},
      {B3(minimum), nullptr, FN(Tensor::minimum(a, b)), R2(a < b ? a : b), nullptr, -9, 9, -9, 9, 0, 2, nullptr, nullptr, nullptr, nullptr},
      {B3(clampMin), BI(clampMin), nullptr, R2(a < b ? b : a), nullptr, -9, 9, -9, 9, 0, 2, nullptr, nullptr, nullptr, nullptr},
      {B3(clampMax), BI(clampMax), nullptr, R2(a > b ? b : a), nullptr, -9, 9, -9, 9, 0, 2, nullptr, nullptr, nullptr, nullptr},
      {B3(eq), nullptr, FN(a == b), R2(a == b), nullptr, -3, 3, -3, 3, 0, 1, CMPR(==)},
      {B3(ne), nullptr, FN(a != b), R2(a != b), nullptr, -3, 3, -3, 3, 0, 1, CMPR(!=)},
      {B3(lt), nullptr, FN(a < b), R2(a < b), nullptr, -3, 3, -3, 3, 0, 1, CMPR(<)},
      {B3(le), nullptr, FN(a <= b), R2(a <= b), nullptr, -3, 3, -3, 3, 0, 1, CMPR(<=)},
      {B3(gt), nullptr, FN(a > b), R2(a > b), nullptr, -3, 3, -3, 3, 0, 1, CMPR(>)},
      {B3(ge), nullptr, FN(a >= b), R2(a >= b), nullptr, -3, 3, -3, 3, 0, 1, CMPR(>=)},
  };
  return v;
}

SUITE(elem_binary, 900) {
  auto& r = c.rng;
  const auto& B = binary();
  const Bin& u = B[c.index % B.size()];
  DType t = floatTypes()[(c.index / B.size()) % 3];
  if (u.kind && r.chance(0.3)) t = DType::Int64;
  Shape so = elemShape(c);
  int variant = (int)r.range(0, 8);
  Shape s1, s2;
  int geo = (int)r.range(0, 5);
  if (geo == 0) s1 = s2 = so;
  else if (geo == 1) s1 = so, s2 = genBcastOperand(r, so);
  else if (geo == 2) s1 = genBcastOperand(r, so), s2 = so;
  else if (geo == 3) s1 = so, s2 = Shape{};
  else {
    s1 = genBcastOperand(r, so);
    s2 = genBcastOperand(r, so);
  }
  bool needInpl = variant == 2 || variant == 6;
  if (needInpl) s1 = so, s2 = r.chance(0.3) ? so : genBcastOperand(r, so);
  if (!bcastShape(s1, s2, so)) return;
  if (needInpl && so != s1) s1 = so;
  RT x = genRT(r, s1, t, u.lo1, u.hi1), y = genRT(r, s2, t, u.lo2, u.hi2);
  if (u.kind && isFloat(t) && r.chance(0.4)) {
    bool nan = u.kind == 1;
    for (auto& v : x.d)
      if (r.chance(0.15)) v = specialVal(r, t, nan);
    for (auto& v : y.d)
      if (r.chance(0.15)) v = specialVal(r, t, nan);
  } else if (u.kind == 0 && strcmp(u.name, "pow") && r.chance(0.25)) {
    for (auto& v : x.d)
      if (r.chance(0.15)) v = specialVal(r, t, true);
    for (auto& v : y.d)
      if (r.chance(0.15)) v = specialVal(r, t, true);
  } else if (u.kind == 1 && r.chance(0.5)) {  // provoke ties
    for (auto& v : x.d) v = (double)r.range(-2, 2);
    for (auto& v : y.d) v = (double)r.range(-2, 2);
  }
  if (!strcmp(u.name, "pow") && r.chance(0.3)) {
    for (auto& v : x.d) v = roundTo(t, r.uniform(-3, 3));
    for (auto& v : y.d) v = (double)r.range(0, 4);
  }
  // scalar operand variants
  bool scal = (variant == 5 && u.sr) || (variant == 6 && u.is) || (variant == 7 && u.sl);
  double sv = 0;
  if (scal) {
    sv = variant == 7 ? genVal(r, t, u.lo1, u.hi1) : genVal(r, t, u.lo2, u.hi2);
    if (variant == 7) x = RT(Shape{}, std::vector<double>{sv});
    else y = RT(Shape{}, std::vector<double>{sv}), s2 = Shape{};
    bcastShape(x.shape, y.shape, so);
    if (variant != 7 && needInpl && so != s1) return;
  }
  RT ref = map2(x, y, u.ref);
  std::vector<double> mag = u.mag ? map2(x, y, u.mag).d : ref.d;
  DType ot = u.kind == 1 ? DType::Bool : t;
  c.desc = fmt("%s %s variant %d a=", u.name, dtn(t), variant) + rtStr(x) + " b=" + rtStr(y);
  bool v1, v2;
  Tensor a = mkView(r, x, t, &v1), b = mkView(r, y, t, &v2);
  note(c, u.name, t, s1, shapeStr(s2) + std::to_string(variant) + (v1 ? "v" : "p") + (v2 ? "v" : "p"));
  std::string sig = std::string("elem.") + u.name;
  // infinities arising inside half arithmetic are decided by closeFor
  if (scal) {
    tt::Scalar s = t == DType::Int64 ? tt::Scalar((int64_t)sv) : tt::Scalar((float)sv);
    if (variant == 5) expectMag(ref, mag, u.sr(a, s), ot, u.mul, sig + ".scalar");
    else if (variant == 7) expectMag(ref, mag, u.sl(s, b), ot, u.mul, sig + ".scalarLeft");
    else {
      Tensor keep = a;
      (void)keep;
      u.is(a, s);
      expectMag(ref, mag, a, ot, u.mul, sig + ".assignScalar");
    }
    return;
  }
  if (variant == 1 || variant == 3) {
    Tensor o = garbageLike(r, so, ot);
    if (variant == 3 && ot == t && so == s1) o = a;  // output is an operand
    bool al = variant == 3 && ot == t && so == s1;
    u.out(o, a, b);
    expectMag(ref, mag, o, ot, u.mul, sig + "Out");
    if (!al) expectSame(x, get(a), sig + "Out.input1");
    expectSame(y, get(b), sig + "Out.input2");
  } else if (variant == 2 && u.inpl) {
    u.inpl(a, b);
    expectMag(ref, mag, a, ot, u.mul, sig + "Inplace");
    expectSame(y, get(b), sig + "Inplace.input2");
  } else if (variant == 6 && u.ia) {
    u.ia(a, b);
    expectMag(ref, mag, a, ot, u.mul, sig + ".assign");
    expectSame(y, get(b), sig + ".assign.input2");
  } else {
    Tensor o = (variant >= 4 && u.fn && isFloat(t)) ? u.fn(a, b) : u.f(a, b);
    expectMag(ref, mag, o, ot, u.mul, sig);
    expectSame(x, get(a), sig + ".input1");
    expectSame(y, get(b), sig + ".input2");
  }
}

// the same tensor as both operands, partial overlap through views of one storage
SUITE(elem_alias, 150) {
  auto& r = c.rng;
  DType t = r.pick(floatTypes());
  Shape s = genWide(r, 4, 60);
  RT x = genRT(r, s, t);
  Tensor a = mkView(r, x, t);
  int k = (int)r.range(0, 4);
  c.desc = fmt("alias %d %s a=", k, dtn(t)) + rtStr(x);
  c.obs("elem.alias");
  c.seen("alias" + shapeStr(s) + std::to_string(k) + dtn(t));
  if (k == 0) {
    op::addInplace(a, a, tt::Scalar(1.f));
    expectMag(map1(x, [](double v) { return 2 * v; }), a, t, 2, "elem.alias.add");
  } else if (k == 1) {
    op::mulInplace(a, a);
    expectMag(map1(x, [](double v) { return v * v; }), a, t, 2, "elem.alias.mul");
  } else if (k == 2) {
    a += a;
    expectMag(map1(x, [](double v) { return 2 * v; }), a, t, 2, "elem.alias.plusassign");
  } else if (k == 3) {
    a -= a;
    expectMag(map1(x, [](double v) { return v - v; }), a, t, 2, "elem.alias.minusassign");
  } else if (s.size() >= 1 && s[0] >= 1) {
    // an in-place update whose operand is a row of the target itself
    Tensor row = op::narrow(a, (int64_t)0, s[0] - 1, (int64_t)1);
    RT rr = get(row);
    RT ref = map2(x, rr, [](double p, double q) { return p + q; });
    RT mg = map2(x, rr, [](double p, double q) { return fabs(p) + fabs(q); });
    op::addInplace(a, row, tt::Scalar(1.f));
    expectMag(ref, mg.d, a, t, 2, "elem.alias.row");
    expectSame(rr, get(row), "elem.alias.rowkept");
  }
}

SUITE(elem_alpha, 200) {
  auto& r = c.rng;
  DType t = r.pick(floatTypes());
  Shape so = elemShape(c), s1 = so, s2 = genBcastOperand(r, so);
  RT x = genRT(r, s1, t), y = genRT(r, s2, t);
  double al = r.pick<double>({2, -1, 0.5, 0, 1, -3});
  bool sub = r.chance(0.5);
  RT ref = map2(x, y, [&](double a, double b) { return sub ? a - al * b : a + al * b; });
  RT mag = map2(x, y, [&](double a, double b) { return fabs(a) + fabs(al * b); });
  int variant = (int)r.range(0, 2);
  c.desc = fmt("%s alpha=%g %s v%d a=", sub ? "sub" : "add", al, dtn(t), variant) + rtStr(x) + " b=" + rtStr(y);
  Tensor a = mkView(r, x, t), b = mkView(r, y, t);
  note(c, sub ? "subAlpha" : "addAlpha", t, s1, shapeStr(s2) + std::to_string(variant) + fmt("%g", al));
  tt::Scalar S((float)al);
  if (variant == 0) {
    expectMag(ref, mag.d, sub ? op::sub(a, b, S) : op::add(a, b, S), t, 3, "elem.alpha");
  } else if (variant == 1) {
    Tensor o = garbageLike(r, so, t);
    if (sub) op::subOut(o, a, b, S);
    else op::addOut(o, a, b, S);
    expectMag(ref, mag.d, o, t, 3, "elem.alphaOut");
  } else {
    if (sub) op::subInplace(a, b, S);
    else op::addInplace(a, b, S);
    expectMag(ref, mag.d, a, t, 3, "elem.alphaInplace");
  }
}

SUITE(elem_ternary, 350) {
  auto& r = c.rng;
  bool addc = r.chance(0.5);
  DType t = r.pick(floatTypes());
  Shape so = elemShape(c), s0, s1, s2;
  int variant = (int)r.range(0, 2);
  s0 = variant == 2 || r.chance(0.4) ? so : genBcastOperand(r, so);
  s1 = r.chance(0.4) ? so : genBcastOperand(r, so);
  s2 = r.chance(0.4) ? so : genBcastOperand(r, so);
  Shape tmp;
  bcastShape(s0, s1, tmp);
  bcastShape(tmp, s2, so);
  if (variant == 2) s0 = so;
  RT x = genRT(r, s0, t), p = genRT(r, s1, t), q = genRT(r, s2, t);
  RT X = bcastTo(x, so), P = bcastTo(p, so), Q = bcastTo(q, so), ref(so), mag(so);
  double val = r.pick<double>({1, -0.5, 2, 0, 3});
  for (size_t i = 0; i < ref.d.size(); i++) {
    if (addc) {
      ref.d[i] = X.d[i] + val * P.d[i] * Q.d[i];
      mag.d[i] = fabs(X.d[i]) + fabs(val * P.d[i] * Q.d[i]);
    } else {
      // lower bound above the upper bound: only points that both orders of application agree on are compared
      if (P.d[i] > Q.d[i]) continue;
      ref.d[i] = X.d[i] < P.d[i] ? P.d[i] : X.d[i] > Q.d[i] ? Q.d[i] : X.d[i];
    }
  }
  if (!addc) {
    // make every bound pair ordered
    RT lo = p, hi = q;
    for (auto& v : lo.d) v = -fabs(v);
    for (auto& v : hi.d) v = fabs(v);
    p = lo;
    q = hi;
    P = bcastTo(p, so);
    Q = bcastTo(q, so);
    for (size_t i = 0; i < ref.d.size(); i++) ref.d[i] = X.d[i] < P.d[i] ? P.d[i] : X.d[i] > Q.d[i] ? Q.d[i] : X.d[i];
  }
  c.desc = fmt("%s val=%g %s v%d x=", addc ? "addcmul" : "clamp", val, dtn(t), variant) + rtStr(x) + " p=" + rtStr(p) + " q=" + rtStr(q);
  Tensor a = mkView(r, x, t), b = mkView(r, p, t), d = mkView(r, q, t);
  note(c, addc ? "addcmul" : "clamp", t, s0, shapeStr(s1) + shapeStr(s2) + std::to_string(variant));
  tt::Scalar S((float)val);
  Tensor o;
  if (variant == 0) o = addc ? op::addcmul(a, b, d, S) : op::clamp(a, b, d);
  else if (variant == 1) {
    o = garbageLike(r, so, t);
    if (addc) op::addcmulOut(o, a, b, d, S);
    else op::clampOut(o, a, b, d);
  } else {
    if (addc) op::addcmulInplace(a, b, d, S);
    else op::clampInplace(a, b, d);
    o = a;
  }
  if (addc) expectMag(ref, mag.d, o, t, 4, "elem.addcmul");
  else expectT(ref, o, t, exact(), "elem.clamp");
  expectSame(p, get(b), "elem.ternary.input2");
  expectSame(q, get(d), "elem.ternary.input3");
  if (variant != 2) expectSame(x, get(a), "elem.ternary.input1");
}

SUITE(elem_logic, 150) {
  auto& r = c.rng;
  Shape so = elemShape(c), s1 = r.chance(0.5) ? so : genBcastOperand(r, so), s2 = genBcastOperand(r, so);
  bcastShape(s1, s2, so);
  int k = (int)r.range(0, 8);
  if (k >= 6) s1 = so;
  RT x = genRT(r, s1, DType::Bool), y = genRT(r, s2, DType::Bool);
  Tensor a = mkView(r, x, DType::Bool), b = mkView(r, y, DType::Bool);
  c.desc = fmt("logic %d a=", k) + rtStr(x) + " b=" + rtStr(y);
  note(c, "logic", DType::Bool, s1, shapeStr(s2) + std::to_string(k));
  RT rn = map1(x, [](double v) { return v == 0 ? 1. : 0.; });
  RT ra = map2(x, y, [](double p, double q) { return p && q ? 1. : 0.; });
  RT ro = map2(x, y, [](double p, double q) { return p || q ? 1. : 0.; });
  Tensor o;
  switch (k) {
    case 0: expectT(rn, op::logicNot(a), DType::Bool, exact(), "elem.not"); break;
    case 1: expectT(rn, ~a, DType::Bool, exact(), "elem.not"); break;
    case 2: expectT(ra, a & b, DType::Bool, exact(), "elem.and"); break;
    case 3: expectT(ro, a | b, DType::Bool, exact(), "elem.or"); break;
    case 4:
      o = garbageLike(r, so, DType::Bool);
      op::logicAndOut(o, a, b);
      expectT(ra, o, DType::Bool, exact(), "elem.andOut");
      break;
    case 5:
      o = garbageLike(r, so, DType::Bool);
      op::logicOrOut(o, a, b);
      expectT(ro, o, DType::Bool, exact(), "elem.orOut");
      break;
    case 6:
      op::logicAndInplace(a, b);
      expectT(ra, a, DType::Bool, exact(), "elem.andInplace");
      break;
    case 7:
      op::logicOrInplace(a, b);
      expectT(ro, a, DType::Bool, exact(), "elem.orInplace");
      break;
    default:
      op::logicNotInplace(a);
      expectT(rn, a, DType::Bool, exact(), "elem.notInplace");
  }
}

template <typename T>
static void scalarOf(double v, tt::Scalar& s) {
  s = tt::Scalar((T)v);
}
SUITE(elem_fill, 300) {
  auto& r = c.rng;
  DType t = r.pick(allTypes());
  Shape s = elemShape(c);
  RT x = genPayload(r, s, t);
  Tensor a = mkView(r, x, t);
  double v = r.chance(0.6) ? genVal(r, t, -9, 9) : genWild(r, t);
  tt::Scalar sc = isFloat(t) ? tt::Scalar((float)v) : t == DType::Bool ? tt::Scalar(v != 0) : r.chance(0.5) || fabs(v) > 2e9 ? tt::Scalar((int64_t)v) : tt::Scalar((int32_t)v);
  int k = (int)r.range(0, 6);
  c.desc = fmt("fill %d %s v=%g x=", k, dtn(t), v) + rtStr(x);
  note(c, "fill", t, s, std::to_string(k));
  RT m = genRT(r, s, DType::Bool);
  RT ref = x;
  for (size_t i = 0; i < ref.d.size(); i++)
    if (m.d[i]) ref.d[i] = v;
  if (k == 0) {
    a.fill_(sc);
    expectT(RT(s, v), a, t, exact(), "elem.fill_");
  } else if (k == 1) {
    Tensor mk = mkView(r, m, DType::Bool);
    Tensor o = op::fillMasked(a, mk, sc);
    expectT(ref, o, t, exact(), "elem.fillMasked");
    expectSame(x, get(a), "elem.fillMasked.input");
    expectSame(m, get(mk), "elem.fillMasked.mask");
  } else if (k == 2) {
    Tensor mk = mkView(r, m, DType::Bool);
    a.fillMasked_(mk, sc);
    expectT(ref, a, t, exact(), "elem.fillMasked_");
  } else if (k == 3) {
    Tensor mk = mkView(r, m, DType::Bool), o = garbageLike(r, s, t);
    op::fillMaskedOut(o, a, mk, sc);
    expectT(ref, o, t, exact(), "elem.fillMaskedOut");
  } else if (k == 4) {
    a.fillZero_();
    expectT(RT(s, 0), a, t, exact(), "elem.fillZero_");
  } else if (k == 5) {
    a.fillOne_();
    expectT(RT(s, 1), a, t, exact(), "elem.fillOne_");
  } else {
    Tensor o = r.chance(0.5) ? Tensor::full(IntArrayView(s), sc, optOf(t)) : Tensor::fullLike(a, sc);
    expectT(RT(s, v), o, t, exact(), "elem.full");
    expectT(RT(s, 0), Tensor::zeros(IntArrayView(s), optOf(t)), t, exact(), "elem.zeros");
    expectT(RT(s, 1), Tensor::onesLike(a), t, exact(), "elem.onesLike");
  }
}

SUITE(elem_create, 120) {
  auto& r = c.rng;
  int k = (int)r.range(0, 4);
  c.obs("elem.create");
  if (k == 0) {
    int64_t lo = r.range(-20, 20), st = r.range(1, 5) * (r.chance(0.3) ? -1 : 1), n = r.range(0, 40);
    int64_t hi = lo + st * n - (n > 0 && st > 1 ? r.range(0, st - 1) : 0);
    c.desc = fmt("arange<int64>(%lld,%lld,%lld)", (long long)lo, (long long)hi, (long long)st);
    // the element count of integer ranges: every value before the stop
    if (n > 0 && (hi - lo) % st != 0) hi = lo + st * n;
    RT ref({n});
    for (int64_t i = 0; i < n; i++) ref.d[i] = (double)(lo + i * st);
    expectT(ref, Tensor::arange<int64_t>(lo, hi, st), DType::Int64, exact(), "elem.arange");
    c.seen(c.desc);
  } else if (k == 1) {
    float lo = (float)r.range(-8, 8), st = (float)r.pick<double>({0.5, 0.25, 1, 2});
    int64_t n = r.range(0, 50);
    float hi = lo + st * n;
    c.desc = fmt("arange<float>(%g,%g,%g)", lo, hi, st);
    RT ref({n});
    for (int64_t i = 0; i < n; i++) ref.d[i] = lo + i * (double)st;
    expectT(ref, Tensor::arange<float>(lo, hi, st), DType::Float32, Cmp{1e-6, 1e-6}, "elem.arangef");
    c.seen(c.desc);
  } else if (k == 2) {
    float lo = (float)r.uniform(-5, 5), hi = (float)r.uniform(-5, 5);
    int64_t n = r.range(1, 60);
    c.desc = fmt("linspace<float>(%g,%g,%lld)", lo, hi, (long long)n);
    RT ref({n});
    for (int64_t i = 0; i < n; i++) ref.d[i] = n == 1 ? lo : lo + i * ((double)hi - lo) / (n - 1);
    expectT(ref, Tensor::linspace<float>(lo, hi, n), DType::Float32, Cmp{1e-5, 1e-5}, "elem.linspace");
    c.seen(c.desc);
  } else if (k == 3) {
    // nested vectors
    int64_t n = r.range(1, 5), m = r.range(1, 5), q = r.range(1, 4);
    std::vector<std::vector<std::vector<float>>> v3(n, std::vector<std::vector<float>>(m, std::vector<float>(q)));
    RT ref({n, m, q});
    int64_t i = 0;
    for (auto& a : v3)
      for (auto& b : a)
        for (auto& e : b) ref.d[i++] = e = (float)r.range(-50, 50);
    c.desc = "Array3d " + shapeStr(ref.shape);
    expectT(ref, Tensor(v3), DType::Float32, exact(), "elem.array3d");
    std::vector<std::vector<int64_t>> v2(n, std::vector<int64_t>(m));
    RT r2({n, m});
    i = 0;
    for (auto& a : v2)
      for (auto& e : a) r2.d[i++] = (double)(e = r.range(-50, 50));
    expectT(r2, Tensor(v2), DType::Int64, exact(), "elem.array2d");
    c.seen(c.desc);
  } else {
    DType t = r.pick(allTypes());
    Shape s = genWide(r, 4, 60);
    RT x = genRT(r, s, t);
    Tensor a = mkView(r, x, t);
    c.desc = std::string("toList ") + dtn(t) + rtStr(x);
    auto l = a.toList<float>();
    c.check(l.size() == x.d.size(), "elem.toList.size");
    for (size_t i = 0; i < l.size(); i++) c.check(l[i] == (float)x.d[i], "elem.toList", fmt("element %zu: %g vs %g", i, l[i], x.d[i]));
    if (x.numel() >= 1) {
      auto l2 = a.toList<int64_t>();
      for (size_t i = 0; i < l2.size(); i++) c.check(l2[i] == (int64_t)x.d[i], "elem.toList64", fmt("element %zu", i));
    }
    if (x.numel() == 1) c.check(a.item<float>() == (float)x.d[0], "elem.item");
    c.seen(c.desc);
  }
}
}  // namespace s_elem
