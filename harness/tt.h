// Reference tensors (double / int64 semantics, own index arithmetic, own half/bfloat16 codecs) and adapters to the
// tensors under test.
#pragma once
#include "vh.h"
#ifdef VH_MSAN
#include <sanitizer/msan_interface.h>
#endif

#include "Functions.h"
#include "Operations.h"
#include "Tensor.h"
#include "Tensor/CachedAllocator.h"
#include "Utils/RandomGenerator.h"

namespace tt = tinytorch;
using tt::DType;
using tt::IntArrayView;
using tt::SizeVector;
using tt::Tensor;
using vh::fmt;
typedef std::vector<int64_t> Shape;

// ---- independent half / bfloat16 codecs ----
inline double halfToDouble(uint16_t h) {
  int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
  double v;
  if (e == 31) v = m ? NAN : INFINITY;
  else if (e == 0) v = ldexp((double)m, -24);
  else v = ldexp((double)(1024 + m), e - 25);
  return s ? -v : v;
}
// round-to-nearest-even of a double to a binary format with `mbits` explicit mantissa bits and exponent range
inline double roundToFormat(double x, int mbits, int emin, int emax) {
  if (std::isnan(x) || std::isinf(x) || x == 0) return x;
  int e;
  frexp(x, &e);
  e -= 1;
  if (e < emin) e = emin;
  double ulp = ldexp(1.0, e - mbits);
  double q = x / ulp;
  double r = nearbyint(q);  // default rounding mode: to nearest even
  double v = r * ulp;
  double maxv = ldexp(2.0 - ldexp(1.0, -mbits), emax);
  if (fabs(v) > maxv) return x < 0 ? -INFINITY : INFINITY;
  return v;
}
inline double roundHalf(double x) { return roundToFormat(x, 10, -14, 15); }
inline double roundBF16(double x) { return roundToFormat(x, 7, -126, 127); }
inline uint16_t doubleToHalfBits(double x) {
  if (std::isnan(x)) return 0x7e00;
  uint16_t s = std::signbit(x) ? 0x8000 : 0;
  x = fabs(roundHalf(x));
  if (std::isinf(x)) return s | 0x7c00;
  if (x == 0) return s;
  int e;
  frexp(x, &e);
  e -= 1;
  if (e < -14) return s | (uint16_t)ldexp(x, 24);
  return s | (uint16_t)((e + 15) << 10) | (uint16_t)(ldexp(x, 10 - e) - 1024);
}
inline double bf16ToDouble(uint16_t b) {
  uint32_t u = (uint32_t)b << 16;
  float f;
  memcpy(&f, &u, 4);
  return f;
}
inline uint16_t doubleToBF16Bits(double x) {
  if (std::isnan(x)) return 0x7fc0;
  float f = (float)roundBF16(x);
  uint32_t u;
  memcpy(&u, &f, 4);
  return u >> 16;
}
inline double roundTo(DType t, double x) {
  switch (t) {
    case DType::Float32: return (double)(float)x;
    case DType::Float16: return roundHalf(x);
    case DType::BFloat16: return roundBF16(x);
    default: return x;
  }
}
inline bool isFloat(DType t) { return t == DType::Float32 || t == DType::Float16 || t == DType::BFloat16; }
inline const char* dtn(DType t) {
  switch (t) {
    case DType::Float32: return "f32";
    case DType::Float16: return "f16";
    case DType::BFloat16: return "bf16";
    case DType::Int32: return "i32";
    case DType::Int64: return "i64";
    default: return "bool";
  }
}
inline double epsOf(DType t) {
  switch (t) {
    case DType::Float32: return 1.2e-7;
    case DType::Float16: return 9.8e-4;
    case DType::BFloat16: return 7.9e-3;
    default: return 0;
  }
}
inline const std::vector<DType>& floatTypes() {
  static std::vector<DType> v{DType::Float32, DType::Float16, DType::BFloat16};
  return v;
}
inline const std::vector<DType>& allTypes() {
  static std::vector<DType> v{DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
  return v;
}

inline int64_t numelOf(const Shape& s) {
  int64_t n = 1;
  for (auto d : s) n *= d;
  return n;
}
inline std::string shapeStr(const Shape& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string(s[i]);
  return r + "]";
}
inline Shape toShape(IntArrayView v) { return Shape(v.begin(), v.end()); }

// ---- reference tensor ----
struct RT {
  Shape shape;
  std::vector<double> d;
  RT() = default;
  explicit RT(Shape s, double v = 0) : shape(std::move(s)), d(numelOf(shape), v) {}
  RT(Shape s, std::vector<double> v) : shape(std::move(s)), d(std::move(v)) {}
  int64_t numel() const { return (int64_t)d.size(); }
  int64_t dim() const { return (int64_t)shape.size(); }
  double& at(const Shape& idx) { return d[flat(idx)]; }
  double at(const Shape& idx) const { return d[flat(idx)]; }
  size_t flat(const Shape& idx) const {
    size_t o = 0;
    for (size_t i = 0; i < shape.size(); i++) o = o * shape[i] + idx[i];
    return o;
  }
};
// visit all indices in row-major order
template <typename F>
inline void forIdx(const Shape& s, F f) {
  int64_t n = numelOf(s);
  Shape idx(s.size(), 0);
  for (int64_t i = 0; i < n; i++) {
    f(idx, i);
    for (int k = (int)s.size() - 1; k >= 0; k--) {
      if (++idx[k] < s[k]) break;
      idx[k] = 0;
    }
  }
}
inline bool bcastShape(const Shape& a, const Shape& b, Shape& out) {
  size_t n = std::max(a.size(), b.size());
  out.assign(n, 1);
  for (size_t i = 0; i < n; i++) {
    int64_t x = i + a.size() >= n ? a[i + a.size() - n] : 1;
    int64_t y = i + b.size() >= n ? b[i + b.size() - n] : 1;
    if (x != y && x != 1 && y != 1) return false;
    out[i] = x == 1 ? y : x;
  }
  return true;
}
inline double bcastAt(const RT& t, const Shape& idx) {
  size_t o = 0, off = idx.size() - t.shape.size();
  for (size_t i = 0; i < t.shape.size(); i++) o = o * t.shape[i] + (t.shape[i] == 1 ? 0 : idx[i + off]);
  return t.d[o];
}
inline RT bcastTo(const RT& t, const Shape& s) {
  RT r(s);
  forIdx(s, [&](const Shape& i, int64_t k) { r.d[k] = bcastAt(t, i); });
  return r;
}
template <typename F>
inline RT map2(const RT& a, const RT& b, F f) {
  Shape s;
  bcastShape(a.shape, b.shape, s);
  RT r(s);
  forIdx(s, [&](const Shape& i, int64_t k) { r.d[k] = f(bcastAt(a, i), bcastAt(b, i)); });
  return r;
}
template <typename F>
inline RT map1(const RT& a, F f) {
  RT r(a.shape);
  for (size_t i = 0; i < a.d.size(); i++) r.d[i] = f(a.d[i]);
  return r;
}

// ---- adapters ----
inline void writeRaw(Tensor& t, const std::vector<double>& d) {
  void* p = t.dataPtr<>();
  size_t n = d.size();
  switch (t.dtype()) {
    case DType::Float32:
      for (size_t i = 0; i < n; i++) ((float*)p)[i] = (float)d[i];
      break;
    case DType::Float16:
      for (size_t i = 0; i < n; i++) ((uint16_t*)p)[i] = doubleToHalfBits(d[i]);
      break;
    case DType::BFloat16:
      for (size_t i = 0; i < n; i++) ((uint16_t*)p)[i] = doubleToBF16Bits(d[i]);
      break;
    case DType::Int32:
      for (size_t i = 0; i < n; i++) ((int32_t*)p)[i] = (int32_t)d[i];
      break;
    case DType::Int64:
      for (size_t i = 0; i < n; i++) ((int64_t*)p)[i] = (int64_t)d[i];
      break;
    default:
      for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = d[i] != 0;
  }
}
inline tt::Options optOf(DType t, bool rg = false) {
  tt::Options o;
  o.dtype(t);
  o.requiresGrad(rg);
  return o;
}
// plain contiguous tensor
inline Tensor mkPlain(const RT& r, DType t, bool rg = false) {
  Tensor x = Tensor::empty(IntArrayView(r.shape), optOf(t, rg));
  if (r.numel() > 0) writeRaw(x, r.d);
  return x;
}
inline double decodeAt(const void* p, DType t, int64_t i) {
  switch (t) {
    case DType::Float32: return ((const float*)p)[i];
    case DType::Float16: return halfToDouble(((const uint16_t*)p)[i]);
    case DType::BFloat16: return bf16ToDouble(((const uint16_t*)p)[i]);
    case DType::Int32: return ((const int32_t*)p)[i];
    case DType::Int64: return (double)((const int64_t*)p)[i];
    default: return ((const uint8_t*)p)[i];
  }
}
inline RT get(const Tensor& t) {
  RT r(toShape(t.shape()));
  if (r.numel() != t.numel()) throw vh::Fail{"shape", "numel does not match shape"};
  if (r.numel() == 0) return r;
  const void* p = t.dataPtr<>();
#ifdef VH_MSAN
  __msan_check_mem_is_initialized(p, t.nbytes());
#endif
  for (int64_t i = 0; i < r.numel(); i++) r.d[i] = decodeAt(p, t.dtype(), i);
  return r;
}
inline std::string rtStr(const RT& r, size_t maxN = 24) {
  std::string s = shapeStr(r.shape) + "{";
  for (size_t i = 0; i < r.d.size() && i < maxN; i++) s += fmt("%s%.9g", i ? " " : "", r.d[i]);
  if (r.d.size() > maxN) s += " ...";
  return s + "}";
}

// tensor whose storage is an offset view of a larger one (when the geometry allows), otherwise plain
inline Tensor mkView(vh::Rng& rng, const RT& r, DType t, bool* isView = nullptr) {
  if (isView) *isView = false;
  if (r.numel() == 0) return mkPlain(r, t);
  int mode = (int)rng.range(0, 3);
  if (mode == 0) return mkPlain(r, t);
  // an explicit view on a storage with leading and trailing garbage
  int64_t lead = rng.range(1, 9), trail = rng.range(0, 5);
  RT big({lead + r.numel() + trail});
  for (auto& v : big.d) v = t == DType::Bool ? 1 : 77;
  std::copy(r.d.begin(), r.d.end(), big.d.begin() + lead);
  Tensor b = mkPlain(big, t);
  if (isView) *isView = true;
  if (mode == 1 || r.dim() == 0) return Tensor(IntArrayView(r.shape), optOf(t), b.storage(), lead);
  // narrow of a bigger tensor along dim 0
  Shape bs = r.shape;
  int64_t pre = rng.range(0, 2), post = rng.range(0, 2);
  bs[0] += pre + post;
  int64_t row = numelOf(r.shape) / r.shape[0];
  RT nb(bs, t == DType::Bool ? 1 : 55);
  std::copy(r.d.begin(), r.d.end(), nb.d.begin() + pre * row);
  return tt::op::narrow(mkPlain(nb, t), (int64_t)0, pre, r.shape[0]);
}

inline double tolOf(DType t, double mul = 4) { return epsOf(t) * mul; }

struct Cmp {
  double rtol = 1e-5, atol = 1e-6;
};
inline Cmp cmpFor(DType t, double mul = 8, double absScale = 1) {
  Cmp c;
  c.rtol = epsOf(t) * mul;
  c.atol = epsOf(t) * mul * absScale;
  if (t == DType::Float16) c.atol = std::max(c.atol, 1e-7);
  return c;
}
inline Cmp exact() { return Cmp{0, 0}; }

inline bool closeEnough(double ref, double got, const Cmp& c) {
  if (std::isnan(ref) || std::isnan(got)) return std::isnan(ref) && std::isnan(got);
  if (std::isinf(ref) || std::isinf(got)) return ref == got;
  return fabs(ref - got) <= c.atol + c.rtol * fabs(ref);
}
// a result that the data type cannot hold may saturate to infinity
inline bool closeFor(DType t, double ref, double got, const Cmp& c) {
  if (closeEnough(ref, got, c)) return true;
  double lim = t == DType::Float16 ? 65504. : 3.3e38;
  if (std::isinf(got) && std::isfinite(ref) && fabs(ref) >= lim * (1 - 4 * epsOf(t)) && (ref > 0) == (got > 0)) return true;
  if (std::isinf(ref) && std::isfinite(got) && fabs(got) >= lim * (1 - 4 * epsOf(t)) && (ref > 0) == (got > 0)) return true;
  return false;
}
inline void expectT(const RT& ref, const Tensor& got, DType t, const Cmp& c, const std::string& sig) {
  if (!got.defined()) throw vh::Fail{sig + ".undefined", "result is undefined, expected " + rtStr(ref)};
  if (toShape(got.shape()) != ref.shape)
    throw vh::Fail{sig + ".shape", "shape " + shapeStr(toShape(got.shape())) + " expected " + shapeStr(ref.shape)};
  if (got.dtype() != t) throw vh::Fail{sig + ".dtype", fmt("dtype %s expected %s", dtn(got.dtype()), dtn(t))};
  RT g = get(got);
  for (size_t i = 0; i < ref.d.size(); i++)
    if (!closeFor(t, ref.d[i], g.d[i], c))
      throw vh::Fail{sig + ".value", fmt("element %zu is %.9g expected %.9g (rtol %g atol %g); ", i, g.d[i], ref.d[i], c.rtol, c.atol) +
                                         "got " + rtStr(g) + " expected " + rtStr(ref)};
}
// |got - ref| <= eps(t) * mul * mag[i] (mag: sum of the magnitudes of the terms that were added up) + smallest step
inline void expectMag(const RT& ref, const std::vector<double>& mag, const Tensor& got, DType t, double mul, const std::string& sig) {
  if (!got.defined()) throw vh::Fail{sig + ".undefined", "result is undefined, expected " + rtStr(ref)};
  if (toShape(got.shape()) != ref.shape)
    throw vh::Fail{sig + ".shape", "shape " + shapeStr(toShape(got.shape())) + " expected " + shapeStr(ref.shape)};
  if (got.dtype() != t) throw vh::Fail{sig + ".dtype", fmt("dtype %s expected %s", dtn(got.dtype()), dtn(t))};
  RT g = get(got);
  double tiny = t == DType::Float16 ? 2.5e-7 : 1e-36;
  for (size_t i = 0; i < ref.d.size(); i++) {
    double m = std::isfinite(mag[i]) ? std::max(fabs(mag[i]), std::isfinite(ref.d[i]) ? fabs(ref.d[i]) : 0) : 0;
    if (!closeFor(t, ref.d[i], g.d[i], Cmp{0, epsOf(t) * mul * m + tiny}))
      throw vh::Fail{sig + ".value", fmt("element %zu is %.9g expected %.9g (tolerance %g); ", i, g.d[i], ref.d[i], epsOf(t) * mul * m + tiny) +
                                         "got " + rtStr(g) + " expected " + rtStr(ref)};
  }
}
inline void expectMag(const RT& ref, const Tensor& got, DType t, double mul, const std::string& sig) {
  expectMag(ref, ref.d, got, t, mul, sig);
}
inline void expectSame(const RT& ref, const RT& got, const std::string& sig) {
  if (ref.shape != got.shape) throw vh::Fail{sig + ".shape", "shape " + shapeStr(got.shape) + " expected " + shapeStr(ref.shape)};
  for (size_t i = 0; i < ref.d.size(); i++)
    if (!closeEnough(ref.d[i], got.d[i], exact()))
      throw vh::Fail{sig + ".value", fmt("element %zu is %.9g expected %.9g; ", i, got.d[i], ref.d[i]) + "got " + rtStr(got) +
                                         " expected " + rtStr(ref)};
}

// ---- generators ----
inline Shape genShape(vh::Rng& r, int maxDim = 4, int64_t maxNumel = 256, bool allowScalar = true) {
  int nd = (int)r.range(allowScalar ? 0 : 1, maxDim);
  Shape s(nd);
  int64_t n = 1;
  for (auto& d : s) {
    int64_t cap = std::max<int64_t>(1, maxNumel / n);
    int k = (int)r.range(0, 9);
    int64_t v = k < 2 ? 1 : k < 8 ? r.range(1, 5) : r.range(1, 17);
    d = std::min(v, cap);
    n *= d;
  }
  r.shuffle(s);
  return s;
}
// operand that broadcasts together with `out` (some dims 1, leading dims dropped)
// now and then a shape beyond the thresholds at which an implementation may change its way of working: one long
// dimension (around powers of two) or many dimensions
inline Shape genWide(vh::Rng& r, int maxDim, int64_t maxNumel, bool allowScalar = true, double p = 0.02) {
  if (!r.chance(p)) return genShape(r, maxDim, maxNumel, allowScalar);
  if (r.chance(0.4)) {  // up to eight dimensions
    Shape s((size_t)r.range(std::min(5, maxDim), maxDim >= 5 ? 8 : maxDim));
    int64_t n = 1;
    for (auto& d : s) {
      d = n > 600 ? 1 : r.range(1, 3);
      n *= d;
    }
    r.shuffle(s);
    return s;
  }
  static const int64_t at[] = {32, 64, 128, 256, 512, 1024, 2048, 4096, 8192};
  Shape s((size_t)r.range(1, std::min(3, maxDim)), 1);
  s[r.range(0, (int64_t)s.size() - 1)] = std::max<int64_t>(1, at[r.range(0, 8)] + r.range(-2, 2));
  int64_t n = numelOf(s);
  for (auto& d : s)
    if (d == 1 && n < 3000) n *= d = r.range(1, 3);
  return s;
}
inline Shape genBcastOperand(vh::Rng& r, const Shape& out) {
  Shape s = out;
  for (auto& d : s)
    if (r.chance(0.3)) d = 1;
  if (r.chance(0.35) && !s.empty()) s.erase(s.begin(), s.begin() + r.range(0, (int64_t)s.size()));
  return s;
}
inline double genVal(vh::Rng& r, DType t, double lo, double hi) {
  switch (t) {
    case DType::Bool: return r.range(0, 1);
    case DType::Int32:
    case DType::Int64: return (double)r.range((int64_t)lo, (int64_t)hi);
    default: break;
  }
  int k = (int)r.range(0, 11);
  double v;
  if (k == 0) v = 0;
  else if (k == 1) v = (double)r.range((int64_t)ceil(lo), (int64_t)floor(hi));
  else v = r.uniform(lo, hi);
  if (v < lo || v > hi) v = lo;
  return roundTo(t, v);
}
inline RT genRT(vh::Rng& r, const Shape& s, DType t, double lo = -4, double hi = 4) {
  RT x(s);
  for (auto& v : x.d) v = genVal(r, t, lo, hi);
  return x;
}

// one element from the whole range of the data type (64-bit integers stay exactly representable as double)
inline double genWild(vh::Rng& r, DType t, bool nans = true) {
  switch (t) {
    case DType::Bool: return r.range(0, 1);
    case DType::Int32: {
      int k = (int)r.range(0, 7);
      if (k == 0) return (double)INT32_MIN;
      if (k == 1) return (double)INT32_MAX;
      double v = (double)(r.next() & ((1ull << r.range(1, 31)) - 1));
      return r.chance(0.5) ? -v : v;
    }
    case DType::Int64: {
      double v = (double)(r.next() & ((1ull << r.range(1, 53)) - 1));
      if (r.chance(0.1)) v = 9007199254740992.;
      return r.chance(0.5) ? -v : v;
    }
    default: break;
  }
  int k = (int)r.range(0, 19);
  if (k == 0) return -0.0;
  if (k == 1) return r.chance(0.5) ? INFINITY : -INFINITY;
  if (k == 2 && nans) return NAN;
  double big = t == DType::Float16 ? 65504. : t == DType::BFloat16 ? 3.3895313892515355e38 : 3.4028234663852886e38;
  int lo = t == DType::Float16 ? -24 : t == DType::BFloat16 ? -133 : -149, hi = t == DType::Float16 ? 14 : 126;
  double v = k == 3 ? big : k == 4 ? ldexp(1.0, lo) : ldexp(r.uniform(1, 2), (int)r.range(lo, hi));
  v = roundTo(t, v);
  return r.chance(0.5) ? -v : v;
}
// values for operations that only move elements: everyday ones, or the whole range of the data type
inline RT genPayload(vh::Rng& r, const Shape& s, DType t) {
  if (r.chance(0.55)) return genRT(r, s, t, -50, 50);
  RT x(s);
  for (auto& v : x.d) v = genWild(r, t);
  return x;
}

inline int64_t normDim(int64_t d, int64_t n) { return d < 0 ? d + n : d; }
// same axis, sometimes written as a negative number
inline int64_t maybeNeg(vh::Rng& r, int64_t d, int64_t n) { return r.chance(0.4) ? d - n : d; }

// every storage comes straight from the base allocator, so that sanitizers see its true bounds
inline void baseInit() { tt::CachedAllocator::setCacheEnabled(false); }
static struct BaseInitReg {
  BaseInitReg() {
    if (!vh::workerInit()) vh::workerInit() = baseInit;
  }
} baseInitReg_;

// The library asks aligned_alloc for sizes that are not multiples of the alignment, which glibc grants and the
// sanitizer runtimes refuse; posix_memalign takes them everywhere and keeps the exact size visible to sanitizers.
// In the plain flavour, memory handed out for tensor storage starts as NaN / implausible integers, so that reading an
// element that was never written shows up in the result (the sanitizer runtime does the same through its options).
#ifndef VH_PART
extern "C" void* aligned_alloc(size_t a, size_t n) {
  void* p = nullptr;
  if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n)) return nullptr;
#if defined(VH_MSAN)
  __msan_poison(p, n);
#elif !defined(VH_ASAN)
  memset(p, 0xff, n);
#endif
  return p;
}
#ifdef VH_MSAN
// memory given back by a tensor keeps its shadow; the uninstrumented C++ library writes without clearing it
#include <sanitizer/allocator_interface.h>
extern "C" void __sanitizer_malloc_hook(const volatile void* p, size_t n) {
  if (p && n) __msan_unpoison((const void*)p, n);
}
#endif
#endif
