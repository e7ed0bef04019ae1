// C29: the inline-storage vector against std::vector, with elements that watch their own lifetime
#pragma once
#include <unordered_map>
#include "tt.h"
#include "Utils/VectorUtils.h"
namespace s_small {
using namespace vh;
struct Reg {
  std::unordered_map<const void*, int> live;
  uint64_t made = 0, gone = 0;
  std::string fault;
  void bad(const std::string& s) {
    if (fault.empty()) fault = s;
  }
};
inline Reg& reg() {
  static Reg r;
  return r;
}
// every construction, assignment and destruction must hit the right kind of memory
struct Watched {
  int64_t v;
  const Watched* self;
  int64_t* heap;
  void born() {
    self = this;
    heap = new int64_t(v);
    reg().made++;
    if (!reg().live.emplace(this, 1).second) reg().bad("constructed over a live element");
  }
  void ok(const char* what) const {
    if (!reg().live.count(this)) reg().bad(std::string(what) + " an element that is not alive");
    else if (self != this) reg().bad(std::string(what) + " an element that was moved bytewise");
  }
  Watched() : v(0) { born(); }
  Watched(int64_t x) : v(x) { born(); }
  Watched(const Watched& o) : v(o.v) {
    o.ok("copying");
    born();
  }
  Watched(Watched&& o) noexcept : v(o.v) {
    o.ok("moving");
    o.v = -99;
    if (reg().live.count(&o)) *o.heap = -99;
    born();
  }
  Watched& operator=(const Watched& o) {
    o.ok("copying");
    ok("assigning to");
    v = o.v;
    if (reg().live.count(this)) *heap = v;
    return *this;
  }
  Watched& operator=(Watched&& o) noexcept {
    o.ok("moving");
    ok("assigning to");
    v = o.v;
    if (reg().live.count(this)) *heap = v;
    if (&o != this) {
      o.v = -99;
      if (reg().live.count(&o)) *o.heap = -99;
    }
    return *this;
  }
  ~Watched() {
    ok("destroying");
    reg().gone++;
    if (reg().live.erase(this)) delete heap;
  }
  bool operator==(const Watched& o) const {
    ok("comparing");
    o.ok("comparing");
    return v == o.v && *heap == v;
  }
};
struct alignas(64) Wide {
  int64_t v = 0;
  char pad[70] = {};
  Wide() = default;
  Wide(int64_t x) : v(x) { pad[69] = (char)x; }
  bool operator==(const Wide& o) const { return v == o.v && pad[69] == o.pad[69]; }
};
template <typename T> T mk(int64_t x) { return T(x); }
template <> inline std::string mk<std::string>(int64_t x) { return x % 3 ? std::to_string(x) : std::string((size_t)(x % 40 + 20), (char)('a' + x % 26)); }
template <> inline std::shared_ptr<int> mk<std::shared_ptr<int>>(int64_t x) {
  static std::vector<std::shared_ptr<int>> all;
  while ((int64_t)all.size() <= x % 50) all.push_back(std::make_shared<int>((int)all.size()));
  return all[x % 50];
}
template <> inline Tensor mk<Tensor>(int64_t x) { return Tensor::scalar(tt::Scalar((float)x)); }
template <typename T> bool eq(const T& a, const T& b) { return a == b; }
template <> inline bool eq<Tensor>(const Tensor& a, const Tensor& b) {
  return a.defined() == b.defined() && (!a.defined() || (a.dim() == 0 && b.dim() == 0 && a.item<float>() == b.item<float>()));
}
template <typename T, size_t N>
void run(Case& c, const char* tn) {
  typedef tt::SmallVector<T, N> SV;
  auto& r = c.rng;
  reg() = Reg();
  std::string log;
  int64_t nextV = r.range(1, 100);
  auto val = [&] { return mk<T>(nextV++ % 200); };
  {
    const int K = 3;
    std::vector<std::unique_ptr<SV>> a;
    std::vector<std::vector<T>> m(K);
    for (int i = 0; i < K; i++) a.push_back(std::make_unique<SV>());
    auto fail = [&](const std::string& s) {
      c.desc = fmt("%s inline %zu:", tn, N) + log;
      c.fail("small", s);
    };
    auto verify = [&] {
      if (!reg().fault.empty()) fail(reg().fault);
      size_t total = 0;
      for (int i = 0; i < K; i++) {
        const SV& s = *a[i];
        auto& v = m[i];
        total += v.size();
        if (s.size() != v.size() || s.empty() != v.empty()) fail(fmt("#%d: size %zu (empty %d), expected %zu", i, s.size(), s.empty(), v.size()));
        if (s.capacity() < s.size()) fail(fmt("#%d: capacity %zu below size %zu", i, s.capacity(), s.size()));
        if ((uintptr_t)s.data() % alignof(T)) fail(fmt("#%d: misaligned", i));
        for (size_t k = 0; k < v.size(); k++)
          if (!eq(s[k], v[k]) || &s[k] != s.data() + k) fail(fmt("#%d: element %zu of %zu differs", i, k, v.size()));
        size_t k = 0;
        for (auto& x : s)
          if (k >= v.size() || !eq(x, v[k++])) fail(fmt("#%d: iteration differs", i));
        if (k != v.size() || (size_t)(s.end() - s.begin()) != v.size()) fail(fmt("#%d: iteration covers %zu of %zu", i, k, v.size()));
        if (!v.empty() && (!eq(s.front(), v.front()) || !eq(s.back(), v.back()) || !eq(a[i]->front(), v.front()) || !eq(a[i]->back(), v.back()))) fail(fmt("#%d: front or back differ", i));
        auto w = s.view();
        if (w.size() != v.size() || (v.size() && (w.data() != s.data() || !eq(w[v.size() - 1], v.back()) || !eq(w.front(), v.front()) || !eq(w.back(), v.back())))) fail(fmt("#%d: view differs", i));
        if (!reg().fault.empty()) fail(reg().fault);
      }
      if constexpr (std::is_same_v<T, Watched>)
        if (reg().live.size() != 2 * total) fail(fmt("%zu elements alive, expected %zu", reg().live.size(), 2 * total));
    };
    int steps = (int)r.range(5, c.thorough ? 120 : 50);
    for (int st = 0; st < steps; st++) {
      int i = (int)r.range(0, K - 1), j = (int)r.range(0, K - 1);
      SV& s = *a[i];
      auto& v = m[i];
      int op = (int)r.range(0, 21);
      size_t big = (size_t)r.range(0, r.chance(0.2) ? 40 : (int64_t)(2 * N + 2));
      log += fmt(" %d:%d", i, op);
      c.obs(fmt("small.op%02d", op));
      size_t cap0 = s.capacity();
      switch (op) {
        case 0: case 1: case 2: {
          T x = val();
          s.pushBack(x);
          v.push_back(x);
          break;
        }
        case 3: {  // an element of itself
          if (v.empty()) break;
          size_t k = (size_t)r.range(0, (int64_t)v.size() - 1);
          s.pushBack(s[k]);
          v.push_back(T(v[k]));
          break;
        }
        case 4: {
          T x = val();
          v.push_back(x);
          s.pushBack(std::move(x));
          break;
        }
        case 5: case 6: case 7: {
          size_t k = r.chance(0.25) ? 0 : r.chance(0.3) ? v.size() : (size_t)r.range(0, (int64_t)v.size());
          log += fmt("@%zu", k);
          if (op == 7 && !v.empty()) {
            size_t q = (size_t)r.range(0, (int64_t)v.size() - 1);
            T* p = s.insert(s.begin() + k, s[q]);
            v.insert(v.begin() + k, T(v[q]));
            if (p != s.begin() + k) fail("insert returns another place");
          } else {
            T x = val();
            T* p = s.insert(s.begin() + k, x);
            v.insert(v.begin() + k, x);
            if (p != s.begin() + k) fail("insert returns another place");
          }
          break;
        }
        case 8:
          s.resize(big);
          v.resize(big);
          break;
        case 9: {
          if (!v.empty() && r.chance(0.4)) {
            size_t q = (size_t)r.range(0, (int64_t)v.size() - 1);
            T x = v[q];
            s.resize(big, s[q]);
            v.resize(big, x);
          } else {
            T x = val();
            s.resize(big, x);
            v.resize(big, x);
          }
          break;
        }
        case 10:
          s.reserve(big);
          if (s.capacity() < big) fail("reserve");
          break;
        case 11:
          if (r.chance(0.4)) s.clear(), v.clear();
          break;
        case 12:  // copies, also of itself
          s = *a[j];
          if (i != j) v = m[j];
          break;
        case 13:
          if (i == j) break;
          s = std::move(*a[j]);
          v = m[j];
          a[j]->clear();
          m[j].clear();
          break;
        case 14: {
          auto n = std::make_unique<SV>(*a[j]);
          std::vector<T> q = m[j];
          a[i] = std::move(n);
          v = std::move(q);
          break;
        }
        case 15: {
          auto n = std::make_unique<SV>(std::move(*a[j]));
          std::vector<T> q = m[j];
          if (r.chance(0.5)) {  // the source goes on living
            a[j]->clear();
            m[j].clear();
            T x = val();
            a[j]->pushBack(x);
            m[j].push_back(x);
          } else {
            a[j] = std::make_unique<SV>();
            m[j].clear();
          }
          a[i] = std::move(n);
          m[i] = std::move(q);
          break;
        }
        case 16:
          if (r.chance(0.5)) {
            a[i] = std::make_unique<SV>(big);
            v = std::vector<T>(big);
          } else {
            T x = val();
            a[i] = std::make_unique<SV>(big, x);
            v = std::vector<T>(big, x);
          }
          break;
        case 17: {
          std::vector<T> q;
          for (size_t k = 0; k < big; k++) q.push_back(val());
          if (r.chance(0.5)) a[i] = std::make_unique<SV>(q);
          else s = q;
          v = q;
          break;
        }
        case 18: {
          T x = val(), y = val(), z = val();
          if (r.chance(0.5)) {
            a[i] = std::make_unique<SV>(std::initializer_list<T>{x, y, z});
            v = {x, y, z};
          } else {
            s = {x, y, z, x, y, z, x};
            v = {x, y, z, x, y, z, x};
          }
          break;
        }
        case 19: {  // from a view, also of itself
          auto w = a[j]->view();
          std::vector<T> q = m[j];
          size_t from = (size_t)r.range(0, (int64_t)q.size()), len = (size_t)r.range(0, (int64_t)(q.size() - from));
          tt::ArrayView<T> part(w.data() + from, len);
          if (r.chance(0.5)) a[i] = std::make_unique<SV>(part);
          else s = part;
          v.assign(q.begin() + from, q.begin() + from + len);
          break;
        }
        case 20: {
          if (v.empty()) break;
          size_t k = (size_t)r.range(0, (int64_t)v.size() - 1);
          T x = val();
          s[k] = x;
          v[k] = x;
          if (r.chance(0.5)) {
            *(s.end() - 1) = x;
            v.back() = x;
          }
          break;
        }
        default: {  // comparisons
          if constexpr (!std::is_same_v<T, Tensor>) {
            bool same = m[i] == m[j];
            if ((a[i]->view() == a[j]->view()) != same || (a[i]->view() != a[j]->view()) == same) fail(fmt("#%d and #%d compare wrongly", i, j));
            tt::ArrayView<T> x(m[i]);
            if constexpr (N == 5) {
              if ((*a[j] == x) != same || (*a[j] != x) == same) fail(fmt("#%d and a view of #%d's elements compare wrongly", j, i));
            }
            // one element more, or another last element
            std::vector<T> q = m[j];
            q.push_back(val());
            if (a[j]->view() == tt::ArrayView<T>(q) || !(a[j]->view() != tt::ArrayView<T>(q))) fail("equal to a longer one");
            if (!m[j].empty()) {
              q.pop_back();
              size_t k = (size_t)r.range(0, (int64_t)q.size() - 1);
              q[k] = mk<T>(333);
              if (!(q[k] == m[j][k]) && a[j]->view() == tt::ArrayView<T>(q)) fail(fmt("equal although element %zu differs", k));
            }
          }
        }
      }
      if (op != 12 && op != 13 && cap0 <= N && a[i]->capacity() > N) c.obs("small.toHeap");
      verify();
      c.obs("small.steps");
    }
  }
  if constexpr (std::is_same_v<T, Watched>) {
    c.desc = fmt("%s inline %zu:", tn, N) + log;
    c.check(reg().live.empty() && reg().fault.empty(), "small.left", reg().fault + fmt(" %zu elements never destroyed", reg().live.size()));
    c.check(reg().made == reg().gone, "small.balance", fmt("%llu constructed, %llu destroyed", (unsigned long long)reg().made, (unsigned long long)reg().gone));
    c.obs("small.lifetimes", (int64_t)reg().made);
  }
  c.seen(fmt("%s %zu", tn, N) + log);
}
SUITE(small_vector, 200) {
  switch (c.index % 13) {
    case 0: run<Watched, 5>(c, "watched"); break;
    case 1: run<Watched, 1>(c, "watched"); break;
    case 2: run<Watched, 2>(c, "watched"); break;
    case 3: run<Watched, 8>(c, "watched"); break;
    case 4: run<int64_t, 5>(c, "int64"); break;
    case 5: run<int64_t, 3>(c, "int64"); break;
    case 6: run<uint8_t, 5>(c, "uint8"); break;
    case 7: run<std::string, 5>(c, "string"); break;
    case 8: run<std::string, 4>(c, "string"); break;
    case 9: run<std::shared_ptr<int>, 5>(c, "shared_ptr"); break;
    case 10: run<Wide, 3>(c, "wide"); break;
    case 11: run<Tensor, 5>(c, "tensor"); break;
    default: run<double, 7>(c, "double");
  }
}
}  // namespace s_small
