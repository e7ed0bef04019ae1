// Offline linearizability checker (Wing-Gong search with memoisation) for key-value histories
#pragma once
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "vh.h"
namespace lin {
enum Kind { SET, GET, ADD, DEL, CHECK, NUM, WAIT };
struct Op {
  int kind = 0, client = 0;
  std::vector<std::string> keys;
  std::string value;    // argument of SET, result of GET
  int64_t num = 0;      // argument of ADD
  int64_t result = 0;   // ADD, DEL, CHECK, NUM
  int64_t inv = 0, res = 0;
  std::string str() const {
    static const char* n[] = {"set", "get", "add", "delete", "check", "numKeys", "wait"};
    std::string s = vh::fmt("c%d [%lld,%lld] %s(", client, (long long)inv / 1000, (long long)res / 1000, n[kind]);
    for (auto& k : keys) s += k.substr(0, 24) + " ";
    if (kind == SET) s += "= " + value.substr(0, 24) + vh::fmt("<%zu>", value.size());
    if (kind == ADD) s += vh::fmt("+ %lld", (long long)num);
    s += ")";
    if (kind == GET) s += " -> " + value.substr(0, 24) + vh::fmt("<%zu>", value.size());
    if (kind == ADD || kind == DEL || kind == CHECK || kind == NUM) s += vh::fmt(" -> %lld", (long long)result);
    return s;
  }
};
typedef std::map<std::string, std::string> State;
inline bool apply(State& st, const Op& o) {
  auto has = [&](const std::string& k) { return st.count(k) > 0; };
  switch (o.kind) {
    case SET: st[o.keys[0]] = o.value; return true;
    case GET: {
      auto it = st.find(o.keys[0]);
      return it != st.end() && it->second == o.value;
    }
    case ADD: {
      auto it = st.find(o.keys[0]);
      int64_t v = o.num + (it == st.end() || it->second.empty() ? 0 : atoll(it->second.c_str()));
      if (v != o.result) return false;
      st[o.keys[0]] = std::to_string(v);
      return true;
    }
    case DEL: return (st.erase(o.keys[0]) > 0) == (o.result != 0);
    case CHECK: return std::all_of(o.keys.begin(), o.keys.end(), has) == (o.result != 0);
    case NUM: return (int64_t)st.size() == o.result;
    default: return std::all_of(o.keys.begin(), o.keys.end(), has);
  }
}
enum Verdict { OK, BAD, UNDECIDED };
struct Checker {
  const std::vector<Op>& h;
  size_t n, steps = 0, maxSteps;
  std::unordered_set<uint64_t> memo;
  size_t best = 0;
  std::vector<size_t> bestOrder, order;
  Checker(const std::vector<Op>& hist, size_t maxSteps) : h(hist), n(hist.size()), maxSteps(maxSteps) {}
  static uint64_t hashState(const State& s) {
    uint64_t x = 7;
    for (auto& [k, v] : s) x = vh::mix(vh::hashBytes(v.data(), v.size(), vh::hashBytes(k.data(), k.size(), x)) + v.size() * 31 + k.size());
    return x;
  }
  Verdict dfs(uint64_t d0, uint64_t d1, size_t cnt, const State& st) {
    if (cnt == n) return OK;
    if (++steps > maxSteps) return UNDECIDED;
    if (!memo.insert(vh::mix(d0 ^ vh::mix(d1)) ^ hashState(st)).second) return BAD;
    if (cnt > best) best = cnt, bestOrder = order;
    auto done = [&](size_t i) { return ((i < 64 ? d0 >> i : d1 >> (i - 64)) & 1) != 0; };
    int64_t minRes = INT64_MAX;
    for (size_t i = 0; i < n; i++)
      if (!done(i)) minRes = std::min(minRes, h[i].res);
    for (size_t i = 0; i < n; i++) {
      if (done(i) || h[i].inv > minRes) continue;
      State s2 = st;
      if (!apply(s2, h[i])) continue;
      order.push_back(i);
      Verdict v = dfs(i < 64 ? d0 | 1ull << i : d0, i < 64 ? d1 : d1 | 1ull << (i - 64), cnt + 1, s2);
      if (v != BAD) return v;
      order.pop_back();
    }
    return BAD;
  }
};
// at most 128 operations
inline Verdict check(std::vector<Op> h, const State& init, std::string* why = nullptr, size_t maxSteps = 3000000) {
  std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
  Checker c(h, maxSteps);
  Verdict v = c.dfs(0, 0, 0, init);
  if (v == BAD && why) {
    *why = vh::fmt("no order of the %zu operations explains the results; longest explainable prefix has %zu:", h.size(), c.best);
    std::set<size_t> in(c.bestOrder.begin(), c.bestOrder.end());
    size_t shown = 0;
    for (size_t i = 0; i < h.size() && shown < 40; i++)
      if (!in.count(i) || shown < 30) *why += "\n  " + std::string(in.count(i) ? "  " : "! ") + h[i].str(), shown++;
  }
  return v;
}
inline int64_t nowNs() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
// number of pairs of operations that overlapped in time
inline size_t overlaps(const std::vector<Op>& h) {
  size_t k = 0;
  for (size_t i = 0; i < h.size(); i++)
    for (size_t j = 0; j < i; j++) k += h[i].inv < h[j].res && h[j].inv < h[i].res;
  return k;
}
// shape of the interleaving: order of all invocations and responses
inline uint64_t interleaving(const std::vector<Op>& h) {
  std::vector<std::pair<int64_t, int>> ev;
  for (auto& o : h) ev.push_back({o.inv, o.client * 2}), ev.push_back({o.res, o.client * 2 + 1});
  std::sort(ev.begin(), ev.end());
  uint64_t x = 3;
  for (auto& [t, e] : ev) x = vh::mix(x * 64 + (uint64_t)e);
  return x;
}
// unsynchronised pseudo-random delays inside wrapped system calls
inline volatile int& delays() {
  static volatile int d = 0;  // per cent of calls that are delayed
  return d;
}
inline uint64_t& delaySeed() {
  static thread_local uint64_t s = (uint64_t)(uintptr_t)&s ^ (uint64_t)nowNs();
  return s;
}
inline void maybeDelay(int maxUs = 300) {
  int d = delays();
  if (!d) return;
  uint64_t x = delaySeed() = vh::mix(delaySeed());
  if ((int)(x % 100) >= d) return;
  x >>= 8;
  if (x & 1) sched_yield();
  else {
    timespec ts{0, (long)((x >> 1) % (uint64_t)maxUs) * 1000};
    nanosleep(&ts, nullptr);
  }
}
}  // namespace lin
