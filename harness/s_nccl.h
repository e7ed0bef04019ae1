// C32: collectives and point-to-point operations of the NCCL backend: values, visibility after wait, lifetimes, ordering
#pragma once
#include "h_dist.h"
namespace s_nccl {
using namespace vh;
using vh::fmt;
using vh::Rng;
namespace dist = tinytorch::distributed;
enum K { BCAST, ALLRED, RED, GATHER, SCATTER, P2P, RING, NKINDS };
inline const char* kn(int k) {
  static const char* n[] = {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter", "send/recv", "ring"};
  return n[k];
}
struct Step {
  int k;
  DType dt;
  Shape s;
  dist::ReduceOpType op = dist::SUM;
  int root = 0, src = 0, dst = 0;
  uint64_t id;
  bool view;
};
// element i of tensor `part` of a rank in a step
inline double val(const Step& p, int rank, int part, int64_t i) {
  uint64_t h = vh::mix(p.id * 7919 + rank * 104729 + part * 1299709 + i * 31 + 5);
  if (p.dt == DType::Bool) return (double)(h % 2);
  if (p.op == dist::PRODUCT) return (double)(int64_t)(h % 5) - 2 == 0 ? 1 : (double)(int64_t)(h % 5) - 2;
  if (isFloat(p.dt)) return ((double)(int64_t)(h % 33) - 16) / 4;
  return (double)(int64_t)(h % 2001) - 1000;
}
inline RT rtOf(const Step& p, int rank, int part) {
  RT r(p.s);
  for (size_t i = 0; i < r.d.size(); i++) r.d[i] = val(p, rank, part, (int64_t)i);
  return r;
}
inline RT reduced(const Step& p, int n, int part) {
  RT r(p.s);
  for (size_t i = 0; i < r.d.size(); i++) {
    double a = 0;
    for (int k = 0; k < n; k++) {
      double v = val(p, k, part, (int64_t)i);
      if (!k) a = v;
      else if (p.op == dist::SUM || p.op == dist::AVG) a += v;
      else if (p.op == dist::PRODUCT) a *= v;
      else if (p.op == dist::MIN) a = std::min(a, v);
      else a = std::max(a, v);
    }
    if (p.op == dist::AVG) a /= n;
    r.d[i] = roundTo(p.dt, a);
  }
  return r;
}
// a tensor that may be part of a larger one, with the surroundings known
struct Buf {
  Tensor t, whole;
  RT wholeRef;
  int64_t lo = 0;
  Buf() = default;
  Buf(const RT& r, DType dt, bool view, uint64_t h) {
    if (!view || r.shape.empty()) {
      t = mkPlain(r, dt);
      return;
    }
    int64_t before = (int64_t)(h % 3), after = (int64_t)(h / 3 % 3);
    Shape s = r.shape;
    int64_t rows = s[0], rest = numelOf(s) / std::max<int64_t>(rows, 1);
    s[0] = rows + before + after;
    wholeRef = RT(s);
    for (auto& q : wholeRef.d) q = 1;
    lo = before * rest;
    for (size_t i = 0; i < r.d.size(); i++) wholeRef.d[lo + i] = r.d[i];
    whole = mkPlain(wholeRef, dt);
    t = whole.narrow(0, before, rows);
  }
  void around(const std::string& what) {
    if (!whole.defined()) return;
    RT g = get(whole);
    for (int64_t i = 0; i < (int64_t)g.d.size(); i++)
      if (i < lo || i >= lo + t.numel()) hd::check(g.d[i] == 1, "nccl.outside", what + ": memory around the tensor changed");
  }
};
struct Run {  // one step in flight on one rank
  Step p;
  std::vector<std::shared_ptr<dist::Work>> works;
  std::vector<Buf> in, out;
  std::vector<RT> expOut;  // per out
  bool resultOnly = false;
};
inline void launch(Run& q, int rank, int n, const hd::PG& pg, Rng& r) {
  auto& p = q.p;
  auto buf = [&](const RT& v) { return Buf(v, p.dt, p.view, r.next()); };
  auto junk = [&] {
    RT j(p.s);
    for (auto& x : j.d) x = p.dt == DType::Bool ? 1 : 77;
    return j;
  };
  switch (p.k) {
    case BCAST: {
      q.out.push_back(buf(rtOf(p, rank, 0)));
      q.expOut.push_back(rtOf(p, p.root, 0));
      std::vector<Tensor> v{q.out[0].t};
      q.works.push_back(pg->broadcast(v, p.root));
      break;
    }
    case ALLRED: {
      q.out.push_back(buf(rtOf(p, rank, 0)));
      q.expOut.push_back(reduced(p, n, 0));
      std::vector<Tensor> v{q.out[0].t};
      q.works.push_back(pg->allReduce(v, p.op));
      break;
    }
    case RED: {
      q.out.push_back(buf(rtOf(p, rank, 0)));
      q.expOut.push_back(rank == p.root ? reduced(p, n, 0) : RT());
      std::vector<Tensor> v{q.out[0].t};
      q.works.push_back(pg->reduce(v, p.root, p.op));
      break;
    }
    case GATHER: {
      q.in.push_back(buf(rtOf(p, rank, 0)));
      std::vector<std::vector<Tensor>> o(1);
      for (int k = 0; k < n; k++) {
        q.out.push_back(buf(junk()));
        q.expOut.push_back(rtOf(p, k, 0));
        o[0].push_back(q.out.back().t);
      }
      std::vector<Tensor> v{q.in[0].t};
      q.works.push_back(pg->allGather(o, v));
      break;
    }
    case SCATTER: {
      std::vector<std::vector<Tensor>> i(1);
      for (int k = 0; k < n; k++) {
        q.in.push_back(buf(rtOf(p, rank, k)));
        i[0].push_back(q.in.back().t);
      }
      q.out.push_back(buf(junk()));
      q.expOut.push_back(reduced(p, n, rank));
      std::vector<Tensor> o{q.out[0].t};
      q.works.push_back(pg->reduceScatter(o, i, p.op));
      break;
    }
    case P2P:
    case RING: {
      // ring: even ranks send first, odd ones receive first
      auto send = [&](int to) {
        q.in.push_back(buf(rtOf(p, rank, 0)));
        std::vector<Tensor> v{q.in.back().t};
        q.works.push_back(pg->send(v, to));
      };
      auto recv = [&](int from) {
        q.out.push_back(buf(junk()));
        q.expOut.push_back(rtOf(p, from, 0));
        std::vector<Tensor> v{q.out.back().t};
        q.works.push_back(pg->recv(v, from));
      };
      if (p.k == P2P) {
        if (rank == p.src) send(p.dst);
        else if (rank == p.dst) recv(p.src);
      } else if (n > 1) {
        // the operations of one rank run in order: rank 0 sends first, the others receive first
        if (rank == 0) send(1), recv(n - 1);
        else recv(rank - 1), send((rank + 1) % n);
      }
      break;
    }
  }
}
inline void finish(Run& q, int rank, Rng& r) {
  auto& p = q.p;
  std::string what = fmt("%s of %s%s on rank %d", kn(p.k), dtn(p.dt), shapeStr(p.s).c_str(), rank);
  for (size_t i = 0; i < q.works.size(); i++) {
    auto& w = q.works[i];
    hd::check(w != nullptr, "nccl.noWork", what + ": no work object");
    int how = (int)r.range(0, 3);
    bool ok = true, polled = false;
    if (how == 0) ok = w->wait(std::chrono::milliseconds(60000));
    else if (how == 1) {
      while (!w->isCompleted()) std::this_thread::sleep_for(std::chrono::microseconds(30));
      ok = w->isSuccess();
      polled = r.chance(0.5);  // having seen it complete is as good as having waited
      if (!polled) ok = w->wait() && ok;
    } else ok = w->wait();
    hd::check(ok && w->isSuccess() && w->exception().empty(), "nccl.failed", what + ": reported failed");
    hd::check(polled || w->isCompleted(), "nccl.completed", what + ": waited for but not completed");
    hd::check(w->getRank() == rank, "nccl.rank", what + ": work names another rank");
    static const dist::OpType ot[] = {dist::OpType::BROADCAST, dist::OpType::ALL_REDUCE, dist::OpType::REDUCE, dist::OpType::ALL_GATHER, dist::OpType::REDUCE_SCATTER};
    if (p.k < P2P) hd::check(w->getOpType() == ot[p.k], "nccl.opType", what + ": work names another operation");
  }
  bool resOnly = p.k < P2P && r.chance(0.3);
  if (resOnly) {  // the caller keeps only the work object
    auto res = q.works[0]->result();
    hd::check(res.size() == q.out.size(), "nccl.result", what + fmt(": %zu results for %zu outputs", res.size(), q.out.size()));
    for (size_t i = 0; i < res.size(); i++)
      if (q.expOut[i].d.size()) expectT(q.expOut[i], res[i], p.dt, cmpFor(p.dt, 2), "nccl.resultValue");
  }
  for (size_t i = 0; i < q.out.size(); i++) {
    // a reduction leaves nothing defined on the ranks other than its root
    if (p.k == RED && rank != p.root) continue;
    try {
      expectT(q.expOut[i], q.out[i].t, p.dt, p.op == dist::AVG && isFloat(p.dt) ? cmpFor(p.dt, 2) : exact(), "nccl.value");
    } catch (vh::Fail& f) {
      throw vh::Fail{f.sig, what + fmt(" output %zu: ", i) + f.msg};
    }
    q.out[i].around(what);
  }
  for (size_t i = 0; i < q.in.size(); i++) {
    expectT(rtOf(p, rank, p.k == SCATTER ? (int)i : 0), q.in[i].t, p.dt, exact(), "nccl.inputChanged");
    q.in[i].around(what);
  }
}
inline std::vector<Step> plan(Rng& r, int n, int count) {
  std::vector<Step> v;
  for (int i = 0; i < count; i++) {
    Step p;
    p.k = (int)r.range(0, NKINDS - 1);
    p.dt = r.pick(allTypes());
    p.s = r.chance(0.1) ? Shape{(int64_t)r.range(500, 3000)} : genShape(r, 3, 60);
    p.op = r.pick<dist::ReduceOpType>({dist::SUM, dist::SUM, dist::AVG, dist::PRODUCT, dist::MIN, dist::MAX});
    if (p.dt == DType::Bool) p.op = r.chance(0.5) ? dist::MIN : dist::MAX;
    if (!isFloat(p.dt) && p.op == dist::AVG) p.op = dist::SUM;
    p.root = (int)r.range(0, n - 1);
    p.src = (int)r.range(0, n - 1);
    p.dst = n > 1 ? (p.src + (int)r.range(1, n - 1)) % n : p.src;
    if (p.k == P2P && n == 1) p.k = BCAST;
    p.id = r.next();
    p.view = r.chance(0.3);
    v.push_back(p);
  }
  // the communicator is made by the first operation of every rank
  bool all = n <= 2;
  for (auto& p : v) all = all || p.k != P2P;
  if (!all) v[0].k = BCAST;
  return v;
}
SUITE(nccl_ops, 100) {
  auto& r = c.rng;
  int n = (int)r.range(1, c.thorough ? 6 : 4), rounds = r.chance(0.15) ? 2 : 1;
  for (int round = 0; round < rounds; round++) {
    auto steps = plan(r, n, (int)r.range(1, c.thorough ? 20 : 8));
    hf::Scratch dir;
    auto cfg = hd::genCfg(r);
    fnccl::reset(cfg, r.next());
    uint64_t seed = r.next();
    std::string d = fmt("%d ranks, delays up to %u us, in progress %d%%: ", n, cfg.maxDelayUs, cfg.inProgress);
    for (auto& p : steps) d += fmt("%s(%s%s,op%d,root%d,%d>%d%s) ", kn(p.k), dtn(p.dt), shapeStr(p.s).c_str(), (int)p.op, p.root, p.src, p.dst, p.view ? ",part" : "");
    c.desc = d;
    double overlap = r.pick<double>({0, 0.5, 1});
    // outlive the executors: after a failed check operations may still be under way
    std::vector<std::vector<std::unique_ptr<Run>>> all(n);
    hd::ranks(n, [&](int rank) {
      Rng q(seed + rank * 977);
      if (q.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(q.range(0, 2000)));
      auto pg = hd::join(dir.dir, rank, n);
      auto& fly = all[rank];
      for (auto& p : steps) {
        auto run = std::make_unique<Run>();
        run->p = p;
        launch(*run, rank, n, pg, q);
        fly.push_back(std::move(run));
        // memory that was given back is used again
        if (q.chance(0.5)) {
          RT x(p.s);
          for (auto& e : x.d) e = 1;
          for (int k = 0; k < 3; k++) (void)mkPlain(x, p.dt);
        }
        while (!fly.empty() && !q.chance(overlap)) {
          size_t i = (size_t)q.range(0, fly.size() - 1);
          finish(*fly[i], rank, q);
          fly.erase(fly.begin() + i);
        }
      }
      while (!fly.empty()) {
        size_t i = (size_t)q.range(0, fly.size() - 1);
        finish(*fly[i], rank, q);
        fly.erase(fly.begin() + i);
      }
      pg->destroyProcessGroup();
      hd::check(!pg->isInitialized(), "nccl.destroyed", "still initialised after destroyProcessGroup");
    });
    hd::faults(c);
    c.check(fnccl::quiesce(), "nccl.streams", "streams left behind");
    c.check(fnccl::W().liveComms == 0, "nccl.comms", "communicators left behind");
    c.check(fnccl::W().liveEvents == 0, "nccl.events", "events left behind");
    c.obs("nccl.steps", steps.size());
    std::string key = fmt("%d", n);
    for (auto& p : steps) {
      c.obs(std::string("nccl.") + kn(p.k));
      key += fmt(",%d.%d.%d.%zu", p.k, (int)p.dt, (int)p.op, p.s.size());
    }
    c.seen(key);
  }
}
}  // namespace s_nccl
