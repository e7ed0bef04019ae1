// In-process stand-in for the CUDA stream and NCCL layers: ranks are threads of this process, a stream is an executor
// thread, a communicator is a rendezvous. Operations run asynchronously, read and write the caller's buffers only when
// they execute, and are delayed at random, so that a missing wait, a missing dependency, a wrong buffer or a buffer that
// is gone by then shows in the data. Misuse (operations on a communicator that is not ready, ranks disagreeing on an
// operation, ranks that never meet) is recorded as a fault.
// Include in exactly one translation unit.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <vector>

#include "dist_shim.h"
#include <nccl.h>
#include "Utils/Half.h"
#include "Utils/BFloat16.h"

namespace fnccl {
using Clock = std::chrono::steady_clock;

struct Cfg {
  unsigned maxDelayUs = 0;   // per operation
  int inProgress = 0;        // probability (percent) that a group end reports ncclInProgress
  int initPolls = 0;         // polls before a communicator is reported ready once every rank joined
  int opTimeoutMs = 8000;
};

struct World {
  std::mutex m;
  std::condition_variable cv;
  Cfg cfg;
  std::mt19937_64 rng{1};
  std::vector<std::string> faults;
  std::vector<size_t> allReduced;  // element counts
  int liveStreams = 0, liveEvents = 0, liveComms = 0;
  uint64_t nextId = 1;
  std::atomic<uint64_t> ops{0}, waits{0}, lateWaits{0}, inProgressSeen{0};
  std::atomic<bool> stop{false};  // a rank failed: nobody waits for it any more
  void fault(const std::string& s) {
    std::lock_guard<std::mutex> l(m);
    if (faults.size() < 20 && !stop) faults.push_back(s);
  }
  unsigned rnd(unsigned n) {
    std::lock_guard<std::mutex> l(m);
    return n ? (unsigned)(rng() % n) : 0;
  }
};
inline World& W() {
  static World* w = new World;  // executor threads may outlive static destruction
  return *w;
}
}  // namespace fnccl

struct FakeEvent {
  std::mutex m;
  std::condition_variable cv;
  uint64_t want = 0, got = 0;  // recordings requested and executed
  int refs = 1;
};

struct FakeStream {
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::function<void()>> q;
  bool host = false, closing = false, busy = false;
};

namespace fnccl {
inline void streamMain(FakeStream* s) {
  for (;;) {
    std::function<void()> f;
    {
      std::unique_lock<std::mutex> l(s->m);
      s->cv.wait(l, [&] { return s->closing || !s->q.empty(); });
      if (s->q.empty()) break;
      f = std::move(s->q.front());
      s->q.pop_front();
      s->busy = true;
    }
    f();
    f = nullptr;
    {
      std::lock_guard<std::mutex> l(s->m);
      s->busy = false;
    }
    s->cv.notify_all();
  }
  delete s;
  {
    std::lock_guard<std::mutex> l(W().m);
    W().liveStreams--;
  }
  W().cv.notify_all();
}
cudaStream_t newStream() {
  auto* s = new FakeStream;
  {
    std::lock_guard<std::mutex> l(W().m);
    W().liveStreams++;
  }
  std::thread(streamMain, s).detach();
  return s;
}
void freeStream(cudaStream_t s) {
  if (s->host) return;
  {
    std::lock_guard<std::mutex> l(s->m);
    s->closing = true;
    s->cv.notify_all();  // under the lock: the executor frees the stream once it sees this
  }
}
cudaStream_t hostStream() {
  static FakeStream* h = [] {
    auto* s = new FakeStream;
    s->host = true;
    return s;
  }();
  return h;
}
void post(cudaStream_t s, std::function<void()> f) {
  if (s->host) {
    f();
    return;
  }
  std::lock_guard<std::mutex> l(s->m);
  s->q.push_back(std::move(f));
  s->cv.notify_all();
}
void streamSync(cudaStream_t s) {
  if (s->host) return;
  std::unique_lock<std::mutex> l(s->m);
  s->cv.wait(l, [&] { return s->q.empty() && !s->busy; });
}
cudaEvent_t newEvent() {
  std::lock_guard<std::mutex> l(W().m);
  W().liveEvents++;
  return new FakeEvent;
}
inline void unref(FakeEvent* e) {
  bool last;
  {
    std::lock_guard<std::mutex> l(e->m);
    last = --e->refs == 0;
  }
  if (last) delete e;
}
void freeEvent(cudaEvent_t e) {
  {
    std::lock_guard<std::mutex> l(W().m);
    W().liveEvents--;
  }
  unref(e);
}
void eventRecord(cudaEvent_t e, cudaStream_t s) {
  uint64_t n;
  {
    std::lock_guard<std::mutex> l(e->m);
    n = ++e->want;
    e->refs++;
  }
  post(s, [e, n] {
    {
      std::lock_guard<std::mutex> l(e->m);
      e->got = std::max(e->got, n);
      e->cv.notify_all();
    }
    unref(e);
  });
}
void eventBlock(cudaStream_t s, cudaEvent_t e) {
  W().waits++;
  if (!s->host) {
    W().fault("an event blocks a stream other than the calling thread's");
    return;
  }
  std::unique_lock<std::mutex> l(e->m);
  if (e->got < e->want) W().lateWaits++;
  e->cv.wait(l, [&] { return e->got >= e->want; });
}
bool eventQuery(cudaEvent_t e) {
  std::lock_guard<std::mutex> l(e->m);
  return e->got >= e->want;
}

// ---- communicators
enum Kind { BCAST, ALLREDUCE, REDUCE, ALLGATHER, REDUCESCATTER, SEND, RECV };
struct Post {
  Kind k;
  const void* s;
  void* r;
  size_t n;
  ncclDataType_t t;
  int op, root;
};
struct Slot {
  std::map<int, Post> posts;
  bool done = false;
  int left = 0;
};
struct Group {
  std::mutex m;
  std::condition_variable cv;
  int n = 0;
  std::map<int, int> joined;
  std::map<uint64_t, Slot> coll;                              // by operation number
  std::map<std::pair<int, int>, std::map<uint64_t, Slot>> p2p;  // by (source, destination), then number
};
inline std::map<std::string, std::shared_ptr<Group>>& groups() {
  static auto* g = new std::map<std::string, std::shared_ptr<Group>>;
  return *g;
}
}  // namespace fnccl

struct ncclComm {
  std::shared_ptr<fnccl::Group> g;
  int rank = 0, n = 0;
  bool ready = false, dead = false;
  int polls = 0, busyPolls = 0;
  uint64_t collSeq = 0;
  std::map<std::pair<int, int>, uint64_t> p2pSeq;
};

namespace fnccl {
inline size_t tsize(ncclDataType_t t) {
  switch (t) {
    case ncclInt8: case ncclUint8: return 1;
    case ncclFloat16: case ncclBfloat16: return 2;
    case ncclInt32: case ncclUint32: case ncclFloat32: return 4;
    default: return 8;
  }
}
template <typename T, typename A>
void reduceT(std::vector<const void*> in, void* out, size_t n, int op) {
  std::vector<T> r(n);
  for (size_t i = 0; i < n; i++) {
    A a{};
    for (size_t k = 0; k < in.size(); k++) {
      A v = (A)((const T*)in[k])[i];
      if (!k) a = v;
      else if (op == ncclSum || op == ncclAvg) a = a + v;
      else if (op == ncclProd) a = a * v;
      else if (op == ncclMax) a = v > a ? v : a;
      else a = v < a ? v : a;
    }
    if (op == ncclAvg) a = a / (A)in.size();
    r[i] = (T)a;
  }
  memcpy(out, r.data(), n * sizeof(T));
}
inline void reduceAny(const std::vector<const void*>& in, void* out, size_t n, ncclDataType_t t, int op) {
  using namespace tinytorch;
  switch (t) {
    case ncclFloat32: return reduceT<float, double>(in, out, n, op);
    case ncclFloat64: return reduceT<double, double>(in, out, n, op);
    case ncclFloat16: return reduceT<Half, float>(in, out, n, op);
    case ncclBfloat16: return reduceT<BFloat16, float>(in, out, n, op);
    case ncclInt32: return reduceT<int32_t, int64_t>(in, out, n, op);
    case ncclInt64: return reduceT<int64_t, int64_t>(in, out, n, op);
    case ncclUint8: return reduceT<uint8_t, int64_t>(in, out, n, op);
    default: W().fault("data type not used by this library");
  }
}
// every rank has posted: moves the data
inline void perform(Slot& sl, int n) {
  auto& p0 = sl.posts.begin()->second;
  for (auto& q : sl.posts) {
    auto& p = q.second;
    if (p.k != p0.k || p.n != p0.n || p.t != p0.t || p.op != p0.op || p.root != p0.root) {
      W().fault("ranks disagree on an operation (kind, count, type, reduction or root)");
      return;
    }
  }
  size_t bytes = p0.n * tsize(p0.t);
  std::vector<const void*> in;
  for (auto& q : sl.posts) in.push_back(q.second.s);
  switch (p0.k) {
    case BCAST: {
      std::string tmp((const char*)sl.posts[p0.root].s, bytes);
      for (auto& q : sl.posts) memcpy(q.second.r, tmp.data(), bytes);
      break;
    }
    case ALLREDUCE: {
      std::string tmp(bytes, 0);
      reduceAny(in, tmp.data(), p0.n, p0.t, p0.op);
      for (auto& q : sl.posts) memcpy(q.second.r, tmp.data(), bytes);
      break;
    }
    case REDUCE: {
      std::string tmp(bytes, 0);
      reduceAny(in, tmp.data(), p0.n, p0.t, p0.op);
      memcpy(sl.posts[p0.root].r, tmp.data(), bytes);
      break;
    }
    case ALLGATHER: {
      std::string tmp;
      for (auto& q : sl.posts) tmp.append((const char*)q.second.s, bytes);
      for (auto& q : sl.posts) memcpy(q.second.r, tmp.data(), tmp.size());
      break;
    }
    case REDUCESCATTER: {
      std::string tmp(bytes * n, 0);
      reduceAny(in, tmp.data(), p0.n * n, p0.t, p0.op);
      for (auto& q : sl.posts) memcpy(q.second.r, tmp.data() + q.first * bytes, bytes);
      break;
    }
    default: break;
  }
  W().ops++;
}
inline const char* kindName(Kind k) {
  static const char* n[] = {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter", "send", "recv"};
  return n[k];
}
// runs on the stream's thread
inline void runOp(std::shared_ptr<Group> g, int rank, uint64_t seq, Post p, unsigned delayUs) {
  if (delayUs) std::this_thread::sleep_for(std::chrono::microseconds(delayUs));
  auto end = Clock::now() + std::chrono::milliseconds(W().cfg.opTimeoutMs);
  std::unique_lock<std::mutex> l(g->m);
  bool pp = p.k == SEND || p.k == RECV;
  auto key = p.k == SEND ? std::make_pair(rank, p.root) : std::make_pair(p.root, rank);
  Slot& sl = pp ? g->p2p[key][seq] : g->coll[seq];
  // sender is entry 0, receiver entry 1
  sl.posts[pp ? (p.k == SEND ? 0 : 1) : rank] = p;
  size_t need = pp ? 2 : (size_t)g->n;
  if (sl.posts.size() == need) {
    if (pp) {
      auto &a = sl.posts[0], &b = sl.posts[1];
      if (a.n != b.n || a.t != b.t) W().fault("sender and receiver disagree on count or type");
      else memcpy(b.r, a.s, a.n * tsize(a.t));
      W().ops++;
    } else {
      perform(sl, g->n);
    }
    sl.done = true;
    sl.left = (int)need;
    g->cv.notify_all();
  } else {
    while (!sl.done && !W().stop && Clock::now() < end) g->cv.wait_until(l, Clock::now() + std::chrono::milliseconds(50));
    if (!sl.done) {
      W().fault(std::string(kindName(p.k)) + ": the other ranks never arrived");
      W().stop = true;
      return;
    }
  }
  if (--sl.left == 0) {
    if (pp) g->p2p[key].erase(seq);
    else g->coll.erase(seq);
  }
}
struct Pending {
  ncclComm_t c;
  cudaStream_t st;
  Post p;
  uint64_t seq;
};
inline thread_local int groupDepth = 0;
inline thread_local std::vector<Pending> pending;
inline ncclResult_t launch() {
  ncclResult_t res = ncclSuccess;
  for (auto& q : pending) {
    unsigned d = W().cfg.maxDelayUs ? W().rnd(W().cfg.maxDelayUs) : 0;
    auto g = q.c->g;
    int rank = q.c->rank;
    auto p = q.p;
    auto seq = q.seq;
    post(q.st, [g, rank, seq, p, d] { runOp(g, rank, seq, p, d); });
    if (W().cfg.inProgress && (int)W().rnd(100) < W().cfg.inProgress) {
      q.c->busyPolls = 1 + (int)W().rnd(3);
      res = ncclInProgress;
      W().inProgressSeen++;
    }
  }
  pending.clear();
  return res;
}
inline ncclResult_t enqueue(ncclComm_t c, cudaStream_t st, Post p) {
  if (!c || c->dead) {
    W().fault("operation on a communicator that is gone");
    return ncclInvalidArgument;
  }
  if (!c->ready) {
    W().fault("operation on a communicator that is not ready");
    return ncclInvalidUsage;
  }
  if (!st) {
    W().fault("operation without a stream");
    return ncclInvalidArgument;
  }
  bool usesRoot = p.k == BCAST || p.k == REDUCE || p.k == SEND || p.k == RECV;
  if (usesRoot && (p.root < 0 || p.root >= c->n)) return ncclInvalidArgument;
  bool pp = p.k == SEND || p.k == RECV;
  uint64_t seq = pp ? c->p2pSeq[p.k == SEND ? std::make_pair(c->rank, p.root) : std::make_pair(p.root, c->rank)]++ : c->collSeq++;
  pending.push_back({c, st, p, seq});
  return groupDepth ? ncclSuccess : launch();
}
// waits until every executor thread has drained and gone
inline bool quiesce(int ms = 20000) {
  std::unique_lock<std::mutex> l(W().m);
  return W().cv.wait_for(l, std::chrono::milliseconds(ms), [] { return W().liveStreams == 0; });
}
inline void reset(const Cfg& c, uint64_t seed) {
  std::lock_guard<std::mutex> l(W().m);
  W().cfg = c;
  W().rng.seed(seed);
  W().faults.clear();
  W().allReduced.clear();
  W().stop = false;
  W().ops = W().waits = W().lateWaits = W().inProgressSeen = 0;
  groups().clear();
}
}  // namespace fnccl

ncclResult_t ncclGetVersion(int* v) {
  *v = NCCL_VERSION_CODE;
  return ncclSuccess;
}
ncclResult_t ncclGetUniqueId(ncclUniqueId* id) {
  std::lock_guard<std::mutex> l(fnccl::W().m);
  uint64_t n = fnccl::W().nextId++;
  for (size_t i = 0; i < sizeof(id->internal); i++) id->internal[i] = (char)(n * 131 + i * 7 + (i == 9 ? 0 : n >> 3));
  memcpy(id->internal, &n, sizeof n);
  id->internal[8] = 0;  // ids are binary, not text
  return ncclSuccess;
}
ncclResult_t ncclCommInitRankConfig(ncclComm_t* comm, int nranks, ncclUniqueId id, int rank, ncclConfig_t* config) {
  auto& w = fnccl::W();
  if (nranks < 1 || rank < 0 || rank >= nranks) return ncclInvalidArgument;
  std::shared_ptr<fnccl::Group> g;
  {
    std::lock_guard<std::mutex> l(w.m);
    auto& s = fnccl::groups()[std::string(id.internal, sizeof id.internal)];
    if (!s) s = std::make_shared<fnccl::Group>();
    g = s;
    w.liveComms++;
  }
  std::unique_lock<std::mutex> l(g->m);
  if (g->n == 0) g->n = nranks;
  if (g->n != nranks) w.fault("ranks disagree on the number of ranks");
  if (g->joined[rank]++) w.fault("two members of a communicator have the same rank");
  *comm = new ncclComm;
  (*comm)->g = g;
  (*comm)->rank = rank;
  (*comm)->n = nranks;
  (*comm)->polls = w.cfg.initPolls;
  g->cv.notify_all();
  if (config && config->blocking == 0) return ncclInProgress;
  g->cv.wait(l, [&] { return (int)g->joined.size() == g->n; });
  (*comm)->ready = true;
  return ncclSuccess;
}
ncclResult_t ncclCommInitRank(ncclComm_t* comm, int nranks, ncclUniqueId id, int rank) {
  return ncclCommInitRankConfig(comm, nranks, id, rank, nullptr);
}
ncclResult_t ncclCommGetAsyncError(ncclComm_t c, ncclResult_t* err) {
  if (!c || c->dead) {
    fnccl::W().fault("state of a communicator that is gone");
    return ncclInvalidArgument;
  }
  *err = ncclSuccess;
  if (!c->ready) {
    std::lock_guard<std::mutex> l(c->g->m);
    if (!fnccl::W().stop && ((int)c->g->joined.size() < c->g->n || c->polls-- > 0)) *err = ncclInProgress;
    else c->ready = true;
  } else if (c->busyPolls > 0) {
    c->busyPolls--;
    *err = ncclInProgress;
  }
  return ncclSuccess;
}
ncclResult_t ncclCommFinalize(ncclComm_t) { return ncclSuccess; }
ncclResult_t ncclCommDestroy(ncclComm_t c) {
  if (!c || c->dead) {
    fnccl::W().fault("a communicator is destroyed twice");
    return ncclInvalidArgument;
  }
  c->dead = true;
  {
    std::lock_guard<std::mutex> l(fnccl::W().m);
    fnccl::W().liveComms--;
  }
  delete c;
  return ncclSuccess;
}
ncclResult_t ncclCommAbort(ncclComm_t c) { return ncclCommDestroy(c); }
ncclResult_t ncclCommCount(const ncclComm_t c, int* n) { *n = c->n; return ncclSuccess; }
ncclResult_t ncclCommUserRank(const ncclComm_t c, int* r) { *r = c->rank; return ncclSuccess; }
const char* ncclGetErrorString(ncclResult_t r) { return r == ncclSuccess ? "no error" : "emulated error"; }
ncclResult_t ncclGroupStart() {
  fnccl::groupDepth++;
  return ncclSuccess;
}
ncclResult_t ncclGroupEnd() {
  if (fnccl::groupDepth == 0) return ncclInvalidUsage;
  return --fnccl::groupDepth ? ncclSuccess : fnccl::launch();
}
ncclResult_t ncclBroadcast(const void* s, void* r, size_t n, ncclDataType_t t, int root, ncclComm_t c, cudaStream_t st) {
  return fnccl::enqueue(c, st, {fnccl::BCAST, s, r, n, t, 0, root});
}
ncclResult_t ncclBcast(void* b, size_t n, ncclDataType_t t, int root, ncclComm_t c, cudaStream_t st) {
  return ncclBroadcast(b, b, n, t, root, c, st);
}
ncclResult_t ncclAllReduce(const void* s, void* r, size_t n, ncclDataType_t t, ncclRedOp_t op, ncclComm_t c, cudaStream_t st) {
  {
    std::lock_guard<std::mutex> l(fnccl::W().m);
    fnccl::W().allReduced.push_back(n);
  }
  return fnccl::enqueue(c, st, {fnccl::ALLREDUCE, s, r, n, t, (int)op, 0});
}
ncclResult_t ncclReduce(const void* s, void* r, size_t n, ncclDataType_t t, ncclRedOp_t op, int root, ncclComm_t c, cudaStream_t st) {
  return fnccl::enqueue(c, st, {fnccl::REDUCE, s, r, n, t, (int)op, root});
}
ncclResult_t ncclAllGather(const void* s, void* r, size_t n, ncclDataType_t t, ncclComm_t c, cudaStream_t st) {
  return fnccl::enqueue(c, st, {fnccl::ALLGATHER, s, r, n, t, 0, 0});
}
ncclResult_t ncclReduceScatter(const void* s, void* r, size_t n, ncclDataType_t t, ncclRedOp_t op, ncclComm_t c, cudaStream_t st) {
  return fnccl::enqueue(c, st, {fnccl::REDUCESCATTER, s, r, n, t, (int)op, 0});
}
ncclResult_t ncclSend(const void* s, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t st) {
  return fnccl::enqueue(c, st, {fnccl::SEND, s, nullptr, n, t, 0, peer});
}
ncclResult_t ncclRecv(void* r, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t st) {
  return fnccl::enqueue(c, st, {fnccl::RECV, nullptr, r, n, t, 0, peer});
}
