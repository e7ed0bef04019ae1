// C12: nothing outlives its last user; repeated work does not grow memory
#pragma once
#include <set>
#include <thread>
#include "gprog.h"
#include "h_files.h"

#include "Data/DataLoader.h"
#include "Data/DatasetMNIST.h"
#include "Modules.h"
#include "Optimizer.h"
#include "Scheduler.h"
#include "Serializer.h"
#include "Tensor/CachedAllocator.h"
namespace s_leak {
using namespace gp;
namespace op = tt::op;
namespace fn = tt::function;
namespace nn = tt::nn;

struct Live {
  int64_t bytes = 0, blocks = 0;
};
static Live live() {
  Live l;
#ifdef VH_HMEM
  l.bytes = hmem::bytes.load();
  l.blocks = hmem::blocks.load();
#endif
  return l;
}
#ifdef VH_HMEM
constexpr bool kAccount = true;
#else
constexpr bool kAccount = false;
#endif

// the same work, repeated: after the warm-up rounds the number of live blocks must not change any more
template <typename F>
static void stable(vh::Case& c, const std::string& sig, int warm, int rounds, F f) {
  std::vector<Live> l;
  l.reserve(warm + rounds + 1);
  std::string d = c.desc;
  for (int i = 0; i < warm + rounds; i++) {
    tt::manualSeed(7);
    f();
    if (d.empty()) d = c.desc;
    std::string().swap(c.desc);
    l.push_back(live());
  }
  c.desc = d;
  if (!kAccount) return;
  if (c.verbose)
    for (auto& q : l) fprintf(stderr, "live %lld blocks %lld bytes\n", (long long)q.blocks, (long long)q.bytes);
  int64_t base = l[warm - 1].blocks, baseB = l[warm - 1].bytes;
  for (int i = warm; i < warm + rounds; i++) {
    if (l[i].blocks > base)
      c.fail(sig + ".blocks", fmt("live heap blocks grow: %lld after round %d, %lld after round %d", (long long)base, warm, (long long)l[i].blocks, i + 1));
    if (l[i].bytes > baseB + 256)
      c.fail(sig + ".bytes", fmt("live heap bytes grow: %lld after round %d, %lld after round %d", (long long)baseB, warm, (long long)l[i].bytes, i + 1));
  }
  c.obs("leak.rounds", rounds);
}

static void hook(void* ctx, Tensor& g) {
  (*(int*)ctx)++;
  (void)g;
}

// a random graph; some results are backpropagated, then everything is dropped in random order
struct GraphStats {
  int ops = 0, backs = 0, weak = 0;
};
static GraphStats graphRound(vh::Case& c, uint64_t seed, bool keepLeaves) {
  vh::Rng r(seed);
  GraphStats gs;
  int hooks = 0;
  std::vector<std::weak_ptr<tt::Storage>> all, inner;
  {
    Prog p(r);
    p.maxNumel = r.chance(0.3) ? 64 : 24;
    int nl = (int)r.range(1, 3);
    for (int i = 0; i < nl; i++) p.newLeaf(genShape(r, 4, 16), -1.5, 1.5);
    int n = (int)r.range(1, 14);
    for (int i = 0; i < n; i++) {
      p.recording = !r.chance(0.1);
      if (p.recording) {
        gs.ops += p.step();
      } else
        WithNoGrad { gs.ops += p.step(); }
    }
    for (auto& x : p.v)
      if (x.leaf && x.req && r.chance(0.3)) {
        auto id = x.t.registerHook(hook, &hooks);
        if (r.chance(0.3)) x.t.unregisterHook(id);
      }
    std::set<int> used;
    int backs = (int)r.range(0, 3);
    for (int i = 0; i < backs; i++) {
      int k = (int)r.range(0, (int)p.v.size() - 1);
      auto& x = p.v[k];
      if (!x.req || x.detached) continue;
      // graphs with single-use functions can only run backward once
      if (!used.empty()) break;
      used.insert(k);
      Tensor g = mkPlain(RT(x.val.shape, 0.5), p.dt);
      x.t.backward(g);
      gs.backs++;
      if (r.chance(0.3))
        for (auto& y : p.v)
          if (y.leaf && y.req && r.chance(0.5)) y.t.zeroGrad();
    }
    std::set<tt::Storage*> leafSt;
    for (auto& x : p.v)
      if (x.leaf) {
        leafSt.insert(x.t.storage().get());
        if (x.req && x.t.grad().defined()) leafSt.insert(x.t.grad().storage().get());
      }
    for (auto& x : p.v) {
      all.push_back(x.t.storage());
      if (!x.leaf && !leafSt.count(x.t.storage().get())) inner.push_back(x.t.storage());
    }
    // drop the results, in random order, keeping the leaves
    std::vector<int> order;
    for (size_t i = 0; i < p.v.size(); i++)
      if (!p.v[i].leaf) order.push_back((int)i);
    r.shuffle(order);
    for (auto k : order) p.v[k].t = Tensor();
    int alive = 0;
    for (auto& w : inner) alive += !w.expired();
    c.desc = fmt("round seed %llx: ", (unsigned long long)seed) + p.str();
    c.check(alive == 0, "leak.graph.intermediates", fmt("%d of %zu intermediate buffers survive the drop of every result", alive, inner.size()));
    gs.weak += (int)inner.size();
    (void)keepLeaves;
  }
  int alive = 0;
  for (auto& w : all) alive += !w.expired();
  c.check(alive == 0, "leak.graph.buffers", fmt("%d of %zu buffers survive the drop of every tensor", alive, all.size()));
  gs.weak += (int)all.size();
  return gs;
}

SUITE(leak_graph, 150) {
  uint64_t seed = c.rng.next();
  GraphStats gs;
  stable(c, "leak.graph", 1, 2, [&] { gs = graphRound(c, seed, false); });
  c.obs("leak.graph.ops", gs.ops);
  c.obs("leak.graph.backwards", gs.backs);
  c.obs("leak.graph.buffersWatched", gs.weak);
  if (gs.ops > 1) c.seen(seed);
}

// ------------------------------------------------------------------ training
struct Net : nn::Module {
  nn::Linear l1, l2;
  nn::Dropout drop;
  int kind;
  Net(int kind, int in, int hid, int out) : l1(in, hid, true), l2(hid, out, kind % 2 == 0), drop(0.5f), kind(kind) {
    registerModules({{"l1", l1}, {"l2", l2}, {"drop", drop}});
  }
  Tensor forward(const Tensor& x) override {
    Tensor h = fn::relu(l1(x));
    if (kind == 1) h = drop(h);
    if (kind == 2) h = h * h + h;
    if (kind == 3) {
      Tensor g = h;
      g += h;
      g *= 0.5f;
      h = g;
    }
    return l2(h);
  }
};
struct CNet : nn::Module {
  nn::Conv2D c1;
  nn::MaxPool2D pool;
  nn::Linear l;
  CNet() : c1(1, 2, tt::Dim2D(3, 3), tt::Dim2D(1, 1), tt::Dim2D(1, 1), true), pool(tt::Dim2D(2, 2)), l(2 * 2 * 2, 3, true) {
    registerModules({{"c1", c1}, {"pool", pool}, {"l", l}});
  }
  Tensor forward(const Tensor& x) override {
    Tensor h = pool(fn::relu(c1(x)));
    return l(fn::flatten(h, 1, -1));
  }
};

static std::unique_ptr<tt::optim::Optimizer> mkOpt(int k, std::vector<tt::TensorPtr> ps) {
  using namespace tt::optim;
  switch (k) {
    case 0: return std::make_unique<SGD>(std::move(ps), 0.01f);
    case 1: return std::make_unique<SGD>(std::move(ps), 0.01f, 0.9f, 0.f, 0.01f, true);
    case 2: return std::make_unique<Adagrad>(std::move(ps), 0.01f);
    case 3: return std::make_unique<RMSprop>(std::move(ps), 0.01f, 0.9f, 1e-8f, 0.01f, 0.9f, true);
    case 4: return std::make_unique<AdaDelta>(std::move(ps), 1.f);
    case 5: return std::make_unique<Adam>(std::move(ps), 0.01f, std::pair<float, float>{0.9f, 0.999f}, 1e-8f, 0.01f, true);
    default: return std::make_unique<AdamW>(std::move(ps), 0.01f);
  }
}

static void trainRun(vh::Case& c, uint64_t seed, bool account = kAccount) {
  vh::Rng r(seed);
  int kind = (int)r.range(0, 4), ok = (int)r.range(0, 6), in = (int)r.range(2, 6), out = 3, bs = (int)r.range(1, 5);
  std::unique_ptr<nn::Module> m;
  if (kind == 4) m = std::make_unique<CNet>();
  else m = std::make_unique<Net>(kind, in, (int)r.range(2, 8), out);
  for (auto& p : m->parameters()) {
    for (int64_t i = 0; i < p->numel(); i++) p->dataPtr<float>()[i] = (float)r.uniform(-0.5, 0.5);
  }
  auto opt = mkOpt(ok, m->parameters());
  auto sched = std::make_unique<tt::optim::lr_scheduler::StepLR>(*opt, 2);
  int variant = (int)r.range(0, 7), hooks = 0;
  c.desc = fmt("training run: net %d optimizer %d variant %d batch %d", kind, ok, variant, bs);
  c.obs(fmt("leak.train.net%d", kind));
  c.obs(fmt("leak.train.opt%d", ok));
  c.obs(fmt("leak.train.variant%d", variant));
  Tensor lastLoss;
  Shape xs = kind == 4 ? Shape{bs, 1, 4, 4} : Shape{bs, in};
  auto step = [&](int i) {
    RT X(xs), Y({bs});
    for (auto& e : X.d) e = r.uniform(-1, 1);
    for (auto& e : Y.d) e = (double)r.range(0, out - 1);
    Tensor x = mkPlain(X, DType::Float32), y = mkPlain(Y, DType::Int64);
    m->train();
    if (variant == 2) {  // a partial graph that is never backpropagated
      Tensor z = (*m)(x);
      Tensor q = z * z;
    }
    if (variant == 3) {
      WithNoGrad { Tensor z = (*m)(x); }
      m->eval();
      Tensor z2 = (*m)(x);
      m->train();
    }
    if (variant != 7) opt->zeroGrad();
    Tensor loss = fn::nllLoss(fn::logSoftmax((*m)(x), 1), y, tt::LossReduction::MEAN);
    std::vector<std::pair<tt::TensorPtr, int64_t>> hs;
    if (variant == 4)
      for (auto& p : m->parameters()) hs.push_back({p, p->registerHook(hook, &hooks)});
    loss.backward();
    for (auto& [p, id] : hs) p->unregisterHook(id);
    if (variant == 5) opt->zeroGrad();
    opt->step();
    if (variant == 6) sched->step();
    if (variant == 1) lastLoss = loss;
    (void)i;
  };
  if (account) {
    std::vector<Live> l;
    l.reserve(64);
    int n = c.thorough ? 16 : 8;
    for (int i = 0; i < n; i++) {
      step(i);
      l.push_back(live());
    }
    for (int i = 3; i < n; i++)
      if (l[i].blocks > l[2].blocks || l[i].bytes > l[2].bytes + 256)
        c.fail("leak.train.growth", fmt("live heap grows during training: %lld blocks %lld bytes after step 3, %lld blocks %lld bytes after step %d", (long long)l[2].blocks,
                                        (long long)l[2].bytes, (long long)l[i].blocks, (long long)l[i].bytes, i + 1));
    c.obs("leak.train.steps", n);
  } else
    for (int i = 0; i < 3; i++) step(i);
}

SUITE(leak_train, 40) {
  uint64_t seed = c.rng.next();
  c.seen(seed);
  stable(c, "leak.train", 1, 2, [&] { trainRun(c, seed); });
}

// ------------------------------------------------------------------ loops over one tensor
SUITE(leak_inplace, 40) {
  auto& r = c.rng;
  bool req = r.chance(0.5), scope = !req || r.chance(0.6);
  int64_t n = r.range(1, 64);
  Tensor x = mkPlain(RT({n, 2}, 0.5), DType::Float32, req), y = mkPlain(RT({n, 2}, 0.25), DType::Float32);
  std::vector<int> prog;
  int k = (int)r.range(1, 6);
  for (int i = 0; i < k; i++) prog.push_back((int)r.range(0, 13));
  c.desc = fmt("in-place loop, requiresGrad %d no-grad %d:", req, scope);
  for (auto q : prog) c.desc += fmt(" %d", q);
  c.seen(c.desc);
  Tensor z = y.clone();
  auto body = [&] {
    for (auto q : prog) switch (q) {
        case 0: x += y; break;
        case 1: x *= 0.5f; break;
        case 2: x -= y; break;
        case 3: x /= 2.f; break;
        case 4: x.fill_(0.5f); break;
        case 5: x.copy_(y); break;
        case 6: z = z.reshape({2, n}).permute({1, 0}).clone(); break;
        case 7: z = z + y; break;
        case 8: z = x.narrow(0, 0, n); break;
        case 9: z = tt::function::concat({z, y}, 0).narrow(0, 0, n); break;
        case 10: z.scatter_(0, Tensor(std::vector<int64_t>{0, 0}).reshape({1, 2}), Tensor(std::vector<float>{1, 2}).reshape({1, 2})); break;
        case 11: z = z.clone(); break;
        case 12: op::addInplace(z, y, tt::Scalar(1.f)); break;
        case 13: z = op::softmax(z, int64_t{1}); break;
      }
  };
  auto round = [&] {
    for (int i = 0; i < 3; i++) {
      if (scope) {
        WithNoGrad { body(); }
      } else {
        z = y.clone();  // otherwise the graph grows with the loop, as it must
        body();
      }
    }
  };
  stable(c, "leak.inplace", 3, 5, round);
}

// ------------------------------------------------------------------ files
SUITE(leak_io, 20) {
  auto& r = c.rng;
  hf::Scratch sc;
  uint64_t seed = r.next();
  int bad = (int)r.range(0, 4);
  c.desc = fmt("save/load/dataset rounds, damage kind %d", bad);
  c.seen(seed);
  auto body = [&] {
    vh::Rng q(seed);
    Net a(0, 3, 4, 2), b(0, 3, 4, 2), wrong(1, 3, 5, 2);
    a.initParameters();
    b.initParameters();
    wrong.initParameters();
    std::string f = sc.file("m.bin");
    c.check(tt::save(a, f), "leak.io.save");
    c.check(tt::load(b, f), "leak.io.load");
    tt::load(wrong, f, q.chance(0.5));
    std::string s = hf::slurp(f);
    if (bad == 0) s = s.substr(0, q.range(0, s.size() - 1));
    if (bad == 1) s[q.range(0, 23)] ^= 0x5a;
    if (bad == 2) s.clear();
    if (bad == 3) s = s.substr(0, 24);
    hf::spit(f, s);
    tt::load(b, f, q.chance(0.5));
    tt::load(b, sc.file("missing"));
    tt::load(b, sc.dir);
    tt::save(b, sc.dir + "/none/x");
    tt::save(b, sc.dir);
    hf::Mnist mn = hf::genMnist(q, 7, 7, 3, 4);
    std::string im = mn.imgFile(), la = mn.labFile();
    if (bad == 1) im.resize(im.size() - 5);
    hf::spit(sc.file("train-images-idx3-ubyte"), im);
    hf::spit(sc.file("train-labels-idx1-ubyte"), la);
    auto ds = std::make_shared<tt::data::DatasetMNIST>(sc.dir + "/", tt::data::DatasetMNIST::TRAIN, std::make_shared<tt::data::transforms::Compose>(tt::data::transforms::Normalize(0.1f, 0.3f)));
    tt::data::DatasetMNIST none(sc.dir + "/none/", tt::data::DatasetMNIST::TEST, nullptr);
    tt::data::DataLoader dl(ds, 3);
    int seenB = 0;
    for (auto [i, b] : dl) {
      seenB++;
      if (bad == 4 && i == 1) break;
    }
    c.obs("leak.io.batches", seenB);
  };
  body();
  int fd0 = hf::openFds(), m0 = hf::mapCount(sc.dir.c_str());
  stable(c, "leak.io", 1, 2, body);
  int fd1 = hf::openFds(), m1 = hf::mapCount(sc.dir.c_str());
  c.check(fd1 <= fd0, "leak.io.fds", fmt("open descriptors grow from %d to %d", fd0, fd1));
  c.check(m1 <= m0 && m1 == 0, "leak.io.maps", fmt("%d mappings of files remain", m1));
}

// ------------------------------------------------------------------ with the caching allocator
SUITE(leak_cache, 8) {
  uint64_t seed = c.rng.next();
  c.seen(seed);
  struct On {
    On() { tt::CachedAllocator::setCacheEnabled(true); }
    ~On() { tt::CachedAllocator::setCacheEnabled(false); }
  } on;
  bool vary = c.rng.chance(0.5);
  c.desc = fmt("epochs under the caching allocator, %s shapes", vary ? "varying" : "fixed");
  auto epoch = [&](int e) {
    vh::Rng r(seed);
    std::vector<Tensor> keep;
    for (int i = 0; i < 60; i++) {
      int64_t n = r.chance(0.15) ? r.range(1, 900000) : r.range(1, 5000);
      if (vary) n = std::max<int64_t>(1, n - (e % 3) * 100);
      Tensor t = Tensor::empty({n}, optOf(DType::Float32, false));
      t.dataPtr<float>()[0] = 1;
      if (r.chance(0.4)) keep.push_back(t);
      if (!keep.empty() && r.chance(0.3)) keep.erase(keep.begin() + r.range(0, keep.size() - 1));
    }
    if (e % 4 == 0) {
      std::string d = c.desc;
      trainRun(c, seed + 1, false);
      c.desc = d;
    }
  };
  std::vector<int64_t> b;
  b.reserve(64);
  for (int e = 0; e < 24; e++) {
    epoch(e);
    b.push_back(live().bytes);
  }
  if (kAccount) {
    c.check(b[23] <= b[11] + 65536, "leak.cache.growth", fmt("heap keeps growing over equal epochs: %lld bytes after 12, %lld after 24", (long long)b[11], (long long)b[23]));
    c.obs("leak.cache.epochs", 24);
  }
}

// ------------------------------------------------------------------ ended threads
SUITE(leak_thread, 10) {
  uint64_t seed = c.rng.next();
  c.seen(seed);
  stable(c, "leak.thread", 2, 3, [&] {
    std::string err;
    std::thread th([&] {
      try {
        vh::Case k = c;
        graphRound(k, seed, false);
        WithNoGrad {
          Tensor x = Tensor::zeros({3, 4}, optOf(DType::Float32, false));
          x += 1.f;
          Tensor y = x.permute({1, 0});
        }
      } catch (const vh::Fail& f) {
        err = f.sig + " " + f.msg;
      }
    });
    th.join();
    c.check(err.empty(), "leak.thread.inside", err);
  });
  c.obs("leak.threads", 5);
}

// ------------------------------------------------------------------ very deep graphs
SUITE_T(leak_deep, 1, 300) {
  auto& r = c.rng;
  int n = 60000 + (int)r.range(0, 20000), kind = (int)(c.index % 4);
  c.desc = fmt("chain of %d operations, kind %d", n, kind);
  std::vector<std::weak_ptr<tt::Storage>> w;
  {
    Tensor x = mkPlain(RT({2}, 0.5), DType::Float32, true);
    Tensor y = x;
    for (int i = 0; i < n; i++) {
      if (kind == 3 && i % 2) {
        Tensor z = y * 1.f;
        y = z + y * 0.f;
      } else
        y = y + 0.0001f;
      if (i % 5000 == 0) w.push_back(y.storage());
    }
    if (kind == 1 || kind == 3) {
      y.sum().backward();
      RT g = get(x.grad());
      c.check(fabs(g.d[0] - 1) < 1e-3, "leak.deep.grad", fmt("gradient through the chain is %g", g.d[0]));
    }
    if (kind == 2) {
      Tensor x2 = std::move(x);
    }
  }
  int alive = 0;
  for (auto& q : w) alive += !q.expired();
  c.check(alive == 0, "leak.deep.buffers", fmt("%d buffers of the chain survive", alive));
  c.obs("leak.deep.nodes", n);
  c.seen(c.desc);
}
}  // namespace s_leak
