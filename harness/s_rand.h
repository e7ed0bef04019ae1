// C22: seeded sequences of random operations are reproducible and do not repeat themselves
#pragma once
#include <map>
#include <set>

#include "tt.h"

#include "Data/DataLoader.h"
#include "Initializer.h"
#include "Modules.h"
namespace s_rand {
namespace fn = tt::function;
namespace nn = tt::nn;
namespace td = tt::data;

// draws made before anything in this process called manualSeed
static std::vector<std::vector<double>>& unseeded() {
  static std::vector<std::vector<double>> v;
  return v;
}
static struct UnseededReg {
  UnseededReg() {
    auto prev = vh::workerInit();
    vh::workerInit() = [prev] {
      if (prev) prev();
      for (int i = 0; i < 4; i++) unseeded().push_back(get(Tensor::rand({16})).d);
    };
  }
} unseededReg_;

struct Ids : td::Dataset {
  size_t n;
  explicit Ids(size_t n) : n(n) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override { return {Tensor::scalar((int64_t)i, tt::options::dtype(DType::Int64))}; }
};

enum Kind { RAND, RANDN, UNIFORM, BERN, FILLU, FILLN, FILLB, DROP, DROPMOD, OPDROP, ATTN, MULTI, MULTINR, IUNI, INORM, IKAI, LINEAR, CONV, EMB, LOADER, NKIND };
static const char* kindName[] = {"rand", "randn", "uniform", "bernoulli", "fillUniform", "fillNormal", "fillBernoulli", "dropout", "Dropout", "op.dropout", "attention", "multinomial", "multinomialNoRepl", "init.uniform", "init.normal", "init.kaiming", "Linear", "Conv2D", "Embedding", "DataLoader"};
struct Draw {
  int kind;
  Shape s;
  DType t;
  double a, b;
  int64_t k;
  std::string str() const { return fmt("%s%s:%s(%.3g,%.3g,%lld)", kindName[kind], shapeStr(s).c_str(), dtn(t), a, b, (long long)k); }
  bool same(const Draw& o) const { return kind == o.kind && s == o.s && t == o.t && a == o.a && b == o.b && k == o.k; }
  // rough number of bits of entropy in the result
  double bits() const {
    double n = (double)numelOf(s);
    double per = t == DType::Float32 ? 20 : t == DType::Float16 ? 8 : 5;
    switch (kind) {
      case BERN:
      case FILLB:
      case DROP:
      case DROPMOD:
      case OPDROP: return n * 0.45;
      case ATTN: return n * 0.45;
      case MULTI: return (double)k * 1.5;
      case MULTINR:
      case LOADER: return lgamma((double)k + 1) / log(2.0);
      case LINEAR:
      case CONV:
      case EMB: return n * per;
      default: return n * per;
    }
  }
};
static Draw genDraw(vh::Rng& r) {
  Draw d{(int)r.range(0, NKIND - 1), genShape(r, 3, 200, false), r.chance(0.7) ? DType::Float32 : r.pick(floatTypes()), 0, 1, 0};
  switch (d.kind) {
    case UNIFORM:
    case FILLU:
    case IUNI: d.a = r.uniform(-3, 0), d.b = d.a + r.uniform(0.5, 4); break;
    case FILLN:
    case INORM: d.a = r.uniform(-2, 2), d.b = r.uniform(0.2, 3); break;
    case BERN:
    case FILLB:
    case DROP:
    case DROPMOD:
    case OPDROP: d.a = r.uniform(0.2, 0.8); break;
    case ATTN: d.s = {r.range(2, 6), 1, r.range(2, 8)}, d.t = DType::Float32, d.a = r.uniform(0.3, 0.7); break;
    case MULTI: d.k = r.range(1, 80); break;
    case MULTINR: d.k = r.range(1, 40); break;
    case LINEAR: d.s = {r.range(1, 9), r.range(1, 9)}, d.t = DType::Float32; break;
    case CONV: d.s = {r.range(1, 4), r.range(1, 4), r.range(1, 3)}, d.t = DType::Float32; break;
    case EMB: d.s = {r.range(1, 9), r.range(1, 9)}, d.t = DType::Float32; break;
    case LOADER: d.k = r.range(1, 60); break;
    case IKAI: d.s = {r.range(1, 9), r.range(1, 9)}; break;
    default: break;
  }
  return d;
}
static std::vector<double> run(const Draw& d) {
  auto o = optOf(d.t);
  IntArrayView s(d.s);
  auto cat = [](std::vector<Tensor> v) {
    std::vector<double> r;
    for (auto& t : v) {
      RT x = get(t);
      r.insert(r.end(), x.d.begin(), x.d.end());
    }
    return r;
  };
  auto params = [&](nn::Module& m) {
    m.initParameters();
    std::vector<Tensor> v;
    for (auto* p : m.parameters()) v.push_back(*p);
    return cat(v);
  };
  switch (d.kind) {
    case RAND: return get(Tensor::rand(s, o)).d;
    case RANDN: return get(Tensor::randn(s, o)).d;
    case UNIFORM: return get(Tensor::uniform(s, (float)d.a, (float)d.b, o)).d;
    case BERN: return get(Tensor::bernoulli(s, (float)d.a, o)).d;
    case DROP: return get(fn::dropout(Tensor::ones(s, o), (float)d.a, true)).d;
    case DROPMOD: {
      nn::Dropout m((float)d.a);
      return get(m(Tensor::ones(s, o))).d;
    }
    case OPDROP: return get(tt::op::dropout(Tensor::ones(s, o), (float)d.a)).d;
    case ATTN: {
      Tensor q = Tensor::zeros({d.s[0], d.s[2], 4}), k = Tensor::zeros({d.s[0], d.s[2], 4});
      RT eye({d.s[0], d.s[2], d.s[2]});
      forIdx(eye.shape, [&](const Shape& i, int64_t f) { eye.d[f] = i[1] == i[2]; });
      return get(fn::sdpAttention(q, k, mkPlain(eye, DType::Float32), false, {}, (float)d.a)).d;
    }
    case MULTI: return get(fn::multinomial(Tensor::ones({7}, o), d.k, true)).d;
    case MULTINR: return get(fn::multinomial(Tensor::ones({d.k}, o), d.k, false)).d;
    case LINEAR: {
      nn::Linear m(d.s[0], d.s[1]);
      return params(m);
    }
    case CONV: {
      nn::Conv2D m(d.s[0], d.s[1], d.s[2]);
      return params(m);
    }
    case EMB: {
      nn::Embedding m(d.s[0], d.s[1]);
      return params(m);
    }
    case LOADER: {
      td::DataLoader ld(std::make_shared<Ids>((size_t)d.k), 7);
      std::vector<double> r;
      for (auto [i, b] : ld) {
        auto v = get(b[0]).d;
        r.insert(r.end(), v.begin(), v.end());
      }
      return r;
    }
    default: break;
  }
  Tensor t = Tensor::zeros(s, o);
  switch (d.kind) {
    case FILLU: t.fillUniform_((float)d.a, (float)d.b); break;
    case FILLN: t.fillNormal_((float)d.a, (float)d.b); break;
    case FILLB: t.fillBernoulli_((float)d.a); break;
    case IUNI: nn::Initializer::uniform(t, (float)d.a, (float)d.b); break;
    case INORM: nn::Initializer::normal(t, (float)d.a, (float)d.b); break;
    default: nn::Initializer::kaimingUniform(t, (float)d.a);
  }
  return get(t).d;
}
// deterministic work that must not move the generator
static void noise(vh::Rng& r) {
  Tensor a = mkPlain(genRT(r, {3, 4}, DType::Float32), DType::Float32, r.chance(0.5));
  Tensor b = a * 2.f + a;
  if (r.chance(0.5)) (void)fn::softmax(b, -1);
  if (r.chance(0.5) && b.requiresGrad()) fn::sum(b).backward();
  if (r.chance(0.5)) (void)tt::op::sort(b, (int64_t)0, false);
  if (r.chance(0.3)) {
    td::RandomSampler s((size_t)r.range(1, 30), (unsigned long)r.range(0, 3));
    s.setEpoch((size_t)r.range(0, 5));
  }
  if (r.chance(0.3)) (void)fn::dropout(a, 0.4f, false);
}
static unsigned long genSeed(vh::Rng& r) {
  switch (r.range(0, 4)) {
    case 0: return (unsigned long)r.range(0, 3);
    case 1: return (unsigned long)r.next() >> (unsigned)r.range(0, 40);
    case 2: return (unsigned long)r.range(0, 5) + 2147483647ul * (unsigned long)r.range(0, 2);
    default: return (unsigned long)r.range(0, 100000);
  }
}
static std::string bits(const std::vector<double>& v) { return std::string((const char*)v.data(), v.size() * 8); }

// shuffled orders: the order of an epoch follows from the seed and the epoch alone, whatever was drawn or visited before
SUITE(seed_samplers, 10) {
  auto& r = c.rng;
  size_t n = (size_t)r.range(12, r.chance(0.1) ? 3000 : 120);
  unsigned long seed = genSeed(r);
  c.desc = fmt("random sampler n %zu seed %lu", n, seed);
  if (r.chance(0.5)) tt::manualSeed(genSeed(r));
  td::RandomSampler a(n, seed);
  std::map<size_t, std::vector<size_t>> first;
  first[0] = a.indices();
  for (int64_t k = r.range(2, 10); k > 0; k--) {
    size_t e = (size_t)(r.chance(0.8) ? r.range(0, 6) : r.range(0, 100000));
    if (r.chance(0.4)) (void)run(genDraw(r));
    if (r.chance(0.2)) tt::manualSeed(genSeed(r));
    a.setEpoch(e);
    auto v = a.indices();
    td::RandomSampler fresh(n, seed);
    fresh.setEpoch(e);
    c.check(v == fresh.indices(), "seed.sampler.history", fmt("epoch %zu of seed %lu depends on what was visited before", e, seed));
    if (first.count(e)) c.check(v == first[e], "seed.sampler.again", fmt("epoch %zu", e));
    for (auto& [o, w] : first)
      if (o != e) c.check(v != w, "seed.sampler.epochs", fmt("epochs %zu and %zu have the same order", o, e));
    first[e] = v;
    td::RandomSampler other(n, seed + 200001ul + (unsigned long)r.range(0, 1000));
    other.setEpoch(e);
    c.check(v != other.indices(), "seed.sampler.seeds", "different seeds give the same order");
    c.obs("sampler_epochs");
  }
  c.seen(fmt("%zu/%lu", n, seed));
}

SUITE(seed_sequences, 20) {
  auto& r = c.rng;
  int n = (int)r.range(1, 14);
  std::vector<Draw> prog;
  for (int i = 0; i < n; i++) prog.push_back(!prog.empty() && r.chance(0.3) ? prog[(size_t)r.range(0, i - 1)] : genDraw(r));
  unsigned long s1 = genSeed(r), s2 = genSeed(r);
  while (s2 == s1) s2 = genSeed(r);
  c.desc = fmt("seeds %lu / %lu:", s1, s2);
  for (auto& d : prog) c.desc += " " + d.str();
  bool withNoise = r.chance(0.6), reseed = r.chance(0.3);
  uint64_t nz = r.next();
  auto sequence = [&](unsigned long s, uint64_t noiseSeed) {
    std::vector<std::vector<double>> out;
    vh::Rng q(noiseSeed);
    tt::manualSeed(s);
    for (int i = 0; i < n; i++) {
      if (withNoise && q.chance(0.5)) noise(q);
      if (reseed && i == n / 2) tt::manualSeed(s + 17);
      out.push_back(run(prog[i]));
    }
    return out;
  };
  // history before seeding must not matter
  for (int64_t k = r.range(0, 3); k > 0; k--) (void)run(genDraw(r));
  auto a = sequence(s1, nz);
  for (int64_t k = r.range(0, 3); k > 0; k--) (void)run(genDraw(r));
  auto b = sequence(s1, r.chance(0.5) ? nz : r.next());
  auto x = sequence(s2, nz);
  for (int i = 0; i < n; i++) {
    if (bits(a[i]) != bits(b[i])) c.fail("seed.repeat", fmt("draw %d (%s) differs in a second run with the same seed", i, prog[i].str().c_str()));
    if (prog[i].bits() >= 64 && bits(a[i]) == bits(x[i]))
      c.fail("seed.other", fmt("draw %d (%s) is the same with another seed", i, prog[i].str().c_str()));
    c.obs(std::string("draws_") + kindName[prog[i].kind]);
  }
  // identical operations at different places of one sequence
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      if (prog[i].same(prog[j]) && prog[i].bits() >= 64) {
        if (bits(a[i]) == bits(a[j])) c.fail("seed.successive", fmt("draws %d and %d (%s) are identical", j, i, prog[i].str().c_str()));
        c.obs("successive_pairs");
      }
  // the same stretch of [0,1) values in different operations
  std::map<std::string, int> where;
  for (int i = 0; i < n; i++) {
    if (prog[i].t != DType::Float32) continue;
    double lo = 0, hi = 1;
    bool uni = prog[i].kind == RAND || prog[i].kind == UNIFORM || prog[i].kind == FILLU || prog[i].kind == IUNI;
    bool nor = prog[i].kind == RANDN || prog[i].kind == FILLN || prog[i].kind == INORM;
    if (!uni && !nor) continue;
    if (prog[i].kind != RAND && prog[i].kind != RANDN) lo = (double)(float)prog[i].a, hi = uni ? (double)(float)prog[i].b : lo + (double)(float)prog[i].b;
    for (size_t k = 0; k + 6 <= a[i].size(); k += 2) {
      std::string key = uni ? "u" : "n";
      for (size_t q = 0; q < 6; q++) key += fmt("%.3f,", (a[i][k + q] - lo) / (hi - lo));
      auto [it, fresh] = where.insert({key, i});
      if (!fresh) c.fail("seed.overlap", fmt("draws %d and %d contain the same stretch of values", it->second, i));
      c.obs("stretches");
    }
  }
  c.seen(c.desc);
}

// the same seed in two processes
SUITE(seed_processes, 2) {
  auto& r = c.rng;
  int n = (int)r.range(1, 8);
  std::vector<Draw> prog;
  for (int i = 0; i < n; i++) prog.push_back(genDraw(r));
  unsigned long s = genSeed(r);
  c.desc = fmt("seed %lu in another process:", s);
  for (auto& d : prog) c.desc += " " + d.str();
  auto hash = [&] {
    tt::manualSeed(s);
    uint64_t h = 1;
    for (auto& d : prog) {
      auto v = run(d);
      h = vh::hashBytes(v.data(), v.size() * 8, h);
    }
    return h;
  };
  int p[2];
  if (pipe(p)) return;
  pid_t pid = fork();
  if (pid == 0) {
    for (int k = 0; k < 3; k++) (void)run(prog[0]);
    uint64_t h = hash();
    _exit(write(p[1], &h, 8) == 8 ? 0 : 1);
  }
  close(p[1]);
  uint64_t mine = hash(), other = 0;
  bool ok = read(p[0], &other, 8) == 8;
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  c.check(ok, "seed.process", "the other process ended without a result");
  c.check(mine == other, "seed.process", "two processes with the same seed draw different values");
  c.obs("process_pairs");
  c.seen(c.desc);
}
SUITE(seed_unseeded, 1) {
  auto& v = unseeded();
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = 0; j < i; j++) c.check(v[i] != v[j], "seed.unseeded", "two draws without any seed are identical");
  c.obs("unseeded_draws", v.size());
}
// neighbouring and arbitrary seeds all differ from each other
SUITE(seed_many, 2) {
  auto& r = c.rng;
  std::map<std::string, unsigned long> first;
  unsigned long base = genSeed(r);
  Draw d = genDraw(r);
  while (d.bits() < 120) d = genDraw(r);
  c.desc = fmt("200 seeds around %lu: %s", base, d.str().c_str());
  std::set<unsigned long> used;
  for (int k = 0; k < 200; k++) {
    unsigned long s = k < 100 ? base + (unsigned long)k : genSeed(r);
    if (!used.insert(s).second) continue;
    tt::manualSeed(s);
    auto [it, fresh] = first.insert({bits(run(d)), s});
    if (!fresh) c.fail("seed.collision", fmt("seeds %lu and %lu give the same %s", it->second, s, d.str().c_str()));
    c.obs("seeds");
  }
  c.seen(c.desc);
}
}  // namespace s_rand
