// C18: saving and loading restores every tensor bit for bit
#pragma once
#include "h_files.h"
#include "h_tree.h"
#include <map>
#include <tuple>

#include "Serializer.h"
namespace s_serial {
using namespace tree;

typedef std::vector<uint8_t> Bytes;
static Bytes bytesOf(const Tensor& t) {
  Bytes b((size_t)t.numel() * tt::dtypeSize(t.dtype()));
  if (!b.empty()) memcpy(b.data(), t.dataPtr<>(), b.size());
  return b;
}
static void randomBits(vh::Rng& r, const Tensor& t) {
  size_t n = (size_t)t.numel() * tt::dtypeSize(t.dtype());
  if (!n) return;
  uint8_t* p = (uint8_t*)t.dataPtr<>();
  if (t.dtype() == DType::Bool) {
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)r.range(0, 1);
    return;
  }
  int mode = (int)r.range(0, 3);
  for (size_t i = 0; i < n; i++) p[i] = mode == 0 ? 0xff : mode == 1 && r.chance(0.5) ? 0 : (uint8_t)r.next();
}
// replace some of the tree's tensors by views into larger storages, or make them share storage with an outside tensor
static void relayout(vh::Rng& r, const Named& states, std::vector<std::pair<Tensor, Bytes>>& outside) {
  for (auto& s : states) {
    Tensor& t = *s.second;
    int k = (int)r.range(0, 5);
    if (k == 0 && t.numel() > 0) {
      int64_t lead = r.range(1, 7), trail = r.range(0, 5);
      Tensor big = Tensor::empty(IntArrayView({lead + t.numel() + trail}), optOf(t.dtype()));
      randomBits(r, big);
      bool rg = t.requiresGrad();
      tt::Options o = optOf(t.dtype(), rg);
      Shape sh = toShape(t.shape());
      t = Tensor(IntArrayView(sh), o, big.storage(), lead);
      outside.emplace_back(big, Bytes());
    } else if (k == 1) {
      outside.emplace_back(t.clone(), Bytes());
    } else if (k == 2 && t.numel() > 0) {
      tt::Options o = optOf(t.dtype());
      outside.emplace_back(Tensor(IntArrayView({t.numel()}), o, t.storage(), t.storageOffset()), Bytes());
    }
  }
  for (auto& o : outside) o.second = bytesOf(o.first);
}

static NodeP build(uint64_t seed, const Opts& o) {
  vh::Rng r(seed);
  return gen(r, o);
}

SUITE(ser_roundtrip, 20) {
  auto& r = c.rng;
  hf::Scratch dir;
  Opts o;
  o.allDtypes = true;
  o.maxNumel = r.chance(0.05) ? 6000 : 24;
  uint64_t sd = r.next();
  auto A = build(sd, o), B = build(sd, o);
  c.desc = str(A).substr(0, 400);
  Named sa, sb;
  expected(*A, "", true, sa);
  expected(*B, "", true, sb);
  std::set<std::string> names;
  for (auto& s : sa)
    if (!names.insert(s.first).second) return;  // two states with one dotted name: nothing can keep them apart
  std::vector<std::pair<Tensor, Bytes>> oa, ob;
  vh::Rng ra(r.next()), rb(r.next());
  relayout(ra, sa, oa);
  for (auto& s : sa) randomBits(ra, *s.second);
  for (auto& x : oa) x.second = bytesOf(x.first);
  relayout(rb, sb, ob);
  for (auto& s : sb) randomBits(rb, *s.second);
  for (auto& x : ob) x.second = bytesOf(x.first);
  std::vector<Bytes> before;
  std::vector<const void*> ptr;
  for (auto& s : sa) before.push_back(bytesOf(*s.second)), ptr.push_back(s.second->dataPtr<>());
  std::string path = dir.file("model.bin");
  // an older, longer or shorter file may be in the way
  if (r.chance(0.3)) hf::spit(path, std::string((size_t)r.range(0, 100000), 'x'));
  bool viaClass = r.chance(0.3);
  c.check(viaClass ? tt::Serializer::save(*A->m, path) : tt::save(*A->m, path), "ser.save", "save reported failure");
  for (size_t i = 0; i < sa.size(); i++) {
    c.check(bytesOf(*sa[i].second) == before[i], "ser.saveModifies", sa[i].first);
  }
  for (auto& x : oa) c.check(bytesOf(x.first) == x.second, "ser.saveModifiesOther");
  std::vector<RT> grads;
  for (auto& s : sb)
    if (s.second->requiresGrad() && r.chance(0.3)) s.second->addGrad(mkPlain(RT(toShape(s.second->shape()), 2.0), s.second->dtype()));
  bool strict = r.chance(0.7);
  auto handles = B->m->states();
  c.check(viaClass ? tt::Serializer::load(*B->m, path, strict) : strict && r.chance(0.5) ? tt::load(*B->m, path) : tt::load(*B->m, path, strict), "ser.load",
          "load reported failure");
  auto after = B->m->states();
  c.check(after == handles, "ser.pointers", "loading replaced the registered tensors");
  for (size_t i = 0; i < sb.size(); i++) {
    Tensor& t = *sb[i].second;
    c.check(t.dtype() == sa[i].second->dtype() && t.shape() == sa[i].second->shape(), "ser.meta", sb[i].first);
    if (bytesOf(t) != before[i]) {
      RT g = get(t), w = get(*sa[i].second);
      c.fail("ser.bits", sb[i].first + fmt(" %s ", dtn(t.dtype())) + rtStr(g) + " expected " + rtStr(w));
    }
    c.check(t.requiresGrad() == sa[i].second->requiresGrad(), "ser.requiresGrad", sb[i].first);
    if (t.requiresGrad()) {
      c.check(t.isLeaf(), "ser.leaf", sb[i].first);
      if (t.grad().defined()) expectSame(RT(toShape(t.shape()), 2.0), get(t.grad()), "ser.grad");
    }
    c.obs(std::string("tensors_") + dtn(t.dtype()));
    c.obs("bytes", before[i].size());
  }
  for (auto& x : ob)
    c.check(bytesOf(x.first) == x.second, "ser.loadModifiesOther", "a tensor outside the module that shared its memory changed");
  for (size_t i = 0; i < sa.size(); i++) c.check(bytesOf(*sa[i].second) == before[i], "ser.loadModifiesSource");
  // a second save of the loaded model is an equivalent file
  std::string path2 = dir.file("again.bin");
  c.check(tt::save(*B->m, path2), "ser.save2");
  auto C = build(sd, o);
  Named sc;
  expected(*C, "", true, sc);
  for (auto& s : sc) randomBits(rb, *s.second);
  c.check(tt::load(*C->m, path2), "ser.load2");
  for (size_t i = 0; i < sc.size(); i++) c.check(bytesOf(*sc[i].second) == before[i], "ser.bits2", sc[i].first);
  // the file keeps no hold on the model, nor the model on the file
  hf::spit(path, "gone");
  for (size_t i = 0; i < sb.size(); i++) c.check(bytesOf(*sb[i].second) == before[i], "ser.fileHold", sb[i].first);
  c.obs("files");
  c.seen(c.desc);
}

// files whose structure differs from the module: matching tensors are loaded, strict mode reports the difference
SUITE(ser_mismatch, 8) {
  auto& r = c.rng;
  hf::Scratch dir;
  auto mk = [&](vh::Rng& g, const std::vector<std::tuple<std::string, Shape, DType>>& spec) {
    auto m = std::make_shared<Probe>();
    m->overrideStates = true;
    for (auto& s : spec) {
      m->buffers.emplace_back(std::get<0>(s), std::make_unique<Tensor>(Tensor::empty(IntArrayView(std::get<1>(s)), optOf(std::get<2>(s)))));
      randomBits(g, *m->buffers.back().second);
    }
    return m;
  };
  std::vector<std::tuple<std::string, Shape, DType>> sa, sb;
  int n = (int)r.range(1, 6);
  bool missing = false, unexpected = false, wrong = false;
  std::vector<int> kind;
  for (int i = 0; i < n; i++) {
    std::string name = "t" + std::to_string(i);
    Shape s = genShape(r, 3, 20);
    DType t = r.pick(allTypes());
    int k = r.chance(0.5) ? 0 : (int)r.range(1, 4);
    if (k == 1) sa.emplace_back(name, s, t), unexpected = true;       // only in the file
    else if (k == 2) sb.emplace_back(name, s, t), missing = true;     // only in the module
    else if (k == 3) {
      Shape s2 = s;
      if (s2.empty() || r.chance(0.3)) s2.push_back(1);
      else if (r.chance(0.4)) s2[0] += 1;
      else if (s2.size() > 1 && s2[0] != s2[1]) std::swap(s2[0], s2[1]);
      else s2[0] += 2;
      sa.emplace_back(name, s, t), sb.emplace_back(name, s2, t), wrong = true;
    } else if (k == 4) {
      DType t2 = t;
      while (t2 == t) t2 = r.pick(allTypes());
      sa.emplace_back(name, s, t), sb.emplace_back(name, s, t2), wrong = true;
    } else sa.emplace_back(name, s, t), sb.emplace_back(name, s, t);
  }
  r.shuffle(sb);
  auto A = mk(r, sa), B = mk(r, sb);
  std::string path = dir.file("m.bin");
  c.check(tt::save(*A, path), "ser.save");
  std::map<std::string, Bytes> fileBytes;
  std::map<std::string, std::pair<Shape, DType>> meta;
  for (auto& b : A->buffers) fileBytes[b.first] = bytesOf(*b.second), meta[b.first] = {toShape(b.second->shape()), b.second->dtype()};
  std::vector<Bytes> before;
  for (auto& b : B->buffers) before.push_back(bytesOf(*b.second));
  bool strict = r.chance(0.5);
  bool want = !wrong && (!strict || (!missing && !unexpected));
  c.desc = fmt("n %d missing %d unexpected %d wrong %d strict %d", n, missing, unexpected, wrong, strict);
  bool got = tt::load(*B, path, strict);
  c.check(got == want, "ser.mismatch.result", fmt("load returned %d", got));
  for (size_t i = 0; i < B->buffers.size(); i++) {
    Tensor& t = *B->buffers[i].second;
    auto it = meta.find(B->buffers[i].first);
    bool same = it != meta.end() && it->second.first == toShape(t.shape()) && it->second.second == t.dtype();
    if (want && same) c.check(bytesOf(t) == fileBytes[it->first], "ser.mismatch.matching", it->first);
    if (!same) c.check(bytesOf(t) == before[i], "ser.mismatch.touched", B->buffers[i].first);
  }
  c.obs(want ? "accepted" : "refused");
  c.seen(c.desc + std::to_string(c.seed % 64));
}

// training continues identically from a saved model
SUITE(ser_model, 4) {
  auto& r = c.rng;
  hf::Scratch dir;
  auto mk = [&]() {
    return std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{
        std::make_shared<nn::Linear>(4, 6), std::make_shared<nn::Relu>(), std::make_shared<nn::Linear>(6, 3, false)});
  };
  auto a = mk(), b = mk();
  a->initParameters();
  b->initParameters();
  DType t = r.pick(floatTypes());
  if (t != DType::Float32) a->to(t), b->to(t);
  std::string p = dir.file("net.bin");
  c.desc = dtn(t);
  c.check(tt::save(*a, p) && tt::load(*b, p), "ser.model.io");
  Tensor x = mkPlain(genRT(r, {5, 4}, t, -1, 1), t);
  expectSame(get((*a)(x)), get((*b)(x)), "ser.model.forward");
  // a model of another precision refuses the file and stays as it was
  auto d = mk();
  d->initParameters();
  DType u = t == DType::Float32 ? DType::BFloat16 : DType::Float32;
  d->to(u);
  std::vector<Bytes> before;
  for (auto q : d->states()) before.push_back(bytesOf(*q));
  c.check(!tt::load(*d, p), "ser.model.dtype", "a file of another data type was accepted");
  size_t i = 0;
  for (auto q : d->states()) c.check(bytesOf(*q) == before[i++], "ser.model.dtypeTouched");
  c.obs("models");
  c.seen(c.desc + std::to_string(c.seed));
}
}  // namespace s_serial
