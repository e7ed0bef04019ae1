// C21: MNIST files written here, read by the dataset, compared byte for byte; transforms
#pragma once
#include "tt.h"
#include "h_files.h"

#include "Data/DataLoader.h"
#include "Data/DatasetMNIST.h"
#include "Data/Transform.h"
namespace s_mnist {
namespace td = tt::data;
namespace tr = tt::data::transforms;
typedef td::DatasetMNIST DS;

static const char* imgName(bool train) { return train ? "train-images-idx3-ubyte" : "t10k-images-idx3-ubyte"; }
static const char* labName(bool train) { return train ? "train-labels-idx1-ubyte" : "t10k-labels-idx1-ubyte"; }

static void checkItem(vh::Case& c, DS& ds, const hf::Mnist& m, size_t i) {
  auto it = ds.getItem(i);
  c.check(it.size() == 2, "mnist.fields");
  RT x = get(it[0]);
  c.check(x.shape == Shape({1, m.h, m.w}), "mnist.shape", "image shape " + shapeStr(x.shape));
  c.check(it[0].dtype() == DType::Float32 && it[1].dtype() == DType::Int64 && it[1].dim() == 0, "mnist.dtype");
  for (size_t k = 0; k < x.d.size(); k++) {
    double w = (uint8_t)m.img[i][k] / 255.0;
    if (!(fabs(x.d[k] - w) <= 1.2e-7 * w)) c.fail("mnist.pixel", fmt("image %zu pixel %zu is %.9g, expected %.9g", i, k, x.d[k], w));
    if ((uint8_t)m.img[i][k] == 255) c.check(x.d[k] == 1.0, "mnist.white");
  }
  c.check(get(it[1]).d[0] == (double)(uint8_t)m.lab[i], "mnist.label", fmt("label %zu is %g, expected %d", i, get(it[1]).d[0], (uint8_t)m.lab[i]));
  c.obs("items_checked");
}

SUITE(mnist_read, 10) {
  auto& r = c.rng;
  hf::Scratch sc;
  int h = (int)(r.chance(0.2) ? 28 : r.range(1, 12)), w = (int)(r.chance(0.2) ? 28 : r.range(1, 12));
  int n = (int)r.range(0, 25), nl = r.chance(0.7) ? n : (int)r.range(0, 25);
  int n2 = (int)r.range(1, 10);
  auto m = hf::genMnist(r, n, nl, h, w);
  auto other = hf::genMnist(r, n2, n2, (int)r.range(1, 9), (int)r.range(1, 9));
  bool train = r.chance(0.5);
  std::string tail = r.chance(0.2) ? std::string("\x01\x02\xff", 3) : "";
  hf::spit(sc.file(imgName(train)), m.imgFile() + tail);
  hf::spit(sc.file(labName(train)), m.labFile() + tail);
  hf::spit(sc.file(imgName(!train)), other.imgFile());
  hf::spit(sc.file(labName(!train)), other.labFile());
  c.desc = fmt("%d images, %d labels, %dx%d, train %d", n, nl, h, w, train);
  DS ds(sc.dir + "/", train ? DS::TRAIN : DS::TEST, nullptr), ds2(sc.dir + "/", train ? DS::TEST : DS::TRAIN, nullptr);
  size_t want = (size_t)std::min(n, nl);
  c.check(ds.size() == want, "mnist.size", fmt("size() is %zu, expected %zu", ds.size(), want));
  c.check(ds2.size() == (size_t)n2, "mnist.size", fmt("size() is %zu, expected %d", ds2.size(), n2));
  std::vector<size_t> order;
  for (size_t i = 0; i < want; i++) order.push_back(i);
  r.shuffle(order);
  for (auto i : order) checkItem(c, ds, m, i);
  for (auto i : order)
    if (r.chance(0.3)) checkItem(c, ds, m, i);  // reading again, in any order
  for (size_t i = 0; i < (size_t)n2; i++) checkItem(c, ds2, other, i);
  // items are independent of each other and of the dataset
  if (want > 1) {
    auto a = ds.getItem(0);
    a[0].fillZero_();
    a[1].fillZero_();
    checkItem(c, ds, m, 0);
    checkItem(c, ds, m, 1);
  }
  // normalised batches through the loader
  if (want > 0) {
    float mean = (float)r.uniform(-1, 1), sd = (float)r.uniform(0.1, 3);
    auto dn = std::make_shared<DS>(sc.dir + "/", train ? DS::TRAIN : DS::TEST, std::make_shared<tr::Normalize>(mean, sd));
    size_t bs = (size_t)r.range(1, 8), k = 0;
    td::DataLoader ld(dn, bs, nullptr, false);
    for (auto [bi, b] : ld) {
      RT x = get(b[0]), y = get(b[1]);
      size_t rows = y.d.size(), per = x.d.size() / rows;
      for (size_t q = 0; q < rows; q++, k++) {
        c.check(y.d[q] == (double)(uint8_t)m.lab[k], "mnist.batchLabel");
        for (size_t e = 0; e < per; e++) {
          double v = ((uint8_t)m.img[k][e] / 255.0 - mean) / sd;
          if (!(fabs(x.d[q * per + e] - v) <= 4e-7 * (1 + fabs(mean)) / sd)) c.fail("mnist.normalize", fmt("item %zu pixel %zu is %.9g, expected %.9g", k, e, x.d[q * per + e], v));
        }
      }
    }
    c.check(k == want, "mnist.batches");
    c.obs("batches_checked");
  }
  c.seen(c.desc);
}

// more items than 16 bits count
SUITE_T(mnist_many, 1, 120) {
  auto& r = c.rng;
  if (c.index > (c.thorough ? 8u : 0u)) return;
  hf::Scratch sc;
  int h = (int)r.range(1, 2), w = (int)r.range(1, 3), n = (int)r.range(65537, 140000);
  auto m = hf::genMnist(r, n, n, h, w);
  hf::spit(sc.file(imgName(true)), m.imgFile());
  hf::spit(sc.file(labName(true)), m.labFile());
  c.desc = fmt("%d images of %dx%d", n, h, w);
  DS ds(sc.dir + "/", DS::TRAIN, nullptr);
  c.check(ds.size() == (size_t)n, "mnist.size", fmt("size() is %zu, expected %d", ds.size(), n));
  for (int k = 0; k < 400; k++) checkItem(c, ds, m, (size_t)(r.chance(0.2) ? n - 1 - r.range(0, 3) : r.chance(0.3) ? 65536 + r.range(-3, 3) : r.range(0, n - 1)) % (size_t)n);
  c.obs("many_items");
  c.seen(c.desc);
}

// every truncation point of both files
SUITE(mnist_truncated, 6) {
  auto& r = c.rng;
  hf::Scratch sc;
  int h = (int)r.range(1, 5), w = (int)r.range(1, 5), n = (int)r.range(1, 5);
  auto m = hf::genMnist(r, n, n, h, w);
  std::string fi = m.imgFile(), fl = m.labFile();
  c.desc = fmt("%d items %dx%d truncated", n, h, w);
  std::vector<std::pair<size_t, size_t>> cuts;
  for (size_t k = 16; k <= fi.size(); k++) cuts.push_back({k, fl.size()});
  for (size_t k = 8; k <= fl.size(); k++) cuts.push_back({fi.size(), k});
  for (int k = 0; k < 12; k++) cuts.push_back({(size_t)r.range(16, (int64_t)fi.size()), (size_t)r.range(8, (int64_t)fl.size())});
  // a cut inside the header leaves the size, height or width word missing
  for (size_t k = 4; k < 16; k++) cuts.push_back({k, fl.size()});
  for (size_t k = 4; k < 8; k++) cuts.push_back({fi.size(), k});
  for (auto [ci, cl] : cuts) {
    hf::spit(sc.file(imgName(true)), fi.substr(0, ci));
    hf::spit(sc.file(labName(true)), fl.substr(0, cl));
    DS ds(sc.dir + "/", DS::TRAIN, nullptr);
    size_t wi = ci < 16 ? 0 : (ci - 16) / (size_t)(h * w), wl = cl < 8 ? 0 : cl - 8;
    size_t want = std::min({wi, wl, (size_t)n});
    if (ds.size() != want) c.fail("mnist.truncatedSize", fmt("image file cut to %zu, label file to %zu bytes: size() is %zu, expected %zu", ci, cl, ds.size(), want));
    for (size_t i = 0; i < want; i++) checkItem(c, ds, m, i);
    c.obs("truncations");
  }
  c.seen(c.desc + fi.substr(16, 8));
}

// missing files, directories in their place, damaged headers: no invented samples
SUITE(mnist_damaged, 6) {
  auto& r = c.rng;
  hf::Scratch sc;
  int h = (int)r.range(1, 5), w = (int)r.range(1, 5), n = (int)r.range(1, 6);
  auto m = hf::genMnist(r, n, n, h, w);
  std::string fi = m.imgFile(), fl = m.labFile();
  int kind = (int)r.range(0, 7);
  bool onImg = r.chance(0.5);
  bool wrongMagic = false, more = false;
  switch (kind) {
    case 0: (onImg ? fi : fl) = "\x01missing"; break;
    case 1: (onImg ? fi : fl) = "\x01" "dir"; break;
    case 2: fi = fl = "\x01missing"; break;
    case 3: {  // wrong magic number
      auto& f = onImg ? fi : fl;
      f[r.range(0, 3)] ^= (char)(1 << r.range(0, 7));
      wrongMagic = true;
      break;
    }
    case 4: std::swap(fi, fl); wrongMagic = true; break;
    case 5: {  // a count larger than the content
      uint32_t big = (uint32_t)(n + r.range(1, 5000));
      (onImg ? fi : fl).replace(4, 4, hf::be32(big));
      more = true;
      break;
    }
    case 6: (onImg ? fi : fl) = fi.substr(0, (size_t)r.range(0, 3)); wrongMagic = true; break;  // no magic number at all
    default: {  // a count smaller than the content: the rest is not read
      int k = (int)r.range(0, n - 1);
      (onImg ? fi : fl).replace(4, 4, hf::be32((uint32_t)k));
      m.n = k;
    }
  }
  c.desc = fmt("damage %d on the %s file, %d items", kind, onImg ? "image" : "label", n);
  auto put = [&](const std::string& p, const std::string& s) {
    if (s == "\x01missing") return;
    if (s == "\x01" "dir") mkdir(p.c_str(), 0755);
    else hf::spit(p, s);
  };
  put(sc.file(imgName(false)), fi);
  put(sc.file(labName(false)), fl);
  size_t want = kind <= 2 ? 0 : kind == 7 ? (size_t)m.n : (size_t)n;
  if (wrongMagic) {
    // rejected: the process stops with the library's diagnosis, or the dataset is empty
    pid_t p = fork();
    if (p == 0) {
      signal(SIGTRAP, SIG_DFL);
      DS ds(sc.dir + "/", DS::TEST, nullptr);
      _exit(ds.size() == 0 ? 0 : 9);
    }
    int st = 0;
    waitpid(p, &st, 0);
    bool ok = (WIFEXITED(st) && WEXITSTATUS(st) == 0) || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGABRT));
    if (!ok) c.fail("mnist.wrongHeader", fmt("a file with a wrong magic number was accepted (status %d)", st));
    c.obs(WIFEXITED(st) ? "wrong_headers_empty" : "wrong_headers_diagnosed");
  } else {
    if (kind == 1) {
      // a directory opens but cannot be read: its header is missing
      pid_t p = fork();
      if (p == 0) {
        DS ds(sc.dir + "/", DS::TEST, nullptr);
        _exit(ds.size() == 0 ? 0 : 9);
      }
      int st = 0;
      waitpid(p, &st, 0);
      bool ok = (WIFEXITED(st) && WEXITSTATUS(st) == 0) || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGABRT));
      if (!ok) c.fail("mnist.directory", fmt("a directory was accepted (status %d)", st));
    } else {
      DS ds(sc.dir + "/", DS::TEST, nullptr);
      if (ds.size() != want) c.fail("mnist.damagedSize", fmt("size() is %zu, expected %zu", ds.size(), want));
      for (size_t i = 0; i < want; i++) checkItem(c, ds, m, i);
    }
    if (more) c.obs("counts_too_large");
  }
  c.obs("damaged");
  c.seen(c.desc);
}

struct Affine : tr::Transform {
  float a, b;
  Affine(float a, float b) : a(a), b(b) {}
  Tensor process(Tensor& x) const override { return x * a + b; }
};
struct Log : tr::Transform {
  std::vector<int>* log;
  int id;
  Log(std::vector<int>* l, int id) : log(l), id(id) {}
  Tensor process(Tensor& x) const override {
    log->push_back(id);
    return x;
  }
};
SUITE(transforms, 12) {
  auto& r = c.rng;
  Shape s = genShape(r, 4, 64);
  RT v = genRT(r, s, DType::Float32, -5, 5);
  Tensor x = r.chance(0.5) ? mkPlain(v, DType::Float32) : mkView(r, v, DType::Float32);
  int n = (int)r.range(0, 5);
  std::vector<int> log;
  RT ref = v;
  std::vector<double> err(v.d.size(), 1e-6);
  std::vector<std::shared_ptr<tr::Transform>> list;
  std::string d;
  for (int i = 0; i < n; i++) {
    if (r.chance(0.5)) {
      float mean = (float)r.uniform(-2, 2), sd = (float)(r.uniform(0.2, 2) * (r.chance(0.1) ? -1 : 1));
      list.push_back(std::make_shared<tr::Normalize>(mean, sd));
      for (size_t k = 0; k < err.size(); k++) err[k] = (err[k] + 3e-7 * (fabs(ref.d[k]) + fabs(mean))) / fabs(sd) + 1e-7;
      ref = map1(ref, [&](double t) { return (t - mean) / sd; });
      d += "N";
    } else {
      float a = (float)r.uniform(-2, 2), b = (float)r.uniform(-2, 2);
      list.push_back(std::make_shared<Affine>(a, b));
      for (size_t k = 0; k < err.size(); k++) err[k] = err[k] * fabs(a) + 3e-7 * (fabs(ref.d[k] * a) + fabs(b)) + 1e-7;
      ref = map1(ref, [&](double t) { return t * a + b; });
      d += "A";
    }
    list.push_back(std::make_shared<Log>(&log, i));
  }
  c.desc = "compose " + d + " on " + shapeStr(s);
  auto cmp = [&](const Tensor& y, const char* how) {
    RT g = get(y);
    c.check(g.shape == ref.shape, "compose.shape", how);
    for (size_t k = 0; k < g.d.size(); k++)
      if (!(fabs(g.d[k] - ref.d[k]) <= 4 * err[k])) c.fail("compose.value", fmt("%s: element %zu is %.9g, expected %.9g", how, k, g.d[k], ref.d[k]));
    c.check((int)log.size() == n, "compose.calls", fmt("%s: %zu of %d transforms ran", how, log.size(), n));
    for (int i = 0; i < n; i++) c.check(log[i] == i, "compose.order", how);
    log.clear();
    expectSame(v, get(x), "compose.input");
    c.obs("compositions");
  };
  tr::Compose a(std::initializer_list<std::shared_ptr<tr::Transform>>{});
  for (const auto& t : list) a.pushBack(t);
  Tensor in = x;
  cmp(a.process(in), "pushBack");
  // nested: first part inside an inner composition
  size_t cut = (size_t)r.range(0, (int64_t)list.size());
  auto inner = std::shared_ptr<tr::Compose>(new tr::Compose(std::initializer_list<std::shared_ptr<tr::Transform>>{}));
  for (size_t i = 0; i < cut; i++) inner->pushBack(std::as_const(list[i]));
  tr::Compose outer(std::initializer_list<std::shared_ptr<tr::Transform>>{});
  const std::shared_ptr<tr::Transform> innerT = inner;
  outer.pushBack(innerT);
  for (size_t i = cut; i < list.size(); i++) outer.pushBack(std::as_const(list[i]));
  in = x;
  cmp(outer.process(in), "nested");
  in = x;
  cmp(outer.process(in), "again");
  // by value, any number of transforms at once
  float m1 = (float)r.uniform(-2, 2), m2 = (float)r.uniform(-2, 2), s1 = (float)r.uniform(0.2, 2), s2 = (float)r.uniform(0.2, 2);
  tr::Compose byVal(tr::Normalize(m1, s1), Affine(s2, m2), tr::Normalize(m2, s2));
  in = x;
  RT g = get(byVal.process(in));
  for (size_t k = 0; k < g.d.size(); k++) {
    double t = (((v.d[k] - m1) / s1) * s2 + m2 - m2) / s2;
    if (!(fabs(g.d[k] - t) <= 1e-5 * (1 + fabs(v.d[k]) + fabs(m1) + fabs(m2)) / (s1 * s2))) c.fail("compose.byValue", fmt("element %zu is %.9g, expected %.9g", k, g.d[k], t));
  }
  c.seen(c.desc + std::to_string(cut));
}
}  // namespace s_mnist
