// C19: damaged model files and failing writes
#pragma once
#include <atomic>
#include <map>

#include "h_files.h"
#include "h_tree.h"

#include "Serializer.h"
#ifdef VH_ASAN
#include <sanitizer/asan_interface.h>
#endif
#include <sys/syscall.h>
#include <sys/uio.h>

namespace h_guard {
// file mappings end right before an inaccessible page; under ASan the slack of the last page is inaccessible as well
static std::map<void*, size_t>* maps = nullptr;
static bool active = false;
static int used = 0;
static size_t up(size_t n) { return (n + 4095) & ~(size_t)4095; }
// write faults, applied to regular files opened by path prefix
static std::string target;
static int64_t budget = -1;   // bytes until every further write fails
static int failErrno = ENOSPC;
static int shortWrites = 0;   // 1: writes are cut short at random
static int64_t faults = 0, writes = 0;
static vh::Rng wr{1};
static bool ours(int fd) {
  if (target.empty()) return false;
  char p[64], b[512];
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(p, b, sizeof b - 1);
  if (n <= 0) return false;
  b[n] = 0;
  return target == b;
}
// how many bytes of a request to let through; -1: fail
static int64_t allow(size_t n) {
  writes++;
  int64_t k = (int64_t)n;
  if (shortWrites && n > 1 && wr.chance(0.6)) k = wr.range(1, (int64_t)n);
  if (budget >= 0) {
    if (budget == 0) {
      faults++;
      return -1;
    }
    k = std::min(k, budget);
    budget -= k;
  }
  return k;
}
}  // namespace h_guard

extern "C" void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (!h_guard::active || fd < 0 || a || n == 0) return (void*)syscall(SYS_mmap, a, n, prot, flags, fd, off);
  size_t u = h_guard::up(n);
  char* p = (char*)syscall(SYS_mmap, nullptr, u + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) return p;
  void* q = (void*)syscall(SYS_mmap, p + 4096, n, prot, flags | MAP_FIXED, fd, off);
  if (q == MAP_FAILED) {
    int e = errno;
    syscall(SYS_munmap, p, u + 8192);
    errno = e;
    return q;
  }
#ifdef VH_ASAN
  if (u > n) __asan_poison_memory_region((char*)q + n, u - n);
#endif
  h_guard::active = false;
  if (!h_guard::maps) h_guard::maps = new std::map<void*, size_t>;
  (*h_guard::maps)[q] = u;
  h_guard::active = true;
  h_guard::used++;
  return q;
}
extern "C" int munmap(void* a, size_t n) {
  if (h_guard::maps) {
    auto it = h_guard::maps->find(a);
    if (it != h_guard::maps->end()) {
      size_t u = it->second;
      h_guard::maps->erase(it);
#ifdef VH_ASAN
      __asan_unpoison_memory_region(a, u);
#endif
      return (int)syscall(SYS_munmap, (char*)a - 4096, u + 8192);
    }
  }
  return (int)syscall(SYS_munmap, a, n);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
  if (h_guard::ours(fd)) {
    int64_t k = h_guard::allow(n);
    if (k < 0) {
      errno = h_guard::failErrno;
      return -1;
    }
    return syscall(SYS_write, fd, b, (size_t)k);
  }
  return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int cnt) {
  if (h_guard::ours(fd)) {
    size_t n = 0;
    for (int i = 0; i < cnt; i++) n += v[i].iov_len;
    int64_t k = h_guard::allow(n);
    if (k < 0) {
      errno = h_guard::failErrno;
      return -1;
    }
    std::vector<iovec> w;
    int64_t left = k;
    for (int i = 0; i < cnt && left > 0; i++) {
      iovec x = v[i];
      x.iov_len = (size_t)std::min<int64_t>((int64_t)x.iov_len, left);
      left -= (int64_t)x.iov_len;
      w.push_back(x);
    }
    return syscall(SYS_writev, fd, w.data(), (int)w.size());
  }
  return syscall(SYS_writev, fd, v, cnt);
}

namespace s_damage {
using namespace tree;
typedef std::string Bytes;
struct Guard {
  Guard() { h_guard::active = true; }
  ~Guard() { h_guard::active = false; }
};

static Bytes bytesOf(const Tensor& t) {
  Bytes b((size_t)t.numel() * tt::dtypeSize(t.dtype()), 0);
  if (!b.empty()) memcpy(&b[0], t.dataPtr<>(), b.size());
  return b;
}
static void randomBits(vh::Rng& r, const Tensor& t) {
  size_t n = (size_t)t.numel() * tt::dtypeSize(t.dtype());
  uint8_t* p = n ? (uint8_t*)t.dataPtr<>() : nullptr;
  for (size_t i = 0; i < n; i++) p[i] = t.dtype() == DType::Bool ? (uint8_t)r.range(0, 1) : (uint8_t)r.next();
}

// independent reader of the file layout: every entry that is completely and consistently described
struct Entry {
  std::string name;
  Shape shape;
  uint64_t dtype, off, size;
  bool inRange;
};
static bool parse(const Bytes& f, std::vector<Entry>& out) {
  size_t o = 0;
  auto u64 = [&](uint64_t& v) {
    if (f.size() - o < 8) return false;
    memcpy(&v, f.data() + o, 8);
    o += 8;
    return true;
  };
  uint64_t magic, ver, cnt;
  if (!u64(magic) || magic != 0x54494E59 || !u64(ver) || ver != 1 || !u64(cnt)) return false;
  for (uint64_t i = 0; i < cnt; i++) {
    Entry e;
    uint64_t nl, nd;
    if (!u64(nl) || !u64(nd) || !u64(e.dtype) || !u64(e.off) || !u64(e.size)) return false;
    if (nl > f.size() - o) return false;
    e.name = f.substr(o, nl);
    o += nl;
    for (uint64_t k = 0; k < nd; k++) {
      uint64_t d;
      if (!u64(d)) return false;
      e.shape.push_back((int64_t)d);
    }
    e.inRange = e.size <= f.size() && e.off <= f.size() - e.size;
    out.push_back(e);
  }
  return true;
}

struct Model {
  std::shared_ptr<Probe> m;
  std::vector<std::string> names;
};
static Model mkModel(vh::Rng& g, uint64_t sd, int64_t maxNumel) {
  vh::Rng r(sd);
  Model m;
  m.m = std::make_shared<Probe>();
  m.m->overrideStates = true;
  int n = (int)r.range(r.chance(0.05) ? 0 : 1, 5);
  std::set<std::string> used;
  for (int i = 0; i < n; i++) {
    Shape s = genShape(r, 4, maxNumel);
    if (r.chance(0.05) && !s.empty()) s[0] = 0;
    auto t = std::make_unique<Tensor>(Tensor::empty(IntArrayView(s), optOf(r.pick(allTypes()))));
    randomBits(g, *t);
    std::string nm = genName(r, used);
    m.m->buffers.emplace_back(nm, std::move(t));
    m.names.push_back(nm);
  }
  return m;
}

static std::string mutate(vh::Rng& r, Bytes& f, size_t headerEnd, bool& payloadOnly) {
  std::string d;
  int n = r.chance(0.75) ? 1 : (int)r.range(2, 4);
  payloadOnly = true;
  for (int i = 0; i < n; i++) {
    switch (r.range(0, 11)) {
      case 0:
      case 1: {  // truncation
        size_t k = r.chance(0.6) ? (size_t)r.range(0, (int64_t)std::min(f.size(), headerEnd + 16)) : (size_t)r.range(0, (int64_t)f.size());
        if (f.size() && r.chance(0.2)) k = f.size() - (size_t)r.range(1, std::min<int64_t>(9, (int64_t)f.size()));
        if (k > f.size()) k = f.size();
        if (k < f.size()) payloadOnly = false;
        f.resize(k);
        d += fmt("truncate %zu;", k);
        break;
      }
      case 2:
      case 3: {  // bit flips
        if (f.empty()) break;
        size_t p = r.chance(0.7) ? (size_t)r.range(0, (int64_t)std::min(f.size(), headerEnd) - 1) : (size_t)r.range(0, (int64_t)f.size() - 1);
        if (p >= f.size()) p = f.size() - 1;
        f[p] = (char)(f[p] ^ (1 << r.range(0, 7)));
        if (p < headerEnd) payloadOnly = false;
        d += fmt("flip byte %zu;", p);
        break;
      }
      case 4:
      case 5:
      case 6:
      case 7: {  // a 64-bit header word replaced by a hostile value
        if (f.size() < 8) break;
        size_t lim = std::min(f.size(), headerEnd);
        if (lim < 8) break;
        size_t p = (size_t)r.range(0, (int64_t)lim - 8);
        if (r.chance(0.7)) p &= ~(size_t)7;
        uint64_t v, old;
        memcpy(&old, f.data() + p, 8);
        switch (r.range(0, 9)) {
          case 0: v = ~0ull; break;
          case 1: v = 1ull << 63; break;
          case 2: v = ~0ull - r.range(0, 4096); break;
          case 3: v = (uint64_t)f.size() - (uint64_t)r.range(0, 64); break;
          case 4: v = (uint64_t)f.size() + (uint64_t)r.range(0, 64); break;
          case 5: v = old + (uint64_t)r.range(1, 9); break;
          case 6: v = old - (uint64_t)r.range(1, 9); break;
          case 7: v = 0; break;
          case 8: v = r.next() >> r.range(0, 60); break;
          default: v = 1ull << r.range(8, 62);
        }
        memcpy(&f[p], &v, 8);
        payloadOnly = false;
        d += fmt("word at %zu = %llx;", p, (unsigned long long)v);
        break;
      }
      case 8: {  // garbage run
        if (f.empty()) break;
        size_t p = (size_t)r.range(0, (int64_t)f.size() - 1), k = std::min<size_t>((size_t)r.range(1, 40), f.size() - p);
        for (size_t j = 0; j < k; j++) f[p + j] = (char)(r.chance(0.3) ? 0xff : r.next());
        if (p < headerEnd) payloadOnly = false;
        d += fmt("garbage %zu+%zu;", p, k);
        break;
      }
      case 9: {  // insert or remove bytes
        size_t p = (size_t)r.range(0, (int64_t)f.size());
        if (r.chance(0.5)) f.insert(p, std::string((size_t)r.range(1, 20), (char)r.next()));
        else f.erase(p, (size_t)r.range(1, 20));
        payloadOnly = false;
        d += fmt("shift at %zu;", p);
        break;
      }
      case 10: {  // a copy of one part over another
        if (f.size() < 16) break;
        size_t k = (size_t)r.range(1, std::min<int64_t>(48, (int64_t)f.size() / 2)), a = (size_t)r.range(0, (int64_t)(f.size() - k)), b = (size_t)r.range(0, (int64_t)(f.size() - k));
        std::string t = f.substr(a, k);
        f.replace(b, k, t);
        payloadOnly = false;
        d += fmt("copy %zu->%zu+%zu;", a, b, k);
        break;
      }
      default:  // trailing bytes
        f += std::string((size_t)r.range(1, 5000), (char)r.next());
        d += "append;";
    }
  }
  return d;
}

SUITE_T(dmg_load, 40, 20) {
  auto& r = c.rng;
  hf::Scratch dir;
  uint64_t sd = r.next();
  int64_t maxN = r.chance(0.1) ? 3000 : 20;
  vh::Rng g1(r.next()), g2(r.next());
  auto A = mkModel(g1, sd, maxN), B = mkModel(g2, sd, maxN);
  std::string path = dir.file("m.bin");
  c.check(tt::save(*A.m, path), "dmg.save");
  Bytes orig = hf::slurp(path);
  std::vector<Entry> es;
  c.check(parse(orig, es) && es.size() == A.names.size(), "dmg.layout", "the independent reader does not understand a freshly saved file");
  size_t headerEnd = orig.size();
  for (auto& e : es) headerEnd = std::min(headerEnd, (size_t)e.off);
  for (int it = 0; it < 30; it++) {
    Bytes f = orig;
    bool payloadOnly = true;
    std::string d;
    int whole = (int)r.range(0, 40);
    if (whole == 0) {  // not a model file at all
      f = std::string((size_t)r.range(0, 400), 0);
      for (auto& ch : f) ch = (char)r.next();
      if (r.chance(0.5) && f.size() >= 8) memcpy(&f[0], orig.data(), 8);
      d = "random file";
      payloadOnly = false;
    } else if (whole == 1) d = "pristine";
    else d = mutate(r, f, headerEnd, payloadOnly);
    if (f == orig) payloadOnly = true;
    hf::spit(path, f);
    std::vector<Bytes> old;
    for (auto& b : B.m->buffers) {
      randomBits(g2, *b.second);
      old.push_back(bytesOf(*b.second));
    }
    bool strict = r.chance(0.6);
    c.desc = d + fmt(" size %zu strict %d", f.size(), strict);
    int fds = hf::openFds();
    bool ok;
    {
      Guard g;
      ok = tt::load(*B.m, path, strict);
    }
    c.check(hf::openFds() == fds, "dmg.fd", "a file descriptor stays open");
    c.check(!h_guard::maps || h_guard::maps->empty(), "dmg.map", "the file stays mapped");
    es.clear();
    bool parsed = parse(f, es);
    size_t i = 0;
    for (auto& b : B.m->buffers) {
      Tensor& t = *b.second;
      Bytes now = bytesOf(t);
      c.check(now.size() == old[i].size() && t.dtype() == A.m->buffers[i].second->dtype() && t.shape() == A.m->buffers[i].second->shape(), "dmg.meta", "a tensor changed its form");
      bool fromFile = false, described = false;
      for (auto& e : es)
        if (e.name == b.first) {
          described = true;
          if (e.inRange && e.shape == toShape(t.shape()) && (e.dtype & 0xff) == (uint64_t)t.dtype() && e.size == now.size() && f.compare(e.off, e.size, now) == 0) fromFile = true;
        }
      if (ok && strict && !fromFile) c.fail("dmg.accepted", "load succeeded but " + b.first + " is not what the file holds for it");
      if (ok && described && !fromFile) c.fail("dmg.accepted", "load succeeded but " + b.first + " is not what the file holds for it");
      if (!fromFile && now != old[i]) c.fail("dmg.invented", b.first + " holds bytes that are neither its old ones nor the file's");
      i++;
    }
    if (ok && !parsed) c.fail("dmg.acceptedTruncated", "load succeeded on a file whose header is incomplete");
    if (f == orig && !ok) c.fail("dmg.pristine", "an undamaged file was refused");
    c.obs(f == orig ? "pristine" : ok ? (payloadOnly ? "payload_damage_accepted" : "accepted") : "refused");
    c.seen(d);
  }
  c.obs("guarded_mappings", (uint64_t)h_guard::used);
  h_guard::used = 0;
}

// every truncation point of one file
SUITE_T(dmg_truncate_all, 1, 60) {
  auto& r = c.rng;
  hf::Scratch dir;
  uint64_t sd = r.next();
  vh::Rng g1(r.next()), g2(r.next());
  auto A = mkModel(g1, sd, 12), B = mkModel(g2, sd, 12);
  std::string path = dir.file("m.bin");
  c.check(tt::save(*A.m, path), "dmg.save");
  Bytes orig = hf::slurp(path);
  // tensors that need no data can be complete in a shorter file
  std::vector<Entry> es;
  parse(orig, es);
  size_t need = 24;
  for (auto& e : es) {
    if (e.size) need = std::max(need, (size_t)(e.off + e.size));
    else need = std::max(need, (size_t)0);
  }
  for (size_t k = 0; k <= orig.size(); k++) {
    hf::spit(path, orig.substr(0, k));
    c.desc = fmt("first %zu of %zu bytes", k, orig.size());
    bool ok;
    {
      Guard g;
      ok = tt::load(*B.m, path);
    }
    if (k == orig.size()) c.check(ok, "dmg.pristine");
    else if (k < need) c.check(!ok, "dmg.truncatedAccepted");
    c.obs("truncation_points");
  }
  c.seen(fmt("%zu %llx", orig.size(), (unsigned long long)sd));
}

// paths that cannot be read
SUITE(dmg_paths, 2) {
  auto& r = c.rng;
  hf::Scratch dir;
  vh::Rng g1(r.next());
  auto B = mkModel(g1, r.next(), 12);
  std::vector<Bytes> old;
  for (auto& b : B.m->buffers) old.push_back(bytesOf(*b.second));
  for (std::string p : {dir.file("missing.bin"), dir.dir, std::string(""), dir.file("no/such/dir/m.bin"), std::string("/dev/null"), dir.file(std::string(300, 'x'))}) {
    c.desc = "load " + p;
    int fds = hf::openFds();
    c.check(!tt::load(*B.m, p, r.chance(0.5)) , "dmg.path.load", "load reported success");
    c.check(hf::openFds() == fds, "dmg.path.fd");
    c.obs("unreadable_paths");
  }
  size_t i = 0;
  for (auto& b : B.m->buffers) c.check(bytesOf(*b.second) == old[i++], "dmg.path.touched");
  hf::spit(dir.file("empty"), "");
  c.check(!tt::load(*B.m, dir.file("empty")), "dmg.path.empty");
  for (std::string p : {dir.dir, std::string(""), dir.file("no/such/dir/m.bin"), std::string("/dev/full"), dir.file(std::string(300, 'x'))}) {
    c.desc = "save " + p;
    int fds = hf::openFds();
    c.check(!tt::save(*B.m, p), "dmg.path.save", "save reported success");
    c.check(hf::openFds() == fds, "dmg.path.fd");
    c.obs("unwritable_paths");
  }
  c.seen(c.desc + std::to_string(c.seed));
}

// the device fills up, or errors, after any number of bytes; short writes are completed
SUITE_T(dmg_write, 20, 30) {
  auto& r = c.rng;
  hf::Scratch dir;
  uint64_t sd = r.next();
  int64_t maxN = r.chance(0.3) ? 8000 : 20;
  vh::Rng g1(r.next()), g2(r.next());
  auto A = mkModel(g1, sd, maxN), B = mkModel(g2, sd, maxN);
  char real[512];
  std::string base = realpath(dir.dir.c_str(), real) ? real : dir.dir;
  std::string ref = base + "/ref.bin", path = base + "/m.bin";
  c.check(tt::save(*A.m, ref), "dmg.save");
  int64_t size = (int64_t)hf::slurp(ref).size();
  for (int it = 0; it < 12; it++) {
    int mode = (int)r.range(0, 3);
    int64_t k = r.chance(0.2) ? size - r.range(-3, 3) : r.chance(0.2) ? r.range(0, 24) : r.range(0, size + 8);
    if (k < 0) k = 0;
    if (r.chance(0.3)) hf::spit(path, std::string((size_t)r.range(0, 2 * size), 'x'));
    bool ok;
    if (mode == 0) {  // file size limit: the kernel refuses everything past k bytes
      c.desc = fmt("size limit %lld of %lld bytes", (long long)k, (long long)size);
      struct rlimit old, lim;
      getrlimit(RLIMIT_FSIZE, &old);
      signal(SIGXFSZ, SIG_IGN);
      lim = old;
      lim.rlim_cur = (rlim_t)k;
      setrlimit(RLIMIT_FSIZE, &lim);
      ok = tt::save(*A.m, path);
      setrlimit(RLIMIT_FSIZE, &old);
    } else {
      h_guard::target = path;
      h_guard::budget = mode == 1 ? k : mode == 2 ? -1 : k;
      h_guard::shortWrites = mode >= 2;
      h_guard::failErrno = r.pick({ENOSPC, EIO, EDQUOT});
      h_guard::faults = h_guard::writes = 0;
      h_guard::wr = vh::Rng(r.next());
      c.desc = fmt("write fault mode %d after %lld of %lld bytes", mode, (long long)h_guard::budget, (long long)size);
      if (mode == 2) k = size;
      ok = tt::save(*A.m, path);
      h_guard::target.clear();
      c.obs("writes_seen", (uint64_t)h_guard::writes);
      c.obs("write_faults", (uint64_t)h_guard::faults);
      if (h_guard::faults) c.check(!ok, "dmg.write.fault", "a write failed and save reported success");
    }
    Bytes f = hf::slurp(path);
    if (ok) {
      if ((int64_t)f.size() < size) c.fail("dmg.write.short", fmt("save reported success and left %zu of %lld bytes", f.size(), (long long)size));
      c.check(tt::load(*B.m, path), "dmg.write.reload", "save reported success and the file does not load");
      for (size_t i = 0; i < A.m->buffers.size(); i++)
        c.check(bytesOf(*A.m->buffers[i].second) == bytesOf(*B.m->buffers[i].second), "dmg.write.bits", "save reported success and the file holds other values");
      c.obs("saves_succeeded");
    } else {
      // only a fault makes a save fail
      if (k >= size) c.fail("dmg.write.refused", "save reported failure although every byte could be written");
      c.obs("saves_failed");
    }
    c.seen(c.desc);
  }
  // and the model still saves once the fault is gone
  c.check(tt::save(*A.m, path), "dmg.write.recover");
  c.check(tt::load(*B.m, path), "dmg.write.recover");
}
}  // namespace s_damage
