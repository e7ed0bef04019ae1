// scratch directories and small input files
#pragma once
#include <string>
#include <vector>
#include "vh.h"
namespace hf {
struct Scratch {
  std::string dir;
  Scratch() {
    const char* base = getenv("VH_SCRATCH");
    dir = std::string(base && *base ? base : "/tmp") + "/vh-XXXXXX";
    if (!mkdtemp(&dir[0])) throw vh::Fail{"harness.mkdtemp", "cannot create a scratch directory"};
  }
  static void clear(const std::string& p) {
    DIR* d = opendir(p.c_str());
    if (!d) return;
    while (dirent* e = readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
        std::string q = p + "/" + e->d_name;
        struct stat st;
        if (!lstat(q.c_str(), &st) && S_ISDIR(st.st_mode)) clear(q), rmdir(q.c_str());
        else unlink(q.c_str());
      }
    closedir(d);
  }
  ~Scratch() {
    clear(dir);
    rmdir(dir.c_str());
  }
  std::string file(const std::string& n) const { return dir + "/" + n; }
  Scratch(const Scratch&) = delete;
};
inline std::string slurp(const std::string& p, bool* ok = nullptr) {
  std::string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
inline void spit(const std::string& p, const std::string& s) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) throw vh::Fail{"harness.write", "cannot write " + p};
  fclose(f);
}
inline std::string be32(uint32_t v) {
  char b[4] = {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v};
  return std::string(b, 4);
}
struct Mnist {
  int n, nl, h, w;
  std::vector<std::string> img;  // n strings of h*w bytes
  std::string lab;               // nl bytes
  std::string imgFile() const {
    std::string s = be32(0x803) + be32(n) + be32(h) + be32(w);
    for (auto& i : img) s += i;
    return s;
  }
  std::string labFile() const { return be32(0x801) + be32(nl) + lab; }
};
inline Mnist genMnist(vh::Rng& r, int n, int nl, int h, int w) {
  Mnist m{n, nl, h, w, {}, {}};
  for (int i = 0; i < n; i++) {
    std::string s(h * w, 0);
    for (auto& ch : s) ch = (char)(r.chance(0.2) ? r.pick<int>({0, 255, 128, 127}) : r.range(0, 255));
    m.img.push_back(s);
  }
  for (int i = 0; i < nl; i++) m.lab += (char)r.range(0, r.chance(0.2) ? 255 : 9);
  return m;
}
inline int openFds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
inline int mapCount(const char* substr) {
  std::string s = slurp("/proc/self/maps");
  int n = 0;
  for (size_t p = s.find(substr); p != std::string::npos; p = s.find(substr, p + 1)) n++;
  return n;
}
}  // namespace hf
