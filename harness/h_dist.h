// Ranks as threads over the real process group and NCCL backend (device layer: h_nccl.h).
#pragma once
#include <functional>
#include <memory>
#include <mutex>
#include <thread>

#include "h_nccl.h"
#include "tt.h"
#include "vh.h"
#include "h_files.h"
#include "Distributed/DistributedProcessGroup.h"
namespace hd {
namespace dist = tinytorch::distributed;
typedef std::shared_ptr<dist::DistributedProcessGroup> PG;
// runs f(rank) on n threads; the first failed check of any rank is reported once all are done
inline void ranks(int n, const std::function<void(int)>& f) {
  std::mutex m;
  std::vector<vh::Fail> fails;
  std::vector<std::thread> t;
  for (int r = 0; r < n; r++)
    t.emplace_back([&, r] {
      try {
        f(r);
      } catch (const vh::Fail& e) {
        std::lock_guard<std::mutex> l(m);
        fails.push_back(e);
        fnccl::W().stop = true;
      }
    });
  for (auto& x : t) x.join();
  if (!fails.empty()) {
    fnccl::quiesce();
    throw fails[0];
  }
}
inline void check(bool ok, const char* sig, const std::string& msg) {
  if (!ok) throw vh::Fail{sig, msg};
}
inline PG join(const std::string& dir, int rank, int n) {
  auto pg = std::make_shared<dist::DistributedProcessGroup>();
  check(pg->initProcessGroup(dist::NCCL, "file://" + dir, rank, n), "dist.init", "initProcessGroup failed");
  auto p = pg->getProcessGroup();
  // CPU tensors go through the same backend
  p->setBackend(tinytorch::DeviceType::CPU, dist::NCCL, p->getBackend(dist::NCCL));
  return pg;
}
inline void faults(vh::Case& c) {
  auto& w = fnccl::W();
  c.obs("dist.collectives", w.ops.load());
  c.obs("dist.waits", w.waits.load());
  c.obs("dist.waitsThatBlocked", w.lateWaits.load());
  c.obs("dist.inProgress", w.inProgressSeen.load());
  std::lock_guard<std::mutex> l(w.m);
  if (!w.faults.empty()) throw vh::Fail{"dist.fault", w.faults[0]};
}
inline fnccl::Cfg genCfg(vh::Rng& r) {
  fnccl::Cfg k;
  k.maxDelayUs = r.pick<unsigned>({0, 50, 300, 1500});
  k.inProgress = r.pick<int>({0, 20, 80});
  k.initPolls = (int)r.range(0, 3);
  return k;
}
}  // namespace hd
