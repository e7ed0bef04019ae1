// The distributed sources name CUDA streams, events and guards that only exist in CUDA builds. Here a stream is an
// in-process executor thread (h_nccl.h) and the compute stream is the calling thread itself: making the compute stream
// wait for an event makes the caller wait.
#pragma once
#include <cstdint>
#include <functional>
#include <iostream>
#include <memory>
#include <utility>

struct FakeStream;
struct FakeEvent;
typedef FakeStream* cudaStream_t;
typedef FakeEvent* cudaEvent_t;

namespace fnccl {
cudaStream_t newStream();
void freeStream(cudaStream_t s);
cudaStream_t hostStream();
void streamSync(cudaStream_t s);
cudaEvent_t newEvent();
void freeEvent(cudaEvent_t e);
void eventRecord(cudaEvent_t e, cudaStream_t s);
void eventBlock(cudaStream_t s, cudaEvent_t e);
bool eventQuery(cudaEvent_t e);
}  // namespace fnccl

constexpr unsigned cudaEventDisableTiming = 2;

namespace tinytorch::cuda {
struct CudaDeviceGuard {
  template <typename... A>
  explicit CudaDeviceGuard(A&&...) {}
};

struct CUDAStream {
  CUDAStream() = default;
  explicit CUDAStream(int device) : s_(fnccl::newStream()), dev_(device) {}
  struct Host {};
  CUDAStream(Host, int device) : s_(fnccl::hostStream()), dev_(device) {}
  CUDAStream(const CUDAStream&) = delete;
  CUDAStream& operator=(const CUDAStream&) = delete;
  CUDAStream(CUDAStream&& o) noexcept { swap(o); }
  CUDAStream& operator=(CUDAStream&& o) noexcept {
    if (this != &o) {
      CUDAStream t;
      t.swap(*this);
      swap(o);
    }
    return *this;
  }
  ~CUDAStream() {
    if (s_) fnccl::freeStream(s_);
  }
  void synchronize() const {
    if (s_) fnccl::streamSync(s_);
  }
  void waitStream(const CUDAStream& other) const {
    if (other.s_) fnccl::streamSync(other.s_);
  }
  cudaStream_t stream() const { return s_; }
  int deviceIdx() const { return dev_; }
  bool valid() const { return s_ != nullptr; }

 private:
  void swap(CUDAStream& o) noexcept {
    std::swap(s_, o.s_);
    std::swap(dev_, o.dev_);
  }
  cudaStream_t s_ = nullptr;
  int dev_ = -1;
};

struct CUDAEvent {
  CUDAEvent() = default;
  explicit CUDAEvent(int device, unsigned = cudaEventDisableTiming) : e_(fnccl::newEvent()), dev_(device) {}
  CUDAEvent(const CUDAEvent&) = delete;
  CUDAEvent& operator=(const CUDAEvent&) = delete;
  CUDAEvent(CUDAEvent&& o) noexcept { swap(o); }
  CUDAEvent& operator=(CUDAEvent&& o) noexcept {
    if (this != &o) {
      CUDAEvent t;
      t.swap(*this);
      swap(o);
    }
    return *this;
  }
  ~CUDAEvent() {
    if (e_) fnccl::freeEvent(e_);
  }
  void record(const CUDAStream& s) const {
    if (e_ && s.stream()) fnccl::eventRecord(e_, s.stream());
  }
  void block(const CUDAStream& s) const {
    if (e_ && s.stream()) fnccl::eventBlock(s.stream(), e_);
  }
  bool query() const { return e_ ? fnccl::eventQuery(e_) : false; }
  cudaEvent_t event() const { return e_; }
  int deviceIdx() const { return dev_; }
  bool valid() const { return e_ != nullptr; }

 private:
  void swap(CUDAEvent& o) noexcept {
    std::swap(e_, o.e_);
    std::swap(dev_, o.dev_);
  }
  cudaEvent_t e_ = nullptr;
  int dev_ = -1;
};

inline CUDAStream createCUDAStream(int device) { return CUDAStream(device); }
inline CUDAEvent createCUDAEvent(int device, unsigned flags = cudaEventDisableTiming) { return CUDAEvent(device, flags); }
inline CUDAStream& getCurrentCUDAStream(int device) {
  static thread_local CUDAStream host(CUDAStream::Host{}, device);
  return host;
}
}  // namespace tinytorch::cuda
