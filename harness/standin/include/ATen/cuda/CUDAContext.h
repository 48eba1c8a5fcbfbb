// Stand-in used when the extension is compiled for host memory: no device, one (null) stream.
#pragma once
#include <cuda_runtime.h>
#include <ATen/ATen.h>
namespace at { namespace cuda {
struct HostStream {
  operator cudaStream_t() const { return nullptr; }
  cudaStream_t stream() const { return nullptr; }
  void synchronize() const {}
};
inline HostStream getCurrentCUDAStream(int8_t = -1) { return {}; }
inline HostStream getDefaultCUDAStream(int8_t = -1) { return {}; }
}}
#define CUDA(x) CPU(x)   // at::CUDA(at::kByte): workspaces live in host memory
