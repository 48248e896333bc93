// Stand-in of the CUDA runtime: kernels run as fibers on the CPU under the
// monitors of vfcuda.cpp.
#ifndef VF_CUDA_RUNTIME_H_
#define VF_CUDA_RUNTIME_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <functional>

#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __launch_bounds__(...)
#define __constant__

struct int2 { int x, y; } __attribute__((aligned(8)));
struct int3 { int x, y, z; };
struct int4 { int x, y, z, w; } __attribute__((aligned(16)));
struct uint2 { unsigned x, y; } __attribute__((aligned(8)));
struct uint3 { unsigned x, y, z; };
struct float2 { float x, y; } __attribute__((aligned(8)));
struct float3 { float x, y, z; };
struct float4 { float x, y, z, w; } __attribute__((aligned(16)));
struct dim3 {
  unsigned x, y, z;
  dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {}
};
static inline int2 make_int2(int a, int b) { int2 r; r.x = a; r.y = b; return r; }
static inline int3 make_int3(int a, int b, int c) { return {a, b, c}; }
static inline int4 make_int4(int a, int b, int c, int d) { int4 r; r.x = a; r.y = b; r.z = c; r.w = d; return r; }
static inline float2 make_float2(float a, float b) { float2 r; r.x = a; r.y = b; return r; }
static inline float3 make_float3(float a, float b, float c) { return {a, b, c}; }

typedef struct VfStream* cudaStream_t;
typedef struct VfEvent* cudaEvent_t;
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorInvalidConfiguration = 9 };
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1,
  cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2 };
struct cudaDeviceProp {
  char name[256]; int warpSize, multiProcessorCount, maxThreadsPerBlock,
    maxThreadsPerMultiProcessor, regsPerBlock, regsPerMultiprocessor, major, minor;
  size_t sharedMemPerBlock, sharedMemPerMultiprocessor, totalGlobalMem;
};

namespace vf {
dim3 thread_idx(); dim3 block_idx(); dim3 block_dim(); dim3 grid_dim();
void sync_threads(const char* file, int line);
void* shared_static(const void* key, size_t size);
void* shared_dyn();
int atomic_add(int* p, int v); unsigned atomic_add(unsigned* p, unsigned v);
unsigned long long atomic_add(unsigned long long* p, unsigned long long v);
float atomic_add(float* p, float v); double atomic_add(double* p, double v);
int atomic_cas(int* p, int c, int v); unsigned atomic_cas(unsigned* p, unsigned c, unsigned v);
unsigned long long atomic_cas(unsigned long long* p, unsigned long long c, unsigned long long v);
int atomic_exch(int* p, int v); unsigned atomic_exch(unsigned* p, unsigned v);
unsigned long long atomic_exch(unsigned long long* p, unsigned long long v); float atomic_exch(float* p, float v);
int atomic_max(int* p, int v); int atomic_min(int* p, int v);
unsigned atomic_max(unsigned* p, unsigned v); unsigned atomic_min(unsigned* p, unsigned v);
int atomic_or(int* p, int v); int atomic_and(int* p, int v);
struct Cfg { dim3 g, b; size_t s; cudaStream_t st;
  Cfg(dim3 g_, dim3 b_, size_t s_ = 0, cudaStream_t st_ = nullptr) : g(g_), b(b_), s(s_), st(st_) {} };
void launch_closure(const char* name, const Cfg& cfg, void (*run)(void*), void (*drop)(void*), void* closure, size_t size);
template <class F> struct Closure {
  __attribute__((no_sanitize("thread"))) static void run(void* p) { (*(F*)p)(); }
  static void drop(void* p) { delete (F*)p; }
};
template <class F> void launch(const char* name, const Cfg& cfg, F f) {
  launch_closure(name, cfg, Closure<F>::run, Closure<F>::drop, new F(f), sizeof(F));
}
unsigned now();
}
#define threadIdx (::vf::thread_idx())
#define blockIdx (::vf::block_idx())
#define blockDim (::vf::block_dim())
#define gridDim (::vf::grid_dim())
#define __syncthreads() ::vf::sync_threads(__FILE__, __LINE__)
static inline void __threadfence() {}
static inline void __threadfence_block() {}
template <class T, class V> static inline T atomicAdd(T* p, V v) { return ::vf::atomic_add(p, (T)v); }
template <class T, class C, class V> static inline T atomicCAS(T* p, C c, V v) { return ::vf::atomic_cas(p, (T)c, (T)v); }
template <class T, class V> static inline T atomicExch(T* p, V v) { return ::vf::atomic_exch(p, (T)v); }
template <class T, class V> static inline T atomicMax(T* p, V v) { return ::vf::atomic_max(p, (T)v); }
template <class T, class V> static inline T atomicMin(T* p, V v) { return ::vf::atomic_min(p, (T)v); }
template <class T, class V> static inline T atomicSub(T* p, V v) { return ::vf::atomic_add(p, (T)(-(T)v)); }
template <class T, class V> static inline T atomicOr(T* p, V v) { return ::vf::atomic_or(p, (T)v); }
template <class T, class V> static inline T atomicAnd(T* p, V v) { return ::vf::atomic_and(p, (T)v); }
static inline int __float_as_int(float f) { int i; memcpy(&i, &f, 4); return i; }
static inline float __int_as_float(int i) { float f; memcpy(&f, &i, 4); return f; }
template <class T> static inline T __ldg(const T* p) { return *p; }
#define __expf ::expf
#define __logf ::logf
#define __powf ::powf
#define __sinf ::sinf
#define __cosf ::cosf
static inline float __fdividef(float a, float b) { return a / b; }
static inline float __saturatef(float x) { return x < 0.f ? 0.f : x > 1.f ? 1.f : x; }
static inline float __fmul_rn(float a, float b) { return a * b; }
static inline float __fadd_rn(float a, float b) { return a + b; }
static inline float __fsqrt_rn(float a) { return ::sqrtf(a); }
static inline float rsqrtf(float x) { return 1.0f / ::sqrtf(x); }

#define VF_MM(T) static inline T min(T a, T b) { return a < b ? a : b; } \
                 static inline T max(T a, T b) { return a > b ? a : b; }
VF_MM(int) VF_MM(unsigned) VF_MM(long) VF_MM(unsigned long) VF_MM(long long) VF_MM(unsigned long long) VF_MM(float) VF_MM(double)
#define VF_MX(A, B, R) static inline R min(A a, B b) { return min((R)a, (R)b); } \
  static inline R min(B a, A b) { return min((R)a, (R)b); } \
  static inline R max(A a, B b) { return max((R)a, (R)b); } \
  static inline R max(B a, A b) { return max((R)a, (R)b); }
VF_MX(int, unsigned, unsigned) VF_MX(int, long long, long long) VF_MX(int, long, long)
VF_MX(unsigned, long long, long long) VF_MX(unsigned, long, long) VF_MX(float, double, double)

extern "C++" {
cudaError_t cudaMemsetAsync(void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaMemcpyAsync(void*, const void*, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyToSymbolAsync(const void*, const void*, size_t, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaEventCreate(cudaEvent_t*);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t*, unsigned);
cudaError_t cudaEventDestroy(cudaEvent_t);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaEventQuery(cudaEvent_t);
cudaError_t cudaEventElapsedTime(float*, cudaEvent_t, cudaEvent_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetLastError();
const char* cudaGetErrorString(cudaError_t);
cudaError_t cudaGetDevice(int*);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaOccupancyMaxActiveBlocksPerMultiprocessor(int*, const void*, int, size_t);
}
#endif
