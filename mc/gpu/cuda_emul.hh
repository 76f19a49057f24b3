// What a CUDA kernel sees of the device, for compiling it as ordinary C++ (see emul.cc).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <assert.h>
#include <algorithm>
#define __device__
#define __host__
#define __global__
#define __constant__ static
#define __shared__ static __attribute__((section("kshared")))
#define __align__(n)
#define __forceinline__ inline
#define __noinline__
#define __restrict__ __restrict
#define __launch_bounds__(...)
using std::min; using std::max;

struct emu_dim3 { unsigned int x, y, z; };
typedef emu_dim3 dim3;
typedef emu_dim3 uint3;
struct emu_ctx { emu_dim3 threadIdx, blockIdx, blockDim, gridDim; };
extern "C" {
extern emu_ctx *emu_now;
extern char emu_shared[];                                     // what the launch asked for
void emu_barrier();
void emu_warp(unsigned mask, int kind);                       // wait for the lanes of mask
uint64_t *emu_slots();                                        // values of the lanes at this warp operation
void emu_atomic(void *p, int size);                           // a scheduling point
int emu_lane();
}
#define threadIdx (emu_now->threadIdx)
#define blockIdx (emu_now->blockIdx)
#define blockDim (emu_now->blockDim)
#define gridDim (emu_now->gridDim)
#define warpSize 32
static inline void __syncthreads() { emu_barrier(); }
__attribute__((no_sanitize_thread)) static int __syncthreads_count(int p) {
    static int n;
    if (threadIdx.x == 0) n = 0;
    emu_barrier(); n += p != 0; emu_barrier(); int r = n; emu_barrier(); return r;
}
static inline int __syncthreads_or(int p) { return __syncthreads_count(p) > 0; }
static inline int __syncthreads_and(int p) { return __syncthreads_count(p) == (int)blockDim.x; }
static inline void __syncwarp(unsigned mask = 0xffffffffu) { emu_warp(mask, 1); emu_warp(mask, 2); }
static inline void __threadfence() {}
static inline void __threadfence_block() {}

template <class T> struct emu_bits { static uint64_t put(T v) { uint64_t u = 0; memcpy(&u, &v, sizeof v); return u; } static T get(uint64_t u) { T v; memcpy(&v, &u, sizeof v); return v; } };
template <class T> __attribute__((no_sanitize_thread)) static T emu_shfl(unsigned mask, T v, int kind, int arg, int width) {
    int lane = emu_lane(), base = lane & ~(width - 1), src = lane;
    uint64_t *s = emu_slots();
    s[lane] = emu_bits<T>::put(v);
    emu_warp(mask, 16 + kind);
    if (kind == 0) { if ((lane - base) + arg < width) src = lane + arg; }
    if (kind == 1) { if ((lane - base) - arg >= 0) src = lane - arg; }
    if (kind == 2) { if (((lane - base) ^ arg) < width) src = base + ((lane - base) ^ arg); }
    if (kind == 3) src = base + (arg & (width - 1));
    T r = emu_bits<T>::get(s[src]);
    emu_warp(mask, 32 + kind);                                // everybody has read
    return r;
}
template <class T> static inline T __shfl_down_sync(unsigned m, T v, unsigned d, int w = 32) { return emu_shfl(m, v, 0, (int)d, w); }
template <class T> static inline T __shfl_up_sync(unsigned m, T v, unsigned d, int w = 32) { return emu_shfl(m, v, 1, (int)d, w); }
template <class T> static inline T __shfl_xor_sync(unsigned m, T v, int d, int w = 32) { return emu_shfl(m, v, 2, d, w); }
template <class T> static inline T __shfl_sync(unsigned m, T v, int d, int w = 32) { return emu_shfl(m, v, 3, d, w); }
__attribute__((no_sanitize_thread)) static inline unsigned __ballot_sync(unsigned mask, int p) {
    uint64_t *s = emu_slots(); s[emu_lane()] = p != 0;
    emu_warp(mask, 48);
    unsigned r = 0; for (int i = 0; i < 32; i++) if ((mask >> i & 1) && s[i]) r |= 1u << i;
    emu_warp(mask, 49);
    return r;
}
static inline int __any_sync(unsigned m, int p) { return __ballot_sync(m, p) != 0; }
static inline int __all_sync(unsigned m, int p) { return __ballot_sync(m, p) == m; }
template <class T> __attribute__((no_sanitize_thread)) static T atomicAdd(T *p, T v) { emu_atomic(p, sizeof(T)); T o = *p; *p = o + v; return o; }
template <class T> __attribute__((no_sanitize_thread)) static T atomicExch(T *p, T v) { emu_atomic(p, sizeof(T)); T o = *p; *p = v; return o; }
template <class T> __attribute__((no_sanitize_thread)) static T atomicMax(T *p, T v) { emu_atomic(p, sizeof(T)); T o = *p; if (v > o) *p = v; return o; }
template <class T> __attribute__((no_sanitize_thread)) static T atomicCAS(T *p, T c, T v) { emu_atomic(p, sizeof(T)); T o = *p; if (o == c) *p = v; return o; }
template <class T> static inline T atomicSub(T *p, T v) { return atomicAdd(p, (T)-v); }
template <class T> static inline T __ldg(const T *p) { return *p; }
#define __expf expf
#define __logf logf
#define __sinf sinf
#define __cosf cosf
#define __powf powf
static inline float rsqrtf(float x) { return 1.0f / sqrtf(x); }
static inline float __fdividef(float a, float b) { return a / b; }
static inline float __fmaf_rn(float a, float b, float c) { return fmaf(a, b, c); }
static inline int __float2int_rn(float x) { return (int)rintf(x); }
static inline int __mul24(int a, int b) { return a * b; }
static inline float __fmul_rn(float a, float b) { return a * b; }
static inline float __fadd_rn(float a, float b) { return a + b; }
static inline float __frcp_rn(float a) { return 1.0f / a; }
static inline float __fsqrt_rn(float a) { return sqrtf(a); }
