// The part of Berkeley SoftFloat's interface that softfloat.hpp uses, on top of the compiler's own half and single floats.
// (The library is not here.)  Every function rounds once, to nearest even.
#pragma once
#include <stdint.h>
typedef struct { uint16_t v; } float16_t;
typedef struct { uint32_t v; } float32_t;
typedef struct { uint64_t v; } float64_t;

static inline _Float16 shim_h(float16_t a) { _Float16 f; __builtin_memcpy(&f, &a.v, 2); return f; }
static inline float shim_s(float32_t a) { float f; __builtin_memcpy(&f, &a.v, 4); return f; }
static inline double shim_d(float64_t a) { double f; __builtin_memcpy(&f, &a.v, 8); return f; }
static inline float16_t shim_fh(_Float16 f) { float16_t a; __builtin_memcpy(&a.v, &f, 2); return a; }
static inline float32_t shim_fs(float f) { float32_t a; __builtin_memcpy(&a.v, &f, 4); return a; }
static inline float64_t shim_fd(double f) { float64_t a; __builtin_memcpy(&a.v, &f, 8); return a; }

static inline float16_t ui32_to_f16(uint32_t a) { return shim_fh((_Float16)(double)a); }
static inline float16_t i32_to_f16(int32_t a) { return shim_fh((_Float16)(double)a); }
static inline float32_t ui32_to_f32(uint32_t a) { return shim_fs((float)a); }
static inline float32_t i32_to_f32(int32_t a) { return shim_fs((float)a); }
static inline float16_t f32_to_f16(float32_t a) { return shim_fh((_Float16)shim_s(a)); }
static inline float16_t f64_to_f16(float64_t a) { return shim_fh((_Float16)shim_d(a)); }
static inline float32_t f16_to_f32(float16_t a) { return shim_fs((float)shim_h(a)); }
static inline float64_t f16_to_f64(float16_t a) { return shim_fd((double)shim_h(a)); }
static inline float64_t f32_to_f64(float32_t a) { return shim_fd((double)shim_s(a)); }
static inline float32_t f64_to_f32(float64_t a) { return shim_fs((float)shim_d(a)); }

// a result of two halves rounded to double first is not moved across a midpoint between two halves
static inline float16_t f16_add(float16_t a, float16_t b) { return shim_fh((_Float16)((double)shim_h(a) + (double)shim_h(b))); }
static inline float16_t f16_sub(float16_t a, float16_t b) { return shim_fh((_Float16)((double)shim_h(a) - (double)shim_h(b))); }
static inline float16_t f16_mul(float16_t a, float16_t b) { return shim_fh((_Float16)((double)shim_h(a) * (double)shim_h(b))); }
static inline float16_t f16_div(float16_t a, float16_t b) { return shim_fh((_Float16)((double)shim_h(a) / (double)shim_h(b))); }
static inline float16_t f16_rem(float16_t a, float16_t b) { return shim_fh((_Float16)__builtin_remainder((double)shim_h(a), (double)shim_h(b))); }
static inline float16_t f16_sqrt(float16_t a) { return shim_fh((_Float16)__builtin_sqrt((double)shim_h(a))); }
// product and sum of halves are exact in 113 bits
static inline float16_t f16_mulAdd(float16_t a, float16_t b, float16_t c) { return shim_fh((_Float16)((__float128)shim_h(a) * (__float128)shim_h(b) + (__float128)shim_h(c))); }
static inline int f16_eq(float16_t a, float16_t b) { return shim_h(a) == shim_h(b); }
static inline int f16_lt(float16_t a, float16_t b) { return shim_h(a) < shim_h(b); }
static inline int f16_le(float16_t a, float16_t b) { return shim_h(a) <= shim_h(b); }

static inline float32_t f32_add(float32_t a, float32_t b) { return shim_fs(shim_s(a) + shim_s(b)); }
static inline float32_t f32_sub(float32_t a, float32_t b) { return shim_fs(shim_s(a) - shim_s(b)); }
static inline float32_t f32_mul(float32_t a, float32_t b) { return shim_fs(shim_s(a) * shim_s(b)); }
static inline float32_t f32_div(float32_t a, float32_t b) { return shim_fs(shim_s(a) / shim_s(b)); }
static inline float32_t f32_rem(float32_t a, float32_t b) { return shim_fs(__builtin_remainderf(shim_s(a), shim_s(b))); }
static inline float32_t f32_sqrt(float32_t a) { return shim_fs(__builtin_sqrtf(shim_s(a))); }
static inline float32_t f32_mulAdd(float32_t a, float32_t b, float32_t c) { return shim_fs(__builtin_fmaf(shim_s(a), shim_s(b), shim_s(c))); }
static inline int f32_eq(float32_t a, float32_t b) { return shim_s(a) == shim_s(b); }
static inline int f32_lt(float32_t a, float32_t b) { return shim_s(a) < shim_s(b); }
static inline int f32_le(float32_t a, float32_t b) { return shim_s(a) <= shim_s(b); }
