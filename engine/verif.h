// Harness interface.  Under the solver the verif_* inputs are symbolic; in a native replay they
// read the counterexample.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t verif_u8(); uint16_t verif_u16(); uint32_t verif_u32(); uint64_t verif_u64(); bool verif_bool();
float verif_f32(); double verif_f64();
void verif_assume(bool);
void verif_assert(bool, const char*);
void verif_reach(const char*);
}
#define CHECK(c, m) verif_assert((c), m)
static inline unsigned verif_below(unsigned n) { unsigned v = verif_u8(); verif_assume(v < n); return v; }   // 0..n-1
static inline unsigned verif_upto(unsigned n) { unsigned v = verif_u8(); verif_assume(v <= n); return v; }   // 0..n
static inline int8_t verif_i8() { return (int8_t)verif_u8(); }
static inline int16_t verif_i16() { return (int16_t)verif_u16(); }
static inline int32_t verif_i32() { return (int32_t)verif_u32(); }
static inline int64_t verif_i64() { return (int64_t)verif_u64(); }
