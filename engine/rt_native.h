/* native execution of translated code (translator validation) */
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define __CPROVER_assert(c, m) rtn_assert((c) != 0, m)
#define __CPROVER_assume(c) rtn_assume((c) != 0)
void rtn_assert(int c, const char* m); void rtn_assume(int c); u64 rtn_in(int bytes);
#define rt_verif_u8() ((u8)rtn_in(1))
#define rt_verif_u16() ((u16)rtn_in(2))
#define rt_verif_u32() ((u32)rtn_in(4))
#define rt_verif_u64() ((u64)rtn_in(8))
#define rt_verif_bool() ((u8)(rtn_in(1)&1))
static float rt_verif_f32(void) { union { u32 i; float f; } v; v.i = rtn_in(4); return v.f; }
static double rt_verif_f64(void) { union { u64 i; double f; } v; v.i = rtn_in(8); return v.f; }
#define rt_verif_assume(c) rtn_assume(c)
static u8* rt_new(u64 n) { return malloc(n); }
static u8* rt_malloc(u64 n) { return malloc(n); }
static void rt_delete(u8* p) { free(p); }
static void rt_free(u8* p) { free(p); }
double floor(double), ceil(double), trunc(double), round(double), fabs(double), sqrt(double), fmin(double,double), fmax(double,double), copysign(double,double), pow(double,double), fmod(double,double), rint(double), nearbyint(double);
float floorf(float), ceilf(float), truncf(float), roundf(float), fabsf(float), sqrtf(float), fminf(float,float), fmaxf(float,float), copysignf(float,float), rintf(float), nearbyintf(float);
