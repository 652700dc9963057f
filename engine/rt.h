/* runtime model used by the translated code; everything here is part of the trusted base */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64;
typedef unsigned __int128 u128; typedef __int128 s128;
#ifndef __CPROVER__
#include "rt_native.h"
#define PTRCMP(a, op, b) ((u64)(a) op (u64)(b))
#else
/* ordering of pointers: by offset inside one object (the only case the code may rely on) */
#define PTRCMP(a, op, b) (__CPROVER_same_object(a, b) ? ((s64)__CPROVER_POINTER_OFFSET(a) op (s64)__CPROVER_POINTER_OFFSET(b)) : ((u64)(a) op (u64)(b)))
#define verif_unused
u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void); u64 nondet_u64(void); _Bool nondet_bool(void);
float nondet_float(void); double nondet_double(void);
u64 verif_log; float verif_logf; double verif_logd;
#endif
#ifdef __CPROVER__
static u8 rt_verif_u8(void) { u8 v = nondet_u8(); verif_log = v; return v; }
static u16 rt_verif_u16(void) { u16 v = nondet_u16(); verif_log = v; return v; }
static u32 rt_verif_u32(void) { u32 v = nondet_u32(); verif_log = v; return v; }
static u64 rt_verif_u64(void) { u64 v = nondet_u64(); verif_log = v; return v; }
static u8 rt_verif_bool(void) { _Bool v = nondet_bool(); verif_log = v; return v; }
static float rt_verif_f32(void) { union { u32 i; float f; } v; v.i = nondet_u32(); verif_log = v.i; return v.f; }
static double rt_verif_f64(void) { union { u64 i; double f; } v; v.i = nondet_u64(); verif_log = v.i; return v.f; }
static u8* rt_new(u64 n) { u8* p = __CPROVER_allocate(n, 0); return p; }
void* malloc(u64); void free(void*);
static u8* rt_malloc(u64 n) { return __CPROVER_allocate(n, 0); }
static void rt_delete(u8* p) { }
static void rt_free(u8* p) { }
static void rt_verif_assume(u8 c) { __CPROVER_assume(c); }
#endif
static u8 rt_guard_acquire(u8* g) { if(*g) return 0; *g = 1; return 1; }
static void* rt_memcpy(u8* d, u8* s, u64 n) {
#ifdef __CPROVER__
  u64 i; for(i = 0; i < n; ++i) d[i] = s[i]; return d;
#else
  return memmove(d, s, n);
#endif
}
static void* rt_memmove(u8* d, u8* s, u64 n) {
#ifdef __CPROVER__
  u64 i;
  if(n == 0) return d;
  if(__CPROVER_POINTER_OBJECT(d) != __CPROVER_POINTER_OBJECT(s) || __CPROVER_POINTER_OFFSET(d) <= __CPROVER_POINTER_OFFSET(s))
    { for(i = 0; i < n; ++i) d[i] = s[i]; }
  else { for(i = n; i > 0; --i) d[i-1] = s[i-1]; }
  return d;
#else
  return memmove(d, s, n);
#endif
}
static void* rt_memset(u8* d, u32 c, u64 n) { u64 i; for(i = 0; i < n; ++i) d[i] = (u8)c; return d; }
static u32 rt_memcmp(u8* a, u8* b, u64 n) { u64 i; for(i = 0; i < n; ++i) if(a[i] != b[i]) return a[i] < b[i] ? (u32)-1 : 1; return 0; }
static u32 rt_bcmp(u8* a, u8* b, u64 n) { return rt_memcmp(a, b, n); }
static u8* rt_memchr(u8* a, u32 c, u64 n) { u64 i; for(i = 0; i < n; ++i) if(a[i] == (u8)c) return a + i; return 0; }
static u64 rt_strlen(u8* a) { u64 i = 0; while(a[i]) ++i; return i; }
static u64 rt_strnlen(u8* a, u64 m) { u64 i = 0; while(i < m && a[i]) ++i; return i; }
static u32 rt_strcmp(u8* a, u8* b) { u64 i = 0; while(a[i] && a[i] == b[i]) ++i; return a[i] == b[i] ? 0 : (a[i] < b[i] ? (u32)-1 : 1); }
static u32 rt_strncmp(u8* a, u8* b, u64 n) { u64 i = 0; while(i < n && a[i] && a[i] == b[i]) ++i; if(i == n) return 0; return a[i] == b[i] ? 0 : (a[i] < b[i] ? (u32)-1 : 1); }
static u8* rt_strcpy(u8* d, u8* s) { u64 i = 0; for(;; ++i) { d[i] = s[i]; if(!s[i]) break; } return d; }
static u8* rt_strncpy(u8* d, u8* s, u64 n) { u64 i = 0; for(; i < n && s[i]; ++i) d[i] = s[i]; for(; i < n; ++i) d[i] = 0; return d; }
static u8* rt_strcat(u8* d, u8* s) { rt_strcpy(d + rt_strlen(d), s); return d; }
static u8* rt_strchr(u8* a, u32 c) { u64 i = 0; for(;; ++i) { if(a[i] == (u8)c) return a + i; if(!a[i]) return 0; } }
static u32 rt_toupper(u32 c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static u32 rt_tolower(u32 c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static u32 rt_isspace(u32 c) { return c == ' ' || (c >= 9 && c <= 13); }
static u32 rt_isdigit(u32 c) { return c >= '0' && c <= '9'; }
static u32 rt_isupper(u32 c) { return c >= 'A' && c <= 'Z'; }
static u32 rt_islower(u32 c) { return c >= 'a' && c <= 'z'; }
static u32 rt_isalpha(u32 c) { return rt_isupper(c) || rt_islower(c); }
static u32 rt_isalnum(u32 c) { return rt_isalpha(c) || rt_isdigit(c); }
static u32 rt_isprint(u32 c) { return c >= 32 && c < 127; }
static u32 rt_isxdigit(u32 c) { return rt_isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
static u32 rt_abs(u32 a) { return (s32)a < 0 ? -a : a; }
static u64 rt_labs(u64 a) { return (s64)a < 0 ? -a : a; }
static u64 rt_ctpop(u64 x, int w) { u64 r = 0; int i; for(i = 0; i < w; ++i) r += (x >> i) & 1; return r; }
static u64 rt_ctlz(u64 x, int w) { u64 r = 0; int i; for(i = w - 1; i >= 0; --i) { if((x >> i) & 1) break; ++r; } return r; }
static u64 rt_cttz(u64 x, int w) { u64 r = 0; int i; for(i = 0; i < w; ++i) { if((x >> i) & 1) break; ++r; } return r; }
static u64 rt_fshl(u64 a, u64 b, u64 c, int w) { c %= w; u64 m = w == 64 ? ~0UL : (1UL << w) - 1; return c ? ((a << c) | (b >> (w - c))) & m : a; }
static u64 rt_fshr(u64 a, u64 b, u64 c, int w) { c %= w; u64 m = w == 64 ? ~0UL : (1UL << w) - 1; return c ? ((a << (w - c)) | (b >> c)) & m : b; }
#define SATU(w) static u##w rt_uadd_sat##w(u##w a, u##w b) { u##w r = a + b; return r < a ? (u##w)-1 : r; } \
 static u##w rt_usub_sat##w(u##w a, u##w b) { return a < b ? 0 : (u##w)(a - b); }
SATU(8) SATU(16) SATU(32) SATU(64)
