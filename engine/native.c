/* driver for native runs: of the real harness (g++) and of the translated C (gcc -DTRANSLATED) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
/* modes: replay FILE ENTRY : inputs from file (one number per line), then zeros
          random SEED ENTRY : pseudo random inputs, print a digest of what was observed */
static uint64_t inputs[65536]; static int nin, pos; static int randmode; static uint64_t rs;
static uint64_t digest = 1469598103934665603ull; static long nchecks, nreach; static int failed;
static void mix(uint64_t x) { digest = (digest ^ x) * 1099511628211ull; digest ^= digest >> 29; }
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static uint64_t in(int b) {
  uint64_t v = 0;
  if(randmode) {
    uint64_t r = rnd() >> 33; uint64_t x = rnd();
    switch(r % 8) { case 0: case 1: case 2: v = (x >> 40) % 5; break; case 3: v = (x >> 40) % 12; break;
      case 4: v = '0' + (x >> 40) % 10; break;
      case 5: { static const uint64_t e[] = {~0ull, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x7fffffff, 0x80000000u, 0x7fffffffffffffffull, 0x8000000000000000ull, '-', ' '}; v = e[(x >> 40) % 12]; break; }
      default: v = x; }
  } else if(pos < nin) v = inputs[pos];
  pos++;
  if(b < 8) v &= (1ull << (8 * b)) - 1;
  mix(v + 77);
  return v;
}
static void finish(int code) { printf("END code=%d digest=%016llx inputs=%d checks=%ld reach=%ld failed=%d\n", code, (unsigned long long)digest, pos, nchecks, nreach, failed); fflush(stdout); _exit(code); }
static void chk(int c, const char* m) {
  nchecks++; mix(c ? 3 : 5);
  if(!c) { failed++; if(failed < 4) printf("ASSERTION FAILED: %s\n", m); fflush(stdout); if(!randmode) finish(1); }
}
static void asm_(int c) { mix(c ? 11 : 13); if(!c) { if(!randmode) printf("ASSUMPTION FAILED\n"); finish(randmode ? 0 : 4); } }
#ifdef TRANSLATED
void rtn_assert(int c, const char* m) {
  if(!strncmp(m, "REACH", 5)) { nreach++; return; }
  if(!strncmp(m, "PROP", 4)) { chk(c, m + 5); return; }
  if(!c) { printf("TRANSLATED TRAP: %s\n", m); finish(strncmp(m, "UNSUPPORTED", 11) && strncmp(m, "UNMODELLED", 10) ? 3 : 5); }
}
void rtn_assume(int c) { asm_(c); }
uint64_t rtn_in(int b) { return in(b); }
#else
uint8_t verif_u8(void) { return in(1); } uint16_t verif_u16(void) { return in(2); }
uint32_t verif_u32(void) { return in(4); } uint64_t verif_u64(void) { return in(8); }
_Bool verif_bool(void) { return in(1) & 1; }
float verif_f32(void) { union { uint32_t i; float f; } v; v.i = in(4); return v.f; }
double verif_f64(void) { union { uint64_t i; double f; } v; v.i = in(8); return v.f; }
void verif_assume(_Bool c) { asm_(c); }
void verif_assert(_Bool c, const char* m) { chk(c, m); }
void verif_reach(const char* m) { (void)m; nreach++; }
#endif
extern void dispatch(const char*);
int main(int argc, char** argv) {
  if(argc < 4) return 9;
  if(!strcmp(argv[1], "replay")) {
    FILE* f = fopen(argv[2], "r"); unsigned long long x; if(!f) return 9;
    while(nin < 65536 && fscanf(f, "%llu", &x) == 1) inputs[nin++] = x;
    fclose(f);
  } else { randmode = 1; rs = strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ull + 0x1234567; rnd(); rnd(); }
  dispatch(argv[3]);
  finish(failed ? 1 : 0);
}
