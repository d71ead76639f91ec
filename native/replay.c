/* Native replay of a solver model against the real compiled code.
 * usage: replay ENTRY FILE
 * FILE lines:  i <tag> <hex>              next input
 *              f <tag> <hex res> <hex args...>   value of an uninterpreted signal
 * prints: reach N / out HEX / fail N / assume-failed; a panic aborts the process. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <math.h>
#include "replay.h"
static struct { uint32_t tag; uint64_t v; } in[1 << 16];
static int nin, pin;
static struct { uint32_t tag; int n; double r, a[3]; } uf[1 << 14];
static int nuf;
static int failed;
static uint64_t next(uint32_t tag) {
  if (pin >= nin) { printf("input-exhausted\n"); fflush(stdout); return 0; }
  if (in[pin].tag != tag) { printf("input-order %u %u\n", in[pin].tag, tag); fflush(stdout); }
  return in[pin++].v;
}
uint64_t sv_u64(uint32_t t) { return next(t); }
uint32_t sv_u32(uint32_t t) { return next(t); }
uint16_t sv_u16(uint32_t t) { return next(t); }
uint8_t sv_u8(uint32_t t) { return next(t); }
double sv_f64(uint32_t t) { uint64_t v = next(t); double d; memcpy(&d, &v, 8); return d; }
void sv_bytes(uint8_t *p, size_t n, uint32_t t) { for (size_t i = 0; i < n; i++) p[i] = next(t); }
double sv_uf(uint32_t tag, uint32_t n, double x, double y, double z) {
  double a[3] = {x, y, z}; int best = -1; double bd = INFINITY;
  for (int i = 0; i < nuf; i++) if (uf[i].tag == tag) {
    double d = 0; for (int k = 0; k < (int)n; k++) { double e = uf[i].a[k] == a[k] ? 0 : fabs(uf[i].a[k] - a[k]); if (!(e <= 1e300)) e = 1e300; d += e; }
    if (d < bd) { bd = d; best = i; }
  }
  if (best < 0) { printf("uf-unknown %u\n", tag); fflush(stdout); return 0; }
  if (bd != 0) { printf("uf-approx %u %g\n", tag, bd); fflush(stdout); }
  return uf[best].r;
}
void sv_assume(bool c) { if (!c) { printf("assume-failed\n"); fflush(stdout); exit(failed ? 1 : 4); } }
void sv_check(bool c, uint32_t id) { if (!c) { printf("fail %u\n", id); fflush(stdout); failed = 1; exit(1); } }
void sv_reach(uint32_t id) { printf("reach %u\n", id); fflush(stdout); }
void sv_out(uint64_t v) { printf("out %llx\n", (unsigned long long)v); fflush(stdout); }
void sv_outf(double d) { uint64_t v; memcpy(&v, &d, 8); printf("outf %llx %.17g\n", (unsigned long long)v, d); fflush(stdout); }
void sv_panic_ok(bool b) { printf("panic-ok %d\n", b); fflush(stdout); }
void sv_stub_fmt(bool b) {}
uint64_t sv_conc(uint64_t v) { return v; }
bool sv_decide(bool c) { return c; }
int32_t sv_native(void) { return 1; }
int main(int c, char **v) {
  if (c < 3) return 64;
  FILE *f = fopen(v[2], "r"); if (!f) return 64;
  char l[1024];
  while (fgets(l, sizeof l, f)) {
    unsigned t; unsigned long long r, a[3] = {0};
    if (l[0] == 'i' && sscanf(l, "i %u %llx", &t, &r) == 2 && nin < (1 << 16)) { in[nin].tag = t; in[nin++].v = r; }
    if (l[0] == 'f' && nuf < (1 << 14)) { int k = sscanf(l, "f %u %llx %llx %llx %llx", &t, &r, a, a + 1, a + 2); if (k >= 2) { uf[nuf].tag = t; uf[nuf].n = k - 2; memcpy(&uf[nuf].r, &r, 8); memcpy(uf[nuf].a, a, 24); nuf++; } }
  }
  fclose(f);
  for (struct ent *e = ents; e->name; e++) if (!strcmp(e->name, v[1])) { e->f(); printf("end\n"); fflush(stdout); return 0; }
  return 64;
}
