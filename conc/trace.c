/* Comparison trace of one call: every floating-point comparison the compiled library executes,
 * with the signed distance between its operands. */
#include <math.h>
#include <stdint.h>
#define CAP 600
struct ev { uint32_t site, occ; double d; };
static __thread uint32_t n;
static __thread struct ev buf[CAP];
static __thread uint8_t seen[1 << 14];
void vt_reset(void) {
    for (uint32_t i = 0; i < n; i++) seen[buf[i].site & 0x3fff] = 0;
    n = 0;
}
uint32_t vt_get(struct ev **p) { *p = buf; return n; }
/* repeated executions of one comparison (loops, several callers): the first three count */
static inline void put(uint32_t site, double d) {
    if (n >= CAP || d != d) return;
    uint8_t k = seen[site & 0x3fff];
    if (k >= 3) return;
    seen[site & 0x3fff] = k + 1;
    buf[n].site = site; buf[n].occ = k; buf[n].d = d; n++;
}
void vt_fcmp(uint32_t site, double a, double b) { put(site, a - b); }
void vt_frac(uint32_t site, double a) { put(site, a - floor(a) - 0.5); }
