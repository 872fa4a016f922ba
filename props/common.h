#ifndef VF_COMMON_H
#define VF_COMMON_H
#include "vf.h"
static inline int vf_sign(int x) { return (x > 0) - (x < 0); }
/* --- contract of libc memcmp, relative to the ghost pair (vf_ka, vf_kb, vf_kd) -------------
 * vf_kd is the ghost "first differing index" of the two registered blocks.  */
static const unsigned char *vf_ka, *vf_kb;
static size_t vf_kd, vf_kmin; /* first difference, or vf_kmin when the common prefix is equal */
#ifndef VF_NATIVE
extern int vf_nondet_int(void);
int vf_memcmp(const void *p, const void *q, size_t n) {
  int r = vf_nondet_int();
  if (p == q || n == 0)
    return 0;
  if (p == vf_ka && q == vf_kb && n <= vf_kmin) {
    __CPROVER_assume(vf_sign(r) == (vf_kd < n ? (vf_ka[vf_kd] < vf_kb[vf_kd] ? -1 : 1) : 0));
  } else if (p == vf_kb && q == vf_ka && n <= vf_kmin) {
    __CPROVER_assume(vf_sign(r) == (vf_kd < n ? (vf_ka[vf_kd] < vf_kb[vf_kd] ? 1 : -1) : 0));
  }
  return r;
}
#else
int vf_memcmp(const void *p, const void *q, size_t n) { /* same contract, executable */
  const unsigned char *a = p, *b = q;
  for (size_t i = 0; i < n; i++)
    if (a[i] != b[i])
      return a[i] < b[i] ? -1 : 1;
  return 0;
}
#endif
#endif
