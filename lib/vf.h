/* Contract vocabulary shared by every unit.
 *
 * A unit is a C function h_<name>() that states one contract as a Hoare triple
 * around a call of the REAL function from /repo/mdbx.c, which is compiled in
 * the same translation unit:
 *     VF_IN(...)       - universally quantified input
 *     VF_REQUIRES(c)   - precondition
 *     <call of the real function>
 *     VF_ENSURES(c,m)  - postcondition
 *     VF_REACH(m)      - vacuity guard: this point must be reachable
 * Under goto-cc the inputs are symbolic; under gcc (VF_NATIVE) the same text is
 * an executable replay of one concrete counterexample.
 */
#ifndef VF_H
#define VF_H
#define _GNU_SOURCE 1
#define _FILE_OFFSET_BITS 64
#define MDBX_CONFIG_H "vf_config.h"
#define MDBX_BUILD_SHARED_LIBRARY 0
#ifndef NDEBUG
#define NDEBUG 1
#endif

#ifndef VF_NATIVE
/* --- verifier side ---------------------------------------------------------*/
#define STATIC_ASSERT_MSG(e, m) /* dropped: gcc checks them in the build */
#include <assert.h>
#undef __assert_fail
#define __assert_fail(a, b, c, d) vf_assert_fail()
extern void vf_assert_fail(void);
#define __constructor__ __unused__
#define __destructor__ __unused__
#else
/* --- native replay side ----------------------------------------------------*/
#define __constructor__ __unused__
#define __destructor__ __unused__
#include <stddef.h>
#endif

#include VF_TARGET

#include <math.h>

#ifndef VF_NATIVE
#define VF_CAT_(a, b, c) a##b##_##c
#define VF_CAT(a, b, c) VF_CAT_(a, b, c)
#define VF_IN(T, n)                                                                                                    \
  extern T VF_CAT(vf_nd_L, __LINE__, n)(void);                                                                         \
  T n = VF_CAT(vf_nd_L, __LINE__, n)()
#define VF_REQUIRES(c) __CPROVER_assume(c)
#define VF_ENSURES(c, m) __CPROVER_assert((c), "VF: " m)
#define VF_REACH(m) __CPROVER_assert(0, "VFREACH: " m)
/* fresh heap object of symbolic size (prove) / fixed-size named object (find) */
#ifdef VF_FIND
#define VF_BUF(n, size, small)                                                                                         \
  struct vf_t_##n {                                                                                                    \
    unsigned char b[small];                                                                                            \
  };                                                                                                                   \
  VF_IN(struct vf_t_##n, n##_obj);                                                                                     \
  VF_REQUIRES((size_t)(size) <= (size_t)(small));                                                                      \
  unsigned char *n = malloc(small);                                                                                    \
  __CPROVER_assume(n != NULL);                                                                                         \
  *(struct vf_t_##n *)n = n##_obj
#else
#define VF_BUF(n, size, small)                                                                                         \
  unsigned char *n = malloc(size);                                                                                     \
  __CPROVER_assume(n != NULL)
#endif
#define VF_NEW(T, n)                                                                                                   \
  T *n = (T *)malloc(sizeof(T));                                                                                       \
  __CPROVER_assume(n != NULL)
#define VF_IMPLIES(a, b) (!(a) || (b))
#else
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
extern void vf_load(const char *name, void *p, size_t n);
extern void vf_fail(const char *msg);
#define VF_IN(T, n)                                                                                                    \
  T n;                                                                                                                 \
  vf_load(#n, &n, sizeof(n))
#define VF_REQUIRES(c)                                                                                                 \
  do {                                                                                                                 \
    if (!(c)) {                                                                                                        \
      fprintf(stderr, "REPLAY: precondition not met: %s\n", #c);                                                       \
      _exit(77);                                                                                                       \
    }                                                                                                                  \
  } while (0)
#define VF_ENSURES(c, m)                                                                                               \
  do {                                                                                                                 \
    if (!(c))                                                                                                          \
      vf_fail(m);                                                                                                      \
  } while (0)
#define VF_REACH(m) ((void)0)
#define VF_BUF(n, size, small)                                                                                         \
  unsigned char *n = malloc(small);                                                                                    \
  vf_load(#n "_obj", n, small);                                                                                        \
  VF_REQUIRES((size_t)(size) <= (size_t)(small))
#define VF_NEW(T, n) T *n = (T *)calloc(1, sizeof(T))
#define VF_IMPLIES(a, b) (!(a) || (b))
#define __CPROVER_assume(c) VF_REQUIRES(c)
#define __CPROVER_assert(c, m) VF_ENSURES(c, m)
#endif
#define VF_BOOL(n)                                                                                                     \
  VF_IN(unsigned char, n##_bit);                                                                                       \
  const bool n = (n##_bit & 1) != 0
#endif
