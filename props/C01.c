/* C01: key/value comparison.  Every default comparator equals its mathematical
 * order; equality shortcut == byte equality; flag -> order dispatch. */
#include "common.h"
#define VF_MAXLEN 0x7fff0000ul

/* ghost: registers a pair of blocks and its first difference d (forward) */
#define GHOST_FWD(a, b, la, lb)                                                                                        \
  size_t vf_min = (la) < (lb) ? (la) : (lb);                                                                           \
  VF_IN(size_t, d);                                                                                                    \
  VF_REQUIRES(d <= vf_min);                                                                                            \
  VF_REQUIRES(d == vf_min || (a)[d] != (b)[d]);                                                                        \
  for (unsigned k = 0; k < 18; k++)                                                                                    \
    VF_REQUIRES(!(k < d) || (a)[k] == (b)[k]); /* instances of: all k<d equal */                                       \
  vf_ka = (a), vf_kb = (b), vf_kd = d, vf_kmin = vf_min

static int spec_fwd(const unsigned char *a, const unsigned char *b, size_t la, size_t lb, size_t d) {
  size_t m = la < lb ? la : lb;
  if (d < m)
    return a[d] < b[d] ? -1 : 1;
  return la < lb ? -1 : la > lb;
}

void h_cmp_lexical(void) {
  VF_IN(size_t, la);
  VF_IN(size_t, lb);
  VF_REQUIRES(la <= VF_MAXLEN && lb <= VF_MAXLEN);
  VF_BUF(pa, la, 12);
  VF_BUF(pb, lb, 12);
  GHOST_FWD(pa, pb, la, lb);
  MDBX_val a = {pa, la}, b = {pb, lb};
  int r = cmp_lexical(&a, &b);
  VF_ENSURES(vf_sign(r) == spec_fwd(pa, pb, la, lb, d), "lexical order: first differing byte, then length");
  VF_REACH("lexical");
}

void h_cmp_lenfast(void) {
  VF_IN(size_t, la);
  VF_IN(size_t, lb);
  VF_REQUIRES(la <= VF_MAXLEN && lb <= VF_MAXLEN);
  VF_BUF(pa, la, 12);
  VF_BUF(pb, lb, 12);
  GHOST_FWD(pa, pb, la, lb);
  MDBX_val a = {pa, la}, b = {pb, lb};
  int r = cmp_lenfast(&a, &b);
  int s = la != lb ? (la < lb ? -1 : 1) : (d < la ? (pa[d] < pb[d] ? -1 : 1) : 0);
  VF_ENSURES(vf_sign(r) == s, "length-first order");
  VF_REACH("lenfast");
}

void h_eq_fast(void) {
  VF_IN(size_t, la);
  VF_IN(size_t, lb);
  VF_REQUIRES(la <= VF_MAXLEN && lb <= VF_MAXLEN);
  VF_BUF(pa, la, 40);
  VF_BUF(pb, lb, 40);
  GHOST_FWD(pa, pb, la, lb);
  MDBX_val a = {pa, la}, b = {pb, lb};
  const bool same = la == lb && d == la;
  VF_ENSURES(eq_fast(&a, &b) == same, "equality shortcut is byte equality");
  VF_ENSURES(cmp_equal_or_greater(&a, &b) == (same ? 0 : 1), "equal-or-greater pseudo comparator");
  VF_ENSURES(cmp_equal_or_wrong(&a, &b) == (same ? 0 : -1), "equal-or-wrong pseudo comparator");
  VF_REACH("eq");
}

static int spec_uint(const unsigned char *p, const unsigned char *q, size_t n) {
  uint64_t x = 0, y = 0;
  for (size_t i = 0; i < 8; i++) {
    if (i < n) {
      x |= (uint64_t)p[i] << 8 * i;
      y |= (uint64_t)q[i] << 8 * i;
    }
  }
  return x < y ? -1 : x > y;
}

void h_cmp_uint(void) {
  VF_BOOL(wide);
  const size_t n = wide ? 8 : 4;
  struct b8 { unsigned char b[8]; };
  VF_IN(struct b8, va);
  VF_IN(struct b8, vb);
  uint64_t sa, sb; /* aligned storage */
  memcpy(&sa, &va, 8);
  memcpy(&sb, &vb, 8);
  MDBX_val a = {&sa, n}, b = {&sb, n};
  const int s = spec_uint(va.b, vb.b, n);
  VF_ENSURES(vf_sign(cmp_uint_unaligned(&a, &b)) == s, "integer order (unaligned)");
  VF_ENSURES(vf_sign(cmp_uint_align2(&a, &b)) == s, "integer order (align2)");
  VF_ENSURES(vf_sign(cmp_uint_align4(&a, &b)) == s, "integer order (align4)");
  if (wide) {
    VF_ENSURES(vf_sign(cmp_uint64_unaligned(&a, &b)) == s, "integer order (u64)");
    VF_ENSURES(vf_sign(cmp_uint64_align4(&a, &b)) == s, "integer order (u64 align4)");
  } else {
    VF_ENSURES(vf_sign(cmp_uint32_unaligned(&a, &b)) == s, "integer order (u32)");
    VF_ENSURES(vf_sign(cmp_uint32_align4(&a, &b)) == s, "integer order (u32 align4)");
  }
  VF_REACH("uint");
}

#define REVLEN 19
struct br { unsigned char b[REVLEN]; };
static int spec_rev(const unsigned char *p, const unsigned char *q, size_t la, size_t lb) {
  for (size_t k = 1; k <= REVLEN; k++) {
    if (k > la || k > lb)
      break;
    if (p[la - k] != q[lb - k])
      return p[la - k] < q[lb - k] ? -1 : 1;
  }
  return la < lb ? -1 : la > lb;
}
void h_cmp_reverse(void) {
  VF_IN(struct br, va);
  VF_IN(struct br, vb);
  /* every common length 0..REVLEN-1 by explicit case split, contents symbolic;
   * the longer key exceeds the shorter by 0, 1 (either side) */
  for (size_t i = 0; i < REVLEN; i++)
    for (size_t x = 0; x < 3; x++) {
      const size_t la = x == 1 ? i + 1 : i, lb = x == 2 ? i + 1 : i;
      MDBX_val a = {va.b, la}, b = {vb.b, lb};
      VF_ENSURES(vf_sign(cmp_reverse(&a, &b)) == spec_rev(va.b, vb.b, la, lb),
                 "reverse order: last differing byte, then length");
    }
  VF_REACH("reverse");
}

static int spec_lex8(const unsigned char *p, const unsigned char *q, size_t la, size_t lb) {
  for (size_t k = 0; k < 9; k++) {
    if (k >= la || k >= lb)
      break;
    if (p[k] != q[k])
      return p[k] < q[k] ? -1 : 1;
  }
  return la < lb ? -1 : la > lb;
}
struct b9 { unsigned char b[9]; };
void h_dispatch_key(void) {
  VF_IN(struct b9, va);
  VF_IN(struct b9, vb);
  VF_IN(unsigned, flags);
  VF_REQUIRES(check_table_flags(flags));
  static const uint8_t L[][2] = {{4, 4}, {8, 8}, {9, 9}, {3, 9}, {2, 1}, {0, 1}};
  MDBX_cmp_func f = mdbx_get_keycmp((MDBX_db_flags_t)flags);
  for (unsigned i = 0; i < 6; i++) {
    const size_t la = L[i][0], lb = L[i][1];
    MDBX_val a = {va.b, la}, b = {vb.b, lb};
    if (flags & MDBX_INTEGERKEY) {
      if (la == lb && (la == 4 || la == 8))
        VF_ENSURES(vf_sign(f(&a, &b)) == spec_uint(va.b, vb.b, la), "INTEGERKEY tables use native integer order");
    } else if (flags & MDBX_REVERSEKEY)
      VF_ENSURES(vf_sign(f(&a, &b)) == spec_rev(va.b, vb.b, la, lb), "REVERSEKEY tables use reverse order");
    else
      VF_ENSURES(vf_sign(f(&a, &b)) == spec_lex8(va.b, vb.b, la, lb), "plain tables use lexical order");
  }
  VF_REACH("dispatch");
}
void h_dispatch_data(void) {
  VF_IN(struct b9, va);
  VF_IN(struct b9, vb);
  VF_IN(unsigned, flags);
  VF_REQUIRES(check_table_flags(flags));
  static const uint8_t L[][2] = {{4, 4}, {8, 8}, {9, 9}, {3, 9}, {2, 1}, {0, 1}};
  MDBX_cmp_func f = mdbx_get_datacmp((MDBX_db_flags_t)flags);
  for (unsigned i = 0; i < 6; i++) {
    const size_t la = L[i][0], lb = L[i][1];
    MDBX_val a = {va.b, la}, b = {vb.b, lb};
    if (!(flags & MDBX_DUPSORT))
      VF_ENSURES((f(&a, &b) == 0) == (la == lb && spec_lex8(va.b, vb.b, la, lb) == 0), "single-value equality");
    else if (flags & MDBX_INTEGERDUP) {
      if (la == lb && (la == 4 || la == 8))
        VF_ENSURES(vf_sign(f(&a, &b)) == spec_uint(va.b, vb.b, la), "INTEGERDUP values use native integer order");
    } else if (flags & MDBX_REVERSEDUP)
      VF_ENSURES(vf_sign(f(&a, &b)) == spec_rev(va.b, vb.b, la, lb), "REVERSEDUP values use reverse order");
    else
      VF_ENSURES(vf_sign(f(&a, &b)) == spec_lex8(va.b, vb.b, la, lb), "multi-values use lexical order");
  }
  VF_REACH("dispatch");
}
