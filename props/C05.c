/* C05: size limits are consistent and enforced. */
#include "common.h"

static const uint32_t PS[] = {256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536};
#define NPS 9
#define DUPFLAGS (MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_REVERSEDUP | MDBX_INTEGERDUP)
#define HDR 20u /* page header bytes available to nothing else */
static size_t even(size_t n) { return n + (n & 1); }

static intptr_t spec_keymax(size_t ps, unsigned flags) {
  if (flags & MDBX_INTEGERKEY)
    return 8;
  /* three branch nodes (the first without a key), with their index slots, fit on a page */
  size_t k = ((ps - HDR - 2 - 8) / 2 - 2) / 2 * 2 - 8;
  if (flags & DUPFLAGS) { /* the nested table record must fit beside the key in half a page */
    size_t l = (ps - HDR) / 2 / 2 * 2 - 2 - 8 - 48;
    k = l < k ? l : k;
  }
  return (intptr_t)k;
}
static intptr_t spec_valmax(size_t ps, unsigned flags) {
  if (flags & MDBX_INTEGERDUP)
    return 8;
  if (flags & DUPFLAGS)
    return spec_keymax(ps, 0);
  const uint64_t pages = 0x7FFFffff / 4; /* no more than this many pages for one value */
  const uint64_t hard = 0x7FF00000;
  return (intptr_t)(hard / ps < pages ? hard : pages * ps);
}

void h_limits(void) {
  VF_IN(unsigned, flags);
  const MDBX_db_flags_t f = (MDBX_db_flags_t)flags;
  for (unsigned i = 0; i < NPS; i++) {
    const size_t ps = PS[i];
    VF_ENSURES(mdbx_limits_keysize_max(ps, f) == spec_keymax(ps, flags), "maximal key size");
    VF_ENSURES(mdbx_limits_valsize_max(ps, f) == spec_valmax(ps, flags), "maximal value size");
    VF_ENSURES(mdbx_limits_keysize_min(f) == ((flags & MDBX_INTEGERKEY) ? 4 : 0), "minimal key size");
    VF_ENSURES(mdbx_limits_valsize_min(f) == ((flags & MDBX_INTEGERDUP) ? 4 : (flags & MDBX_DUPFIXED) ? 2 : 0),
               "minimal value size");
    VF_ENSURES(mdbx_limits_keysize_min(f) <= mdbx_limits_keysize_max(ps, f) &&
                   mdbx_limits_valsize_min(f) <= mdbx_limits_valsize_max(ps, f), "minimum not above maximum");
    const size_t k = (size_t)mdbx_limits_keysize_max(ps, f);
    VF_ENSURES(2 * (2 + 8 + even(k)) + (2 + 8) <= ps - HDR, "three branch nodes with maximal keys fit on a page");
    if (flags & DUPFLAGS) {
      VF_ENSURES(2 * (2 + 8 + even(k + sizeof(tree_t))) <= ps - HDR,
                 "two leaf nodes with maximal keys and a nested table record fit on a page");
      const size_t v = (size_t)mdbx_limits_valsize_max(ps, f);
      VF_ENSURES(2 * (2 + 8 + even(v)) + (2 + 8) <= ps - HDR, "a maximal multi-value fits as a key of the nested table");
      VF_ENSURES((size_t)mdbx_limits_pairsize4page_max(ps, f) == ((ps - HDR - 10) / 2 - 2) / 2 * 2 - 8,
                 "pair size for one page (multi-value)");
      VF_ENSURES(mdbx_limits_valsize4page_max(ps, f) == spec_valmax(ps, flags), "value size for one page (multi-value)");
    } else {
      const size_t p = (size_t)mdbx_limits_pairsize4page_max(ps, f);
      VF_ENSURES(2 * (2 + 8 + even(p)) <= ps - HDR && 2 * (2 + 8 + even(p + 2)) > ps - HDR,
                 "the largest pair of which two fit on a page");
      VF_ENSURES((size_t)mdbx_limits_valsize4page_max(ps, f) == ps - HDR, "value size for one large page");
    }
    VF_ENSURES(mdbx_limits_dbsize_min(ps) == (intptr_t)(3 * ps), "minimal database size");
    VF_ENSURES(mdbx_limits_dbsize_max(ps) == (intptr_t)((uint64_t)ps << 31), "maximal database size");
    VF_ENSURES(mdbx_limits_txnsize_max(ps) > mdbx_limits_valsize_max(ps, f) &&
                   mdbx_limits_txnsize_max(ps) < mdbx_limits_dbsize_max(ps), "maximal transaction size");
  }
  VF_REACH("limits");
}
void h_limits_bad(void) {
  VF_IN(intptr_t, ps);
  VF_IN(unsigned, flags);
  const MDBX_db_flags_t f = (MDBX_db_flags_t)flags;
  bool good = false;
  for (unsigned i = 0; i < NPS; i++)
    good |= ps == (intptr_t)PS[i];
  VF_REQUIRES(ps >= 1 && !good);
  VF_ENSURES(mdbx_limits_keysize_max(ps, f) == -1 && mdbx_limits_valsize_max(ps, f) == -1 &&
                 mdbx_limits_pairsize4page_max(ps, f) == -1 && mdbx_limits_valsize4page_max(ps, f) == -1 &&
                 mdbx_limits_dbsize_min(ps) == -1 && mdbx_limits_dbsize_max(ps) == -1 && mdbx_limits_txnsize_max(ps) == -1,
             "an invalid page size is rejected");
  VF_REACH("bad");
}
size_t vf_default_ps(void) { return 4096; }
void h_limits_default(void) {
  VF_IN(intptr_t, ps);
  VF_IN(unsigned, flags);
  const MDBX_db_flags_t f = (MDBX_db_flags_t)flags;
  VF_REQUIRES(ps < 1);
  VF_ENSURES(mdbx_limits_keysize_max(ps, f) == spec_keymax(4096, flags) && mdbx_limits_valsize_max(ps, f) == spec_valmax(4096, flags) &&
                 mdbx_limits_dbsize_min(ps) == 3 * 4096 && mdbx_limits_dbsize_max(ps) == (intptr_t)4096 << 31,
             "no page size means the default one");
  VF_REACH("default");
}

void h_setup(void) {
  VF_NEW(MDBX_env, env);
  VF_NEW(kvx_t, kvx);
  VF_IN(tree_t, db);
  VF_IN(unsigned, n);
  VF_REQUIRES(n < NPS);
  for (unsigned i = 0; i < NPS; i++)
    if (i == n) {
      const size_t ps = PS[i];
      env->ps = 0;
      env->page_auxbuf = NULL;
      env_setup_pagesize(env, ps);
      VF_ENSURES(env->ps == ps && ((size_t)1 << env->ps2ln) == ps, "page size and its logarithm");
      /* fit: two maximal leaf nodes, three maximal branch nodes per page */
      VF_ENSURES(2 * (2 + (size_t)env->leaf_nodemax) <= ps - HDR && 2 * (2 + (size_t)env->leaf_nodemax + 2) > ps - HDR,
                 "leaf node limit is half a page");
      VF_ENSURES(2 * (2 + (size_t)env->branch_nodemax) + 10 <= ps - HDR, "branch node limit allows three per page");
      VF_ENSURES(env->leaf_nodemax % 2 == 0 && env->branch_nodemax % 2 == 0, "even node limits");
      const int err = tbl_setup(env, kvx, &db);
      const bool flags_ok = check_table_flags(db.flags);
      const size_t vmin = mdbx_limits_valsize_min((MDBX_db_flags_t)db.flags);
      const size_t vmax = spec_valmax(ps, db.flags);
      const bool fixed = (db.flags & (MDBX_DUPFIXED | MDBX_INTEGERDUP)) && db.dupfix_size;
      if (!flags_ok)
        VF_ENSURES(err == MDBX_INCOMPATIBLE, "invalid table flags are refused");
      else if (fixed && (db.dupfix_size < vmin || db.dupfix_size > vmax))
        VF_ENSURES(err == MDBX_CORRUPTED, "fixed value size out of limits is refused");
      else {
        VF_ENSURES(err == MDBX_SUCCESS, "table is set up");
        VF_ENSURES(kvx->clc.k.lmin == ((db.flags & MDBX_INTEGERKEY) ? 4 : 0) &&
                       kvx->clc.k.lmax == (size_t)spec_keymax(ps, db.flags), "key limits of the table");
        if (fixed)
          VF_ENSURES(kvx->clc.v.lmin == db.dupfix_size && kvx->clc.v.lmax == db.dupfix_size, "fixed-size values have one length");
        else
          VF_ENSURES(kvx->clc.v.lmin == vmin && kvx->clc.v.lmax == vmax, "value limits of the table");
        /* every accepted pair fits: inline within half a page, or key + page number */
        VF_IN(MDBX_val, key);
        VF_IN(MDBX_val, data);
        VF_REQUIRES(key.iov_len <= kvx->clc.k.lmax && data.iov_len <= kvx->clc.v.lmax);
        if (db.flags & MDBX_DUPSORT)
          data.iov_len = sizeof(tree_t);
        VF_ENSURES(2 * leaf_size(env, &key, &data) <= ps - HDR, "every accepted pair needs at most half a leaf page");
        VF_ENSURES(2 * branch_size(env, &key) + 10 <= ps - HDR, "every accepted key fits three times on a branch page");
        VF_REACH("setup");
      }
    }
}

/* --- callee contract: records what is handed over to the insertion -------*/
static int g_calls, g_ret;
static size_t g_klen, g_dlen;
static unsigned g_flags;
static uint8_t g_k[8], g_d[8];
static const void *g_kp, *g_dp;
static uintptr_t g_ka, g_da;
#ifdef VF_NATIVE
static int vf_nd_ret(void) { return 0; }
#else
extern int vf_nd_ret(void);
#endif
int vf_cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsigned flags) {
  g_calls++;
  g_klen = key->iov_len, g_dlen = data->iov_len, g_flags = flags;
  g_kp = key->iov_base, g_dp = data->iov_base;
  if (mc->tree->flags & MDBX_INTEGERKEY)
    for (unsigned i = 0; i < 8; i++)
      g_k[i] = i < g_klen ? ((uint8_t *)g_kp)[i] : 0;
  if (mc->tree->flags & MDBX_INTEGERDUP)
    for (unsigned i = 0; i < 8; i++)
      g_d[i] = i < g_dlen ? ((uint8_t *)g_dp)[i] : 0;
  g_ka = (uintptr_t)g_kp, g_da = (uintptr_t)g_dp;
  return g_ret;
}
struct al { uint64_t w[2]; };

void h_put_checklen(void) {
  VF_NEW(MDBX_cursor, mc);
  VF_NEW(tree_t, tree);
  VF_NEW(clc_couple_t, clc);
  VF_IN(unsigned, tflags);
  VF_REQUIRES(check_table_flags(tflags));
  VF_IN(size_t, kmin); VF_IN(size_t, kmax); VF_IN(size_t, vmin); VF_IN(size_t, vmax);
  VF_IN(struct al, kb); VF_IN(struct al, db);
  VF_IN(uint8_t, ko); VF_IN(uint8_t, dof);
  VF_IN(size_t, kl); VF_IN(size_t, dl);
  VF_IN(unsigned, flags);
  VF_IN(int, ret);
  VF_REQUIRES(ko < 8 && dof < 8);
  /* limits as produced by the table set-up (proved in unit setup) or narrowed by an earlier put */
  VF_REQUIRES(kmin <= kmax && vmin <= vmax);
  if (tflags & MDBX_INTEGERKEY)
    VF_REQUIRES((kmin == 4 || kmin == 8) && (kmax == 4 || kmax == 8));
  if (tflags & MDBX_INTEGERDUP)
    VF_REQUIRES((vmin == 4 || vmin == 8) && (vmax == 4 || vmax == 8));
  VF_REQUIRES(kmax < 65536 && vmax <= 0x7FF00000);
  g_ret = ret;
  mc->flags = 0, mc->top = 0;
  mc->tree = tree;
  tree->flags = (uint16_t)tflags;
  mc->clc = clc;
  clc->k.lmin = kmin, clc->k.lmax = kmax, clc->v.lmin = vmin, clc->v.lmax = vmax;
  uint8_t *kp = (uint8_t *)&kb + ko, *dp = (uint8_t *)&db + dof;
  MDBX_val key = {kp, kl}, data = {dp, dl};
  g_calls = 0;
  const int rc = cursor_put_checklen(mc, &key, &data, flags);
  const bool kok = kl >= kmin && kl <= kmax && (!(tflags & MDBX_INTEGERKEY) || kl == 4 || kl == 8);
  bool dok = dl >= vmin && dl <= vmax && (!(tflags & MDBX_INTEGERDUP) || dl == 4 || dl == 8);
  if ((tflags & MDBX_INTEGERDUP) && (flags & MDBX_MULTIPLE))
    dok &= ((uintptr_t)dp & (dl - 1)) == 0; /* arrays of integers must be aligned */
  if (!kok || !dok) {
    VF_ENSURES(rc == MDBX_BAD_VALSIZE && g_calls == 0, "a wrong length is refused before touching the data");
  } else {
    VF_ENSURES(g_calls == 1 && rc == ret, "an accepted pair is handed to the insertion, whose result is returned");
    VF_ENSURES(g_klen == kl && g_dlen == dl && g_flags == flags, "lengths and flags are passed on");
    if (tflags & MDBX_INTEGERKEY) {
      bool eq = true;
      for (unsigned i = 0; i < 8; i++)
        eq &= i >= kl || g_k[i] == kp[i];
      VF_ENSURES(eq, "integer key bytes are passed on unchanged");
      VF_ENSURES((g_ka & (kl - 1)) == 0, "integer key is aligned for the insertion");
      VF_ENSURES(clc->k.lmin == clc->k.lmax && (kmin == kmax ? clc->k.lmax == kmax : clc->k.lmax == kl), "integer key length becomes fixed");
    } else
      VF_ENSURES(g_kp == kp && clc->k.lmin == kmin && clc->k.lmax == kmax, "key is passed as is");
    if (tflags & MDBX_INTEGERDUP) {
      bool eq = true;
      for (unsigned i = 0; i < 8; i++)
        eq &= i >= dl || g_d[i] == dp[i];
      VF_ENSURES(eq, "integer value bytes are passed on unchanged");
      VF_ENSURES((g_da & (dl - 1)) == 0, "integer value is aligned for the insertion");
      VF_ENSURES(clc->v.lmin == clc->v.lmax && (vmin == vmax ? clc->v.lmax == vmax : clc->v.lmax == dl), "integer value length becomes fixed");
    } else
      VF_ENSURES(g_dp == dp && clc->v.lmin == vmin && clc->v.lmax == vmax, "value is passed as is");
  }
  VF_REACH("put");
}

void h_check_key(void) {
  VF_NEW(MDBX_cursor, mc);
  VF_NEW(tree_t, tree);
  VF_NEW(clc_couple_t, clc);
  VF_NEW(alignkey_t, ak);
  VF_IN(unsigned, tflags);
  VF_REQUIRES(check_table_flags(tflags));
  VF_IN(size_t, kmin); VF_IN(size_t, kmax);
  VF_IN(struct al, kb);
  VF_IN(uint8_t, ko);
  VF_IN(size_t, kl);
  VF_REQUIRES(ko < 8 && kmin <= kmax);
  if (tflags & MDBX_INTEGERKEY)
    VF_REQUIRES((kmin == 4 || kmin == 8) && (kmax == 4 || kmax == 8));
  mc->tree = tree;
  tree->flags = (uint16_t)tflags;
  mc->clc = clc;
  clc->k.lmin = kmin, clc->k.lmax = kmax;
  uint8_t *kp = (uint8_t *)&kb + ko;
  MDBX_val key = {kp, kl};
  const int rc = check_key(mc, &key, ak);
  /* lookups of a too long key in a table of variable-length keys are allowed: they just find nothing */
  bool ok = kl >= kmin && (kmin != kmax || kl == kmin);
  if (tflags & MDBX_INTEGERKEY)
    ok &= kl == 4 || kl == 8;
  VF_ENSURES(rc == (ok ? MDBX_SUCCESS : MDBX_BAD_VALSIZE), "lookup refuses exactly the impossible key lengths");
  if (ok) {
    VF_ENSURES(ak->key.iov_len == kl, "length kept");
    if (tflags & MDBX_INTEGERKEY) {
      bool eq = true;
      for (unsigned i = 0; i < 8; i++)
        eq &= i >= kl || ((uint8_t *)ak->key.iov_base)[i] == kp[i];
      VF_ENSURES(eq && ((uintptr_t)ak->key.iov_base & (kl - 1)) == 0, "aligned integer key with the same bytes");
    } else
      VF_ENSURES(ak->key.iov_base == kp, "key is used as is");
  }
  VF_REACH("check_key");
}

void h_check_multiple(void) {
  VF_NEW(MDBX_cursor, mc);
  VF_NEW(tree_t, tree);
  VF_IN(unsigned, tflags);
  VF_IN(unsigned, flags);
  VF_IN(size_t, cnt);
  static const uint16_t SZ[] = {1, 2, 4, 8, 24, 100, 511, 1000, 4080, 32730};
  mc->tree = tree;
  tree->flags = (uint16_t)tflags;
  for (unsigned i = 0; i < 10; i++) {
    const uint64_t sz = SZ[i];
    MDBX_val key = {NULL, 0}, data[2] = {{NULL, sz}, {NULL, cnt}};
    const int rc = cursor_check_multiple(mc, &key, data, flags);
    if (flags & MDBX_RESERVE)
      VF_ENSURES(rc == MDBX_EINVAL, "multiple with reserve is refused");
    else if (!(tflags & MDBX_DUPFIXED))
      VF_ENSURES(rc == MDBX_INCOMPATIBLE, "multiple needs fixed-size values");
    else if (rc == MDBX_SUCCESS)
      VF_ENSURES(cnt <= ((uint64_t)1 << 47) / sz, "the total size cannot overflow");
    else
      VF_ENSURES(rc == MDBX_TOO_LARGE && cnt > ((uint64_t)1 << 46) / sz, "only an impossible amount is refused");
  }
  VF_REACH("multiple");
}
