/* C14: damaged or foreign files are refused */
#include "common.h"

/* the two pages of a file header: 256 bytes are enough, the rest is not read */
#define NEWPAGE(p)                                                                                                     \
  VF_BUF(p##_mem, 256, 256);                                                                                           \
  page_t *const p = (page_t *)p##_mem

static int g_fsize_err;
static uint64_t g_fsize;
int vf_filesize(mdbx_filehandle_t fd, uint64_t *length) {
  (void)fd;
  if (g_fsize_err == 0)
    *length = g_fsize;
  return g_fsize_err;
}

static inline uint64_t rd64(const void *p) {
  const unsigned char *b = p;
  uint64_t v = 0;
  for (int i = 7; i >= 0; --i)
    v = v << 8 | b[i];
  return v;
}

/* documented table kinds */
static inline bool flags_ok(unsigned f) {
  const unsigned all = MDBX_REVERSEKEY | MDBX_INTEGERKEY | MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERDUP | MDBX_REVERSEDUP;
  if (f & ~all)
    return false;
  if ((f & (MDBX_DUPFIXED | MDBX_INTEGERDUP | MDBX_REVERSEDUP)) && !(f & MDBX_DUPSORT))
    return false;
  if ((f & MDBX_INTEGERDUP) && !(f & MDBX_DUPFIXED))
    return false;
  return !((f & MDBX_REVERSEKEY) && (f & MDBX_INTEGERKEY));
}
static inline bool root_ok(const tree_t *t, uint64_t first) {
  if (t->root == P_INVALID)
    return !(t->branch_pages | t->leaf_pages | t->large_pages | t->height) && !t->items;
  return t->root >= 3 && t->root < first;
}

static void validate(unsigned ln) {
  VF_NEW(MDBX_env, env);
  NEWPAGE(page);
  meta_t *const m = (meta_t *)(page_mem + PAGEHDRSZ);
  if (ln)
    m->pagesize = 1u << ln;
  VF_IN(unsigned, number);
  VF_IN(uint64_t, filesize);
  VF_IN(uint64_t, filesize_now);
  VF_IN(int, fserr);
  VF_REQUIRES(fserr >= 0 && fserr <= 200); /* system error */
  VF_IN(unsigned, granularity);
  VF_REQUIRES(granularity == 4096 || granularity == 65536);
  VF_BOOL(have_guess);
  VF_IN(unsigned, guess);
  VF_IN(unsigned, idx); /* any byte of the page */
  VF_REQUIRES(idx < 256);
  globals.sys_allocation_granularity = granularity;
  globals.sys_pagesize = 4096;
  env->dxb_mmap.filesize = filesize;
  g_fsize = filesize_now, g_fsize_err = fserr;
  const meta_t old = *m;
  const unsigned char oldbyte = page_mem[idx];
  unsigned guessed = guess;
  const int rc = meta_validate(env, m, page, number, have_guess ? &guessed : NULL);

  const uint64_t magic = rd64(&old.magic_and_version), a = rd64(&old.txnid_a), b = rd64(&old.txnid_b), sign = rd64(&old.sign);
  const bool magic_ok = magic >> 8 == MDBX_MAGIC;
  const bool version_ok = magic_ok && ((magic & 255) == MDBX_DATA_VERSION || magic == MDBX_DATA_MAGIC_LEGACY_COMPAT || magic == MDBX_DATA_MAGIC_LEGACY_DEVEL);
  const bool page_ok = page->pgno == number && page->flags == P_META;
  const uint64_t psz = old.pagesize;
  const bool psz_ok = psz >= 256 && psz <= 65536 && (psz & (psz - 1)) == 0;
  const bool complete = a == b && a >= 1 && a <= MAX_TXNID && !(sign > 1 && sign != ~UINT64_C(0));
  const bool gcflags_ok = old.trees.gc.flags == MDBX_INTEGERKEY ||
                          ((old.trees.gc.flags & DB_PERSISTENT_FLAGS) == MDBX_INTEGERKEY && magic != MDBX_DATA_MAGIC);
  const bool compat_ok = gcflags_ok && flags_ok(old.trees.main.flags);
  const uint64_t lower = old.geometry.lower, upper = old.geometry.upper, first = old.geometry.first_unallocated;
  const bool geo_ok = lower >= 3 && lower <= UINT64_C(0x80000000) && upper >= 3 && upper <= UINT64_C(0x80000000) && lower <= upper;
  const bool first_ok = first >= 3 && first <= UINT64_C(0x80000000);
  const uint64_t alloc = ln ? first << ln : 0;
  const uint64_t fsz = alloc <= filesize ? filesize : filesize_now;
  const bool fits = alloc <= fsz;
  const bool roots_ok = root_ok(&old.trees.gc, first) && root_ok(&old.trees.main, first);
  const bool mod_ok = old.trees.gc.mod_txnid <= a && old.trees.main.mod_txnid <= a;
  const bool all_ok = version_ok && page_ok && psz_ok && complete && compat_ok && geo_ok && first_ok && fits && roots_ok && mod_ok;

  if (rc == MDBX_SUCCESS) {
    VF_ENSURES(magic_ok, "accepted: the signature is that of the engine");
    VF_ENSURES(version_ok, "accepted: a supported format version");
    VF_ENSURES(page->pgno == number, "accepted: the page number matches its place");
    VF_ENSURES(page->flags == P_META, "accepted: the page is a meta page");
    VF_ENSURES(psz_ok, "accepted: a valid page size");
    VF_ENSURES(a == b, "accepted: both transaction ids agree");
    VF_ENSURES(a >= 1 && a <= MAX_TXNID, "accepted: the transaction id is in range");
    VF_ENSURES(!(sign > 1 && sign != ~UINT64_C(0)), "accepted: the signature is not that of a damaged page");
    VF_ENSURES(gcflags_ok, "accepted: the free-page table has its own flags");
    VF_ENSURES(flags_ok(old.trees.main.flags), "accepted: the main table has valid flags");
    VF_ENSURES(geo_ok, "accepted: size limits are in range and ordered");
    VF_ENSURES(first_ok, "accepted: the allocation boundary is in range");
    VF_ENSURES(fits, "accepted: all allocated pages lie inside the file");
    VF_ENSURES(root_ok(&old.trees.gc, first), "accepted: the free-page root is empty or inside the allocated pages");
    VF_ENSURES(root_ok(&old.trees.main, first), "accepted: the main root is empty or inside the allocated pages");
    VF_ENSURES(mod_ok, "accepted: no tree is newer than the snapshot");
    VF_ENSURES(m->geometry.first_unallocated == first && m->geometry.lower == lower, "accepted: the allocation boundary is kept");
    VF_ENSURES(m->geometry.now >= m->geometry.lower && m->geometry.now <= m->geometry.upper && first <= m->geometry.now, "accepted: the current size is inside the limits");
    VF_ENSURES(first <= m->geometry.upper, "accepted: the upper limit covers the allocated pages");
    VF_ENSURES((uint64_t)m->geometry.upper << ln <= UINT64_C(0x800000000000), "accepted: the upper limit is addressable");
    if (upper << ln <= UINT64_C(0x7fff00000000))
      VF_ENSURES(m->geometry.upper >= upper, "accepted: a sane upper limit is not lowered");
    if (old.geometry.now >= lower && old.geometry.now <= upper && (uint64_t)old.geometry.now << ln >= fsz)
      VF_ENSURES(m->geometry.now == old.geometry.now || m->geometry.upper != upper, "accepted: a proper current size is kept");
    VF_ENSURES(!have_guess || guessed == psz, "accepted: the page size is reported");
  } else {
    VF_ENSURES(rc != MDBX_INVALID || !magic_ok || !page_ok || !psz_ok || !geo_ok, "INVALID only for a foreign signature, page, page size or geometry");
    VF_ENSURES(rc != MDBX_VERSION_MISMATCH || (magic_ok && !version_ok) || !psz_ok || (lower << ln) > UINT64_C(0x800000000000) || (upper << ln) > UINT64_C(0x800000000000) || (lower << ln) < 768,
               "VERSION_MISMATCH only for another version or unsupported sizes");
    VF_ENSURES(rc != MDBX_RESULT_TRUE || !complete, "an incomplete update is skipped only when it is incomplete");
    VF_ENSURES(rc != MDBX_INCOMPATIBLE || !compat_ok, "INCOMPATIBLE only for unsupported table flags");
    VF_ENSURES(rc != MDBX_CORRUPTED || !first_ok || !fits || !roots_ok || !mod_ok || old.geometry.now < first, "CORRUPTED only for inconsistent content");
    VF_ENSURES(rc == MDBX_INVALID || rc == MDBX_VERSION_MISMATCH || rc == MDBX_RESULT_TRUE || rc == MDBX_INCOMPATIBLE || rc == MDBX_CORRUPTED || rc == MDBX_TOO_LARGE || (rc == fserr && alloc > filesize),
               "only the documented errors");
  }
  VF_ENSURES(VF_IMPLIES(!magic_ok, rc == MDBX_INVALID), "a foreign file is INVALID");
  VF_ENSURES(VF_IMPLIES(magic_ok && !version_ok, rc == MDBX_VERSION_MISMATCH), "another format version is VERSION_MISMATCH");
  VF_ENSURES(VF_IMPLIES(version_ok && !page_ok, rc == MDBX_INVALID), "a wrong page is INVALID");
  VF_ENSURES(VF_IMPLIES(version_ok && page_ok && psz_ok && a != b, rc == MDBX_RESULT_TRUE), "a torn meta page is skipped");
  if (all_ok && (lower << ln) >= 768 && (upper << ln) <= UINT64_C(0x7fff00000000) && (first << ln) <= UINT64_C(0x7fff00000000) && (alloc <= filesize || fserr == 0) && upper >= first && old.geometry.now >= first)
    VF_ENSURES(rc == MDBX_SUCCESS, "every consistent meta page is accepted");
  const unsigned glo = PAGEHDRSZ + offsetof(meta_t, geometry), ghi = glo + sizeof(m->geometry);
  VF_ENSURES((idx >= glo && idx < ghi) || page_mem[idx] == oldbyte, "nothing but the geometry is adjusted");
  VF_REACH("validate");
  if (all_ok && rc == MDBX_SUCCESS)
    VF_REACH("accepted");
}
void h_validate8(void) { validate(8); }
void h_validate12(void) { validate(12); }
void h_validate16(void) { validate(16); }
void h_validate9(void) { validate(9); }
void h_validate10(void) { validate(10); }
void h_validate11(void) { validate(11); }
void h_validate13(void) { validate(13); }
void h_validate14(void) { validate(14); }
void h_validate15(void) { validate(15); }

/* any content, including a wrong page size: what must be refused before the size is trusted */
void h_foreign(void) {
  VF_NEW(MDBX_env, env);
  NEWPAGE(page);
  meta_t *const m = (meta_t *)(page_mem + PAGEHDRSZ);
  VF_IN(unsigned, number);
  const uint64_t magic = rd64(&m->magic_and_version);
  const uint64_t psz = m->pagesize;
  const bool psz_ok = psz >= 256 && psz <= 65536 && (psz & (psz - 1)) == 0;
  VF_REQUIRES(!psz_ok);
  unsigned guessed = 0;
  const int rc = meta_validate(env, m, page, number, &guessed);
  VF_ENSURES(rc != MDBX_SUCCESS, "a page with an invalid page size is refused");
  VF_ENSURES(VF_IMPLIES(magic >> 8 != MDBX_MAGIC, rc == MDBX_INVALID), "a foreign file is INVALID");
  VF_ENSURES(rc == MDBX_INVALID || rc == MDBX_VERSION_MISMATCH, "the error tells a foreign or unsupported file");
  VF_ENSURES(guessed == 0, "the invalid page size is not used");
  VF_REACH("foreign");
}

/* --- meta_validate_copy: validates a private copy, with the number of the place it came from ---- */
static MDBX_env *s_env;
static meta_t *s_meta;
static const page_t *s_page;
static unsigned s_number, s_calls;
static unsigned *s_guess;
static int s_rc;
int vf_meta_validate(MDBX_env *env, meta_t *const meta, const page_t *const page, const unsigned meta_number, unsigned *guess_pagesize) {
  s_env = env, s_meta = meta, s_page = page, s_number = meta_number, s_guess = guess_pagesize;
  s_calls += 1;
  return s_rc;
}
void h_copy(void) {
  VF_NEW(MDBX_env, env);
  VF_IN(unsigned, ln);
  VF_REQUIRES(ln >= 8 && ln <= 16);
#ifdef VF_FIND
  VF_REQUIRES(ln == 8);
#endif
  VF_BUF(base, (size_t)3 << ln, 768);
  env->ps = 1u << ln, env->ps2ln = ln, env->dxb_mmap.base = base;
  VF_IN(unsigned, n);
  VF_REQUIRES(n < 3);
  VF_IN(int, rc0);
  VF_IN(unsigned, idx);
  VF_REQUIRES(idx < sizeof(meta_t));
  meta_t dest;
  const meta_t *const m = (const meta_t *)(base + ((size_t)n << ln) + PAGEHDRSZ);
  s_calls = 0, s_rc = rc0;
  const int rc = meta_validate_copy(env, m, &dest);
  VF_ENSURES(rc == rc0 && s_calls == 1, "the verdict is that of the validation");
  VF_ENSURES(s_env == env && s_meta == &dest, "the copy is validated, not the shared page");
  VF_ENSURES((const unsigned char *)s_page == base + ((size_t)n << ln) && s_number == n, "with the page and the number of its place");
  VF_ENSURES(((const unsigned char *)&dest)[idx] == ((const unsigned char *)m)[idx], "the copy is exact");
  VF_REACH("copy");
}
