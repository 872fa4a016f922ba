/* C19: opening picks the newest recoverable snapshot */
#include "common.h"

static struct vf_page256 {
  unsigned char b[256];
} g_page[3];
static int g_rc[3], g_err;
static unsigned g_reads;
static int64_t g_badoff;

int vf_filesize(mdbx_filehandle_t fd, uint64_t *length) {
  (void)fd;
  *length = 1 << 20;
  return 0;
}
/* the file: three pages of 4096 bytes with stable content */
int vf_pread(mdbx_filehandle_t fd, void *buf, size_t bytes, uint64_t offset) {
  (void)fd;
  if (bytes != 256 || (offset != 0 && offset != 4096 && offset != 8192)) {
    g_badoff = offset;
    return MDBX_EIO;
  }
  *(struct vf_page256 *)buf = g_page[offset / 4096];
  return g_err;
}
int vf_cmp(const void *p, const void *q, size_t n) {
  const uint64_t *a = p, *b = q;
  if (n == 16)
    return a[0] != b[0] || a[1] != b[1];
  return 0; /* two reads of an unchanged page */
}
static inline meta_t *gm(unsigned n) { return (meta_t *)(g_page[n].b + PAGEHDRSZ); }
static inline uint64_t two(uint32_t lo, uint32_t hi) { return lo | (uint64_t)hi << 32; }
int vf_meta_validate(MDBX_env *env, meta_t *const meta, const page_t *const page, const unsigned meta_number, unsigned *guess_pagesize) {
  (void)env;
  VF_ENSURES((const void *)meta == (const void *)((const char *)page + PAGEHDRSZ), "the meta of the page is validated");
  VF_REQUIRES(meta_number < 3);
  VF_ENSURES(meta->canary.x == meta_number, "each page is validated with its own number");
  if (guess_pagesize)
    *guess_pagesize = 4096;
  return g_rc[meta_number];
}

static void pages(void) {
  VF_IN(struct vf_page256, p0);
  VF_IN(struct vf_page256, p1);
  VF_IN(struct vf_page256, p2);
  VF_IN(int, r0);
  VF_IN(int, r1);
  VF_IN(int, r2);
  g_page[0] = p0, g_page[1] = p1, g_page[2] = p2;
  g_rc[0] = r0, g_rc[1] = r1, g_rc[2] = r2;
  for (unsigned n = 0; n < 3; ++n) {
    gm(n)->canary.x = n; /* ghost mark of the page */
    gm(n)->pagesize = 4096;
    if (g_rc[n] == 0) { /* what C14 proves of an accepted page */
      const uint64_t a = two(gm(n)->txnid_a[0].weak, gm(n)->txnid_a[1].weak);
      VF_REQUIRES(a == two(gm(n)->txnid_b[0].weak, gm(n)->txnid_b[1].weak));
      VF_REQUIRES(a >= 1 && a <= MAX_TXNID);
    }
  }
}
#define FACTS                                                                                                          \
  uint64_t id[3];                                                                                                      \
  bool st[3], bt[3], ok[3];                                                                                            \
  for (unsigned n = 0; n < 3; ++n) {                                                                                   \
    id[n] = two(gm(n)->txnid_a[0].weak, gm(n)->txnid_a[1].weak);                                                       \
    st[n] = two(gm(n)->sign[0], gm(n)->sign[1]) > 1;                                                                   \
    bt[n] = (bid.x | bid.y) && gm(n)->bootid.x == bid.x && gm(n)->bootid.y == bid.y;                                   \
    ok[n] = g_rc[n] == 0;                                                                                              \
  }                                                                                                                    \
  VF_REQUIRES(id[0] != id[1] && id[0] != id[2] && id[1] != id[2])

static inline bool same(const meta_t *a, const meta_t *b) {
  return a->geometry.lower == b->geometry.lower && a->geometry.upper == b->geometry.upper && a->geometry.now == b->geometry.now &&
         a->geometry.first_unallocated == b->geometry.first_unallocated && a->trees.main.root == b->trees.main.root &&
         a->trees.gc.root == b->trees.gc.root && a->trees.main.mod_txnid == b->trees.main.mod_txnid && a->pages_retired[0] == b->pages_retired[0] &&
         a->txnid_a[0].weak == b->txnid_a[0].weak && a->txnid_a[1].weak == b->txnid_a[1].weak && a->sign[0] == b->sign[0] && a->sign[1] == b->sign[1];
}

void h_read_header(void) {
  VF_NEW(MDBX_env, env);
  VF_IN(bin128_t, bid);
  VF_IN(int, ioerr);
  globals.bootid = bid, globals.sys_pagesize = 4096;
  env->stuck_meta = -1, env->ps = 4096, env->lck_mmap.lck = NULL;
  g_err = ioerr, g_badoff = -1;
  pages();
  FACTS;
  /* a weak meta page of an earlier boot is rolled back before this boot commits, so it is never newer than a page of this boot */
  for (unsigned n = 0; n < 3; ++n)
    for (unsigned j = 0; j < 3; ++j)
      VF_REQUIRES(!(ok[n] && !st[n] && !bt[n] && ok[j] && bt[j] && id[n] > id[j]));
  meta_t dest;
  const int rc = dxb_read_header(env, &dest, 1, 0);
  VF_ENSURES(g_badoff == -1, "only the meta pages are read");
  VF_ENSURES(VF_IMPLIES(ioerr != 0, rc == ioerr), "a read error is reported");
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, ioerr == 0), "no success without data");
  bool any = false;
  for (unsigned n = 0; n < 3; ++n)
    any |= ok[n] && (st[n] || bt[n]);
  if (rc == MDBX_SUCCESS) {
    const uint64_t k = dest.canary.x;
    VF_ENSURES(k < 3, "the header comes from a meta page");
    VF_REQUIRES(k < 3);
    uint64_t idk = 0;
    for (unsigned n = 0; n < 3; ++n)
      if (k == n) {
        idk = id[n];
        VF_ENSURES(ok[n], "the header comes from a valid meta page");
        VF_ENSURES(same(&dest, gm(n)), "the header is a copy of that page");
        VF_ENSURES(st[n] || bt[n], "a weak meta page of an earlier boot is not used");
      }
    for (unsigned n = 0; n < 3; ++n) {
      VF_ENSURES(VF_IMPLIES(ok[n] && st[n], idk >= id[n]), "the header is not older than a steady meta page");
      VF_ENSURES(VF_IMPLIES(ok[n] && bt[n], idk >= id[n]), "the header is not older than a meta page of this boot");
    }
    VF_REACH("header read");
  } else
    VF_ENSURES(!any || ioerr, "an acceptable meta page is found");
  VF_REACH("read_header");
}

/* recovery mode: exactly the requested page */
void h_read_header_stuck(void) {
  VF_NEW(MDBX_env, env);
  VF_IN(bin128_t, bid);
  VF_IN(unsigned, target);
  VF_REQUIRES(target < 3);
  globals.bootid = bid, globals.sys_pagesize = 4096;
  env->stuck_meta = (int)target, env->ps = 4096, env->lck_mmap.lck = NULL;
  g_err = 0, g_badoff = -1;
  pages();
  meta_t dest;
  const int rc = dxb_read_header(env, &dest, 1, 0);
  VF_ENSURES((rc == MDBX_SUCCESS) == (g_rc[target] == 0), "success exactly when the requested page is valid");
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, dest.canary.x == target), "the requested page is used");
  VF_REACH("stuck");
}

/* ---- dxb_setup: verification, rollback and repair after the header was read ---------------------- */
#define PS 256u
struct fpage {
  unsigned char hdr[PAGEHDRSZ];
  meta_t m;
  unsigned char pad[PS - PAGEHDRSZ - sizeof(meta_t)];
};
struct ffile {
  struct fpage p[3];
};
static struct ffile g_file;
#define g_base ((unsigned char *)&g_file)
static MDBX_env *g_env;
static uint64_t g_now;
static meta_t g_header;
static int g_hdr_rc, g_mmap_rc, g_sync_rc, g_over_rc, g_excl;
static unsigned g_rollbacks, g_upgrades, g_syncs, g_mapped, g_setlen;
static bool g_touched_in_ro;
static bool g_steady_lost, g_wrong_rollback;
#define fm(n) (&g_file.p[n].m)
static inline uint64_t id_of(const meta_t *m) {
  const uint64_t a = two(m->txnid_a[0].weak, m->txnid_a[1].weak), b = two(m->txnid_b[0].weak, m->txnid_b[1].weak);
  return a == b ? a : 0;
}
static inline bool st_of(const meta_t *m) { return two(m->sign[0], m->sign[1]) > 1 && id_of(m); }
static inline bool bt_of(const meta_t *m) {
  return (globals.bootid.x | globals.bootid.y) && m->bootid.x == globals.bootid.x && m->bootid.y == globals.bootid.y;
}
int vf_read_header(MDBX_env *env, meta_t *dest, const int lck_exclusive, const mdbx_mode_t mode_bits) {
  (void)env, (void)mode_bits;
  *dest = g_header;
  return g_hdr_rc;
}
int vf_auxbuffer(MDBX_env *env) {
  (void)env;
  return 0;
}
int vf_mmap(const int flags, osal_mmap_t *map, size_t size, const size_t limit, const unsigned options, const pathchar_t *pathname4logging) {
  (void)pathname4logging;
  VF_ENSURES(size >= (uint64_t)g_header.geometry.first_unallocated * PS, "the file is never cut below the allocated pages");
  VF_ENSURES(VF_IMPLIES(options & MMAP_OPTION_SETLENGTH, g_excl && g_env->stuck_meta < 0), "the file size is changed only by the exclusive owner");
  VF_ENSURES(limit >= size, "the mapping limit covers the size");
  g_mapped += 1;
  g_setlen = options;
  map->base = g_base;
  map->limit = limit;
  map->current = size;
  return g_mmap_rc;
}
int vf_validate_copy(MDBX_env *env, const meta_t *meta, meta_t *dest) {
  (void)env;
  for (unsigned n = 0; n < 3; ++n)
    if (meta == fm(n)) {
      *dest = *fm(n);
      return g_rc[n];
    }
  VF_ENSURES(0, "a meta page of the mapping is validated");
  return MDBX_CORRUPTED;
}
/* contract of meta_override: the target page becomes a steady copy of the shape under the given id */
static int over(MDBX_env *env, unsigned target, txnid_t txnid) {
  meta_t *const t = fm(target);
  if (id_of(t) != txnid) { /* the snapshot in this page is dropped */
    VF_ENSURES(txnid == 0, "a dropped page gets no id");
    bool older_steady = false, newest = true, newer_steady = false;
    for (unsigned n = 0; n < 3; ++n) {
      older_steady |= n != target && st_of(fm(n)) && g_rc[n] == 0;
      newer_steady |= n != target && st_of(fm(n)) && id_of(fm(n)) >= id_of(t);
      newest &= id_of(fm(n)) <= id_of(t);
    }
    if (newest) {
      g_rollbacks += 1;
      if (!older_steady)
        g_wrong_rollback = true;
      if (g_rc[target] == 0 && (st_of(t) || bt_of(t)))
        g_steady_lost = true;
    } else if (st_of(t) && !newer_steady)
      g_steady_lost = true;
  } else
    g_upgrades += 1;
  if (g_over_rc)
    return g_over_rc;
  t->txnid_a[0].weak = t->txnid_b[0].weak = (uint32_t)txnid, t->txnid_a[1].weak = t->txnid_b[1].weak = (uint32_t)(txnid >> 32);
  t->sign[0] = t->sign[1] = UINT32_MAX;
  return MDBX_SUCCESS;
}
int vf_override(MDBX_env *env, size_t target, txnid_t txnid, const meta_t *shape) {
  if (env->flags & MDBX_RDONLY)
    g_touched_in_ro = true;
  VF_ENSURES(shape == fm(0) || shape == fm(1) || shape == fm(2), "the shape is an existing meta page");
  for (unsigned n = 0; n < 3; ++n)
    if (target == n)
      return over(env, n, txnid);
  VF_ENSURES(0, "a meta page is overwritten");
  return MDBX_PROBLEM;
}
/* contracts of meta_tap and meta_ptr, proved in C12 */
troika_t vf_tap(const MDBX_env *env) {
  (void)env;
  VF_IN(troika_t, t);
  bool st[3];
  for (unsigned n = 0; n < 3; ++n) {
    t.txnid[n] = id_of(fm(n));
    st[n] = st_of(fm(n));
  }
  VF_REQUIRES((t.fsm & 7) == (st[0] | st[1] << 1 | st[2] << 2));
  const unsigned r = t.recent, p = t.prefer_steady, tail = TROIKA_TAIL(&t), o = 3 - r - tail;
  VF_REQUIRES(r < 3 && p < 3 && tail < 3 && tail != r);
  for (unsigned j = 0; j < 3; ++j) {
    VF_REQUIRES(t.txnid[r] >= t.txnid[j] && VF_IMPLIES(t.txnid[r] == t.txnid[j], st[r] >= st[j]));
    VF_REQUIRES(st[p] >= st[j] && VF_IMPLIES(st[p] == st[j], t.txnid[p] >= t.txnid[j]));
  }
  VF_REQUIRES(st[tail] <= st[o] && VF_IMPLIES(st[tail] == st[o], t.txnid[tail] <= t.txnid[o]));
  const bool e01 = t.txnid[0] == t.txnid[1] && st[0] == st[1], e02 = t.txnid[0] == t.txnid[2] && st[0] == st[2],
             e12 = t.txnid[1] == t.txnid[2] && st[1] == st[2];
  VF_REQUIRES(!!TROIKA_VALID(&t) == !(e01 && e02 && e12) && !!TROIKA_STRICT_VALID(&t) == !(e01 || e02 || e12));
  VF_REQUIRES(VF_IMPLIES(TROIKA_VALID(&t), tail != p));
  return t;
}
meta_ptr_t vf_ptr(const MDBX_env *env, unsigned k) {
  (void)env;
  meta_ptr_t r;
  VF_ENSURES(k < 3, "a meta page number");
  for (unsigned n = 0; n < 3; ++n)
    if (k == n)
      r.ptr_c = fm(n), r.txnid = id_of(fm(n)), r.is_steady = st_of(fm(n));
  return r;
}
unsigned vf_eq_mask(const troika_t *t) {
  const bool s0 = t->fsm & 1, s1 = t->fsm & 2, s2 = t->fsm & 4;
  return (t->txnid[0] == t->txnid[1] && s0 == s1 && t->txnid[0]) | (t->txnid[1] == t->txnid[2] && s1 == s2 && t->txnid[1]) << 1 |
         (t->txnid[0] == t->txnid[2] && s0 == s2 && t->txnid[0]) << 2;
}
int vf_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika_t *const troika) {
  (void)flags, (void)troika;
  if (env->flags & MDBX_RDONLY)
    g_touched_in_ro = true;
  uint64_t newest = 0;
  for (unsigned n = 0; n < 3; ++n)
    if (id_of(fm(n)) > newest)
      newest = id_of(fm(n));
  VF_ENSURES(id_of(pending) == newest + 1, "a changed geometry is committed as the next transaction");
  VF_ENSURES(pending->trees.main.root == g_header.trees.main.root && pending->trees.gc.root == g_header.trees.gc.root, "of the same data");
  g_syncs += 1;
  return g_sync_rc;
}
int vf_readahead(const MDBX_env *env, const pgno_t edge, const bool enable, const bool force_whole) {
  (void)env, (void)edge, (void)enable, (void)force_whole;
  return 0;
}
int vf_reasonable(size_t volume, intptr_t redundancy) {
  (void)volume, (void)redundancy;
  return MDBX_RESULT_TRUE;
}
int vf_set_geometry(MDBX_env *env, intptr_t size_lower, intptr_t size_now, intptr_t size_upper, intptr_t growth_step, intptr_t shrink_threshold, intptr_t pagesize) {
  VF_ENSURES(pagesize == PS, "page size of the file");
  env->geo_in_bytes.lower = size_lower, env->geo_in_bytes.now = size_now, env->geo_in_bytes.upper = size_upper;
  env->geo_in_bytes.grow = growth_step, env->geo_in_bytes.shrink = shrink_threshold;
  return 0;
}

static meta_t g_triplet;
meta_t *vf_triplet(const MDBX_env *env, void *buffer) {
  (void)env, (void)buffer;
  return &g_triplet;
}
static kvx_t g_kvs[2];
static uint8_t g_dbsflags[2];
static MDBX_env *setup_env(void) {
  VF_NEW(MDBX_env, env);
  VF_NEW(lck_t, lck);
  VF_IN(struct ffile, file);
  VF_IN(meta_t, header);
  VF_IN(bin128_t, bid);
  VF_IN(unsigned, flags);
  VF_IN(uint64_t, filesize);
  VF_IN(int, r0);
  VF_IN(int, r1);
  VF_IN(int, r2);
  VF_IN(int, hdr_rc);
  VF_IN(int, mmap_rc);
  VF_IN(int, sync_rc);
  VF_IN(int, over_rc);
  VF_REQUIRES(!(flags & ENV_ACTIVE));
  VF_REQUIRES(hdr_rc != MDBX_ENODATA && over_rc != MDBX_PROBLEM && mmap_rc >= 0 && over_rc >= 0 && sync_rc >= 0);
  globals.bootid = bid, globals.sys_pagesize = 4096, globals.sys_allocation_granularity = 4096, globals.sys_pagesize_ln2 = 12;
  globals.runtime_flags &= ~MDBX_DBG_DUMP;
  env->lck = lck, env->ps = PS, env->ps2ln = 8, env->flags = flags, env->dxb_mmap.filesize = filesize;
  env->geo_in_bytes.now = 0;
  env->kvs = g_kvs, env->dbs_flags = g_dbsflags, env->page_auxbuf = NULL, env->pathname.dxb = NULL, env->lck_mmap.lck = NULL;
  env->stuck_meta = -1;
  g_file = file, g_env = env, g_header = header;
  g_hdr_rc = hdr_rc, g_mmap_rc = mmap_rc, g_sync_rc = sync_rc, g_over_rc = over_rc;
  g_rc[0] = r0, g_rc[1] = r1, g_rc[2] = r2;
  g_rollbacks = g_upgrades = g_syncs = g_mapped = g_setlen = 0;
  g_touched_in_ro = g_steady_lost = g_wrong_rollback = false;
  VF_REQUIRES(header.pagesize == PS && (header.trees.gc.flags & DB_PERSISTENT_FLAGS) == MDBX_INTEGERKEY);
  VF_REQUIRES(header.geometry.first_unallocated >= 3 && header.geometry.first_unallocated <= header.geometry.now &&
              header.geometry.now <= header.geometry.upper && header.geometry.lower <= header.geometry.now && header.geometry.upper <= 0x40000000);
  for (unsigned n = 0; n < 3; ++n)
    VF_REQUIRES(id_of(fm(n)) <= MAX_TXNID && VF_IMPLIES(g_rc[n] == 0, id_of(fm(n)) >= 1)); /* C14 */
  return env;
}
#define SETUP_STUBS_DONE

static void setup_excl(bool upgrade) {
  MDBX_env *const env = setup_env();
  globals.runtime_flags = upgrade ? 0 : MDBX_DBG_DONT_UPGRADE;
  g_excl = 1;
  uint64_t id0[3];
  bool st0[3], bt0[3];
  for (unsigned n = 0; n < 3; ++n)
    id0[n] = id_of(fm(n)), st0[n] = st_of(fm(n)), bt0[n] = bt_of(fm(n));
  if (upgrade) /* without a rollback: a steady head */
    VF_REQUIRES(id0[0] && id0[1] < id0[0] && id0[2] < id0[0] && st0[0]);
  const int rc = dxb_setup(env, MDBX_RESULT_TRUE, 0);
  VF_ENSURES(VF_IMPLIES(g_hdr_rc, rc == g_hdr_rc && !g_mapped), "an unusable header fails the opening");
  VF_ENSURES(VF_IMPLIES(g_mmap_rc && g_mapped, rc == g_mmap_rc), "a failed mapping fails the opening");
  VF_ENSURES(!g_touched_in_ro, "a read-only opening changes no meta page");
  VF_ENSURES(!g_wrong_rollback, "only the newest snapshot is dropped and only in favour of a valid steady one");
  VF_ENSURES(!g_steady_lost, "a valid steady snapshot, or a valid one of this boot, is never dropped");
  VF_ENSURES(VF_IMPLIES(g_rollbacks && g_over_rc, rc == g_over_rc), "a failed rollback fails the opening");
  if (rc == MDBX_SUCCESS) {
    VF_ENSURES(VF_IMPLIES(g_syncs, g_sync_rc == 0), "a failed geometry update fails the opening");
    unsigned k = 0;
    if (id_of(fm(1)) > id_of(fm(0)) || (id_of(fm(1)) == id_of(fm(0)) && st_of(fm(1)) && !st_of(fm(0))))
      k = 1;
    if (id_of(fm(2)) > (k ? id_of(fm(1)) : id_of(fm(0))) || (id_of(fm(2)) == (k ? id_of(fm(1)) : id_of(fm(0))) && st_of(fm(2)) && !(k ? st_of(fm(1)) : st_of(fm(0)))))
      k = 2;
    {
      for (unsigned n = 0; n < 3; ++n)
        if (k == n) {
          VF_ENSURES(g_rc[n] == 0, "the snapshot used after opening was validated");
          VF_ENSURES(st0[n] || bt0[n], "and is steady or of this boot");
        }
    }
    for (unsigned n = 0; n < 3; ++n)
      VF_ENSURES(VF_IMPLIES(st0[n] && g_rc[n] == 0, (st_of(fm(0)) && id_of(fm(0)) >= id0[n]) || (st_of(fm(1)) && id_of(fm(1)) >= id0[n]) ||
                                                        (st_of(fm(2)) && id_of(fm(2)) >= id0[n])),
                 "the newest valid steady snapshot is kept");
    VF_REACH("opened");
    if (g_rollbacks | g_upgrades)
      VF_REACH("rolled back or upgraded");
  }
  VF_REACH("setup");
}
void h_setup(void) { setup_excl(false); }
void h_setup_upgrade(void) { setup_excl(true); }

/* another process works with the database, or recovery mode */
void h_setup_shared(void) {
  MDBX_env *const env = setup_env();
  VF_BOOL(stuck);
  VF_IN(unsigned, target);
  VF_BOOL(excl);
  VF_BOOL(have_lck);
  VF_REQUIRES(target < 3 && (stuck || !excl));
  env->stuck_meta = stuck ? (int)target : -1;
  env->lck_mmap.lck = have_lck ? env->lck : NULL;
  g_excl = excl;
  const int rc = dxb_setup(env, excl ? MDBX_RESULT_TRUE : MDBX_RESULT_FALSE, 0);
  VF_ENSURES(g_rollbacks == 0 && g_upgrades == 0 && g_syncs == 0, "a shared or recovery opening changes no meta page");
  VF_ENSURES(VF_IMPLIES(stuck && rc == MDBX_SUCCESS, g_rc[target] == 0), "recovery mode uses the requested page only if it is valid");
  VF_ENSURES(VF_IMPLIES(g_hdr_rc, rc == g_hdr_rc && !g_mapped), "an unusable header fails the opening");
  VF_REACH("setup_shared");
  if (rc == MDBX_SUCCESS)
    VF_REACH("shared opening succeeds");
}
