/* C12: choice of head and tail meta pages */
#include "common.h"

/* the meta area: three pages of any size with any content */
#ifdef VF_FIND
#define META_AREA(env, ln)                                                                                             \
  VF_NEW(MDBX_env, env);                                                                                               \
  VF_IN(unsigned, ln);                                                                                                 \
  VF_REQUIRES(ln == 8);                                                                                                \
  VF_BUF(base, (size_t)3 << ln, 768);                                                                                  \
  env->ps = 1u << ln, env->ps2ln = ln, env->dxb_mmap.base = base
#else
#define META_AREA(env, ln)                                                                                             \
  VF_NEW(MDBX_env, env);                                                                                               \
  VF_IN(unsigned, ln);                                                                                                 \
  VF_REQUIRES(ln >= 8 && ln <= 16);                                                                                    \
  VF_BUF(base, (size_t)3 << ln, 768);                                                                                  \
  env->ps = 1u << ln, env->ps2ln = ln, env->dxb_mmap.base = base
#endif

#define META_AREA8(env, ln)                                                                                            \
  VF_NEW(MDBX_env, env);                                                                                               \
  const unsigned ln = 8;                                                                                               \
  VF_BUF(base, 768, 768);                                                                                              \
  env->ps = 1u << ln, env->ps2ln = ln, env->dxb_mmap.base = base

static inline meta_t *meta_at(void *base, unsigned ln, unsigned n) {
  return (meta_t *)((unsigned char *)base + ((size_t)n << ln) + PAGEHDRSZ);
}
static inline uint64_t two(uint32_t lo, uint32_t hi) { return lo | (uint64_t)hi << 32; }
/* specification of a meta page's identity */
static inline uint64_t id_of(const meta_t *m) {
  const uint64_t a = two(m->txnid_a[0].weak, m->txnid_a[1].weak), b = two(m->txnid_b[0].weak, m->txnid_b[1].weak);
  return a == b ? a : 0;
}
static inline bool steady_of(const meta_t *m) { return two(m->sign[0], m->sign[1]) > 1 && id_of(m) > 0; }
#define IDS                                                                                                            \
  const uint64_t id[3] = {id_of(meta_at(base, ln, 0)), id_of(meta_at(base, ln, 1)), id_of(meta_at(base, ln, 2))};      \
  const bool st[3] = {steady_of(meta_at(base, ln, 0)), steady_of(meta_at(base, ln, 1)), steady_of(meta_at(base, ln, 2))}

void h_snap(void) {
  META_AREA(env, ln);
  VF_IN(unsigned, n);
  VF_REQUIRES(n < 3);
  const meta_t *m = meta_at(base, ln, n);
  const meta_ptr_t p = meta_ptr(env, n);
  VF_ENSURES(p.ptr_c == m, "meta_ptr address");
  VF_ENSURES(p.txnid == id_of(m), "meta_ptr: an id is valid only when both copies agree");
  VF_ENSURES((p.is_steady != 0) == steady_of(m), "meta_ptr: steadiness");
  VF_ENSURES(meta_txnid(m) == id_of(m), "meta_txnid");
  VF_ENSURES(constmeta_txnid(m) == id_of(m), "constmeta_txnid");
  VF_REACH("snap");
}

void h_tap(void) {
  META_AREA(env, ln);
  IDS;
  const troika_t t = meta_tap(env);
  VF_ENSURES(t.txnid[0] == id[0] && t.txnid[1] == id[1] && t.txnid[2] == id[2], "troika ids");
  VF_ENSURES((t.fsm & 7) == (st[0] | st[1] << 1 | st[2] << 2), "troika steadiness");
  const unsigned r = t.recent, p = t.prefer_steady, tail = TROIKA_TAIL(&t);
  VF_ENSURES(r < 3 && p < 3 && tail < 3, "indices in range");
  VF_REQUIRES(r < 3 && p < 3 && tail < 3);
  for (unsigned j = 0; j < 3; ++j) {
    VF_ENSURES(id[r] >= id[j], "recent has the newest id");
    VF_ENSURES(VF_IMPLIES(id[r] == id[j], st[r] >= st[j]), "among equal ids recent prefers the steady one");
    VF_ENSURES(st[p] >= st[j], "prefer_steady is steady when any is");
    VF_ENSURES(VF_IMPLIES(st[p] == st[j], id[p] >= id[j]), "prefer_steady is the newest of its kind");
  }
  VF_ENSURES(tail != r, "tail is never the newest");
  const unsigned o = 3 - r - tail; /* the third one */
  VF_ENSURES(st[tail] <= st[o], "a steady meta is not overwritten while a weak one could be");
  VF_ENSURES(VF_IMPLIES(st[tail] == st[o], id[tail] <= id[o]), "the oldest is overwritten");
  /* what survives overwriting the tail */
  VF_ENSURES(VF_IMPLIES(st[tail], (st[r] && id[r] >= id[tail]) || (st[o] && id[o] >= id[tail])),
             "the newest steady meta survives overwriting the tail");
  const bool e01 = id[0] == id[1] && st[0] == st[1], e02 = id[0] == id[2] && st[0] == st[2], e12 = id[1] == id[2] && st[1] == st[2];
  VF_ENSURES(!!TROIKA_VALID(&t) == !(e01 && e02 && e12), "valid flag");
  VF_ENSURES(!!TROIKA_STRICT_VALID(&t) == !(e01 || e02 || e12), "strict flag");
  VF_ENSURES(!!TROIKA_HAVE_STEADY(&t) == (st[0] || st[1] || st[2]), "have-steady flag");
  VF_ENSURES(VF_IMPLIES(TROIKA_VALID(&t), tail != p), "tail is not the preferred steady one");

  const meta_ptr_t mr = meta_recent(env, &t), mp = meta_prefer_steady(env, &t), mt = meta_tail(env, &t);
  VF_ENSURES(mr.ptr_c == meta_at(base, ln, r) && mr.txnid == id[r] && (mr.is_steady != 0) == st[r], "meta_recent");
  VF_ENSURES(mp.ptr_c == meta_at(base, ln, p) && mp.txnid == id[p] && (mp.is_steady != 0) == st[p], "meta_prefer_steady");
  VF_ENSURES(mt.ptr_c == meta_at(base, ln, tail) && mt.txnid == id[tail] && (mt.is_steady != 0) == st[tail], "meta_tail");
  VF_ENSURES(meta_is_used(&t, r) && meta_is_used(&t, p) && (meta_is_used(&t, tail) == (tail == p)), "meta_is_used");
  const unsigned eq = meta_eq_mask(&t);
  VF_ENSURES(eq == ((e01 && id[0]) | (e12 && id[1]) << 1 | (e02 && id[2]) << 2), "meta_eq_mask names the equal pairs");
  VF_REACH("tap");
}

void h_retry(void) {
  META_AREA(env, ln);
  IDS;
  VF_IN(troika_t, t);
  const troika_t prev = t;
  const bool again = meta_should_retry(env, &t);
  VF_ENSURES(t.txnid[0] == id[0] && t.txnid[1] == id[1] && t.txnid[2] == id[2], "troika refreshed");
  VF_ENSURES((t.fsm & 7) == (st[0] | st[1] << 1 | st[2] << 2), "steadiness refreshed");
  VF_ENSURES(VF_IMPLIES(prev.txnid[0] != id[0] || prev.txnid[1] != id[1] || prev.txnid[2] != id[2], again), "changed id asks for a retry");
  VF_ENSURES(VF_IMPLIES((prev.fsm & 7) != (t.fsm & 7), again), "changed steadiness asks for a retry");
  VF_ENSURES(VF_IMPLIES(again, prev.fsm != t.fsm || prev.txnid[0] != id[0] || prev.txnid[1] != id[1] || prev.txnid[2] != id[2]),
             "no retry without a change");
  VF_REACH("retry");
}

void h_recent_id(void) {
  META_AREA(env, ln);
  IDS;
  const uint64_t r = recent_committed_txnid(env);
  VF_ENSURES(r >= id[0] && r >= id[1] && r >= id[2], "recent_committed_txnid is not below any valid meta");
  VF_ENSURES(r == id[0] || r == id[1] || r == id[2], "recent_committed_txnid belongs to a valid meta");
  VF_REACH("recent_id");
}

/* a commit chosen on the tail keeps recoverability: the state transition */
void h_advance(void) {
  META_AREA8(env, ln);
  IDS;
  const troika_t t = meta_tap(env);
  VF_REQUIRES(TROIKA_VALID(&t));
  const unsigned tail = TROIKA_TAIL(&t);
  VF_REQUIRES(tail < 3);
  meta_t *const m = meta_at(base, ln, tail);
  /* the update of the tail is torn: its two ids disagree */
  VF_IN(uint64_t, a);
  VF_IN(uint64_t, b);
  VF_REQUIRES(a != b);
  m->txnid_a[0].weak = (uint32_t)a, m->txnid_a[1].weak = (uint32_t)(a >> 32);
  m->txnid_b[0].weak = (uint32_t)b, m->txnid_b[1].weak = (uint32_t)(b >> 32);
  const troika_t t2 = meta_tap(env);
  const meta_ptr_t r1 = meta_recent(env, &t), r2 = meta_recent(env, &t2);
  const meta_ptr_t s1 = meta_prefer_steady(env, &t), s2 = meta_prefer_steady(env, &t2);
  VF_ENSURES(r2.txnid == r1.txnid && (r2.ptr_c == r1.ptr_c || (r2.is_steady == r1.is_steady)), "after a torn update the same snapshot is the newest");
  VF_ENSURES(s2.txnid == s1.txnid && s2.is_steady == s1.is_steady, "after a torn update the same steady snapshot is preferred");
  VF_ENSURES(VF_IMPLIES(r1.txnid, TROIKA_TAIL(&t2) != t2.recent), "still consistent");
  VF_REACH("advance");
}

/* ---- reading a meta page while it is being updated in place -------------------------------------
 * the writer's protocol: txnid_b := 0, txnid_a := new, body and sign := new, txnid_b := new.
 * It may advance by any number of steps around every shared read of the reader. */
static int w_step;
static uint64_t w_new, w_newsign;
static meta_t *w_meta;
static void put64(void *lo, uint64_t v) {
  ((uint32_t *)lo)[0] = (uint32_t)v, ((uint32_t *)lo)[1] = (uint32_t)(v >> 32);
}
#ifndef VF_NATIVE
extern int vf_nd_adv(void);
static void advance(void) {
  const int k = vf_nd_adv(); /* progress of the writer by now */
  __CPROVER_assume(k >= w_step && k <= 4);
  if (w_step < 1 && k >= 1)
    put64(&w_meta->txnid_b, 0);
  if (w_step < 2 && k >= 2)
    put64(&w_meta->txnid_a, w_new);
  if (w_step < 3 && k >= 3)
    put64(&w_meta->sign, w_newsign);
  if (w_step < 4 && k >= 4)
    put64(&w_meta->txnid_b, w_new);
  w_step = k;
}
uint64_t vf_load64(const volatile mdbx_atomic_uint64_t *p, enum mdbx_memory_order order) {
  (void)order;
  advance();
  const uint64_t v = p->weak;
  advance();
  return v;
}
#else
static void advance(void) {}
uint64_t vf_load64(const volatile mdbx_atomic_uint64_t *p, enum mdbx_memory_order order) { return p->weak; }
#endif

void h_snap_race(void) {
  VF_IN(meta_t, m);
  VF_IN(uint64_t, nid);
  VF_IN(uint64_t, nsign);
  const uint64_t oid = id_of(&m);
  const bool ost = steady_of(&m);
  VF_REQUIRES(nid > oid && nid >= 1 && two(m.txnid_a[0].weak, m.txnid_a[1].weak) < nid && two(m.txnid_b[0].weak, m.txnid_b[1].weak) < nid);
  w_step = 0, w_new = nid, w_newsign = nsign, w_meta = &m;
  advance();
  const int w_atstart = w_step;
  const meta_snap_t r = meta_snap(&m);
  VF_ENSURES(r.txnid == 0 || r.txnid == oid || r.txnid == nid, "a concurrent reader sees the old id, the new id, or neither");
  VF_ENSURES(VF_IMPLIES(r.txnid == 0, r.is_steady == 0), "a torn meta is never steady");
  VF_ENSURES(VF_IMPLIES(r.txnid == oid && oid, (r.is_steady != 0) == ost), "the old snapshot keeps its own steadiness");
  VF_ENSURES(VF_IMPLIES(r.txnid == nid && w_atstart >= 3, (r.is_steady != 0) == (nsign > 1)), "a finished update has its own steadiness");
  VF_ENSURES(VF_IMPLIES(w_atstart == 4, r.txnid == nid), "a finished update is seen");
  VF_ENSURES(VF_IMPLIES(w_step == 0, r.txnid == oid), "without a writer the stored id is seen");
  VF_REACH("snap_race");
}

/* ---- meta_bootid_match / meta_weak_acceptable ------------------------------------------------- */
void h_bootid(void) {
  VF_IN(meta_t, m);
  VF_IN(bin128_t, bid);
  globals.bootid = bid;
  const bool same = m.bootid.x == bid.x && m.bootid.y == bid.y;
  VF_ENSURES(meta_bootid_match(&m) == (same && (bid.x || bid.y)), "weak meta is trusted only within the same known boot");
  VF_NEW(MDBX_env, env);
  VF_IN(int, ex);
  env->lck_mmap.lck = NULL;
  VF_ENSURES(meta_weak_acceptable(env, &m, ex) == (ex && same && (bid.x || bid.y)), "weak meta acceptance");
  VF_REACH("bootid");
}

/* ---- dropping steadiness (used before entering a no-steady-barrier mode) ------------------------ */
static MDBX_env *g_env;
static unsigned n_pwrite, n_sync, n_msync;
static int rc_pwrite, rc_sync;
int vf_pwrite(mdbx_filehandle_t fd, const void *buf, size_t bytes, uint64_t offset) {
  VF_ENSURES(fd == g_env->fd4meta, "written through the meta descriptor");
  VF_ENSURES(offset < ((size_t)3 << g_env->ps2ln) && bytes <= g_env->ps, "write stays inside the meta pages");
  VF_ENSURES(bytes == 8, "only the signature is written");
  n_pwrite += 1;
  if (rc_pwrite == 0)
    *(uint64_t *)((unsigned char *)g_env->dxb_mmap.base + offset) = *(const uint64_t *)buf;
  return rc_pwrite;
}
int vf_dxb_fsync(const MDBX_env *env, enum osal_syncmode_bits mode) { n_sync += 1; return rc_sync; }
int vf_dxb_msync(const MDBX_env *env, size_t n, enum osal_syncmode_bits mode) { n_msync += 1; return rc_sync; }

void h_wipe(void) {
  META_AREA8(env, ln);
  VF_NEW(MDBX_txn, basal);
  VF_NEW(MDBX_txn, nested);
  VF_NEW(lck_t, lck);
  VF_BOOL(wm);
  VF_BOOL(has_nested);
  VF_IN(uint64_t, upto);
  VF_IN(int, rcw);
  VF_IN(int, rcs);
  VF_REQUIRES(rcw == 0 || rcw > 0);
  VF_REQUIRES(rcs == 0 || rcs > 0);
  env->lck = lck, env->flags = wm ? MDBX_WRITEMAP : 0, env->basal_txn = basal;
  basal->nested = has_nested ? nested : NULL, nested->nested = NULL;
  env->fd4meta = 5, env->lazy_fd = 5, env->dsync_fd = 5;
  g_env = env, rc_pwrite = rcw, rc_sync = rcs, n_pwrite = n_sync = n_msync = 0;
  IDS;
  uint64_t sg[3];
  for (int i = 0; i < 3; i++)
    sg[i] = two(meta_at(base, ln, i)->sign[0], meta_at(base, ln, i)->sign[1]);
  const int rc = meta_wipe_steady(env, upto);
  bool any = false;
  for (int i = 0; i < 3; i++) {
    meta_t *m = meta_at(base, ln, i);
    const uint64_t s2 = two(m->sign[0], m->sign[1]);
    const bool hit = sg[i] > 1 && id[i] <= upto;
    any |= hit;
    VF_ENSURES(VF_IMPLIES(!hit, s2 == sg[i]), "a meta newer than the limit keeps its signature");
    VF_ENSURES(VF_IMPLIES(hit && rc == 0, s2 == 0), "steadiness up to the limit is dropped");
    VF_ENSURES(id_of(m) == id[i], "ids are untouched");
    VF_ENSURES(basal->wr.troika.txnid[i] == id[i], "the writer's view is refreshed");
    VF_ENSURES(VF_IMPLIES(has_nested, nested->wr.troika.txnid[i] == id[i]), "and in nested transactions");
  }
  /* the last meta is examined last: whatever was wiped must reach the disk before success is reported */
  VF_ENSURES(VF_IMPLIES(rc == 0 && any && !wm, n_sync == 1), "wiping is flushed");
  VF_ENSURES(VF_IMPLIES(rcw && n_pwrite, rc == rcw), "write failure is reported");
  VF_REACH("wipe");
}
