/* C10: space still visible to a reader is never recycled */
#define _GNU_SOURCE 1
#define _FILE_OFFSET_BITS 64
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
/* ghost witness: an arbitrary slot of the reader table, its content, and the state of the header */
static size_t g_w, g_n;
static uint64_t g_wtxn, g_prev, g_prevret;
static unsigned g_wpid, g_flag;
static unsigned g_wpages, g_last;
static uint64_t g_basal;
#define SIG 0x4e6f6e65u
#include "common.h"
#ifndef VF_NATIVE
static MDBX_env g_env;
static MDBX_txn g_txn, g_basaltxn;
static meta_t g_steady_meta, g_recent_meta;
static meta_ptr_t g_steady, g_recent;
static uint64_t g_committed;
meta_ptr_t vf_prefer_steady(const MDBX_env *env, const troika_t *troika) {
  (void)env;
  (void)troika;
  return g_steady;
}
meta_ptr_t vf_recent(const MDBX_env *env, const troika_t *troika) {
  (void)env;
  (void)troika;
  return g_recent;
}
txnid_t vf_committed(const MDBX_env *env) {
  (void)env;
  return g_committed;
}
static lck_t *g_lck;
static void table(size_t n) {
  g_lck = malloc(sizeof(lck_t) + n * sizeof(reader_slot_t));
  __CPROVER_assume(g_lck != NULL);
  g_n = n;
  VF_IN(unsigned, flag);
  VF_IN(uint64_t, prev);
  VF_IN(uint64_t, prevret);
  VF_IN(uint64_t, steady);
  VF_IN(uint64_t, recent);
  VF_IN(uint64_t, r1);
  VF_IN(uint64_t, r2);
  VF_IN(uint64_t, tid);
  VF_IN(uint64_t, com);
  VF_IN(uint32_t, pid);
  VF_REQUIRES(prev <= steady && steady <= recent && recent <= MAX_TXNID); /* C12 and the barrier computed before */
  g_flag = flag, g_prev = prev, g_prevret = prevret, g_committed = com;
  g_lck->rdt_length.weak = (uint32_t)n, g_lck->rdt_refresh_flag.weak = flag, g_lck->cached_oldest_txnid.weak = prev, g_lck->cached_oldest_retired.weak = prevret;
  unaligned_poke_u64(4, g_steady_meta.pages_retired, r1);
  unaligned_poke_u64(4, g_recent_meta.pages_retired, r2);
  g_steady.txnid = steady, g_steady.is_steady = true, g_steady.ptr_c = &g_steady_meta;
  g_recent.txnid = recent, g_recent.ptr_c = &g_recent_meta;
  g_env.lck = g_lck, g_env.lck_mmap.lck = g_lck, g_env.registered_reader_pid = pid, g_env.basal_txn = &g_basaltxn;
  g_basaltxn.txnid = tid, g_txn.env = &g_env, g_txn.flags = 0, g_basal = tid;
}
/* the witness: any slot of the table in use by a reader */
static void witness(void) {
  VF_IN(size_t, w);
  VF_REQUIRES(w < g_n && g_lck->rdt[w].pid.weak != 0);
  g_w = w, g_wtxn = g_lck->rdt[w].txnid.weak, g_wpid = g_lck->rdt[w].pid.weak, g_wpages = g_lck->rdt[w].snapshot_pages_used.weak;
}
/* the barrier of the writer, reader table of any length */
void h_rw(void) {
  VF_IN(size_t, n);
  VF_REQUIRES(n >= 1 && n <= MDBX_READERS_LIMIT);
  table(n);
  witness();
  VF_REQUIRES(g_wtxn >= g_prev); /* holds for every reader registered under the protocol; others are stuck leftovers */
  const orsi_rw_t r = mvcc_shapshot_oldest_rw(&g_txn);
  VF_ENSURES(r.oldest_txnid <= g_wtxn, "the barrier is not newer than the snapshot of any active reader");
  VF_ENSURES(r.oldest_txnid <= g_steady.txnid, "nor than the steady snapshot which recovery may return to");
  VF_ENSURES(r.oldest_txnid >= g_prev, "the barrier never moves back");
  VF_ENSURES(r.steady_txnid == g_steady.txnid, "the steady snapshot is reported");
  VF_ENSURES(g_lck->cached_oldest_txnid.weak == r.oldest_txnid, "the shared barrier is the one returned");
  VF_ENSURES(g_lck->rdt[g_w].txnid.weak == g_wtxn && g_lck->rdt[g_w].pid.weak == g_wpid, "an active reader is never kicked out here");
  VF_REACH("barrier");
}
/* the writer's barrier, exact value, up to 4 slots */
#define NS 3
void h_rw_exact(void) {
  const unsigned n = NS; /* unused slots have no pid */
  table(NS);
  uint64_t expect = g_steady.txnid, expret = unaligned_peek_u64(4, g_steady_meta.pages_retired);
  bool stuck[NS];
  uint64_t before[NS];
  for (unsigned i = 0; i < NS; ++i) {
    const reader_slot_t *const s = g_lck->rdt + i;
    before[i] = s->txnid.weak;
    stuck[i] = s->txnid.weak < g_prev && s->pid.weak;
    if (i < n && s->pid.weak && s->txnid.weak >= g_prev && s->txnid.weak < expect)
      expect = s->txnid.weak, expret = s->snapshot_pages_retired.weak;
  }
  const orsi_rw_t r = mvcc_shapshot_oldest_rw(&g_txn);
  if (g_flag == SIG)
    VF_ENSURES(r.oldest_txnid == g_prev, "an unchanged table keeps the barrier");
  else {
    VF_ENSURES(r.oldest_txnid == expect, "the barrier is the oldest snapshot in use, or the steady one");
    VF_ENSURES(g_lck->cached_oldest_retired.weak == (expect == g_prev ? g_prevret : expret), "with its count of retired pages");
    VF_ENSURES(g_lck->rdt_refresh_flag.weak == SIG, "the refresh request is consumed");
  }
  for (unsigned i = 0; i < NS; ++i)
    VF_ENSURES(VF_IMPLIES(!stuck[i] || i >= n, g_lck->rdt[i].txnid.weak == before[i]), "no other slot changes");
  VF_REACH("exact barrier");
}
/* the barrier seen by readers, table of any length */
void h_ro(void) {
  VF_IN(size_t, n);
  VF_BOOL(own);
  VF_REQUIRES(n >= 1 && n <= MDBX_READERS_LIMIT);
  table(n);
  witness();
  VF_REQUIRES(own || g_flag != SIG || g_wtxn >= g_prev);
  g_txn.flags = MDBX_TXN_RDONLY;
  const orsi_ro_t r = mvcc_shapshot_oldest_ro(&g_txn, own);
  VF_ENSURES(r.oldest_txnid <= g_wtxn, "not newer than the snapshot of any active reader");
  VF_ENSURES(r.recent_txnid == g_committed && (r.oldest_txnid <= g_committed || (g_flag == SIG && !own)), "nor than the last commit");
  VF_ENSURES(VF_IMPLIES(own && g_wpid == g_env.registered_reader_pid, r.thisprocess_oldest_txnid <= g_wtxn), "the barrier of this process covers its own readers");
  VF_REACH("read barrier");
}
/* the largest snapshot in use: the file is never cut below it */
void h_largest(void) {
  VF_IN(unsigned, last);
  const unsigned n = NS; /* unused slots have no pid */
  table(NS);
  uint64_t expect = last;
  for (unsigned i = 0; i < NS; ++i)
    if (i < n && g_lck->rdt[i].pid.weak && g_lck->rdt[i].txnid.weak <= g_basal && g_lck->rdt[i].snapshot_pages_used.weak > expect)
      expect = g_lck->rdt[i].snapshot_pages_used.weak;
  const pgno_t r = mvcc_snapshot_largest(&g_env, last);
  VF_ENSURES(r == expect, "the number of pages in use covers the snapshot of every reader, and is not greater than needed");
  VF_REACH("largest");
}
void h_largest_this(void) {
  VF_IN(unsigned, last);
  const unsigned n = NS; /* unused slots have no pid */
  table(NS);
  uint64_t expect = last;
  for (unsigned i = 0; i < NS; ++i)
    if (i < n && g_lck->rdt[i].pid.weak == g_env.registered_reader_pid && g_lck->rdt[i].txnid.weak >= g_prev && g_lck->rdt[i].txnid.weak <= MAX_TXNID &&
        g_lck->rdt[i].snapshot_pages_used.weak > expect)
      expect = g_lck->rdt[i].snapshot_pages_used.weak;
  const pgno_t r = mvcc_largest_this(&g_env, last);
  VF_ENSURES(r == expect, "the mapping covers every snapshot this process reads");
  VF_REACH("largest of this process");
}
/* the recycling barrier kept in the environment */
static orsi_rw_t g_orsi;
orsi_rw_t vf_oldest_rw(const MDBX_txn *const txn) {
  VF_ENSURES(txn == &g_txn, "for the transaction");
  return g_orsi;
}
void h_detent(void) {
  VF_IN(uint64_t, old);
  VF_IN(uint64_t, oldest);
  g_txn.env = &g_env, g_env.gc.detent = old, g_orsi.oldest_txnid = oldest;
  const bool r = txn_gc_detent(&g_txn);
  VF_ENSURES(g_env.gc.detent == oldest, "the recycling barrier is the oldest snapshot in use");
  VF_ENSURES(r == (old != oldest), "a change is reported");
  VF_REACH("detent");
}
/* dropping readers of dead processes */
static unsigned char g_live[NS];
static uint32_t g_pids[NS];
static int g_lockrc, g_chkerr;
static bool g_locked, g_unlocked;
int vf_rpid_check(MDBX_env *env, uint32_t pid) {
  (void)env;
  for (unsigned i = 0; i < NS; ++i)
    if (g_pids[i] == pid) {
      if (g_live[i] == 2)
        return g_chkerr;
      return g_live[i] ? MDBX_RESULT_TRUE : MDBX_SUCCESS;
    }
  return MDBX_RESULT_TRUE;
}
int vf_rdt_lock(MDBX_env *env) {
  (void)env;
  VF_ENSURES(!g_locked, "the table is locked once");
  g_locked = g_lockrc == MDBX_SUCCESS || g_lockrc == MDBX_RESULT_TRUE;
  return g_lockrc;
}
void vf_rdt_unlock(MDBX_env *env) {
  (void)env;
  VF_ENSURES(g_locked, "only a locked table is unlocked");
  g_unlocked = true;
}
uint64_t vf_monotime(void) { return 1; }
int vf_check_env(const MDBX_env *env, const bool active) {
  (void)env;
  (void)active;
  return MDBX_SUCCESS;
}
static bool g_seen[NS];
bool vf_pid_insert(mdbx_pid_t *list, mdbx_pid_t pid) { /* a set of process ids */
  (void)list;
  bool fresh = true, known = false;
  for (unsigned i = 0; i < NS; ++i)
    if (g_pids[i] == pid) {
      known = true;
      if (g_seen[i])
        fresh = false;
      g_seen[i] = true;
    }
  VF_ENSURES(known, "a process id of the table");
  return fresh;
}
void h_pid_insert(void) {
  mdbx_pid_t l[6];
  VF_IN(unsigned, n);
  VF_IN(uint32_t, pid);
  VF_IN(uint32_t, a);
  VF_IN(uint32_t, b);
  VF_IN(uint32_t, c);
  VF_IN(uint32_t, d);
  VF_REQUIRES(n <= 4 && a && pid < 0x40000000 && pid && d < 0x40000000);
  VF_REQUIRES(VF_IMPLIES(n >= 2, a < b) && VF_IMPLIES(n >= 3, b < c) && VF_IMPLIES(n >= 4, c < d));
  VF_REQUIRES(a < 0x40000000 && b < 0x40000000 && c < 0x40000000); /* PID_MAX_LIMIT is 2^22 */
  l[0] = n, l[1] = a, l[2] = b, l[3] = c, l[4] = d, l[5] = 0;
  const bool had = (n >= 1 && a == pid) || (n >= 2 && b == pid) || (n >= 3 && c == pid) || (n >= 4 && d == pid);
  const bool r = pid_insert(l, pid);
  VF_ENSURES(r == !had, "a process id is inserted unless it is in the list");
  VF_ENSURES(l[0] == n + (had ? 0 : 1), "the length follows");
  bool in = false, ka = false, kb = false, kc = false, kd = false;
  for (unsigned i = 1; i <= 5; ++i)
    if (i <= l[0]) {
      in |= l[i] == pid, ka |= l[i] == a, kb |= l[i] == b, kc |= l[i] == c, kd |= l[i] == d;
      if (i > 1)
        VF_ENSURES(l[i - 1] < l[i], "the list stays sorted");
    }
  VF_ENSURES(in && (n < 1 || ka) && (n < 2 || kb) && (n < 3 || kc) && (n < 4 || kd), "it holds the new id and all the old ones");
  VF_REACH("pid");
}
void h_dead(void) {
  for (unsigned i = 0; i < NS; ++i)
    g_seen[i] = false;
  const unsigned n = NS;
  VF_IN(int, lrc);
  VF_IN(int, cerr);
  VF_BOOL(locked);
  VF_REQUIRES((lrc == MDBX_SUCCESS || lrc == MDBX_RESULT_TRUE || lrc == MDBX_PANIC) && cerr > 0 && cerr < 4096);
  table(NS);
  VF_IN(uint32_t, self);
  VF_REQUIRES(self > 0 && self < 0x40000000);
  g_env.pid = self;
  uint64_t before[NS];
  uint32_t pid0[NS];
  bool err = false;
  for (unsigned i = 0; i < NS; ++i) {
    VF_IN(unsigned char, live);
    VF_REQUIRES(live <= 2);
    VF_REQUIRES(g_lck->rdt[i].pid.weak < 0x40000000);
    g_live[i] = live, g_pids[i] = pid0[i] = g_lck->rdt[i].pid.weak, before[i] = g_lck->rdt[i].txnid.weak;
    for (unsigned j = 0; j < i; ++j)
      if (g_pids[j] == g_pids[i])
        VF_REQUIRES(g_live[j] == g_live[i]);
    if (i < n && pid0[i] && pid0[i] != self && live == 2)
      err = true;
  }
  g_lockrc = lrc, g_chkerr = cerr, g_locked = locked, g_unlocked = false;
  int dead = -1;
  const int rc = mvcc_cleanup_dead(&g_env, locked, &dead);
  unsigned cleared = 0;
  for (unsigned i = 0; i < NS; ++i) {
    const uint32_t now = g_lck->rdt[i].pid.weak;
    VF_ENSURES(now == pid0[i] || (now == 0 && i < n && pid0[i] != self && g_live[i] == 0), "only slots of dead processes are dropped");
    VF_ENSURES(g_lck->rdt[i].txnid.weak == before[i], "no snapshot id is changed");
    cleared += now != pid0[i];
    if (rc == MDBX_SUCCESS && !err && lrc == MDBX_SUCCESS)
      VF_ENSURES(VF_IMPLIES(i < n && pid0[i] && pid0[i] != self && !g_live[i], now == 0), "all of them are");
  }
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, (unsigned)dead == cleared), "their number is reported");
  VF_ENSURES(VF_IMPLIES(cleared, g_lck->rdt_refresh_flag.weak != SIG), "the barrier is requested to be recomputed");
  VF_ENSURES(VF_IMPLIES(cleared, g_locked), "the table is changed only under its lock");
  VF_ENSURES(g_unlocked == (!locked && g_locked), "the lock is released if it was taken here");
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, !err || lrc != MDBX_SUCCESS), "an error of the check is reported");
  VF_REACH("cleanup");
}
#endif
