/* C18: a page is used only after its bounds are checked */
#include "common.h"
int vf_bad_page(const page_t *mp, const char *fmt, ...) {
  (void)mp;
  (void)fmt;
  return MDBX_CORRUPTED;
}
#define KIND_ANY 0
#define KIND_THREE 1
#define KIND_LARGE 2
/* what a page header has to satisfy; `limit` is the end of the allocated space */
static bool header_ok(int kind, uint64_t txnid, unsigned flags, unsigned lower, unsigned upper, uint64_t pages, uint64_t pgno, uint64_t ps, uint64_t limit, uint64_t front,
                      uint64_t txn_front, uint64_t txn_id) {
  const unsigned types = P_BRANCH | P_LEAF | P_DUPFIX | P_LARGE;
  if (flags & ~(types | P_SPILLED) & 0xffff)
    return false; /* unknown bits */
  if (kind == KIND_THREE && (flags & P_LARGE))
    return false;
  if (kind == KIND_LARGE && (flags & (P_BRANCH | P_LEAF | P_DUPFIX)))
    return false;
  if (txnid > front && (txnid > txn_front || front < txn_id))
    return false; /* from the future of the tree it is in */
  if (kind == KIND_LARGE || (kind == KIND_ANY && (flags & types) == P_LARGE) || (kind == KIND_ANY && (flags & P_LARGE)))
    return pages >= 1 && pages < (uint64_t)MAX_PAGENO / 2 && pgno + pages <= limit;
  return lower <= upper && !(lower & 1) && PAGEHDRSZ + (uint64_t)upper <= ps;
}

/* ---- the header check, all page sizes ---- */
static MDBX_env g_env;
static MDBX_txn g_txn, g_parent;
static MDBX_cursor g_mc;
static union {
  uint64_t align[32];
  unsigned char b[256];
} g_hdr;
static void hdr(int kind) {
  page_t *const p = (page_t *)&g_hdr;
  VF_IN(unsigned, ln);
  VF_IN(uint64_t, txnid);
  VF_IN(uint16_t, flags);
  VF_IN(uint32_t, bounds);
  VF_IN(uint32_t, pgno);
  VF_IN(uint32_t, limit);
  VF_IN(uint64_t, front);
  VF_IN(uint64_t, tfront);
  VF_IN(uint64_t, tid);
  VF_REQUIRES(ln >= 8 && ln <= 16 && limit <= MAX_PAGENO + 1u && pgno < limit);
  VF_REQUIRES(front <= tfront && tid <= tfront);
  g_env.ps = 1u << ln, g_env.ps2ln = ln;
  g_txn.env = &g_env, g_txn.geo.first_unallocated = limit, g_txn.front_txnid = tfront, g_txn.txnid = tid;
  p->txnid = txnid, p->flags = flags, p->pages = bounds, p->pgno = pgno;
  const uint16_t ILL = kind == KIND_ANY ? P_ILL_BITS : kind == KIND_THREE ? P_ILL_BITS | P_LARGE : P_ILL_BITS | P_BRANCH | P_LEAF | P_DUPFIX;
  const int rc = check_page_header(ILL, p, &g_txn, front);
  const bool ok = header_ok(kind, txnid, flags, bounds & 0xffff, bounds >> 16, bounds, pgno, g_env.ps, limit, front, tfront, tid);
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, ok), "a header is accepted only when its type, age and bounds are consistent");
  VF_ENSURES(VF_IMPLIES(ok, rc == MDBX_SUCCESS), "a consistent header is accepted");
  VF_ENSURES(rc == MDBX_SUCCESS || rc == MDBX_CORRUPTED, "otherwise the page is corrupted");
  VF_ENSURES(p->txnid == txnid && p->flags == flags && p->pages == bounds && p->pgno == pgno, "the page is only read");
  if (rc == MDBX_SUCCESS)
    VF_REACH("accepted");
  else
    VF_REACH("refused");
}
void h_hdr_any(void) { hdr(KIND_ANY); }
void h_hdr_three(void) { hdr(KIND_THREE); }
void h_hdr_large(void) { hdr(KIND_LARGE); }

/* ---- fetching a page: the file of up to 6 pages, private copies of a transaction and of its parent ---- */
#define NP 6
#define PS 256
static union page256 {
  uint64_t align[PS / 8];
  unsigned char b[PS];
} g_map[NP], g_copy[2];
static MDBX_txn g_t[2];
static bool g_spilled[2], g_dirty[2];
static pgno_t g_asked;
size_t vf_spill_search(const MDBX_txn *txn, pgno_t pgno) {
  VF_ENSURES(pgno == g_asked, "the page asked for");
  return txn == &g_t[0] ? g_spilled[0] : g_spilled[1];
}
static dpl_t *g_dl[2];
size_t vf_dpl_search(const MDBX_txn *txn, pgno_t pgno) {
  VF_ENSURES(pgno == g_asked, "the page asked for");
  const unsigned k = txn == &g_t[0] ? 0 : 1;
  return g_dirty[k] ? 1 : 2; /* 2: the entry of a greater page number */
}
static int g_pgcheck_rc;
static unsigned g_pgcheck_calls;
int vf_page_check(const MDBX_cursor *const mc, const page_t *const mp) {
  (void)mc;
  (void)mp;
  g_pgcheck_calls++;
  return g_pgcheck_rc;
}
static void rndhdr(union page256 *m) {
  VF_IN(uint64_t, w0);
  VF_IN(uint64_t, w1);
  VF_IN(uint32_t, w2);
  m->align[0] = w0, m->align[1] = w1, m->align[2] = w2;
}
static void get(int kind) {
  VF_IN(pgno_t, pgno);
  VF_IN(pgno_t, limit);
  VF_IN(uint64_t, front);
  VF_IN(uint64_t, tfront);
  VF_IN(uint64_t, tid);
  VF_IN(unsigned, state);
  VF_IN(unsigned, flags0);
  VF_IN(unsigned, flags1);
  VF_IN(int, checkrc);
  VF_REQUIRES(limit <= NP && front <= tfront && tid <= tfront);
  VF_REQUIRES(checkrc == MDBX_SUCCESS || checkrc == MDBX_CORRUPTED);
  for (unsigned i = 0; i < NP; ++i)
    rndhdr(&g_map[i]);
  for (unsigned i = 0; i < 2; ++i)
    rndhdr(&g_copy[i]);
  const bool readonly = state & 1, writemap = (state & 2) && !readonly, nested = (state & 4) && !readonly, check = state & 8;
  g_env.ps = PS, g_env.ps2ln = 8, g_env.dxb_mmap.base = g_map, g_env.flags = writemap ? MDBX_WRITEMAP : 0;
  g_asked = pgno, g_pgcheck_rc = checkrc, g_pgcheck_calls = 0;
  for (unsigned k = 0; k < 2; ++k) {
    VF_BOOL(sp);
    VF_BOOL(di);
    const bool f_sp = (k ? flags1 : flags0) & 1, f_di = (k ? flags1 : flags0) & 2;
    g_spilled[k] = sp && f_sp && !readonly && !writemap, g_dirty[k] = di && f_di && !readonly && !writemap;
    g_t[k].env = &g_env, g_t[k].geo.first_unallocated = limit, g_t[k].front_txnid = tfront, g_t[k].txnid = tid;
    g_t[k].flags = (readonly ? MDBX_TXN_RDONLY : 0) | (writemap ? MDBX_WRITEMAP : 0) | (f_sp && !readonly && !writemap ? MDBX_TXN_SPILLS : 0) | (f_di && !readonly && !writemap ? MDBX_TXN_DIRTY : 0);
    g_dl[k] = (dpl_t *)malloc(sizeof(dpl_t) + 4 * sizeof(dp_t));
    __CPROVER_assume(g_dl[k] != NULL);
    g_dl[k]->length = 2, g_dl[k]->sorted = 2;
    g_dl[k]->items[0].pgno = 0;
    g_dl[k]->items[1].pgno = pgno, g_dl[k]->items[1].ptr = (page_t *)&g_copy[k];
    g_dl[k]->items[2].pgno = pgno + 1, g_dl[k]->items[2].ptr = NULL;
    g_dl[k]->items[3].pgno = P_INVALID;
    g_t[k].wr.dirtylist = g_dl[k];
  }
  g_t[0].parent = nested ? &g_t[1] : NULL, g_t[1].parent = NULL;
  g_mc.txn = &g_t[0], g_mc.checking = check ? z_pagecheck : 0;
  const unsigned tf = g_t[0].flags;
  const pgr_t r = kind == KIND_ANY ? page_get_any(&g_mc, pgno, front) : kind == KIND_THREE ? page_get_three(&g_mc, pgno, front) : page_get_large(&g_mc, pgno, front);
  if (pgno >= limit) {
    VF_ENSURES(r.err == MDBX_PAGE_NOTFOUND && r.page == NULL, "a page beyond the allocated space is not returned");
    VF_ENSURES(g_t[0].flags == (tf | MDBX_TXN_ERROR), "the transaction is marked as failed");
    VF_REACH("beyond");
    return;
  }
  const union page256 *src = &g_map[pgno];
  if (g_spilled[0])
    ;
  else if (g_dirty[0])
    src = &g_copy[0];
  else if (nested && g_spilled[1])
    ;
  else if (nested && g_dirty[1])
    src = &g_copy[1];
  const page_t *const p = (const page_t *)src;
  const bool ok = p->pgno == pgno && header_ok(kind, p->txnid, p->flags, p->lower, p->upper, p->pages, p->pgno, PS, limit, front, tfront, tid) && (!check || checkrc == MDBX_SUCCESS);
  VF_ENSURES(VF_IMPLIES(r.err == MDBX_SUCCESS, ok), "a page is returned only when its number, type, age and bounds are consistent");
  VF_ENSURES(VF_IMPLIES(ok, r.err == MDBX_SUCCESS), "a consistent page is returned");
  VF_ENSURES(VF_IMPLIES(r.err == MDBX_SUCCESS, r.page == p && g_t[0].flags == tf), "it is the newest version: the private copy of the transaction, then of its parent, then the file");
  VF_ENSURES(VF_IMPLIES(r.err != MDBX_SUCCESS, r.err == MDBX_CORRUPTED && (g_t[0].flags & MDBX_TXN_ERROR)), "otherwise the transaction fails as corrupted");
  VF_ENSURES(VF_IMPLIES(check && r.err == MDBX_SUCCESS, g_pgcheck_calls == 1), "in the validation mode the contents are checked too");
  if (r.err == MDBX_SUCCESS)
    VF_REACH("returned");
}
void h_get_any(void) { get(KIND_ANY); }
void h_get_three(void) { get(KIND_THREE); }
void h_get_large(void) { get(KIND_LARGE); }
