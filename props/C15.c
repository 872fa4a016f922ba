/* C15: size and page-count conversions */
#include "common.h"

/* ---- packed page counts ------------------------------------------------------------------ */
void h_pv_roundtrip(void) {
  VF_IN(uint16_t, pv);
  const pgno_t pages = pv2pages(pv);
  const uint16_t back = pages2pv(pages);
  VF_ENSURES(pv2pages(back) == pages, "a decoded page count is reproduced by encoding it again");
  VF_ENSURES(VF_IMPLIES(pages < 32769, back == pages), "small counts are stored verbatim");
  VF_REACH("pv_roundtrip");
}

/* largest count representable without saturation */
#define PV_MAX ((size_t)32768 + ((size_t)2047 << 15))
void h_pv_encode(void) {
  VF_IN(size_t, pages);
  const uint16_t pv = pages2pv(pages);
  const size_t got = pv2pages(pv);
  VF_ENSURES(VF_IMPLIES(pages <= PV_MAX, got >= pages), "encoding never loses pages");
  VF_ENSURES(VF_IMPLIES(pages > PV_MAX, got == PV_MAX), "encoding saturates");
  VF_ENSURES(VF_IMPLIES(pages < 32769, got == pages), "small page counts are exact");
  VF_ENSURES(VF_IMPLIES(pages < 65536 && (pages & 1) == 0, got == pages), "even page counts below 65536 are exact");
  VF_ENSURES(VF_IMPLIES(pages <= PV_MAX && pages > 32768, got - pages < 256 || (got - pages) < (pages - 32768) >> 9),
             "encoding is tight");
  VF_ENSURES(pages2pv(got) == pv || pv2pages(pages2pv(got)) == got, "encoded value is stable");
  VF_REACH("pv_encode");
}

/* ---- rounding ------------------------------------------------------------------------------ */
void h_rounding(void) {
  VF_IN(size_t, v);
  VF_IN(unsigned, gl);
  VF_IN(size_t, k);
  VF_REQUIRES(gl < 32);
  const size_t g = (size_t)1 << gl, mask = g - 1;
  const size_t f = floor_powerof2(v, g);
  VF_ENSURES((f & mask) == 0 && f <= v && v - f < g, "floor_powerof2 is the greatest multiple not above");
  VF_REQUIRES(v <= SIZE_MAX - g);
  const size_t c = ceil_powerof2(v, g);
  VF_ENSURES((c & mask) == 0 && c >= v && c - v < g, "ceil_powerof2 is the least multiple not below");
  VF_ENSURES(VF_IMPLIES(k && k < 64, is_powerof2((size_t)1 << k)), "is_powerof2 accepts powers of two");
  VF_ENSURES(is_powerof2(v) == (v == 0 || (v & (v - 1)) == 0), "is_powerof2");
  VF_REACH("rounding");
}

static void env_units(MDBX_env *env, unsigned psl, unsigned sysl, unsigned agl) {
  env->ps = 1u << psl, env->ps2ln = psl;
  globals.sys_pagesize = 1u << sysl, globals.sys_allocation_granularity = 1u << agl;
}

void h_page_units(void) {
  VF_NEW(MDBX_env, env);
  VF_IN(unsigned, psl);
  VF_IN(unsigned, sysl);
  VF_IN(unsigned, agl);
  VF_REQUIRES(psl >= 8 && psl <= 16 && sysl >= 10 && sysl <= 16 && agl >= sysl && agl <= 20);
  env_units(env, psl, sysl, agl);
  VF_IN(pgno_t, pgno);
  VF_IN(size_t, bytes);
  VF_REQUIRES(pgno <= MAX_PAGENO && bytes <= ((size_t)MAX_PAGENO << psl));
  const size_t ps = (size_t)1 << psl, sp = (size_t)1 << sysl, ag = (size_t)1 << agl;
  VF_ENSURES(pgno2bytes(env, pgno) == (size_t)pgno * ps, "pgno2bytes");
  VF_ENSURES((size_t)bytes2pgno(env, bytes) << psl <= bytes && bytes - ((size_t)bytes2pgno(env, bytes) << psl) < ps, "bytes2pgno floors");
  VF_ENSURES(bytes2pgno(env, pgno2bytes(env, pgno)) == pgno, "page number round trip");

  const size_t u = ps > sp ? ps : sp;
  size_t r = bytes_ceil2sp_bytes(env, bytes);
  VF_ENSURES(r >= bytes && r - bytes < u && (r & (u - 1)) == 0, "bytes_ceil2sp_bytes");
  VF_ENSURES(bytes_ceil2sp_pgno(env, bytes) == (pgno_t)(r >> psl), "bytes_ceil2sp_pgno");
  r = pgno_ceil2sp_bytes(env, pgno);
  VF_ENSURES(r >= (size_t)pgno * ps && r - (size_t)pgno * ps < sp && (r & (sp - 1)) == 0, "pgno_ceil2sp_bytes");
  VF_ENSURES(pgno_ceil2sp_pgno(env, pgno) >= pgno && (size_t)pgno_ceil2sp_pgno(env, pgno) << psl == r || r % ps, "pgno_ceil2sp_pgno");

  const size_t unit = MDBX_ROUNDING_TO_ALLOCATION_GRANULARITY ? ag : sp, uo = ps > unit ? ps : unit;
  r = bytes_ceil2os_bytes(env, bytes);
  VF_ENSURES(r >= bytes && r - bytes < uo && (r & (uo - 1)) == 0, "bytes_ceil2os_bytes");
  VF_ENSURES(bytes_ceil2os_pgno(env, bytes) == (pgno_t)(r >> psl), "bytes_ceil2os_pgno");
  r = pgno_ceil2os_bytes(env, pgno);
  VF_ENSURES(r >= (size_t)pgno * ps && r - (size_t)pgno * ps < unit && (r & (unit - 1)) == 0, "pgno_ceil2os_bytes");
  VF_ENSURES(pgno_ceil2os_pgno(env, pgno) == (pgno_t)(r >> psl) && pgno_ceil2os_pgno(env, pgno) >= pgno, "pgno_ceil2os_pgno");

  VF_REQUIRES(bytes > 0 && bytes <= MAX_MAPSIZE / 2);
  const size_t n = largechunk_npages(env, bytes);
  VF_ENSURES(n * ps >= bytes + PAGEHDRSZ && (n - 1) * ps < bytes + PAGEHDRSZ, "a big value gets exactly the pages it needs");
  VF_REACH("page_units");
}

void h_logs(void) {
  VF_IN(size_t, v);
  VF_REQUIRES(v > 0 && v < INT32_MAX);
  VF_REQUIRES(v <= (1ul << 30));
  const unsigned l = ceil_log2n(v);
  VF_ENSURES(l < 31 && ((size_t)1 << l) >= v && (l == 0 || ((size_t)1 << (l - 1)) < v), "ceil_log2n");
  VF_REQUIRES((v & (v - 1)) == 0);
  VF_ENSURES((size_t)1 << log2n_powerof2(v) == v, "log2n_powerof2");
  VF_REACH("logs");
}
