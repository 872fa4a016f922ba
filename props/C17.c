/* C17: file I/O transfers exactly the requested bytes or reports an error */
#define _GNU_SOURCE 1
#define _FILE_OFFSET_BITS 64
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
/* ---- ghost file: one request is the byte range [g_off, g_off + g_bytes) taken from / put to g_buf ---- */
static const unsigned char *g_buf;
static uint64_t g_off;
static size_t g_bytes, g_cov; /* g_cov: bytes transferred so far, always a prefix of the request */
static int g_errno, g_fd;
static unsigned g_calls, g_maxcalls;
static bool g_err; /* an error other than EINTR was reported by the OS */
static bool g_data_synced, g_size_synced, g_full;
#include "common.h"
#include <sys/uio.h>
int *vf_errno(void) { return &g_errno; }

extern ssize_t vf_nondet_ssize(void);
extern int vf_nondet_errno(void);
/* contract of the OS: any prefix of the request may be transferred, or any error occurs */
#ifndef VF_NATIVE
static ssize_t os(size_t n) {
  const ssize_t r = vf_nondet_ssize();
  __CPROVER_assume(r >= -1 && (r < 0 || (size_t)r <= n) && (n == 0 || r != 0));
  if (r < 0) {
    g_errno = vf_nondet_errno();
    __CPROVER_assume(g_errno > 0 && g_errno < 4096);
    __CPROVER_assume(!g_maxcalls || ++g_calls < g_maxcalls || g_errno != EINTR);
    if (g_errno != EINTR)
      g_err = true;
  }
  return r;
}
#else
static ssize_t os(size_t n) { return (ssize_t)n; }
#endif
ssize_t vf_pread(int fd, void *b, size_t n, off_t off) {
  VF_ENSURES(fd == g_fd && b == (void *)g_buf && n == g_bytes && (uint64_t)off == g_off, "the whole request is passed to the OS");
  const ssize_t r = os(n);
  if (r > 0)
    g_cov = (size_t)r;
  return r;
}
ssize_t vf_pwrite(int fd, const void *b, size_t n, off_t off) {
  VF_ENSURES(fd == g_fd, "the file asked for");
  VF_ENSURES((const unsigned char *)b == g_buf + g_cov, "each step takes the bytes that follow the ones already written");
  VF_ENSURES((uint64_t)off == g_off + g_cov, "each step continues at the file position of those bytes");
  VF_ENSURES(n <= g_bytes - g_cov && (n || !g_bytes), "a step never goes past the end of the request");
  const ssize_t r = os(n);
  if (r > 0)
    g_cov += (size_t)r;
  return r;
}
ssize_t vf_write(int fd, const void *b, size_t n) { return vf_pwrite(fd, b, n, (off_t)(g_off + g_cov)); }

static void request(void) {
  VF_IN(size_t, bytes);
  VF_IN(uint64_t, off);
  VF_IN(int, fd);
  VF_IN(int, e0);
  VF_REQUIRES(bytes <= (size_t)1 << 40 && off <= (uint64_t)1 << 48 && fd > 2);
  static unsigned char mem[1];
#ifdef VF_FIND
  g_buf = mem;
#else
  unsigned char *b = malloc(bytes + 1);
  __CPROVER_assume(b != NULL);
  g_buf = b;
#endif
  g_bytes = bytes, g_off = off, g_fd = fd, g_cov = 0, g_err = false, g_errno = e0, g_calls = g_maxcalls = 0;
}
void h_pread(void) {
  request();
  const int rc = osal_pread(g_fd, (void *)g_buf, g_bytes, g_off);
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, g_cov == g_bytes), "success only when everything was read");
  VF_ENSURES(VF_IMPLIES(rc != MDBX_SUCCESS, g_cov < g_bytes || (g_bytes == 0 || g_bytes > MAX_WRITE || g_err || g_errno == EINTR)), "an error is reported only when something is missing");
  VF_REACH("pread");
  if (rc == 0)
    VF_REACH("pread succeeds");
}
void h_pwrite(void) {
  request();
  const int rc = osal_pwrite(g_fd, g_buf, g_bytes, g_off);
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, g_cov == g_bytes), "success only when every byte was written");
  VF_ENSURES(VF_IMPLIES(rc != MDBX_SUCCESS, g_err && rc == g_errno), "an error is the one of the OS, an interruption is not an error");
  VF_REACH("pwrite");
  if (rc == 0)
    VF_REACH("pwrite succeeds");
}
void h_write(void) {
  request();
  const int rc = osal_write(g_fd, g_buf, g_bytes);
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, g_cov == g_bytes), "success only when every byte was written");
  VF_ENSURES(VF_IMPLIES(rc != MDBX_SUCCESS, g_err && rc == g_errno), "an error is the one of the OS, an interruption is not an error");
  VF_REACH("write");
  if (rc == 0)
    VF_REACH("write succeeds");
}

/* ---- vectored write ------------------------------------------------------------------------------- */
#define NV 4
static struct iovec g_iov[NV];
static size_t g_n;
ssize_t vf_pwritev(int fd, const struct iovec *v, int n, off_t off) {
  VF_ENSURES(fd == g_fd && v == g_iov && (size_t)n == g_n && (uint64_t)off == g_off, "the whole vector is written at the offset asked for");
  const ssize_t r = os(g_bytes);
  g_full = r >= 0 && (size_t)r == g_bytes;
  return r;
}
void h_pwritev(void) {
  request();
  VF_IN(size_t, n);
  VF_REQUIRES(n >= 1 && n <= NV);
  size_t total = 0;
  for (size_t i = 0; i < NV; ++i) {
    VF_IN(size_t, len);
    VF_REQUIRES(len > 0 && len <= MAX_WRITE);
    g_iov[i].iov_base = (void *)g_buf, g_iov[i].iov_len = len;
    if (i < n)
      total += len;
  }
  g_n = n, g_bytes = total, g_full = false, g_maxcalls = 0;
  const int rc = osal_pwritev(g_fd, g_iov, n, g_off);
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, g_full), "success only when the last attempt wrote the whole vector");
  VF_ENSURES(VF_IMPLIES(g_full, rc == MDBX_SUCCESS), "a complete write is a success");
  VF_REACH("pwritev");
  if (rc == 0)
    VF_REACH("pwritev succeeds");
}

/* ---- flush ---------------------------------------------------------------------------------------- */
int vf_fdatasync(int fd) {
  VF_ENSURES(fd == g_fd, "the file asked for");
  const ssize_t r = os(0);
  if (r == 0)
    g_data_synced = true;
  return (int)r;
}
int vf_fsync(int fd) {
  VF_ENSURES(fd == g_fd, "the file asked for");
  const ssize_t r = os(0);
  if (r == 0)
    g_data_synced = g_size_synced = true;
  return (int)r;
}
void h_fsync(void) {
  request();
  VF_IN(unsigned, mode);
  VF_REQUIRES(mode <= (MDBX_SYNC_KICK | MDBX_SYNC_DATA | MDBX_SYNC_SIZE | MDBX_SYNC_IODQ));
  globals.linux_kernel_version = 0x03060000;
  g_data_synced = g_size_synced = false;
  const int rc = osal_fsync(g_fd, (enum osal_syncmode_bits)mode);
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS && (mode & MDBX_SYNC_DATA), g_data_synced), "success only when the data was flushed");
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS && (mode & MDBX_SYNC_SIZE) && (mode & MDBX_SYNC_DATA), g_size_synced), "and the file size, when asked for");
  VF_ENSURES(VF_IMPLIES(rc != MDBX_SUCCESS, g_err && rc == g_errno), "an error is the one of the OS, an interruption is not an error");
  VF_REACH("fsync");
  if (rc == 0)
    VF_REACH("fsync succeeds");
}

/* ---- the write queue ------------------------------------------------------------------------------- */
#define NI 4
static ior_item_t g_pool[NI];
static osal_ioring_t g_ior;
static unsigned char g_data[64];
#define IOV(item, j) ((item)->sgv + (j))
/* The queue is a sequence of items, each a file offset and a list of memory segments; the abstract content is the
 * list of (file position, memory, length) triples.  One addition appends exactly one triple or extends the last. */
static void ior_add(const unsigned sgv) {
  VF_IN(unsigned, used);       /* slots used before */
  VF_IN(unsigned, lastslot);   /* its place */
  VF_IN(unsigned, iovmax);
  VF_IN(size_t, off0);
  VF_IN(size_t, off);
  VF_IN(size_t, bytes);
  VF_IN(unsigned, da);
  VF_BOOL(empty);
  VF_REQUIRES(sgv >= 1 && sgv <= 3 && lastslot < NI && used >= lastslot + sgv && used <= NI && iovmax >= 1 && iovmax <= 4096);
  VF_REQUIRES(lastslot == 0); /* the items before the last one are only read by the writer */
  osal_iov_max = iovmax;
  VF_REQUIRES(bytes > 0 && bytes <= MAX_WRITE && bytes % 256 == 0 && off % 256 == 0 && off0 % 256 == 0 && off <= (size_t)1 << 46 && off0 <= (size_t)1 << 46);
  VF_REQUIRES(da < sizeof(g_data));
  size_t total = 0, len[3];
  void *base[3];
  for (unsigned j = 0; j < 3; ++j) {
    VF_IN(size_t, l);
    VF_IN(unsigned, a);
    VF_REQUIRES(l > 0 && l <= MAX_WRITE && l % 256 == 0 && a < sizeof(g_data));
    len[j] = l, base[j] = g_data + a;
    if (j < sgv)
      total += l;
  }
  VF_REQUIRES(total <= MAX_WRITE);
  g_ior.pool = g_pool, g_ior.allocated = NI;
  if (empty) {
    g_ior.last = NULL, g_ior.slots_left = NI;
    VF_IN(unsigned, junk);
    g_ior.last_bytes = junk;
  } else {
    g_ior.last = g_pool, g_ior.slots_left = NI - used, g_ior.last_bytes = (unsigned)total;
    g_pool[0].offset = off0, g_pool[0].sgvcnt = sgv;
    for (unsigned j = 0; j < 3; ++j)
      if (j < sgv)
        IOV(g_pool, j)->iov_base = base[j], IOV(g_pool, j)->iov_len = len[j];
  }
  const unsigned left0 = g_ior.slots_left;
  void *const data = g_data + da;
  const int rc = osal_ioring_add(&g_ior, off, data, bytes);
  VF_ENSURES(rc == MDBX_SUCCESS || (rc == MDBX_RESULT_TRUE && left0 == 0), "an addition fails only when the queue is full");
  if (rc != MDBX_SUCCESS) {
    VF_ENSURES(!empty && g_ior.last == g_pool && g_pool[0].offset == off0 && g_pool[0].sgvcnt == sgv && g_ior.slots_left == left0 && g_ior.last_bytes == total, "then nothing changes");
    VF_REACH("queue full");
    return;
  }
  if (empty) {
    VF_ENSURES(g_ior.last == g_pool && g_pool[0].offset == off && g_pool[0].sgvcnt == 1 && g_pool[0].sgv[0].iov_base == data && g_pool[0].sgv[0].iov_len == bytes,
               "the first addition is queued as given");
    VF_ENSURES(g_ior.last_bytes == bytes && g_ior.slots_left == NI - 1, "the accounting follows");
  } else if (g_ior.last == g_pool) { /* continues the last item */
    VF_ENSURES(off == off0 + total && g_pool[0].offset == off0, "an item is continued only by the bytes that follow it in the file");
    VF_ENSURES(g_ior.last_bytes == total + bytes && total + bytes <= MAX_WRITE, "the length of the item is kept");
    for (unsigned j = 0; j < 3; ++j)
      if (j < sgv) {
        VF_ENSURES(IOV(g_pool, j)->iov_base == base[j], "segments stay in place");
        if (g_pool[0].sgvcnt == sgv && j == sgv - 1)
          VF_ENSURES(IOV(g_pool, j)->iov_len == len[j] + bytes && (char *)base[j] + len[j] == (char *)data, "a segment is continued only by the bytes that follow it in memory");
        else
          VF_ENSURES(IOV(g_pool, j)->iov_len == len[j], "other segments keep their length");
      }
    if (g_pool[0].sgvcnt != sgv) {
      VF_ENSURES(g_pool[0].sgvcnt == sgv + 1 && sgv < iovmax && g_ior.slots_left == left0 - 1, "one segment is added within the limit of the OS");
      VF_ENSURES(IOV(g_pool, sgv)->iov_base == data && IOV(g_pool, sgv)->iov_len == bytes, "it is the one given");
    } else
      VF_ENSURES(g_ior.slots_left == left0, "no slot is taken");
  } else {
    const ior_item_t *const it = g_ior.last;
    VF_ENSURES((char *)it == (char *)g_pool + sizeof(ior_item_t) + (sgv - 1) * sizeof(struct iovec), "a new item follows the last one");
    VF_ENSURES(it->offset == off && it->sgvcnt == 1 && it->sgv[0].iov_base == data && it->sgv[0].iov_len == bytes, "the new item is the one given");
    VF_ENSURES(g_ior.last_bytes == bytes && g_ior.slots_left == left0 - 1, "the accounting follows");
    VF_ENSURES(g_pool[0].offset == off0 && g_pool[0].sgvcnt == sgv, "the last item stays");
    for (unsigned j = 0; j < 3; ++j)
      if (j < sgv)
        VF_ENSURES(IOV(g_pool, j)->iov_base == base[j] && IOV(g_pool, j)->iov_len == len[j], "with its segments");
  }
  VF_REACH("queued");
}
void h_ior_add(void) {
  VF_IN(unsigned, n); /* segments of the last item */
  if (n == 1)
    ior_add(1);
  else if (n == 2)
    ior_add(2);
  else
    ior_add(3);
}

/* writing out: every item once, in order; the first error stops and is reported */
static struct {
  const void *base;
  size_t len, off, n;
} g_log[4];
static unsigned g_nlog;
static int g_iorc[4];
int vf_opwrite(mdbx_filehandle_t fd, const void *buf, size_t bytes, uint64_t offset) {
  VF_ENSURES(fd == g_fd && g_nlog < 4, "the file asked for");
  g_log[g_nlog].base = buf, g_log[g_nlog].len = bytes, g_log[g_nlog].off = offset, g_log[g_nlog].n = 1;
  return g_iorc[g_nlog++];
}
int vf_opwritev(mdbx_filehandle_t fd, struct iovec *iov, size_t n, uint64_t offset) {
  VF_ENSURES(fd == g_fd && g_nlog < 4, "the file asked for");
  g_log[g_nlog].base = iov, g_log[g_nlog].len = 0, g_log[g_nlog].off = offset, g_log[g_nlog].n = n;
  return g_iorc[g_nlog++];
}
struct item2 { /* an item of two segments */
  size_t offset, sgvcnt;
  struct iovec sgv[2];
};
static union {
  struct { ior_item_t a; struct item2 b; ior_item_t c; } x;
  struct { struct item2 a; ior_item_t b; ior_item_t c; } y;
  ior_item_t flat[4];
} g_q;
static void queue(bool two_first, unsigned items, size_t off[3], size_t len[3]) {
  for (unsigned j = 0; j < 3; ++j) {
    VF_IN(size_t, o);
    VF_IN(size_t, l);
    VF_IN(int, e);
    VF_REQUIRES(l > 0 && l <= MAX_WRITE && e >= 0);
    off[j] = o, len[j] = l, g_iorc[j] = e;
  }
  g_ior.pool = g_q.flat, g_ior.allocated = 4, g_ior.slots_left = 0;
  if (two_first) {
    g_q.y.a.offset = off[0], g_q.y.a.sgvcnt = 2, g_q.y.b.offset = off[1], g_q.y.b.sgvcnt = 1, g_q.y.c.offset = off[2], g_q.y.c.sgvcnt = 1;
    g_q.y.b.sgv[0].iov_base = g_data + 1, g_q.y.b.sgv[0].iov_len = len[1], g_q.y.c.sgv[0].iov_base = g_data + 2, g_q.y.c.sgv[0].iov_len = len[2];
    g_q.y.a.sgv[0].iov_base = g_data + 3, g_q.y.a.sgv[0].iov_len = len[0], g_q.y.a.sgv[1].iov_base = g_data + 5, g_q.y.a.sgv[1].iov_len = len[0];
    g_ior.last = items == 1 ? (ior_item_t *)&g_q.y.a : items == 2 ? &g_q.y.b : &g_q.y.c;
  } else {
    g_q.x.a.offset = off[0], g_q.x.a.sgvcnt = 1, g_q.x.b.offset = off[1], g_q.x.b.sgvcnt = 2, g_q.x.c.offset = off[2], g_q.x.c.sgvcnt = 1;
    g_q.x.a.sgv[0].iov_base = g_data + 1, g_q.x.a.sgv[0].iov_len = len[0], g_q.x.c.sgv[0].iov_base = g_data + 2, g_q.x.c.sgv[0].iov_len = len[2];
    g_q.x.b.sgv[0].iov_base = g_data + 3, g_q.x.b.sgv[0].iov_len = len[1], g_q.x.b.sgv[1].iov_base = g_data + 5, g_q.x.b.sgv[1].iov_len = len[1];
    g_ior.last = items == 1 ? &g_q.x.a : items == 2 ? (ior_item_t *)&g_q.x.b : &g_q.x.c;
  }
}
static void ior_write(bool two_first, unsigned items) {
  size_t off[3], len[3];
  VF_IN(int, fd);
  queue(two_first, items, off, len);
  g_fd = fd, g_nlog = 0;
  const osal_ioring_write_result_t r = osal_ioring_write(&g_ior, fd);
  unsigned expect = items;
  for (unsigned j = items; j-- > 0;)
    if (g_iorc[j])
      expect = j + 1;
  const int rc = g_iorc[expect - 1];
  VF_ENSURES(r.err == rc, "the result is the first error, or success");
  VF_ENSURES(g_nlog == expect && r.wops == expect, "every item is written once, up to the first error");
  for (unsigned j = 0; j < 3; ++j)
    if (j < expect) {
      const bool two = j == (two_first ? 0 : 1);
      VF_ENSURES(g_log[j].off == off[j] && g_log[j].n == (two ? 2 : 1), "at its offset, with all its segments");
      if (two)
        VF_ENSURES(g_log[j].base == (two_first ? g_q.y.a.sgv : g_q.x.b.sgv), "taken from the queue");
      else
        VF_ENSURES(g_log[j].len == len[j] && g_log[j].base == g_data + (j == 2 ? 2 : 1), "with its data");
    }
  VF_REACH("written out");
}
void h_ior_write(void) {
  VF_BOOL(two_first);
  VF_IN(unsigned, k);
  VF_REQUIRES(k >= 1 && k <= 3);
  if (two_first)
    k == 1 ? ior_write(true, 1) : k == 2 ? ior_write(true, 2) : ior_write(true, 3);
  else
    k == 1 ? ior_write(false, 1) : k == 2 ? ior_write(false, 2) : ior_write(false, 3);
}
static iov_ctx_t g_ctx;
static void seen(iov_ctx_t *ctx, size_t offset, void *data, size_t bytes) {
  VF_ENSURES(ctx == &g_ctx && g_nlog < 4, "the context given");
  g_log[g_nlog].base = data, g_log[g_nlog].len = bytes, g_log[g_nlog++].off = offset;
}
static void ior_walk(bool two_first, unsigned items) {
  size_t off[3], len[3];
  queue(two_first, items, off, len);
  g_nlog = 0;
  osal_ioring_walk(&g_ior, &g_ctx, seen);
  unsigned w = 0;
  for (unsigned j = 0; j < 3; ++j)
    if (j < items) {
      const bool two = j == (two_first ? 0 : 1);
      VF_ENSURES(g_log[w].off == off[j] && g_log[w].len == len[j], "each segment is visited with its file position and length");
      VF_ENSURES(g_log[w].base == g_data + (two ? 3 : j == 2 ? 2 : 1), "and its memory");
      w += 1;
      if (two) {
        VF_ENSURES(g_log[w].off == off[j] + len[j] && g_log[w].len == len[j] && g_log[w].base == g_data + 5, "the second segment follows the first");
        w += 1;
      }
    }
  VF_ENSURES(g_nlog == w, "every segment is visited once");
  VF_REACH("walked");
}
void h_ior_walk(void) {
  VF_BOOL(two_first);
  VF_IN(unsigned, k);
  VF_REQUIRES(k >= 1 && k <= 3);
  if (two_first)
    k == 1 ? ior_walk(true, 1) : k == 2 ? ior_walk(true, 2) : ior_walk(true, 3);
  else
    k == 1 ? ior_walk(false, 1) : k == 2 ? ior_walk(false, 2) : ior_walk(false, 3);
}

/* ---- handing a dirty page over to the queue --------------------------------------------------------- */
static MDBX_env g_env;
static lck_t g_lck;
static MDBX_txn g_txn;
static page_t g_page;
static unsigned g_adds, g_writes, g_resets, g_walks;
static int g_addrc[2];
static osal_ioring_write_result_t g_wr;
static bool g_queued;
int vf_ior_add(osal_ioring_t *ior, const size_t offset, void *data, const size_t bytes) {
  VF_ENSURES(ior == &g_env.ioring && offset == (size_t)g_page.pgno << g_env.ps2ln && data == &g_page && bytes == g_bytes, "exactly this page is queued");
  VF_ENSURES(g_adds < 2, "at most one more attempt");
  const int rc = g_addrc[g_adds++];
  if (rc == MDBX_SUCCESS)
    g_queued = true;
  return rc;
}
osal_ioring_write_result_t vf_ior_write(osal_ioring_t *ior, mdbx_filehandle_t fd) {
  VF_ENSURES(ior == &g_env.ioring && fd == g_fd, "the queue of the environment is written to the file");
  g_writes += 1;
  return g_wr;
}
void vf_ior_walk(osal_ioring_t *ior, iov_ctx_t *ctx, void (*callback)(iov_ctx_t *ctx, size_t offset, void *data, size_t bytes)) {
  VF_ENSURES(g_resets == g_walks, "each batch is released once");
  g_walks += 1;
  VF_BOOL(incoherent);
  if (incoherent && ctx->err == MDBX_SUCCESS)
    ctx->err = MDBX_PROBLEM; /* what the callback does when the mapping does not show the written data */
}
void vf_ior_reset(osal_ioring_t *ior) {
  (void)ior;
  g_resets += 1;
}
static iov_ctx_t *iov_setup(void) {
  VF_IN(pgno_t, pgno);
  VF_IN(int, fd);
  VF_IN(int, a0);
  VF_IN(int, a1);
  VF_IN(int, w);
  VF_BOOL(writemap);
  VF_REQUIRES(pgno >= MIN_PAGENO && pgno <= MAX_PAGENO);
  g_env.ps = 4096, g_env.ps2ln = 12, g_env.flags = writemap ? MDBX_WRITEMAP : 0, g_env.lck = &g_lck;
  g_txn.env = &g_env, g_txn.flags = g_env.flags, g_txn.txnid = 7, g_txn.front_txnid = 8;
  g_page.pgno = pgno, g_page.txnid = g_txn.front_txnid, g_page.flags = P_LEAF;
  g_fd = fd, g_adds = g_writes = g_resets = g_walks = 0, g_queued = false;
  g_addrc[0] = a0, g_addrc[1] = a1, g_wr.err = w, g_wr.wops = 1;
  g_ctx.env = &g_env, g_ctx.ior = &g_env.ioring, g_ctx.fd = fd, g_ctx.err = MDBX_SUCCESS;
  return &g_ctx;
}
void h_iov_write(void) {
  iov_ctx_t *const ctx = iov_setup();
  const int rc = iov_write(ctx);
  VF_ENSURES(g_writes == 1 && g_resets == 1, "the queue is written out and emptied");
  VF_ENSURES(VF_IMPLIES(g_wr.err, rc == g_wr.err), "a failed write is reported");
  VF_ENSURES(rc == ctx->err && VF_IMPLIES(!g_wr.err, rc == MDBX_SUCCESS || rc == MDBX_PROBLEM), "success is reported only when the write succeeded");
  VF_REACH("iov_write");
}
void h_iov_page(void) {
  iov_ctx_t *const ctx = iov_setup();
  VF_IN(size_t, npages);
  VF_REQUIRES(npages >= 1 && npages <= 0x10000);
  VF_REQUIRES(!(g_env.flags & MDBX_WRITEMAP));
  g_bytes = npages << 12;
  const int rc = iov_page(&g_txn, ctx, &g_page, npages);
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, g_queued), "success only when the page is in the queue");
  VF_ENSURES(VF_IMPLIES(g_writes && g_wr.err, rc == g_wr.err), "a failure to write out a full queue is reported");
  VF_ENSURES(VF_IMPLIES(g_addrc[0] == MDBX_SUCCESS, rc == MDBX_SUCCESS && !g_writes && !g_resets), "with room in the queue nothing is written yet");
  VF_ENSURES(VF_IMPLIES(rc == MDBX_SUCCESS, g_page.txnid == g_txn.txnid), "the page is stamped with the transaction id");
  VF_REACH("iov_page");
  if (rc == MDBX_SUCCESS && g_writes)
    VF_REACH("queued after writing out a full queue");
}
