E = {'__errno_location': 'vf_errno', 'pwrite': 'vf_pwrite', 'pwrite64': 'vf_pwrite', 'pread': 'vf_pread', 'pread64': 'vf_pread', 'write': 'vf_write',
     'pwritev': 'vf_pwritev', 'pwritev64': 'vf_pwritev', 'fsync': 'vf_fsync', 'fdatasync': 'vf_fdatasync'}
L = ('__CPROVER_assigns(bytes, %s buf, g_cov, g_errno, g_err) __CPROVER_loop_invariant(g_cov <= g_bytes && bytes == g_bytes - g_cov && '
     '(const unsigned char *)buf == g_buf + g_cov %s && (g_cov < g_bytes || !g_cov) && !g_err)')
SYNC = '__CPROVER_assigns(g_errno, g_err, g_data_synced, g_size_synced) __CPROVER_loop_invariant(!g_err && !g_data_synced && !g_size_synced)'
VEC = '__CPROVER_assigns(written, rc, g_errno, g_err, g_full) __CPROVER_loop_invariant(!g_full)'
MEMBER_INDEX = ['sgv']
UNITS = [
    Unit('pread', fn='osal_pread', stubs=E, unwind=2, find=dict(unwind=2), native=False),
    Unit('pwrite', fn='osal_pwrite', stubs=E, loops=[('osal_pwrite', 0, L % ('offset,', '&& offset == g_off + g_cov'))], unwind=2, find=dict(unwind=5, bound='up to 4 system calls'), native=False),
    Unit('write', fn='osal_write', stubs=E, loops=[('osal_write', 0, L % ('', ''))], unwind=2, find=dict(unwind=5, bound='up to 4 system calls'), native=False),
    Unit('pwritev', fn='osal_pwritev', stubs=E, loops=[('osal_pwritev', 2, VEC)], unwind=6, find=dict(unwind=6), native=False, bounded='vectors of up to 4 segments, any number of interruptions'),
    Unit('fsync', fn='osal_fsync', stubs=E, loops=[('osal_fsync', 0, SYNC)], unwind=2, find=dict(unwind=4, bound='up to 3 attempts'), native=False),
    Unit('ior_add', fn=['osal_ioring_add', 'ior_next', 'ior_offset'], unwind=5, find=dict(unwind=5), native=False,
         bounded='an empty queue, or a last item of up to 3 segments (contents, offsets and lengths symbolic)'),
    Unit('ior_write', fn=['osal_ioring_write', 'ior_next'], stubs={'osal_pwrite': 'vf_opwrite', 'osal_pwritev': 'vf_opwritev'}, unwind=5, find=dict(unwind=5), native=False,
         bounded='queues of up to 3 items of up to 2 segments'),
    Unit('ior_walk', fn=['osal_ioring_walk', 'ior_next'], unwind=5, find=dict(unwind=5), native=False, bounded='queues of up to 3 items of up to 2 segments'),
    Unit('iov_write', fn=['iov_write', 'iov_complete'], stubs={'osal_ioring_write': 'vf_ior_write', 'osal_ioring_walk': 'vf_ior_walk', 'osal_ioring_reset': 'vf_ior_reset'},
         drop=['mdbx_strerror', 'iov_callback4dirtypages'], unwind=3, find=dict(unwind=3), native=False),
    Unit('iov_page', fn=['iov_page', 'iov_write', 'iov_complete'], stubs={'osal_ioring_add': 'vf_ior_add', 'osal_ioring_write': 'vf_ior_write', 'osal_ioring_walk': 'vf_ior_walk', 'osal_ioring_reset': 'vf_ior_reset'},
         drop=['mdbx_strerror', 'iov_callback4dirtypages'], unwind=3, find=dict(unwind=3), native=False),
]
TRUSTED = ['contract of pread/pwrite/write/pwritev/fsync/fdatasync: transfer of any non-empty prefix, or -1 with any errno']
ASSUMPTIONS = ['the operating system never reports a transfer of zero bytes for a non-empty write request']
