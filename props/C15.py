F = dict(unwind=4)
UNITS = [
    Unit('pv_roundtrip', fn=['pv2pages', 'pages2pv', 'me2v', 'v2me'], find=F),
    Unit('pv_encode', fn=['pv2pages', 'pages2pv', 'me2v', 'v2me'], find=F),
    Unit('rounding', fn=['ceil_powerof2', 'floor_powerof2', 'is_powerof2'], find=F),
    Unit('page_units', fn=['pgno2bytes', 'bytes2pgno', 'bytes_ceil2sp_bytes', 'bytes_ceil2sp_pgno', 'pgno_ceil2sp_bytes', 'pgno_ceil2sp_pgno',
                           'bytes_ceil2os_bytes', 'bytes_ceil2os_pgno', 'pgno_ceil2os_bytes', 'pgno_ceil2os_pgno', 'largechunk_npages'], find=F),
    Unit('logs', fn=['ceil_log2n', 'log2n_powerof2'], find=F),
]
