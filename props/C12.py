F = dict(unwind=5, bound='256-byte pages')
UNITS = [
    Unit('snap', fn=['meta_ptr', 'meta_snap', 'meta_txnid', 'constmeta_txnid', 'fetch_txnid'], unwind=5, find=F, objbits=8),
    Unit('tap', fn=['meta_tap', 'meta_cmp2int', 'meta_troika_unpack', 'meta_recent', 'meta_prefer_steady', 'meta_tail', 'meta_is_used',
                    'meta_eq_mask', 'meta_eq'], unwind=5, find=F, objbits=8),
    Unit('retry', fn=['meta_should_retry', 'meta_tap'], unwind=5, find=F, objbits=8),
    Unit('recent_id', fn=['recent_committed_txnid'], unwind=5, find=F, objbits=8),
    Unit('advance', fn=['meta_tap', 'meta_recent', 'meta_prefer_steady'], unwind=5, bounded='256-byte pages, any content', find=F, objbits=8),
    Unit('snap_race', fn=['meta_snap', 'fetch_txnid'], stubs={'atomic_load64': 'vf_load64'}, unwind=5, find=F, objbits=8, native=False),
    Unit('bootid', fn=['meta_bootid_match', 'meta_weak_acceptable'], unwind=20, find=dict(unwind=20), objbits=8),
    Unit('wipe', fn=['meta_wipe_steady', 'meta_unsteady'], stubs={'osal_pwrite': 'vf_pwrite', 'dxb_fsync': 'vf_dxb_fsync', 'dxb_msync': 'vf_dxb_msync'},
         unwind=5, find=F, objbits=8, bounded='256-byte pages, any content'),
]
TRUSTED = ['osal_pwrite by contract (all or error), page cache coherent with the map: stub of unit wipe',
           'the in-place update protocol of the writer in unit snap_race is the one proved for meta_update_begin/meta_update_end in C13']
ASSUMPTIONS = ['64-bit atomic loads are indivisible (x86-64); 32-bit split variants are not compiled here']
