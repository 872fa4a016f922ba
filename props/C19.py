S = {'osal_filesize': 'vf_filesize', 'osal_pread': 'vf_pread', 'meta_validate': 'vf_meta_validate', 'memcmp': 'vf_cmp'}
UNITS = [
    Unit('read_header', fn=['dxb_read_header', 'meta_bootid_match', 'meta_weak_acceptable'], stubs=S, unwind=9, find=dict(unwind=9), objbits=8),
    Unit('read_header_stuck', fn=['dxb_read_header'], stubs=S, unwind=9, find=dict(unwind=9), objbits=8),
]
SS = {'dxb_read_header': 'vf_read_header', 'env_page_auxbuffer': 'vf_auxbuffer', 'osal_mmap': 'vf_mmap', 'meta_validate_copy': 'vf_validate_copy',
      'meta_override': 'vf_override', 'dxb_sync_locked': 'vf_sync_locked', 'dxb_set_readahead': 'vf_readahead', 'mdbx_is_readahead_reasonable': 'vf_reasonable',
      'mdbx_env_set_geometry': 'vf_set_geometry', 'meta_init_triplet': 'vf_triplet', 'meta_tap': 'vf_tap', 'meta_ptr': 'vf_ptr', 'meta_eq_mask': 'vf_eq_mask', 'memcmp': 'vf_cmp'}
DROP = ['meta_troika_dump', 'osal_pwrite', 'osal_fsetsize', 'env_setup_pagesize', 'mdbx_env_get_maxvalsize_ex', 'clc_reset_methods', 'osal_monotime', 'madvise']
SF = ['dxb_setup', 'meta_tap', 'meta_recent', 'meta_prefer_steady', 'meta_eq_mask', 'meta_bootid_match', 'meta_is_used']
UNITS += [
    Unit('setup', fn=SF, stubs=SS, drop=DROP, unwind=4, find=dict(unwind=4), objbits=9, native=False),
    Unit('setup_upgrade', fn=SF, stubs=SS, drop=DROP, unwind=4, find=dict(unwind=4), objbits=9, native=False),
    Unit('setup_shared', fn=SF, stubs=SS, drop=DROP, unwind=4, find=dict(unwind=4), objbits=9, native=False),
]

TRUSTED = ['osal_pread, osal_filesize, osal_mmap, meta_override, dxb_sync_locked, mdbx_env_set_geometry by contract', 'meta_tap, meta_ptr, meta_eq_mask by the contracts proved in C12, meta_validate by that of C14']
ASSUMPTIONS = ['setup units: page size 256 and no geometry requested by the user', 'a weak meta page of an earlier boot is never newer than a page of this boot']
