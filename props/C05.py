P = ['vf_none']
UNITS = [
    Unit('limits', fn=['mdbx_limits_keysize_max', 'mdbx_limits_valsize_max', 'mdbx_limits_keysize_min', 'mdbx_limits_valsize_min',
                       'mdbx_limits_pairsize4page_max', 'mdbx_limits_valsize4page_max', 'mdbx_limits_dbsize_min', 'mdbx_limits_dbsize_max',
                       'mdbx_limits_txnsize_max', 'keysize_max', 'valsize_max', 'keysize_min', 'valsize_min', 'log2n_powerof2'],
         unwind=10, find=dict(unwind=10)),
    Unit('limits_bad', fn=['mdbx_limits_keysize_max', 'mdbx_limits_valsize_max'], unwind=10, find=dict(unwind=10)),
    Unit('limits_default', fn=['mdbx_limits_keysize_max', 'mdbx_limits_valsize_max'], unwind=10, find=dict(unwind=10), stubs={'mdbx_default_pagesize': 'vf_default_ps'}),
    Unit('setup', fn=['env_setup_pagesize', 'tbl_setup', 'env_keysize_max', 'env_valsize_max', 'leaf_size', 'branch_size', 'check_table_flags'],
         drop=['recalculate_merge_thresholds', 'recalculate_subpage_thresholds', 'env_options_adjust_dp_limit', 'clc_reset_methods'],
         unwind=10, find=dict(unwind=10)),
    Unit('put_checklen', fn=['cursor_put_checklen'], stubs={'cursor_put': 'vf_cursor_put'}, unwind=10, find=dict(unwind=10)),
    Unit('check_key', fn=['check_key'], unwind=10, find=dict(unwind=10)),
    Unit('check_multiple', fn=['cursor_check_multiple'], unwind=11, find=dict(unwind=11), bounded='ten value sizes from 1 to 32730; every count'),
]
TRUSTED = ['cursor_put is replaced by a recording stub in unit put_checklen (its own contract is not part of this property)']
ASSUMPTIONS = ['table length limits are those produced by tbl_setup (proved in unit setup) or narrowed to one integer length']
