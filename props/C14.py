V = dict(fn=['meta_validate', 'check_table_flags'], stubs={'osal_filesize': 'vf_filesize'}, unwind=9, find=dict(unwind=9), objbits=8, sat='cadical')
UNITS = [Unit('validate%d' % k, **V) for k in range(8, 17)] + [
    Unit('foreign', **V),
    Unit('copy', fn=['meta_validate_copy'], stubs={'meta_validate': 'vf_meta_validate'}, unwind=9, find=dict(unwind=9), objbits=8),
]

ASSUMPTIONS = ['the reported file size is that of the file read']
