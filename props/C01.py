M = {'memcmp': 'vf_memcmp'}
UNITS = [
    Unit('cmp_lexical', fn=['cmp_lexical', 'cmp_len'], stubs=M, unwind=20, find=dict(unwind=20)),
    Unit('cmp_lenfast', fn=['cmp_lenfast', 'cmp_len'], stubs=M, unwind=20, find=dict(unwind=20)),
    Unit('eq_fast', fn=['eq_fast', 'eq_fast_slowpath', 'tail3le', 'cmp_equal_or_greater', 'cmp_equal_or_wrong'],
         stubs=M, unwind=20, find=dict(unwind=20)),
    Unit('cmp_uint', fn=['cmp_uint_unaligned', 'cmp_uint32_unaligned', 'cmp_uint64_unaligned', 'cmp_uint_inline',
                         'cmp_uint32_unchecked', 'cmp_uint64_unchecked'], unwind=10, find=dict(unwind=10)),
    Unit('cmp_reverse', fn=['cmp_reverse', 'tail3le'], unwind=22, find=dict(unwind=22),
         bounded='key lengths 0..19 x 0..19 (two full words plus every tail residue); contents fully symbolic'),
    Unit('dispatch_key', fn=['mdbx_get_keycmp', 'builtin_keycmp'],
         unwind=22, find=dict(unwind=22), bounded='sample key lengths up to 9 bytes; all flag combinations'),
    Unit('dispatch_data', fn=['mdbx_get_datacmp', 'builtin_datacmp'],
         unwind=22, find=dict(unwind=22), bounded='sample value lengths up to 9 bytes; all flag combinations'),
]
TRUSTED = ['libc memcmp contract (sign of the first differing byte)']
ASSUMPTIONS = ['INTEGERKEY/INTEGERDUP items have equal length 4 or 8 (enforced by the length checks of property C05)',
               'the machine is little-endian x86-64']
