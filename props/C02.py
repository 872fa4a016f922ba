UNITS = [
    Unit('double_key', fn=['mdbx_key_from_double', 'mdbx_key_from_ptrdouble', 'mdbx_double_from_key', 'double2key', 'key2double'], unwind=2, find=dict(unwind=2)),
    Unit('float_key', fn=['mdbx_key_from_float', 'mdbx_key_from_ptrfloat', 'mdbx_float_from_key', 'float2key', 'key2float'], unwind=2, find=dict(unwind=2)),
    Unit('int_key', fn=['mdbx_key_from_int64', 'mdbx_key_from_int32', 'mdbx_int64_from_key', 'mdbx_int32_from_key'], unwind=2, find=dict(unwind=2)),
    Unit('json_key', fn=['mdbx_key_from_jsonInteger', 'round_mantissa', 'clz64'], unwind=2, find=dict(unwind=2)),
    Unit('json_order', fn=['mdbx_key_from_jsonInteger'], unwind=2, find=dict(unwind=2)),
    Unit('json_back', fn=['mdbx_jsonInteger_from_key'], unwind=2, find=dict(unwind=2)),
    Unit('json_trunc', fn=['mdbx_jsonInteger_from_key'], unwind=2, find=dict(unwind=2)),
]
ASSUMPTIONS = ['IEEE-754 binary64/binary32, round to nearest even']
