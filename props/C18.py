D = ['bad_page', 'poor_page', 'mdbx_strerror', 'debug_log', 'debug_log_va']
S = {'spill_search': 'vf_spill_search', 'txn_dpl_search': 'vf_dpl_search', 'page_check': 'vf_page_check', 'bad_page': 'vf_bad_page'}
UNITS = [Unit('hdr_' + k, fn=['check_page_header'], stubs={'bad_page': 'vf_bad_page'}, unwind=3, find=dict(unwind=3)) for k in ('any', 'three', 'large')] + [
    Unit('get_' + k, fn=['page_get_' + k, 'page_get_unchecked', 'check_page_header', 'check_page_complete'], stubs=S, unwind=7, find=dict(unwind=7), native=False,
         bounded='a file of up to 6 pages of 256 bytes, up to one parent transaction') for k in ('any', 'three', 'large')]

TRUSTED = ['spill_search and the dirty-page lookup by contract', 'page_check (validation mode only) by contract']
ASSUMPTIONS = ['page fetching: file of six pages of 256 bytes']
