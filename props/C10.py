M = {'meta_prefer_steady': 'vf_prefer_steady', 'meta_recent': 'vf_recent'}
W = 'lck->rdt[g_w].txnid.weak == g_wtxn && lck->rdt[g_w].pid.weak == g_wpid'
K = 'lck->rdt_length.weak == g_n && lck->cached_oldest_txnid.weak == g_prev && lck->cached_oldest_retired.weak == g_prevret'
RW_OUT = ('__CPROVER_assigns(result.oldest_txnid, oldest_retired_pages, __CPROVER_object_whole(lck)) __CPROVER_loop_invariant(%s && %s && '
          'result.oldest_txnid <= result.steady_txnid && result.oldest_txnid >= prev_oldest && (lck->rdt_refresh_flag.weak != SIG || result.oldest_txnid <= g_wtxn))' % (W, K))
RW_IN = ('__CPROVER_assigns(i, result.oldest_txnid, oldest_retired_pages, __CPROVER_object_whole(lck)) __CPROVER_loop_invariant(%s && %s && lck->rdt_refresh_flag.weak == SIG && '
         'i <= snap_nreaders && snap_nreaders == g_n && result.oldest_txnid <= result.steady_txnid && result.oldest_txnid >= prev_oldest && (i <= g_w || result.oldest_txnid <= g_wtxn))' % (W, K))
RO = ('__CPROVER_assigns(i, result.oldest_txnid, result.thisprocess_oldest_txnid) __CPROVER_loop_invariant(i <= result.nreaders && result.nreaders == g_n && '
      'result.oldest_txnid <= result.recent_txnid && result.thisprocess_oldest_txnid <= result.recent_txnid && (i <= g_w || (result.oldest_txnid <= g_wtxn && '
      '(g_wpid != txn->env->registered_reader_pid || result.thisprocess_oldest_txnid <= g_wtxn))))')
N4 = 'reader tables of up to 3 slots'
UNITS = [
    Unit('rw', fn='mvcc_shapshot_oldest_rw', stubs=M, loops=[('mvcc_shapshot_oldest_rw', 0, RW_OUT), ('mvcc_shapshot_oldest_rw', 1, RW_IN)],
         preunwind={'mvcc_shapshot_oldest_rw@retry': 2}, unwind=16, native=False),
    Unit('rw_exact', fn='mvcc_shapshot_oldest_rw', stubs=M, preunwind={'mvcc_shapshot_oldest_rw@retry': 2}, dfcc=True, unwind=5, find=dict(unwind=5), native=False, bounded=N4),
    Unit('ro', fn='mvcc_shapshot_oldest_ro', stubs={'recent_committed_txnid': 'vf_committed'}, loops=[('mvcc_shapshot_oldest_ro', 0, RO)], unwind=3, native=False),
    Unit('largest', fn='mvcc_snapshot_largest', unwind=5, find=dict(unwind=5), native=False, bounded=N4),
    Unit('largest_this', fn='mvcc_largest_this', unwind=5, find=dict(unwind=5), native=False, bounded=N4),
    Unit('detent', fn='txn_gc_detent', stubs={'mvcc_shapshot_oldest_rw': 'vf_oldest_rw'}, unwind=2, find=dict(unwind=2), native=False),
    Unit('dead', fn=['mvcc_cleanup_dead'], unwind=5, find=dict(unwind=5), native=False, bounded=N4,
         stubs={'lck_rpid_check': 'vf_rpid_check', 'lck_rdt_lock': 'vf_rdt_lock', 'lck_rdt_unlock': 'vf_rdt_unlock', 'osal_monotime': 'vf_monotime', 'check_env': 'vf_check_env', 'pid_insert': 'vf_pid_insert'}),
    Unit('pid_insert', fn='pid_insert', unwind=6, find=dict(unwind=6), bounded='lists of up to 4 process ids', native=False),
]
ASSUMPTIONS = ['the reader table does not change while the barrier is computed (the retry loop that waits for a consistent slot is then not taken)',
               'a reader registered under the protocol holds a snapshot that is not older than the barrier computed before']
