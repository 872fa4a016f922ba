# Source of properties.jsonl and MANIFEST.json (see lib/gen.py).
I, H, C, S, F, CF = 'inputs', 'histories', 'crash_points', 'schedules', 'fault_sequences', 'configurations'
PROPS = [
 dict(id='C01', title='Keys and multi-values follow exactly the documented total order',
  statement='For every two keys (or multi-values of one key) the default comparison used by the engine is exactly the documented order: '
   'byte-wise lexicographic with a shorter prefix first, byte-wise from the end for reverse keys, length first then content for the fixed-size mode, and '
   'unsigned numeric for integer keys of 4 or 8 bytes; the choice of order depends only on the table flags. It is a total order, and the equality shortcut '
   'agrees with byte equality, for all lengths, contents and alignments.',
  over=[I, CF], quant='all pairs of byte strings of any length and all table flag combinations',
  why='tests insert a few short keys; word-at-a-time tails, long common prefixes and sign boundaries are not enumerated',
  mech=['cmp_lexical', 'cmp_reverse', 'cmp_lenfast', 'cmp_uint_unaligned', 'eq_fast', 'builtin_keycmp', 'builtin_datacmp'],
  note='unbounded proof for lexical, length-first, equality and integer orders; reverse order bounded to lengths 0..19; memcmp by contract'),
 dict(id='C02', title='Numeric-to-key conversions preserve order and round-trip',
  statement='The public conversions of floating-point, integer and JSON-style numbers to unsigned integer keys are strictly order preserving, so sorting by key is '
   'sorting by number, and the reverse conversions applied to the stored key return the original number. '
   'This holds for every finite value of each type, including denormals, both zeros and the extreme integers.',
  over=[I], quant='all 2^32 and 2^64 argument values',
  why='tests use a handful of sample values; bit-level tricks fail at isolated values', mech=['mdbx_key_from_double', 'mdbx_key_from_float',
   'mdbx_key_from_int64', 'mdbx_key_from_int32', 'mdbx_key_from_jsonInteger', 'mdbx_double_from_key', 'mdbx_jsonInteger_from_key'],
  note='exhaustive bit-precise proof'),
 dict(id='C03', title='Adding or removing one item on a page leaves all other items intact',
  statement='Inserting an item into a B-tree page places exactly the given key, flags and value (or child page number) at the requested position and keeps every other '
   'item, in order, byte for byte; deleting an item removes exactly that one; the page bounds stay consistent and nothing outside the page is written. '
   'An insertion that does not fit reports page-full and changes nothing.',
  over=[I, H], quant='all well-formed pages of every page size, all positions, key and value lengths and kinds (branch, leaf, big value, fixed-size multi-value)',
  why='tests never look inside pages and only reach layouts produced by short insertion runs',
  mech=['node_add_branch', 'node_add_leaf', 'node_add_dupfix', 'node_del', 'node_shrink'],
  note='loop invariants over the slot array prove the witness slot for all page sizes; node movement through contracts of memmove/memcpy'),
 dict(id='C04', title='Key search on a page finds the first entry not less than the key',
  statement='Searching a page for a key returns the position of the first entry that is not less than the key (or one past the end), reports an exact match exactly when '
   'that entry equals the key, and in an inner page descends into the child whose range contains the key.',
  over=[I], quant='all entry counts, keys and comparison functions that are total orders', why='branchless binary search errors show only at particular entry counts and positions',
  mech=['tree_search_foliage', 'tree_search_branch', 'node_search'], note='see DESIGN'),
 dict(id='C05', title='Size limits are consistent and enforced for every key and value',
  statement='For every page size and table mode the published limits on key and value length guarantee that any accepted item fits on a page (or in large pages), and the limit functions '
   'return the documented values or an error for an invalid page size. Writes and lookups accept a key or value exactly when its length is within the limits for '
   'that table (and 4 or 8 bytes for integer modes), otherwise they return the bad-size error without touching the data.',
  over=[I, CF], quant='all page sizes, table flags and lengths up to SIZE_MAX', why='tests use default page size and small items',
  mech=['mdbx_limits_keysize_max', 'mdbx_limits_valsize_max', 'mdbx_limits_pairsize4page_max', 'mdbx_limits_valsize4page_max', 'check_key', 'cursor_put_checklen'],
  note='proof over all page sizes, flags, lengths and item alignments'),
 dict(id='C06', title='Page-number lists stay sorted sets under every operation',
  statement='Lists of page numbers used for retired, spilled and recycled pages keep exactly the pages put into them: appending, merging, sorting and searching never lose, '
   'duplicate or invent a page, keep the required order, and grow the storage without losing content; a failed growth leaves the list as it was.',
  over=[I, H], quant='all lists and all operation sequences', why='list corruption silently leaks or double-allocates pages and needs particular lengths',
  mech=['pnl_append', 'pnl_append_span', 'pnl_insert_span', 'pnl_merge', 'pnl_sort', 'pnl_search', 'pnl_exist', 'pnl_reserve', 'pnl_check'], note='see DESIGN'),
 dict(id='C07', title='Sets of GC record ids behave exactly as sets',
  statement='The sets of transaction ids used while recycling free-page records behave as mathematical sets: after any push, merge, find or removal of bounds the set of ids is exactly the expected one, '
   'whether an id is held in the contiguous part or in the sorted list part, and iteration visits every id once in the requested direction.',
  over=[I, H], quant='all set states and all ids', why='a wrong id makes a commit skip, or process twice, a free-page record; needs particular interleavings of ids',
  mech=['rkl_push', 'rkl_find', 'rkl_contain', 'rkl_resort', 'rkl_pop', 'rkl_merge', 'rkl_turn', 'rkl_hole', 'rkl_empty', 'rkl_edge'], note='see DESIGN'),
 dict(id='C08', title='The dirty-page table returns exactly the pages a transaction modified',
  statement='A write transaction that modified a page always finds its private copy again under that page number, and never finds one for a page it did not modify; '
   'adding, removing and re-sorting entries keeps every other entry, including multi-page values found by their first page, intact.',
  over=[I, H], quant='all table contents, sorted and unsorted parts, and page numbers', why='a lost or stale entry means reading old data in the same transaction; needs special mixes of sorted and unsorted entries',
  mech=['dpl_search', 'dpl_exist', 'dpl_sort', 'dpl_append', 'dpl_remove', 'dpl_intersect'], note='see DESIGN'),
 dict(id='C09', title='Allocation of several pages only uses a really contiguous free span',
  statement='When a run of consecutive pages is requested, the run taken from the free list consists of consecutive page numbers that are all in the list, the scan finds one whenever it exists '
   'with every instruction-set variant giving the same result, and exactly those pages are removed from the list while all others stay.',
  over=[I, CF], quant='all free lists and requested lengths, for the scalar and every vectorised variant', why='boundary conditions of vector code at list ends',
  mech=['scan4seq_fallback', 'scan4seq_sse2', 'repnl_get_single', 'repnl_get_sequence'], note='see DESIGN'),
 dict(id='C10', title='Space still visible to a reader is never recycled',
  statement='The barrier below which freed pages may be recycled is never newer than the snapshot of any active reader in the reader table nor than the last steady snapshot that recovery might return to, and it never moves back. '
   'The number of used pages that shrinking and remapping keep covers the snapshot of every reader. Slots are dropped from the reader table only for processes found dead, under the lock of the table.',
  over=[S, H, I], quant='all contents of the reader table (any number of slots for the barriers), meta states and durability modes', why='a violation shows only with a reader parked at a particular snapshot while the writer recycles',
  mech=['mvcc_shapshot_oldest_rw', 'mvcc_shapshot_oldest_ro', 'mvcc_snapshot_largest', 'mvcc_largest_this', 'mvcc_cleanup_dead', 'pid_insert', 'txn_gc_detent'],
  note='the barriers by loop contracts for reader tables of any length with an arbitrary ghost slot; the exact values and the clean-up for tables of 3 slots (bounded); the table does not change during a call'),
 dict(id='C11', title='A reader pins a committed snapshot before using it',
  statement='Starting a read transaction either returns an error or leaves a slot in the shared reader table that belongs to this process and thread and holds the snapshot id being read, and the data roots, '
   'geometry and canary the transaction uses all come from that same committed meta page. Ending, resetting or parking the transaction releases exactly that slot and no other.',
  over=[S, I], quant='all reader-table and meta contents, including changes by a concurrent committer between the steps', why='tests run without a concurrent committer at the critical instant',
  mech=['txn_ro_start', 'txn_ro_seize', 'mvcc_bind_slot', 'txn_ro_end', 'txn_ro_reset'], note='see DESIGN'),
 dict(id='C12', title='The head and tail meta pages are chosen correctly',
  statement='Among the three meta pages the engine always reads from the valid one with the newest transaction id (preferring, when recovering, a steady one), and always overwrites one that is neither the newest '
   'nor the newest steady one, so a torn or interrupted commit can never destroy the last recoverable state.',
  over=[C, I, H], quant='all triples of meta page contents, including torn, weak, equal and invalid ids', why='interesting triples arise only after crashes at particular moments',
  mech=['meta_tap', 'meta_recent', 'meta_prefer_steady', 'meta_tail', 'troika_fsm', 'meta_ptr', 'meta_bootid_match', 'recent_committed_txnid', 'meta_wipe_steady'], note='complete for every content of the three meta pages (page size 256); the newest-id reader also against interleaved writer steps'),
 dict(id='C13', title='A commit is published only after its data is safely written',
  statement='In every durability mode a commit writes the new meta page only after all data pages it refers to, marks the meta page steady only after a successful flush of the data, and brackets the in-place update '
   'so that a torn meta page is recognisable; if a write or flush fails, the commit fails and the previous snapshot stays the current one.',
  over=[C, F, CF], quant='all durability flag combinations, I/O failures at any call, and geometry changes', why='tests never crash the machine or inject I/O errors between the steps',
  mech=['dxb_sync_locked', 'env_sync', 'meta_update_begin', 'meta_update_end', 'meta_sync'], note='see DESIGN'),
 dict(id='C14', title='Damaged or foreign files are refused with the right error',
  statement='Opening accepts a meta page only if its magic, version, page size, page number, transaction-id pair, geometry limits, root page numbers and file-size requirements are all consistent; any other content is rejected with the documented '
   'error and is never used as a snapshot, whatever the bytes of the file.',
  over=[I, C], quant='all byte contents of a meta page and all file sizes', why='tests never open corrupted files',
  mech=['meta_validate', 'meta_validate_copy'], note='proof for every byte content, split by page size'),
 dict(id='C15', title='Size and page-count conversions are exact or conservative',
  statement='Packed page counts stored in the meta page decode to a value that is not below the encoded one and is reproduced by encoding it again; '
   'rounding helpers return the smallest (or greatest) power of two or multiple, and the conversions between pages and bytes and the logarithm helpers return the mathematical value for every argument in range.',
  over=[I], quant='all argument values', why='overflow and rounding errors appear at isolated large values',
  mech=['pv2pages', 'pages2pv', 'ceil_powerof2', 'floor_powerof2', 'log2n_powerof2', 'ceil_log2n', 'bytes2pgno', 'pgno2bytes', 'bytes_ceil2sp_bytes', 'bytes_ceil2os_bytes', 'pgno_ceil2os_pgno', 'largechunk_npages'], note='bit-precise proof for all arguments'),
 dict(id='C17', title='File I/O transfers exactly the requested bytes or reports an error',
  statement='Every read, write and vectored write issued by the engine either transfers exactly the requested bytes at exactly the requested offset, whatever pattern of partial transfers and interruptions the operating system produces, or returns an error; '
   'success is never reported for data that was not transferred. The queue of page writes issues every page put into it at its own offset, and reports the first failure.',
  over=[F, I], quant='all patterns of short transfers, EINTR and errors', why='ordinary files never give short writes or EINTR in tests',
  mech=['osal_pread', 'osal_pwrite', 'osal_write', 'osal_pwritev', 'osal_fsync', 'osal_ioring_add', 'osal_ioring_write', 'osal_ioring_walk', 'iov_page', 'iov_write', 'iov_complete'],
  note='loop contracts for the retry loops (any number of short transfers and interruptions); the queue functions over states of up to 3 items/segments (bounded)'),
 dict(id='C18', title='A page is used only after its bounds are checked',
  statement='Reading a page by number returns it only if the number lies inside the snapshot, the stored number and type match what was asked for and the item area bounds are consistent; otherwise a corruption or not-found error is returned and the page is not used.',
  over=[I], quant='all page contents and page numbers', why='tests only see well-formed pages',
  mech=['check_page_header', 'page_get_unchecked', 'page_get_any', 'page_get_three', 'page_get_large', 'check_page_complete'], note='header check for every page size and content; fetching over a file of up to 6 pages of 256 bytes (bounded), spill_search, txn_dpl_search and page_check as contracts'),

 dict(id='C19', title='Opening restores the newest recoverable snapshot and never damages it',
  statement='Opening a database file takes its parameters from a valid meta page that is not older than any steady one or any one written since the last boot; a snapshot left by an interrupted system that cannot be trusted is dropped only when an older steady one '
   'takes its place, a steady snapshot is never overwritten, the file is never cut below the pages in use, a read-only or shared opening changes no meta page, and any failed step fails the opening.',
  over=[C, I, F], quant='all triples of meta page contents, boot identifiers, open modes, file sizes and failures of the steps', why='tests never reopen after a crash; the interesting triples of meta pages arise only then',
  mech=['dxb_read_header', 'dxb_setup', 'meta_bootid_match', 'meta_weak_acceptable', 'meta_override'],
  note='loop-free or constant-trip code, so complete proofs; meta_validate, meta_override, the mapping and the geometry commit are contracts here; page size fixed to 256 in the setup units'),
]
NOT_APPLICABLE = [
 dict(id='C90', title='Concurrent histories are snapshot isolated and serialisable',
  statement='For every interleaving of one writer and any number of readers across threads and processes, each read transaction observes exactly the state of one commit that was current at its start, and write transactions take effect in one serial order.',
  over=[S, H], quant='all schedules and histories', why='tests are single threaded or sample a few schedules', mech=['txn_basal_start', 'txn_ro_start', 'lck_txn_lock'],
  reason='a property of whole concurrent histories over shared memory of several processes; CBMC contracts are sequential Hoare triples. The per-step obligations that imply it are claimed as C10-C13'),
 dict(id='C91', title='After a crash at any point the last durable commit is intact',
  statement='Whatever instant the machine or process stops at, reopening yields exactly the state of a committed transaction, and in the durable mode that of the last commit that returned success.',
  over=[C, H], quant='all crash points of all histories', why='tests never crash', mech=['dxb_setup', 'meta_wipe_steady', 'dxb_sync_locked'],
  reason='needs a two-state crash-recovery argument over the whole file and engine, out of reach of function contracts in the installed verifier; the orderings it depends on are claimed in C12, C13 and C14'),
 dict(id='C92', title='The whole tree stays a balanced search tree holding exactly the written pairs',
  statement='After any sequence of successful puts and deletes through any cursors, a full scan returns exactly the expected pairs in key order, and counters of items, pages and depth match the tree.',
  over=[H, I], quant='all operation sequences', why='tests sample short sequences', mech=['cursor_put', 'cursor_del', 'page_split', 'tree_rebalance'],
  reason='requires an inductive heap predicate for an unbounded multi-page tree (separation logic); CBMC contracts have no recursive ownership predicates. The page-level steps are claimed in C03 and C04'),
 dict(id='C93', title='The C++ codecs round-trip',
  statement='The hexadecimal, base58 and base64 encoders of the C++ interface decode back to the original bytes, reject malformed text and report exact output sizes.',
  over=[I], quant='all byte strings', why='tests use a few samples', mech=['to_hex', 'from_base58', 'to_base64'], files=['mdbx.c++', 'mdbx.h++'],
  reason='the code is C++20 templates over iostream/string_view, which the only available C++ contract front end (CBMC) does not parse'),
]
