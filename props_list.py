P('C01', 'Dedupe only ever asks the kernel to compare-and-share, within the given ranges',
  'User data is only ever replaced through the kernel\'s compare-and-dedupe request, issued from the caller\'s source file to the caller\'s single destination file, at matching offsets that start at the caller\'s ranges and never leave them. A dedupe is reported as successful only if the kernel confirmed every byte of the requested range as deduped. Differing data is never reported as deduped, and any other kernel failure is reported as an error.',
  ['inputs', 'fault_sequences'], 'for all source/destination files, offsets and lengths, and every sequence of complete, partial, differing or failing kernel replies, over any number of requests',
  'No test issues a dedupe request (it needs btrfs), and no finite sample covers all reply sequences of a range split over many requests.',
  ['lib/fs.cc', 'include/crucible/fs.h'], [('btrfs_extent_same request loop', 'lib/fs.cc'), ('BtrfsExtentSame request/reply accounting', 'lib/fs.cc')],
  note='Proved for all inputs and any number of ioctl rounds; the kernel ioctl is an assumed contract.')
P('C08', 'A scan visits every file or extent in its transaction range',
  'A subvol scan finds the files of its subvol in order and leaves out none after its position, passing only the files it has found; after the last file the scan begins again with the first file and covers the transactions from the end of the previous scan to the newest, only if there are new ones, and a read-only subvol skipped for the send workaround loses no transactions. The extent scan visits exactly the extents of its sizes written in its transaction range, each before the scan position passes it or the scan begins again. Visiting an extent scans every file that refers to it, exactly where it refers to it and under that file\'s lock, retrying references that cannot be scanned yet; only extents without checksums or with too many references are skipped.',
  ['inputs', 'histories'], 'for all positions, transaction ranges, file and extent layouts, extent sizes, numbers of references and lookup failures',
  'A test scans a small tree once; which extents are skipped depends on the sizes, positions and transactions of everything on the file system.',
  ['src/bees-roots.cc'], [('BeesCrawl::fetch_extents, restart_crawl', 'src/bees-roots.cc'), ('SizeTier::find_next_extent, create_extent_map, scan_one_ref', 'src/bees-roots.cc')],
  note='One step from an arbitrary state plus loop invariants; the tree searches, LOGICAL_INO and the list of references are contracts.')
P('C09', 'Block addresses identify one physical block exactly',
  'Every aligned block of an ordinary data extent has an address from which the block\'s physical position, its compression state and its position inside a compressed extent are recovered exactly, and two blocks have equal addresses only if they are the same physical block. Holes, inline data, delayed allocations and other blocks without a stable physical position get distinct marker values that never decode to a physical position, and unaligned or malformed extents are rejected. Marking an address toxic, or marking a partial last block, changes nothing else in it.',
  ['inputs'], 'for all extents, flag combinations and file offsets the kernel can report',
  'Address packing uses the low bits of a 64-bit number for flags and offsets; aliasing shows only for particular combinations of extent position, offset and flags out of 2^200.',
  ['src/bees-types.cc', 'src/bees.h'], [('BeesAddress constructors and decoders', 'src/bees-types.cc')],
  note='Proved for all 64-bit inputs under the stated kernel limits on extent positions.')
P('C10', 'File range and range pair arithmetic never inverts, overlaps or drifts',
  'A file range keeps the file and bounds it was given, is never given a size when inverted, grows by exactly the requested amount clipped to the beginning and end of the file, and shrinks by exactly the requested amount or is left unchanged with an error; it never shrinks to nothing or inverts. Two nonempty ranges overlap exactly if they share a byte of the same file, whichever of them are known by descriptor or by id, and are equal exactly if file and bounds are. A source/destination pair can only be built from nonoverlapping ranges of equal size and both sides keep equal size ever after.',
  ['inputs'], 'for all files, bounds and amounts (up to the 63-bit offset limit), with each range known by descriptor or by file id',
  'The arithmetic is over 63-bit offsets with clipping and comparisons at both ends; the existing tests do not link this code at all.',
  ['src/bees-types.cc', 'src/bees.h'], [('BeesFileRange grow/shrink/overlaps', 'src/bees-types.cc'), ('BeesRangePair constructor and shrink', 'src/bees-types.cc'), ('BeesFileId comparison', 'src/bees-types.cc')],
  note='Proved for all inputs; Fd construction, fstat and the subvolume id lookup are assumed contracts.')
P('C18', 'Checked integer conversion preserves the value or raises',
  'Converting an integer to a narrower or differently signed type either yields exactly the same mathematical value or raises an out-of-range error, and it raises only if the value is not representable.',
  ['inputs'], 'for all values of all pairs of integer types of 8 to 64 bits used for offsets, sizes and ids',
  'The existing tests sample boundary values; the guarantee is over all 2^64 values of each of the type pairs.',
  ['include/crucible/limits.h'], [('ranged_cast', 'include/crucible/limits.h')],
  note='Proved for all values of 48 type pairs.')
P('C21', 'Whole-buffer I/O helpers transfer exactly the requested bytes or raise',
  'A helper that promises to read or write a whole buffer returns normally only after every byte of the buffer has been transferred, in order, each byte to or from its own position in the file. Short transfers are continued where they stopped, interruptions are retried, and any other failure or an early end of file raises an error. The variants that tolerate a short result report exactly the number of bytes transferred.',
  ['inputs', 'fault_sequences'], 'for all buffer sizes and file offsets, and every sequence of full, partial, interrupted or failing system call results of any length',
  'Short reads, interruptions and failures do not happen on ordinary files in a test; the guarantee is over every sequence of them.',
  ['lib/fd.cc', 'include/crucible/fd.h'], [('read/write/pread/pwrite_or_die and *_partial_or_die', 'lib/fd.cc')],
  note='Proved for all sizes and any number of system calls; read/write/pread/pwrite are assumed contracts.')
P('C13', 'A task that is asked to run runs, never twice at once, and none is lost',
  'After a task is asked to run, to run when idle, or to run after another task, it begins to run at least once more; a request made while it runs makes it run again after it ends, and it never runs in two threads at once. Tasks waiting for a task can run when it ends or is destroyed, idle tasks are taken only when no other task waits, and no queue loses or duplicates a task when it is spliced, when workers stop, are paused, or when tasks fail. An exclusion lock has at most one holder, and a task that has to wait for it runs after the holder.',
  ['schedules', 'histories'], 'for all states of a task and its queues, every interleaving of requests at lock granularity, any number of tasks and workers',
  'The existing tests run a few schedules; lost and doubled runs depend on requests that arrive at particular moments of the execution of a task.',
  ['lib/task.cc'], [('TaskState, TaskMasterState, TaskConsumer, Exclusion', 'lib/task.cc')],
  note='Lists of tasks are contracts that count one arbitrary task; threads are interference at lock granularity; the order among waiting tasks is not decided; cancelling drops tasks by design.')
P('C17', 'Tree lookups find exactly the item asked for and pass over nothing',
  'Looking up a position in a btrfs tree returns an item of exactly the kind and object asked for: for an exact lookup the one at that position, otherwise the nearest one at or after it. No result is reported only if the tree holds no such item, and every search is confined to the tree and transaction range that were set. Stepping to the next or previous position starts right after or before the given one. The walk over data extents may leave out parts of the tree that hold no data, always goes forward, and never leaves out a data extent.',
  ['inputs', 'histories'], 'for all keys, trees, replies, kinds of items between the ones asked for, chunk layouts and cached chunks',
  'No existing test has a btrfs tree; a skipped item depends on which other items lie next to it and on the layout of the chunks.',
  ['lib/btrfs-tree.cc', 'include/crucible/btrfs-tree.h', 'include/crucible/seeker.h'], [('BtrfsTreeFetcher::at, lower_bound, next, prev', 'lib/btrfs-tree.cc'), ('BtrfsTreeObjectFetcher, BtrfsTreeOffsetFetcher', 'lib/btrfs-tree.cc'), ('BtrfsDataExtentTreeFetcher::next_sk', 'lib/btrfs-tree.cc'), ('seek_backward', 'include/crucible/seeker.h'), ('BtrfsInodeFetcher::stat, BtrfsRootFetcher::root', 'lib/btrfs-tree.cc')],
  note='Proved for all keys and any number of searches by tracking one arbitrary item of the tree; the answer of a search and the next search key are the contracts proved in C16; the backward search looks at the last item at or before its position (proved for any number of steps against the contract of one fetch, which is assumed); byte positions below 2^63.')
P('C16', 'Kernel tree search results are decoded completely, exactly and in bounds',
  'A tree search delivers every item of the kernel\'s answer, in the order and with exactly the key, length and data bytes of the answer, nothing else, and never anything from outside the reply buffer or after a failed request; each retry asks for the same keys with no more room than exists. The position for continuing a search covers exactly the keys after the last item. A field of an item is read only if the item has the right kind and its data is long enough, and is then decoded exactly; the shared byte buffers behind it accept exactly the sub-ranges that lie inside them.',
  ['inputs', 'fault_sequences'], 'for all search keys, buffer sizes, reply contents, item lengths, kinds and offsets, and every sequence of kernel errors and partial answers over the retries',
  'Replies come from a btrfs kernel and tests have none; truncated, oversized or malformed items and wrapping keys are not sampled at all.',
  ['lib/fs.cc', 'include/crucible/fs.h', 'lib/btrfs-tree.cc', 'lib/bytevector.cc'], [('BtrfsIoctlSearchKey::do_ioctl_nothrow, next_min', 'lib/fs.cc'), ('BtrfsIoctlSearchHeader::set_data', 'lib/fs.cc'), ('BtrfsTreeItem accessors', 'lib/btrfs-tree.cc'), ('ByteVector', 'lib/bytevector.cc')],
  note='Proved for all buffer sizes (up to 16 MiB), item contents and any number of items; ioctl is an assumed contract, std::set insertion is replaced by a ghost.')
P('C03', 'Hash table operations find, place and evict exactly the right entries',
  'A lookup returns exactly the stored entries that have the looked-up hash, and every operation touches only the fixed part of the table (the bucket) that belongs to the hash. Inserting a pair that is already stored moves it to the requested place, otherwise it is added there and only the entry at the end of a full bucket may be dropped; erasing removes only the given pair; all other entries keep their contents and relative order. Loading a part of the table from disk keeps every stored entry with its hash and physical position, never overwrites entries changed in memory, and removes only duplicates and toxic marks.',
  ['inputs', 'histories'], 'for all bucket contents, hashes, addresses, table sizes and random positions',
  'The table is a bucketed LRU with in-place moves; misplacement or over-eviction shows only for particular combinations of bucket contents, duplicates, fullness and position, and no existing test links this code.',
  ['src/bees-hash.cc', 'src/bees.h'], [('BeesHashTable::push_front_hash_addr, push_random_hash_addr, erase_hash_addr, find_cell', 'src/bees-hash.cc'), ('BeesHashTable::fetch_missing_extent_by_index, verify_cell_range', 'src/bees-hash.cc'), ('BeesHashTable::hash_to_bucket, get_cell_range', 'src/bees-hash.cc')],
  note='Proved for all bucket contents by tracking arbitrary witness cells; std::move_backward etc. are replaced by contracts, locks are ghosts.')
P('C04', 'Hash table changes are written out and never lost while running',
  'A changed part of the hash table stays marked as changed until exactly its contents have been written to its own position in the table file; a failed write, or a change made while the write is in progress, leaves it marked. Every pass of the writer writes every part that was marked when the pass reached it, and the writer never sleeps while a change made before or during its last pass is waiting, nor after a stop was requested. After a stop request the whole table is written once more before the writer ends.',
  ['inputs', 'schedules', 'fault_sequences'], 'for all table sizes and every interleaving of changes, writes, write failures and stop requests at lock granularity',
  'The losing schedules need a change to fall between the copy and the end of a write, or a write error; nothing in the test suite runs the writer.',
  ['src/bees-hash.cc', 'src/bees.h'], [('BeesHashTable::flush_dirty_extent', 'src/bees-hash.cc'), ('BeesHashTable::flush_dirty_extents, writeback_loop', 'src/bees-hash.cc'), ('BeesHashTable::set_extent_dirty_locked', 'src/bees-hash.cc')],
  note='Proved with other threads as arbitrary interference at lock operations; pwrite and condition variables are assumed contracts.')
P('C02', 'A file opened by id is exactly that file, read-only, inside its subvolume',
  'Opening a file by subvolume and inode number yields either nothing or a descriptor of a file with exactly that inode number, in exactly that subvolume, on the same device as the subvolume\'s root, with copy-on-write enabled. Only path names the kernel reports for that inode in that subvolume are tried, relative to the subvolume root, read-only, never following symbolic links and never leaving the subvolume. A subvolume opened by way of its parent directory is accepted only if what was opened is the root directory of exactly the wanted subvolume.',
  ['inputs', 'fault_sequences', 'schedules'], 'for all subvolume and inode numbers, any number of reported paths, and every outcome of each lookup, open and check, including files replaced between lookup and open',
  'The file system changes between the lookup and the open; each check rejects one kind of replacement, none of which a test can schedule, and no existing test links this code.',
  ['src/bees-roots.cc', 'src/bees.cc'], [('BeesRoots::open_root_ino_nocache', 'src/bees-roots.cc'), ('BeesRoots::open_root_nocache', 'src/bees-roots.cc'), ('bees_openat', 'src/bees.cc')],
  note='Proved for any number of paths and every reply of the kernel; openat2, fstat and the ioctls are assumed contracts, strings are identified by ghost ids.')
P('C05', 'State files are replaced atomically and read back whole',
  'At every moment, crashes included, the file under a state file\'s name holds either the complete old or the complete new contents: new contents are written to an initially empty temporary file in the same directory, which takes the old file\'s place only after every byte was written and, except on btrfs before kernel 5.17, successfully synced. Any failure raises an error and leaves the old contents in place; success is reported only once the new contents are in place. Reading yields the whole file or raises an error, except that a file that cannot be opened reads as empty.',
  ['inputs', 'crash_points', 'fault_sequences'], 'for all contents, size limits, file systems, kernel versions, and failures of each call; the state after a crash is any prefix of the calls made',
  'A crash or a failing sync between two particular calls is needed to show the difference; no test exercises a state file.',
  ['src/bees.cc'], [('BeesStringFile::write, read', 'src/bees.cc'), ('bees_fsync', 'src/bees.cc')],
  note='Proved for all inputs; rename atomicity and fsync are kernel contracts, std::string and std::regex are replaced by ghosts.')
P('C06', 'Saved scan positions never pass unfinished work and are kept up to date',
  'The saved position of a subvolume scan never passes a file that was found and is waiting, or a file or extent that is being scanned or was put off because another worker had it locked; what was put off is scanned again, and every data extent of the file in the scan\'s transaction range is scanned. The state file has one line for each started scan, with exactly its subvolume, position and transaction range, and a change counts as saved only after a save that includes it succeeded. On stop, the positions are saved once more before any work is abandoned, and the program ends only after the positions and the hash table were saved.',
  ['inputs', 'schedules', 'fault_sequences', 'crash_points'], 'for all positions, files, extents and transaction ranges, all failures of lookups, scans and saves, and changes and stop requests at any lock operation',
  'A lost position shows only after a crash or stop at one particular moment of a scan on a btrfs file system; no test runs a scan.',
  ['src/bees-roots.cc', 'src/bees-context.cc'], [('BeesScanModeSubvol::crawl_one_inode, BeesFileCrawl::scan_one_ref', 'src/bees-roots.cc'), ('BeesCrawl::fetch_extents, peek_front, pop_front, hold_state, set_state', 'src/bees-roots.cc'), ('BeesRoots::state_save, state_to_stream, insert_root, crawl_state_erase, writeback_thread, stop_request, stop_wait', 'src/bees-roots.cc'), ('BeesContext::stop', 'src/bees-context.cc')],
  note='Proved for all inputs with the tracker (C07), the tree search (C16) and the scan of one extent as contracts; threads are interference at lock operations.')
P('C07', 'The progress checkpoint is always the oldest unfinished work item',
  'While any work item is in progress the checkpoint is the oldest item in progress, whatever order items are started and finished in, and it never passes an item in progress; when nothing is in progress the checkpoint is the end. The end is the furthest item ever started and never moves back.',
  ['histories', 'schedules'], 'for all positions and every order of starting and finishing any number of items, from any number of threads',
  'The existing test runs one order of a handful of items; the guarantee is for every order, including items started behind the end when nothing else is in progress.',
  ['include/crucible/progress.h'], [('ProgressTracker and ProgressHolderState', 'include/crucible/progress.h')],
  note='Proved for all states of the tracker at once; the ordered set is replaced by a contract over witness items.')
P('C14', 'Dedupe and address lookups are kept apart in time',
  'Of two operations in different groups of the process-wide lock (dedupe requests and lookups of the references of an address), neither ever begins while the other is held, for any number of groups and operations. An operation waits only while an operation of another group is held, and one that waits holds nothing. An operation is counted exactly once while its handle exists and uncounted exactly once when the handle ends; a request that fails holds nothing; and when the last operation of a group ends, every waiting operation is woken. With locking turned off no operation is held back.',
  ['schedules', 'histories'], 'for any number of groups and operations, any interleaving at the lock and at waits, and late or spurious wakeups',
  'No test uses the lock, and what can go wrong needs a wakeup that arrives after another operation has begun.',
  ['lib/multilock.cc', 'include/crucible/multilock.h'], [('MultiLocker::get_lock_private, put_lock, is_lock_available, get_lock', 'lib/multilock.cc'), ('MultiLocker::LockHandle', 'lib/multilock.cc')],
  note='Proved for all states of the counters and any number of groups; the map of counters is a contract over the own group, one arbitrary other group and the rest, names are told apart by one character, and other threads are interference at the mutex and at waits.')
