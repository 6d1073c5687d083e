"""The properties (source of properties.jsonl) and what MANIFEST.json says about each check.
python3 props.py regenerates both files."""
import json, os

PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
             technique=technique, level_note=note, na=na, state=state, observe=observe)
    (NA if na else PROPS).append(d)


TESTS = 'The 47 existing tests exercise the task/coroutine/event/buffer runtime only; '

# ---------------------------------------------------------------- write-ahead log
P('W01', 'A log append is all-or-nothing and the LSN moves only with it',
  'When writing a batch to the write-ahead log fails at any point, the log file is cut back to the size it had before the batch (or the process stops) and the error is reported. '
  'The global LSN advances exactly when the whole batch was written, to the LSN of its last record, with the records numbered consecutively. '
  'Every log reader that is behind is then woken.',
  ['fault_sequences', 'inputs', 'schedules'], 'every batch of any number of records and operation logs, every I/O failure point, every interleaving of writers',
  TESTS + 'none writes a log, none injects an I/O error.',
  ['amelie/db/wal/wal.c', 'amelie/db/wal/wal_file.h', 'amelie/runtime/os/file.h', 'amelie/runtime/os/vfs.c', 'amelie/db/transaction/write.h'],
  [('catch, truncate to the saved size, rethrow', 'wal.c: wal_write'), ('LSN publication', 'wal.c: wal_write / write.h: write_end'), ('partial writes continued', 'vfs.c: vfs_writev')],
  'path analysis on SSA with explicit exceptional edges (typestate of the log file between first write and exit)',
  'All paths of the append function with every helper inlined, error edges included. Trusts LLVM front end, and that logging/ftruncate semantics are as documented.')

P('W02', 'Acknowledged writes are as durable as configured',
  'With sync-on-write enabled a batch is flushed to disk before its write call returns; with sync-on-create a new log file and its directory are flushed when it is created; with sync-on-close the old log file is flushed before it is replaced and the log is flushed at shutdown. '
  'A log file that reached its size limit is rotated, the new file becoming current only after it exists and is registered, named by the LSN after the last written one.',
  ['crash_points', 'configurations', 'fault_sequences'], 'every combination of the sync options, with and without the background log worker, at every crash point',
  TESTS + 'no test crashes a process or looks at flush order.',
  ['amelie/db/wal/wal_mgr.c', 'amelie/db/wal/wal.c', 'amelie/db/wal/wal_worker.c', 'amelie/db/wal/wal_periodic.c', 'amelie/runtime/os/file.h'],
  [('write, sync, rotate', 'wal_mgr.c: wal_mgr_write'), ('rotation', 'wal_mgr.c: wal_mgr_create, wal.c: wal_create'), ('shutdown', 'wal_mgr.c: wal_mgr_stop')],
  'must-pass path queries per option value (edges contradicting the option are cut)',
  'Decides that the flush calls lie on every path on which the option asks for them; that fdatasync/fsync reach the medium is the OS contract.')

P('W03', 'Log records are verified before they are used',
  'A record read back from the log is used only after its header was bounds-checked against the file and, when verification is on, its checksum matched; a mismatch is an error, never silently skipped. '
  'The checksum computed when writing covers exactly the bytes the reader verifies, in the same order.',
  ['inputs', 'fault_sequences'], 'every content of a log file (torn, truncated, corrupted)',
  TESTS + 'no test reads a log file.',
  ['amelie/db/transaction/record.h', 'amelie/db/transaction/write.h', 'amelie/db/transaction/write_log.h', 'amelie/db/wal/wal_cursor.c', 'amelie/db/wal/wal_file.h', 'amelie/db/wal/wal.c'],
  [('checksum written', 'write.h: write_add, write_end; write_log.h'), ('checksum verified', 'record.h: record_validate'), ('bounded read', 'wal_file.h: wal_file_pread')],
  'dominance of uses by validation; symbolic agreement of checksum ranges between writer and reader',
  'Structural agreement of the ranges and dominance on all paths; not a proof that CRC32 detects every corruption.')

P('W04', 'Log files still needed are never removed',
  'Removing old log files never removes a file that contains a record with an LSN at or above the lowest LSN any registered reader or running snapshot still needs, and never the newest file. '
  'A snapshot registers its hold on the log before it lists the files, atomically with respect to removal.',
  ['histories', 'schedules'], 'every set of log files, registered readers and requested minimum',
  TESTS + 'log removal is never run.',
  ['amelie/db/wal/wal.c', 'amelie/runtime/lib/id_mgr.h'],
  [('lowest reader LSN', 'wal.c: wal_slots'), ('removable prefix', 'id_mgr.h: id_mgr_gc_between'), ('snapshot hold', 'wal.c: wal_snapshot')],
  'value-flow of the minimum (direction of each update), guard analysis of the removal loop, lock-set of snapshot',
  'Decides direction and guards of the comparisons and the lock scope; arithmetic on unbounded id lists is argued from the loop guard.')

P('W05', 'Opening the log resumes at its true end; truncation removes only later records',
  'Opening a log directory registers every log file, makes the newest one current and positions writes at its end, and creates a first file only if none exists. '
  'Truncating the log at an LSN keeps every record up to and including it, removes everything after it in that file and all later files, and the option is cleared afterwards so it applies once.',
  ['histories', 'inputs', 'crash_points'], 'every set of log files and every truncation LSN',
  TESTS + 'no test opens a log directory.',
  ['amelie/db/wal/wal.c', 'amelie/db/wal/wal_cursor.c', 'amelie/runtime/lib/id_mgr.h'],
  [('open', 'wal.c: wal_open'), ('truncate', 'wal.c: wal_truncate'), ('cursor', 'wal_cursor.c: wal_cursor_open, wal_cursor_read')],
  'path and guard analysis of the scan loops, offset value-flow',
  'All paths of the open/truncate/cursor functions; the content of the scanned files is abstract.')

P('W06', 'A request to the background log worker is never lost',
  'Every action requested from the background log worker (flush, rotate, flush after create, shutdown) is eventually performed by it even when several requests are merged into one wakeup or one of them turns out to be unnecessary; a shutdown request always ends the worker.',
  ['schedules', 'histories'], 'every interleaving of requests and worker iterations',
  TESTS + 'the worker is not started by any test.',
  ['amelie/db/wal/wal_worker.c'],
  [('request under lock + signal', 'wal_worker.c: wal_worker_request'), ('take and clear under lock', 'wal_worker.c: wal_worker_main')],
  'bit-tracking dataflow: each requested bit reaches its handler on every path of an iteration',
  'All paths of one worker iteration for each request bit; fairness of the scheduler is assumed.')

P('W07', 'A reader of the log misses no record',
  'A reader of the log that was placed at an LSN returns the first record at or above it and then every following record, each once and in order, across all later files, while the log is written, rotated and read at the same time. '
  'It leaves a file only when no further record can be written to it, its position moves by exactly the record it returned, and the end of the log is reported only when no complete record follows.',
  ['schedules', 'histories'], 'every interleaving of a reader with writes and rotations, every set of log files',
  TESTS + 'no test reads a log.',
  ['amelie/db/wal/wal_cursor.c', 'amelie/db/wal/wal_file.h', 'amelie/db/wal/wal.c'],
  [('read and next file', 'wal_cursor.c: wal_cursor_read'), ('placement', 'wal_cursor.c: wal_cursor_open'), ('collecting', 'wal_cursor.c: wal_cursor_readahead'), ('listing of a new file', 'wal.c: wal_create')],
  'value flow on every path between loop heads of the reader; order of the size check and the file list; common critical section of listing and switching',
  'All paths of the reader for every state it can begin a round in; that removal does not take files a reader needs is W04.')

# ---------------------------------------------------------------- files
P('F01', 'The catalog file is replaced atomically and restored completely',
  'Saving the catalog never leaves a state in which neither the previous nor the new catalog can be read back: the new content is written and flushed to a temporary file before the old file is removed, and only then takes its name. '
  'At startup a leftover temporary file is used exactly when the real one is missing and discarded otherwise, and every section that was saved is restored in dependency order.',
  ['crash_points', 'fault_sequences'], 'every crash point during a save, every catalog content',
  TESTS + 'the catalog is not exercised.',
  ['amelie/db/catalog/catalog_file.c', 'amelie/db/catalog/catalog.c', 'amelie/runtime/os/fs.h'],
  [('write, sync, unlink, rename', 'catalog_file.c: catalog_write'), ('recover', 'catalog_file.c: catalog_read'), ('sections', 'catalog.c: catalog_dump / catalog_restore')],
  'ordering (dominance) of file operations on all paths; section agreement of writer and reader',
  'All paths of save and restore; the file system is assumed to keep the order of synced operations.')

P('F02', 'Data files become visible only when complete and flushed',
  'A heap or object file is created under an incomplete name, receives all its content, is flushed when synchronous creation is on, and only afterwards is renamed to its final name; a failure before that leaves no file under the final name. '
  'Recovery removes incomplete files and never loads them.',
  ['crash_points', 'fault_sequences', 'configurations'], 'every crash point and I/O failure while a file is produced',
  TESTS + 'no test produces a data file.',
  ['amelie/db/heap/heap_file.c', 'amelie/db/object/object.c', 'amelie/db/object/writer.c', 'amelie/db/part/part_mgr_recover.c', 'amelie/db/tier/tier.c', 'amelie/db/storage/id.h'],
  [('heap creation', 'heap_file.c: heap_create'), ('object creation', 'object.c: object_create, writer.c'), ('recovery of leftovers', 'part_mgr_recover.c, tier_mgr')],
  'ordering of create/write/flush/rename events on all paths; state argument constants of each step',
  'All paths of the producing functions; the rename atomicity of the file system is trusted.')

P('F03', 'Stored data is verified before it is used',
  'Data read from a heap or object file is used only after its magic number, version and checksums were checked against what was stored, for every part that carries a checksum when verification is on; a mismatch is reported as an error. '
  'The checks cover exactly the bytes the writer covered, and rows, regions and their index entries are read at the place and with the size the writer gave them.',
  ['inputs', 'fault_sequences', 'configurations'], 'every content of a data file',
  TESTS + 'no test reads a data file.',
  ['amelie/db/heap/heap_file.c', 'amelie/db/object/object.c', 'amelie/db/object/reader.h', 'amelie/db/object/meta_writer.h', 'amelie/db/object/region_writer.h', 'amelie/db/storage/encoder.h'],
  [('heap header and pages', 'heap_file.c: heap_open'), ('object meta', 'object.c: object_read'), ('region', 'reader.h: reader_execute')],
  'dominance of use by validation; field-by-field agreement of header writer and reader',
  'All paths; corruption that keeps a CRC32 is out of reach.')

P('F04', 'No failed file or socket operation passes for success',
  'The result of every operating-system call that can fail on the data path (open, read, write, truncate, flush, rename, seek, size) is examined on every path, and a failure becomes an error of the caller, never a normal continuation with partial or stale data.',
  ['fault_sequences'], 'every call site and every failing call',
  TESTS + 'no fault is injected.',
  ['amelie/runtime/os/file.h', 'amelie/runtime/os/vfs.c', 'amelie/runtime/os/fs.h', 'amelie/runtime/os/socket.c', 'amelie/runtime/os/tcp.c'],
  [('-1 convention and file_error', 'file.h'), ('fs helpers', 'fs.h')],
  'unchecked-result dataflow over every call site; failure edges must raise or return the failure',
  'Every call site in the analysed program; best-effort calls are an explicit list.')

P('F05', 'Configuration and state survive a restart unchanged',
  'Every persistent setting is written by a save and read back by the next start with the same value and type; a save rewrites the whole file and flushes nothing partial over good data unless it can be recovered. '
  'Settings given at start are validated before they take effect.',
  ['crash_points', 'configurations', 'inputs'], 'every set of options and every crash point of a save',
  TESTS + 'no test saves state.',
  ['amelie/runtime/runtime/config.c', 'amelie/runtime/runtime/state.c', 'amelie/runtime/runtime/opts.c', 'amelie/runtime/runtime/opt.h'],
  [('save/open', 'config.c, state.c'), ('option table', 'opts.c')],
  'ordering of file operations, per-type exhaustiveness of option reader/writer, option flag table rules',
  'All paths of save and load; JSON text fidelity is decided separately.')

# ---------------------------------------------------------------- transactions
P('T01', 'A transaction is applied in order or undone in reverse, completely',
  'Committing finishes every operation of the transaction in the order it was made and aborting undoes every operation in exactly the reverse order; nothing is skipped. '
  'A transaction ends exactly once, and everything it recorded is released and its logs are emptied afterwards.',
  ['histories', 'fault_sequences'], 'every sequence of operations and every point of failure',
  TESTS + 'transactions are never run.',
  ['amelie/db/transaction/commit.c', 'amelie/db/transaction/log.h', 'amelie/db/transaction/tr.h'],
  [('commit', 'commit.c: tr_commit, log_commit'), ('abort', 'commit.c: tr_abort, log_abort')],
  'loop-direction analysis (induction variable bounds and step) and dispatch coverage per operation class',
  'All paths of commit and abort over the operation log; callbacks are decided by T02, T03 and T04.')

P('T02', 'Aborting a row operation restores the row and every index',
  'When a transaction aborts, an inserted row is removed and a replaced or deleted row is put back, in the primary and in every secondary index it had reached, and the space of rows that never became visible is released; when it commits, exactly the superseded row is released. '
  'A row operation is registered for undo together with the change of the index, with nothing that may fail in between.',
  ['histories', 'fault_sequences', 'inputs'], 'every row operation, any number of indexes, failure after any of them',
  TESTS + 'no row operation is run.',
  ['amelie/db/part/part_op.c', 'amelie/db/part/part.c', 'amelie/db/transaction/log.h', 'amelie/db/index/index_tree.c', 'amelie/db/index/index_hash.c'],
  [('register then change', 'part_op.c: part_insert, part_upsert, part_update, part_delete'), ('undo handlers', 'part_op.c: log_if_*')],
  'ordering of registration and mutation; inverse-operation analysis of the undo handlers',
  'All paths of the row operations and their handlers.')

P('T03', 'Every schema change can be undone and is undone exactly',
  'Each schema change registers its undo information before or together with the change it makes, keeps the previous value it overwrites, and aborting it restores that value and nothing else; commit and abort of a change come as a pair for the same kind of object. '
  'A change that fails before it is registered leaves the schema unchanged.',
  ['histories', 'fault_sequences'], 'every kind of schema change and every failure point after it',
  TESTS + 'no schema change is run.',
  ['amelie/db/catalog/table_mgr_alter.c', 'amelie/db/catalog/table_tier.c', 'amelie/db/catalog/table_index.c', 'amelie/db/catalog/udf_mgr.c', 'amelie/db/transaction/relation_mgr.c', 'amelie/db/storage/storage_mgr.c'],
  [('saved previous value', '*_if tables of commit/abort handlers'), ('registration', 'log_relation / log_persist')],
  'pairing of save/overwrite/restore per field (def-use), exception edges between change and registration',
  'Every undo table in the program; the identity of the saved field is tracked per field name.')

P('T04', 'Finishing a transaction cannot fail',
  'Undoing or finishing an operation never raises an error out of the handler, so that an abort always completes and a durable commit is never reported as failed halfway.',
  ['fault_sequences', 'histories'], 'every operation kind and every failure inside its handler',
  TESTS + 'no handler runs in a test.',
  ['amelie/db/transaction/commit.c', 'amelie/db/catalog', 'amelie/db/part/part_op.c', 'amelie/db/storage/storage_mgr.c'],
  [('commit/abort handlers', 'tables of commit/abort pairs')],
  'interprocedural may-raise analysis of every registered commit/abort handler',
  'Whole-program call graph with resolved function pointers; memory exhaustion is out of scope, and decoding undo data the transaction encoded itself is trusted to succeed.')

P('T05', 'Every durable change is logged with what is needed to redo it',
  'A row change made by a transaction on a logged table is added to the transaction log with its operation kind, its table partition and its row, a change on an unlogged table is not, and a schema change is added with its encoded operation; the record that is written accounts for exactly the bytes added.',
  ['histories', 'inputs'], 'every mix of operations in a transaction',
  TESTS + 'no change is logged in a test.',
  ['amelie/db/transaction/log.h', 'amelie/db/transaction/write_log.h', 'amelie/db/transaction/write.h', 'amelie/db/part/part_op.c', 'amelie/db/catalog/catalog.c'],
  [('row logging', 'log.h: log_persist*'), ('record accounting', 'write.h: write_add')],
  'must-call on all successful paths, value-flow of the size/count accounting',
  'All paths of the row and schema operations.')

P('T06', 'A row is either in all indexes of its partition or in none',
  'Every row operation updates each secondary index of the partition and not only the primary one, a unique violation in any of them is an error raised before the operation is reported successful; opening a partition puts every stored row into all its indexes, and an index added to or dropped from a table is added to or dropped from every partition without losing another one.',
  ['inputs', 'histories', 'fault_sequences'], 'any number of indexes of any type, violation in any of them',
  TESTS + 'no partition is created in a test.',
  ['amelie/db/part/part_op.c', 'amelie/db/part/part.c', 'amelie/db/index'],
  [('index loops', 'part_op.c')],
  'loop-coverage and result-use analysis of the index maintenance loops',
  'All paths of the maintenance loops.')

P('D01', 'A schema operation means the same when it is replayed',
  'Every schema operation that is encoded into the log is decoded with the same fields, in the same order and of the same types, and is dispatched to the action of the same kind; no operation kind is left without a decoder.',
  ['inputs', 'histories'], 'every operation kind and every field value',
  TESTS + 'no schema operation is encoded by a test.',
  ['amelie/db/catalog/ddl.h', 'amelie/db/catalog/table_op.h', 'amelie/db/catalog/udf_op.h', 'amelie/db/catalog/database_op.h', 'amelie/db/catalog/storage_op.h', 'amelie/db/catalog/catalog.c'],
  [('writers', '*_op.h: *_op_*'), ('readers', '*_op.h: *_op_*_read'), ('dispatch', 'catalog.c: catalog_execute')],
  'abstract token-sequence extraction of each writer and reader and their comparison; switch exhaustiveness',
  'Token sequences are extracted from all paths; repetition is compared by shape.')

P('D02', 'Every stored definition reads back as it was written',
  'Each definition kept in the catalog (database, table, columns, keys, constraints, indexes, partitions, tiers, storages, volumes, functions, users) is written with every field its reader requires, under the same name and type, and copying it copies every such field.',
  ['inputs', 'histories'], 'every definition and every field',
  TESTS + 'no definition is saved by a test.',
  ['amelie/db/catalog/table_config.h', 'amelie/db/row/column.h', 'amelie/db/row/constraints.h', 'amelie/db/index/index_config.h', 'amelie/db/tier/tier_config.h', 'amelie/db/storage/storage_config.h', 'amelie/db/catalog/udf_config.h', 'amelie/db/catalog/database_config.h', 'amelie/server/user/user_config.h'],
  [('write/read/copy', '*_config.h')],
  'extraction of (name, kind, field) tables from writer, reader and copier and their comparison',
  'All definitions with a writer and a reader in the program.')

# ---------------------------------------------------------------- concurrency
P('C01', 'Every lock taken is released on every path',
  'A spinlock or mutex that a function acquires is released exactly once before the function ends, whether it returns or an error passes through it, and is never released without being held or acquired twice.',
  ['schedules', 'fault_sequences'], 'every path of every function, error paths included',
  TESTS + 'error paths between lock and unlock are not reached.',
  ['amelie/runtime', 'amelie/db', 'amelie/server'],
  [('spinlock/mutex', 'spinlock.h, mutex.h'), ('defer on unwind', 'defer.h')],
  'interprocedural lock-set dataflow with exceptional edges',
  'Every function of the program; functions that deliberately return with a lock are summarised and checked at their callers.')

P('C02', 'No one sleeps or raises while holding a spinlock',
  'While a spinlock is held, no operation that can suspend the coroutine, block on a mutex or condition, perform file or network I/O or raise an error is executed.',
  ['schedules', 'fault_sequences'], 'every path and every call made under a spinlock',
  TESTS + 'a suspended holder needs a particular interleaving.',
  ['amelie/runtime', 'amelie/db'],
  [('spinlock regions', 'all spinlock users')],
  'effect analysis (may-suspend, may-block, may-raise) over the call graph combined with lock sets',
  'Whole call graph with resolved function pointers.')

P('C03', 'Locks are taken in one global order',
  'There is no cycle among the orders in which two locks of the system are held together, so no set of threads can wait for each other forever.',
  ['schedules'], 'every pair of lock acquisitions',
  TESTS + 'deadlocks need a particular interleaving.',
  ['amelie/runtime', 'amelie/db'],
  [('nested locks', 'wal.c, lock_mgr.h, task.c, job_mgr.c')],
  'lock-order graph over the call graph, cycle search',
  'Locks are identified by structure field; instances of the same field are treated as one.')

P('C04', 'Shared state is touched only under its lock',
  'State that several threads share and that is protected by a lock is read and modified only while that lock is held, after the object has been published.',
  ['schedules'], 'every access to a guarded field',
  TESTS + 'a race needs a particular interleaving.',
  ['amelie/runtime/base', 'amelie/runtime/lib', 'amelie/runtime/runtime', 'amelie/db/wal', 'amelie/server'],
  [('guarded fields', 'lock and the fields it protects in one structure')],
  'guarded-by lock-set analysis with an inferred and declared field/lock table',
  'Init/free functions are exempt; callers that hold the lock are tracked through the call graph.')

P('C05', 'Incompatible table locks are never held together',
  'Two holders never have conflicting locks on the same object: an exclusive lock excludes every other one, an exclusive read-only lock excludes writers, and shared holders do not exclude one another; compatibility is symmetric.',
  ['schedules', 'inputs'], 'every pair of lock kinds and every number of holders',
  TESTS + 'the lock tests sample some pairs.',
  ['amelie/runtime/runtime/lock_mgr.h', 'amelie/runtime/runtime/lock_id.h', 'amelie/runtime/runtime/relation.h'],
  [('compatibility', 'lock_mgr.h: lock_resolve'), ('counts per kind', 'relation.h')],
  'constant propagation of the compatibility decision for every pair of lock kinds against the required matrix',
  'The whole (requested kind x held kinds) space is evaluated abstractly from the source.')

P('C06', 'Lock waiters are served in order and never forgotten',
  'A lock request that must wait is queued and later arrivals do not overtake it; a release accounts for exactly the lock that was granted and grants every waiter that has become compatible, in order, waking each exactly once; a transaction that ends releases all its locks. '
  'A request that is repeated by the same holder is counted, not queued.',
  ['schedules', 'histories'], 'every sequence of lock, unlock and cancellation by any number of holders',
  TESTS + 'the lock tests sample a few interleavings.',
  ['amelie/runtime/runtime/lock_mgr.h', 'amelie/runtime/runtime/lock.h', 'amelie/runtime/runtime/access.h'],
  [('grant/queue', 'lock_mgr.h: lock_mgr_lock'), ('release/wake', 'lock_mgr.h: lock_mgr_unlock')],
  'path analysis of grant/queue/release with counter balance and guard conditions',
  'All paths of the lock manager.')

P('C07', 'No wakeup is lost',
  'A thread or coroutine that waits for a condition re-checks it after every wakeup and goes to sleep atomically with the check; whoever makes the condition true signals afterwards, on every path, while or after holding the same lock.',
  ['schedules'], 'every interleaving of waiting and signalling',
  TESTS + 'a lost wakeup needs a particular interleaving.',
  ['amelie/runtime/base/cond_var.h', 'amelie/runtime/base/cond.h', 'amelie/runtime/base/event.h', 'amelie/runtime/base/bus.h', 'amelie/runtime/base/mailbox.h', 'amelie/runtime/base/task.c', 'amelie/runtime/lib/job_mgr.c', 'amelie/db/wal/wal_worker.c'],
  [('wait loops', 'cond_var_wait callers'), ('sleep flag', 'bus.h, task.c')],
  'loop and lock-set analysis of waits, must-signal analysis after each state change',
  'Every wait site of the program; memory-order of the atomic flag protocol is checked as sequentially consistent.')

P('C08', 'Every request is completed exactly once',
  'A remote call or background job that was accepted is executed and its submitter is woken exactly once, also when the handler raises an error, which is then delivered to the submitter.',
  ['schedules', 'fault_sequences'], 'every request, every error in its handler',
  TESTS + 'errors in handlers are sampled.',
  ['amelie/runtime/base/rpc.h', 'amelie/runtime/base/rpc_set.h', 'amelie/runtime/lib/job.h', 'amelie/runtime/lib/job_mgr.c', 'amelie/runtime/lib/job_worker.c'],
  [('execute and signal', 'rpc.h: rpc_execute; job.h: job_run')],
  'must-pass analysis of the completion signal on all paths, error paths included',
  'All paths of the executors and worker loops.')

P('C09', 'Errors unwind correctly',
  'An error raised inside a protected block is caught by that block, cleanup actions registered before it run in reverse order exactly once, and cleanup actions themselves never raise; leaving a protected block always restores the previous handler. '
  'A coroutine never ends with an error nobody caught.',
  ['fault_sequences', 'programs'], 'every protected block and every error inside it',
  TESTS + 'the exception tests sample the macros.',
  ['amelie/runtime/base/exception.h', 'amelie/runtime/base/throw.h', 'amelie/runtime/base/defer.h', 'amelie/runtime/base/task.c'],
  [('error_catch/defer', 'throw.h, defer.h, exception.h')],
  'region analysis of handler push/pop, may-raise analysis of cleanup functions',
  'Every protected block and every registered cleanup in the program.')

P('C10', 'Cancellation leaves nothing behind that points into a dead stack',
  'A coroutine that is cancelled or fails while waiting is no longer reachable from any shared structure once its stack frame is gone: events, timers, waiters and requests placed there are removed or waited for first, and pauses of cancellation are always undone.',
  ['schedules', 'fault_sequences'], 'every wait and every cancellation point',
  TESTS + 'cancellation tests sample a few waits.',
  ['amelie/runtime/base/wait.h', 'amelie/runtime/base/event.h', 'amelie/runtime/base/rpc.h', 'amelie/runtime/os/poll.h', 'amelie/runtime/base/timer_mgr.h'],
  [('stack events', 'wait.h, poll.h'), ('cancel pause', 'coroutine.h: cancel_pause / cancel_resume')],
  'escape analysis of stack objects into shared structures, must-unlink on exceptional edges',
  'Every stack object of an event, timer, request or list-node type whose address is stored.')

# ---------------------------------------------------------------- server / security
P('S01', 'Only a valid, unexpired token of an existing user authenticates',
  'A request is authenticated as a user only if it carries a token whose algorithm and type are the accepted ones, whose signature verifies with that existing user\'s non-empty secret, and which is within its validity period; anything else is refused, including any internal error on the way. '
  'A cached decision is used only for the identical token, only until it expires, and is dropped whenever users change.',
  ['inputs', 'histories', 'fault_sequences'], 'every request header, every clock value, every history of user changes',
  TESTS + 'authentication has no test.',
  ['amelie/server/auth/auth.c', 'amelie/server/auth/auth_cache.c', 'amelie/server/auth/jwt_decode.c', 'amelie/server/auth/jwt.c'],
  [('decision', 'auth.c: auth'), ('signature', 'jwt_decode.c: jwt_decode_validate'), ('cache', 'auth_cache.c')],
  'dominance of every accepting return by each verification with its polarity',
  'All paths of the decision function with helpers inlined; OpenSSL primitives are trusted.')

P('S02', 'Secrets are not disclosed',
  'The secret of a user or a secret option value appears in an output only where the caller asked for secrets explicitly; listings, descriptions and logs never contain it.',
  ['inputs', 'configurations'], 'every option and every user listing',
  TESTS + 'listings have no test.',
  ['amelie/server/user/user_config.h', 'amelie/server/user/user_mgr.c', 'amelie/runtime/runtime/opts.c', 'amelie/runtime/runtime/opt.h'],
  [('secret flag', 'opts.c: opts_list; user_config.h: user_config_write')],
  'taint of secret fields to output encoders, guarded by the secrets flag',
  'Every encoder call whose argument derives from a secret field.')

P('S03', 'An encrypted connection verifies its peer as configured',
  'When certificate verification is configured, a connection is used only after the handshake finished and the peer certificate and name were checked; any failure of the handshake or of the check closes it, and no plain bytes are sent on a connection configured for encryption. '
  'The obsolete protocol versions SSL 2 and 3 and anonymous or empty ciphers are refused. (Without configured authorities a self-signed peer certificate is accepted: that is the documented meaning of not configuring them.)',
  ['inputs', 'configurations', 'fault_sequences'], 'every peer certificate and every handshake outcome',
  TESTS + 'TLS has no test.',
  ['amelie/runtime/os/tls.c', 'amelie/runtime/os/tls_context.c', 'amelie/runtime/os/tcp.c'],
  [('handshake', 'tls.c: tls_handshake'), ('peer verification', 'tls.c: tls_verify*')],
  'dominance of use by verification, error-result checks of every TLS library call',
  'All paths; the TLS library is trusted.')

P('S04', 'Untrusted input never causes out-of-bounds access or unbounded growth',
  'Whatever bytes a client, URI, token or text document contains, parsing them reads only within the given bytes and writes only within the destination, and header and content sizes are limited before memory is reserved.',
  ['inputs'], 'every byte sequence',
  TESTS + 'parsers are not fuzzed.',
  ['amelie/server/http/http.c', 'amelie/server/http/uri.c', 'amelie/runtime/json/json_parser.c', 'amelie/runtime/lib/base64.c', 'amelie/runtime/lib/base64url.c', 'amelie/runtime/lib/utf8.h', 'amelie/runtime/lib/uuid.c'],
  [('cursor checks', 'parsers compare the cursor with the end before reading')],
  'bounds-guard analysis: each read through a parsing cursor must be dominated by an end check; table index range analysis',
  'Every dereference of a cursor into untrusted bytes in the listed parsers; ranges are inferred from types and dominating comparisons.')

P('S05', 'Option protections are enforced',
  'A setting is changed at run time only if it is known, allowed to change in that phase and of the right type; hidden and secret settings stay out of listings and computed settings out of files.',
  ['inputs', 'configurations'], 'every option and every attempted value',
  TESTS + 'options have no test.',
  ['amelie/runtime/runtime/opts.c', 'amelie/runtime/runtime/opt.h', 'amelie/runtime/runtime/config.c', 'amelie/runtime/runtime/state.c'],
  [('flags', 'opts.c: opts_set*, opts_list*')],
  'dominance of each option write by its protection check, flag table rules',
  'All paths of the option setters and listings.')

P('S06', 'One client cannot take the server down',
  'An error while accepting or serving one client is confined to it: its socket, buffers and session are released on every path, it is removed from the client list, and the accept loop continues with the next client.',
  ['fault_sequences', 'inputs', 'schedules'], 'every client error at every point of a connection',
  TESTS + 'the server has no test.',
  ['amelie/server/server/server.c', 'amelie/server/client/client.c', 'amelie/server/client/client_mgr.h'],
  [('accept loop', 'server.c: server_accept*'), ('client lifetime', 'client.c')],
  'exception-edge confinement and release-on-all-paths analysis of the accept loop',
  'All paths of the accept loop and client lifecycle functions.')

# ---------------------------------------------------------------- memory and structure
P('M01', 'What a failing operation acquired is released',
  'When an operation fails, the memory, descriptors and temporary files it acquired and did not hand over are released before the error leaves it, and nothing is released twice or used after release.',
  ['fault_sequences'], 'every failure point of every operation',
  TESTS + 'failure points are not injected.',
  ['amelie/runtime', 'amelie/db', 'amelie/server'],
  [('errdefer/defer', 'defer.h')],
  'ownership dataflow of allocations on normal and exceptional edges',
  'Every allocation site whose result stays local; ownership transfer is recognised by store, return or documented sinks.')

P('M02', 'Shared objects live as long as they are referenced',
  'A reference-counted object is freed exactly when its last reference is dropped, and every path that takes a reference drops or hands it over.',
  ['schedules', 'histories'], 'every reference taken on every path',
  TESTS + 'reference counts are only sampled.',
  ['amelie/runtime/base/buf.h', 'amelie/runtime/lib/codec_cache.h', 'amelie/db/storage/storage.h', 'amelie/db/storage/volume_mgr.h', 'amelie/server/client/request.h'],
  [('ref/unref', 'buf.h, storage.h, volume.h')],
  'counter balance per path and zero-test guard of the release',
  'All functions that change a reference count.')

P('H01', 'Heap rows never overlap or leave their page',
  'A row is stored only in space that was reserved for it: the chosen page has room for the whole row, the cursor advances by exactly that size, a reused slot is at least as large as requested, and a freed slot returns to the list of its own size class exactly once.',
  ['inputs', 'histories'], 'every sequence of row sizes and releases',
  TESTS + 'the heap tests sample a few sizes.',
  ['amelie/db/heap/heap.c', 'amelie/db/heap/heap.h', 'amelie/db/heap/page_mgr.h'],
  [('allocation', 'heap.c: heap_add'), ('release', 'heap.c: heap_remove'), ('size classes', 'heap.h')],
  'guard and value-flow analysis of the allocator, constant evaluation of the size-class table',
  'All paths of allocation and release; the size-class table is evaluated from the source.')

P('L01', 'Every loop can make progress',
  'No loop of the system waits on a condition its own body can never change: each loop has an exit whose condition depends on something the body or another thread modifies.',
  ['inputs', 'histories'], 'every loop',
  TESTS + 'most loops are never entered.',
  ['amelie/runtime', 'amelie/db', 'amelie/server'],
  [('loops', 'all loops')],
  'loop-invariance analysis of every exit condition',
  'Every loop of the program; progress is decided for conditions on locals, fields and calls, termination in general is not claimed.')

P('I01', 'All index kinds and iterators obey one contract',
  'Every index kind provides every operation and each operation reports the previous row the same way; every iterator yields end exactly when it has no row, advances on each step over every remaining partition or region, and never reads past its last element.',
  ['inputs', 'histories', 'programs'], 'every index kind and every iterator kind',
  TESTS + 'iterators are sampled on the heap only.',
  ['amelie/db/index', 'amelie/db/heap/heap_iterator.h', 'amelie/db/object', 'amelie/db/part/cursor.c', 'amelie/db/row/iterator.h'],
  [('interface tables', 'index_tree.c, index_hash.c'), ('merge iterators', 'index_*_merge.h')],
  'sibling agreement of interface tables; bound guards of element accesses in iterators',
  'Every interface table and iterator in the program.')

P('J01', 'Encoded values decode to themselves',
  'Every kind of value that can be encoded is recognised by the reader, the size computation, the skipper, the comparison and the exporter with the same tag and the same width, and an unknown tag is an error.',
  ['inputs'], 'every value kind and every tag',
  TESTS + 'the value encoding has no test.',
  ['amelie/runtime/json/json.h', 'amelie/runtime/json/encode.h', 'amelie/runtime/json/decode.h', 'amelie/runtime/json/json_compare.h', 'amelie/runtime/json/json_export.c'],
  [('tags', 'json.h'), ('sizes', 'json.h: json_sizeof*'), ('skip', 'json.h: json_skip')],
  'tag-coverage and width agreement between writers, readers, skipper and exporter',
  'All tag tests in the listed functions.')

P('E01', 'Every kind is handled wherever kinds are distinguished',
  'Wherever the system distinguishes the kinds of an enumeration (types, relations, operations, messages, commands), every kind that can occur is handled or explicitly refused; tables indexed by a kind have an entry for every kind in the kind\'s order.',
  ['inputs', 'programs'], 'every switch and every kind-indexed table',
  TESTS + 'rare kinds are not exercised.',
  ['amelie/runtime', 'amelie/db', 'amelie/server'],
  [('enumerations', 'all enumerations and switches')],
  'exhaustiveness of switches and tables against the enumeration definitions',
  'Every switch over an enumeration and every table indexed by one.')

P('R01', 'A stored row contains exactly the columns its table defines',
  'A row is created with the size computed from its columns, each column is written at the place its reader looks for it, a null is recorded exactly for absent values, and no column is written beyond the reserved size.',
  ['inputs'], 'every table definition and every combination of column values',
  TESTS + 'rows are only sampled.',
  ['amelie/db/row/row.h', 'amelie/db/row/compare.h', 'amelie/db/row/columns.h', 'amelie/db/row/key.h', 'amelie/db/row/keys.h'],
  [('layout', 'row.h: row_allocate, row_column, row_column_set')],
  'symbolic agreement of layout arithmetic between writer and reader',
  'The layout functions of the row format.')

# ---------------------------------------------------------------- not decided statically
P('Q01', 'Query results equal the relational meaning of the statement',
  'The result of every query equals what the SQL semantics define for the data visible to it.',
  ['inputs', 'histories'], 'every statement and database state', TESTS + 'no query is run.',
  ['amelie/sql', 'amelie/compiler'], [('compiler and VM', 'amelie/vm')],
  na='Functional correctness of query evaluation quantifies over run-time data; no static argument in reach decides it, and the compiler and VM are not part of the tree that builds here.')
P('Q02', 'Concurrent transactions are serializable',
  'The outcome of concurrently executed transactions equals that of some serial order.',
  ['schedules', 'histories'], 'every set of transactions and interleavings', TESTS + 'no transactions are run concurrently.',
  ['amelie/db/transaction/commit.c'], [('consensus', 'amelie/vm')],
  na='A history-level property of run-time schedules across executor code that is not built here; only its static ingredients (lock compatibility, ordering, undo) are claimed, as C05, C06, T01-T06.')
P('Q03', 'Ordered and hashed lookups return exactly the stored keys',
  'After any sequence of insertions and deletions, an index lookup finds exactly the present keys, in key order.',
  ['histories', 'inputs'], 'every operation sequence', TESTS + 'no index is built.',
  ['amelie/db/index/tree.c', 'amelie/db/index/hash.h'], [('tree and hash', 'amelie/db/index')],
  na='Needs an inductive heap-shape argument (balance, ordering, probing) over unbounded structures; dataflow cannot decide it and path solving is another family. Interface agreement and iterator bounds are claimed as I01.')
P('Q04', 'A replica converges to the primary',
  'After receiving all log records a replica holds the same data as its primary.',
  ['histories', 'schedules', 'fault_sequences'], 'every log and connection failure sequence', TESTS + 'replication is not run.',
  ['amelie/db/wal/wal_cursor.c'], [('replication', 'amelie/repl')],
  na='Replication code is not part of the tree that builds here and the property is about run-time histories; log reading is claimed as W03 and W05.')
P('Q05', 'Date, interval and number arithmetic is correct',
  'Every date, timestamp, interval and numeric operation returns the mathematically right value or an overflow error.',
  ['inputs'], 'every operand', TESTS + 'only samples.',
  ['amelie/runtime/lib/timestamp.c', 'amelie/runtime/lib/interval.c', 'amelie/runtime/lib/date.c'], [('arithmetic', 'timestamp.c')],
  na='Value-level arithmetic correctness over all inputs is a solver or proof question, not a dataflow one.')
P('Q06', 'Compression and text encoding round-trip',
  'Decoding what was encoded yields the original bytes for every codec, base64, escape and JSON text form.',
  ['inputs'], 'every byte sequence', TESTS + 'no codec test.',
  ['amelie/runtime/lib/codec_compression.c', 'amelie/runtime/lib/base64.c', 'amelie/runtime/json/escape.h'], [('codecs', 'codec_compression.c')],
  na='Round-trip equality quantifies over run-time byte contents; statically only bounds and tag agreement are in reach (S04, J01).')


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    built = lambda p: os.path.exists(os.path.join(here, 'engine', 'rules', p['id'].lower() + '.py'))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NA:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p.get('state'):
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'].strip(),
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                     'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                     'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['level_note']}
                    for p in PROPS if built(p)],
         'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in PROPS if not built(p)] +
                           [{'property': p['id'], 'reason': p['na']} for p in NA]}
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
