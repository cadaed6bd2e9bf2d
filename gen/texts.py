T = {}
NA = {}


def t(pid, title, statement, over, qtext, why, files, mech, technique, note):
    T[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note)


ALLU = 'Holds for every path of the control-flow graph of every library function as compiled; library callees outside the tree (libc, pthread) are modelled by contract.'
SRC = 'src/c/'

t('C01', 'Locks are balanced on every path of every call',
  'Whenever a call into the library returns, every mutex and read-write lock it acquired has been released exactly once, and none was released that it did not hold or taken a second time by the same thread. This includes all error and early-return paths. Only the calls documented to change the caller\'s lock state (locking or unlocking a component or mutex for the caller) leave a lock in a different state.',
  ['schedules', 'inputs', 'fault_sequences'], 'every path through every public function and every thread body, for any interleaving',
  'A path that forgets or repeats an unlock is an error or race path tests do not take; one missed release blocks the process for ever.',
  [SRC + 'scheduler.c', SRC + 'threadpool.c', SRC + 'queue.c', SRC + 'logger.c', SRC + 'component.c', SRC + 'container.c', SRC + 'uuid.c', SRC + 'thread.c'],
  [('lock and unlock calls', 'iot_component_lock / iot_mutex_* / pthread_rwlock_* call sites in src/c')],
  'interprocedural path-sensitive lockset dataflow over LLVM IR', ALLU)

t('C02', 'Shared data is only touched with its lock held',
  'Data that several threads can reach - a scheduler\'s queues and schedules, a pool\'s job list and counters, a blocking queue\'s elements, a component\'s state, a container\'s component map - is read or written only while the lock that guards it is held, or while no other thread can reach the object. Callback pointers which may be replaced at run time are read once, under the lock, before being called.',
  ['schedules'], 'every access to guarded data on every path, whatever other threads do meanwhile',
  'An unguarded access is only visible in one rare interleaving; tests pass with the race present.',
  [SRC + 'scheduler.c', SRC + 'threadpool.c', SRC + 'queue.c', SRC + 'component.c', SRC + 'container.c', SRC + 'logger.c'],
  [('guarded fields', 'struct iot_scheduler_t, iot_schedule_t, iot_threadpool_t, iot_block_queue_t, iot_component_t, iot_container_t')],
  'guarded-by dataflow with object freshness over LLVM IR', ALLU)

t('C03', 'No waiting thread misses the wake-up it is waiting for',
  'A thread blocked in the library (for a job, a free slot, an idle pool, a due schedule, a queue element or a component state) re-tests what it waits for under the lock each time it wakes. Every change that can satisfy a waiter wakes it before the changing thread next gives up control of that lock for good, with all waiters woken when they wait for different things. A timed wait for the next schedule is never based on an outdated due time.',
  ['schedules'], 'every interleaving of waiters and wakers',
  'A lost wake-up needs one interleaving between test and wait, or two waiters of different kinds; a test that hits it hangs once in a million runs.',
  [SRC + 'scheduler.c', SRC + 'threadpool.c', SRC + 'queue.c', SRC + 'component.c', SRC + 'logger.c'],
  [('condition variables', 'pthread_cond_* call sites in src/c')],
  'obligation dataflow (store to awaited data -> signal) over LLVM IR', ALLU)

t('C04', 'User jobs and callbacks never run inside the pool or scheduler lock',
  'A user function - a job, a schedule\'s function, run, abort or free callback, or a component callback - is never called while the library holds the lock of a thread pool, scheduler, queue or logger. A user function may therefore call back into the same pool, scheduler, queue or logger without deadlock.',
  ['schedules', 'programs'], 'every call through a user supplied function pointer, directly or through another unit of the library',
  'Deadlock appears only if the user function happens to call back into the library on the one path that still holds the lock.',
  [SRC + 'scheduler.c', SRC + 'threadpool.c', SRC + 'queue.c', SRC + 'logger.c', SRC + 'component.c'],
  [('callback sites', 'indirect calls in scheduler.c, threadpool.c, logger.c, component.c')],
  'lockset dataflow plus cross-unit callback summaries', ALLU)

t('C05', 'Locks are taken in one global order and no thread sleeps holding a lock',
  'The locks of the library are always nested in one consistent order, so no set of threads can deadlock on them. No thread sleeps, joins another thread, does a condition wait on another lock, or otherwise blocks for an unbounded time while it holds a pool, scheduler, queue, component or logger lock, and no component callback runs under the component factory lock, which such callbacks may need.',
  ['schedules'], 'every pair of threads and every nesting of library locks',
  'A lock-order inversion deadlocks only when two threads interleave between the two acquisitions.',
  [SRC + 'scheduler.c', SRC + 'threadpool.c', SRC + 'queue.c', SRC + 'logger.c', SRC + 'component.c', SRC + 'container.c'],
  [('lock nesting', 'all acquire sites in src/c')],
  'lock-order graph over path analysis and cross-unit summaries', ALLU)

t('C06', 'Queue and pool limits hold and waits end only when their condition does',
  'A bounded queue or thread pool never holds more elements or jobs than its limit: something is added only when the same lock hold has established that there is room or no limit. Waiting for a pool to become idle returns only when no job is queued and no thread is working, and waiting for component states returns only one of the awaited states.',
  ['schedules'], 'any number of producers, consumers and waiters, in any interleaving',
  'Exceeding a limit or returning early needs concurrent producers to interleave between check and insert.',
  [SRC + 'queue.c', SRC + 'threadpool.c', SRC + 'component.c'],
  [('limits', 'iot_block_queue_enqueue*, iot_threadpool_add_work/try_work, iot_threadpool_wait, iot_component_wait_and_lock')],
  'path-sensitive must-precede dataflow over LLVM IR', ALLU)

t('C07', 'A schedule is active or idle, never both or lost, under its true start time',
  'At any time at which the scheduler is unlocked, each of its schedules is in exactly one of the run queue and the idle set, the mark that says which agrees with that, and it is filed under its actual start time. No schedule displaces another with the same start time.',
  ['schedules', 'histories'], 'any history of create, add, remove, reset, delete and expiry, concurrently',
  'Needs a history in which operations race with expiry; the schedule then silently stops, or is freed twice.',
  [SRC + 'scheduler.c'], [('queue and idle maps', 'iot_scheduler_t.queue and .idle in scheduler.c')],
  'typestate dataflow per schedule and lock hold', ALLU)

t('C08', 'A schedule outlives its runs and never overlaps itself unless concurrent',
  'A schedule deleted while its function is queued or running stays valid until that run has finished and is then freed exactly once. Each dispatched run holds its own reference, and a dispatch which fails gives it back. A schedule that is not marked concurrent is never dispatched while an earlier run of it is outstanding.',
  ['schedules', 'histories', 'fault_sequences'], 'any interleaving of delete with queued, failing and running dispatches',
  'Use after free and overlap need a delete or a second expiry inside the short window between dispatch and completion.',
  [SRC + 'scheduler.c'], [('schedule references', 'iot_schedule_t.refs and dispatch in scheduler.c')],
  'reference-unit dataflow (linear ownership) over LLVM IR', ALLU)

t('M01', 'Every data reference taken is given back exactly once',
  'On every path of every library call, each reference to a data value that the call obtains (by allocating, by adding a reference, by taking an element out of a collection, or by receiving ownership of an argument) is released, passed on to an owner, stored in an object that owns it, or returned to the caller, exactly once. A data value is not used after the call has given up the last reference it holds. This holds on failure paths as well as on success.',
  ['inputs', 'programs', 'fault_sequences'], 'every path through every library function, for any arguments',
  'A leak or a double release sits on an error or corner-case path and shows as growing memory or corruption much later, not as a failed assertion.',
  [SRC + 'data.c', SRC + 'data-json.c', SRC + 'data-cbor.c', SRC + 'data-xml.c', SRC + 'data-yaml.c', SRC + 'config.c', SRC + 'container.c', SRC + 'queue.c', SRC + 'store.c', SRC + 'scheduler.c', SRC + 'component.c'],
  [('reference counts', 'iot_data_t.refs; iot_data_alloc_*, iot_data_add_ref, iot_data_free in data.c and all their callers')],
  'linear reference accounting dataflow over LLVM IR', ALLU)

t('M02', 'Memory, files, directories and sockets are released on every path',
  'On every path of every library call, each heap block, open file, directory, socket, compiled regular expression or parser the call obtains is released exactly once with the matching function, stored in an object that owns it, or returned to the caller. It is not used after its release. This holds on failure paths as well as on success.',
  ['inputs', 'fault_sequences'], 'every path through every library function, for any arguments and any failing operation',
  'Failure paths that leak need a system call to fail at one particular point, which tests do not arrange.',
  [SRC + 'file.c', SRC + 'data.c', SRC + 'data-json.c', SRC + 'data-yaml.c', SRC + 'data-xml.c', SRC + 'logger.c', SRC + 'thread.c', SRC + 'os.c', SRC + 'config.c', SRC + 'uuid.c'],
  [('acquisition sites', 'malloc/calloc/strdup/fopen/opendir/socket/regcomp call sites in src/c')],
  'linear resource accounting dataflow over LLVM IR', ALLU)

t('M03', 'The last release frees everything owned, and nothing is freed before that',
  'When the last reference to a data value, logger, thread pool, scheduler or schedule is dropped, or a queue or container is freed, everything it owns (contents, metadata, names, contexts, queued jobs, synchronisation objects) is released exactly once and the object itself is freed. Nothing is freed while other references remain, content the object does not own is left alone, and after a call has given up its own reference it does not touch the object unless it was the last one.',
  ['histories', 'schedules', 'inputs'], 'every path of every destruction, for any content and any number of remaining references',
  'A part that is not released on destruction, or touched just after a non-last release, changes no result a test looks at.',
  [SRC + 'data.c', SRC + 'logger.c', SRC + 'threadpool.c', SRC + 'scheduler.c', SRC + 'queue.c', SRC + 'container.c', SRC + 'component.c'],
  [('destructors', 'iot_data_free, iot_logger_free, iot_threadpool_free, iot_scheduler_free, iot_queue_free, iot_container_free')],
  'path-sensitive destruction dataflow against an ownership table, over LLVM IR', ALLU)

t('D01', 'The hash of a data value always describes its current content',
  'Every call that adds, replaces or removes an element of a list, vector or map, or changes a number, string or array in place, leaves that value\'s own hash in step with the new content: it is extended by exactly the elements added, or marked so that the next use recomputes it from all elements. No call drops such a pending recomputation or uses the stored hash while one is pending. Values of one type with equal content get the same hash whichever constructor made them.',
  ['inputs', 'histories'], 'every sequence of updates on lists, vectors, maps and scalar data values',
  'A stale hash only shows when two values that should be equal are compared after one particular sequence of updates.',
  [SRC + 'data.c'],
  [('hash and its recomputation mark', 'iot_data_t.hash/rehash, iot_data_hash, list/map/vector update functions in data.c')],
  'path-sensitive effect matching (content events against hash updates) over LLVM IR', ALLU)
t('D05', 'Lists stay well linked and counted whatever is pushed, popped or removed',
  'After any push, pop or removal, including removal through an iterator, a list\'s forward and backward links mirror each other, its first and last element are both present or both absent and have no neighbour beyond them, and its reported length changed by exactly the elements added or removed. A removed element is released once, is no longer reachable from the list or the iterator, which goes on with the element after it, and its own value is the one returned to the caller of a pop.',
  ['inputs', 'histories'], 'every sequence of list updates from any list reached by them',
  'A broken link or count only shows for one position in the list (single element, end, middle) after a particular sequence of updates.',
  [SRC + 'data.c'],
  [('list links and count', 'iot_data_list_*_push/pop, iot_data_list_iter_remove, iot_data_list_remove in data.c')],
  'shape analysis of doubly linked lists by path-sensitive abstract interpretation with lazily introduced elements', ALLU)

t('D06', 'Maps keep each key once, in key order, findable and counted',
  'After any sequence of additions, replacements and removals, every key put into a map and not removed is found with the value last given for it, no key is there twice, and a key not there is reported missing. The size reported changes by exactly the entries added or removed, and the calls that report whether they did so tell the truth. Iterating forward or backward visits each neighbouring entry in the order of the keys, and no entry is reachable after its removal.',
  ['inputs', 'histories'], 'every map update, look-up and iteration step from any well linked tree',
  'A broken link or a turn to the wrong side only shows for one shape of the tree and one position in it, after a particular sequence of insertions and removals.',
  [SRC + 'data.c'],
  [('search tree', 'iot_node_find/insert/remove/transplant/ror/rol/next/prev, iot_data_map_add/add_unused/remove/iter_next/iter_prev in data.c')],
  'shape analysis of the search tree by path-sensitive abstract interpretation with lazily introduced nodes: mirrored links, in-order sequence, comparison-guided descent, size accounting', ALLU + ' Tree balance is not claimed, and the key comparison itself is taken to be an order.')

t('Q01', 'A queue hands out each element once, first in first out, within its limit',
  'Every element put into a queue comes out exactly once, in the order in which elements were put in, whatever the number of producers and consumers; the queue never holds more than its limit. An attempt to add reports true exactly when the element was added and refuses only when the queue is full, and a blocking add drops an element only when the queue is full and stopped. Taking returns nothing only when the queue is empty (and, if it may block, stopped), and the calls that must not block never do.',
  ['schedules', 'histories'], 'any interleaving of any number of producers and consumers with stop and limit changes',
  'Loss, duplication or reordering shows only under contention at a full or empty queue, or around a stop.',
  [SRC + 'queue.c', SRC + 'data.c'],
  [('queue operations', 'iot_queue_enqueue/try_enqueue/dequeue/try_dequeue/size/maxsize/setmaxsize/stop in queue.c')],
  'path-sensitive critical-section analysis with thread-modular havoc, over LLVM IR', ALLU)
t('C10', 'A pool or scheduler is destroyed only once its threads have let go of it',
  'Destroying a thread pool or a scheduler tells its threads to end and waits until every one of them has signed off before anything is released, except that a pool thread destroying its own pool waits for the others and leaves the last step to itself. A thread signs off exactly once and uses nothing of the pool or scheduler after that.',
  ['schedules', 'histories'], 'any moment at which a pool or scheduler is destroyed, with its threads anywhere in their loops',
  'A thread that is still between two instructions when the memory goes away is a matter of nanoseconds.',
  [SRC + 'threadpool.c', SRC + 'scheduler.c'],
  [('destruction and thread end', 'iot_threadpool_free, iot_threadpool_thread, iot_scheduler_free, iot_scheduler_thread')],
  'path-sensitive typestate analysis of the sign-off protocol over LLVM IR', ALLU)
t('C11', 'A pool queues every job once, in order of priority, and runs it once as given',
  'A job accepted by a thread pool is queued exactly once, behind all jobs of the same or a higher priority and before those of a lower one or of none, and is run exactly once with the function and argument given. The numbers of queued and running jobs always match the jobs queued and running, whichever thread adds, takes or finishes one; an attempt to add reports true exactly when the job was accepted and refuses only at the limit. Waiting for a pool ends only when no job is queued or running.',
  ['schedules', 'histories', 'inputs'], 'any interleaving of callers and pool threads, any mix of priorities, any limit',
  'The position of a job depends on the priorities already queued, and counts go wrong only in one order of events.',
  [SRC + 'threadpool.c'],
  [('job queue', 'iot_threadpool_add_work_locked, iot_threadpool_try_work, iot_threadpool_add_work, iot_threadpool_thread, iot_threadpool_wait')],
  'shape and effect analysis of critical sections with thread-modular havoc, over LLVM IR', ALLU)

t('C09', 'State shared by the whole process is never changed in an unsynchronised way',
  'No call depends on, or changes, state shared by the whole process in a way that another thread could disturb: each piece of such state is changed only in single atomic steps, or under one lock that every use of it takes, or once before anyone can use it, or not at all after start-up. Independent objects can therefore be used from different threads at once without any call returning another one\'s result, the same identifier twice or a half-made value.',
  ['schedules', 'histories'], 'any number of threads calling any functions at the same moment, including the first call of each',
  'A race on a hidden shared variable needs two threads inside the same few instructions; the tests run one thread at a time through nearly all of this code.',
  [SRC + 'uuid.c', SRC + 'time.c', SRC + 'logger.c', SRC + 'container.c', SRC + 'thread.c', SRC + 'data.c', SRC + 'threadpool.c', SRC + 'scheduler.c'],
  [('identifiers and clock', 'iot_uuid_generate, iot_time_nsecs, schedule and pool numbers'), ('shared registries', 'component factories, default logger, block cache in release builds')],
  'whole-program access and lockset dataflow over LLVM IR', ALLU)

t('R01', 'A schedule runs when due, as often as asked and as it was set up',
  'The scheduler runs a schedule only once its start time has passed and only while it is running; each time it calls the run callback and then runs the schedule exactly once, by the means, with the argument and at the priority it was created with, and a run that cannot be handed over is counted as dropped and reported to the abort callback. After a run the repetitions left go down by one unless the schedule is endless; it goes idle when none is left and otherwise starts again one period later. Creating, adding, removing, resetting and configuring a schedule store exactly what is asked and report truthfully whether anything changed.',
  ['schedules', 'histories', 'fault_sequences'], 'any history of schedule calls and expiries, any outcome of handing over a run',
  'Off-by-one repetitions, wrong periods and lost runs depend on which of several dispatch paths is taken and on failures in it.',
  [SRC + 'scheduler.c'],
  [('dispatch and schedule calls', 'iot_scheduler_thread, iot_schedule_create/add/remove/reset/set_sync/set_concurrent and callbacks in scheduler.c')],
  'path-sensitive effect analysis of the scheduler loop over LLVM IR', ALLU)

t('A01', 'Component states only move as the life cycle allows, and are reported so',
  'A component asked to become running, starting or stopped enters that state unless it has been deleted, and asked to become deleted it does so unless it is running; no call makes any other change of state, and a deleted component never leaves that state. Each such call returns true exactly when the state is now a different one.',
  ['histories', 'schedules'], 'every sequence of state-changing calls from any state',
  'Which state precedes a change depends on the history and on other threads; tests walk one or two orders.',
  [SRC + 'component.c', 'include/iot/component.h'],
  [('state field', 'iot_component_t.state, iot_component_set_running/stopped/starting/deleted')],
  'path-sensitive typestate analysis of the state field over LLVM IR', ALLU)
t('A02', 'A container drives every component, in order, and releases it stopped',
  'Starting a container calls every component\'s starting function, then every start function, then tells every component whether all of them are running, in the order the components were added; stopping calls every stopping function and then every stop function in the reverse order. A component that leaves the container is stopped first unless it is stopped already, and is then given once to its factory\'s free function. Only complete components enter a container, and a second factory for a type is never registered.',
  ['inputs', 'histories'], 'any number and mix of components, with any of their optional functions absent and in any state',
  'The order and completeness of the calls only shows with several components that leave some functions out.',
  [SRC + 'container.c', SRC + 'component.c'],
  [('container start and stop', 'iot_container_start, iot_container_stop, iot_container_init, iot_container_add_component, iot_component_factory_add in container.c')],
  'path-sensitive call-order analysis over LLVM IR, passes recognised by their iterator', ALLU)
t('A03', 'A log message reaches every logger of the chain whose level admits it, once',
  'A message logged to a logger is given once to it and to each of its successors whose level admits the message, and to no other, each with its own context and with the same level, time stamp and text. A stopped logger logs nothing, and starting it again restores the level it had; the level is not lost when it is stopped twice. A logger is created with the arguments given, and replacing its successor by itself does no harm.',
  ['inputs', 'histories'], 'chains of any length with any mix of levels, and any order of start and stop',
  'The levels and the length of the chain decide which loggers get the message; tests use one or two loggers.',
  [SRC + 'logger.c', 'include/iot/logger.h'],
  [('logger chain', 'iot_log__log, iot_log__va_log, iot_logger_start/stop, iot_logger_alloc_custom, iot_logger_set_next in logger.c')],
  'path-sensitive typestate analysis of the logger chain over LLVM IR', ALLU)
t('E01', 'File and store calls report what really happened, and replace files whole',
  'Writing a file reports success exactly when every byte was written, the file was closed and it was renamed over the target, which is not touched before that; reading returns content only if all of it was read, with a terminator after it and its true length, and otherwise nothing. Listing a directory returns the names of exactly the regular files that match, and listing configurations those of the configuration files without their extension. A store passes its arguments on unchanged, reports the result of its reader, writer or deleter, and reports failure (an empty result) where it has none.',
  ['inputs', 'fault_sequences', 'crash_points'], 'any content, and any of the file operations failing or falling short at any point',
  'A full disk or a short write at one particular call is not something the tests arrange.',
  [SRC + 'file.c', SRC + 'store.c'],
  [('file operations', 'iot_file_write_binary, iot_file_read_binary, iot_file_delete, iot_file_list in file.c'), ('stores', 'iot_store_* in store.c')],
  'path-sensitive protocol analysis with all outcomes of every system call, over LLVM IR', ALLU)
t('K01', 'A typed look-up returns the stored value or says that it cannot',
  'Asking a map, an iterator or a configuration for a value of a given type returns the value stored under that key if it has that type (or converts to it where the call promises conversion) and otherwise the default given, nothing, or failure; the caller\'s variable is only written where success is reported. A configuration value that cannot be resolved is logged once, to the logger given or else the default logger, and one that can be is not.',
  ['inputs'], 'every key, every type of stored value and every type asked for',
  'There is a look-up per type and container, and each meets every other type of value; tests try a few pairs.',
  [SRC + 'data.c', SRC + 'config.c'],
  [('typed look-ups', 'iot_data_map_get_*, iot_data_string_map_get_*, iot_data_*_iter_*_value in data.c, iot_config_* in config.c')],
  'path-sensitive value-provenance analysis over LLVM IR', ALLU)

t('P01', 'An answer that may be absent is never used as if it were there',
  'Looking something up that does not exist, reading a document, file, directory, environment variable or plug-in that is missing or malformed, or following a path that does not match never brings the program down: the absence is noticed and answered as documented. No call reads, writes or calls through a pointer that it has not been given or that it has found to be null.',
  ['inputs', 'fault_sequences'], 'every input, configuration, document and outcome of every lookup or system call that can come back empty',
  'There are hundreds of calls whose answer may be empty; tests drive each mostly with answers that are there, and a missing test only shows on the one combination where it is not.',
  [SRC + 'data.c', SRC + 'data-json.c', SRC + 'data-cbor.c', SRC + 'data-yaml.c', SRC + 'config.c', SRC + 'container.c', SRC + 'logger.c', SRC + 'file.c', SRC + 'store.c', SRC + 'scheduler.c', SRC + 'threadpool.c', SRC + 'util.c'],
  [('lookups and their callers', 'iot_data_map_get, iot_data_string_map_get_*, iot_config_*, iot_component_factory_find, iot_container_find_component, dlopen, getenv, fopen, opendir and every use of their answers')],
  'bottom-up nullness dataflow with function summaries over LLVM IR', ALLU)

t('P02', 'What the interface says may be left out can be left out',
  'A logger, callback, release function, cache, default or other argument documented as optional may be absent, and freeing an object that was never made does nothing. Whatever such an argument is kept in is treated as possibly absent by all later calls and threads.',
  ['inputs', 'histories'], 'every optional argument of every call left out, and every later use of what was left out',
  'A missing callback or logger is only touched on rare paths (aborts, failures, refused work), far from the call where it was left out.',
  [SRC + 'data.c', SRC + 'data-json.c', SRC + 'scheduler.c', SRC + 'threadpool.c', SRC + 'thread.c', SRC + 'logger.c', SRC + 'container.c', SRC + 'queue.c', SRC + 'config.c', 'include/iot/'],
  [('documented optional parameters', 'include/iot/*.h ("can be NULL"), stored in scheduler, schedule, pool, logger and pointer data')],
  'nullness dataflow with each optional argument absent, over LLVM IR', ALLU)


t('S02', 'Nothing is written or sent from outside its buffer',
  'Whatever the length of names, values, documents, paths, messages and variables, every piece of text or data is written into memory that has room for all of it, terminator included: growing buffers grow before they are filled and know their true size, and what does not fit a fixed buffer is cut off. Nothing is read, sent or written out from beyond the end of a buffer.',
  ['inputs'], 'inputs of every length and content, in particular those that fill a buffer exactly or overrun it by a little',
  'Only the length that just does not fit shows a missing byte, and without a memory checker even that is mostly silent.',
  [SRC + 'data.c', SRC + 'data-json.c', SRC + 'data-cbor.c', SRC + 'data-xml.c', SRC + 'json.c', SRC + 'config.c', SRC + 'logger.c', SRC + 'store.c', SRC + 'file.c', SRC + 'thread.c', SRC + 'threadpool.c', SRC + 'base64.c', SRC + 'uuid.c'],
  [('growing buffers', 'iot_data_holder_realloc, iot_data_strcat_escape, iot_cbor_holder_check_size, iot_update_parsed, iot_data_vector_add/resize'), ('fixed buffers', 'iot_config_substitute_env, iot_logger_config, iot_logger_format_log, iot_log_udp, iot_file_write_binary, iot_store_config_path')],
  'symbolic linear bounds analysis of every write against tracked capacities over LLVM IR', ALLU)

t('T01', 'Clock readings never repeat or mislead, and waits last as long as asked',
  'The time in seconds, milliseconds, microseconds and nanoseconds is the wall clock in that unit, with no part lost; nanosecond readings are strictly increasing over all threads of the process, and only differ from the clock where they would otherwise repeat or go back. A wait lasts the whole interval asked for, however often signals interrupt it, and no longer.',
  ['inputs', 'schedules', 'histories'], 'every interval, every clock reading (also one that repeats or steps back), every interleaving of readers and every pattern of interruptions',
  'Two threads reading the clock in the same nanosecond, a clock set back and a signal in the middle of a long wait do not happen in a test run.',
  [SRC + 'time.c'],
  [('clock readings', 'iot_time_secs/msecs/usecs/nsecs (lasttime)'), ('waits', 'iot_wait and iot_wait_secs/msecs/usecs')],
  'path-sensitive value-provenance analysis with arithmetic normal forms over LLVM IR', ALLU)

t('E02', 'A thread runs once, as it was asked for, or its creation is reported as failed',
  'Creating a thread starts the given function with the given argument exactly once, detached, on the processor and with the real-time priority asked for where these exist and are allowed, and otherwise with the default ones; success is reported exactly when the thread was started. Priorities are read, set, judged valid and reported as the system has them for the thread named, and every mutex made passes on the priority of its waiters and is not recursive.',
  ['inputs', 'fault_sequences'], 'every priority, processor and privilege, and every outcome of each system call on the way',
  'Refused thread creation, invalid processors and real-time limits depend on the machine; tests see one outcome of each.',
  [SRC + 'thread.c'],
  [('thread creation', 'iot_thread_create'), ('priorities', 'iot_thread_priority_valid, iot_thread_get/set_priority'), ('mutexes', 'iot_mutex_init')],
  'typestate and value-provenance analysis per path over LLVM IR', ALLU)

t('K02', 'A component made from a configuration is set up as the configuration says',
  'A logger, thread pool or scheduler made from a configuration has the settings given there: name, level, successor, destination and start of a logger; number of threads, job limit, priority, processor, shutdown delay and logger of a pool; priority, processor and logger of a scheduler; a setting that is absent takes its default, and a logger given a new configuration takes over its level. A new pool or scheduler keeps what it is created with and starts all its threads with the priority and processor given.',
  ['inputs', 'histories'], 'every configuration, complete or not, and every refusal of a thread',
  'Tests configure each component once and rarely look at what became of a setting; a swapped or cut one still gives a component that works.',
  [SRC + 'logger.c', SRC + 'threadpool.c', SRC + 'scheduler.c'],
  [('configuration functions', 'iot_logger_config, iot_logger_reconfig, iot_threadpool_config, iot_scheduler_config'), ('constructors', 'iot_threadpool_alloc, iot_scheduler_alloc')],
  'path-sensitive dataflow from setting names to constructor arguments over LLVM IR', ALLU)

t('U01', 'Identifiers are random, marked as such, and printed in full',
  'Every identifier made is filled from a generator whose whole state was seeded by the system before its first use and moves on with every use; apart from the marks for version 4 and the variant, which are always right, all of its bits are random. Printing an identifier gives its 16 bytes in order as lower-case hexadecimal digits with dashes after the 4th, 6th, 8th and 10th byte and a terminator, and writes nothing else.',
  ['inputs', 'histories', 'fault_sequences'], 'every identifier, and every outcome of asking the system for random bytes',
  'A test sees a few random values; a lost bit, an unseeded start after a short read or a wrong nibble does not show in them.',
  [SRC + 'uuid.c'],
  [('making identifiers', 'iot_uuid_generate, uuid_init, xorshift128plus'), ('printing them', 'iot_uuid_unparse')],
  'bit-level abstract evaluation along the paths of the code over LLVM IR', ALLU)


# ------------------------------------------------------------------ properties this family cannot decide here
t('N01', 'A document read back is equal to the value it was written from',
  'Writing a value as JSON or base64 and reading the text back gives an equal value, for every value the format can express, numbers at the limits of their types included. A document that is not well formed is rejected as a whole.',
  ['inputs'], 'every value, and every document', 'Tests hold a few dozen documents; the values that do not survive are particular numbers, lengths and characters.',
  [SRC + 'data-json.c', SRC + 'base64.c'],
  [('writers and readers', 'iot_data_to_json, iot_data_from_json, iot_b64_encode, iot_b64_decode')], '', ALLU)
NA['N01'] = 'Equality of a value with what is parsed from its own text relates unbounded recursive data through two loops over text and the C library\'s number formatting; it is a relation between run-time contents that no dataflow, typestate or type argument in reach establishes (memory safety, ownership, absence and buffer room of the same code are decided by S02, P01 and M01).'
t('N02', 'A look-up in a map takes time that grows with the logarithm of its size',
  'However keys are added to and removed from a map, every look-up visits a number of entries bounded by a small multiple of the logarithm of the number of keys.',
  ['histories'], 'every sequence of additions and removals', 'Tests measure no depth, and a tree that degenerates still answers correctly.',
  [SRC + 'data.c'], [('map trees', 'iot_node_insert_balance, iot_node_remove_balance in data.c')], '', ALLU)
NA['N02'] = 'The balance of the tree is a global counting invariant (equal number of black nodes on all paths) over an unbounded heap; the shape facts a static analysis here can carry are local to a few nodes and cannot express it.'
t('N03', 'Values compare as one total order, and converted numbers keep their value',
  'Comparing values is reflexive, antisymmetric and transitive over all types, agrees with equality and with the hash, and converting a number to another type succeeds exactly when the value can be represented there and then keeps it.',
  ['inputs'], 'all pairs and triples of values', 'Tests compare a few pairs; violations need particular mixes of types, not-a-number, or numbers beyond the exact range of floating point.',
  [SRC + 'data.c'], [('comparison and conversion', 'iot_data_cmp, iot_data_equal, iot_data_cast in data.c')], '', ALLU)
NA['N03'] = 'The order laws quantify over triples of run-time values of eighteen types and the conversions over floating-point rounding; deciding them needs a solver or exhaustive evaluation, which is another family.'
t('N04', 'Waits, schedules and timeouts end when they are due',
  'A schedule starts, a timed wait ends and an idle thread stops within a bounded delay after its time has come, whatever the load.',
  ['schedules'], 'every load and every interleaving', 'Tests allow wide margins because timing depends on the machine.',
  [SRC + 'scheduler.c', SRC + 'threadpool.c', SRC + 'time.c'], [('timed waits', 'iot_scheduler_thread, iot_threadpool_thread, iot_wait')], '', ALLU)
NA['N04'] = 'Delays depend on the operating system scheduler and the running time of user callbacks, neither of which the source bounds; what the source does decide (fresh deadlines, wake-ups on earlier starts, nothing run before it is due) is decided by C03, R01 and T01.'
