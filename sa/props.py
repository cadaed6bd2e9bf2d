"""The registry: which rules decide which property, and the instance counts confirmed by reading the tree."""
from ir import AnalysisBroken

PROPS = {}


def prop(pid, title, rule, explain, assumptions=(), level='other'):
    def deco(f):
        PROPS[pid] = {'title': title, 'rule': rule, 'explain': explain, 'run': f, 'assumptions': list(assumptions), 'level': level}
        return f
    return deco


ENGINE = ('Path-sensitive interprocedural dataflow (property simulation) over the LLVM IR of every translation unit of the library, compiled from the '
          'current working tree; internal functions analysed in the context of each caller, loops to a fixpoint. Nothing is executed and no solver is used. ')


# ------------------------------------------------------------------ concurrency
def conc(ctx, variant='debug'):
    def go():
        import cv, conc as c
        eng, rule, rs = c.run_conc(ctx.prog(variant), cv.CvRule)
        rule.finish(eng)
        return eng, rule, rs
    return ctx.memo('conc-' + variant, go)


def conc_cov(res, eng, rule, rs):
    res.cov.update({'entry_points': len(rs), 'paths_to_exit': rule.exits, 'abstract_states': eng.stats['states'], 'calls_resolved': eng.stats['calls'],
                    'functions_visited': len(eng.stats['functions'])})


@prop('C01', 'Locks are balanced on every path of every call',
      'every acquisition is released exactly once on every path to every exit; nothing is released unheld or re-acquired by its holder; a wait names the held mutex',
      ENGINE + 'Rule instances are the pthread mutex/rwlock acquire and release sites; the three calls documented to change the caller\'s lock state are checked against that contract.')
def c01(ctx, res):
    eng, rule, rs = conc(ctx)
    conc_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['rule'] in ('relock', 'unheld', 'leak', 'wait-unheld')])
    res.floor('acquire_sites', len(rule.lock_sites), 12)
    res.floor('release_sites', len(rule.unlock_sites), 12)
    res.floor('wait_sites', len(rule.wait_sites), 3)
    res.samples = sorted('%s:%d %s' % x for x in rule.lock_sites)


@prop('C02', 'Shared data is only touched with its lock held',
      'every access to a guarded field, guarded container or guarded global happens with the guarding lock of the same object held, or on an object nobody else can reach (just allocated, or last reference dropped)',
      ENGINE + 'The guard table (field -> lock) was inferred from the code, confirmed by reading and frozen in conc.py.')
def c02(ctx, res):
    eng, rule, rs = conc(ctx)
    conc_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['rule'] == 'guard'])
    res.floor('guarded_items', len(rule.guard_acc), 16)
    res.floor('guarded_access_sites', sum(len(v) for v in rule.guard_acc.values()), 40)
    res.samples = sorted('%s: %d sites' % (k, len(v)) for k, v in rule.guard_acc.items())


@prop('C03', 'No waiting thread misses the wake-up it is waiting for',
      'a waiter re-tests its condition under the lock after every wake-up; every change that can make a waiter\'s condition true is followed, before the lock is next taken or the call returns, by a signal (broadcast where waiters differ); a timed wait uses a deadline computed in the same lock hold',
      ENGINE + 'Obligations are raised by stores to the awaited data and discharged by signals on the matching condition variable of the same object.')
def c03(ctx, res):
    eng, rule, rs = conc(ctx)
    conc_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['rule'] in ('retest', 'wake', 'stale')])
    res.floor('condition_variables', len(rule.conds_seen), 4)
    res.floor('waits_retested', len(rule.retests), 3)
    res.floor('timed_waits_with_fresh_deadline', len(rule.posts.get('deadline', ())), 1)
    res.floor('wakeup_obligations', len(rule.obs_made), 5)
    res.samples = sorted('%s on %s raised at %s' % (k[1], k[0], sorted(v)) for k, v in rule.obs_made.items())


@prop('C04', 'User jobs and callbacks never run inside the pool or scheduler lock',
      'no call through a job, schedule, run, abort, free or component function pointer, directly or through another unit, happens while the pool, scheduler, queue or logger lock is held',
      ENGINE + 'Per-unit summaries (locks acquired, callbacks made) are combined over the cross-unit call graph.')
def c04(ctx, res):
    eng, rule, rs = conc(ctx)
    conc_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['rule'] == 'callback' and not r['extra'][2].startswith('iot_container')])
    user = {k: v for k, v in rule.cb_sites.items() if any(n.split('.')[0] in ('iot_job_t', 'iot_schedule_t', 'iot_threadpool_t') for n in v)}
    res.floor('callback_sites', len(rule.cb_sites), 14)
    res.floor('job_and_schedule_callback_sites', len(user), 2)
    res.samples = sorted('%s:%d calls %s' % (k[0], k[1], sorted(v)) for k, v in rule.cb_sites.items())


@prop('C05', 'Locks are taken in one global order and no thread sleeps holding a lock',
      'the relation "acquired while holding" over lock classes (component locks distinguished by owner) is acyclic; no sleep, join or foreign condition wait is reachable with a lock held',
      ENGINE + 'Edges come from the path analysis inside a unit and from summaries across units.')
def c05(ctx, res):
    eng, rule, rs = conc(ctx)
    conc_cov(res, eng, rule, rs)
    # the container lock and the uuid lock are held across bounded start-up waits by design; no other thread's progress hides behind them
    # component callbacks take the factory-list lock themselves (finding a component can load it), so none may run under it
    res.add([r for r in eng.reports if r['rule'] == 'callback' and '.' not in r['extra'][2]])
    res.add([r for r in eng.reports if r['rule'] == 'order' or (r['rule'] == 'block' and not any(x in r['message'] for x in ('iot_container_t.lock', 'uuid_mutex')))])
    res.floor('order_edges', len(rule.order), 4)
    res.floor('acquire_sites', len(rule.lock_sites), 12)
    res.floor('blocking_call_sites', len(rule.block_sites), 1)
    res.samples = sorted('%s -> %s' % k for k in rule.order)


@prop('C06', 'Queue and pool limits hold and waits end only when their condition does',
      'an element or job is stored only where the same lock hold established that the queue is unlimited or below its limit; the pool-idle wait returns only where no job is queued and no thread is working; the state wait returns only a state that was tested against the awaited ones',
      ENGINE)
def c06(ctx, res):
    eng, rule, rs = conc(ctx)
    conc_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['rule'] in ('bound', 'post')])
    (_, e2), (_, nm), _ = life(ctx, 'state')
    res.add([r for r in e2.reports if r['rule'] == 'wait'])
    res.floor('queue_store_sites', len(rule.posts.get('queue-bound', ())), 1)
    res.floor('job_store_contexts', len(rule.posts.get('job-bound', ())), 1)
    res.floor('pool_idle_exits', len(rule.posts.get('pool-idle', ())), 1)
    res.floor('state_wait_exits', len(rule.posts.get('state-wait', ())), 1)
    res.samples = sorted(str(x) for x in rule.posts.items())


# ------------------------------------------------------------------ scheduler
def sched(ctx):
    def go():
        import sched as s
        return s.run_sched(ctx.prog())
    return ctx.memo('sched', go)


@prop('C07', 'A schedule is active or idle, never both or lost, under its true start time',
      'typestate (in queue / in idle map / in neither) per schedule and lock hold: insert only from neither, remove only from the map it is in, the scheduled mark agrees with the queue and the key equals the start time whenever the lock is released; keys are unique at insertion',
      ENGINE)
def c07(ctx, res):
    eng, rule, rs = sched(ctx)
    conc_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['rule'] in ('member', 'key')])
    res.floor('map_transitions', sum(len(v) for v in rule.transitions.values()), 6)
    res.floor('map_operations', len(rule.ops), 3)
    res.samples = sorted('%s: %s' % (k, sorted(v)) for k, v in rule.transitions.items())


@prop('C08', 'A schedule outlives its runs and never overlaps itself unless concurrent',
      'reference units per schedule: each dispatch carries one unit, failed dispatches give it back, every path balances, nothing is touched without a unit or verified map membership under the lock; each dispatch is preceded by establishing that the schedule is concurrent or has no run outstanding',
      ENGINE)
def c08(ctx, res):
    eng, rule, rs = sched(ctx)
    conc_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['rule'] in ('ref', 'uaf', 'overlap')])
    res.floor('dispatch_sites', sum(len(v) for v in rule.dispatched.values()), 1)
    res.floor('run_sites', len(rule.runs), 2)
    res.samples = sorted(str(x) for x in rule.runs) + sorted(str(x) for x in rule.dispatched.items())


# ------------------------------------------------------------------ ownership
def own(ctx):
    def go():
        import own as o
        return o.run_own(ctx.prog())
    return ctx.memo('own', go)


def own_cov(res, eng, rule, rs):
    conc_cov(res, eng, rule, rs)
    res.cov['acquisition_sites_by_kind'] = {k: len(v) for k, v in sorted(rule.acq.items())}
    res.cov['release_sites_by_kind'] = {k: len(v) for k, v in sorted(rule.rel.items())}
    res.cov['handover_sites'] = {k: len(v) for k, v in sorted(rule.con.items())}


@prop('M01', 'Every data reference taken is given back exactly once',
      'per path: each unit of reference (allocation, add_ref, pop, owned result, taken-over argument) is released, handed to a call that takes it over, stored in an owning field or returned, exactly once; no use after the last unit is gone',
      ENGINE + 'Linear reference accounting. Ownership of results follows the C type in the public header (pointer to const = borrowed), ownership of arguments the take-over table in own.py; functions that are not public are analysed inside their callers.')
def m01(ctx, res):
    eng, rule, rs = own(ctx)
    own_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['extra'] == 'data'])
    res.floor('acquire_sites', sum(len(v) for k, v in rule.acq.items() if k.startswith('data')), 80)
    res.floor('release_sites', len(rule.rel.get('data', ())), 18)
    res.floor('handover_sites', sum(len(v) for v in rule.con.values()), 25)
    res.samples = sorted('%s:%d' % x for x in rule.acq.get('data', ()))


@prop('M02', 'Memory, files, directories and sockets are released on every path',
      'per path: each heap block, stream, directory, descriptor, compiled expression or parser obtained is released once with the matching call, stored in an owning field or returned',
      ENGINE + 'Linear resource accounting, same machinery as the reference accounting.')
def m02(ctx, res):
    eng, rule, rs = own(ctx)
    own_cov(res, eng, rule, rs)
    res.add([r for r in eng.reports if r['extra'] != 'data'])
    res.floor('acquire_sites', sum(len(v) for k, v in rule.acq.items() if not k.startswith('data')), 30)
    res.floor('release_sites', sum(len(v) for k, v in rule.rel.items() if k != 'data'), 20)
    res.floor('kinds_of_resource', len(rule.acq), 6)
    res.samples = sorted('%s: %s' % (k, sorted(v)[:4]) for k, v in rule.acq.items() if not k.startswith('data'))


def dtor(ctx):
    def go():
        import dtor as d
        return d.run_dtor(ctx.prog())
    return ctx.memo('dtor', go)


@prop('M03', 'The last release frees everything owned, and nothing is freed before that',
      'per destruction path: the object is freed exactly where the decremented count is known to have been the last; every field of the ownership table has by then been released or is known empty; nothing is touched after a release that may not have been the last, or after the free',
      ENGINE + 'The ownership table (type, owned fields) in dtor.py was written from the headers and confirmed by reading.')
def m03(ctx, res):
    eng, rule, rs = dtor(ctx)
    res.cov.update({'entry_points': len(rs), 'abstract_states': eng.stats['states'], 'calls_resolved': eng.stats['calls'], 'functions_visited': len(eng.stats['functions'])})
    res.add(eng.reports)
    res.floor('owned_fields_checked', len(rule.checked), 20)
    res.floor('count_decrements', len(rule.decs), 2)
    res.floor('free_sites', len(rule.freedsites), 8)
    import dtor as d
    e2, r2, rs2 = d.run_alloc(ctx.prog())
    res.add(e2.reports)
    res.cov['paths_of_data_constructors'] = r2.exits
    res.floor('content_put_into_new_data_values', len({x for v in r2.checked.values() for x in v}), 1)
    res.samples = sorted('%s released in %s' % (k, sorted({x[0] for x in v})) for k, v in rule.checked.items())


# ------------------------------------------------------------------ data values
def ds(ctx, which):
    def go():
        import ds as d
        return getattr(d, 'run_' + which)(ctx.prog())
    return ctx.memo('ds-' + which, go)


@prop('D01', 'The hash of a data value always describes its current content',
      'per path through every public call on data values: the multiset of elements added equals the multiset of hashes folded in, or the recomputation mark is set on the changed object; a mark is only cleared where the hash is reset and every element folded in; a raw hash is only used where no mark can be pending; scalar hashes are a function of the stored value, the same one for every constructor of the type',
      ENGINE + 'Content events are the stores to element, node, slot and value fields and the release of elements; each must be matched on its path. Public calls are cut at their contract (each is checked as an entry point of its own).')
def d01(ctx, res):
    eng, rule, rs = ds(ctx, 'hash')
    conc_cov(res, eng, rule, rs)
    res.add(eng.reports)
    res.cov['content_events'] = {k: len(v) for k, v in sorted(rule.events.items())}
    res.floor('content_event_kinds', len(rule.events), 8)
    res.floor('scalar_types_with_hash', len(rule.shapes), 10)
    res.floor('functions_setting_hashes', len(rule.settled), 8)
    res.samples = sorted('%s at %s' % (k, sorted(v)[:3]) for k, v in rule.events.items())


@prop('D05', 'Lists stay well linked and counted whatever is pushed, popped or removed',
      'per path through every list update: next and prev links agree pairwise, head and tail are both empty or both the ends, a freed element is linked from nowhere and is the one whose value is returned, and the count kept at the head equals the old one plus elements linked minus elements freed',
      ENGINE + 'The list found on entry is assumed well linked (induction over calls); its elements are introduced lazily as they are reached.')
def d05(ctx, res):
    eng, rule, rs = ds(ctx, 'list')
    conc_cov(res, eng, rule, rs)
    res.add(eng.reports)
    n = {'%s.%s' % k: len(v) for k, v in rule.changes.items() if k[1]}
    res.cov['link_store_sites'] = n
    res.floor('list_update_entry_points', len(rs), 4)
    res.floor('kinds_of_link_stored', len(n), 4)
    res.floor('paths_checked_at_exit', rule.exits, 15)
    res.samples = sorted('%s stored at %s' % (k, sorted(v)) for k, v in rule.changes.items() if k[1])


def tree(ctx, which):
    def go():
        import tree as t
        return getattr(t, 'run_' + which)(ctx.prog())
    return ctx.memo('tree-' + which, go)


@prop('D06', 'Maps keep each key once, in key order, findable and counted',
      'per path: every function changing links leaves parent and child links mirrored, no link to a released entry, and the in-order sequence of entries unchanged but for the one removed; a descent turns only to the side its key comparison says and ends at an equal key or an empty side; entries are inserted only for keys looked up and absent; the size changes by entries inserted minus removed; an iteration step ends at the in-order neighbour',
      ENGINE + 'The tree found on entry is assumed well linked (induction over calls); nodes are introduced lazily as they are reached, and the two ends of an unbounded descent by a summary node.')
def d06(ctx, res):
    n = {}
    sums = {}
    for which in ('links', 'search', 'sizes', 'steps'):
        eng, rule, rs = tree(ctx, which)
        for k, v in (('entry_points', len(rs)), ('paths_to_exit', rule.exits), ('abstract_states', eng.stats['states']), ('calls_resolved', eng.stats['calls'])): sums[k] = sums.get(k, 0) + v
        res.add(eng.reports)
        n[which] = (len(rs), rule.exits)
        if which == 'links':
            res.cov['link_store_sites'] = {k: len(v) for k, v in rule.links.items()}
            res.cov['paths_whose_order_was_compared'] = rule.orders
            res.floor('paths_whose_order_was_compared', rule.orders, 5)
            res.samples = sorted('%s stored at %s' % (k, sorted(v)) for k, v in rule.links.items())
        if which == 'search': res.cov['key_comparisons_followed'] = rule.cmpd
    res.cov.update(sums)
    res.cov['entry_points_and_exits'] = {k: list(v) for k, v in n.items()}
    res.floor('link_changing_functions', n['links'][0], 2)
    res.floor('descents', n['search'][0], 1)
    res.floor('size_changing_functions', n['sizes'][0], 2)
    res.floor('iteration_steps', n['steps'][0], 2)


# ------------------------------------------------------------------ components and containers
def life(ctx, which):
    def go():
        import life as l
        return getattr(l, 'run_' + which)(ctx.prog())
    return ctx.memo('life-' + which, go)


@prop('A01', 'Component states only move as the life cycle allows, and are reported so',
      'per path through every state-changing call: the state stored is a defined one, tested against the present one (nothing leaves deleted, deleted is not entered from running, nothing returns to initial), and the boolean result equals "the state is now another one"',
      ENGINE + 'The transition relation is read off the stores to the state field under the path\'s branch facts.')
def a01(ctx, res):
    (eng, e2), (rule, nm), rs = life(ctx, 'state')
    conc_cov(res, eng, rule, rs)
    res.add(eng.reports); res.add(e2.reports)
    res.cov['state_names'] = nm.names
    res.cov['transitions'] = sorted('%s -> %s' % ('|'.join(a), b) for a, b in rule.trans)
    res.floor('state_store_sites', len(rule.sites), 1)
    res.floor('transitions_into_states', len({b for a, b in rule.trans}), 3)
    res.floor('paths_checked_at_exit', rule.exits, 4)
    res.floor('state_setters', len(rule.named), 4)
    res.samples = sorted('%s -> %s' % ('|'.join(a), b) for a, b in rule.trans)


@prop('A02', 'A container drives every component, in order, and releases it stopped',
      'per path: each pass over the components calls the right function of every component once; start passes complete before running callbacks, callbacks before functions, stop passes run backwards; a released component is stopped unless stopped, then freed once; what enters the container is complete; a factory is added once per type',
      ENGINE + 'Passes over the component list are recognised by their iterator, whatever loop or helper they are written in.')
def a02(ctx, res):
    (eng, e2, e3), (rule, mk, fr), rs = life(ctx, 'order')
    conc_cov(res, eng, rule, rs)
    res.add(eng.reports); res.add(e2.reports); res.add(e3.reports)
    res.cov['complete_passes'] = sorted('%s %s %s' % x for x in rule.passes)
    res.cov['component_functions_called'] = {k: sorted('%s:%d' % y for y in v) for k, v in list(rule.calls.items()) + list(fr.calls.items())}
    res.floor('component_function_kinds_called', len(rule.calls), 5)
    res.floor('release_functions', len(mk.dtors), 1)
    res.floor('creation_sites', len(mk.made), 1)
    res.samples = res.cov['complete_passes']


def contract(ctx, which):
    def go():
        import contract as l
        return getattr(l, 'run_' + which)(ctx.prog())
    return ctx.memo('contract-' + which, go)


@prop('A03', 'A log message reaches every logger of the chain whose level admits it, once',
      'per path of the logging calls: the chain is followed from the given logger to its end, each logger\'s own function is called once with its own context, the level and the same text exactly when its level admits the message; start restores the saved level, stop saves it only when logging and sets none; creation stores every argument; a new successor is held before the old one is released',
      ENGINE + 'Positions in the chain are tracked by the pointer loaded from the previous logger\'s next field; loops go to a fixpoint.')
def a03(ctx, res):
    eng, rule, rs = contract(ctx, 'log')
    conc_cov(res, eng, rule, rs)
    res.add(eng.reports)
    res.floor('log_function_call_sites', len(rule.sends), 1)
    res.floor('chain_advance_sites', len(rule.advances), 1)
    res.floor('entry_points', len(rs), 5)
    res.samples = sorted('%s:%d message sent' % x for x in rule.sends) + sorted('%s:%d next logger' % x for x in rule.advances)


@prop('E01', 'File and store calls report what really happened, and replace files whole',
      'per path, with every system call able to fail or fall short at each point: a write goes to another name and is renamed over the target only after every byte was written and the file closed, and true is returned exactly then; a read returns content only when all of it was read, terminated and with its length; names are built within their buffer; stores pass every argument on and use their delegate\'s result; a listing has exactly the matching regular files',
      ENGINE + 'Every libc call on the path is given all of its outcomes.')
def e01(ctx, res):
    eng, rule, rs = contract(ctx, 'file')
    e2, r2, rs2 = contract(ctx, 'dir')
    e3, r3, rs3 = contract(ctx, 'names')
    conc_cov(res, eng, rule, list(rs) + list(rs2) + list(rs3))
    res.add(eng.reports); res.add(e2.reports); res.add(e3.reports)
    n = dict(rule.steps); n.update(r2.steps); n.update(r3.steps)
    res.cov['steps'] = {k: sorted('%s:%d' % x for x in v) for k, v in n.items()}
    res.floor('kinds_of_step_seen', len(n), 8)
    res.floor('paths_checked_at_exit', rule.exits + r2.exits, 25)
    res.samples = sorted('%s at %s' % (k, v) for k, v in res.cov['steps'].items())


@prop('K01', 'A typed look-up returns the stored value or says that it cannot',
      'per path of every typed look-up in maps, iterators and configurations: the value returned is the one stored under the key asked for, read with the width of the type asked for, and only where its type was tested or its conversion succeeded; otherwise the default or failure is returned; a failed configuration look-up is logged to the given logger or the default one unless its level forbids',
      ENGINE + 'The map look-up and the numeric conversion are cut and given both outcomes.')
def k01(ctx, res):
    eng, rule, rs = contract(ctx, 'get')
    conc_cov(res, eng, rule, rs)
    res.add(eng.reports)
    res.cov['look_ups'] = rule.gets
    res.floor('typed_look_ups', len(rs), 25)
    res.floor('paths_checked_at_exit', rule.exits, 100)
    res.samples = sorted('%s: %s' % x for x in rule.gets.items())


# ------------------------------------------------------------------ queues, pools, threads
def jobs(ctx, which):
    def go():
        import jobs as j
        return getattr(j, 'run_' + which)(ctx.prog())
    return ctx.memo('jobs-' + which, go)


ENDS = ('late', 'signoff', 'wait')


@prop('Q01', 'A queue hands out each element once, first in first out, within its limit',
      'per path of every queue call, with everything another thread may change forgotten outside the lock: elements enter at one end only and leave at the other, an element enters only where room was seen in the same hold of the lock, each taken element is the one returned, and refusal, dropping and empty results occur only where the queue was seen full, stopped or empty in that hold',
      ENGINE + 'List operations are cut at their contract (their own links are decided by D05).')
def q01(ctx, res):
    eng, rule, rs = jobs(ctx, 'queue')
    conc_cov(res, eng, rule, rs)
    res.add(eng.reports)
    res.cov['list_ends'] = {'%s at the %s' % k: sorted({'%s:%d' % (f.fn.name, i.line) for f, i, s in v}) for k, v in rule.ends.items()}
    res.floor('add_and_take_sites', sum(len(v) for v in rule.ends.values()), 2)
    res.floor('paths_checked_at_exit', rule.exits, 9)
    res.samples = sorted('%s: %s' % x for x in res.cov['list_ends'].items())


@prop('C10', 'A pool or scheduler is destroyed only once its threads have let go of it',
      'per path of the destroying call the number of threads left (the mark of the ended thread) was last seen to be none (set) before anything is released; per path of the thread function it signs on and off exactly once, and touches nothing of the pool or scheduler afterwards unless it is the one left to destroy it; a scheduler whose thread cannot be started is marked as ended',
      ENGINE)
def c10(ctx, res):
    (eng, e2), (rule, fr), rs = jobs(ctx, 'jobs')
    e3, end, rs3 = jobs(ctx, 'end')
    conc_cov(res, e3, end, list(rs) + list(rs3))
    for e in (eng, e2): res.add([x for x in e.reports if x['rule'] in ENDS])
    res.add(e3.reports)
    res.floor('sign_off_and_release_sites', sum(len(v) for v in end.sites.values()), 2)
    res.floor('paths_checked_at_exit', rule.exits + fr.exits + end.exits, 30)
    res.samples = sorted('%s at %s' % (k, sorted(v)) for k, v in end.sites.items())


@prop('C11', 'A pool queues every job once, in order of priority, and runs it once as given',
      'per path, between taking and releasing the lock: one record holding the function, argument and priority given and a number of its own is linked in, before the first job of lower or no priority or else at the end, with front and rear agreeing; a taken record is the front one, its successor becomes the front, it goes back to the free ones, and its own function is called once with its own argument after that; queued and running counts change by exactly the jobs added, taken and finished; waiting ends only where both were seen to be zero',
      ENGINE + 'The queue found on taking the lock is assumed consistent (induction over the critical sections); everything another thread may change is forgotten when the lock is released.')
def c11(ctx, res):
    (eng, e2), (rule, fr), rs = jobs(ctx, 'jobs')
    conc_cov(res, eng, rule, rs)
    for e in (eng, e2): res.add([x for x in e.reports if x['rule'] not in ENDS])
    res.cov['sites'] = {k: sorted('%s:%d' % x for x in v) for k, v in rule.sites.items()}
    res.floor('critical_sections', len(rule.sites.get('section', ())), 4)
    res.floor('paths_checked_at_exit', rule.exits, 20)
    res.samples = sorted('%s: %s' % x for x in res.cov['sites'].items())


@prop('R01', 'A schedule runs when due, as often as asked and as it was set up',
      'per path of the scheduler thread, from the moment a schedule is seen due until the lock is next given up or the loop comes round: run callback, then exactly one run or hand-over of its own function with its own argument, priority and pool; a refused hand-over counted once and its abort callback called; repetitions left reduced by one unless endless, and then put aside when none is left, else queued again one period from now; what is waited for is the first start time split into seconds and nanoseconds; per path of each call on a schedule, what it stores and returns is what was given and what happened',
      ENGINE + 'Arithmetic is compared as sums of unknowns and constants; the size of the values is not bounded. Map operations are cut at their contract.')
def r01(ctx, res):
    def go():
        import repeat
        return repeat.run_repeat(ctx.prog())
    eng, rule, rs = ctx.memo('repeat', go)
    conc_cov(res, eng, rule, rs)
    res.add(eng.reports)
    res.cov['sites'] = {k: sorted('%s:%d' % x for x in v) for k, v in rule.sites.items()}
    res.floor('run_and_move_sites', sum(len(v) for v in rule.sites.values()), 4)
    res.floor('paths_checked_at_exit', rule.exits, 20)
    res.samples = sorted('%s: %s' % x for x in res.cov['sites'].items())


@prop('C09', 'State shared by the whole process is never changed in an unsynchronised way',
      'for every variable with static storage that is not constant and not per thread, over every function that can run and every path and caller to each access (through address arithmetic, helper parameters and library calls that fill a buffer): all accesses atomic and in one step; or all under one common process-wide lock; or written only inside one once-only initialiser that every other access is preceded by; or written only before start-up ends; and no call of a library function that works on one hidden state for everybody',
      'The IR is that of clang 18 on the build\'s own flags, with and without NDEBUG. Variables of data value type handed to data calls are shared values, whose reference counts are atomic; indirect writes through heap data reached from a variable are not followed.')
def c09(ctx, res):
    def go():
        import statics
        return [statics.Statics(ctx.prog(v)) for v in ('debug', 'release')]
    for s in ctx.memo('statics', go):
        res.add(s.reports)
        v = s.p.variant
        res.cov['variables_' + v] = {k.split('@')[0]: x for k, x in s.kinds.items()}
        res.floor('shared_variables_' + v, len(s.cand), 8)
        res.floor('functions_' + v, len(s.live), 200)
        res.cov['accesses_' + v] = s.nuse
        res.cov['library_calls_' + v] = s.ncalls
        res.samples += sorted('%s: %s' % (k.split('@')[0], x) for k, x in s.kinds.items() if not x.startswith('unch'))


def nil(ctx, v):
    def go():
        import nil as n
        return n.run_nil(ctx.prog(v))
    return ctx.memo('nil-' + v, go)


@prop('P01', 'An answer that may be absent is never used as if it were there',
      'every call that can answer with a null pointer - a lookup that finds nothing, a document that does not parse, an environment variable, file, directory or symbol that is not there - and every caller: on each path the answer is tested before anything is read or written through it, before it is called, and before it is handed to code that needs it; and no path uses a pointer it has itself found to be null',
      ENGINE + 'Bottom-up summaries: per function the parameters it needs to be present on every path that returns, whether and when its answer may be null, and what it answers for an absent argument. Running out of memory is not modelled. The entry an iterator stands on is taken to be present.')
def p01(ctx, res):
    for v in ('debug', 'release'):
        eng, rule, rs = nil(ctx, v)
        res.add([r for r in eng.reports if r['rule'] in ('certain', 'maybe', 'nullarg')])
        res.cov.update({'functions_' + v: len(rs), 'paths_to_exit_' + v: rule.exits, 'gave_up_' + v: rule.gaveup, 'functions_that_may_answer_null_' + v: len(rule.null)})
        res.floor('pointer_uses_' + v, rule.uses, 1000)
        res.floor('absent_answers_' + v, rule.sources, 60)
        res.samples += sorted('%s may answer null' % n for n in rule.null)[:20]


@prop('P02', 'What the interface says may be left out can be left out',
      'every parameter documented as optional, and the object handed to every free call: with that one absent, no path of the call reads, writes, calls or hands on a null pointer where one is needed, and the call gets past it; what such a parameter is stored in (logger, next logger, callbacks, release functions) is tested at every later use, in every function',
      ENGINE + 'The optional parameters are those of the header documentation, frozen in nil.py; the fields they are kept in are found by following the parameter into stores and internal calls.')
def p02(ctx, res):
    for v in ('debug', 'release'):
        eng, rule, rs = nil(ctx, v)
        res.add([r for r in eng.reports if r['rule'] in ('leftout', 'stops', 'optional')])
        res.floor('optional_parameters_' + v, len(rule.left), 30)
        res.floor('fields_kept_in_' + v, len(rule.fields), 4)
        res.samples += sorted('%s.%s' % x for x in rule.fields) + ['%s parameter %d' % (n, k + 1) for n, k in rule.left]


@prop('S02', 'Nothing is written or sent from outside its buffer',
      'every store, copy, print and read into a buffer whose capacity the code keeps or fixes, in every public and every other function on its own: on each path what is written fits between the start and the capacity then known to be there, what is sent or copied from a buffer ends within it, and every buffer kept with its capacity (text, CBOR, environment and vector holders) is handed on and left behind with a use no larger than its capacity and a capacity no larger than its memory',
      ENGINE + 'Symbolic linear forms over lengths; capacities follow malloc, calloc, realloc, strdup, local and static objects and struct fields; text lengths follow strlen, strcpy, strcat, strncpy. Lengths do not wrap round. Only buffers whose capacity is visible to the function are judged; a path on which a joined loop value takes part is not.')
def s02(ctx, res):
    for v in ('debug', 'release'):
        def go():
            import buf as n
            e, rule, rs = n.run_buf(ctx.prog(v))
            return e, rule, rs, n.reports(e, rule, v == 'release')
        eng, rule, rs, reps = ctx.memo('buf-' + v, go)
        res.add(reps)
        res.cov.update({'functions_' + v: len(rs), 'paths_to_exit_' + v: rule.exits, 'gave_up_' + v: rule.gaveup, 'places_not_judged_' + v: sorted('%s:%s %s' % k for k, x in rule.sites.items() if 'held' not in x)})
        res.floor('places_with_room_shown_' + v, sum('held' in x for x in rule.sites.values()), 120)
        res.samples += sorted('%s:%s %s' % k for k, x in rule.sites.items() if 'held' in x)[::12]


@prop('T01', 'Clock readings never repeat or mislead, and waits last as long as asked',
      'per path of each clock call: the real-time clock is read and what is returned is its seconds and nanoseconds in the unit of the call, no bits lost; for the unique clock, that the value was entered by compare-and-swap in a cell of the whole process, strictly above the value it replaced, and is the clock itself unless that was not above; per path of each wait: the seconds and nanoseconds handed to the system are the whole units and the rest of the interval, an interrupted sleep is continued with the time left, and any other outcome ends the wait',
      ENGINE + 'Arithmetic is compared in a normal form of linear sums over unknowns and integer quotients; narrowing is kept unless the range of the value fits. The 64-bit counter is taken not to wrap, the seconds of the clock to fit 33 bits. What the operating system makes of a sleep is not modelled.')
def t01(ctx, res):
    for v in ('debug', 'release'):
        def go():
            import clock
            return clock.run_time(ctx.prog(v))
        es, rules, rs = ctx.memo('time-' + v, go)
        for e, r in zip(es, rules):
            conc_cov(res, e, r, rs)
            res.add(e.reports)
            res.floor('%s_sites_%s' % (r.name, v), len(r.sites), 1)
            res.floor('%s_paths_to_exit_%s' % (r.name, v), r.exits, 3)
            res.samples += sorted('%s:%d' % x for x in r.sites)


@prop('E02', 'A thread runs once, as it was asked for, or its creation is reported as failed',
      'per path of thread creation: one thread at most, with the function, argument and place for the identity that were given, detached; its attributes set up before use and given back; on the first try the priority if valid and permitted and the processor if it exists; after a refusal a try with default attributes; true returned exactly when a thread was made; the priority calls read, set and judge the priority given, of the thread given, and report what the system answered; a mutex is set up once with priority inheritance and not recursively',
      ENGINE + 'The system calls are modelled by their documented answers (done or refused).')
def e02(ctx, res):
    for v in ('debug', 'release'):
        def go():
            import clock
            return clock.run_thread(ctx.prog(v))
        es, rules, rs = ctx.memo('thread-' + v, go)
        for e, r in zip(es, rules):
            conc_cov(res, e, r, rs)
            res.add(e.reports)
            res.floor('%s_sites_%s' % (r.name, v), len(r.sites), 8)
            res.floor('%s_paths_to_exit_%s' % (r.name, v), r.exits, 20)
            res.samples += sorted('%s:%d' % x for x in r.sites)


@prop('K02', 'A component made from a configuration is set up as the configuration says',
      'per path of each factory configuration function: the value read under each setting name reaches its own place in the constructor, whole; a missing name, priority, processor or start setting takes its default; a logger writes to the kind of place its configuration names; the component returned is the one created; a reconfigured logger gets the new level; per path of the constructors: what is given is kept, the logger is kept alive, every thread is started with the priority, processor and logger given, and as many are started as were asked for unless one cannot be',
      ENGINE + 'The configuration functions are found in the factory tables; settings are followed by the name they are read under.')
def k02(ctx, res):
    for v in ('debug', 'release'):
        def go():
            import conf
            return conf.run_conf(ctx.prog(v))
        es, (co, re_, ke), rs = ctx.memo('conf-' + v, go)
        for e, r in zip(es, [co] * len(es)): conc_cov(res, e, r, rs); res.add(e.reports)
        res.floor('settings_read_' + v, len(co.keys), 8)
        res.floor('constructor_calls_' + v, len(co.built), 3)
        res.floor('paths_of_configuration_' + v, co.exits, 4)
        res.floor('fields_kept_' + v, len(ke.kept), 3)
        res.floor('thread_starts_' + v, len(ke.threads), 2)
        res.samples += sorted('%s "%s"' % x for x in co.keys)


@prop('U01', 'Identifiers are random, marked as such, and printed in full',
      'per path of making an identifier: the whole generator state was filled by the system before its first use and is stepped; all 16 bytes come from the generator, its two words from different steps; byte 6 carries version 4 and byte 8 the variant in exactly their bits, the others stay random (bit by bit); per path of printing: each of the 36 characters is the digit of the right half of the right byte or a dash in its place, then a terminator, and nothing else is written',
      ENGINE + 'Values are compared bit by bit through masks and shifts; loops over the 16 bytes are followed one by one. The quality of the random numbers is not judged.')
def u01(ctx, res):
    for v in ('debug', 'release'):
        def go():
            import ident
            return ident.run_ident(ctx.prog(v))
        for e, r, f in ctx.memo('ident-' + v, go):
            conc_cov(res, e, r, [f]); res.add(e.reports)
            res.floor('%s_sites_%s' % (r.name, v), len(r.sites), 1)
            res.floor('%s_paths_%s' % (r.name, v), r.exits, 1)
            res.samples += sorted('%s:%d' % x for x in r.sites)
