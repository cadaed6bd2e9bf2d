"""Queues and thread pools: order and honesty of queues (Q01), the job list and its accounting (C11)."""
from engine import *
from ds import Base
from life import Plain, run
from contract import truths, strip_p, lin

LOCKS = ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'iot_component_lock', 'iot_component_unlock', 'iot_component_wait_and_lock', 'iot_mutex_lock', 'iot_mutex_unlock')
WAITS = ('pthread_cond_wait', 'pthread_cond_timedwait')
TAKE = ('pthread_mutex_lock', 'pthread_mutex_trylock', 'iot_component_lock', 'iot_component_wait_and_lock')


class Locked(Plain):
    """what another thread may change is forgotten whenever the lock is not held"""
    CONST = ()

    def arg(self, n): return ('s', (self.root.name,), 'arg%d' % n, '')

    def A(self, n): return self.A0 if n == 0 and self.A0 is not None else self.arg(n)
    A0 = None

    def shared(self, eng, st, b): return b == self.A(0)

    def forget(self, eng, st):
        keep = {self.o(*c) for c in self.CONST}
        for k in [k for k in st.mem if k[1] not in keep and self.shared(eng, st, k[0])]: del st.mem[k]

    def settle(self, eng, st, fr, inst): pass

    def edge(self, eng, st, fr, inst, callee):
        if callee in LOCKS or callee in WAITS:
            if callee not in TAKE: self.settle(eng, st, fr, inst)
            self.forget(eng, st)
            if callee in TAKE or callee in WAITS: self.begin(eng, st)

    def begin(self, eng, st): pass


# ------------------------------------------------------------------ queues
Q = 'iot_queue_t'
PUSH = {'iot_data_list_head_push': 'front', 'iot_data_list_tail_push': 'rear'}
POP = {'iot_data_list_head_pop': 'front', 'iot_data_list_tail_pop': 'rear'}


class QueueRule(Locked):
    name = 'queue'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.ends = {}; self.kinds = {}

    def inline(self, eng, fn, fr, st, inst, args): return fn.file.endswith('queue.c')

    def begin(self, eng, st):
        for k in ('len', 'full', 'norun', 'got0'): st.ts.pop((k,), None)

    def is_q(self, eng, st, v): return v in self.lists

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        t = tag_of(ptr)
        if t == (Q, 'queue'): self.lists.add(val); self.lists.add(('s',) + val[1:3] + (val[3] + '~',) if val[0] == 's' else val)
        if t == (Q, 'maxsize'): st.ts[('max',)] = val
        if t == (Q, 'running'): st.ts[('run',)] = val

    def f(self, st, n):
        return st.mem.get((self.A(0), self.o(Q, n)))

    def full(self, eng, st):
        m, l = self.f(st, 'maxsize'), st.ts.get(('len',))
        if m is None: return None
        if eng.decide(st, eng.norm_cmp('eq', m, ZERO)) is True: return False
        if l is None: return None
        lt = eng.decide(st, eng.norm_cmp('ult', l, m))
        if lt is True: return False
        if lt is False and eng.decide(st, eng.norm_cmp('eq', m, ZERO)) is False: return True
        return None

    def settle(self, eng, st, fr, inst):
        f = self.full(eng, st)
        st.ts.pop(('full',), None); st.ts.pop(('norun',), None)
        if f is not None: st.ts[('full',)] = f
        r = self.f(st, 'running')
        if r is not None and eng.decide(st, eng.norm_cmp('ne', r, ZERO)) is False: st.ts[('norun',)] = 1

    def on_call(self, eng, st, fr, inst, callee, args):
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        if callee in WAITS and 'try' in self.root.name: B('wait', 'call that must not block waits')
        self.edge(eng, st, fr, inst, callee)
        if callee in PUSH and self.is_q(eng, st, args[0]):
            self.ends.setdefault(('in', PUSH[callee]), []).append((fr, inst, st))
            if self.full(eng, st) is not False: B('room', 'element added although the queue may be full')
            if strip_p(args[1]) != self.A(1): B('push', 'something else than the given element is added')
            st.ts[('push',)] = min(st.ts.get(('push',), 0) + 1, 2)
            st.ts.pop(('len',), None)
            return [(('void',), st)]
        if callee in POP and self.is_q(eng, st, args[0]):
            self.ends.setdefault(('out', POP[callee]), []).append((fr, inst, st))
            if ('pop',) in st.ts: B('pop', 'element taken from the queue and lost')
            r = mk()
            st.ts.pop(('len',), None)
            s2 = st.copy(); s2.ts[('got0',)] = 1
            eng.set_ne(st, r, 0); st.ts[('pop',)] = r
            st.note('%s: element taken' % eng.where(fr, inst)); s2.note('%s: queue empty' % eng.where(fr, inst))
            return [(r, st), (ZERO, s2)]
        if callee == 'iot_data_list_length' and self.is_q(eng, st, args[0]):
            l = st.ts.get(('len',))
            if l is None: l = mk(); st.ts[('len',)] = l
            return [(l, st)]
        if callee == 'iot_data_alloc_list':
            r = mk(); eng.set_ne(st, r, 0); self.lists.add(r); st.ts[('list',)] = r
            return [(r, st)]
        if callee == 'iot_data_free':
            if self.is_q(eng, st, args[0]): st.ts[('qfree',)] = 1
            elif strip_p(args[0]) == self.A(1): st.ts[('free',)] = min(st.ts.get(('free',), 0) + 1, 2)
            elif args[0] == st.ts.get(('pop',)): B('pop', 'element taken from the queue and released')
            return [(('void',), st)]
        fn = self.p.funcs.get(callee)
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if any(self.is_q(eng, st, a) for a in args) and not (fn is not None and all('const' in a[3] for a, v in zip(fn.args, args) if self.is_q(eng, st, v))):
            B('other', 'queue content changed by something else than adding and taking')
        if callee.startswith(('pthread_', 'iot_')): return [(self.res(eng, st, fr, inst, callee), st)]
        return None

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        n = fr.fn.name
        inst = fr.fn.blocks[-1][-1]
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        push, free, pop = st.ts.get(('push',), 0), st.ts.get(('free',), 0), st.ts.get(('pop',))
        full = st.ts.get(('full',))
        if n == 'iot_queue_try_enqueue':
            if push > 1: B('push', 'element added more than once')
            if free: B('push', 'element released although the caller keeps it')
            for t, s2 in truths(eng, st, val):
                if t != (push == 1): B('told', 'reports that the element was%s added although it was%s' % (('', ' not') if t else (' not', '')))
            if not push and full is not True: B('told', 'element refused although the queue may have room')
        elif n == 'iot_queue_enqueue':
            if push + free != 1: B('push', 'element %s' % ('neither added nor released' if not push + free else 'added more than once' if not free else 'added or released more than once'))
            elif free and not (full is True and ('norun',) in st.ts): B('push', 'element dropped although the queue may be running or have room')
        elif n in ('iot_queue_try_dequeue', 'iot_queue_dequeue'):
            if pop is not None and val != pop: B('pop', 'element taken from the queue and not returned')
            if pop is None:
                if val != ZERO and eng.lookup(st, val) != 0: B('pop', 'something else than the element taken is returned')
                if ('got0',) not in st.ts: B('pop', 'nothing returned without looking whether the queue is empty')
                elif n == 'iot_queue_dequeue' and ('norun',) not in st.ts: B('pop', 'nothing returned although the queue may be running')
        elif n == 'iot_queue_size':
            if val != st.ts.get(('len',)): B('size', 'size returned is not the number of elements')
        elif n == 'iot_queue_maxsize':
            if val != st.ts.get(('max',)): B('size', 'limit returned is not the limit of the queue')
        elif n == 'iot_queue_setmaxsize':
            if st.ts.get(('stored', 'maxsize')) != self.A(1): B('size', 'limit given is not stored')
        elif n == 'iot_queue_stop':
            if st.ts.get(('stored', 'running')) != ZERO: B('stop', 'queue not marked as stopped')
        elif n == 'iot_queue_alloc':
            g = lambda k: st.mem.get((root(val), self.o(Q, k)), ZERO if root(val) in st.zero else None)
            if g('maxsize') != self.A(0): B('make', 'limit given is not stored')
            if g('queue') is None or g('queue') != st.ts.get(('list',)): B('make', 'queue made without its list')
            if g('running') is None or eng.decide(st, eng.norm_cmp('ne', g('running'), ZERO)) is not True: B('make', 'queue made but not running')
        if n in ('iot_queue_size', 'iot_queue_maxsize', 'iot_queue_setmaxsize', 'iot_queue_stop') and (push or pop is not None): B('other', 'queue content changed by something else than adding and taking')

    def on_stored(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        if t and t[0] == Q:
            n = self.root.name
            ok = {'maxsize': ('iot_queue_setmaxsize', 'iot_queue_alloc'), 'running': ('iot_queue_stop', 'iot_queue_alloc'), 'queue': ('iot_queue_alloc',)}
            if n not in ok.get(t[1], (n,)): self.bad(eng, fr, inst, st, 'other', '%s of the queue changed' % t[1])
            st.ts[('stored', t[1])] = val


QFN = ('iot_queue_alloc', 'iot_queue_stop', 'iot_queue_try_dequeue', 'iot_queue_dequeue', 'iot_queue_try_enqueue', 'iot_queue_enqueue', 'iot_queue_size', 'iot_queue_maxsize', 'iot_queue_setmaxsize')


def run_queue(prog):
    rule = QueueRule(prog)
    rule.lists = set()
    eng = run(prog, rule, [prog.funcs[n] for n in QFN])
    e = rule.ends
    for side in ('in', 'out'):
        both = [k for k in e if k[0] == side]
        if len(both) > 1:
            k = min(both, key=lambda k: len({(f.fn.name, i.line) for f, i, s in e[k]}))
            fr, inst, st = e[k][0]
            eng.report('order', fr, inst, st, 'elements are %s at different ends of the queue' % ('added' if side == 'in' else 'taken'), key=('order', fr.fn.name, side))
    if len({k[0] for k in e}) == 2 and len(e) == 2 and len({k[1] for k in e}) == 1:
        fr, inst, st = e[next(k for k in e if k[0] == 'out')][0]
        eng.report('order', fr, inst, st, 'elements are taken at the end at which they are added', key=('order', fr.fn.name, 'same'))
    return eng, rule, list(QFN)


# ------------------------------------------------------------------ thread pools
P, J, TH = 'iot_threadpool_t', 'iot_job_t', 'iot_thread_t'


def thread_fns(prog, unit):
    """functions given to iot_thread_create in a unit"""
    out = {}
    for n, f in prog.funcs.items():
        if not f.file.endswith(unit): continue
        for b in f.blocks:
            for i in b:
                if i.op == 'call' and i.d['callee'] == ('fn', 'iot_thread_create'):
                    for o in i.ops:
                        if o[0] == 'fn' and o[1] in prog.funcs: out.setdefault(o[1], set()).add(n)
    return out


class JobRule(Locked):
    name = 'jobs'
    join_at = 120
    CONST = ((P, 'max_jobs'), (P, 'threads'), (P, 'logger'))

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.pools = set(); self.recs = set(); self.sites = {}; self.selfs = set(); self.eqs = {}
        self.NO = C(-1)
        self.states = {k.replace('IOT_COMPONENT_', '').lower(): v for k, v in prog.enums['iot_component_state_t'].items()}

    def inline(self, eng, fn, fr, st, inst, args): return fn.file.endswith('threadpool.c') and not (fn.public and fn.name != self.root.name)

    def shared(self, eng, st, b): return b in self.pools or b in self.recs

    def begin(self, eng, st):
        for k in [k for k in st.ts if k[0] in HOLD]: del st.ts[k]
        st.ts[('in',)] = 1

    def both(self, b): return (b, ('s',) + b[1:3] + (b[3] + '~',)) if b[0] == 's' else (b,)

    # ---- what is seen
    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        t = tag_of(ptr)
        b = loc_of(ptr)[0]
        if t and t[0] == P: self.seen_pool(st, b)
        if t == (TH, 'pool'): self.pools.update(self.both(val))
        if t and t[0] == J and b[0] != 'a': self.recs.update(self.both(b))
        if t and ('left',) in st.ts and (t[0] in (P, TH) and t[1] != 'id' or t[0] == 'iot_component_t'): self.late(eng, st, fr, inst)
        if t == (TH, 'pending_delete') and self.mode == 'run': st.ts[('pend', val)] = 1
        if t == (P, 'created') and self.mode == 'make': st.ts[('cr',)] = val
        if t in ((P, 'jobs'), (P, 'working')): st.ts.setdefault(('z', t[1]), val)
        if t in ((P, 'front'), (P, 'rear'), (P, 'cache')):
            if val[0] != 'c': self.recs.update(self.both(val))
            if ('st', t[1]) not in st.ts: st.ts.setdefault(('z', t[1]), val)
            if t[1] == 'front' and ('at',) not in st.ts and ('st', 'front') not in st.ts: st.ts[('at',)] = val
        if t == (J, 'prev'):
            if ('st', b) not in st.ts: st.ts[('nx', b)] = val
            if val[0] != 'c': self.recs.update(self.both(val))
            if b == st.ts.get(('at',)) and b != st.ts.get(('J',)) and self.mode == 'add' and ('st', b) not in st.ts:
                self.passed(eng, st, fr, inst, b)
                st.ts[('pred',)] = b; st.ts[('at',)] = val
                self.sites.setdefault('step', set()).add((fr.fn.name, inst.line))
        if ('in',) in st.ts and t in ((J, 'function'), (J, 'arg')): st.ts[(t[1], val)] = b
        if b[0] == 'a' and ('cp', b) in st.ts and val[0] == 's':
            src, o = st.ts[('cp', b)], loc_of(ptr)[1]
            for f in ('function', 'arg'):
                if o == self.o(J, f) and val == st.ts.get(('cpv', b, f)): st.ts[(f, val)] = src

    def on_store(self, eng, st, fr, inst, ptr, val):
        if self.mode == 'free' and tag_of(ptr) == (TH, 'pending_delete') and val != ZERO: self.left_to(eng, st, fr, inst, ptr)

    def left_to(self, eng, st, fr, inst, ptr):
        yes = lambda v: eng.decide(st, eng.norm_cmp('ne', v, ZERO)) is True
        is_a = lambda v, f: v[0] == 's' and (self.org(v) or (0, 0, 0))[2] == (TH, f)
        live = st.ts.get(('q',)) == 'alive' or any(is_a(v, 'deleted') and x == ('eq', 0) for v, x in st.facts.items())
        me = any(yes(r) for r in self.eqs) or any(k[0] == 'cmp' and any(x in self.selfs for x in k[2:]) and any(is_a(x, 'tid') for x in k[2:]) and eng.decide(st, eng.norm_cmp('eq', k[2], k[3])) is True for k in st.facts)
        if not live: self.bad(eng, fr, inst, st, 'wait', 'last step of destroying the pool left to a thread that may have ended')
        if not me: self.bad(eng, fr, inst, st, 'wait', 'last step of destroying the pool left to a thread that may not be the caller')

    def seen_pool(self, st, b):
        if b[0] != 'a': self.pools.update(self.both(b))

    def late(self, eng, st, fr, inst):
        for k in st.ts:
            if k[0] == 'pend' and eng.decide(st, eng.norm_cmp('ne', k[1], ZERO)) is True: return
        self.bad(eng, fr, inst, st, 'late', 'thread uses the pool after it has signed off from it (it may be gone)')

    def on_rmw(self, eng, st, fr, inst, ptr, opname, operand, old):
        if tag_of(ptr) == (P, 'created'):
            b = loc_of(ptr)[0]
            self.seen_pool(st, b)
            n = operand[1] if operand[0] == 'c' else None
            if opname == 'sub' or opname == 'add' and n is not None and n < 0:
                if ('left',) in st.ts: self.bad(eng, fr, inst, st, 'signoff', 'thread signs off twice')
                st.ts[('left',)] = 1
            else:
                if ('on',) in st.ts: self.bad(eng, fr, inst, st, 'signoff', 'thread signs on twice')
                st.ts[('on',)] = 1

    def prio(self, st, b): return st.mem.get((b, self.o(J, 'priority')))

    def passed(self, eng, st, fr, inst, b):
        p = self.prio(st, b)
        if eng.decide(st, eng.norm_cmp('eq', self.A(3), self.NO)) is True: return
        if p is None or eng.decide(st, eng.norm_cmp('slt', p, self.A(3))) is not False or eng.decide(st, eng.norm_cmp('eq', p, self.NO)) is not False:
            self.bad(eng, fr, inst, st, 'order', 'queued job passed over although the new one may have to run before it')

    def on_stored(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        b = loc_of(ptr)[0]
        if t and ('left',) in st.ts and t[0] in (P, TH): self.late(eng, st, fr, inst)
        if t == (TH, 'pending_delete') and val != ZERO:
            st.ts[('selfd',)] = 1
        if t == (TH, 'deleted') and val != ZERO: st.ts[('out',)] = 1
        if t == (TH, 'pool') and self.mode == 'make':
            o, d = loc_of(ptr)[1], self.o(TH, 'pool')
            for k in [k for k in st.ts if k[0] == 'th']: del st.ts[k]
            st.ts[('th', (b, o - d if isinstance(o, int) else ('i', o[1] - d, o[2])))] = val
        if not t or t[0] not in (P, J): return
        if t[0] == P and b not in st.fresh: self.seen_pool(st, b)
        if t[0] == J and b[0] != 'a': self.recs.update(self.both(b))
        if t == (J, 'function') and b[0] != 'a': st.ts[('J',)] = b
        if t in ((P, 'front'), (P, 'rear'), (P, 'cache')):
            st.ts[('st', t[1])] = val
            if t[1] in ('front', 'cache') and self.mode == 'free':
                st.ts.pop(('z', t[1]), None); st.ts.pop(('st', t[1]), None); st.ts.pop(('at',), None)
        if t == (J, 'prev') and b[0] != 'a': st.ts[('st', b)] = val
        if self.mode == 'add' and t[0] in (P, J) and t[1] in ('prev', 'front'):
            at = st.ts.get(('at',))
            q = self.prio(st, at) if at is not None and at[0] == 's' else None
            if q is not None and (eng.decide(st, eng.norm_cmp('eq', q, self.NO)) is True or eng.decide(st, eng.norm_cmp('slt', q, self.A(3))) is True): st.ts[('lower',)] = at
        if t == (P, 'max_jobs') and self.mode == 'make':
            a = self.A(1)
            z = eng.decide(st, eng.norm_cmp('eq', a, ZERO))
            st.ts[('limit',)] = 1 if val == a and z is False or z is True and val[0] == 'c' and val[1] & 0xffffffff == 0xffffffff else 0

    # ---- the end of a critical section
    def settle(self, eng, st, fr, inst):
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        D = lambda p, a, b: eng.decide(st, eng.norm_cmp(p, a, b))
        pool = next((k[0] for k in st.mem if k[0] in self.pools), None)
        pools = {k[0] for k in st.mem if k[0] in self.pools}
        def f(n):
            for p in pools:
                v = st.mem.get((p, self.o(P, n)))
                if v is not None: return v
            return None
        g = lambda r, n: st.mem.get((r, self.o(J, n)))
        z = lambda n: st.ts.get(('z', n))
        if self.mode == 'free' or ('in',) not in st.ts:
            if self.mode == 'make': return
            st.ts.pop(('in',), None); return
        st.ts.pop(('in',), None)
        self.sites.setdefault('section', set()).add((fr.fn.name, inst.line))
        if z('front') is not None and z('rear') is not None:      # both or neither, by induction
            a, b = D('eq', z('front'), ZERO), D('eq', z('rear'), ZERO)
            if a is not None and b is not None and a != b: st.ts[('skip',)] = 1; return
        add = take = 0
        Jn = st.ts.get(('J',)) if self.mode == 'add' else None
        if ('st', 'front') in st.ts and Jn is None and self.mode in ('run', 'other'): take = 1
        if Jn is not None: add = 1
        # counts
        for n, want in (('jobs', add - take), ('working', take - (1 if ('ran',) in st.ts else 0))):
            a, b = lin(f(n)) if f(n) is not None else None, lin(z(n)) if z(n) is not None else None
            d = None
            if z(n) is None and f(n) is None: d = 0
            elif a is not None and b is not None:
                x = a - b
                if x.isc(): d = x.k
            if d != want: B('count', 'number of %s jobs changed by %s although %s' % ({'jobs': 'queued', 'working': 'running'}[n], d if d is not None else 'an unknown amount', {1: 'one was added' if n == 'jobs' else 'one was started', 0: 'none was added or taken' if n == 'jobs' else 'none was started or finished', -1: 'one was taken' if n == 'jobs' else 'one finished'}[want]))
        st.ts.pop(('ran',), None)
        if add:
            self.sites.setdefault('add', set()).add((fr.fn.name, inst.line))
            st.ts[('added',)] = min(2, st.ts.get(('added',), 0) + 1)
            for n, i, m in (('function', 1, 'function'), ('arg', 2, 'argument'), ('priority', 3, 'priority')):
                if g(Jn, n) != self.A(i): B('job', 'job queued with another %s than the one given' % m)
            nxt = g(Jn, 'prev')
            at, pred = st.ts.get(('at',)), st.ts.get(('pred',))
            # record taken from the free ones
            if z('cache') is not None and Jn == z('cache'):
                if f('cache') != st.ts.get(('nx', Jn), 0): B('cache', 'job record queued while still among the free ones')
            elif ('st', 'cache') in st.ts: B('cache', 'free job records lost')
            elif ('new', Jn) not in st.ts: B('cache', 'job record queued that is neither new nor free')
            # links
            links = [k[1] for k, v in st.ts.items() if k[0] == 'st' and v == Jn and k[1] != 'rear']
            isat = nxt is not None and at is not None and (nxt == at or eng.lookup(st, nxt) == 0 and eng.lookup(st, at) == 0)
            zero = nxt is not None and eng.lookup(st, nxt) == 0
            ok = False
            for l in links:
                if l == 'front':
                    if pred is None and isat or z('front') is not None and eng.lookup(st, z('front')) == 0 and zero: ok = True
                elif l == pred and isat: ok = True
                elif l == z('rear') and zero: ok = True
            if nxt is None or not links: B('link', 'new job not linked into the queue')
            elif not ok: B('link', 'jobs lost from the queue when the new one is linked')
            extra = [k[1] for k, v in st.ts.items() if k[0] == 'st' and v != Jn and k[1] not in (Jn, 'cache')]
            if extra: B('link', 'other links of the queue changed')
            p = self.A(3)
            if zero:
                if st.ts.get(('st', 'rear')) != Jn: B('link', 'last job of the queue is not its rear')
                if D('eq', p, self.NO) is not True and not (at is not None and eng.lookup(st, at) == 0): B('order', 'job put at the end of the queue without looking at the priorities of the others')
            elif nxt is not None:
                if ('st', 'rear') in st.ts: B('link', 'rear of the queue is not its last job')
                if D('eq', p, self.NO) is not False: B('order', 'job without priority put before another')
                elif st.ts.get(('lower',)) != nxt: B('order', 'job put before one of no lower priority')
            ids = lin(g(Jn, 'id')) if g(Jn, 'id') is not None else None
            ni = lin(f('next_id')) if f('next_id') is not None else None
            if not (ids is not None and ni is not None and (ni - ids).isc() and (ni - ids).k == 1): B('job', 'job not given a number of its own')
        elif self.mode == 'add' and any(k[0] == 'st' for k in st.ts): B('link', 'queue changed although no job is added')
        if take:
            self.sites.setdefault('take', set()).add((fr.fn.name, inst.line))
            if st.ts.get(('state',)) != 'running': B('state', 'job taken although the pool may not be running')
            F = z('front')
            fp = st.ts.get(('nx', F)) if F is not None else None
            nf, nr, nj = f('front'), f('rear'), f('jobs')
            if F is None or eng.lookup(st, F) != 1 and D('ne', F, ZERO) is not True: B('take', 'job taken from a queue that may be empty')
            else:
                if ('run', ) in st.ts: B('take', 'job taken while another one has yet to be run')
                st.ts[('run',)] = F
                none = nj is not None and D('eq', nj, ZERO) is True
                if not (nf is not None and (nf == fp or none and eng.lookup(st, nf) == 0)): B('take', 'front of the queue is not the job after the one taken')
                if not (nr is not None and eng.lookup(st, nr) == 0 or nf is not None and D('ne', nf, ZERO) is True or nj is not None and D('ne', nj, ZERO) is True): B('take', 'rear of the queue left at a job that was taken')
                if nr is not None and ('st', 'rear') in st.ts and not (none or D('eq', nf, ZERO) is True): B('take', 'rear of the queue changed although jobs are left')
                if not (f('cache') == F and g(F, 'prev') is not None and g(F, 'prev') == z('cache')) and ('freed', F) not in st.ts: B('cache', 'record of the job taken is lost')
        if self.mode == 'run' and not take and ('st', 'rear') in st.ts: B('take', 'rear of the queue changed although no job is taken')
        # what is known on leaving
        j, w = f('jobs'), f('working')
        st.ts.pop(('idle',), None); st.ts.pop(('room',), None)
        if j is not None and w is not None and D('eq', j, ZERO) is True and D('eq', w, ZERO) is True: st.ts[('idle',)] = 1
        m = f('max_jobs')
        if add and z('jobs') is not None: j = z('jobs')
        if j is not None and m is not None:
            lt = D('ult', j, m)
            if lt is None and D('eq', j, m) is not None: lt = D('eq', j, m) is False
            if lt is not None: st.ts[('room',)] = lt
        if add and st.ts.get(('room',)) is not True: B('room', 'job added although the queue may be full')

    def done(self, eng, st, fr, inst, what):
        if ('run',) in st.ts:
            self.bad(eng, fr, inst, st, 'run', 'job taken from the queue and not run before %s' % what)
            del st.ts[('run',)]

    def on_indirect(self, eng, st, fr, inst, fv, args):
        b = st.ts.get(('function', fv))
        if self.mode == 'run':
            self.sites.setdefault('run', set()).add((fr.fn.name, inst.line))
            r = st.ts.get(('run',))
            if r is None: self.bad(eng, fr, inst, st, 'run', 'job run that was not taken from the queue, or run twice')
            else:
                if b != r: self.bad(eng, fr, inst, st, 'run', 'function called is not that of the job taken')
                if not args or st.ts.get(('arg', args[0])) != r: self.bad(eng, fr, inst, st, 'run', 'job called with another argument than its own')
                del st.ts[('run',)]
                st.ts[('ran',)] = 1
            for k in [k for k in st.ts if k[0] in ('function', 'arg')]: del st.ts[k]
        return Plain.on_indirect(self, eng, st, fr, inst, fv, args)

    def on_call(self, eng, st, fr, inst, callee, args):
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        fn = self.p.funcs.get(callee)
        if ('left',) in st.ts and any(root(a) in self.pools for a in args): self.late(eng, st, fr, inst)
        if callee == 'memcpy' and args[0][0] == 'a' and root(args[1]) in self.recs and ('in',) in st.ts:
            src, dst = root(args[1]), args[0]
            for f in ('function', 'arg', 'priority', 'id'):
                if (src, self.o(J, f)) not in st.mem:
                    st.mem[(src, self.o(J, f))] = mk('cp' + f)
            st.ts[('cp', dst)] = src
            for f in ('function', 'arg'): st.ts[('cpv', dst, f)] = st.mem[(src, self.o(J, f))]
            return None
        if callee in LOCKS or callee in WAITS:
            if callee in WAITS or callee == 'iot_component_wait_and_lock': self.done(eng, st, fr, inst, 'waiting')
            self.edge(eng, st, fr, inst, callee)
            if callee == 'iot_component_wait_and_lock' and self.mode == 'run' and args[1][0] == 'c':
                outs = []
                for n, v in self.states.items():
                    if args[1][1] & v:
                        s2 = st.copy(); s2.ts[('state',)] = n; outs.append((C(v), s2))
                        s2.note('%s: state is %s' % (eng.where(fr, inst), n))
                return outs
            return [(self.res(eng, st, fr, inst, callee), st)]
        if callee in ('iot_component_set_running', 'iot_component_set_stopped', 'iot_component_set_deleted', 'iot_threadpool_stop'):
            if callee.endswith('deleted') and ('set', 'stopped') not in st.ts: B('wait', 'pool marked as deleted without being stopped first (a running one cannot be)')
            st.ts[('set', callee.split('_')[-1].replace('stop', 'stopped').replace('stoppedped', 'stopped'))] = 1
        if callee == 'pthread_self' and self.mode == 'free':
            r = ('s', ('sys',), 'self', ''); self.selfs.add(r)
            return [(r, st)]
        if callee == 'pthread_equal' and self.mode == 'free':
            r = mk()
            if any(x in args for x in self.selfs):
                self.eqs[r] = 1
                st.ts[('q',)] = 'alive' if any(v[0] == 's' and (self.org(v) or (0, 0, 0))[2] == (TH, 'deleted') and x == ('eq', 0) for v, x in st.facts.items()) else 'may'
            return [(r, st)]
        if callee == 'iot_component_dec_ref':
            r = mk(); s2 = st.copy(); eng.set_ne(st, r, 0); st.ts[('last',)] = 1
            s2.note('%s: references remain' % eng.where(fr, inst))
            return [(r, st), (ZERO, s2)]
        if callee == 'free':
            b = root(args[0])
            if self.mode == 'free':
                if b in self.pools: self.gone(eng, st, fr, inst)
                if b in self.recs:
                    if ('dead', b) in st.ts: B('drain', 'job record released twice')
                    st.ts[('dead', b)] = 1
                    st.ts.pop(('src', b), None)
                    c = st.ts.get(('cr',))
                    if c is None or all(eng.decide(st, eng.norm_cmp(q, C(1 if ('selfd',) in st.ts else 0), c)) is not False for q in ('ult', 'slt')): B('wait', 'job records released although threads may still use them')
            if self.mode == 'run' and b in self.pools: st.ts[('gone',)] = 1
            st.ts[('freed', b)] = 1
            if b in self.recs and self.mode == 'free': del st.ts[('freed', b)]
            return None
        if callee == 'iot_component_fini' and self.mode == 'free': self.gone(eng, st, fr, inst)
        if callee == 'iot_thread_create' and self.mode == 'make':
            self.sites.setdefault('thread', set()).add((fr.fn.name, inst.line))
            th = args[2]
            o = loc_of(th)
            if args[1] != ('fn', self.tfn): B('make', 'thread started with another function')
            if st.ts.get(('th', o)) != st.ts.get(('pool',)): B('make', 'thread started without knowing its pool')
            for k in [k for k in st.ts if k[0] == 'th']: del st.ts[k]
            if strip_p(args[0]) != th and loc_of(args[0])[0] != o[0]: B('make', 'thread identity not kept with the thread')
            for i, n in ((3, 'priority'), (4, 'affinity')):
                if args[i] != self.A(i - 1): B('make', 'thread started with another %s than the one given' % n)
            r = mk(); s2 = st.copy(); eng.set_ne(st, r, 0)
            s2.note('%s: thread cannot be started' % eng.where(fr, inst))
            return [(r, st), (ZERO, s2)]
        if callee in ('malloc', 'calloc') and self.mode == 'add':
            r = mk(); eng.set_ne(st, r, 0); st.fresh |= {r}; st.ts[('new', r)] = 1
            if callee == 'calloc': st.zero |= {r}
            self.recs.update(self.both(r))
            return [(r, st)]
        if callee == 'calloc' and self.mode == 'make' and ('pool',) not in st.ts:
            r = mk(); st.zero |= {r}; st.fresh |= {r}; eng.set_ne(st, r, 0)
            st.ts[('pool',)] = r
            return [(r, st)]
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith(('iot_', 'pthread_')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def gone(self, eng, st, fr, inst):
        """the pool is about to be destroyed"""
        if ('gone',) in st.ts: return
        st.ts[('gone',)] = 1
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        src = {k[1]: v for k, v in st.ts.items() if k[0] == 'src'}
        for n, m in (('front', 'queued'), ('cache', 'free')):
            if not any(x == n and eng.lookup(st, v) == 0 for v, x in src.items()): B('drain', 'pool destroyed with %s job records left' % m)
        if any(eng.lookup(st, v) != 0 and eng.decide(st, eng.norm_cmp('ne', v, ZERO)) is True for v in src): B('drain', 'job record taken off its list and not released')
        c = st.ts.get(('cr',))
        if c is None or all(eng.decide(st, eng.norm_cmp(q, ZERO, c)) is not False for q in ('ult', 'slt')) and eng.decide(st, eng.norm_cmp('eq', c, ZERO)) is not True: B('wait', 'pool destroyed although threads may still use it')

    def on_load(self, eng, st, fr, inst, ptr):
        if self.mode in ('free', 'make') and tag_of(ptr) == (P, 'created'):
            st.mem.pop((loc_of(ptr)[0], self.o(P, 'created')), None); st.zero -= {loc_of(ptr)[0]}

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if self.mode == 'make' and cond[0] == 'cmp' and ('cr',) in st.ts:
            c = st.ts[('cr',)]
            if c in (cond[2], cond[3]):
                o = cond[3] if cond[2] == c else cond[2]
                if eng.decide(st, eng.norm_cmp('eq', c, o)) is True or eng.decide(st, eng.norm_cmp('ult', c, o)) is False and o[0] != 'c': st.ts[('allon',)] = 1
                else: st.ts.pop(('allon',), None)
        if self.mode == 'free' and cond[0] == 's' and cond[3] == 'join' and len(fr.stack) == 1: st.ts[('br', cond)] = taken

    on_select = on_branch

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        if ('skip',) in st.ts: return
        inst = fr.fn.blocks[-1][-1]
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        n = fr.fn.name
        added = st.ts.get(('added',), 0)
        if n == 'iot_threadpool_try_work':
            if added > 1: B('job', 'job queued more than once')
            for t, s2 in truths(eng, st, val):
                if t != (added == 1): B('told', 'reports that the job was%s accepted although it was%s' % (('', ' not') if t else (' not', '')))
            if not added and st.ts.get(('room',)) is not False: B('told', 'job refused although the queue may have room')
        elif n == 'iot_threadpool_add_work':
            if added != 1: B('job', 'job %s' % ('not queued' if not added else 'queued more than once'))
        elif n == 'iot_threadpool_wait':
            if ('idle',) not in st.ts: B('idle', 'wait ends although jobs may be queued or running')
        elif self.mode == 'run':
            self.done(eng, st, fr, inst, 'the thread ends')
            pend = [k[1] for k in st.ts if k[0] == 'pend']
            if not pend: B('signoff', 'thread ends without looking whether it has to destroy the pool')
            elif any(eng.decide(st, eng.norm_cmp('ne', x, ZERO)) != (('gone',) in st.ts) for x in pend): B('signoff', 'pool %s' % ('destroyed by a thread that was not told to' if ('gone',) in st.ts else 'not destroyed by the thread told to do so'))
            if ('out',) not in st.ts: B('signoff', 'thread ends without marking itself as ended')
            if ('left',) not in st.ts or ('on',) not in st.ts: B('signoff', 'thread ends without signing off from the pool')
        elif self.mode == 'make':
            p = root(val)
            g = lambda k: st.mem.get((p, self.o(P, k)), ZERO if p in st.zero else None)
            if ('allon',) not in st.ts: B('wait', 'pool handed out before its threads have signed on')
            if st.ts.get(('limit',)) != 1: B('make', 'limit of queued jobs is not the one given')
            if g('threads') != self.A(0): B('make', 'number of threads is not the one given')
            if g('logger') != self.A(4): B('make', 'logger given is not used')
        elif n == 'iot_threadpool_free':
            if ('last',) in st.ts and (('gone',) in st.ts) == (('selfd',) in st.ts): B('wait', 'last step of destroying the pool %s' % ('taken although it was left to its thread' if ('gone',) in st.ts else 'neither taken nor left to its thread'))
            if ('last',) in st.ts and ('set', 'deleted') not in st.ts: B('wait', 'pool destroyed without telling its threads to end')
        elif n in ('iot_threadpool_start', 'iot_threadpool_stop'):
            if ('set', {'start': 'running', 'stop': 'stopped'}[n.split('_')[-1]]) not in st.ts: B('state', 'state of the pool not changed')


HOLD = ('state', 'in', 'lower', 'z', 'st', 'at', 'pred', 'J', 'nx', 'idle', 'room')


class FreeRule(JobRule):
    """destroying a pool: who waits for whom"""
    mode = 'free'

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        JobRule.on_loaded(self, eng, st, fr, inst, ptr, val)
        t = tag_of(ptr)
        if t == (P, 'created'): st.ts[('cr',)] = val
        b = loc_of(ptr)[0]
        if t == (J, 'prev') and ('dead', b) in st.ts: self.bad(eng, fr, inst, st, 'drain', 'job record used after it was released')
        if val[0] == 's':
            if t in ((P, 'front'), (P, 'cache')): st.ts.setdefault(('src', val), t[1])
            if t == (J, 'prev') and (('src', b) in st.ts or ('was', b) in st.ts): st.ts[('src', val)] = st.ts.get(('src', b)) or st.ts[('was', b)]


JFN = (('add', 'iot_threadpool_try_work'), ('add', 'iot_threadpool_add_work'), ('other', 'iot_threadpool_wait'), ('other', 'iot_threadpool_stop'), ('other', 'iot_threadpool_start'))


def run_jobs(prog):
    rule = JobRule(prog)
    eng = Engine(prog, rule)
    tf = [n for n, v in thread_fns(prog, 'threadpool.c').items()] or ['iot_threadpool_thread']
    todo = list(JFN) + [('run', n) for n in tf] + [('make', 'iot_threadpool_alloc')]
    for m, n in todo:
        rule.mode = m; rule.root = prog.funcs[n]; rule.tfn = tf[0]
        rule.join_at = 16 if m == 'make' else 120
        rule.pools = {('s', (n,), 'arg0', '')} if m in ('add', 'other') else set(); rule.recs = set()
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n)
    fr = FreeRule(prog)
    fr.tfn = tf[0]
    fr.pools = {('s', ('iot_threadpool_free',), 'arg0', '')}
    e2 = run(prog, fr, [prog.funcs['iot_threadpool_free']])
    return (eng, e2), (rule, fr), [n for m, n in todo] + ['iot_threadpool_free']


# ------------------------------------------------------------------ the scheduler and its thread
S = 'iot_scheduler_t'


class EndRule(Plain):
    """the scheduler's thread and its destroyer: who lets go last"""
    name = 'end'
    join_at = 40

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.sites = {}; self.tops = set()
        # helpers that can matter: those that reach the flag or give the object up
        rel = set()
        for n, f in prog.funcs.items():
            if not f.file.endswith('scheduler.c'): continue
            for b in f.blocks:
                for i in b:
                    if i.op == 'getelementptr' and i.d['gep'].get('st', '').endswith(S): rel.add(n)
                    if i.op == 'call' and i.d['callee'] == ('fn', 'free'): rel.add(n)
        grow = True
        while grow:
            new = {c for x in rel for c in prog.callers.get(x, ()) if c not in rel and prog.funcs[c].file.endswith('scheduler.c')}
            grow = bool(new); rel |= new
        self.rel = rel - {n for n in rel if any(a[3].replace(' ', '') == 'iot_schedule_t*' for a in prog.funcs[n].args[:1])}

    def inline(self, eng, fn, fr, st, inst, args): return fn.name in self.rel and not (fn.public and fn.name != self.root.name)

    def is_top(self, b): return b in self.tops

    def use(self, eng, st, fr, inst):
        if ('left',) in st.ts: self.bad(eng, fr, inst, st, 'late', 'thread uses the scheduler after it has signed off from it (it may be gone)')

    def on_load(self, eng, st, fr, inst, ptr):
        if tag_of(ptr) == (S, 'exited'): st.mem.pop(loc_of(ptr), None)
        if self.mode == 'run' and self.is_top(root(ptr)): self.use(eng, st, fr, inst)

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        if tag_of(ptr) == (S, 'exited'): st.ts[('ex',)] = val

    def on_stored(self, eng, st, fr, inst, ptr, val):
        if self.mode == 'run' and self.is_top(root(ptr)):
            self.use(eng, st, fr, inst)
            if tag_of(ptr) == (S, 'exited'):
                self.sites.setdefault('off', set()).add((fr.fn.name, inst.line))
                if eng.decide(st, eng.norm_cmp('ne', val, ZERO)) is True: st.ts[('left',)] = 1
                else: self.bad(eng, fr, inst, st, 'signoff', 'thread withdraws that it has ended')
        elif tag_of(ptr) == (S, 'exited'):
            st.ts[('exs',)] = val
            if self.mode == 'free': self.bad(eng, fr, inst, st, 'wait', 'thread of the scheduler declared to have ended by the one who destroys it')

    def gone(self, eng, st, fr, inst):
        if ('gone',) in st.ts: return
        st.ts[('gone',)] = 1
        self.sites.setdefault('free', set()).add((fr.fn.name, inst.line))
        e = st.ts.get(('ex',))
        if e is None or eng.decide(st, eng.norm_cmp('ne', e, ZERO)) is not True: self.bad(eng, fr, inst, st, 'wait', 'scheduler destroyed although its thread may still use it')
        if st.ts.get(('del',)) != 1: self.bad(eng, fr, inst, st, 'wait', 'scheduler destroyed without telling its thread to end')

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        if self.mode == 'run' and any(self.is_top(root(a)) for a in args): self.use(eng, st, fr, inst)
        if self.mode == 'free':
            own = args and self.is_top(root(args[0]))
            if callee == 'iot_component_dec_ref':
                r = mk(); s2 = st.copy(); eng.set_ne(st, r, 0)
                s2.note('%s: references remain' % eng.where(fr, inst)); s2.ts[('keep',)] = 1
                return [(r, st), (ZERO, s2)]
            if callee == 'iot_component_set_stopped': st.ts[('stp',)] = 1
            if callee == 'iot_component_set_deleted':
                if ('stp',) not in st.ts: self.bad(eng, fr, inst, st, 'wait', 'scheduler marked as deleted without being stopped first (a running one cannot be)')
                st.ts[('del',)] = 1
            if own and callee in ('free', 'iot_component_fini') or callee.startswith('iot_data_') and not (fn and all('const' in a[3] for a in fn.args)): 
                self.gone(eng, st, fr, inst)
        if self.mode == 'make' and callee == 'iot_thread_create':
            if root(args[2]) not in st.fresh: self.bad(eng, fr, inst, st, 'make', 'thread started without its scheduler')
            r = mk(); s2 = st.copy(); eng.set_ne(st, r, 0); st.ts[('thr',)] = 1; s2.ts[('thr',)] = 0
            s2.note('%s: thread cannot be started' % eng.where(fr, inst))
            st.zero = st.zero | {root(args[2])}
            return [(r, st), (ZERO, s2)]
        if callee == 'calloc' and self.mode == 'make':
            r = mk(); st.zero |= {r}; st.fresh |= {r}; eng.set_ne(st, r, 0)
            return [(r, st)]
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith(('iot_', 'pthread_')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        if self.mode == 'run' and ('left',) not in st.ts: B('signoff', 'thread ends without signing off from the scheduler')
        if self.mode == 'make':
            v = st.ts.get(('exs',), ZERO)
            t = st.ts.get(('thr',))
            d = eng.decide(st, eng.norm_cmp('ne', v, ZERO))
            if t == 1 and d is not False: B('make', 'scheduler marked as ended although its thread runs')
            if t == 0 and d is not True: B('make', 'scheduler without a thread not marked as ended')


def run_end(prog):
    rule = EndRule(prog)
    eng = Engine(prog, rule)
    tf = [n for n in thread_fns(prog, 'scheduler.c') if prog.funcs[n].args and n in rule.rel] or ['iot_scheduler_thread']
    todo = [('run', n) for n in tf] + [('free', 'iot_scheduler_free'), ('make', 'iot_scheduler_alloc')]
    for m, n in todo:
        rule.mode = m; rule.root = prog.funcs[n]
        rule.tops = {('s', (n,), 'arg0', '')} if m != 'make' else set()
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n)
    return eng, rule, [n for m, n in todo]


if __name__ == '__main__':
    import sys, ir, time
    t = time.time(); p = ir.load('debug')
    eng, rule, rs = globals()['run_' + sys.argv[1]](p)
    engs = eng if isinstance(eng, tuple) else (eng,)
    rules = rule if isinstance(rule, tuple) else (rule,)
    for e in engs:
        for x in e.reports:
            print('%s:%s %s [%s] %s   %s' % (x['file'].split('/')[-1], x['line'], x['function'], x['rule'], x['message'], '>'.join(x['callstack'][1:])))
            if len(sys.argv) > 2:
                for y in x['path']: print('      ', y)
    for r in rules: print({k: v for k, v in r.__dict__.items() if k in ('exits', 'sites', 'kinds')}, {k: sorted({(f.fn.name, i.line) for f, i, s in v}) for k, v in getattr(r, 'ends', {}).items()})
    print(rs, time.time() - t)
