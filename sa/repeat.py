"""Schedules: when they run, how often, and what their calls report (R01)."""
from engine import *
from life import Plain, run
from contract import truths, strip_p, lin
from jobs import Locked, LOCKS, WAITS, TAKE, thread_fns

SC, SD = 'iot_scheduler_t', 'iot_schedule_t'
HOLD = ('now', 'due', 'set', 'first', 'n0', 'ev', 'sch', 'state')
ONCE = ('run', 'cb', 'abort', 'drop', 'fail', 'skip', 'st0', 'null')


def add_terms(v, out):
    if v[0] == 'op' and v[1] == 'add':
        add_terms(v[2], out); add_terms(v[3], out)
    else: out.append(v)
    return out


class RunRule(Locked):
    name = 'repeat'
    join_at = 24
    CONST = ((SD, 'function'), (SD, 'arg'), (SD, 'period'), (SD, 'threadpool'), (SD, 'priority'), (SD, 'id'), (SC, 'queue'), (SC, 'idle'), (SC, 'logger'))

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.sites = {}; self.scheds = set(); self.tops = set(); self.maps = {}
        self.states = {k.replace('IOT_COMPONENT_', '').lower(): v for k, v in prog.enums['iot_component_state_t'].items()}

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.file.endswith('scheduler.c') and not (fn.public and fn.name != self.root.name) and fn.name != 'iot_schedule_free' and not self.isfree(fn)

    def isfree(self, fn): return any(c == 'free' for c in self.p.callees.get(fn.name, ()))

    def both(self, b): return (b, ('s',) + b[1:3] + (b[3] + '~',)) if b[0] == 's' else (b,)

    def shared(self, eng, st, b): return b in self.scheds or b in self.tops

    def begin(self, eng, st):
        for k in [k for k in st.ts if k[0] in HOLD and self.mode != 'make']: del st.ts[k]
        st.ts[('in',)] = 1

    def f(self, st, b, n):
        if self.mode == 'make' and ('set', n, b) in st.ts: return st.ts[('set', n, b)]
        v = st.mem.get((b, self.o(SD, n)))
        return ZERO if v is None and b in st.zero else v

    def on_load(self, eng, st, fr, inst, ptr):
        # what is read without the lock says nothing later
        if tag_of(ptr) == (SD, 'refs'): st.mem.pop(loc_of(ptr), None)

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        t = tag_of(ptr)
        b = loc_of(ptr)[0]
        if t and t[0] == SD and b[0] == 's': self.scheds.update(self.both(b))
        if t and t[0] == SC: self.tops.update(self.both(b))
        if t in ((SC, 'queue'), (SC, 'idle')):
            for x in self.both(val): self.maps[x] = t[1]
        if t and t[0] == SD and t[1] in ('function', 'arg', 'run_cb', 'abort_cb', 'repeat', 'start', 'scheduled', 'concurrent', 'refs', 'sync', 'dropped', 'id'):
            if val[0] == 's' and (self.mode != 'run' or t[1] in ('run_cb', 'abort_cb', 'repeat', 'refs')): st.ts[('ld', t[1], b)] = val
            if val[0] == 's' and t[1] in ('function', 'run_cb', 'abort_cb', 'arg'): st.ts[('is', val)] = (t[1], b)

    def on_stored(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        b = loc_of(ptr)[0]
        if not t or t[0] != SD: return
        if b[0] == 's': self.scheds.update(self.both(b))
        if t[1] == 'start':
            if ('set', 'start', b) not in st.ts: st.ts[('set', 'start', b)] = val
            else: st.mem[loc_of(ptr)] = ('s', (fr.fn.name,), 'start', '')
        elif self.mode == 'make' or t[1] in ('repeat', 'concurrent', 'sync', 'run_cb', 'abort_cb'): st.ts[('set', t[1], b)] = val

    def on_store(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        b = loc_of(ptr)[0]
        if t == (SD, 'start') and ('set', 'start', b) in st.ts:
            old = st.mem.get(loc_of(ptr))
            if old is None or self.step(old, val) not in (0, 1): self.bad(eng, fr, inst, st, 'start', 'start time moved by more than the step that makes it unique')

    def step(self, old, new):
        a, b = ([x for x in add_terms(v, []) if x[0] != 'c'] for v in (old, new))
        if sorted(map(repr, a)) != sorted(map(repr, b)): return None
        return sum(x[1] for x in add_terms(new, []) if x[0] == 'c') - sum(x[1] for x in add_terms(old, []) if x[0] == 'c')

    # ---- due?
    def on_branch(self, eng, st, fr, inst, cond, taken):
        if self.mode != 'run': return
        self.due(eng, st)
        c = st.ts.get(('pass',))
        if c is None: return
        for n in ('run_cb', 'abort_cb'):
            v = st.ts.get(('ld', n, c))
            if v is not None and eng.lookup(st, v) == 0: st.ts[('null', n)] = 1
        if ('in',) not in st.ts: return
        v = st.mem.get((root(self.tops0), self.o(SC, 'component') + self.o('iot_component_t', 'state')))
        if v is not None and eng.lookup(st, v) == self.states['running']: st.ts[('st0',)] = 1
        v = st.ts.get(('ld', 'refs', c))
        if st.ts.get(('conc',)) == 0 and v is not None and eng.decide(st, eng.norm_cmp('ne', v, C(1))) is True: st.ts[('skip',)] = 1

    def due(self, eng, st):
        now = st.ts.get(('now',))
        c = st.ts.get(('first',))
        if now is not None and c is not None and ('due',) not in st.ts:
            s = st.mem.get((c, self.o(SD, 'start')))
            if s is not None and (eng.decide(st, eng.norm_cmp('ult', s, now)) is True or eng.decide(st, eng.norm_cmp('ule', s, now)) is True):
                st.ts[('due',)] = c; st.ts[('pass',)] = c
                for k in [k for k in st.ts if k[0] in ONCE]: del st.ts[k]

    on_select = on_branch

    def settle(self, eng, st, fr, inst):
        if self.mode == 'run':
            self.ended(eng, st, fr, inst)
        st.ts.pop(('in',), None)

    def ended(self, eng, st, fr, inst):
        """the lock is given up: was the pass over a due schedule finished here?"""
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        c = st.ts.get(('pass',))
        ev = [k for k in st.ts if k[0] == 'ev']
        if c is None:
            if ev: B('due', 'schedule moved although it is not due')
            return
        if not ev: return                         # a callback follows, or nothing left to do
        self.sites.setdefault('pass', set()).add((fr.fn.name, inst.line))
        self.finish(eng, st, fr, inst, c, {k[1:3] for k in ev})

    def finish(self, eng, st, fr, inst, c, ev):
        B = lambda k, m: self.bad(eng, fr, inst, st, k, m)
        D = lambda p, a, b: eng.decide(st, eng.norm_cmp(p, a, b))
        self.dispatched(eng, st, fr, inst, c)
        if st.ts.get(('sch',)) != 1: B('valid', 'schedule counted or moved without having been seen scheduled under the lock')
        r0 = st.ts.get(('ld', 'repeat', c))
        new = st.ts.get(('set', 'repeat', c))
        if r0 is None: B('repeat', 'repetitions left are not looked at'); return
        z = D('eq', r0, ZERO)
        if new is None:
            if z is not True: B('repeat', 'repetition not counted')
            last = False
        else:
            d = lin(new) - lin(r0) if lin(new) is not None else None
            if d is None or not d.isc() or d.k != -1: B('repeat', 'repetitions left not reduced by one')
            if z is not False: B('repeat', 'repetitions of an endless schedule counted')
            last = D('eq', new, ZERO)
        if last is None: B('repeat', 'schedule moved without looking whether repetitions are left')
        elif last and ev != {('remove', 'queue'), ('add', 'idle')}: B('repeat', 'schedule without repetitions left is not put aside')
        elif last is False and ev != {('remove', 'queue'), ('add', 'queue')}: B('repeat', 'schedule with repetitions left is not queued again')
        if last is False:
            s = st.ts.get(('set', 'start', c))
            if s is None: B('start', 'next start time not set')
            else:
                t = add_terms(s, [])
                p = [x for x in t if self.isper(st, x, c)]
                n = [x for x in t if x == st.ts.get(('now',))]
                if len(t) != 2 or len(p) != 1 or len(n) != 1: B('start', 'next start time is not one period from now')
        for k in [k for k in st.ts if k[0] in ONCE or k[0] in ('pass', 'due', 'ev', 'vis', 'conc', 'set', 'ld')]: del st.ts[k]

    def isper(self, st, x, c): return x == st.mem.get((c, self.o(SD, 'period'))) or self.org(x) == (c, self.o(SD, 'period'), (SD, 'period'))

    def dispatched(self, eng, st, fr, inst, c):
        B = lambda k, m: self.bad(eng, fr, inst, st, k, m)
        n = st.ts.get(('run',), 0)
        if n > 1: B('run', 'due schedule run more than once')
        if n == 0 and ('skip',) not in st.ts: B('run', 'due schedule not run')
        if ('fail',) in st.ts:
            if ('drop',) not in st.ts: B('drop', 'refused run not counted as dropped')
            if ('abort',) not in st.ts and ('null', 'abort_cb') not in st.ts: B('drop', 'abort callback not called for a refused run')
        else:
            if ('drop',) in st.ts: B('drop', 'run counted as dropped that was not refused')
            if ('abort',) in st.ts: B('drop', 'abort callback called for a run that was not refused')

    def may_run(self, eng, st, fr, inst, b):
        B = lambda k, m: self.bad(eng, fr, inst, st, k, m)
        self.sites.setdefault('run', set()).add((fr.fn.name, inst.line))
        if st.ts.get(('pass',)) != b: B('due', 'schedule run although it is not due'); return
        st.ts[('run',)] = min(2, st.ts.get(('run',), 0) + 1)
        if ('cb',) not in st.ts and ('null', 'run_cb') not in st.ts: B('run', 'schedule run before its run callback is called')
        if st.ts.get(('st0',)) is None: B('state', 'schedule run although the scheduler may not be running')

    def on_indirect(self, eng, st, fr, inst, fv, args):
        k = st.ts.get(('is', fv))
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        if self.mode == 'run' and k:
            what, b = k
            if st.ts.get(('is', args[0])) != ('arg', b): B('run', '%s of the schedule called with another argument than its own' % {'function': 'function', 'run_cb': 'run callback', 'abort_cb': 'abort callback'}.get(what, what))
            if what == 'function': self.may_run(eng, st, fr, inst, b)
            if what == 'run_cb':
                if st.ts.get(('pass',)) != b: B('due', 'run callback called although the schedule is not due')
                if ('cb',) in st.ts or ('run',) in st.ts: B('run', 'run callback called twice or after the run')
                st.ts[('cb',)] = 1
            if what == 'abort_cb':
                if ('abort',) in st.ts: B('drop', 'abort callback called twice')
                st.ts[('abort',)] = 1
        if self.mode == 'job' and k:
            if k != ('function', self.A(0)) or st.ts.get(('is', args[0])) != ('arg', self.A(0)): B('run', 'run with another function or argument than that of the schedule')
            st.ts[('ran',)] = min(2, st.ts.get(('ran',), 0) + 1)
            r = self.res(eng, st, fr, inst, 'result of the run')
            st.ts[('rv',)] = r
            return [(r, st)]
        return Plain.on_indirect(self, eng, st, fr, inst, fv, args)

    def on_rmw(self, eng, st, fr, inst, ptr, opname, operand, old):
        t = tag_of(ptr)
        if t == (SD, 'dropped') and self.mode == 'run':
            ok = opname == 'add' and operand == C(1) and loc_of(ptr)[0] == st.ts.get(('pass',))
            if not ok or ('drop',) in st.ts: self.bad(eng, fr, inst, st, 'drop', 'number of dropped runs not increased by one')
            st.ts[('drop',)] = 1
        if self.mode == 'make' and ptr[0] == 'g' and opname == 'add' and operand == C(1): st.ts[('newid',)] = old

    def split_load(self, eng, st, fr, inst, ptr, val):
        return self.mode == 'run' and tag_of(ptr) in ((SD, 'scheduled'), (SD, 'concurrent'))

    def on_split(self, eng, st, fr, inst, ptr, truth):
        t = tag_of(ptr)
        if t == (SD, 'scheduled') and ('in',) in st.ts: st.ts[('sch',)] = 1 if truth else 0
        if t == (SD, 'scheduled'): st.ts[('vis',)] = 1 if truth else 0
        st.mem.pop(loc_of(ptr), None)
        if t == (SD, 'concurrent'): st.ts[('conc',)] = 1 if truth else 0

    def on_call(self, eng, st, fr, inst, callee, args):
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee) if inst.ty != 'void' else ('void',)
        fn = self.p.funcs.get(callee)
        if callee in WAITS:
            if callee == 'pthread_cond_timedwait' and self.mode == 'run': self.wake(eng, st, fr, inst, args)
        if callee in LOCKS or callee in WAITS:
            if callee in TAKE or callee in WAITS:
                if callee == 'iot_component_wait_and_lock' or callee in WAITS: self.over(eng, st, fr, inst)
            self.edge(eng, st, fr, inst, callee)
            if callee == 'iot_component_wait_and_lock' and args[1][0] == 'c':
                outs = []
                for n, v in self.states.items():
                    if args[1][1] & v:
                        s2 = st.copy(); s2.ts[('state',)] = n; outs.append((C(v), s2))
                return outs
            return [(self.res(eng, st, fr, inst, callee), st)]
        if callee == 'iot_time_nsecs':
            r = mk(); st.ts[('now',)] = r
            return [(r, st)]
        m = self.maps.get(args[0]) if args else None
        if callee == 'iot_data_map_start_pointer' and m == 'queue':
            f = st.ts.get(('first',)) if ('in',) in st.ts else None
            if f is not None and not any(k[0] == 'ev' for k in st.ts): return [(f, st)]
            r = mk(); s2 = st.copy(); eng.set_ne(st, r, 0); self.scheds.update(self.both(r))
            st.ts[('first',)] = r; s2.ts[('first',)] = ZERO
            return [(r, st), (ZERO, s2)]
        if callee in ('iot_data_map_add', 'iot_data_map_remove') and m:
            op = callee.split('_')[-1]
            b = root(args[1])
            self.sites.setdefault('move', set()).add((fr.fn.name, inst.line))
            if self.mode == 'run' and b != st.ts.get(('pass',)): B('due', 'another schedule moved than the one that is due')
            if ('ev', op, m) in st.ts: B('repeat', 'schedule moved twice')
            st.ts[('ev', op, m)] = b
            return [(mk(), st)]
        if callee in ('iot_data_map_get',) and m:
            r = mk(); s2 = st.copy(); eng.set_ne(s2, r, 0)
            return [(ZERO, st), (r, s2)]
        if callee.startswith('iot_data_alloc_const_'):
            if self.mode == 'make': st.ts[('const', args[0])] = args[1]
            return [(mk(), st)]
        if callee in ('iot_threadpool_try_work', 'iot_thread_create', 'iot_threadpool_add_work') and self.mode == 'run':
            pool = callee != 'iot_thread_create'
            b = root(args[2])
            if args[1] != ('fn', self.jobfn): B('run', 'run handed over with another function')
            if args[3] != self.f(st, b, 'priority') and self.org(args[3]) != (b, self.o(SD, 'priority'), (SD, 'priority')): B('run', 'run handed over with another priority than that of the schedule')
            if pool and self.org(args[0]) != (b, self.o(SD, 'threadpool'), (SD, 'threadpool')): B('run', 'run handed to another pool than that of the schedule')
            self.may_run(eng, st, fr, inst, b)
            if inst.ty == 'void': return [(('void',), st)]
            r = mk(); s2 = st.copy(); eng.set_ne(st, r, 0)
            s2.ts[('fail',)] = 1
            s2.note('%s: refused' % eng.where(fr, inst))
            return [(r, st), (ZERO, s2)]
        if callee == 'calloc' and self.mode == 'make':
            r = mk(); st.zero |= {r}; st.fresh |= {r}; eng.set_ne(st, r, 0)
            return [(r, st)]
        if callee in ('iot_component_set_running', 'iot_component_set_stopped'): st.ts[('moved', callee.split('_')[-1])] = 1
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith(('iot_', 'pthread_')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def over(self, eng, st, fr, inst):
        """back at the top of the loop: a pass over a due schedule ends at the latest here"""
        c = st.ts.get(('pass',))
        gone = [k for k in st.ts if k[0] in ('ld', 'is', 'set', 'ev') or k[0] in ('now', 'due', 'vis', 'conc', 'first') and ('in',) not in st.ts]
        if c is None:
            for k in gone: del st.ts[k]
            return
        B = lambda k, m: self.bad(eng, fr, inst, st, k, m)
        self.dispatched(eng, st, fr, inst, c)
        if st.ts.get(('vis',)) != 0: B('repeat', 'due schedule neither queued again nor put aside')
        for k in [k for k in st.ts if k[0] in ONCE or k[0] == 'pass' or k in gone]: del st.ts[k]

    def wake(self, eng, st, fr, inst, args):
        self.sites.setdefault('wake', set()).add((fr.fn.name, inst.line))
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        b, o = loc_of(args[2])
        s, n = (st.mem.get((b, o + self.o('timespec', k))) for k in ('tv_sec', 'tv_nsec'))
        G = C(1000000000)
        if s is None or n is None or s[:2] != ('op', 'udiv') or n[:2] != ('op', 'urem') or s[3] != G or n[3] != G or s[2] != n[2]:
            B('wake', 'wake-up time is not the start time in seconds and nanoseconds'); return
        x = s[2]
        f = st.ts.get(('first',))
        if f is not None and eng.lookup(st, f) == 0:
            t = add_terms(x, [])
            if not (st.ts.get(('now',)) in t): B('wake', 'wake-up time of an empty queue does not lie ahead')
        elif f is None or x != st.mem.get((f, self.o(SD, 'start'))): B('wake', 'wake-up time is not the start time of the first schedule')

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        n = fr.fn.name
        inst = fr.fn.blocks[-1][-1]
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        D = lambda p, a, b: eng.decide(st, eng.norm_cmp(p, a, b))
        ev = {k[1:3] for k in st.ts if k[0] == 'ev'}
        if self.mode == 'make':
            b = root(val)
            for f, i, m in (('function', 1, 'function'), ('free_cb', 2, 'free callback'), ('arg', 3, 'argument'), ('period', 4, 'period'), ('repeat', 6, 'number of repetitions'), ('threadpool', 7, 'thread pool'), ('priority', 8, 'priority')):
                if self.f(st, b, f) != self.A(i): B('make', 'schedule created with another %s than the one given' % m)
            s = self.f(st, b, 'start')
            t = add_terms(s, []) if s is not None else []
            if sorted(map(repr, t)) != sorted(map(repr, (self.A(5), st.ts.get(('now',))))): B('make', 'first start time is not the delay given from now')
            i = self.f(st, b, 'id')
            if i is None or i != st.ts.get(('newid',)): B('make', 'schedule created without a number of its own')
            if self.f(st, b, 'refs') != C(1): B('make', 'schedule created with a wrong number of references')
            for f, w in (('id_key', i), ('start_key', s), ('self_static', b)):
                if not any(k[0] == 'const' and root(k[1]) == b and tag_of(k[1]) == (SD, f) and v == w for k, v in st.ts.items()): B('make', '%s of the schedule is not made from its own value' % f.replace('_', ' '))
            if st.ts.get(('ev', 'add', 'idle')) != b: B('make', 'new schedule not among the idle ones')
        elif n in ('iot_schedule_add', 'iot_schedule_remove'):
            was = st.ts.get(('ld', 'scheduled', self.A(1)))
            if was is None: B('told', 'result does not depend on whether the schedule is queued'); return
            for t, s2 in truths(eng, st, val):
                w = eng.decide(s2, eng.norm_cmp('ne', was, ZERO))
                if w is None or t != (w is False if n.endswith('add') else w): B('told', 'result does not tell whether the schedule was %s' % ('queued' if n.endswith('add') else 'taken from the queue'))
                if w is not None:
                    want = (not w, {('remove', 'idle'), ('add', 'queue')}) if n.endswith('add') else (w, {('remove', 'queue'), ('add', 'idle')})
                    if ev != (want[1] if want[0] else set()): B('told', 'schedule not moved as its state demands')
        elif n == 'iot_schedule_reset':
            s = st.ts.get(('set', 'start', self.A(1)))
            t = add_terms(s, []) if s is not None else []
            p = [x for x in t if self.isper(st, x, self.A(1))]
            if len(t) != 3 or len(p) != 1 or st.ts.get(('now',)) not in t or self.A(2) not in t: B('start', 'start time set is not one period and the delay given from now')
        elif n in ('iot_schedule_set_concurrent', 'iot_schedule_set_sync'):
            me, other = ('concurrent', 'sync') if n.endswith('concurrent') else ('sync', 'concurrent')
            v = st.ts.get(('set', me, self.A(0)))
            e = self.A(1)
            on = D('ne', e, ZERO)
            o = st.ts.get(('ld', other, self.A(0)))
            oo = D('ne', o, ZERO) if o is not None else None
            if v is None and not (on is True and oo is True): B('mode', 'permitted change of mode not made')
            if v is not None and v != e: B('mode', 'mode set is not the one given')
            if v is not None and not (on is False or oo is False): B('mode', 'schedule can be made both concurrent and synchronous')
            if inst.ty != 'void' and val[0] != 'void':
                for t, s2 in truths(eng, st, val):
                    if t != (v is not None): B('told', 'result does not tell whether the mode was set')
        elif n in ('iot_schedule_add_run_callback', 'iot_schedule_add_abort_callback'):
            f = 'run_cb' if 'run' in n else 'abort_cb'
            if st.ts.get(('set', f, self.A(1))) != self.A(2): B('make', 'callback given not stored')
        elif n in ('iot_schedule_dropped', 'iot_schedule_id'):
            if val != st.ts.get(('ld', n.split('_')[-1], self.A(0))): B('told', 'value returned is not the %s of the schedule' % ('number of dropped runs' if n.endswith('dropped') else 'number'))
        elif n in ('iot_scheduler_start', 'iot_scheduler_stop'):
            if ('moved', {'start': 'running', 'stop': 'stopped'}[n.split('_')[-1]]) not in st.ts: B('state', 'state of the scheduler not changed')
        elif n == 'iot_schedule_delete':
            was = st.ts.get(('ld', 'scheduled', self.A(1)))
        elif self.mode == 'job':
            if st.ts.get(('ran',)) != 1: B('run', 'function of the schedule not run exactly once')
            elif val != st.ts.get(('rv',)): B('run', 'result of the run is not returned')


FNS = (('make', 'iot_schedule_create'), ('call', 'iot_schedule_add'), ('call', 'iot_schedule_remove'), ('call', 'iot_schedule_reset'), ('call', 'iot_schedule_set_concurrent'), ('call', 'iot_schedule_set_sync'),
       ('call', 'iot_schedule_add_run_callback'), ('call', 'iot_schedule_add_abort_callback'), ('call', 'iot_schedule_dropped'), ('call', 'iot_schedule_id'), ('call', 'iot_scheduler_start'), ('call', 'iot_scheduler_stop'))


def run_repeat(prog):
    rule = RunRule(prog)
    eng = Engine(prog, rule)
    tf = thread_fns(prog, 'scheduler.c')
    loop = next((n for n, w in tf.items() if 'iot_scheduler_alloc' in w), 'iot_scheduler_thread')
    rule.jobfn = next((n for n, w in tf.items() if n != loop), 'schedule_fn')
    todo = list(FNS) + [('job', rule.jobfn), ('run', loop)]
    for m, n in todo:
        f = prog.funcs[n]
        rule.mode = m; rule.root = f
        rule.tops = {('s', (n,), 'arg%d' % i, '') for i, a in enumerate(f.args) if a[3].replace(' ', '') == 'iot_scheduler_t*'} if m != 'run' else {('s', (n,), 'arg0', '')}
        rule.scheds = {('s', (n,), 'arg%d' % i, '') for i, a in enumerate(f.args) if a[3].replace(' ', '').endswith('iot_schedule_t*')}
        rule.maps = {}; rule.tops0 = ('s', (n,), 'arg0', '')
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n)
    return eng, rule, [n for m, n in todo]


if __name__ == '__main__':
    import sys, ir, time
    t = time.time(); p = ir.load('debug')
    eng, rule, rs = run_repeat(p)
    for x in eng.reports:
        print('%s:%s %s [%s] %s   %s' % (x['file'].split('/')[-1], x['line'], x['function'], x['rule'], x['message'], '>'.join(x['callstack'][1:])))
        if len(sys.argv) > 1:
            for y in x['path']: print('      ', y)
    print(rule.sites, rule.exits, rs, eng.stats['states'], time.time() - t)
