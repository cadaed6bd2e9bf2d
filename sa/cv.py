"""Condition-variable discipline, bounded queues and wake-up obligations (built on the concurrency pass)."""
from conc import *

TP, Q, SC, CO, SD = 'iot_threadpool_t', 'iot_queue_t', 'iot_scheduler_t', 'iot_component_t', 'iot_schedule_t'

# which shared data a waiter's condition reads
PRED = {
    'iot_threadpool_t.work_cond': {(TP, 'jobs'), (TP, 'working')},
    'iot_threadpool_t.queue_cond': {(TP, 'jobs')},
    'iot_threadpool_t.job_cond': {(TP, 'front'), (TP, 'jobs'), (CO, 'state')},
    'iot_queue_t.added': {(Q, 'queue')},
    'iot_queue_t.removed': {(Q, 'queue'), (Q, 'maxsize')},
    'iot_component_t.cond': {(CO, 'state')},
}
MUTATORS = ('push', 'add', 'remove', 'pop', 'free', 'insert', 'merge', 'clear')


class CvRule(ConcRule):
    name = 'cv'

    def __init__(self, prog):
        super().__init__(prog)
        self.obs_made = {}
        self.retests = set()
        self.posts = {}
        self.conds_seen = set()
        self.running_state = prog.enums.get('iot_component_state_t', {}).get('IOT_COMPONENT_RUNNING', 2)
        self.off = {}
        for st, s in prog.structs.items():
            for f in s['fields']:
                self.off[(st.replace('struct.', ''), f[0])] = f[1]
        # thread functions: their own timed wait recomputes what they would have to be told
        self.thread_fns = set()
        for f in prog.funcs.values():
            for b in f.blocks:
                for i in b:
                    if i.op == 'call' and i.d['callee'][0] == 'fn' and i.d['callee'][1] in ('iot_thread_create', 'pthread_create'):
                        for o in i.ops:
                            if o[0] == 'fn': self.thread_fns.add(o[1])
        self.edge = {}
        self.pushes = set()

    # ---- wake-up obligations
    def oblige(self, st, fr, inst, cond, base, kind, reason, unless=(), edge=None):
        self.obs_made.setdefault((cond, reason), set()).add((fr.fn.name, inst.line))
        have = st.ts.get(('sig', cond, base))
        if have == 'bcast' or (have == 'any' and kind == 'any'):
            if not edge:
                return
        k = ('ob', cond, base)
        cur = st.ts.get(k, frozenset())
        st.ts[k] = cur | {(kind, reason, tuple(unless), inst.line, fr.fn.name, edge or '')}

    def waived(self, eng, st, base, unless):
        for alt in unless:
            ok = True
            for e in alt:
                if e[0] == 'memne0':
                    v = st.mem.get((base, e[1]))
                    if v is None or eng.decide(st, ('cmp', 'ne', v, ZERO) if v[0] != 'c' else C(1 if v[1] else 0)) is not True:
                        ok = False
                elif e[0] == 'notfull':
                    m = st.mem.get((base, e[2]))
                    if m is None or eng.decide(st, eng.norm_cmp('ne', e[1], m)) is not True:
                        ok = False
                elif e[0] == 'statene':
                    v = st.mem.get((base, e[1]))
                    if v is None or eng.decide(st, eng.norm_cmp('ne', v, C(e[2]))) is not True:
                        ok = False
                elif e[0] == 'notfront':
                    r = st.ts.get(('front', base))
                    if r is None or eng.decide(st, eng.norm_cmp('ne', r, e[1])) is not True:
                        ok = False
                elif eng.decide(st, e) is not True:
                    ok = False
            if ok:
                return True
        return False

    def checkpoint(self, eng, st, fr, inst, what, lockbase=None):
        for k in [k for k in st.ts if k[0] == 'ob']:
            _, cond, base = k
            if what == 'the lock is taken again' and all(o[1] == 'pool stopped' for o in st.ts[k]):
                continue        # the pool announces its stop in a second hold of the lock
            for kind, reason, unless, line, fn, edge in st.ts[k]:
                if fr.stack[0] in self.thread_fns and cond == 'iot_component_t.cond' and reason.startswith('queue front'):
                    continue
                if self.waived(eng, st, base, unless):
                    if edge: self.edge.setdefault(edge, {}).setdefault('quiet', (fn, line))
                    continue
                self.rep('wake', eng, fr, inst, st, '%s (%s:%d): no %s of %s before %s' % (reason, fn, line, 'broadcast' if kind == 'bcast' else 'signal', cond, what), key=(fn, cond, reason))
            del st.ts[k]

    def on_acquire(self, eng, st, fr, inst, lid, cls):
        # same-object holds only matter; obligations may still be met after the release
        for k in [k for k in st.ts if k[0] in ('sig',)]:
            del st.ts[k]
        self.checkpoint(eng, st, fr, inst, 'the lock is taken again')

    def on_release(self, eng, st, fr, inst, lid, cls):
        for k in [k for k in st.ts if k[0] == 'ob']:
            base = k[2]
            keep = set()
            for ob in st.ts[k]:
                kind, reason, unless, line, fn, edge = ob
                if self.waived(eng, st, base, unless):
                    if edge: self.edge.setdefault(edge, {}).setdefault('quiet', (fn, line))
                    continue
                keep.add((kind, reason, (), line, fn, edge))
            if keep: st.ts[k] = frozenset(keep)
            else: del st.ts[k]
        self.unver_check(eng, st, fr, inst, 'releases the lock', only=('iot_threadpool_t.work_cond',))
        f = fr.stack[0]
        if f == 'iot_threadpool_wait':
            self.post(eng, st, fr, inst, cls)

    def on_signal(self, eng, st, fr, inst, kind, ptr, ccls):
        base = root(ptr)
        self.conds_seen.add(ccls)
        bc = kind == 'pthread_cond_broadcast'
        st.note('%s: %s %s' % (eng.where(fr, inst), 'broadcast' if bc else 'signal', ccls))
        old = st.ts.get(('sig', ccls, base))
        if old != 'bcast':
            st.ts[('sig', ccls, base)] = 'bcast' if bc else 'any'
        k = ('ob', ccls, base)
        if k in st.ts:
            rest = set()
            for ob in st.ts[k]:
                if ob[5] and not bc:
                    self.edge.setdefault(ob[5], {}).setdefault('signal', (ob[4], ob[3], '%s:%d' % (inst.file.split('/')[-1], inst.line)))
                if bc or ob[0] == 'any':
                    continue
                rest.add(ob)
            if rest: st.ts[k] = frozenset(rest)
            else: del st.ts[k]

    # ---- re-test after wake-up
    def on_wait(self, eng, st, fr, inst, args, ccls, lid, cls):
        self.conds_seen.add(ccls)
        self.checkpoint(eng, st, fr, inst, 'waiting')
        st.ts['unver'] = (ccls, inst.line, fr.fn.name)
        for k in [k for k in st.ts if k[0] in ('wit', 'sig', 'front')]:
            del st.ts[k]
        if len(args) > 2:
            dl = loc_of(args[2])
            if st.ts.get(('dl', dl)) != 1:
                self.rep('stale', eng, fr, inst, st, 'timed wait uses a deadline that was not computed from the queue in this hold of the lock')
            st.ts.pop('unver')      # a timed waiter acts on the queue front it reads next
            self.posts.setdefault('deadline', set()).add(inst.line)
        st.ts.pop('holdfront', None)
        for k in [k for k in st.ts if k[0] == 'dl']: del st.ts[k]

    def unver_check(self, eng, st, fr, inst, what, only=None):
        u = st.ts.get('unver')
        if u and (only is None or u[0] in only):
            self.rep('retest', eng, fr, inst, st, '%s after waking from %s (line %d) without re-testing the awaited condition' % (what, u[0], u[1]), key=(u[2], u[0], what))
            st.ts.pop('unver')

    def witness(self, st, val):
        s = set(); syms(val, s)
        for x in s:
            st.ts[('wit', x)] = 1

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        super().on_loaded(eng, st, fr, inst, ptr, val)
        u = st.ts.get('unver')
        t = tag_of(ptr)
        if u and t and t in PRED.get(u[0], ()):
            self.witness(st, val)

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if fr.fn.name == 'iot_component_wait_and_lock' and cond[0] == 'cmp' and cond[3] == ZERO and cond[2][0] == 'op' and cond[2][1] == 'and':
            if (cond[1] == 'ne') == taken:
                for x in cond[2][2:]:
                    if x[0] == 's': st.ts[('tested', x)] = 1
        u = st.ts.get('unver')
        if u:
            s = set(); syms(cond, s)
            if any(('wit', x) in st.ts for x in s):
                self.retests.add((u[2], u[0], u[1]))
                st.ts.pop('unver')
                for k in [k for k in st.ts if k[0] == 'wit']: del st.ts[k]

    def on_call(self, eng, st, fr, inst, callee, args):
        r = super().on_call(eng, st, fr, inst, callee, args)
        if r is not None:
            return r
        if callee.startswith('iot_data_'):
            for n, a in enumerate(args):
                o = self.origin.get(a)
                if not o:
                    continue
                if n == 0 and o[0] in GUARDED_CONTENT:
                    return self.content_call(eng, st, fr, inst, callee, args, o)
        return None

    def content_call(self, eng, st, fr, inst, callee, args, o):
        tag, base = o
        ret = None
        if inst.ty != 'void':
            ret = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)
        mutates = any(m in callee for m in MUTATORS)
        u = st.ts.get('unver')
        if u and tag in PRED.get(u[0], ()):
            if mutates and ret is None:
                self.unver_check(eng, st, fr, inst, 'modifies the queue')
            elif ret is not None:
                self.witness(st, ret)
        excl = self.exclusive(eng, st, base)
        if tag == (Q, 'queue') and not excl:
            if 'push' in callee:
                self.pushes.add((fr.fn.name, inst.line))
                self.oblige(st, fr, inst, 'iot_queue_t.added', base, 'any', 'element added to the queue')
                self.bound_queue(eng, st, fr, inst, base)
            elif 'pop' in callee or 'remove' in callee:
                self.oblige(st, fr, inst, 'iot_queue_t.removed', base, 'any', 'element taken from the queue', [(eng.norm_cmp('eq', ret, ZERO),)] if ret else ())
                st.ts.pop(('len', base), None)
            elif 'length' in callee:
                st.ts[('len', base)] = ret
        if tag == (SC, 'queue') and not excl:
            if callee == 'iot_data_map_add':
                s = root(args[1])
                self.oblige(st, fr, inst, 'iot_component_t.cond', base, 'bcast', 'queue front may have changed',
                            [(('notfront', s),), (('statene', self.off[(CO, 'state')], self.running_state),)])
                st.ts.pop(('front', base), None)
            elif callee == 'iot_data_map_start_pointer':
                st.ts[('front', base)] = ret
                st.ts['holdfront'] = 1
        return [(ret if ret is not None else ('void',), st)]

    def bound_queue(self, eng, st, fr, inst, base):
        mx = st.mem.get((base, self.off[(Q, 'maxsize')]))
        ln = st.ts.get(('len', base))
        ok = False
        if mx is not None:
            if eng.decide(st, eng.norm_cmp('eq', mx, ZERO)) is True:
                ok = True
            elif ln is not None and eng.decide(st, eng.norm_cmp('ult', ln, mx)) is True:
                ok = True
        self.posts.setdefault('queue-bound', set()).add((fr.fn.name, inst.line))
        if not ok:
            self.rep('bound', eng, fr, inst, st, 'element stored without having established, in this hold of the lock, that the queue is unlimited or below its maximum size')
        st.ts.pop(('len', base), None)

    # ---- state changes that create obligations
    def on_stored(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        if not t:
            return
        base = root(ptr)
        if t == ('timespec', 'tv_sec') or t == ('timespec', 'tv_nsec'):
            if st.ts.get('holdfront') and self.held(st):
                l = loc_of(ptr)
                if isinstance(l[1], int):
                    st.ts[('dl', (l[0], l[1] - (0 if t[1] == 'tv_sec' else 8)))] = 1
            return
        if self.exclusive(eng, st, base):
            return
        if t == (TP, 'working'):
            self.unver_check(eng, st, fr, inst, 'changes pool state', only=None)
            if not (val[0] == 'op' and val[1] == 'add' and val[3][0] == 'c' and val[3][1] > 0):
                self.oblige(st, fr, inst, 'iot_threadpool_t.work_cond', base, 'bcast', 'last active thread may have finished',
                            [(eng.norm_cmp('ne', val, ZERO),), (('memne0', self.off[(TP, 'jobs')]),)])
        elif t == (TP, 'jobs'):
            self.unver_check(eng, st, fr, inst, 'changes the job queue')
            d = val[3][1] if val[0] == 'op' and val[1] == 'add' and val[3][0] == 'c' else None
            if d is not None and d > 0:
                self.oblige(st, fr, inst, 'iot_threadpool_t.job_cond', base, 'any', 'job queued')
                mx = st.mem.get((base, self.off[(TP, 'max_jobs')]))
                old = val[2]
                ok = mx is not None and (eng.decide(st, eng.norm_cmp('ult', old, mx)) is True or eng.decide(st, eng.norm_cmp('ne', old, mx)) is True)
                self.posts.setdefault('job-bound', set()).add((fr.fn.name, fr.stack[0]))
                if not ok:
                    self.rep('bound', eng, fr, inst, st, 'job queued without having established, in this hold of the lock, that the job queue is below its limit', key=(fr.stack[0],))
            else:
                old = val[2] if d is not None else val
                self.oblige(st, fr, inst, 'iot_threadpool_t.queue_cond', base, 'any', 'space made in the job queue',
                            [(('notfull', old, self.off[(TP, 'max_jobs')]),)], edge='queue_cond')
        elif t == (CO, 'state'):
            self.oblige(st, fr, inst, 'iot_component_t.cond', base, 'bcast', 'component state changed')
            if fr.stack[0].startswith('iot_threadpool_') and fr.stack[0] != 'iot_threadpool_thread' and eng.lookup(st, val) not in (self.running_state, 4):
                self.oblige(st, fr, inst, 'iot_threadpool_t.job_cond', base, 'bcast', 'pool stopped')
        elif t == (Q, 'maxsize'):
            old = st.ts.get(('oldmax', base))
            alts = []
            if old is not None:
                alts.append((eng.norm_cmp('ule', val, old), eng.norm_cmp('ne', val, ZERO)))
            self.oblige(st, fr, inst, 'iot_queue_t.removed', base, 'bcast', 'queue limit raised', alts)
        elif t == (Q, 'running'):
            self.oblige(st, fr, inst, 'iot_queue_t.removed', base, 'bcast', 'queue stopped')
            self.oblige(st, fr, inst, 'iot_queue_t.added', base, 'bcast', 'queue stopped')

    def on_store(self, eng, st, fr, inst, ptr, val):
        super().on_store(eng, st, fr, inst, ptr, val)
        if tag_of(ptr) == (Q, 'maxsize'):
            v = st.mem.get(loc_of(ptr))
            if v is not None:
                st.ts[('oldmax', root(ptr))] = v

    # ---- postconditions of the waiting calls
    def post(self, eng, st, fr, inst, cls):
        """iot_threadpool_wait: released only when nothing is queued and nobody works"""
        base = None
        for lid, m, c in self.held(st):
            base = lid[0]
        self.posts.setdefault('pool-idle', set()).add(inst.line)
        for f in ('jobs', 'working'):
            v = st.mem.get((base, self.off[(TP, f)])) if base else None
            if v is None or eng.decide(st, eng.norm_cmp('eq', v, ZERO)) is not True:
                self.rep('post', eng, fr, inst, st, 'iot_threadpool_wait can return although %s was not established to be zero in the final hold of the lock' % ('the job queue length' if f == 'jobs' else 'the number of active threads'))

    def on_leave(self, eng, st, fr, val):
        if fr.fn.name == 'iot_component_wait_and_lock':
            # the returned state was tested against the mask after the last wait
            self.posts.setdefault('state-wait', set()).add(fr.fn.name)
            b = fr
            ok = False
            if ('tested', val) in st.ts:
                ok = True
            if eng.lookup(st, val) is not None:
                ok = True
            if not ok:
                inst = fr.fn.blocks[-1][-1]
                self.rep('post', eng, fr, inst, st, 'state wait can return a state that was not tested against the awaited states')

    def on_callback(self, eng, st, fr, inst, nm, fv, args):
        super().on_callback(eng, st, fr, inst, nm, fv, args)
        self.checkpoint(eng, st, fr, inst, 'running a callback')
        self.unver_check(eng, st, fr, inst, 'runs a callback')

    def on_ret(self, eng, st, fr, inst, val):
        super().on_ret(eng, st, fr, inst, val)
        self.checkpoint(eng, st, fr, inst, 'returning')
        self.unver_check(eng, st, fr, inst, 'returns')

    def finish(self, eng):
        for e, d in self.edge.items():
            if 'signal' in d and 'quiet' in d:
                eng.reports.append({'rule': 'wake', 'function': d['signal'][0], 'file': 'threadpool.c', 'line': d['signal'][1],
                                    'message': 'waiters are woken one at a time (%s) but only when the queue stops being full: a second waiter is never woken' % d['signal'][2],
                                    'callstack': [], 'path': [], 'extra': None})


if __name__ == '__main__':
    import sys, time
    from ir import load
    t = time.time()
    p = load(sys.argv[1] if len(sys.argv) > 1 else 'debug')
    eng, rule, rs = run_conc(p, CvRule)
    rule.finish(eng)
    print(len(rs), 'roots', eng.stats['states'], 'states', rule.exits, 'exits', '%.1fs' % (time.time() - t))
    for r in eng.reports:
        print(r['rule'], r['file'].split('/')[-1], r['line'], r['function'], r['message'], '|', '>'.join(r['callstack']))
        if '-v' in sys.argv:
            for x in r['path'][-15:]: print('      ', x)
    for k, v in rule.obs_made.items(): print('ob', k, v)
    print(rule.retests); print(rule.posts); print(rule.wait_sites); print(rule.conds_seen, rule.edge)
