"""Schedule life cycle: which map a schedule is in, its flag, its key, its references (built on the concurrency pass)."""
from conc import *

SD, SC = 'iot_schedule_t', 'iot_scheduler_t'
QT, IT = (SC, 'queue'), (SC, 'idle')
DISPATCH = {'iot_threadpool_try_work': (1, 2, True), 'iot_threadpool_add_work': (1, 2, False), 'iot_thread_create': (1, 2, True)}


class SchedRule(ConcRule):
    name = 'sched'
    exit_join = 24
    join_at = 10

    def __init__(self, prog, runner=()):
        super().__init__(prog)
        self.off = {}
        for stn, s in prog.structs.items():
            for f in s['fields']:
                self.off[(stn.replace('struct.', ''), f[0])] = f[1]
        self.ops = {}
        self.dispatched = {}
        self.runner = set(runner)
        self.transitions = {}
        self.runs = set()

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.unit in ('scheduler.c', 'component.c') and fn.name in self.rel and fn.name not in self.skip

    # ---- membership
    def member(self, eng, st, s):
        m = st.ts.get(('m', s))
        if m in ('Q', 'I', 'N'):
            return m
        if m is None:
            if s in st.fresh or (s, self.off[(SD, 'scheduled')]) in st.mem and s in st.zero:
                return 'N'
            m = 'UD' if ('win', s) in st.ts else 'U'
        v = st.mem.get((s, self.off[(SD, 'scheduled')]))
        if v is None:
            return m
        t = eng.decide(st, v)
        if t is True: return 'Q'
        if t is False: return 'I' if m == 'U' else 'X'      # X: idle or already deleted
        return m

    def flag(self, eng, st, s):
        v = st.mem.get((s, self.off[(SD, 'scheduled')]))
        if v is None:
            return False if s in st.zero else None
        return eng.decide(st, v)

    def own(self, st, s, d):
        st.ts[('own', s)] = max(-4, min(4, st.ts.get(('own', s), 0) + d))

    def bad(self, eng, fr, inst, st, cat, msg, key=None):
        eng.report(cat, fr, inst, st, msg, key=(cat, key or (fr.fn.name, inst.line, msg)))

    def stable(self, eng, st, ptr):
        return tag_of(ptr) == (SD, 'scheduled') and bool(self.held(st))

    def on_call(self, eng, st, fr, inst, callee, args):
        r = super().on_call(eng, st, fr, inst, callee, args)
        if r is not None:
            return r
        if callee in DISPATCH:
            fi, ai, cond = DISPATCH[callee]
            f, a = args[fi], root(args[ai])
            if ('own', a) in st.ts or ('qsym', a) in st.ts:
                self.dispatched.setdefault(f[1] if f[0] == 'fn' else '?', set()).add((fr.fn.name, inst.line))
                self.may_run(eng, st, fr, inst, a)
                if st.ts.get(('own', a), 0) <= 0:
                    self.bad(eng, fr, inst, st, 'ref', 'schedule handed to another thread (%s) without a reference of its own' % callee)
                ret = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee) if inst.ty != 'void' else ('void',)
                outs = []
                if cond:
                    s2 = st.copy(); eng.set_eq(s2, ret, 0); outs.append((ret, s2))
                    eng.set_ne(st, ret, 0)
                self.own(st, a, -1)
                self.lost_if(eng, st, a)
                outs.append((ret, st))
                return outs
            return None
        if callee.startswith('iot_data_map_') or callee.startswith('iot_data_alloc_const_'):
            return self.map_call(eng, st, fr, inst, callee, args)
        if callee == 'free':
            s = root(args[0])
            if ('own', s) in st.ts:
                st.ts[('freed', s)] = 1
        return None

    def lost_if(self, eng, st, s):
        if st.ts.get(('own', s), 0) <= 0 and ('qsym', s) in st.ts:
            if not self.held(st) or self.member(eng, st, s) not in ('Q', 'I'):
                st.ts[('lost', s)] = 1

    def map_call(self, eng, st, fr, inst, callee, args):
        if callee.startswith('iot_data_alloc_const_'):
            if tag_of(args[0]) == (SD, 'start_key'):
                s = root(args[0])
                self.key_change(eng, st, fr, inst, s)
                st.ts[('keyed', s)] = args[1]
                cur = st.mem.get((s, self.off[(SD, 'start')]))
                if cur != args[1]: st.ts[('stale', s)] = 1
            return None
        o = self.origin.get(args[0])
        op = callee[len('iot_data_map_'):]
        if op == 'iter_pointer_value':
            ret = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'schedule')
            st.ts['iterval'] = ret
            return [(ret, st)]
        if not o or o[0] not in (QT, IT):
            if op == 'remove' and 'iterval' in st.ts:
                s = st.ts.pop('iterval')
                self.own(st, s, +1)
            return None
        which = 'Q' if o[0] == QT else 'I'
        ret = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee) if inst.ty != 'void' else ('void',)
        self.ops.setdefault((which, op), set()).add((fr.fn.name, inst.line))
        nm = 'queue' if which == 'Q' else 'idle map'
        if op in ('start_pointer',):
            if which == 'Q':
                outs = []
                s2 = st.copy(); eng.set_eq(s2, ret, 0); outs.append((ret, s2))
                eng.set_ne(st, ret, 0)
                st.ts[('m', ret)] = 'Q'; st.ts[('qsym', ret)] = 1
                st.mem[(ret, self.off[(SD, 'scheduled')])] = C(1)
                outs.append((ret, st))
                return outs
            return [(ret, st)]
        if op == 'get' and len(args) > 1:
            s = root(args[1])
            if which == 'Q': st.ts[('uniq', s)] = ret
            return [(ret, st)]
        if op in ('add', 'remove') and len(args) > 1:
            s = root(args[1])
            kt = tag_of(args[1])
            want = (SD, 'start_key') if which == 'Q' else (SD, 'id_key')
            if kt and kt[0] == SD and kt != want:
                self.bad(eng, fr, inst, st, 'key', 'schedule %s the %s under the wrong key (%s)' % ('added to' if op == 'add' else 'removed from', nm, kt[1]))
            if kt is None:
                if 'iterval' in st.ts:
                    self.own(st, st.ts.pop('iterval'), +1)
                return [(ret, st)]
            m = self.member(eng, st, s)
            self.transitions.setdefault((op, which, m), set()).add((fr.fn.name, inst.line, fr.stack[0]))
            if op == 'add':
                if m != 'N':
                    self.bad(eng, fr, inst, st, 'member', 'schedule added to the %s while %s' % (nm, {'Q': 'it is in the queue', 'I': 'it is in the idle map', 'U': 'it is in one of the maps', 'UD': 'it may be in a map or deleted', 'X': 'it may be idle or deleted'}[m]))
                if which == 'Q':
                    u = st.ts.get(('uniq', s))
                    if u is None or eng.decide(st, eng.norm_cmp('eq', u, ZERO)) is not True:
                        self.bad(eng, fr, inst, st, 'key', 'schedule queued without having established that its start key is not in use: it would replace another schedule')
                    vt = tag_of(args[2]) if len(args) > 2 else None
                    if st.ts.get(('stale', s)):
                        self.bad(eng, fr, inst, st, 'key', 'schedule queued under a key that differs from its start time')
                if len(args) > 2 and root(args[2]) != s:
                    self.bad(eng, fr, inst, st, 'key', 'map entry refers to a different schedule than its key')
                st.ts[('m', s)] = which
                self.own(st, s, -1)
            else:
                if m != which:
                    self.bad(eng, fr, inst, st, 'member', 'schedule removed from the %s while %s' % (nm, {'Q': 'it is in the queue', 'I': 'it is in the idle map', 'N': 'it is in neither map', 'U': 'it may be in the other map', 'UD': 'it may be elsewhere or deleted', 'X': 'it may be deleted'}[m]))
                st.ts[('m', s)] = 'N'
                self.own(st, s, +1)
            return [(ret, st)]
        return [(ret, st)]

    def key_change(self, eng, st, fr, inst, s):
        m = self.member(eng, st, s)
        self.transitions.setdefault(('key', '', m), set()).add((fr.fn.name, inst.line, fr.stack[0]))
        if m in ('Q', 'U', 'UD'):
            self.bad(eng, fr, inst, st, 'key', 'start key changed while the schedule may be in the queue under the old key')
        st.ts.pop(('uniq', s), None); st.ts.pop(('stale', s), None)

    def split_load(self, eng, st, fr, inst, ptr, val):
        return tag_of(ptr) in ((SD, 'scheduled'), (SD, 'concurrent'))

    def on_split(self, eng, st, fr, inst, ptr, truth):
        s = root(ptr)
        if tag_of(ptr) == (SD, 'concurrent'):
            if truth: st.ts[('ok', s)] = 1
            st.mem.pop(loc_of(ptr), None)
        elif self.held(st):
            st.ts[('m', s)] = self.member(eng, st, s)

    # ---- memory
    def access(self, eng, st, fr, inst, ptr, write):
        s = root(ptr)
        if ('freed', s) not in st.ts and ('lost', s) in st.ts and self.exclusive(eng, st, s):
            return
        if ('freed', s) in st.ts:
            self.bad(eng, fr, inst, st, 'uaf', 'schedule used after it was freed')
        elif ('lost', s) in st.ts:
            self.bad(eng, fr, inst, st, 'uaf', 'schedule used although nothing keeps it alive any more')
        t = tag_of(ptr)
        if write and t == (SD, 'start'):
            if self.member(eng, st, s) in ('Q', 'U', 'UD'):
                self.bad(eng, fr, inst, st, 'key', 'start time changed while the schedule may be in the queue under the old key')

    def on_store(self, eng, st, fr, inst, ptr, val):
        super().on_store(eng, st, fr, inst, ptr, val)
        t = tag_of(ptr)
        s = root(ptr)
        if t == (SD, 'scheduled'):
            st.ts[('m', s)] = self.member(eng, st, s)
        if t == (SD, 'start'):
            if st.ts.get(('keyed', s)) == val: st.ts.pop(('stale', s), None)
            else: st.ts[('stale', s)] = 1
        if t == (SD, 'refs') and val[0] == 'c':
            if s in st.fresh: st.ts[('own', s)] = val[1]

    def on_rmw(self, eng, st, fr, inst, ptr, opname, operand, old):
        super().on_rmw(eng, st, fr, inst, ptr, opname, operand, old)
        if tag_of(ptr) == (SD, 'refs') and operand[0] == 'c':
            s = root(ptr)
            if opname == 'add': self.own(st, s, operand[1])
            elif opname == 'sub':
                self.own(st, s, -operand[1])
                self.lost_if(eng, st, s)

    # ---- lock hold boundaries
    def boundary(self, eng, st, fr, inst, what):
        for s in [k[1] for k in st.ts if isinstance(k, tuple) and k[0] == 'stale']:
            self.bad(eng, fr, inst, st, 'key', 'start key of a schedule does not match its start time when %s' % what)
        todo = {k[1] for k in st.ts if isinstance(k, tuple) and k[0] == 'm'}
        for s in todo:
            m = self.member(eng, st, s); f = self.flag(eng, st, s)
            if m == 'Q' and f is not True:
                self.bad(eng, fr, inst, st, 'member', 'schedule is in the queue but not marked scheduled when %s' % what)
            elif m in ('I', 'X', 'N') and f is True or m in ('U', 'UD'):
                self.bad(eng, fr, inst, st, 'member', 'schedule is not in the queue but marked scheduled when %s' % what)
            elif m == 'N' and st.ts.get(('own', s), 0) <= 0:
                self.bad(eng, fr, inst, st, 'member', 'schedule is in neither map when %s, and nothing owns it' % what)
            st.ts.pop(('m', s)); st.ts[('win', s)] = 1
            st.ts.pop(('uniq', s), None); st.ts.pop(('keyed', s), None); st.ts.pop(('mayrun', s), None)
            st.ts.pop(('stale', s), None)
            if m == 'N': st.ts[('gone', s)] = 1
        for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == 'qsym']:
            if st.ts.get(('own', k[1]), 0) <= 0:
                st.ts[('lost', k[1])] = 1

    def on_release(self, eng, st, fr, inst, lid, cls):
        self.boundary(eng, st, fr, inst, 'the lock is released')

    def on_wait(self, eng, st, fr, inst, args, ccls, lid, cls):
        self.boundary(eng, st, fr, inst, 'waiting')

    # ---- running
    def may_run(self, eng, st, fr, inst, s):
        self.runs.add((fr.fn.name, inst.line))
        if ('ok', s) not in st.ts:
            self.bad(eng, fr, inst, st, 'overlap', 'schedule run without having established that it is concurrent or not already running')

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if cond[0] != 'cmp':
            return
        o = self.origin.get(cond[2])
        if not o or o[0][0] != SD or cond[3][0] != 'c': return
        s = o[1]
        if o[0] == (SD, 'refs'):
            x = eng.lookup(st, cond[2])
            if (x == 1 or eng.decide(st, eng.norm_cmp('ule', cond[2], C(1))) is True) and st.ts.get(('own', s), 0) == 0:
                st.ts[('ok', s)] = 1

    def on_callback(self, eng, st, fr, inst, nm, fv, args):
        super().on_callback(eng, st, fr, inst, nm, fv, args)
        o = self.origin.get(fv)
        if o and o[0][0] == SD:
            s = o[1]
            if o[0][1] == 'function':
                if fr.fn.name not in self.runner and fr.stack[0] not in self.runner:
                    self.may_run(eng, st, fr, inst, s)
                self.runs.add((fr.fn.name, inst.line))
            if o[0][1] == 'free_cb':
                d = st.ts.get(('dec', s))
                if d is None or eng.decide(st, ('cmp', 'ule', d, C(1))) is not True and eng.decide(st, ('cmp', 'sle', d, C(1))) is not True and eng.lookup(st, d) != 1:
                    self.bad(eng, fr, inst, st, 'ref', 'argument free callback invoked without having dropped the last reference')
            elif st.ts.get(('own', s), 0) <= 0 and not self.held(st):
                self.bad(eng, fr, inst, st, 'ref', 'schedule callback %s invoked without a reference on the schedule' % nm)

    def prune(self, eng, st, env, fr, inst):
        if len(fr.stack) > 1:
            return
        live = set()
        for v in env.values(): syms(v, live)
        for v in st.mem.values(): syms(v, live)
        for k in list(st.ts):
            if isinstance(k, tuple) and len(k) > 1 and k[0] in ('own', 'win', 'ok', 'lost', 'gone', 'dec', 'qsym', 'm', 'uniq', 'keyed', 'stale', 'freed', 'mayrun') and k[1] not in live and k[1][0] == 's' and not str(k[1][2]).startswith('arg'):
                if k[0] == 'own' and st.ts[k] != 0:
                    self.bad(eng, fr, inst, st, 'ref', 'schedule reference %s on this path' % ('never released' if st.ts[k] > 0 else 'released twice'), key=(fr.fn.name, st.ts[k]))
                if k[0] == 'm' and self.held(st):
                    continue
                del st.ts[k]
        st.ts.pop('epoch', None)

    def on_ret(self, eng, st, fr, inst, val):
        self.exits += 1
        for k, n in list(st.ts.items()):
            if isinstance(k, tuple) and k[0] == 'own' and n != 0:
                self.bad(eng, fr, inst, st, 'ref', 'schedule reference %s on this path' % ('never released' if n > 0 else 'released twice'), key=(fr.fn.name, n))

    def on_forget(self, eng, st, sym):
        n = st.ts.get(('own', sym), 0)
        if n != 0:
            f = None
            eng.report('ref', None, None, st, 'schedule reference %s in a loop iteration' % ('never released' if n > 0 else 'released twice'), key=('ref-loop', n))


def run_sched(prog):
    runner = set()
    for rnd in (0, 1):
        rule = SchedRule(prog, runner)
        eng = Engine(prog, rule)
        rs = [r for r in roots(prog, rule.rel, rule.skip) if prog.funcs[r].unit == 'scheduler.c']
        for r in rs:
            st = State()
            eng.steps = 0; eng.memo = {}
            if r in runner:
                st.ts[('own', ('s', (r,), 'arg0', ''))] = 1
            eng.run_root(r, st)
        if runner == set(rule.dispatched):
            break
        runner = set(rule.dispatched)
    return eng, rule, rs


if __name__ == '__main__':
    import sys, time
    from ir import load
    t = time.time()
    p = load(sys.argv[1] if len(sys.argv) > 1 else 'debug')
    eng, rule, rs = run_sched(p)
    print(len(rs), 'roots', eng.stats['states'], 'states', rule.exits, 'exits', '%.1fs' % (time.time() - t))
    for r in eng.reports:
        if r['rule'] in ('ref', 'member', 'key', 'uaf', 'overlap'):
            print(r['rule'], r['file'].split('/')[-1], r['line'], r['function'], r['message'], '|', '>'.join(r['callstack']))
            if '-v' in sys.argv:
                for x in r['path'][-8:]: print('      ', x)
    for k, v in rule.transitions.items(): print(k, len(v))
    print(rule.dispatched, rule.runs, rule.ops.keys())
