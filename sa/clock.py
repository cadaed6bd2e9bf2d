"""The clock and the waits (T01), threads, priorities and mutexes as the library makes them (E02)."""
from engine import *
from life import Plain, run
from contract import truths

ONE = C(1)
BIG = (1 << 64) - 1


# ------------------------------------------------------------------ arithmetic in a normal form: sum of coefficient * atom, atoms = unknowns and quotients
def rng(v, lim):
    """largest value v can have (0 is the smallest), None if it may be anything"""
    if v[0] == 'c': return v[1] if v[1] >= 0 else None
    if v in lim: return lim[v]
    if v[0] == 's': return BIG
    if v[0] != 'op': return None
    if v[1] == 'trunc': return min(rng(v[2], lim) or BIG, (1 << v[3][1]) - 1)
    a, b = rng(v[2], lim), rng(v[3], lim)
    if v[1] in ('urem', 'srem') and v[3][0] == 'c' and v[3][1] > 0 and a is not None: return min(a, v[3][1] - 1)
    if a is None or b is None: return None
    r = {'add': a + b, 'mul': a * b, 'and': min(a, b)}.get(v[1])
    if v[1] in ('udiv', 'sdiv') and v[3][0] == 'c' and v[3][1] > 0: r = a // v[3][1]
    if v[1] == 'lshr' and v[3][0] == 'c': r = a >> v[3][1]
    if v[1] == 'shl' and v[3][0] == 'c': r = a << v[3][1]
    return r if r is not None and r <= BIG else None


def nf(v, lim):
    """normal form {atom: coefficient}; the atom 1 stands for the constant part. Terms that lose bits stay atoms of their own"""
    if v[0] == 'c': return {1: v[1]} if v[1] else {}
    if v[0] == 'op':
        op, x, y = v[1], v[2], v[3]
        if op == 'trunc':
            r = rng(x, lim)
            return nf(x, lim) if r is not None and r < (1 << (y[1] - 1)) else {('trunc', key(nf(x, lim)), y[1]): 1}
        if op in ('add', 'sub'): return comb(nf(x, lim), nf(y, lim), 1 if op == 'add' else -1)
        if op == 'mul' and y[0] == 'c': return scale(nf(x, lim), y[1])
        if op == 'shl' and y[0] == 'c': return scale(nf(x, lim), 1 << y[1])
        if op in ('udiv', 'sdiv') and y[0] == 'c' and y[1] > 0: return div(nf(x, lim), y[1], lim)
        if op == 'lshr' and y[0] == 'c': return div(nf(x, lim), 1 << y[1], lim)
        if op in ('urem', 'srem') and y[0] == 'c' and y[1] > 0:
            a = nf(x, lim)
            return comb(a, scale(div(a, y[1], lim), y[1]), -1)
        return {(op, key(nf(x, lim)), key(nf(y, lim))): 1}
    return {v: 1}


def key(d): return tuple(sorted(d.items(), key=repr))


def scale(a, n): return {k: c * n for k, c in a.items() if c * n}


def comb(a, b, s):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + s * c
        if not r[k]: del r[k]
    return r


def div(a, n, lim):
    """floor of a / n: whole multiples come out, what is left is a quotient atom; (x div m) div n is x div m*n"""
    out, rest = {}, {}
    for k, c in a.items():
        q, r = divmod(c, n)
        if r == 0: out[k] = q
        else: rest[k] = c
    if rest:
        top = sum(c * lim.get(k, BIG) if k != 1 else c for k, c in rest.items()) if all(c > 0 for c in rest.values()) else None
        if top is not None and top < n: pass
        elif len(rest) == 1 and list(rest.values()) == [1] and isinstance(list(rest)[0], tuple) and list(rest)[0][0] == 'div':
            _, inner, m = list(rest)[0]
            out = comb(out, {('div', inner, m * n): 1}, 1)
        else: out = comb(out, {('div', key(rest), n): 1}, 1)
    return out


class Num(Plain):
    deep = 8
    widths = True

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.sites = set(); self.exits = 0

    def arg(self, n): return ('s', (self.root.name,), 'arg%d' % n, '')

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.file == self.root.file or not fn.public

    def ret_of(self, eng, st, fr, inst, outs):
        """outcomes of a call that may return any of the given (value, state)"""
        return [(v if v[0] != 'c' or inst.ty != 'void' else ('void',), s) for v, s in outs]


CLOCK = ('s', ('clock',), 'sec', ''), ('s', ('clock',), 'nsec', '')


class ClockRule(Num):
    """readings of the clock: which clock, and what is made of it"""
    name = 'clock'
    UNIT = {'iot_time_secs': 1, 'iot_time_msecs': 1000, 'iot_time_usecs': 10 ** 6, 'iot_time_nsecs': 10 ** 9}
    lim = {CLOCK[1]: 10 ** 9 - 1, CLOCK[0]: 1 << 33}

    def on_call(self, eng, st, fr, inst, callee, args):
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        if callee in ('clock_gettime', 'timespec_get', 'gettimeofday'):
            self.sites.add((fr.fn.name, inst.line))
            if callee == 'clock_gettime' and args[0] != C(0) and eng.lookup(st, args[0]) != 0: B('clock', 'another clock than the real-time clock read')
            if callee == 'timespec_get' and eng.lookup(st, args[1]) != 1: B('clock', 'another clock than the real-time clock read')
            b, o = loc_of(args[1] if callee == 'clock_gettime' else args[0])
            if callee == 'gettimeofday': return None
            if isinstance(o, int):
                st.mem[(b, o)] = CLOCK[0]; st.mem[(b, o + 8)] = CLOCK[1]
                eng.desc.setdefault(CLOCK[0], 'seconds'); eng.desc.setdefault(CLOCK[1], 'nanoseconds')
            st.ts[('read',)] = 1
            return [(C(1 if callee == 'timespec_get' else 0), st)]
        if callee == 'time':
            self.sites.add((fr.fn.name, inst.line)); st.ts[('read',)] = 1
            b, o = loc_of(args[0])
            if args[0] != ZERO and isinstance(o, int): st.mem[(b, o)] = CLOCK[0]
            return [(CLOCK[0], st)]
        return None

    GIVEN = ('s', ('clock',), 'given', '')

    def on_rmw(self, eng, st, fr, inst, ptr, opname, operand, old):
        self.sites.add((fr.fn.name, inst.line))
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        if loc_of(ptr)[0][0] != 'g': B('order', 'last time given out is not kept for the whole process')
        if opname != 'cmpxchg':
            B('order', 'last time given out replaced without comparing it to the new one'); st.ts[('cas',)] = (operand, old, ONE); return
        exp = eng.val(fr, eng.cur_env, inst.ops[1])
        now = nf(operand, self.lim) == {CLOCK[0]: 10 ** 9, CLOCK[1]: 1}
        d = comb(nf(operand, {}), nf(exp, {}), -1)
        step = set(d) == {1} and d[1] > 0
        if not step and eng.decide(st, eng.norm_cmp('ugt', operand, exp)) is not True: B('order', 'time given out may be no later than the last one')
        if not now and not step and operand != self.GIVEN: B('unit', 'time given out is neither the clock nor just after the last one given out')
        if step and not now and eng.decide(st, eng.norm_cmp('ule', self.now(), exp)) is not True and ('made',) not in st.ts: B('unit', 'time made up although the clock is later than the last one given out')
        if not now and operand[0] == 'op':      # a made up time: the same name for it in all rounds of the loop
            G = self.GIVEN
            eng.desc.setdefault(G, 'time made up')
            for f in [f for f in st.facts if contains(f, G) or contains(f, operand)]: del st.facts[f]
            for d in (st.mem, eng.cur_env):
                for k in [k for k, x in d.items() if x == operand]: d[k] = G
            operand = G; st.ts[('made',)] = 1
        st.ts[('cas',)] = (operand, old, ZERO)

    def on_extract(self, eng, st, fr, inst, agg, val):
        c = st.ts.get(('cas',))
        if c and c[1] == agg and inst.ty == 'i1': st.ts[('cas',)] = c[:2] + (val,)

    def on_ret(self, eng, st, fr, inst, val):
        if fr.fn is not self.root: return
        self.exits += 1
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        n = fr.fn.name
        if ('read',) not in st.ts: B('clock', 'time returned without reading the clock')
        if n != 'iot_time_nsecs':
            u = self.UNIT[n]
            want = {CLOCK[0]: u}
            if u > 1: want = comb(want, {('div', key({CLOCK[1]: 1}), 10 ** 9 // u): 1}, 1)
            if nf(val, self.lim) != want: B('unit', 'time returned is not the clock in the unit of the call')
            return
        c = st.ts.get(('cas',))
        if c is None: B('order', 'time returned that was not entered as the last one given out'); return
        new, old, flag = c
        if val != new: B('order', 'another time returned than the one entered as given out')
        ok = eng.decide(st, flag) if flag[0] != 'c' else bool(flag[1])
        if ok is not True: B('order', 'time returned although it could not be entered as the last one given out')

    def now(self):
        return ('op', 'add', ('op', 'mul', CLOCK[0], C(10 ** 9)), CLOCK[1])


class WaitRule(Num):
    """waits: how long, and until when"""
    name = 'wait'
    UNIT = {'iot_wait_secs': 1, 'iot_wait_msecs': 1000, 'iot_wait_usecs': 10 ** 6}
    ERRNO = ('g', 'errno~')

    def on_call(self, eng, st, fr, inst, callee, args):
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        if callee == '__errno_location': return [(self.ERRNO, st)]
        if callee in ('sleep', 'usleep', 'sched_yield', 'select', 'poll'): B('sleep', 'wait that a signal cuts short (%s)' % callee); return None
        if callee not in ('nanosleep', 'clock_nanosleep'): return None
        self.sites.add((fr.fn.name, inst.line))
        clk = callee == 'clock_nanosleep'
        if clk:
            if args[1] != C(0): return None
            args = args[2:]
        b, o = loc_of(args[0])
        sec, nsec = (st.mem.get((b, o)), st.mem.get((b, o + 8))) if isinstance(o, int) else (None, None)
        if b in st.zero: sec, nsec = sec or ZERO, nsec or ZERO
        S = st.ts.get(('st',), 'first')
        lim = {}
        if sec is None or nsec is None: B('sleep', 'wait for a time that was not set')
        elif S == 'first':
            u = self.UNIT[self.root.name]
            x = self.arg(0)
            ws = {x: 1} if u == 1 else {('div', key({x: 1}), u): 1}
            wn = {} if u == 1 else scale(comb({x: 1}, scale(ws, u), -1), 10 ** 9 // u)
            gs, gn = nf(sec, lim), nf(nsec, lim)
            if gs != ws: B('sleep', 'seconds of the wait are not the whole seconds of the interval')
            if gn != wn: B('sleep', 'nanoseconds of the wait are not the rest of the interval')
        elif S == 'done': B('sleep', 'waits again after the interval has passed')
        elif S == 'fail': B('sleep', 'waits again after the wait was refused')
        else:
            if (sec, nsec) != S[1:]: B('sleep', 'interrupted wait not continued with the time that is left')
        outs = []
        ok = st.copy(); ok.ts[('st',)] = 'done'; outs.append((C(0), ok))
        bad = st.copy(); bad.ts[('st',)] = 'fail'
        if not clk: bad.mem[(self.ERRNO, 0)] = C(22)
        outs.append((C(22) if clk else C(-1), bad))
        rs = eng.fresh_sym(st, fr, eng.cur_env, inst, 'rs', 'seconds left'); rn = eng.fresh_sym(st, fr, eng.cur_env, inst, 'rn', 'nanoseconds left')
        if not clk: st.mem[(self.ERRNO, 0)] = C(4)
        b, o = loc_of(args[1])
        if args[1] != ZERO and isinstance(o, int): st.mem[(b, o)] = rs; st.mem[(b, o + 8)] = rn
        st.ts[('st',)] = ('left', rs, rn)
        outs.append((C(4) if clk else C(-1), st))
        return outs

    def on_ret(self, eng, st, fr, inst, val):
        if fr.fn is not self.root: return
        self.exits += 1
        S = st.ts.get(('st',), 'first')
        if S == 'first':
            if eng.lookup(st, self.arg(0)) != 0: self.bad(eng, fr, inst, st, 'sleep', 'returns without waiting')
        elif isinstance(S, tuple): self.bad(eng, fr, inst, st, 'sleep', 'returns when interrupted, before the interval has passed')


def run_time(prog):
    c, w = ClockRule(prog), WaitRule(prog)
    e1 = run(prog, c, [prog.funcs[n] for n in c.UNIT])
    e2 = run(prog, w, [prog.funcs[n] for n in w.UNIT])
    return (e1, e2), (c, w), list(c.UNIT) + list(w.UNIT)


# ------------------------------------------------------------------ threads
SYS = lambda n: ('s', ('sys',), n, '')
FIFO = 1


class ThreadRule(Num):
    """creation: once, detached, as asked; second try without extras; the answer; attributes given back"""
    name = 'thread'
    skip = ('iot_log_',)

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.file == self.root.file or not fn.public and fn.file.startswith('src/c/thread')

    def tok(self, st, a): return st.ts.get(('attr', a))

    def on_call(self, eng, st, fr, inst, callee, args):
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        k = eng.lookup
        if callee in ('sched_get_priority_max', 'sched_get_priority_min'):
            return [(SYS(callee[-3:]), st)] if k(st, args[0]) == FIFO else None
        if callee in ('geteuid', 'getuid'): return [(SYS('euid'), st)]
        if callee == 'sysconf': return [(SYS('nproc'), st)]
        if callee == 'pthread_self': return [(SYS('self'), st)]
        if callee == 'memset' and k(st, args[1]) == 0: st.ts[('cpus', root(args[0]))] = 'none'; return None
        if callee in ('pthread_attr_init', 'pthread_mutexattr_init'):
            self.sites.add((fr.fn.name, inst.line))
            if self.tok(st, args[0]) is not None: B('attr', 'attributes set up again without being given back')
            st.ts[('attr', args[0])] = frozenset()
            return [(ZERO, st)]
        if callee.startswith(('pthread_attr_set', 'pthread_mutexattr_set')) or callee in ('pthread_attr_destroy', 'pthread_mutexattr_destroy'):
            self.sites.add((fr.fn.name, inst.line))
            t = self.tok(st, args[0])
            if t is None: B('attr', 'attributes used that are not set up'); return None
            if callee.endswith('_destroy'): st.ts.pop(('attr', args[0])); return [(ZERO, st)]
            w = callee.split('_set')[1]
            v = k(st, args[1])
            new = None
            if w == 'detachstate': new = ('det', v)
            elif w == 'inheritsched': new = ('inh', v)
            elif w == 'schedpolicy': new = ('pol', v)
            elif w == 'type': new = ('type', v)
            elif w == 'protocol': new = ('proto', v)
            elif w == 'schedparam':
                b, o = loc_of(args[1])
                x = st.mem.get((b, o)) if isinstance(o, int) else None
                new = ('prio', x == self.arg(3))
                if x != self.arg(3): B('sched', 'another priority set than the one asked for')
            elif w == 'affinity_np':
                new = ('aff', True)
                c = st.ts.get(('cpus', root(args[2])))
                if c is None and root(args[2]) not in st.zero: B('affinity', 'set of processors used without being emptied first')
                elif c == 'other' or c != 'asked' and ('big',) not in st.ts: B('affinity', 'set of processors is not the one processor asked for')
            if new: st.ts[('attr', args[0])] = frozenset(x for x in t if x[0] != new[0]) | {new}
            return None
        if callee == 'pthread_create': return self.create(eng, st, fr, inst, args)
        if callee == 'pthread_detach': st.ts.pop(('joinable',), None); return None
        if callee == 'pthread_getschedparam':
            self.sites.add((fr.fn.name, inst.line))
            if args[0] != (SYS('self') if 'current' in self.root.name else self.arg(0)): B('get', 'priority of another thread read')
            b, o = loc_of(args[2])
            if isinstance(o, int): st.mem[(b, o)] = SYS('prio'); eng.desc.setdefault(SYS('prio'), 'priority')
            return [(ZERO, st)]
        if callee in ('pthread_setschedparam', 'pthread_setschedprio'):
            self.sites.add((fr.fn.name, inst.line))
            cur = 'current' in self.root.name
            if args[0] != (SYS('self') if cur else self.arg(0)): B('set', 'priority of another thread set')
            p = self.arg(0 if cur else 1)
            if callee.endswith('param'):
                if k(st, args[1]) != FIFO: B('set', 'thread not put under first-in first-out scheduling')
                b, o = loc_of(args[2])
                if not isinstance(o, int) or st.mem.get((b, o)) != p: B('set', 'another priority set than the one given')
            elif args[1] != p: B('set', 'another priority set than the one given')
            s2 = st.copy(); s2.ts[('set',)] = False
            r = SYS('seterr'); eng.set_ne(s2, r, 0)
            st.ts[('set',)] = True
            return [(ZERO, st), (r, s2)]
        if callee == 'pthread_mutex_init':
            self.sites.add((fr.fn.name, inst.line))
            if args[0] != self.arg(0): B('mutex', 'another mutex set up than the one given')
            if ('made',) in st.ts: B('mutex', 'mutex set up twice')
            st.ts[('made',)] = 1
            t = self.tok(st, args[1]) if args[1] != ZERO else frozenset()
            if t is None: B('attr', 'attributes used that are not set up'); t = frozenset()
            t = dict(t)
            if t.get('proto') != 1: B('mutex', 'mutex does not pass on the priority of those that wait for it')
            if t.get('type', 0) == 1: B('mutex', 'mutex can be locked twice by one thread')
            return [(ZERO, st)]
        return None

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if self.root.name != 'iot_thread_create': return
        D = lambda p, a, b: eng.decide(st, eng.norm_cmp(p, a, b))
        pr, af = self.arg(3), self.arg(4)
        if D('slt', pr, SYS('min')) is True or D('sgt', pr, SYS('max')) is True or D('eq', SYS('euid'), ZERO) is False: st.ts[('no', 'prio')] = 1
        if D('slt', af, ZERO) is True or D('sge', af, SYS('nproc')) is True: st.ts[('no', 'aff')] = 1
        if cond[0] == 'cmp' and any(x[0] == 'op' and contains(x, af) for x in cond[2:]): st.ts[('big',)] = 1      # processor numbers beyond the set

    def on_select(self, eng, st, fr, inst, cond, taken): self.on_branch(eng, st, fr, inst, cond, taken)

    def on_store(self, eng, st, fr, inst, ptr, val):
        b = root(ptr)
        if ('cpus', b) in st.ts and not isinstance(loc_of(ptr)[1], int) or val[0] == 'op' and val[1] == 'or':
            s = set(); syms(val, s); syms(ptr, s)
            st.ts[('cpus', b)] = 'asked' if self.arg(4) in s else 'other'
        elif ('cpus', b) in st.ts: st.ts[('cpus', b)] = 'other'

    def create(self, eng, st, fr, inst, args):
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        self.sites.add((fr.fn.name, inst.line))
        if ('made',) in st.ts: B('create', 'second thread created although the first one runs')
        if args[2] != self.arg(1) or args[3] != self.arg(2): B('create', 'thread created with another function or argument than the one given')
        tid = self.arg(0)
        null = eng.lookup(st, tid) == 0
        if args[0] == ZERO or null and args[0] == tid: B('create', 'no place given for the identity of the thread')
        if not null and args[0] != tid: B('create', 'identity of the thread not stored where asked')
        t = self.tok(st, args[1]) if args[1] != ZERO else frozenset()
        if t is None: B('attr', 'attributes used that are not set up'); t = frozenset()
        t = dict(t)
        if ('tried',) not in st.ts:
            if not (t.get('pol') == FIFO and t.get('prio') and t.get('inh') == 1) and ('no', 'prio') not in st.ts:
                B('sched', 'thread created without the priority asked for although it may be set')
            if 'aff' not in t and ('no', 'aff') not in st.ts: B('affinity', 'thread created without the processor asked for')
        if t.get('pol') and t.get('inh') != 1 and ('tried',) not in st.ts: B('sched', 'scheduling asked for is not used for the thread')
        plain = not t.get('pol') and 'aff' not in t
        s2 = st.copy()
        s2.ts[('tried',)] = plain
        r = eng.fresh_sym(s2, fr, eng.cur_env, inst, 'err', 'result of pthread_create'); eng.set_ne(s2, r, 0)
        st.ts[('made',)] = 1
        if t.get('det') != 1: st.ts[('joinable',)] = 1
        return [(ZERO, st), (r, s2)]

    def on_ret(self, eng, st, fr, inst, val):
        if fr.fn is not self.root: return
        self.exits += 1
        n = fr.fn.name
        B = lambda c, m, s=st: self.bad(eng, fr, inst, s, c, m)
        if any(x[0] == 'attr' for x in st.ts): B('attr', 'attributes not given back')
        if n == 'iot_thread_create':
            if ('joinable',) in st.ts: B('create', 'thread that nobody waits for is not detached')
            made = ('made',) in st.ts
            if not made and ('tried',) not in st.ts: B('create', 'returns without creating a thread')
            elif not made and not st.ts[('tried',)]: B('create', 'refused thread not tried again with default attributes')
            for t, s in truths(eng, st, val):
                if t != made: B('answer', 'failure reported although the thread runs' if made else 'success reported although no thread was created', s)
        elif n == 'iot_thread_priority_valid':
            for t, s in truths(eng, st, val):
                lo = eng.decide(s, eng.norm_cmp('sge', self.arg(0), SYS('min'))); hi = eng.decide(s, eng.norm_cmp('sle', self.arg(0), SYS('max')))
                if t and (lo is not True or hi is not True): B('valid', 'priority called valid that may lie outside the range of the system', s)
                if not t and lo is not False and hi is not False: B('valid', 'priority called invalid that may lie inside the range of the system', s)
        elif n.endswith('get_priority'):
            if val != SYS('prio'): B('get', 'something else than the priority of the thread returned')
        elif n.endswith('set_priority'):
            if ('set',) not in st.ts: B('set', 'returns without setting the priority')
            else:
                for t, s in truths(eng, st, val):
                    if t != st.ts[('set',)]: B('answer', 'priority reported as set although it was refused' if t else 'priority reported as refused although it was set', s)
        elif n == 'iot_mutex_init':
            if ('made',) not in st.ts: B('mutex', 'mutex not set up')


THREADS = ('iot_thread_create', 'iot_thread_priority_valid', 'iot_thread_get_priority', 'iot_thread_current_get_priority', 'iot_thread_set_priority', 'iot_thread_current_set_priority', 'iot_mutex_init')


def run_thread(prog):
    r = ThreadRule(prog)
    e = run(prog, r, [prog.funcs[n] for n in THREADS])
    return (e,), (r,), list(THREADS)


if __name__ == '__main__':
    import sys, ir, time, os
    t = time.time(); p = ir.load(os.environ.get('V', 'debug'))
    es, rules, rs = globals()['run_' + sys.argv[1]](p)
    for e in es:
        for x in e.reports:
            print('%s:%s %s [%s] %s   %s' % (x['file'].split('/')[-1], x['line'], x['function'], x['rule'], x['message'], '>'.join(x['callstack'][1:])))
            if len(sys.argv) > 2:
                for y in x['path']: print('      ', y)
    for r in rules: print(r.name, sorted(r.sites), r.exits)
    print(time.time() - t)
