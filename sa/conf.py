"""K02: components are set up as their configuration says.
The factories' configuration functions: each setting read from the configuration map reaches the constructor in its own
place, an absent one is replaced by its default.  The constructors: what they are given is kept in the component and handed
to the threads they start."""
from engine import *
from life import Plain
from contract import cstr


def CFG(k): return ('s', ('cfg',), k, '')


# constructor -> what each argument must be
WANT = {
    'iot_logger_alloc': ('Name', 'level', 'Start'),
    'iot_logger_alloc_custom': ('Name', 'level', 'Start', '>Next'),
    'iot_logger_alloc_file': ('Name', 'level', 'Start', '>Next', 'To+5'),
    'iot_logger_alloc_udp': ('Name', 'level', 'Start', '>Next'),
    'iot_threadpool_alloc': ('Threads', 'MaxJobs', 'Priority', 'Affinity', '>Logger'),
    'iot_scheduler_alloc': ('Priority', 'Affinity', '>Logger'),
}
SAY = {'Name': 'name', 'level': 'level', 'Start': 'start setting', '>Next': 'next logger', 'To+5': 'file name', 'Threads': 'number of threads', 'MaxJobs': 'job limit', 'Priority': 'priority', 'Affinity': 'processor', '>Logger': 'logger'}
NONE = {'Priority': -1, 'Affinity': -1}
GETS = {'iot_data_string_map_get_string': 'string', 'iot_data_string_map_get_i64': 'i64', 'iot_data_string_map_get_bool': 'bool'}
PREFIX = {'iot_logger_alloc_file': 'file:', 'iot_logger_alloc_udp': 'udp:'}


def peel(v):
    """value behind conversions, and the bits they leave of it"""
    bits = 64
    while v[0] == 'op' and v[1] in ('trunc', 'zext', 'sext') and v[2][0] != 'c':
        if v[1] == 'trunc' and len(v) > 3 and v[3][0] == 'c': bits = min(bits, v[3][1])
        v = v[2]
    return v, bits


ROOM = {'Threads': 16}


class ConfRule(Plain):
    """configuration map -> constructor"""
    name = 'config'
    widths = True

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.keys = set(); self.built = set(); self.exits = 0

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file == self.root.file

    def arg(self, i): return ('s', (self.root.name,), 'arg%d' % i, '')

    def map_of(self): return self.arg(self.mapn)

    def on_call(self, eng, st, fr, inst, callee, args):
        B = lambda m: self.bad(eng, fr, inst, st, 'config', m)
        fn = self.p.funcs.get(callee)
        if callee in GETS:
            k = cstr(self.p, args[1])
            if args[0] != self.map_of() or k is None: return [(self.res(eng, st, fr, inst, 'setting'), st)]
            self.keys.add((self.root.name, k))
            r = CFG(k); eng.desc.setdefault(r, 'setting "%s"' % k)
            if len(args) > 2 and GETS[callee] != 'string':
                d = eng.lookup(st, args[2])
                if k in NONE and d is not None and d not in (-1, 0xffffffffffffffff, 0xffffffff): B('%s that is not set is not left to the system' % SAY[k])
                if k == 'Start' and d is not None and not d: B('component that is not told otherwise does not start by itself')
            return [(r, st)]
        if callee == 'iot_data_string_map_get_string_default': return None
        if callee == 'iot_container_find_component':
            self.keys.add((self.root.name, '>'))
            k = args[1]
            if args[0] != self.arg(self.contn) or k[0] != 's' or k[1] != ('cfg',): return [(self.res(eng, st, fr, inst, 'component'), st)]
            r = CFG('>' + k[2]); eng.desc.setdefault(r, 'component named by "%s"' % k[2])
            return [(r, st)]
        if callee == 'iot_logger_level_from_string':
            r = CFG('level' if args[0] == CFG('Level') else '?level'); eng.desc.setdefault(r, 'level')
            return [(r, st)]
        if callee in ('strncmp', 'strncasecmp', 'strcmp'):
            t = next((cstr(self.p, a) for a in args[:2] if cstr(self.p, a) is not None), None)
            n = eng.lookup(st, args[2]) if len(args) > 2 else None
            if CFG('To') in args[:2] and t is not None:
                if isinstance(n, int): t = t[:n]
                r = self.res(eng, st, fr, inst, 'comparison'); s2 = st.copy()
                eng.set_ne(st, r, 0)
                s2.ts[('to', t)] = 1
                return [(r, st), (ZERO, s2)]
        if callee == 'strlen' and args[0] == CFG('To'): return [(CFG('#To'), st)]
        if callee in WANT:
            self.ctor(eng, st, fr, inst, callee, args)
            r = self.res(eng, st, fr, inst, 'new component'); eng.set_ne(st, r, 0)
            if ('built',) in st.ts: B('second component created')
            st.ts[('built',)] = r
            return [(r, st)]
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith(('iot_', 'pthread_')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        if root(ptr) == CFG('To'): st.ts[('peek', loc_of(ptr)[1])] = 1

    def ctor(self, eng, st, fr, inst, callee, args):
        B = lambda m: self.bad(eng, fr, inst, st, 'config', m)
        self.built.add((callee, inst.line))
        for i, w in enumerate(WANT[callee]):
            a = args[i]
            if w == 'Name':
                null = eng.decide(st, eng.norm_cmp('eq', CFG('Name'), ZERO))
                if a == CFG('Name'):
                    if null is not False: B('name may be missing')
                elif cstr(self.p, a) is None or null is not True: B('name in the configuration is not the name of the component')
            elif w == 'To+5':
                if root(a) != CFG('To') or loc_of(a)[1] != 5: B('file name in the configuration is not the one logged to')
            elif a != CFG(w):
                if w == 'Start' and unb(a) == CFG(w): continue
                v, bits = peel(a)
                if v == CFG(w):
                    if bits < ROOM.get(w, 32): B('%s in the configuration is cut to %d bits' % (SAY[w], bits))
                    continue
                B('%s in the configuration is not the %s of the component' % (SAY[w], SAY[w]))
        p = PREFIX.get(callee)
        if p and ('to', p) not in st.ts: B('logger writes to another kind of place than the configuration says')
        if not p:
            for q in PREFIX.values():
                if ('to', q) in st.ts and ('peek', len(q)) not in st.ts and eng.decide(st, eng.norm_cmp('ugt', CFG('#To'), C(len(q)))) is not False: B('logger writes to another kind of place than the configuration says')

    def on_store(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        b = st.ts.get(('built',))
        if t == ('iot_threadpool_t', 'delay') and root(ptr) == b:
            st.ts[('delay',)] = 1
            val, bits = peel(val)
            if bits < 32: self.bad(eng, fr, inst, st, 'config', 'shutdown delay in the configuration is cut to %d bits' % bits)
            if val[0] != 'c' and val != CFG('ShutdownDelay') or val[0] == 'c' and not any(eng.decide(st, eng.norm_cmp(q, d, val)) is True for q in ('ult', 'ule', 'slt', 'sle') for d in (CFG('ShutdownDelay'), ('op', 'trunc', CFG('ShutdownDelay'), C(32)))):
                self.bad(eng, fr, inst, st, 'config', 'shutdown delay in the configuration is not the shutdown delay of the pool')

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        B = lambda m: self.bad(eng, fr, inst, st, 'config', m)
        b = st.ts.get(('built',))
        if b is None: B('no component created for the configuration'); return
        if root(val) != b: B('component returned is not the one created')
        if self.root.file.endswith('threadpool.c') and ('delay',) not in st.ts: B('shutdown delay in the configuration is not the shutdown delay of the pool')


def unb(v):
    while v[0] == 'op' and v[1] in ('and', 'trunc', 'zext'): v = v[2]
    if v[0] == 'cmp' and v[1] == 'ne' and v[3] == ZERO: return unb(v[2])
    return v


class ReconfRule(ConfRule):
    """new configuration -> the component"""
    name = 'reconfig'

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        B = lambda m: self.bad(eng, fr, inst, st, 'config', m)
        if self.root.file.endswith('logger.c') and eng.decide(st, eng.norm_cmp('eq', val, ZERO)) is not True:
            if not any(v == CFG('level') for k, v in st.mem.items() if k[0] == self.arg(0)) and ('lvl',) not in st.ts:
                B('level in the new configuration is not given to the logger')

    def on_call(self, eng, st, fr, inst, callee, args):
        if callee == 'iot_logger_set_level':
            if args[0] == self.arg(0) and args[1] == CFG('level'): st.ts[('lvl',)] = 1
            return [(('void',), st)]
        return ConfRule.on_call(self, eng, st, fr, inst, callee, args)

    def on_store(self, eng, st, fr, inst, ptr, val):
        if tag_of(ptr) and tag_of(ptr)[1] == 'level' and root(ptr) == self.arg(0) and val != CFG('level'):
            self.bad(eng, fr, inst, st, 'config', 'level in the new configuration is not given to the logger')


class KeepRule(Plain):
    """constructors keep what they are given and hand it to the threads they start"""
    name = 'keep'
    #            thread priority, processor, logger argument numbers; fields kept
    HOW = {'iot_threadpool_alloc': (2, 3, 4, {'affinity': 3, 'logger': 4, 'max_jobs': 1, 'threads': 0}, 'iot_threadpool_t'),
           'iot_scheduler_alloc': (0, 1, 2, {'logger': 2}, 'iot_scheduler_t')}

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.kept = set(); self.threads = set(); self.exits = 0

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file == self.root.file and not any(a[0] == 'fn' for a in args)

    def arg(self, i): return ('s', (self.root.name,), 'arg%d' % i, '')

    def on_call(self, eng, st, fr, inst, callee, args):
        B = lambda m: self.bad(eng, fr, inst, st, 'keep', m)
        how = self.HOW[self.root.name]
        fn = self.p.funcs.get(callee)
        if callee == 'iot_thread_create':
            self.threads.add((self.root.name, inst.line))
            for i, w in ((3, 'priority'), (4, 'processor'), (5, 'logger')):
                if args[i] != self.arg(how[i - 3]): B('thread is not started with the %s given' % w)
            r = self.res(eng, st, fr, inst, 'started'); eng.set_ne(st, r, 0)
            s2 = st.copy(); s2.ts[('failed',)] = 1
            st.ts[('thread',)] = min(st.ts.get(('thread',), 0) + 1, 3)
            return [(r, st), (ZERO, s2)]
        if callee in ('iot_logger_add_ref', 'iot_component_add_ref'):
            if root(args[0]) == self.arg(how[2]): st.ts[('ref',)] = 1
            return [(('void',), st)]
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith(('iot_', 'pthread_')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def on_store(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr); how = self.HOW[self.root.name]
        if t and t[0] == how[4] and t[1] in how[3]:
            i = how[3][t[1]]
            self.kept.add((self.root.name, t[1]))
            ok = val == self.arg(i)
            if t[1] == 'max_jobs':
                zero = eng.decide(st, eng.norm_cmp('eq', self.arg(i), ZERO))
                ok = ok and zero is False or val[0] == 'c' and val[1] in (-1, 0xffffffff) and zero is True
            if not ok and val != ZERO: self.bad(eng, fr, inst, st, 'keep', '%s of the new component is not the one given' % t[1])
            if ok or zero_ok(val): st.ts[('kept', t[1])] = ok

    def on_branch(self, eng, st, fr, inst, cond, taken):
        n = self.arg(0)
        if self.root.name == 'iot_threadpool_alloc' and cond[0] == 'cmp' and n in cond[2:]:
            p, (a, b) = cond[1], cond[2:]
            other = b if a == n else a
            if other[0] == 'c':
                k = st.ts.get(('thread',), 0)
                if other[1] != k and k < 3: st.ts[('off', inst.id)] = 1      # not the number started so far
            if ('off', inst.id) in st.ts: return
            # all the threads asked for have been started where "started < asked for" is false
            if p[1:] in ('lt', 'le', 'gt', 'ge'):
                less = p[1:] in ('lt', 'le') if a == other else p[1:] in ('gt', 'ge')
                strict = p[1:] in ('lt', 'gt')
                if less != taken and (strict if less else not strict): st.ts[('all',)] = 1
            elif (p == 'eq') == taken: st.ts[('all',)] = 1

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        how = self.HOW[self.root.name]
        inst = fr.fn.blocks[-1][-1]
        B = lambda m: self.bad(eng, fr, inst, st, 'keep', m)
        if val == ZERO: return
        for f, i in how[3].items():
            if not st.ts.get(('kept', f)): B('%s given for the new component is not kept' % f)
        if ('ref',) not in st.ts: B('logger used by the new component is not kept alive for it')
        if ('failed',) not in st.ts:
            if self.root.name == 'iot_scheduler_alloc' and ('thread',) not in st.ts: B('no thread started')
            if self.root.name == 'iot_threadpool_alloc' and ('all',) not in st.ts and eng.decide(st, eng.norm_cmp('eq', self.arg(0), ZERO)) is not True: B('fewer threads started than asked for')


def zero_ok(v): return v == ZERO


def run(prog, rule, f):
    eng = Engine(prog, rule)
    rule.root = f; eng.memo = {}; eng.steps = 0; eng.cur_env = {}
    eng.run_root(f.name)
    return eng


def run_conf(prog):
    from ir import AnalysisBroken
    conf, rec, keep = ConfRule(prog), ReconfRule(prog), KeepRule(prog)
    engs = []; roots = []
    for n, g in sorted(prog.globals.items()):
        i = g.get('init')
        if g.get('ty') != 'struct.iot_component_factory_t' or not i or i[0] != 'st': continue
        for slot, rule in ((3, conf), (5, rec)):
            if i[slot][0] != 'fn' or i[slot][1] not in prog.funcs: continue
            f = prog.funcs[i[slot][1]]
            rule.mapn, rule.contn = (1, 0) if slot == 3 else (2, 1)
            engs.append(run(prog, rule, f)); roots.append(f)
    for n in sorted(KeepRule.HOW):
        engs.append(run(prog, keep, prog.funcs[n])); roots.append(prog.funcs[n])
    return engs, (conf, rec, keep), roots


if __name__ == '__main__':
    import sys, ir
    p = ir.load('debug')
    engs, rules, roots = run_conf(p)
    for e in engs:
        for r in e.reports: print(r['function'], r['line'], r['message'])
    print([f.name for f in roots], rules[0].keys, rules[0].built, rules[2].kept, rules[2].threads, [r.exits for r in rules])
