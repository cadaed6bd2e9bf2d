"""Components and containers: the life-cycle state machine (A01) and the order in which a container drives its components (A02)."""
from engine import *
from ds import Base


def unbool(v):
    """the comparison behind a stored / widened boolean"""
    while v[0] == 'op' and v[1] == 'and' and v[3] == C(1): v = v[2]
    if v[0] == 'cmp' and v[1] == 'ne' and v[3] == ZERO and v[2][0] in ('cmp', 'op'): return unbool(v[2])
    return v


class Plain(Rule):
    """whole unit inlined, public callees of other units cut"""
    join_at = 80
    exit_join = 80
    max_steps = 250000

    def __init__(self, prog):
        Base.__init__(self, prog)

    o = Base.o
    bad = Base.bad
    E = {}

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Base.on_loaded(self, eng, st, fr, inst, ptr, val)

    def org(self, v):
        return self.origin.get(v) if v[0] == 's' else None

    def live_syms(self, st, out):
        Rule.live_syms(self, st, out)
        for i in range(len(self.root.args)): out.add(('s', (self.root.name,), 'arg%d' % i, ''))

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public

    def res(self, eng, st, fr, inst, d, kind=''):
        return ('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, kind, d)

    def on_indirect(self, eng, st, fr, inst, fv, args):
        return [(self.res(eng, st, fr, inst, 'result of callback'), st)]


STATE = ('iot_component_t', 'state')


LOCKS = ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'iot_mutex_lock', 'iot_mutex_unlock')


class StateRule(Plain):
    name = 'state'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        e = prog.enums['iot_component_state_t']
        self.S = {k.replace('IOT_COMPONENT_', ''): v for k, v in e.items()}
        self.sites = set(); self.exits = 0; self.trans = set(); self.named = set()

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public or STATE in self.touch.get(fn.name, ())

    def on_store(self, eng, st, fr, inst, ptr, val):
        if tag_of(ptr) != STATE: return
        loc = loc_of(ptr)
        self.sites.add((fr.fn.name, inst.line))
        if loc[0] in st.fresh or loc[0] in st.zero: return
        old = st.mem.get(loc)
        if old is None:
            self.bad(eng, fr, inst, st, 'state', 'component state changed without looking at the present state'); return
        st.ts[('st', loc[0])] = (old, val)
        S = self.S
        for n, s in S.items():
            # can this store put the component into state n?
            if eng.decide(st, eng.norm_cmp('eq', val, C(s))) is False: continue
            frm = [k for k, x in S.items() if eng.decide(st, eng.norm_cmp('eq', old, C(x))) is not False]
            if val == old: continue
            self.trans.add((tuple(frm), n))
            if n == 'INITIAL': self.bad(eng, fr, inst, st, 'state', 'component put back into its initial state')
            if n != 'DELETED' and 'DELETED' in frm: self.bad(eng, fr, inst, st, 'state', 'deleted component can change to state %s' % n.lower())
            if n == 'DELETED' and 'RUNNING' in frm: self.bad(eng, fr, inst, st, 'state', 'running component can be marked deleted')
        if all(eng.decide(st, eng.norm_cmp('eq', val, C(s))) is None for s in S.values()):
            self.bad(eng, fr, inst, st, 'state', 'component state set to a value that was not checked')

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee in LOCKS:
            # whatever was known of the state is out of date once another thread may have held the lock
            for k in [k for k in st.mem if k[1] == self.o(*STATE) and k[0] not in st.fresh and k[0] not in st.zero]:
                st.ts[('at', k[0])] = st.mem.pop(k)
        if callee.startswith(('pthread_', 'iot_mutex')): return [(self.res(eng, st, fr, inst, callee) if inst.ty != 'void' else ('void',), st)]
        return None

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        if fr.fn.sig and fr.fn.sig[0].strip() not in ('bool', '_Bool'): return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        ch = [(k, v) for k, v in st.ts.items() if k[0] == 'st']
        X = fr.fn.name.split('_set_')[-1].upper() if '_set_' in fr.fn.name else None
        if X in self.S and fr.fn.public:
            self.named.add(fr.fn.name)
            if ch:
                if ch[0][1][1] != C(self.S[X]): self.bad(eng, fr, inst, st, 'state', 'component put into another state than the one asked for')
            else:
                stay = {'RUNNING', 'DELETED'} if X == 'DELETED' else {'DELETED', X}
                a0 = ('s', (self.root.name,), 'arg0', '')
                v = st.mem.get((a0, self.o(*STATE)), st.ts.get(('at', a0)))
                if v is None or any(eng.decide(st, eng.norm_cmp('eq', v, C(n))) is not False for k, n in self.S.items() if k not in stay):
                    self.bad(eng, fr, inst, st, 'state', 'state change asked for and allowed but not made')
        d = eng.decide(st, val) if val[0] != 'c' else bool(val[1])
        if not ch:
            if d is not False: self.bad(eng, fr, inst, st, 'told', 'reports a state change although the state was not changed')
            return
        old, new = ch[0][1]
        want = eng.norm_cmp('ne', old, new)
        w = eng.decide(st, want)
        if d is not None and w is not None:
            if d != w: self.bad(eng, fr, inst, st, 'told', 'reports %s although the state %s' % ('a change' if d else 'no change', 'changed' if w else 'stayed as it was'))
            return
        if unbool(val) != want: self.bad(eng, fr, inst, st, 'told', 'the result does not tell whether the state changed')


def touches(prog):
    """(struct, field) stored by each function itself"""
    out = {}
    for n, f in prog.funcs.items():
        tags = {}
        for b in f.blocks:
            for i in b:
                if i.op == 'getelementptr' and 'st' in i.d['gep']:
                    tags[i.id] = (i.d['gep']['st'].replace('struct.', ''), prog.field(i.d['gep']['st'], i.d['gep']['fo']))
                if i.op == 'store' and i.ops[1][0] == 'v' and i.ops[1][1] in tags: out.setdefault(n, set()).add(tags[i.ops[1][1]])
    return out


def closure(prog, start):
    rel = set(start); todo = list(start)
    while todo:
        x = todo.pop()
        for c in prog.callers.get(x, ()):
            if c not in rel: rel.add(c); todo.append(c)
    return rel


def run(prog, rule, roots):
    eng = Engine(prog, rule)
    for f in roots:
        rule.root = f; eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(f.name)
    return eng


def run_state(prog):
    rule = StateRule(prog)
    rule.touch = touches(prog)
    rel = closure(prog, [n for n, t in rule.touch.items() if STATE in t])
    # every entry into the functions that store the state: public ones and those nobody calls
    roots = [f for n, f in sorted(prog.funcs.items()) if n in rel and (f.public or not prog.callers.get(n)) and (prog.callees.get(n, set()) & rel or STATE in rule.touch.get(n, ()))]
    roots = [f for f in roots if f.file.endswith('component.c')]
    for n in SETTERS:
        if prog.funcs[n] not in roots: roots.append(prog.funcs[n])
    eng = run(prog, rule, roots)
    nm = NameRule(prog)
    waits = [prog.funcs[n] for n in ('iot_component_wait', 'iot_component_wait_and_lock', 'iot_component_state_name', 'iot_component_lock', 'iot_component_unlock')]
    e2 = run(prog, nm, waits)
    for n, v in nm.S.items():
        f = prog.funcs['iot_component_state_name']
        if n not in nm.names: e2.reports.append({'rule': 'name', 'function': f.name, 'file': f.file, 'line': f.blocks[0][0].line, 'message': 'state %s has no name' % n.lower(), 'callstack': [], 'path': []})
    return (eng, e2), (rule, nm), roots + waits


SETTERS = ('iot_component_set_running', 'iot_component_set_stopped', 'iot_component_set_starting', 'iot_component_set_deleted')


class NameRule(Plain):
    """waiting for states, and the names of states"""
    name = 'wait'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.S = {k.replace('IOT_COMPONENT_', ''): v for k, v in prog.enums['iot_component_state_t'].items()}
        self.names = {}

    def inline(self, eng, fn, fr, st, inst, args): return fn.file == self.root.file

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        if tag_of(ptr) == STATE and st.ts.get('held', self.root.name == 'iot_component_unlock'): st.ts[('state', val)] = loc_of(ptr)[0]

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        if callee in LOCKS:
            st.ts['held'] = not callee.endswith('unlock')
            for k in [k for k in st.mem if k[0] == ('s', (self.root.name,), 'arg0', '')]: del st.mem[k]
        if callee.startswith('pthread_cond_'):
            for k in [k for k in st.mem if k[0] == ('s', (self.root.name,), 'arg0', '')]: del st.mem[k]
            for k in [k for k in st.ts if k[0] == 'state']: del st.ts[k]
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith(('pthread_', 'iot_mutex')): return [(self.res(eng, st, fr, inst, callee), st)]
        return None

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        a0, a1 = (('s', (self.root.name,), 'arg%d' % i, '') for i in (0, 1))
        if fr.fn.name == 'iot_component_state_name':
            from contract import cstr
            t = cstr(self.p, val)
            for n, v in self.S.items():
                if eng.decide(st, eng.norm_cmp('eq', a0, C(v))) is True:
                    self.names[n] = t
                    if t is None or t.upper() != n: self.bad(eng, fr, inst, st, 'name', 'state %s is given the name "%s"' % (n.lower(), t))
            return
        v = val
        if st.ts.get(('state', v)) != a0: self.bad(eng, fr, inst, st, 'wait', 'state returned is not one the component was seen in with its lock held'); return
        if 'wait' not in fr.fn.name: return
        for x in (('op', 'and', v, a1), ('op', 'and', a1, v)):
            if eng.decide(st, eng.norm_cmp('ne', x, ZERO)) is True: return
        self.bad(eng, fr, inst, st, 'wait', 'wait for a state ends although the component may not be in one of the states waited for')


# ------------------------------------------------------------------ container order
FNS = ('starting_fn', 'start_fn', 'running_fn', 'stopping_fn', 'stop_fn')
COMP = 'iot_component_t'


class OrderRule(Plain):
    name = 'order'
    mode = None

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.F = {self.o(COMP, f): f for f in FNS}
        self.RUN = prog.enums['iot_component_state_t']['IOT_COMPONENT_RUNNING']
        self.calls = {}
        self.passes = set()

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file.endswith('container.c')

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        if callee == 'iot_data_list_iter':
            it = args[1]
            self.endpass(eng, st, fr, inst, it, False)
            st.ts[('it', it)] = 'new'
            return [(('void',), st)]
        if callee in ('iot_data_list_iter_next', 'iot_data_list_iter_prev'):
            it = args[0]
            d = callee[-4:]
            was = st.ts.get(('it', it))
            if isinstance(was, tuple) and was[0] == 'el': self.element(eng, st, fr, inst, it, was[1], d)
            elif was == 'new': st.ts[('ps', it)] = (d, None)
            s2 = st.copy()
            e = eng.fresh_sym(st, fr, eng.cur_env, inst, 'el', 'component visited')
            for f in FNS: st.ts.pop(('done', e, f), None)
            st.ts[('it', it)] = ('el', e)
            self.endpass(eng, s2, fr, inst, it, True)
            s2.ts.pop(('it', it), None)
            s2.note('%s: no more components' % eng.where(fr, inst)); st.note('%s: next component' % eng.where(fr, inst))
            return [(C(1), st), (ZERO, s2)]
        if callee.startswith('iot_data_list_iter_') and ('pointer_value' in callee or callee.endswith('_value')):
            was = st.ts.get(('it', args[0]))
            if isinstance(was, tuple) and was[0] == 'el': return [(was[1], st)]
        if callee == 'iot_data_pointer' and args[0][0] == 's' and args[0][3] == 'el': return [(args[0], st)]
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)] if callee.startswith(('iot_', 'pthread_')) else None

    def element(self, eng, st, fr, inst, it, e, d):
        """leaving one visited component: which of its functions were dealt with"""
        got = set()
        for o, f in self.F.items():
            if ('done', e, f) in st.ts: got.add(f); continue
            v = st.mem.get((e, o))
            if v is not None and eng.lookup(st, v) == 0: got.add(f)
            st.ts.pop(('done', e, f), None)
        v = st.mem.get((e, self.o(*STATE)))
        if v is not None and eng.lookup(st, v) == self.RUN: got.add('state')
        for f in FNS: st.ts.pop(('done', e, f), None)
        p = st.ts.get(('ps', it), (d, None))
        dr = d if p[0] == d else 'mixed'
        st.ts[('ps', it)] = (dr, frozenset(got) if p[1] is None else p[1] & frozenset(got))

    def endpass(self, eng, st, fr, inst, it, complete):
        p = st.ts.pop(('ps', it), None)
        if not complete or p is None: return
        for f in (p[1] if p[1] is not None else FNS + ('state',)):
            st.ts.setdefault(('all', f), p[0])
            self.passes.add((self.root.name, f, p[0]))

    def on_indirect(self, eng, st, fr, inst, fv, args):
        o = self.origin.get(fv)
        if o and o[2] and o[2][0] == COMP and o[2][1] in FNS:
            f = o[2][1]
            self.calls.setdefault(f, set()).add((fr.fn.name, inst.line))
            b = o[0]
            if not args or args[0] != b: self.bad(eng, fr, inst, st, 'arg', '%s of a component called for something else' % f)
            if ('done', b, f) in st.ts: self.bad(eng, fr, inst, st, 'twice', '%s called twice for one component' % f)
            st.ts[('done', b, f)] = 1
            n = FNS.index(f)
            later = {'starting_fn': ('start_fn', 'running_fn'), 'start_fn': ('running_fn',), 'stopping_fn': ('stop_fn',)}.get(f, ())
            for g in later:
                if ('began', g) in st.ts: self.bad(eng, fr, inst, st, 'order', '%s called after some %s' % (f, g))
            want = {'start_fn': ('starting_fn',), 'running_fn': ('start_fn',), 'stop_fn': ('stopping_fn',)}.get(f, ()) if self.mode in ('start', 'stop') else ()
            for g in want:
                if ('all', g) not in st.ts: self.bad(eng, fr, inst, st, 'order', '%s called before every component had its %s' % (f, g))
            st.ts[('began', f)] = 1
            if f == 'running_fn' and self.mode == 'start' and len(args) > 1:
                late = eng.decide(st, args[1]) if args[1][0] != 'c' else bool(args[1][1])
                if late is None and ('all', 'state') not in st.ts: self.bad(eng, fr, inst, st, 'running', 'running callback told something else than whether the wait ran out')
                elif late is False and ('all', 'state') not in st.ts: self.bad(eng, fr, inst, st, 'running', 'running callback told that all components run although one was not seen running')
                elif late and ('all', 'state') in st.ts: self.bad(eng, fr, inst, st, 'running', 'running callback told that the wait ran out although all components run')
            if self.mode == 'start' and f in ('stopping_fn', 'stop_fn') or self.mode == 'stop' and f in ('starting_fn', 'start_fn', 'running_fn'):
                self.bad(eng, fr, inst, st, 'order', '%s called in the wrong direction' % f)
        return Plain.on_indirect(self, eng, st, fr, inst, fv, args)

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        fwd, back = ('next', 'prev') if self.push != {'prev'} else ('prev', 'next')
        want = {'start': [('starting_fn', fwd), ('start_fn', fwd), ('running_fn', None)], 'stop': [('stopping_fn', back), ('stop_fn', back)]}[self.mode]
        for f, d in want:
            g = st.ts.get(('all', f))
            if g is None: self.bad(eng, fr, inst, st, 'all', 'not every component has its %s called' % f)
            elif d and g != d: self.bad(eng, fr, inst, st, 'dir', '%s called in the wrong order of components' % f)


class FreeRule(Plain):
    """releasing a component: stop unless stopped, then the factory's free function, once"""
    name = 'release'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.S = {k.replace('IOT_COMPONENT_', ''): v for k, v in prog.enums['iot_component_state_t'].items()}
        self.calls = {}

    def on_indirect(self, eng, st, fr, inst, fv, args):
        o = self.origin.get(fv)
        if o and o[2]:
            f = o[2][1]
            self.calls.setdefault(f, set()).add((fr.fn.name, inst.line))
            c = ('s', (self.root.name,), 'arg0', '')
            if args and args[0] != c: self.bad(eng, fr, inst, st, 'arg', '%s called for something else' % f)
            if f == 'stop_fn':
                if ('freed',) in st.ts: self.bad(eng, fr, inst, st, 'free', 'component stopped after it was freed')
                if ('stop',) in st.ts: self.bad(eng, fr, inst, st, 'free', 'component stopped twice')
                v = st.mem.get((c, self.o(*STATE)))
                if v is None or eng.decide(st, eng.norm_cmp('eq', v, C(self.S['STOPPED']))) is not False: self.bad(eng, fr, inst, st, 'free', 'component stopped although it may be stopped already')
                st.ts[('stop',)] = 1
            if f == 'free_fn':
                if ('freed',) in st.ts: self.bad(eng, fr, inst, st, 'free', 'component freed twice')
                v = st.mem.get((c, self.o(*STATE)))
                if ('stop',) not in st.ts and (v is None or eng.decide(st, eng.norm_cmp('eq', v, C(self.S['STOPPED']))) is not True):
                    self.bad(eng, fr, inst, st, 'free', 'component freed without having been stopped')
                st.ts[('freed',)] = 1
        return Plain.on_indirect(self, eng, st, fr, inst, fv, args)

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        if ('freed',) not in st.ts: self.bad(eng, fr, fr.fn.blocks[-1][-1], st, 'free', 'released component not given to its factory\'s free function')


CALLBACK = {'starting': 'starting_fn', 'running': 'running_fn', 'stopping': 'stopping_fn'}


def strip(v): return v[1] if v[0] == 'p' and v[2] == 0 else v


class MakeRule(Plain):
    """what enters a container is complete; one factory per type"""
    name = 'make'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.made = set(); self.adds = set(); self.dtors = set(); self.creates = set(); self.push = set()

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file.endswith('container.c')

    def on_store(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        if t and t[0] == COMP and val != ZERO and eng.lookup(st, val) != 0: st.ts[('set', root(ptr), t[1])] = 1
        g = loc_of(ptr)[0]
        if g[0] == 'g' and g[1].startswith('iot_component_factories'):
            self.adds.add((fr.fn.name, inst.line))
            if ('same',) in st.ts: self.bad(eng, fr, inst, st, 'factory', 'factory added although one of this type is registered')
            if ('searched',) not in st.ts: self.bad(eng, fr, inst, st, 'factory', 'factory added without looking for one of the same type')
            n = st.mem.get((val, self.o('iot_component_factory_t', 'next')))
            old = st.mem.get(loc_of(ptr))
            if n is None or n != old: self.bad(eng, fr, inst, st, 'factory', 'factory list cut off when a factory is added')
            st.ts[('added',)] = 1

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and cond[3] == ZERO and taken == (cond[1] == 'eq'):
            o = self.origin.get(cond[2])
            if o and (o[0][0] == 'g' and o[0][1].startswith('iot_component_factories') or o[2] == ('iot_component_factory_t', 'next')): st.ts[('searched',)] = 1

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        if callee == 'strcmp':
            fac = [a for a in args if (self.origin.get(a) or (0, 0, None))[2] == ('iot_component_factory_t', 'type')]
            if fac:
                s2 = st.copy()
                s2.ts[('same',)] = 1
                s2.note('%s: a factory of this type exists' % eng.where(fr, inst))
                r = self.res(eng, st, fr, inst, 'strcmp')
                eng.set_ne(st, r, 0)
                return [(r, st), (ZERO, s2)]
        if callee == 'iot_data_alloc_pointer':
            c = args[0]
            if len(args) > 1 and args[1][0] == 'fn': self.dtors.add(args[1][1])
            self.made.add((fr.fn.name, inst.line))
            r = self.res(eng, st, fr, inst, 'pointer data')
            st.ts[('box', r)] = root(c)
            back = [(r, st)]
            for f in ('config', 'name', 'factory'):
                if ('set', root(c), f) not in st.ts: self.bad(eng, fr, inst, st, 'make', 'component added to the container without its %s' % f)
            if eng.lookup(st, c) == 0: self.bad(eng, fr, inst, st, 'make', 'no component added to the container')
            x = eng.nonnull(st, c) if hasattr(eng, 'nonnull') else None
            if x is not True and eng.decide(st, eng.norm_cmp('eq', c, ZERO)) is not False: self.bad(eng, fr, inst, st, 'make', 'component added without testing that it was created')
            return back
        if callee in ('iot_data_list_head_push', 'iot_data_list_tail_push') and ('box', args[1]) in st.ts:
            st.ts[('in', st.ts[('box', args[1])])] = 1
            self.push.add('next' if 'head' in callee else 'prev')
            return [(('void',), st)]
        if callee == 'iot_data_list_remove': st.ts[('removed',)] = tuple(strip(a) for a in args)
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith(('iot_', 'pthread_', 'dl')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def on_indirect(self, eng, st, fr, inst, fv, args):
        o = self.origin.get(fv)
        r = self.res(eng, st, fr, inst, 'result of callback')
        if o and o[2] == ('iot_component_factory_t', 'config_fn'):
            s2 = st.copy(); s2.note('%s: the factory creates no component' % eng.where(fr, inst))
            eng.set_ne(st, r, 0)
            st.ts[('new', r)] = 1
            self.creates.add((fr.fn.name, inst.line))
            return [(r, st), (ZERO, s2)]
        return [(r, st)]

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        for k in st.ts:
            if k[0] == 'new' and ('in', k[1]) not in st.ts: self.bad(eng, fr, fr.fn.blocks[-1][-1], st, 'make', 'component created but not added to the container')
        a = lambda n: ('s', (self.root.name,), 'arg%d' % n, '')
        if self.root.name == 'iot_container_delete_component':
            x = st.ts.get(('removed',))
            if x is None or x[-1] != a(1): self.bad(eng, fr, fr.fn.blocks[-1][-1], st, 'delete', 'component of the name given not removed from the container')
        if self.root.name == 'iot_component_init' or self.root.name.startswith('iot_component_set_') and self.root.name.endswith('_callback'):
            for i, ar in enumerate(fr.fn.args):
                f = CALLBACK.get(self.root.name.replace('iot_component_set_', '').replace('_callback', '') if i else '') if self.root.name != 'iot_component_init' else (None, 'factory', 'start_fn', 'stop_fn')[i]
                if f and st.mem.get((a(0), self.o(COMP, f))) != a(i): self.bad(eng, fr, fr.fn.blocks[-1][-1], st, 'callback', '%s given for a component is not kept' % f)
        if self.root.name == 'iot_component_factory_add' and ('same',) not in st.ts and ('added',) not in st.ts:
            self.bad(eng, fr, fr.fn.blocks[-1][-1], st, 'factory', 'factory of a new type not added')


def run_order(prog):
    reports = []; info = {}
    rule = OrderRule(prog); eng = None; roots = []
    eng = Engine(prog, rule)
    mk = MakeRule(prog)
    mkr = ['iot_container_add_component', 'iot_component_factory_add', 'iot_container_init', 'iot_container_find_component', 'iot_container_delete_component', 'iot_component_init'] + [n for n in sorted(prog.funcs) if n.startswith('iot_component_set_') and n.endswith('_callback')]
    eng2 = run(prog, mk, [prog.funcs[n] for n in mkr])
    if not mk.creates or not mk.made:
        f = prog.funcs['iot_container_add_component']
        eng2.reports.append({'rule': 'make', 'function': f.name, 'file': f.file, 'line': f.blocks[0][0].line, 'message': 'no path creates a component and adds it to the container', 'callstack': [], 'path': []})
    roots += mkr
    rule.push = mk.push
    for mode, n in (('start', 'iot_container_start'), ('stop', 'iot_container_stop')):
        f = prog.funcs[n]
        rule.root = f; rule.mode = mode; eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n); roots.append(n)
    fr = FreeRule(prog)
    eng3 = run(prog, fr, [prog.funcs[n] for n in sorted(mk.dtors)])
    roots += sorted(mk.dtors)
    return (eng, eng2, eng3), (rule, mk, fr), roots


if __name__ == '__main__':
    import sys, ir, time
    t = time.time(); p = ir.load('debug')
    r = {'state': run_state, 'order': run_order}[sys.argv[1]](p)
    for e in (r[0] if isinstance(r[0], tuple) else (r[0],)):
        for x in e.reports:
            print('%s:%s %s [%s] %s' % (x['file'].split('/')[-1], x['line'], x['function'], x['rule'], x['message']))
            if len(sys.argv) > 2:
                for y in x['path']: print('      ', y)
    rs = r[1] if isinstance(r[1], tuple) else (r[1],)
    for q in rs: print({k: v for k, v in q.__dict__.items() if k in ('sites', 'trans', 'exits', 'calls', 'passes', 'made', 'adds', 'dtors')})
    print([getattr(f, 'name', f) for f in r[2]], time.time() - t)
