"""Destruction: when the last reference to an object is dropped everything it owns is released and the object itself is freed;
before that nothing is, and after giving up its own reference a call does not touch the object again."""
from engine import *

RELEASE = {'free', 'fclose', 'close', 'closedir', 'iot_data_free', 'iot_data_block_free', 'iot_logger_free', 'iot_threadpool_free', 'iot_scheduler_free', 'realloc'}
COMP = 'iot_component_t'
# what an object of a type owns: field -> how it has to be given back
OWNS = {
    'iot_logger_impl_t': ('name', 'next'),
    'iot_threadpool_t': ('thread_array', 'logger'),
    'iot_scheduler_t': ('logger', 'queue', 'idle'),
    'iot_schedule_t': ('threadpool',),
    'iot_queue_t': ('queue',),
    'iot_container_t': ('components', 'name'),
    'iot_node_t': ('key', 'value'),
    'iot_element_t': ('value',),
    'iot_logger_udp_ctx_t': ('sock',),
}
CALLED = {'iot_logger_impl_t': (('freectx', 'ctx'),), 'iot_schedule_t': (('free_cb', 'arg'),), 'iot_data_pointer_t': (('free_fn', 'value'),)}
LISTS = {'iot_threadpool_t': ('front', 'cache')}     # chains of blocks, walked until empty
HAS_COMPONENT = ('iot_logger_impl_t', 'iot_threadpool_t', 'iot_scheduler_t')
COUNTED = ('iot_logger_impl_t', 'iot_threadpool_t', 'iot_scheduler_t', 'iot_schedule_t', 'iot_data_t')
SYNC = {'iot_threadpool_t': ('work_cond', 'job_cond', 'queue_cond'), 'iot_queue_t': ('mtx', 'added', 'removed'), 'iot_container_t': ('lock',)}
DESTROY = {'pthread_cond_destroy', 'pthread_mutex_destroy', 'pthread_rwlock_destroy'}
INTEREST = {('iot_element_t', 'next')}
PLAIN = {'iot_queue_free': 'iot_queue_t', 'iot_container_free': 'iot_container_t'}     # objects with a single owner


class DtorRule(Rule):
    name = 'dtor'
    join_at = 40
    exit_join = 40
    max_steps = 300000

    def __init__(self, prog):
        self.p = prog
        self.off = {}
        for stn, s in prog.structs.items():
            for f in s['fields']:
                self.off[(stn.replace('struct.', ''), f[0])] = f
        self.origin = {}
        self.types = {}
        self.slot = set()
        self.freed = {}
        self.decs = set()
        self.freedsites = set()
        self.checked = {}
        e = prog.enums['iot_data_type_t']
        self.E = {k.replace('IOT_DATA_', ''): v for k, v in e.items()}

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public

    def bad(self, eng, fr, inst, st, cat, msg):
        eng.report(cat, fr, inst, st, msg, key=(cat, fr.fn.name, msg))

    # ---- header bits
    def bit(self, eng, st, o, name): return self.flag(eng, st, o, 'iot_data_t', name)

    def flag(self, eng, st, o, T, name):
        f = self.off[(T, name)]
        s = st.mem.get((o, f[1]))
        if s is None: return None
        x = s if f[4] == 0 else ('op', 'lshr', s, C(f[4]))
        return eng.decide(st, ('op', 'and', x, C(1)))

    # ---- events
    def on_loaded(self, eng, st, fr, inst, ptr, val):
        if val[0] == 's':
            b, o = loc_of(ptr)
            self.origin[val] = (b, o)
            t = tag_of(ptr)
            own = t and self.off.get(t, [0, None])[1] == o
            if b[0] == 's' and own and t in INTEREST: st.ts[('ld', b, o)] = 1
            if not own: self.slot.add(val)

    def touch(self, eng, st, fr, inst, ptr):
        o = root(ptr)
        t = tag_of(ptr)
        if t and ptr[1][0] == 's': self.types.setdefault(ptr[1], set()).add(t[0])
        if ('gone', o) in st.ts:
            self.bad(eng, fr, inst, st, 'after', '%s touched after it was freed' % eng.describe(o))
        d = st.ts.get(('dec', o))
        if d is not None and t and t[1] != 'refs' and self.maybe_not_last(eng, st, d):
            self.bad(eng, fr, inst, st, 'after', '%s touched after the reference to it was given up' % eng.describe(o))

    def on_load(self, eng, st, fr, inst, ptr):
        self.touch(eng, st, fr, inst, ptr)

    def on_store(self, eng, st, fr, inst, ptr, val):
        self.touch(eng, st, fr, inst, ptr)
        t = tag_of(ptr)
        if t == ('iot_thread_t', 'pending_delete') and val != ZERO:
            for k in [k for k in st.ts if k[0] == 'dec' and 'iot_threadpool_t' in self.types.get(k[1], ())]:
                st.ts[('later', k[1])] = 1      # the running worker frees the pool

    # ---- counting
    def on_rmw(self, eng, st, fr, inst, ptr, opname, operand, old):
        o = root(ptr); t = tag_of(ptr)
        if t and t[1] == 'refs' and opname == 'sub':
            if t[0] == COMP and fr.fn.name == 'iot_component_dec_ref': return
            self.dec(eng, st, fr, inst, o, ('old', old))
            if t: self.types.setdefault(o, set()).add(t[0])

    def dec(self, eng, st, fr, inst, o, how):
        self.decs.add((fr.fn.name, inst.line))
        if ('itv', o) in st.ts: st.ts.pop(('pend', st.ts[('itv', o)]), None)
        if ('dec', o) in st.ts: self.bad(eng, fr, inst, st, 'twice', 'two references to %s given up on one path' % eng.describe(o))
        st.ts[('dec', o)] = how

    def maybe_last(self, eng, st, d):
        s = st.copy()
        return eng.set_eq(s, d[1], 1) if d[0] == 'old' else self.retset(eng, s, d[1], True)

    def retset(self, eng, s, r, truth):
        return eng.set_ne(s, r, 0) if truth else eng.set_eq(s, r, 0)

    def maybe_not_last(self, eng, st, d):
        s = st.copy()
        return eng.set_eq(s, d[1], 2) if d[0] == 'old' else self.retset(eng, s, d[1], False)

    # ---- calls
    def given(self, eng, st, v, callee):
        """v is released: remember for the field it came from"""
        if v[0] == 'p' and v[2] == 0: v = v[1]
        o = self.origin.get(v)
        if o:
            e = self.origin.get(o[0])
            if v in self.slot:
                if e: st.ts[('elem', e[0], e[1])] = 1
            else: st.ts[('rel', o[0], o[1])] = 1

    def on_call(self, eng, st, fr, inst, callee, args):
        p = self.p
        fn = p.funcs.get(callee)
        for a in args:
            if a[0] in ('s', 'p') and ('gone', root(a)) in st.ts:
                self.bad(eng, fr, inst, st, 'after', '%s passed to %s after it was freed' % (eng.describe(root(a)), callee))
            d = st.ts.get(('dec', root(a))) if a[0] in ('s', 'p') else None
            if d is not None and callee not in DESTROY and callee not in RELEASE and (fn is None or fn.public) and self.maybe_not_last(eng, st, d):
                self.bad(eng, fr, inst, st, 'after', '%s passed to %s after the reference to it was given up' % (eng.describe(root(a)), callee))
        if callee == 'iot_data_map_iter':
            st.ts[('iter', root(args[1]))] = args[0]
            return [(('void',), st)]
        if callee == 'iot_data_map_iter_next':
            it = root(args[0])
            if ('pend', it) in st.ts:
                self.bad(eng, fr, inst, st, 'kept', 'an entry of the map being emptied is not released')
            s2 = st.copy()
            st.ts[('pend', it)] = 1
            m = st.ts.get(('iter', it))
            s2.ts.pop(('pend', it), None)
            if m: s2.ts[('drained', m)] = 1
            st.note('%s: another entry' % eng.where(fr, inst)); s2.note('%s: no more entries' % eng.where(fr, inst))
            return [(C(1), st), (ZERO, s2)]
        if callee in ('iot_data_map_iter_pointer_value', 'iot_data_map_iter_value', 'iot_data_pointer'):
            r = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'entry of the map')
            it = root(args[0]) if callee != 'iot_data_pointer' else st.ts.get(('itv', args[0]))
            if it: st.ts[('itv', r)] = it
            return [(r, st)]
        if callee in DESTROY:
            b, o = loc_of(args[0])
            st.ts[('rel', b, o)] = 1
            return [(eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result'), st)]
        if callee == 'iot_component_dec_ref':
            r = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'last reference')
            self.dec(eng, st, fr, inst, root(args[0]), ('ret', r))
            return [(r, st)]
        if callee == 'iot_component_fini':
            st.ts[('rel', root(args[0]), 'fini')] = 1
            return [(('void',), st)]
        if callee in RELEASE:
            v = args[0]
            if callee == 'iot_data_free' and v in self.origin:
                b, of = self.origin[v]
                if 'iot_scheduler_t' in self.types.get(b, ()) and of in (self.off[('iot_scheduler_t', 'queue')][1], self.off[('iot_scheduler_t', 'idle')][1]):
                    self.checked.setdefault('entries of the maps of iot_scheduler_t', set()).add((fr.fn.name, inst.line))
                    if ('drained', v) not in st.ts or any(k[0] == 'pend' for k in st.ts):
                        self.bad(eng, fr, inst, st, 'kept', 'schedule map freed before its schedules were released')
            self.given(eng, st, v, callee)
            if callee in ('free', 'iot_data_block_free'): self.content(eng, st, fr, inst, v, callee)
            if callee == 'fclose': st.ts[('closed', v)] = 1
            if callee in ('free', 'iot_data_block_free') and eng.lookup(st, v) != 0 and v[0] in ('s', 'p'):
                if not (v[0] == 'p' and v[2] != 0):
                    self.destroyed(eng, st, fr, inst, root(v), callee)
            return [((('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)), st)]
        if callee in fr.stack:        # recursion: the callee does to its argument what this activation does
            for a in args:
                self.given(eng, st, a, callee)
            st.ts[('rec', callee)] = 1
            return [((('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)), st)]
        if fn is not None and fn.public:
            # contract: does not release the object; what the object refers to is unchanged
            return [((('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)), st)]
        return None

    def on_indirect(self, eng, st, fr, inst, fv, args):
        o = self.origin.get(fv)
        if o:
            st.ts[('rel', o[0], o[1])] = 1
            for a in args: self.given(eng, st, a, 'callback')
        return [((('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of callback')), st)]

    # ---- obligations
    def none(self, eng, st, o, off):
        v = st.mem.get((o, off))
        if v is not None and eng.lookup(st, v) == 0: return True
        for k, f in st.facts.items():
            if f == ('eq', 0) and self.origin.get(k) == (o, off): return True
        return False

    def need(self, eng, st, fr, inst, o, T, field, what=None):
        off = self.off[(T, field)][1]
        self.checked.setdefault('%s.%s' % (T, field), set()).add((fr.fn.name, inst.line))
        if ('rel', o, off) in st.ts or self.none(eng, st, o, off): return
        held = [k for k, v in self.origin.items() if v == (o, off) and (k in st.facts or k in eng.cur_env.values() or st.mem.get((o, off)) == k)]
        if held and st.mem.get((o, off)) in held:       # taken out before: to be released before the call ends
            st.ts[('owe', o, off)] = (T, what or field)
            return
        self.bad(eng, fr, inst, st, 'kept', '%s freed without releasing its %s' % (T, what or field))

    def destroyed(self, eng, st, fr, inst, o, callee='free'):
        self.freedsites.add((fr.fn.name, inst.line))
        T = self.types.get(o, set())
        if o in st.fresh: return
        d = st.ts.get(('dec', o))
        counted = [t for t in COUNTED if t in T]
        if counted and fr.fn.name:
            if d is None:
                if not self.flagged(eng, st):
                    self.bad(eng, fr, inst, st, 'early', '%s freed without its last reference having been given up' % counted[0])
            elif self.maybe_not_last(eng, st, d):
                self.bad(eng, fr, inst, st, 'early', '%s freed while others may still hold references' % counted[0])
        if ('gone', o) in st.ts: self.bad(eng, fr, inst, st, 'twice', '%s freed twice' % eng.describe(o))
        if 'iot_data_t' in T:
            self.data(eng, st, fr, inst, o)
        for t in ('iot_data_t', 'iot_node_t', 'iot_element_t'):
            f = self.off.get((t, 'heap'))
            if t in T and f and callee in ('free', 'iot_data_block_free'):
                self.checked.setdefault('means of releasing %s' % t, set()).add((fr.fn.name, inst.line))
                if self.flag(eng, st, o, t, 'heap') is not (callee == 'free'): self.bad(eng, fr, inst, st, 'early', '%s released by %s although it may have been allocated otherwise' % (t, callee))
        for t in T:
            for f in OWNS.get(t, ()): self.need(eng, st, fr, inst, o, t, f)
            for f in SYNC.get(t, ()): self.need(eng, st, fr, inst, o, t, f)
            for f, a in CALLED.get(t, ()):
                if t != 'iot_data_pointer_t': self.need(eng, st, fr, inst, o, t, f, '%s with the %s function' % (a, f))
            if t in HAS_COMPONENT and ('rel', o, 'fini') not in st.ts:
                self.bad(eng, fr, inst, st, 'kept', '%s freed without finalising its component part' % t)
            if t == 'iot_node_t' and any(fr.fn.name in self.p.callees.get(g, ()) and g in self.p.callees.get(g, ()) for g in fr.stack) or t == 'iot_node_t' and any(k[0] == 'rec' for k in st.ts):
                for f in ('left', 'right'): self.need(eng, st, fr, inst, o, t, f, f + ' subtree')
            if t == 'iot_element_t':
                if ('ld', o, self.off[(t, 'next')][1]) not in st.ts and self.root.name == 'iot_data_free':
                    self.bad(eng, fr, inst, st, 'kept', 'list element freed without looking at its successor')
        if o[0] == 's': st.ts[('gone', o)] = inst.line
        st.ts.pop(('dec', o), None)

    def content(self, eng, st, fr, inst, v, callee):
        """text or array data is released: only if the data owns it, and by what it was allocated with"""
        if v[0] == 'p' and v[2] == 0: v = v[1]
        o = self.origin.get(v)
        if not o or 'iot_data_t' not in self.types.get(o[0], ()) or v in self.slot and False: return
        o, of = o
        off = lambda T, f: self.off[(T, f)][1]
        if of not in (off('iot_data_value_t', 'value'), off('iot_data_array_t', 'data')): return
        E = self.E
        t = st.mem.get((o, off('iot_data_t', 'type')))
        ty = eng.lookup(st, t) if t is not None else None
        if ty is None: ty = st.ts.get(('ty', o))
        if ty not in (E['STRING'], E['ARRAY'], E['BINARY']): return
        what = 'string' if ty == E['STRING'] else 'array data'
        self.checked.setdefault('release of ' + what, set()).add((fr.fn.name, inst.line))
        if self.bit(eng, st, o, 'release') is not True: self.bad(eng, fr, inst, st, 'early', '%s released although the data may not own it' % what)
        if ty == E['STRING']:
            if ('out', o) not in st.ts: self.bad(eng, fr, inst, st, 'early', 'string released although it may lie inside the data itself')
            blk = self.bit(eng, st, o, 'release_block')
            if blk is not (callee == 'iot_data_block_free'): self.bad(eng, fr, inst, st, 'early', 'string that may %shave been allocated as a block released by %s' % ('not ' if callee == 'iot_data_block_free' else '', callee))
        elif callee != 'free': self.bad(eng, fr, inst, st, 'early', 'array data released by %s' % callee)

    def data(self, eng, st, fr, inst, o):
        E = self.E
        off = lambda T, f: self.off[(T, f)][1]
        self.need(eng, st, fr, inst, o, 'iot_data_t', 'base', 'metadata')
        t = st.mem.get((o, off('iot_data_t', 'type')))
        ty = eng.lookup(st, t) if t is not None else None
        if ty is None: ty = st.ts.get(('ty', o))
        poss = [ty] if ty is not None else [v for v in E.values() if t is None or eng.set_eq(st.copy(), t, v)]
        rel = self.bit(eng, st, o, 'release')
        if self.bit(eng, st, o, 'constant') is not False:
            self.bad(eng, fr, inst, st, 'early', 'data freed although it may be constant (static)')
        for v in poss:
            if v == E['STRING']:
                if rel is False: self.norelease(eng, st, fr, inst, o, off('iot_data_value_t', 'value'), 'string'); continue
                if ('inl', o) not in st.ts: self.need(eng, st, fr, inst, o, 'iot_data_value_t', 'value', 'string')
            elif v in (E['ARRAY'], E['BINARY']):
                if rel is False: self.norelease(eng, st, fr, inst, o, off('iot_data_array_t', 'data'), 'array data'); continue
                self.need(eng, st, fr, inst, o, 'iot_data_array_t', 'data', 'array data')
            elif v == E['VECTOR']:
                self.need(eng, st, fr, inst, o, 'iot_data_vector_t', 'values')
                vo = off('iot_data_vector_t', 'values')
                if ('elem', o, vo) not in st.ts and ('empty', o) not in st.ts:
                    self.bad(eng, fr, inst, st, 'kept', 'vector freed without releasing its elements')
            elif v == E['LIST']:
                self.need(eng, st, fr, inst, o, 'iot_data_list_t', 'tail', 'elements')
            elif v == E['MAP']:
                self.need(eng, st, fr, inst, o, 'iot_data_map_t', 'tree', 'nodes')
            elif v == E['POINTER']:
                self.need(eng, st, fr, inst, o, 'iot_data_pointer_t', 'free_fn', 'pointer with its free function')

    def norelease(self, eng, st, fr, inst, o, off, what):
        if ('rel', o, off) in st.ts:
            self.bad(eng, fr, inst, st, 'early', '%s released although the data does not own it' % what)

    def points(self, k, o, off):
        return any(x[0] == 'p' and x[1] == o and x[2] == off for x in k[2:] if isinstance(x, tuple))

    def flagged(self, eng, st):
        return 'flag' in st.ts

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if cond[0] == 'cmp' and cond[1] == 'eq' and taken and cond[3][0] == 'c' and self.origin.get(cond[2]) and cond[2][0] == 's':
            o = self.origin[cond[2]]
            if o[1] == self.off[('iot_data_t', 'type')][1] and 'iot_data_t' in self.types.get(o[0], ()): st.ts[('ty', o[0])] = cond[3][1]
        if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and taken == (cond[1] == 'eq'):      # value.str is the buffer inside the object
            for x, y in ((cond[2], cond[3]), (cond[3], cond[2])):
                o = self.origin.get(x) if x[0] == 's' else None
                if o and y[0] == 'p' and y[1] == o[0] and y[2] == self.off[('iot_data_value_t', 'buff')][1]: st.ts[('inl', o[0])] = 1
        if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and taken == (cond[1] == 'ne'):
            for x, y in ((cond[2], cond[3]), (cond[3], cond[2])):
                o = self.origin.get(x) if x[0] == 's' else None
                if o and y[0] == 'p' and y[1] == o[0] and y[2] == self.off[('iot_data_value_t', 'buff')][1]: st.ts[('out', o[0])] = 1
        a = ('s', (self.root.name,), 'arg0', '')
        if eng.lookup(st, a) == 0: st.ts[('null', a)] = 1
        s = cond
        while s[0] in ('op', 'cmp'): s = s[2]
        o = self.origin.get(s)
        if o and o[1] == self.off[('iot_thread_t', 'pending_delete')][1] and 'iot_thread_t' in self.types.get(o[0], ()):
            t = eng.decide(st, cond)
            if taken == (cond[1] == 'ne') if cond[0] == 'cmp' else taken: st.ts['flag'] = 1
        # an element loop that is left at once: the container is empty
        if cond[0] == 'cmp':
            for x in cond[2:]:
                o = self.origin.get(x) if isinstance(x, tuple) else None
                if o and o[1] == self.off[('iot_data_vector_t', 'size')][1] and eng.lookup(st, x) == 0:
                    st.ts[('empty', o[0])] = 1

    def on_ret(self, eng, st, fr, inst, val):
        for k, w in list(st.ts.items()):
            if k[0] == 'owe' and ('rel', k[1], k[2]) not in st.ts and not self.none(eng, st, k[1], k[2]):
                self.bad(eng, fr, inst, st, 'kept', '%s freed without releasing its %s' % w)
        for k, d in list(st.ts.items()):
            if k[0] == 'dec' and self.maybe_last(eng, st, d):
                if ('later', k[1]) in st.ts: pass
                elif fr.fn.name == 'iot_component_dec_ref': pass
                else:
                    self.bad(eng, fr, inst, st, 'kept', '%s is not freed when its last reference is given up' % eng.describe(k[1]))
            if k[0] == 'dec' or k[0] == 'later': self.lists(eng, st, fr, inst, k[1])
            if k[0] == 'gone': self.lists(eng, st, fr, inst, k[1])
        f = fr.fn
        if f.name in self.fclose:
            a = ('s', (f.name,), 'arg0', '')
            self.checked.setdefault('file of a file logger', set()).add((f.name, f.line if hasattr(f, 'line') else 0))
            if ('null', a) not in st.ts and ('closed', a) not in st.ts:
                self.bad(eng, fr, inst, st, 'kept', 'the file given to %s is not closed' % f.name)
        if f.name in self.must:
            a = ('s', (f.name,), 'arg0', '')
            if ('gone', a) not in st.ts and ('null', a) not in st.ts:
                self.bad(eng, fr, inst, st, 'kept', 'the object given to %s is not freed' % f.name)

    def lists(self, eng, st, fr, inst, o):
        if fr.fn.name != 'iot_threadpool_free': return
        for t in self.types.get(o, ()):
            for f in LISTS.get(t, ()):
                d = st.ts.get(('dec', o))
                if d is not None and not self.maybe_last(eng, st, d): continue
                self.checked.setdefault('%s.%s' % (t, f), set()).add((fr.fn.name, inst.line))
                if not self.none(eng, st, o, self.off[(t, f)][1]) or ('rel', o, self.off[(t, f)][1]) not in st.ts and False:
                    self.bad(eng, fr, inst, st, 'kept', '%s destroyed with jobs left in its %s list' % (t, f))


def run_dtor(prog, verbose=False):
    rule = DtorRule(prog)
    eng = Engine(prog, rule)
    roots = []
    ctxfree = {}
    fini = {'iot_component_fini'}
    grow = True
    while grow:
        new = {c for x in fini for c in prog.callers.get(x, ()) if c not in fini and not (prog.funcs[c].public)}
        grow = bool(new); fini |= new
    # destructors of logger contexts: functions given as context free function, with what the context is
    def source(f, o, seen):
        if o[0] != 'v' or o[1] in seen: return set()
        seen.add(o[1])
        i = next((i for b in f.blocks for i in b if i.id == o[1]), None)
        if i is None: return set()
        if i.op == 'call' and i.d['callee'][0] == 'fn': return {i.d['callee'][1]}
        if i.op in ('bitcast', 'phi', 'select', 'load'):
            return set().union(*[source(f, x, seen) for x in ([y for _, y in i.d['inc']] if i.op == 'phi' else i.ops)])
        return set()
    ctxtypes = {}; fclose = set(); heap = set()
    for f in prog.funcs.values():
        for b in f.blocks:
            for i in b:
                if i.op == 'call' and i.d['callee'] == ['fn', 'iot_logger_alloc_custom'] and i.ops[6][0] == 'fn':
                    g = i.ops[6][1]
                    ctxfree[g] = f.name
                    src = source(f, i.ops[5], set())
                    if src & {'fopen', 'fdopen'}: fclose.add(g)
                    if src & {'calloc', 'malloc'}:
                        heap.add(g)
                        for j in (j for bb in f.blocks for j in bb):
                            if j.op == 'getelementptr' and 'st' in j.d['gep']:
                                T = j.d['gep']['st'].replace('struct.', '')
                                if T in OWNS and 'ctx' in T: ctxtypes.setdefault(g, set()).add(T)
    for n, f in sorted(prog.funcs.items()):
        if n in ('iot_data_block_free', 'iot_data_list_free') : continue
        if n.endswith('_free') and f.public and len(f.args) == 1 and f.sig[0] == 'void' or n in ctxfree or n in prog.addr_taken and n in fini and not f.public:
            roots.append(f)
    rule.must = {f.name for f in roots if f.name in PLAIN} | heap
    rule.fclose = fclose
    rule.ctxs = ctxfree
    for f in roots:
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        rule.root = f
        st = State()
        if f.args and f.name in PLAIN: rule.types.setdefault(('s', (f.name,), 'arg0', ''), set()).add(PLAIN[f.name])
        for T in ctxtypes.get(f.name, ()): rule.types.setdefault(('s', (f.name,), 'arg0', ''), set()).add(T)
        eng.run_root(f.name, st)
    return eng, rule, roots


class AllocRule(DtorRule):
    """text and array data put into a new data value: marked for release exactly if the value owns it, and for the release that fits its allocation"""
    name = 'alloc'
    deep = 16
    exit_join = 400

    def on_branch(self, eng, st, fr, inst, cond, taken): pass

    def flag(self, eng, st, o, T, name):
        f = self.off[(T, name)]
        v = st.mem.get((o, f[1]))
        return False if v is None else self.bitof(eng, st, v, f[4])

    def bitof(self, eng, st, v, k):
        if v[0] == 'c': return bool(v[1] >> k & 1)
        if v[0] == 'cmp': return eng.decide(st, v) if k == 0 else False
        if v[0] == 'op' and len(v) > 3:
            a, b = v[2], v[3]
            if v[1] in ('or', 'and', 'xor'):
                x, y = self.bitof(eng, st, a, k), self.bitof(eng, st, b, k)
                if v[1] == 'or': return True if x or y else False if x is False and y is False else None
                if v[1] == 'and': return False if x is False or y is False else True if x and y else None
                return None if x is None or y is None else x != y
            if v[1] == 'shl' and b[0] == 'c': return False if k < b[1] else self.bitof(eng, st, a, k - b[1])
            if v[1] in ('lshr', 'ashr') and b[0] == 'c': return self.bitof(eng, st, a, k + b[1])
        if v[0] == 'op' and len(v) == 3: return self.bitof(eng, st, v[2], k)
        if v[0] == 's':
            n = eng.lookup(st, v)
            if n is not None: return bool(n >> k & 1)
            f = st.facts.get(v)
            if f and f[0] == 'ne' and 0 in f[1]: return k == 0        # a flag that is set
        return None

    def on_call(self, eng, st, fr, inst, callee, args):
        if callee == 'iot_data_alloc_block':
            r = eng.fresh_sym(st, fr, eng.cur_env, inst, 'blk', 'block')
            eng.set_ne(st, r, 0)
            st.zero = st.zero | {r}; st.fresh = st.fresh | {r}
            st.ts[('kind', r)] = 'block'
            return [(r, st)]
        if callee in ('malloc', 'calloc', 'strdup', 'strndup'):
            r = eng.fresh_sym(st, fr, eng.cur_env, inst, 'heap', 'allocated')
            eng.set_ne(st, r, 0)
            if callee == 'calloc': st.zero = st.zero | {r}
            st.fresh = st.fresh | {r}
            st.ts[('kind', r)] = 'heap'
            return [(r, st)]
        fn = self.p.funcs.get(callee)
        if fn is not None and not fn.public: return None
        return [((('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)), st)]

    def touch(self, eng, st, fr, inst, ptr): pass

    def on_load(self, eng, st, fr, inst, ptr): pass

    def on_store(self, eng, st, fr, inst, ptr, val):
        b, o = loc_of(ptr)
        t = tag_of(ptr)
        if ('kind', b) not in st.ts or not t: return
        if t in (('iot_data_value_t', 'value'), ('iot_data_array_t', 'data'), ('iot_data_value_base_t', 'value')) and inst.ops[0] and self.pointer(eng, st, val): st.ts[('put', b)] = t

    def pointer(self, eng, st, v):
        return v == ZERO or ('kind', v) in st.ts or v[0] == 'p' and ('kind', v[1]) in st.ts or v in self.ptrs

    def on_rmw(self, eng, st, fr, inst, ptr, opname, operand, old): pass

    def on_ret(self, eng, st, fr, inst, val):
        T = self.made
        if T and fr.fn is self.root and ('kind', root(val)) in st.ts:
            self.exits += 1
            self.checked.setdefault('allocation of %s' % T, set()).add((fr.fn.name, inst.line))
            if self.flag(eng, st, root(val), T, 'heap') is not (st.ts[('kind', root(val))] == 'heap'): self.bad(eng, fr, inst, st, 'alloc', '%s not marked with how it was allocated' % T)
        for k, t in list(st.ts.items()):
            if k[0] != 'put' or k[1] != root(val): continue
            o = k[1]
            v = st.mem.get((o, self.off[t][1]))
            if v is None or eng.lookup(st, v) == 0: continue
            self.exits += 1
            self.checked.setdefault('content put into a new data value', set()).add((fr.fn.name, inst.line))
            what = 'string' if 'value' in t else 'array data'
            kind = 'inline' if v[0] == 'p' and v[1] == o else st.ts.get(('kind', v)) or 'given'
            B = lambda m: self.bad(eng, fr, inst, st, 'alloc', m)
            for w in (0, 1, 2):
                s2 = st.copy()
                if self.own is not None and not eng.set_eq(s2, self.own, w): continue
                rel, blk, hp = [self.bit(eng, s2, o, n) for n in ('release', 'release_block', 'heap')]
                if hp is not (st.ts[('kind', o)] == 'heap'): B('data value not marked with how it was allocated')
                if kind == 'inline':
                    if what != 'string': B('array data inside the value itself')
                elif kind == 'given':
                    if w == 0: B('%s that was to be copied is not' % what)
                    elif rel is not (w == 1): B('%s that was %s is %smarked for release' % (what, 'handed over' if w == 1 else 'only referenced', '' if w == 2 else 'not '))
                    if w == 1 and blk is not False: B('%s that was handed over is marked as a block' % what)
                else:
                    if rel is not True: B('copied %s not marked for release' % what)
                    if blk is not (kind == 'block'): B('copied %s marked for the wrong kind of release' % what)
                if w in (1, 2) and kind != 'given': B('%s that was %s is replaced by a copy' % (what, 'handed over' if w == 1 else 'only referenced'))


def run_alloc(prog, verbose=False):
    rule = AllocRule(prog)
    eng = Engine(prog, rule)
    roots = [f for n, f in sorted(prog.funcs.items()) if f.public and f.file.endswith('data.c') and n.startswith('iot_data_alloc') and 'const' not in n]
    roots += [f for n, f in sorted(prog.funcs.items()) if not f.public and f.file.endswith('data.c') and any(i.op == 'call' and i.d['callee'] == ['fn', 'calloc'] for b in f.blocks for i in b) and n != 'iot_data_alloc_block']
    rule.exits = 0
    for f in roots:
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        rule.root = f
        A = lambda i: ('s', (f.name,), 'arg%d' % i, '')
        rule.ptrs = {A(i) for i, a in enumerate(f.args) if a[1] == 'ptr'}
        own = [i for i, a in enumerate(f.args) if a[3] == 'iot_data_ownership_t']
        rule.own = A(own[-1]) if own else None
        T = f.sig[0].rstrip('*').rstrip()
        rule.made = T if not f.public and (T, 'heap') in rule.off else None
        eng.run_root(f.name, State())
    return eng, rule, roots


if __name__ == '__main__':
    import sys, ir
    p = ir.load('debug')
    eng, rule, roots = run_dtor(p)
    for r in eng.reports:
        print('%s:%s %s [%s] %s   %s' % (r['file'].split('/')[-1], r['line'], r['function'], r['rule'], r['message'], '>'.join(r['callstack'][1:])))
        if len(sys.argv) > 1:
            for x in r['path']: print('      ', x)
    print([f.name for f in roots]); print(rule.decs, rule.freedsites); print({k: len(v) for k, v in rule.checked.items()})
