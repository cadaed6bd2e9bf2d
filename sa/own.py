"""Linear reference accounting: every unit of ownership (a data reference, a heap block, a stream, ...) obtained on a path
is given back, handed over by contract, stored in an owning field or returned - exactly once - on that path."""
from engine import *

DATA = 'data'
# which parameters a public function takes over (index -> kind)
CONSUME = {
    'iot_data_free': (0,), 'iot_data_map_add': (1, 2), 'iot_data_string_map_add': (2,), 'iot_data_vector_add': (2,),
    'iot_data_list_head_push': (1,), 'iot_data_list_tail_push': (1,), 'iot_data_list_iter_replace': (1,), 'iot_data_map_iter_replace_value': (1,),
    'iot_data_vector_iter_replace_value': (1,), 'iot_data_set_metadata': (1,), 'iot_data_add_at': (2,), 'iot_queue_enqueue': (1,),
}
COND_CONSUME = {'iot_data_map_add_unused': (1, 2), 'iot_queue_try_enqueue': (1,)}          # only if it returns true
ALIAS = {'iot_data_add_ref': 0}
BORROW_RET = {n: 0 for n in ('iot_data_alloc_const_%s' % t for t in ('i8', 'ui8', 'i16', 'ui16', 'i32', 'ui32', 'i64', 'ui64', 'string', 'pointer', 'list'))}
TAKE = {'iot_data_alloc_string': (0, 1), 'iot_data_alloc_array': (0, 3), 'iot_data_alloc_binary': (0, 2)}
OWN_TAKE = 1
HEAP_RET = {'malloc', 'calloc', 'strdup', 'strndup', 'iot_strdup', 'iot_data_to_json', 'iot_data_to_json_with_size', 'iot_data_to_json_with_buffer', 'iot_file_read', 'iot_file_read_binary',
            'iot_data_binary_take', 'iot_config_substitute_env', 'iot_data_to_xml', 'iot_data_to_xml_with_size', 'iot_store_config_load', 'iot_file_config_load'}
FREE = {'free': 'heap', 'fclose': 'FILE', 'closedir': 'DIR', 'close': 'fd', 'iot_data_block_free': 'heap'}
ACQ = {'fopen': 'FILE', 'opendir': 'DIR', 'socket': 'fd', 'open': 'fd', 'iot_data_block_alloc': 'heap'}
ACQ_ARG = {'regcomp': (0, 'regex', 'zero'), 'yaml_parser_initialize': (0, 'yaml parser', 'always'), 'yaml_parser_parse': (1, 'yaml event', 'nonzero')}
REL_ARG = {'regfree': (0, 'regex'), 'yaml_parser_delete': (0, 'yaml parser'), 'yaml_event_delete': (0, 'yaml event')}
# fields that hold a unit
OWNF = {
    ('iot_node_t', 'key'): DATA, ('iot_node_t', 'value'): DATA, ('iot_element_t', 'value'): DATA,
    ('iot_container_t', 'components'): DATA, ('iot_container_t', 'name'): 'heap', ('iot_queue_t', 'queue'): DATA,
    ('iot_scheduler_t', 'queue'): DATA, ('iot_scheduler_t', 'idle'): DATA, ('iot_threadpool_t', 'thread_array'): 'heap',
    ('iot_logger_impl_t', 'name'): 'heap',
}
EXF = {('iot_data_vector_t', 'values'), ('iot_data_array_t', 'data'), ('iot_data_t', 'base'), ('iot_component_t', 'config'), ('iot_component_t', 'name')}
FINI = {'iot_component_fini': (('iot_component_t', 'name', 'heap'), ('iot_component_t', 'config', DATA))}
RAWCONS = {'iot_logger_alloc_custom'}
ALLOC_IF = {'iot_config_string': 2, 'iot_config_string_default': 3}
POPS = ('iot_data_list_head_pop', 'iot_data_list_tail_pop')
SLOTF = {('iot_data_vector_t', 'values')}
STRUCTURAL = {'iot_element_t', 'iot_node_t'}
STRICT = True
GETTERS_DERIVE = ('iot_data_string', 'iot_data_pointer', 'iot_data_address', 'iot_data_array_get')


class OwnRule(Rule):
    name = 'own'
    join_at = 12
    exit_join = 12
    max_steps = 600000

    def __init__(self, prog):
        self.p = prog
        self.origin = {}      # symbol -> (object, offset, tag) it was loaded from
        self.types = {}       # symbol -> struct names accessed through it
        self.born = {}        # symbol -> text
        self.slots = set()    # array symbols whose slots own references
        self.acq = {}
        self.rel = {}
        self.con = {}
        self.exits = 0
        self.off = {}
        for stn, s in prog.structs.items():
            for f in s['fields']:
                self.off[(stn.replace('struct.', ''), f[0])] = f[1]
        self.root = None
        owners = set()
        for f in prog.funcs.values():
            for b in f.blocks:
                for i in b:
                    if i.op == 'store' and i.ops[1][0] in ('v', 'cgep'):
                        d = f.insts.get(i.ops[1][1]) if i.ops[1][0] == 'v' else None
                        if d is not None and d.op == 'getelementptr' and 'st' in d.d['gep']:
                            g = d.d['gep']; t = (g['st'].replace('struct.', '').replace('union.', ''), prog.field(g['st'], g['fo']))
                            if t in OWNF or t in EXF: owners.add(f.name)
        from ir import reach
        special = set(FREE) | set(ACQ) | set(ACQ_ARG) | set(REL_ARG) | HEAP_RET | set(CONSUME) | set(COND_CONSUME) | set(ALIAS) | {'realloc', 'iot_data_free'} | set(TAKE) | owners
        datas = {n for n, f in prog.funcs.items() if f.public and f.sig and f.sig[0].replace(' ', '') == 'iot_data_t*'}
        self.rel_fns = reach(prog, lambda n: n in special or n in datas)

    # ------------------------------------------------------------ helpers
    def ignorable(self, v):
        return not (v[0] == 's' or (v[0] == 'p' and v[2] == 0 and v[1][0] == 's'))

    def cnt(self, st, v):
        return st.ts.get(('rc', v), 0)

    def add(self, st, v, d, kind=None):
        if v[0] == 'p' and v[2] == 0: v = v[1]
        if v[0] != 's': return
        n = max(-3, min(3, self.cnt(st, v) + d))
        if n: st.ts[('rc', v)] = n
        else: st.ts.pop(('rc', v), None)
        if kind and ('kd', v) not in st.ts and n > 0: st.ts[('kd', v)] = kind
        if n != 0:
            o = self.origin.get(v)
            if o and ('fld', v) not in st.ts: st.ts[('fld', v)] = o
        else:
            st.ts.pop(('fld', v), None)

    def bad(self, eng, fr, inst, st, cat, msg, kind=DATA):
        eng.report(cat, fr, inst, st, msg, key=(cat, fr.fn.name if fr else '', msg), extra=kind)

    def nm(self, eng, v):
        o = self.origin.get(v)
        if o and o[2]: return '%s.%s' % o[2]
        return eng.describe(v)

    # ------------------------------------------------------------ inlining: public functions by contract
    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.name in self.rel_fns

    # ------------------------------------------------------------ use of dead values
    def is_dead(self, st, v):
        seen = 0
        r = root(v)
        while seen < 8:
            seen += 1
            if self.cnt(st, r) > 0 or ('kept', r) in st.ts: return None
            if ('dead', r) in st.ts: return r
            f = st.ts.get(('from', r))
            if f is None: return None
            r = f
        return None

    def use(self, eng, st, fr, inst, v, how):
        if v[0] not in ('s', 'p') or root(v)[0] != 's': return
        d = self.is_dead(st, v)
        if d is not None:
            self.bad(eng, fr, inst, st, 'uaf', '%s %s after it was released (released at line %s)' % (self.nm(eng, root(v)), how, st.ts[('dead', d)]), st.ts.get(('kd', d), DATA))

    def on_load(self, eng, st, fr, inst, ptr):
        t = tag_of(ptr)
        if t: self.types.setdefault(ptr[1], set()).add(t[0])
        self.use(eng, st, fr, inst, ptr, 'read')

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        if val[0] == 's':
            t = tag_of(ptr)
            loc = loc_of(ptr)
            if loc[0][0] in ('s', 'g') and val[1] == fr.ctx and val[2] == inst.id:
                self.origin[val] = (loc[0], loc[1], t)
                if t in SLOTF: self.slots.add(val)

    def on_store(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        if t: self.types.setdefault(ptr[1], set()).add(t[0])
        self.use(eng, st, fr, inst, ptr, 'written')
        loc = loc_of(ptr)
        b = loc[0]
        if t == ('iot_data_vector_t', 'size'):
            for k in [k for k in st.ts if k[0] == 'drain' and self.origin.get(k[1], (None,))[0] == b]: del st.ts[k]
        if b in self.slots and ('drain', b) in st.ts:
            del st.ts[('drain', b)]
            self.give(st, val)
            return
        if b[0] == 'a':
            return
        if b in self.slots and (val == ZERO or eng.lookup(st, val) == 0 or self.origin.get(val, (None,))[0] == b):
            old = st.mem.get(loc)      # elements of one vector change places
            if old is None: old = self.slot_old(eng, st, fr, b, loc, val)
            if val[0] == 's': st.ts[('kept', val)] = 1
            if old is not None and old[0] == 's' and (self.cnt(st, old) < 0 or eng.lookup(st, val) == 0 and ('kept', old) not in st.ts and eng.lookup(st, old) != 0):
                self.add(st, old, +1)
            return
        owning = t in OWNF or t in EXF or (b in self.slots and t is None) or (b[0] == 's' and b in self.slots)
        old = st.mem.get(loc)
        if old is None and b in st.zero: old = ZERO
        if old is None:
            # content loaded earlier and since forgotten
            for k, o in st.ts.items():
                if k[0] == 'fld' and (o[0], o[1]) == (b, loc[1]): old = k[1]; break
        if old is None and b in self.slots: old = self.slot_old(eng, st, fr, b, loc, val)
        if owning:
            if old is not None and not self.ignorable(old) and eng.lookup(st, old) != 0 and old != val:
                self.add(st, old, +1, DATA if t in OWNF and OWNF[t] == DATA or b in self.slots else 'heap')
                self.origin.setdefault(old, (b, loc[1], t))
            elif old is None and t in OWNF and b not in st.fresh:
                s = eng.fresh_sym(st, fr, eng.cur_env if hasattr(eng, 'cur_env') else {}, inst, 'oldf', 'previous %s' % t[1])
                st.mem[loc] = s
                if self.cnt(st, s) == 0: self.add(st, s, +1, OWNF[t])
                self.born[s] = 'previous value of %s.%s' % t
            if old != val: self.give(st, val)
        elif self.cnt(st, val) > 0:
            self.give(st, val)
        elif t is None and old is not None and self.cnt(st, old) < 0:
            self.add(st, old, +1)
        elif old is not None and old[0] == 's' and self.cnt(st, old) < 0:
            self.add(st, old, +1)      # the field is cleared after its content was released

    def slot_old(self, eng, st, fr, b, loc, val):
        """the element of a vector slot that was loaded through the same (symbolic) index and is now replaced"""
        for v, o in self.origin.items():
            if o[0] == b and o[1] == loc[1] and v != val and v[1] == fr.ctx and eng.mentions(st, v) and ('dead', v) not in st.ts: return v

    def give(self, st, v):
        """one unit of v moves out of this function's hands (stored or consumed)"""
        if self.ignorable(v): return
        self.add(st, v, -1)
        if self.cnt(st, v) >= 0: st.ts[('kept', v)] = 1

    # ------------------------------------------------------------ calls
    def newunit(self, eng, st, fr, inst, kind, callee):
        s = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)
        self.add(st, s, +1, kind)
        st.ts[('kd', s)] = kind
        self.born[s] = '%s (line %d)' % (callee, inst.line)
        self.acq.setdefault(kind, set()).add((fr.fn.name, inst.line))
        return s

    def release(self, eng, st, fr, inst, v, kind, callee):
        self.rel.setdefault(kind, set()).add((fr.fn.name, inst.line))
        if v[0] == 'p' and v[2] == 0: v = v[1]
        if v[0] == 'c' or eng.lookup(st, v) == 0: return
        if root(v)[0] in ('a', 'g'):
            if kind != DATA and not v[0] == 's': self.bad(eng, fr, inst, st, 'release', 'release of something that is not on the heap (%s)' % callee, kind)
            return
        k = st.ts.get(('kd', v))
        if k and k != kind and not (k == DATA and fr.fn.unit == 'data.c'):
            self.bad(eng, fr, inst, st, 'mismatch', '%s obtained as %s is released with %s' % (self.nm(eng, v), k, callee), k if kind == DATA else kind)
        if ('dead', v) in st.ts and self.cnt(st, v) <= 0:
            self.bad(eng, fr, inst, st, 'double', '%s released again by %s' % (self.nm(eng, v), callee), kind)
            return
        o = self.origin.get(v)
        if o and o[0] in self.slots and self.cnt(st, v) == 0:
            st.ts[('drain', o[0])] = 1
            return
        had = self.cnt(st, v)
        if had <= 0 and ('kept', v) in st.ts and ('kd', v) in st.ts:
            # handed over earlier and now released: only right if the receiving field gives it back later
            pass
        self.add(st, v, -1)
        if had == 1 and ('kept', v) not in st.ts and v in self.born:
            st.ts[('dead', v)] = inst.line
        if kind != DATA and v not in self.born: st.ts[('hp', v)] = 1
        if kind == 'heap':
            self.freed_object(eng, st, fr, inst, v)
            st.ts.pop(('drain', v), None)

    def freed_object(self, eng, st, fr, inst, o):
        """the owning fields of a freed object hand their units back to this function"""
        done = set()
        for S in self.types.get(o, ()):
            for (T, f), kind in OWNF.items():
                if T != S: continue
                off = self.off.get((T, f))
                c = st.mem.get((o, off))
                if c is None and o in st.zero: c = ZERO
                if c is None:
                    for k, q in st.ts.items():
                        if k[0] == 'fld' and (q[0], q[1]) == (o, off): c = k[1]; break
                if c is None:
                    c = eng.fresh_sym(st, fr, eng.cur_env, inst, 'fld-' + f, '%s.%s' % (T, f))
                    self.born[c] = 'field %s.%s of the freed object' % (T, f)
                if not self.ignorable(c) and eng.lookup(st, c) != 0:
                    self.add(st, c, +1, kind); done.add(c)
        for k, q in list(st.ts.items()):
            if k[0] == 'fld' and q[0] == o and k[1] not in done and self.cnt(st, k[1]) < 0:
                self.add(st, k[1], +1)
        for k, c in list(st.mem.items()):
            if k[0] == o and c not in done and c[0] == 's' and self.cnt(st, c) < 0:
                self.add(st, c, +1)

    def consume(self, eng, st, fr, inst, v, callee):
        self.con.setdefault(callee, set()).add((fr.fn.name, inst.line))
        if v[0] == 'p' and v[2] == 0: v = v[1]
        if v[0] == 'c': return
        if root(v)[0] == 'a':
            self.bad(eng, fr, inst, st, 'stack', 'stack object handed over to %s' % callee)
            return
        if self.ignorable(v): return
        if self.cnt(st, v) <= 0 and v in self.born and ('kept', v) in st.ts:
            self.bad(eng, fr, inst, st, 'double', '%s handed over twice (%s)' % (self.nm(eng, v), callee))
            return
        self.give(st, v)

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        if fn is not None and not fn.public and callee not in fr.stack:
            return None
        if callee in ('memset',): return None
        if callee in ('realloc',):
            old = args[0]
            self.use(eng, st, fr, inst, old, 'reallocated')
            if not (old[0] == 'c' or eng.lookup(st, old) == 0) and not self.ignorable(old):
                self.add(st, old, -1)
                st.ts.pop(('drain', old), None)
            s = self.newunit(eng, st, fr, inst, 'heap', callee)
            eng.set_ne(st, s, 0)
            if old in self.slots: self.slots.add(s)
            return [(s, st)]
        if callee in FREE or callee == 'iot_data_free':
            self.release(eng, st, fr, inst, args[0], FREE.get(callee, DATA), callee)
            if callee == 'iot_data_free' and args[0][0] == 's' : pass
            return [((('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)), st)]
        for a in args:
            self.use(eng, st, fr, inst, a, 'passed to ' + callee)
        if callee in ALIAS:
            v = args[0]
            if not self.ignorable(v) and eng.lookup(st, v) != 0: self.add(st, v, +1, DATA)
            self.acq.setdefault('data (further reference)', set()).add((fr.fn.name, inst.line))
            return [(v, st)]
        if callee in BORROW_RET:
            eng.havoc_obj(st, root(args[0]))
            return [(args[0], st)]
        if callee in ACQ_ARG:
            ai, kind, ok = ACQ_ARG[callee]
            ret = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)
            eng.havoc_obj(st, root(args[ai]))
            self.acq.setdefault(kind, set()).add((fr.fn.name, inst.line))
            s2 = st.copy()
            if ok == 'always':
                st.ts[('rc', ('ra', kind, root(args[ai])))] = 1
                return [(ret, st)]
            if ok == 'zero':
                eng.set_ne(s2, ret, 0); eng.set_eq(st, ret, 0)
            else:
                eng.set_eq(s2, ret, 0); eng.set_ne(st, ret, 0)
            k = ('rc', ('ra', kind, root(args[ai])))
            st.ts[k] = min(2, st.ts.get(k, 0) + 1)
            if st.ts[k] > 1: self.bad(eng, fr, inst, st, 'leak', '%s acquired again before it was released' % kind, kind)
            return [(ret, st), (ret, s2)]
        if callee in REL_ARG:
            ai, kind = REL_ARG[callee]
            k = ('rc', ('ra', kind, root(args[ai])))
            self.rel.setdefault(kind, set()).add((fr.fn.name, inst.line))
            if k not in st.ts:
                if root(args[ai])[0] == 'a': self.bad(eng, fr, inst, st, 'double', '%s released without having been acquired' % kind, kind)
            else:
                del st.ts[k]
            return [(('void',), st)]
        kind = None
        if callee in TAKE:
            pi, oi = TAKE[callee]
            if args[oi] == C(OWN_TAKE): self.consume(eng, st, fr, inst, args[pi], callee)
        elif callee == 'iot_data_alloc_pointer':
            if args[1][0] == 'fn' and not self.ignorable(args[0]) and self.cnt(st, args[0]) > 0: self.give(st, args[0])
        elif callee in RAWCONS:
            for a in args:
                if not self.ignorable(a) and self.cnt(st, a) > 0: self.give(st, a)
        elif callee == 'iot_data_to_json_with_buffer':
            self.consume(eng, st, fr, inst, args[1], callee)
        for pi in CONSUME.get(callee, ()):
            self.consume(eng, st, fr, inst, args[pi], callee)
        if callee in COND_CONSUME:
            ret = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)
            s2 = st.copy()
            eng.set_eq(s2, ret, 0); eng.set_ne(st, ret, 0)
            for pi in COND_CONSUME[callee]: self.consume(eng, st, fr, inst, args[pi], callee)
            return [(ret, st), (ret, s2)]
        if callee in ('malloc', 'calloc'):
            s = self.newunit(eng, st, fr, inst, 'heap', callee)
            st.fresh = st.fresh | {s}
            if callee == 'calloc': st.zero = st.zero | {s}
            eng.set_ne(st, s, 0)
            return [(s, st)]
        if callee in ACQ:
            s = self.newunit(eng, st, fr, inst, ACQ[callee], callee)
            return [(s, st)]
        if fn is not None and fn.sig and fn.sig[0].replace(' ', '') == 'iot_data_t*':
            s = self.newunit(eng, st, fr, inst, DATA, callee)
            if 'alloc' in callee and 'from' not in callee: eng.set_ne(st, s, 0)
            self.effects(eng, st, fr, inst, callee, args)
            return [(s, st)]
        if callee in HEAP_RET or callee in ALLOC_IF and args[ALLOC_IF[callee]] != ZERO:
            s = self.newunit(eng, st, fr, inst, 'heap', callee)
            if callee in ALLOC_IF and args[ALLOC_IF[callee]][0] != 'c': self.add(st, s, -1)
            self.effects(eng, st, fr, inst, callee, args)
            return [(s, st)]
        if fn is not None and (fn.public or callee in fr.stack):
            if inst.ty == 'ptr' and args:
                ret = eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee)
                self.effects(eng, st, fr, inst, callee, args)
                self.derive(eng, st, ret, callee, args)
                return [(ret, st)]
            if callee in fr.stack:
                self.effects(eng, st, fr, inst, callee, args)
                return [(eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee) if inst.ty != 'void' else ('void',), st)]
            if callee in ('iot_data_map_iter', 'iot_data_list_iter', 'iot_data_vector_iter', 'iot_data_array_iter'):
                if root(args[0])[0] == 's': st.ts[('it', root(args[1]))] = root(args[0])
        return None

    def effects(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        for n, a in enumerate(args):
            if a[0] in ('a', 'p', 's', 'g'):
                if fn is not None and n + 1 < len(fn.sig) and fn.sig[n + 1].startswith('const '): continue
                r = root(a)
                if r[0] in ('a', 's'):
                    keep = [(k, v) for k, v in st.mem.items() if k[0] == r and v[0] == 's' and self.cnt(st, v) > 0]
                    eng.havoc_obj(st, r)
                    for k, v in keep: st.mem[k] = v      # the callee keeps owned buffers where they are

    def derive(self, eng, st, ret, callee, args):
        r = root(args[0])
        if ('it', r) in st.ts: st.ts[('from', ret)] = st.ts[('it', r)]
        elif r[0] == 's' and callee.startswith('iot_data_'): st.ts[('from', ret)] = r

    def on_indirect(self, eng, st, fr, inst, fv, args):
        for a in args:
            self.use(eng, st, fr, inst, a, 'passed to a callback')
        if inst.ty == 'ptr' and fr.fn.name == 'iot_data_update_at':
            return [(self.newunit(eng, st, fr, inst, DATA, 'update function'), st)]
        return None

    # ------------------------------------------------------------ bookkeeping
    def on_forget(self, eng, st, sym):
        n = self.cnt(st, sym)
        if n and eng.lookup(st, sym) != 0:
            self.unbalanced(eng, st, self.cur, None, sym, n)

    def prune(self, eng, st, env, fr, inst):
        self.cur = fr
        n = len(fr.ctx)
        # sizes and positions do not matter to ownership: keep paths from differing in them
        for k in [k for k in st.facts if k[0] == 'cmp' and k[1] in ('ult', 'ule', 'slt', 'sle', 'ugt', 'uge', 'sgt', 'sge')]: del st.facts[k]
        for k in [k for k, v in st.mem.items() if v[0] == 'op']: del st.mem[k]
        self.names(eng, st, env)
        live = None
        for k in list(st.ts):
            if k[0] in ('from', 'dead', 'kept', 'kd', 'it', 'fld', 'drain', 'hp'):
                s = k[1]
                if k[0] in ('kd', 'kept', 'dead', 'fld', 'hp') and ('rc', s) in st.ts: continue
                if s[0] not in ('s', 'a') or s[1][:n] != fr.ctx: continue
                if live is None:
                    live = set()
                    for v in env.values(): syms(v, live)
                    for a, v in st.mem.items():
                        syms(v, live)
                    for q, v in st.ts.items():
                        if q[0] in ('from', 'it'): syms(v, live)
                if s not in live and k[0] != 'drain': del st.ts[k]
            elif k[0] == 'rc' and k[1][0] == 's' and eng.lookup(st, k[1]) == 0:
                del st.ts[k]
            elif k[0] == 'rc' and k[1][0] == 's' and st.ts.get(('kd', k[1])) == 'fd' and eng.lookup(st, k[1]) == -1:
                del st.ts[k]

    def names(self, eng, st, env):
        """a unit held in a field of a stack object is named after that field, so that paths agree on it"""
        for (b, off), v in list(st.mem.items()):
            if b[0] == 'a' and v[0] == 's' and isinstance(off, int) and self.cnt(st, v) > 0 and st.ts.get(('kd', v)) == 'heap':
                L = ('s', b[1], ('slot', b[2], off), '')
                if v == L or v[2] == L[2] and v[1] == L[1]: continue
                if eng.mentions(st, L):
                    old = ('s', L[1], L[2], '~')
                    if eng.mentions(st, old):
                        self.on_forget(eng, st, old); eng.drop(st, old)
                    eng.rename(st, L, old)
                    for k in env: env[k] = subst(env[k], L, old)
                eng.desc.setdefault(L, eng.desc.get(b, 'local') + ' buffer')
                self.born.setdefault(L, self.born.get(v))
                eng.rename(st, v, L)
                for k in env: env[k] = subst(env[k], v, L)

    def const_tested(self, eng, st, v):
        for k, f in st.facts.items():
            if f[0] in ('ne', 'b') or f[0] == 'eq' and f[1] != 0:
                ss = set(); syms(k, ss)
                if any(self.origin.get(x, (None, None, None))[0] == v for x in ss if x != v): return True
        return False

    def raw(self, st, v):
        return st.ts.get(('kd', v)) != DATA and not self.datasym(v)

    def datasym(self, v):
        if v[0] == 's' and isinstance(v[2], str) and v[2].startswith('arg'):
            f = self.p.funcs.get(v[1][0])
            return f is not None and f.args[int(v[2][3:])][3].replace(' ', '').replace('const', '') == 'iot_data_t*'
        o = self.origin.get(v)
        if o: return OWNF.get(o[2]) == DATA or o[0] in self.slots or o[2] in (('iot_data_t', 'base'), ('iot_component_t', 'config'))
        return True

    def unbalanced(self, eng, st, fr, inst, v, n):
        o = st.ts.get(('fld', v)) or self.origin.get(v)
        if n < 0:
            if o and o[0] in self.slots:
                st.ts[('drain', o[0])] = 1
                return
            if v not in self.born and ('hp', v) in st.ts: return      # heap block of a data structure, released by its owner
            self.badx(eng, st, fr, inst, 'over', '%s released or handed over without a reference of its own' % self.nm(eng, v), st.ts.get(('kd', v), DATA))
        else:
            k = st.ts.get(('kd', v), 'reference')
            b = self.born.get(v)
            if b is None and o is not None and o[2] and o[2][0] in STRUCTURAL and not STRICT: return
            self.badx(eng, st, fr, inst, 'leak', '%s%s is neither released, stored nor returned' % (self.nm(eng, v), ' (%s)' % k), k if k != 'reference' else DATA)

    def badx(self, eng, st, fr, inst, cat, msg, kind=DATA):
        fn = fr.fn.name if fr else '?'
        key = (cat, fn, msg)
        class I: pass
        i = inst
        if i is None:
            i = I(); i.line = fr.fn.line; i.file = fr.fn.file
        eng.report(cat, fr, i, st, msg, key=key, extra=kind)

    def on_ret(self, eng, st, fr, inst, val):
        self.exits += 1
        f = fr.fn
        v = val
        if v[0] == 'p' and v[2] == 0: v = v[1]
        rt = f.sig[0].replace(' ', '') if f.sig else ''
        counts = {k[1]: n for k, n in st.ts.items() if k[0] == 'rc'}
        if rt == 'iot_data_t*' and f.name not in BORROW_RET:
            if not self.ignorable(v) and eng.lookup(st, v) != 0:
                counts[v] = counts.get(v, 0) - 1
        elif rt and (not rt.startswith('const') or f.name in ALLOC_IF) and rt.endswith('*'):
            if counts.get(v, 0) > 0: counts[v] -= 1
        for (T, fl, kind) in FINI.get(f.name, ()):
            o = ('s', (f.name,), 'arg0', '')
            c = st.mem.get((o, self.off[(T, fl)]))
            if c is None:
                for k, q in st.ts.items():
                    if k[0] == 'fld' and (q[0], q[1]) == (o, self.off[(T, fl)]): c = k[1]
            if c is None: self.badx(eng, st, fr, inst, 'leak', 'field %s.%s of the finalised object is not released' % (T, fl))
            elif eng.lookup(st, c) != 0: counts[c] = counts.get(c, 0) + 1
        if f.name in ALIAS or f.name == 'iot_data_free': counts.pop(('s', (f.name,), 'arg0', ''), None)
        if f.name == 'iot_data_copy' and self.const_tested(eng, st, v): counts.pop(v, None)
        pops = [x for x, n in counts.items() if n == 1 and self.born.get(x, '').startswith(POPS)]
        vals = [x for x, n in counts.items() if n == -1 and self.origin.get(x, (0, 0, None))[2] == ('iot_element_t', 'value')]
        for x, y in zip(pops, vals): counts[x] = counts[y] = 0     # the popped value is the element's value
        for pi in self.cond_args(f):
            a = ('s', (f.name,), 'arg%d' % pi, '')
            if counts.get(a) == 1 and eng.decide(st, val) is False: counts[a] = 0
            if counts.get(a) == 1 and f.name in self.lenient_args: counts[a] = 0
        for v, n in counts.items():
            if n == 0: continue
            if v[0] == 'ra':
                self.badx(eng, st, fr, inst, 'leak', '%s is not released' % v[1], v[1]); continue
            if v[0] == 's' and eng.lookup(st, v) == 0: continue
            if v[0] == 's' and st.ts.get(('kd', v)) == 'fd' and eng.lookup(st, v) == -1: continue
            if v[0] == 'a': continue
            if f.name in TAKE and v == ('s', (f.name,), 'arg%d' % TAKE[f.name][0], ''): continue
            if v == ('s', (f.name,), 'arg0', '') and f.name == 'iot_data_free': continue
            self.unbalanced(eng, st, fr, inst, v, n)
        for k in st.ts:
            if k[0] == 'drain': self.badx(eng, st, fr, inst, 'over', 'elements released but still held by the vector')

    lenient_args = ('iot_data_set_metadata',)

    def cond_args(self, f):
        if f.name in self.lenient_args: return CONSUME[f.name]
        return COND_CONSUME.get(f.name, ()) or (CONSUME.get(f.name, ()) if f.sig and f.sig[0] != 'void' else ())

    def start(self, eng, f):
        st = State()
        for pi in CONSUME.get(f.name, ()) + COND_CONSUME.get(f.name, ()):
            a = ('s', (f.name,), 'arg%d' % pi, '')
            st.ts[('rc', a)] = 1; st.ts[('kd', a)] = DATA
        if f.name == 'iot_data_to_json_with_buffer':
            a = ('s', (f.name,), 'arg1', '')
            st.ts[('rc', a)] = 1; st.ts[('kd', a)] = 'heap'; self.born[a] = 'buffer taken over'
        return st


def run_own(prog, units=None, only=None, verbose=False):
    rule = OwnRule(prog)
    eng = Engine(prog, rule)
    roots = []
    for n, f in sorted(prog.funcs.items()):
        if only and n not in only: continue
        if units and f.unit not in units: continue
        if f.unit.startswith('yxml') : continue
        if f.public or n in prog.addr_taken or n.endswith('_init') and f.internal:
            roots.append(f)
    rule.roots = roots
    import time
    for f in roots:
        eng.memo = {}
        eng.steps = 0
        t = time.time()
        eng.cur_env = {}
        rule.cur = None
        eng.run_root(f.name, rule.start(eng, f))
        if verbose and time.time() - t > 1: print('%-40s %.1fs' % (f.name, time.time() - t))
    return eng, rule, roots


if __name__ == '__main__':
    import sys, ir
    p = ir.load('debug')
    eng, rule, roots = run_own(p, only=sys.argv[1:] or None, verbose=True)
    for r in eng.reports:
        print('%s:%s %s [%s] %s   %s' % (r['file'].split('/')[-1], r['line'], r['function'], r['rule'], r['message'], '>'.join(r['callstack'][1:])))
        if sys.argv[1:]:
            for x in r['path']: print('      ', x)
    print(len(roots), 'roots', rule.exits, 'exits', {k: len(v) for k, v in rule.acq.items()}, {k: len(v) for k, v in rule.rel.items()})
