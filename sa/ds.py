"""Data values: the cached hash always describes the content (D01)."""
from engine import *

EXPORT_ROOTS = None


def strip(s):
    return ('s', s[1], s[2], s[3].rstrip('~')) if s[0] == 's' and isinstance(s[3], str) else s


class Base(Rule):
    join_at = 60
    exit_join = 60
    max_steps = 250000
    SRC = 'data.c'

    def __init__(self, prog):
        self.p = prog
        self.off = {}
        for stn, s in prog.structs.items():
            for f in s['fields']:
                self.off[(stn.replace('struct.', '').replace('union.', ''), f[0])] = f
        self.origin = {}
        self.exits = 0
        e = prog.enums['iot_data_type_t']
        self.E = {k.replace('IOT_DATA_', ''): v for k, v in e.items()}
        self.types = {}
        self.keep = ()

    def o(self, T, f):
        return self.off[(T, f)][1]

    def bad(self, eng, fr, inst, st, cat, msg, fn=None):
        eng.report(cat, fr, inst, st, msg, key=(cat, fr.fn.name, msg))

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        if val[0] == 's':
            b, o = loc_of(ptr)
            self.origin.setdefault(val, (b, o, tag_of(ptr)))

    def live_syms(self, st, out):
        Rule.live_syms(self, st, out)
        if self.root.name in self.keep:
          for i in range(len(self.root.args)): out.add(('s', (self.root.name,), 'arg%d' % i, ''))

    def org(self, v):
        return self.origin.get(strip(v)) if v[0] == 's' else None

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file.endswith(self.SRC)

    def on_indirect(self, eng, st, fr, inst, fv, args):
        return [((('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of callback')), st)]


CONT = {'iot_data_list_t': 'list', 'iot_element_t': 'list', 'iot_data_map_t': 'map', 'iot_node_t': 'map', 'iot_data_vector_t': 'vector'}
VALUE = {('iot_data_value_t', 'value'), ('iot_data_value_base_t', 'value'), ('iot_data_pointer_t', 'value'), ('iot_data_array_t', 'data')}
SLOT = {('iot_element_t', 'value'), ('iot_node_t', 'value'), ('iot_node_t', 'key')}
FREES = {'free', 'iot_data_block_free'}
COPIES = {'strdup': 0, 'strndup': 0}
HASHES = {'iot_data_hash': 'hash', 'iot_hash': 'hashstr', 'iot_hash_data': 'hashmem'}


class HashRule(Base):
    name = 'hash'

    def __init__(self, prog):
        Base.__init__(self, prog)
        self.H = self.o('iot_data_t', 'hash')
        self.B = self.o('iot_data_t', 'rehash')
        self.bitno = self.off[('iot_data_t', 'rehash')][4]
        self.shapes = {}
        self.relevant_fns()
        self.events = {}
        self.forms = {}
        self.settled = {}

    def relevant_fns(self):
        """internal functions that can change content or hashes, directly or through internal callees; the others (rotations ...) only relink"""
        rel = set(); hl = set()
        for n, f in self.p.funcs.items():
            tags = {}
            for b in f.blocks:
                for i in b:
                    if i.op == 'getelementptr' and 'st' in i.d['gep']:
                        tags[i.id] = (i.d['gep']['st'].replace('struct.', ''), self.p.field(i.d['gep']['st'], i.d['gep']['fo']))
                    if i.op in ('load', 'store'):
                        q = i.ops[0 if i.op == 'load' else 1]
                        t = tags.get(q[1]) if q[0] == 'v' else None
                        if t == ('iot_data_t', 'hash'):
                            rel.add(n)
                            if i.op == 'load': hl.add(n)
                        if i.op == 'store' and t and (t in SLOT or t in VALUE or t[0] in ('iot_element_t', 'iot_data_list_t', 'iot_data_vector_t') or t[0] == 'iot_data_t' and t[1] not in ('type', 'refs', 'key_type', 'element_type')): rel.add(n)
                    if i.op == 'call' and i.d['callee'][0] == 'fn' and i.d['callee'][1] in (FREES | {'iot_data_free', 'calloc', 'malloc', 'iot_data_block_alloc'}): rel.add(n)
        grow = True
        while grow:
            new = {c for x in rel for c in self.p.callers.get(x, ()) if c not in rel and not self.p.funcs[x].public}
            grow = bool(new); rel |= new
        self.rel = rel; self.keep = {n for n in hl if self.p.funcs[n].ret == 'i32'}

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file.endswith(self.SRC) and fn.name in self.rel

    # ---- bits of the flag byte: 0, 1, 'old', 'more' (at least the old one) or None
    def bit(self, eng, st, v, n, old):
        if v == old: return 'old'
        if v[0] == 'c': return (v[1] >> n) & 1
        if v[0] == 'cmp':
            if n: return 0
            d = eng.decide(st, v)
            return None if d is None else int(d)
        if v[0] == 'op':
            op = v[1]
            if op in ('shl', 'lshr') and v[3][0] == 'c':
                m = n - v[3][1] if op == 'shl' else n + v[3][1]
                return 0 if m < 0 or m > 63 else self.bit(eng, st, v[2], m, old)
            if op in ('or', 'and'):
                a, b = self.bit(eng, st, v[2], n, old), self.bit(eng, st, v[3], n, old)
                if op == 'and':
                    if a == 0 or b == 0: return 0
                    if a == 1: return b
                    if b == 1: return a
                    return a if a == b else None
                if a == 1 or b == 1: return 1
                if a == 0: return b
                if b == 0: return a
                if 'old' in (a, b) or 'more' in (a, b): return 'more'
                return None
            if op == 'xor' and v[3][0] == 'c':
                a = self.bit(eng, st, v[2], n, old)
                if a in (0, 1): return a ^ ((v[3][1] >> n) & 1)
                return None
        x = eng.lookup(st, v)
        if x is not None: return (x >> n) & 1
        return None

    def rehash_of(self, eng, st, o):
        """truth of the pending mark of o, None if not known"""
        s = st.mem.get((o, self.B))
        if s is None: return False if o in st.zero else None
        if s[0] == 'c': return bool((s[1] >> self.bitno) & 1)
        b = self.bit(eng, st, s, self.bitno, None)
        if b in (0, 1): return bool(b)
        if s[0] == 'op':      # or/and chain over the byte loaded first
            x = s
            while x[0] == 'op' and x[1] in ('or', 'and'):
                nb = self.bit(eng, st, x[3], self.bitno, None)
                if x[1] == 'or' and nb == 1: return True
                if x[1] == 'and' and nb == 0: return False
                x = x[2]
            s = x
        for f in ((('op', 'and', ('op', 'lshr', s, C(self.bitno)), C(1))), ('op', 'and', s, C(1 << self.bitno))):
            d = eng.decide(st, f)
            if d is not None: return d
        return None

    # ---- content events
    def event(self, st, kind, what, fr, inst):
        st.ts[('ev', kind, what)] = 1
        self.events.setdefault('%s %s' % (kind, what if isinstance(what, str) else what[0]), set()).add((fr.fn.name, inst.line))

    def slot_owner(self, ptr):
        """vector whose values array the address points into"""
        if ptr[0] not in ('p', 's'): return None
        b = ptr[1] if ptr[0] == 'p' else ptr
        if ptr[0] == 'p' and ptr[3] is not None: return None
        o = self.org(b)
        if o and o[2] == ('iot_data_vector_t', 'values'): return o[0]
        return None

    def on_store(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr); b, off = loc_of(ptr)
        if t and t[0] == 'iot_data_t' and off == self.H:
            self.hash_store(eng, st, fr, inst, b, val); return
        if t and t[0] == 'iot_data_t' and off == self.B:
            nb = self.bit(eng, st, val, self.bitno, st.mem.get((b, off)))
            if nb == 1:
                st.ts[('re', b)] = 1
            elif nb in (0, None):
                was = self.rehash_of(eng, st, b)
                if b not in st.fresh and b not in st.zero and was is not False:
                    st.ts[('clr', b)] = 1
                st.ts.pop(('re', b), None)
            return
        if t in VALUE:
            st.ts[('val', b)] = val
            self.event(st, 'value', 'stored', fr, inst)
            return
        if t == ('iot_data_array_t', 'length'):
            st.ts[('len', b)] = val
            return
        k = CONT.get(t[0]) if t else None
        if t in SLOT:
            r = b
            old = st.mem.get((b, off))
            if old is None and r in st.zero: old = ZERO
            if r in st.fresh or ('new', r) in st.ts:
                if val != ZERO: st.ts[('add', k, val)] = t[1]; self.event(st, k, 'add', fr, inst)
            elif old is not None and self.same(st, val, old): self.restore(st, k, old)
            else:
                st.ts[('rem', k, old)] = 'replaced'; self.event(st, k, 'replace', fr, inst)
                st.ts[('repl', old)] = val
            return
        v = self.slot_owner(ptr)
        if v is not None:
            old = st.mem.get((b, off))
            ov = None if old is None else eng.lookup(st, old)
            if old is not None and self.same(st, val, old): self.restore(st, 'vector', old); return
            src = self.org(val)
            if val == ZERO:
                if ov == 0: return
                if loc_of(ptr) in st.ts.get(('from',), ()): st.ts.pop(('from',)); return
                st.ts[('rem', 'vector', old)] = 'cleared'; self.event(st, 'vector', 'clear', fr, inst)
                st.ts[('vec', v)] = 1
            elif src and src[0][0] in ('s', 'p') and self.org(root(src[0])) and self.org(root(src[0]))[2] == ('iot_data_vector_t', 'values'):
                st.ts[('from',)] = tuple(sorted((k for k, w in st.mem.items() if w == val), key=repr))
            elif ov == 0:
                st.ts[('add', 'vector', val)] = 'element'; st.ts[('vec', v)] = 1; self.event(st, 'vector', 'add', fr, inst)
            else:
                st.ts[('rem', 'vector', old)] = 'replaced'; st.ts[('vec', v)] = 1; self.event(st, 'vector', 'replace', fr, inst)
                st.ts[('repl', old)] = val

    def same(self, st, a, b):
        return a == b or st.ts.get(('same', a)) == b or st.ts.get(('same', b)) == a

    def restore(self, st, kind, old):
        st.ts.pop(('rem', kind, old), None)

    def is_hash(self, v):
        return v[0] == 'op' and v[1] == 'hash'

    def parts(self, v):
        return self.parts(v[2]) + self.parts(v[3]) if v[0] == 'op' and v[1] == 'xor' else [v]

    def hash_store(self, eng, st, fr, inst, b, val):
        old = st.mem.get((b, self.H))
        if old is None and b in st.zero: old = ZERO
        parts = self.parts(val)
        oparts = self.parts(old) if old is not None else []
        hs = [x for x in parts if self.is_hash(x)]
        if hs:
            rest = [x for x in parts if not self.is_hash(x)]
            keeps = old == ZERO or old is not None and all(x in parts for x in oparts if x != ZERO)
            if not keeps:
                if self.root.name == 'iot_data_hash' and not (old is not None and old[0] == 's' and 'hv' in str(old[2])): st.ts[('reset', b)] = 1
                else: st.ts[('lost', b)] = 1
            for x in hs:
                if x in oparts: continue
                st.ts[('xor', x[2])] = b
                for k in [k for k in st.ts if k[0] == 'elt' and (k[2] == x[2] or k[2] is None)]: st.ts.pop(k)
                st.ts[('mix', x[2])] = 1
        else:
            if val == ZERO or self.root.name == 'iot_data_hash' and old != val: st.ts[('reset', b)] = 1
            st.ts[('hset', b)] = val
        self.settled.setdefault(fr.fn.name, set()).add(inst.line)

    # ---- calls
    def on_call(self, eng, st, fr, inst, callee, args):
        if callee in HASHES:
            return [(('op', HASHES[callee], *[eng.depth(a) for a in args]), st)]
        res = lambda d: eng.fresh_sym(st, fr, eng.cur_env, inst, '', d)
        if callee in FREES:
            v = args[0]; r = root(v)
            if r[0] == 's' and r not in st.fresh and ('new', r) not in st.ts and eng.lookup(st, v) != 0:
                for T in self.types.get(r, ()):
                    if T in ('iot_element_t', 'iot_node_t'):
                        st.ts[('rem', CONT[T], r)] = 'removed'; self.event(st, CONT[T], 'remove', fr, inst)
            return [(('void',), st)]
        if callee == 'iot_data_free':
            v = args[0]
            og = self.org(v)
            if og and eng.lookup(st, v) != 0:
                if og[2] in SLOT and CONT[og[2][0]] == 'list': pass        # taking the element out of the list is the event
                elif og[2] in SLOT and ('own', v) not in st.ts:
                    st.ts[('rem', CONT[og[2][0]], v)] = 'released'; self.event(st, CONT[og[2][0]], 'release', fr, inst)
                else:
                    ov = self.org(root(og[0]))
                    if ov and ov[2] == ('iot_data_vector_t', 'values') and og[2] is None:
                        st.ts[('rem', 'vector', v)] = 'released'; st.ts[('vec', ov[0])] = 1; self.event(st, 'vector', 'release', fr, inst)
            return [(('void',), st)]
        if callee == 'iot_data_map_get' or callee == 'iot_data_map_get_typed':
            r = res('entry found')
            st.ts[('same', r)] = args[1]       # an entry found under a key of a cache equals the key
            return [(r, st)]
        if callee in COPIES:
            r = res('copy')
            st.ts[('same', r)] = args[0]
            return [(r, st)]
        if callee in ('strcpy', 'memcpy', 'memmove', 'strncpy'):
            if args[0][0] in ('s', 'p'): st.ts[('same', args[0])] = args[1]
            return [(args[0], st)]
        if callee in ('iot_data_map_iter', 'iot_data_vector_iter', 'iot_data_list_iter'):
            st.ts[('iter', root(args[1]))] = args[0]
            return [(('void',), st)]
        if callee in ('iot_data_map_iter_next', 'iot_data_vector_iter_next', 'iot_data_list_iter_next') and self.root.name == 'iot_data_hash':
            it = root(args[0])
            if self.left(eng, st, it):
                self.bad(eng, fr, inst, st, 'hash', 'an element is left out when the hash is recomputed')
            for k in [k for k in st.ts if k[0] in ('elt', 'mix', 'key', 'value')]: st.ts.pop(k)
            s2 = st.copy()
            kinds = ('key', 'value') if 'map' in callee else ('value',)
            for x in kinds: st.ts[('elt', it, None, x)] = 1
            s2.ts[('drained', it)] = 1
            return [(C(1), st), (ZERO, s2)]
        if callee in ('iot_data_map_iter_key', 'iot_data_map_iter_value', 'iot_data_vector_iter_value', 'iot_data_list_iter_value'):
            kind = 'key' if callee.endswith('key') else 'value'
            it = root(args[0])
            r = eng.fresh_sym(st, fr, eng.cur_env, inst, kind, 'element ' + kind)
            if ('elt', it, None, kind) in st.ts:
                st.ts.pop(('elt', it, None, kind)); st.ts[('elt', it, r, kind)] = 1
            return [(r, st)]
        if callee in ('iot_data_block_alloc_data', 'iot_element_alloc'): return None
        if callee in ('iot_data_alloc_block', 'iot_data_block_alloc', 'calloc', 'malloc'):
            r = res('block')
            st.ts[('new', r)] = 1
            if callee == 'malloc': st.fresh = st.fresh | {r}; return [(r, st)]
            st.zero = st.zero | {r}; st.fresh = st.fresh | {r}
            return [(r, st)]
        fn = self.p.funcs.get(callee)
        if fn is not None and fn.public or callee in fr.stack:
            # contract: a public call keeps the hash in step itself; what it may have changed is reloaded
            for a in args:
                if a[0] in ('s', 'p') and root(a) not in st.fresh: eng.havoc_obj(st, root(a))
                if callee in self.rel and self.types.get(root(a), set()) & {'iot_data_list_t', 'iot_data_map_t', 'iot_data_vector_t'}: st.ts[('re', root(a))] = 1
            return [((('void',) if inst.ty == 'void' else res('result of ' + callee)), st)]
        return None

    def left(self, eng, st, it):
        mixed = [k[1] for k in st.ts if k[0] == 'mix'] + [y[2] for v in eng.cur_env.values() if v[0] == 'op' and v[1] == 'xor' for y in self.parts(v) if self.is_hash(y)]
        for k in st.ts:
            if k[0] == 'elt' and k[1] == it:
                if k[2] is None or not any(eng.decide(st, eng.norm_cmp('eq', ('op', 'hash', k[2]), ('op', 'hash', m))) for m in mixed): return True
        return False

    def touch(self, ptr):
        t = tag_of(ptr)
        if t and ptr[1][0] == 's': self.types.setdefault(ptr[1], set()).add(t[0])

    def on_load(self, eng, st, fr, inst, ptr):
        self.touch(ptr)

    def on_stored(self, eng, st, fr, inst, ptr, val):
        self.touch(ptr)
        t = tag_of(ptr); b, off = loc_of(ptr)
        if t and t[0] == 'iot_data_t' and off == self.H and val[0] == 'op' and ('op', 'hash') in [x[:2] for x in self.parts(val)]:
            st.mem[(b, off)] = eng.fresh_sym(st, fr, eng.cur_env, inst, 'hv', 'hash')

    # ---- uses of a possibly stale hash
    def hash_of(self, v):
        og = self.org(v) if v[0] == 's' else None
        if og and og[2] and og[2][0] == 'iot_data_t' and og[1] == self.H: return og[0]
        return None

    def scalar(self, eng, st, o):
        t = st.mem.get((o, self.o('iot_data_t', 'type')))
        if t is None: return False
        return all(not eng.set_eq(st.copy(), t, self.E[x]) for x in ('VECTOR', 'LIST', 'MAP'))

    def stale(self, eng, st, fr, inst, v, how):
        for x in (v[2:] if v[0] in ('cmp', 'op') else (v,)):
            if not isinstance(x, tuple): continue
            o = self.hash_of(x)
            if o is None: continue
            if o in st.fresh or self.rehash_of(eng, st, o) is False or self.scalar(eng, st, o): continue
            self.bad(eng, fr, inst, st, 'hash', 'hash %s although changes to it may be pending' % how)

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if cond[0] == 'cmp': self.stale(eng, st, fr, inst, cond, 'compared')

    def on_ret(self, eng, st, fr, inst, val):
        self.exits += 1
        self.stale(eng, st, fr, inst, val, 'returned')
        ts = st.ts
        for k in ts:
            if k[0] == 'clr':
                if ('reset', k[1]) not in ts:
                    self.bad(eng, fr, inst, st, 'hash', 'pending hash changes dropped without recomputing the hash')
            if k[0] == 'elt' and self.left(eng, st, k[1]): self.bad(eng, fr, inst, st, 'hash', 'an element is left out when the hash is recomputed')
        its = [k[1] for k in ts if k[0] == 'iter']
        if any(k[0] == 'clr' for k in ts) and fr.fn.name == 'iot_data_hash' and its and not any(k[0] == 'drained' for k in ts):
            self.bad(eng, fr, inst, st, 'hash', 'hash recomputed from part of the content only')
        for k in ts:
            if k[0] == 'lost' and ('re', k[1]) not in ts:
                self.bad(eng, fr, inst, st, 'hash', 'hash of the earlier elements replaced instead of extended')
        # containers
        for k in [k for k in ts if k[0] == 'rem' and k[2] is not None and eng.lookup(st, k[2]) == 0]:
            ts.pop(k)           # the place turned out to be empty
            if ('repl', k[2]) in ts: ts[('add', k[1], ts[('repl', k[2])])] = 'element'
        for kind in ('list', 'map', 'vector'):
            adds = {k[2]: v for k, v in ts.items() if k[0] == 'add' and k[1] == kind}
            rem = next((v for k, v in ts.items() if k[0] == 'rem' and k[1] == kind), None)
            if not adds and not rem: continue
            re = [k[1] for k in ts if k[0] == 're']
            slots = set(adds)
            ok = [r for r in re if r not in slots and not (self.org(r) and self.org(r)[2] in SLOT)]
            if kind == 'vector':
                vs = [k[1] for k in ts if k[0] == 'vec']
                ok = [r for r in ok if all(r == v for v in vs)]
            if ok: continue
            if rem:
                self.bad(eng, fr, inst, st, 'hash', 'content of a %s %s without its hash being marked for recomputation' % (kind, rem)); continue
            x = {k[1] for k in ts if k[0] == 'xor'}
            miss = [a for a in adds if a not in x and eng.lookup(st, a) != 0]
            miss = [a for a in miss if not any(eng.decide(st, eng.norm_cmp('eq', ('op', 'hash', a), ('op', 'hash', y))) for y in x)]
            extra = [y for y in x if y not in adds]
            if kind == 'map' and not miss:
                ks = [a for a, r in adds.items() if r == 'key']; vv = [a for a, r in adds.items() if r == 'value']
                if len(ks) == 1 and len(vv) == 1:
                    self.form(eng, st, 'insert', ks[0], vv[0], x)
            for a in miss: self.bad(eng, fr, inst, st, 'hash', '%s added to a %s without entering its hash' % (adds[a] if kind != 'list' else 'value', kind))
            if extra: self.bad(eng, fr, inst, st, 'hash', 'hash of a %s changed by something that was not added' % kind)
        # single values
        for k, v in list(ts.items()):
            if k[0] != 'val': continue
            o = k[1]
            h = ts.get(('hset', o))
            if h is None:
                if v == ZERO and o in st.zero: continue
                if self.org(v) and self.org(v)[0] == o: continue
                self.bad(eng, fr, inst, st, 'hash', 'value stored without setting the hash'); continue
            T = st.mem.get((o, self.o('iot_data_t', 'type')))
            ty = eng.lookup(st, T) if T is not None else None
            cls = {v, ts.get(('same', v))} | {a[1] for a, b in ts.items() if a[0] == 'same' and b == v}
            cls.discard(None)
            hv = [x for x in cls if contains(h, x)]
            if v == ZERO:
                if h != ZERO: self.bad(eng, fr, inst, st, 'hash', 'hash of an empty value set from something else')
                continue
            if not hv:
                a, b = self.org(v), self.org(h)
                if a and b and a[0] == b[0] and b[1] == self.H: continue         # copied together
                self.bad(eng, fr, inst, st, 'hash', 'hash set from something else than the stored value'); continue
            n = ts.get(('len', o))
            if h[0] == 'op' and h[1] == 'hashmem':
                if n is not None and not contains(h[3], n) and h[3] != n and n[0] != 'c':
                    self.bad(eng, fr, inst, st, 'hash', 'hash does not cover the length of the data'); continue
                shape = ('hashmem', '$')
            else:
                shape = subst(h, hv[0], ('$',))
            if ty is not None: self.shapes.setdefault(ty, {}).setdefault(repr(shape), []).append((fr, inst, st))

    def form(self, eng, st, where, k, v, x):
        eq = eng.decide(st, eng.norm_cmp('eq', ('op', 'hash', k), ('op', 'hash', v)))
        self.forms.setdefault(where, set()).add((k in x, v in x, eq))

    def finish(self, eng):
        inv = {v: k for k, v in self.E.items()}
        for ty, m in self.shapes.items():
            if len(m) > 1:
                least = min(m, key=lambda s: len({x[0].fn.name for x in m[s]}))
                fr, inst, st = m[least][0]
                self.bad(eng, fr, inst, st, 'hash', 'equal %s values get different hashes depending on how they are made' % inv.get(ty, ty))


def data_roots(prog, rule):
    return [f for n, f in sorted(prog.funcs.items()) if f.public and f.file.endswith(rule.SRC)]


def run_hash(prog):
    rule = HashRule(prog)
    eng = Engine(prog, rule)
    roots = []
    for f in data_roots(prog, rule):
        if f.name in ('iot_data_free', 'iot_data_block_free', 'iot_data_block_alloc'): continue
        rule.root = f
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(f.name)
        roots.append(f)
    rule.finish(eng)
    return eng, rule, roots

ELT, LST, ITER = 'iot_element_t', 'iot_data_list_t', 'iot_data_list_iter_t'
INV = {'next': 'prev', 'prev': 'next'}


class ListRule(Base):
    """doubly linked lists: what a call found well linked it leaves well linked, with the right length (D05)"""
    name = 'list'
    max_steps = 60000

    def __init__(self, prog):
        Base.__init__(self, prog)
        self.O = {f: self.o(ELT, f) for f in ('next', 'prev', 'value', 'length')}
        self.L = {f: self.o(LST, f) for f in ('head', 'tail')}
        self.changes = {}
        self.scan()

    def scan(self):
        uses, mods = set(), set()
        for n, f in self.p.funcs.items():
            if not f.file.endswith(self.SRC): continue
            tags = {}
            for b in f.blocks:
                for i in b:
                    if i.op == 'getelementptr' and 'st' in i.d['gep']:
                        t = (i.d['gep']['st'].replace('struct.', ''), self.p.field(i.d['gep']['st'], i.d['gep']['fo']))
                        tags[i.id] = t
                        if t[0] in (ELT, LST, ITER): uses.add(n)
                    if i.op == 'store' and i.ops[1][0] == 'v' and tags.get(i.ops[1][1], ('',))[0] in (ELT, LST) and tags[i.ops[1][1]][1] != 'value': mods.add(n)
        self.uses = {n for n in uses if len(self.p.funcs[n].blocks) <= 24 and n not in self.p.callees.get(n, ())}
        self.direct = set(mods)
        grow = True
        while grow:
            new = {c for x in mods for c in self.p.callers.get(x, ()) if c not in mods and (not self.p.funcs[x].public or c in self.uses)}
            grow = bool(new); mods |= new
        self.mods = mods

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.file.endswith(self.SRC) and (fn.name in self.uses or fn.name in self.mods and not fn.public)

    def ty(self, v):
        return self.types.get(v, set()) | self.types.get(strip(v), set())

    # ---- the state a call starts from is well linked
    def eff(self, st, x, f):
        v = st.mem.get((x, self.O[f]))
        if v is not None: return v
        if x in st.zero: return ZERO
        if f in INV:
            end = 'tail' if f == 'prev' else 'head'
            if any(k[0] == 'pre' and k[2] == end and v == x for k, v in st.ts.items()): return ZERO
        return None

    def field(self, ptr):
        t = tag_of(ptr)
        if not t or t[0] not in (ELT, LST): return None, None
        f = next((n for n, o in (self.O if t[0] == ELT else self.L).items() if o == loc_of(ptr)[1]), None)
        return t[0], f

    def on_load(self, eng, st, fr, inst, ptr):
        T, f = self.field(ptr)
        b, off = loc_of(ptr)
        if T: self.types.setdefault(b, set()).add(T)
        if T == ELT and b[0] == 's': eng.set_ne(st, b, 0)
        if ('freed', b) in st.ts: self.bad(eng, fr, inst, st, 'list', 'list element used after it was freed')
        if T == ELT and f in INV and (b, off) not in st.mem:
            v = self.eff(st, b, f)
            if v is not None: st.mem[(b, off)] = v

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Base.on_loaded(self, eng, st, fr, inst, ptr, val)
        T, f = self.field(ptr)
        b, off = loc_of(ptr)
        t = tag_of(ptr)
        if val[0] == 's' and (T == ELT and f in INV or T == LST and f or t and t[0] == ITER and t[1] == '_element'):
            self.types.setdefault(val, set()).add(ELT)
        if T == LST and f and ('w', b, f) not in st.ts and ('pre', b, f) not in st.ts and val[0] == 's': st.ts[('pre', b, f)] = val
        if T == ELT and f in INV and val[0] == 's' and ('wl', b, f) not in st.ts:
            k = (val, self.O[INV[f]])
            if k not in st.mem: st.mem[k] = b
        if T == ELT and f == 'length' and val[0] == 's' and ('wn', b) not in st.ts: st.ts[('len', b)] = val

    def on_store(self, eng, st, fr, inst, ptr, val):
        T, f = self.field(ptr)
        b, off = loc_of(ptr)
        if T: self.types.setdefault(b, set()).add(T)
        if ('freed', b) in st.ts: self.bad(eng, fr, inst, st, 'list', 'list element used after it was freed')
        if T == LST and f:
            if ('pre', b, f) not in st.ts and ('w', b, f) not in st.ts:
                if b in st.zero: st.ts[('pre', b, f)] = ZERO
                else: st.ts[('pre', b, f)] = eng.fresh_sym(st, fr, eng.cur_env, inst, 'pre' + f, 'former ' + f)
            st.ts[('w', b, f)] = 1
            if val[0] == 's': self.types.setdefault(val, set()).add(ELT)
        if T == ELT and f in INV:
            old = self.eff(st, b, f)
            if old is None and ('new', b) not in st.ts:
                # the neighbour it had: still pointing here unless relinked
                n = eng.fresh_sym(st, fr, eng.cur_env, inst, 'was' + f, 'former %s element' % f)
                st.mem[(n, self.O[INV[f]])] = b
                st.ts[('wl', n, INV[f])] = 1
            st.ts[('wl', b, f)] = 1
        if T == ELT and f == 'length': st.ts[('wn', b)] = 1
        if T: self.changes.setdefault((T, f), set()).add((fr.fn.name, inst.line))

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and taken == (cond[1] == 'eq'):
            a, b = cond[2], cond[3]
            if a[0] == 's' and b[0] == 's' and ELT in self.ty(a) | self.ty(b):
                for g in INV:       # one of them has a neighbour there, the other has none: not the same element
                    x, y = self.null(eng, st, self.eff(st, a, g)), self.null(eng, st, self.eff(st, b, g))
                    if x is not None and y is not None and x != y and not any(k[0] == 'wl' for k in st.ts): return False
                self.unify(eng, st, b, a)
        for k, h in list(st.ts.items()):        # nothing beyond the ends
            if k[0] != 'pre' or h[0] != 's': continue
            g = 'prev' if k[2] == 'tail' else 'next'
            v = st.mem.get((h, self.O[g]))
            if v is None or ('wl', h, g) in st.ts: continue
            z = self.null(eng, st, v)
            if z is False: return False
            if z is None and v[0] == 's': eng.set_eq(st, v, 0)
        # an element without neighbour on one side is the end of the list
        for (x, o), v in list(st.mem.items()):
            g = next((n for n in INV if self.O[n] == o), None)
            if g is None or x[0] != 's' or ELT not in self.ty(x) or ('wl', x, g) in st.ts or ('new', x) in st.ts or v == ZERO and x in st.zero: continue
            if self.null(eng, st, v) is not True: continue
            end = 'head' if g == 'next' else 'tail'
            for k, h in list(st.ts.items()):
                if k[0] == 'pre' and k[2] == end and h != x and h[0] == 's':
                    if eng.decide(st, eng.norm_cmp('eq', x, h)) is False or self.null(eng, st, h) is True: return False
                    self.unify(eng, st, h, x)

    def unify(self, eng, st, b, a):
        eng.rename(st, b, a)
        env = eng.cur_env
        for k in list(env): env[k] = subst(env[k], b, a)

    def on_call(self, eng, st, fr, inst, callee, args):
        res = lambda d: ('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', d)
        if callee in ('calloc', 'malloc', 'iot_data_alloc_block', 'iot_data_block_alloc'):
            r = res('new element')
            st.ts[('new', r)] = 1
            st.fresh = st.fresh | {r}
            if callee != 'malloc': st.zero = st.zero | {r}
            return [(r, st)]
        if callee in FREES:
            r = root(args[0])
            if ELT in self.ty(r):
                if ('freed', r) in st.ts: self.bad(eng, fr, inst, st, 'list', 'list element freed twice')
                st.ts[('freed', r)] = 1
            return [(('void',), st)]
        fn = self.p.funcs.get(callee)
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee in ('memset',): return None
        if fn is None or fn.public or callee in fr.stack:
            if fn is not None and callee in self.mods:
                for a in args:
                    if a[0] in ('s', 'p'):
                        for k in [k for k in st.ts if k[0] in ('pre', 'w') and k[1] == root(a)]: st.ts.pop(k)
                        eng.havoc_obj(st, root(a))
            return [(res('result of ' + callee), st)]
        return None

    # ---- what must hold again at the end
    def null(self, eng, st, v):
        """True / False / None"""
        if v is None: return None
        x = eng.decide(st, v) if v[0] != 'c' else v[1] != 0
        if x is not None: return not x
        if ('new', root(v)) in st.ts: return False
        for k, p in st.ts.items():
            if k[0] == 'pre' and p == v:
                o = st.ts.get(('pre', k[1], 'tail' if k[2] == 'head' else 'head'))
                if o is not None and o != v:
                    y = eng.decide(st, o) if o[0] != 'c' else o[1] != 0
                    if y is not None: return not y
        return None

    def now(self, eng, st, fr, inst, L, f):
        v = st.mem.get((L, self.L[f]))
        if v is None:
            if L in st.zero: return ZERO
            v = st.ts.get(('pre', L, f))
        if v is None:
            v = ('s', (L[1] if len(L) > 1 else (),), 'untouched', f)
            st.ts[('pre', L, f)] = v
        return v

    def on_leave(self, eng, st, fr, val):
        if fr.fn.name != self.root.name or len(fr.stack) > 1: return
        inst = fr.fn.blocks[-1][-1]
        self.exits += 1
        ts = st.ts
        freed = [k[1] for k in ts if k[0] == 'freed']
        linked = [k[1] for k in ts if k[0] == 'new' and k[1] not in freed and ELT in self.ty(k[1])]
        gone = [e for e in freed if ('new', e) not in ts]
        wl = [k for k in ts if k[0] == 'wl']
        lists = {k[1] for k in ts if k[0] in ('w', 'pre')}
        if not (freed or linked or wl or any(k[0] == 'w' for k in ts)): return
        B = lambda m: self.bad(eng, fr, inst, st, 'list', m)
        heads, tails = set(), set()
        for L in lists:
            h, t = self.now(eng, st, fr, inst, L, 'head'), self.now(eng, st, fr, inst, L, 'tail')
            heads.add(h); tails.add(t)
            nh, nt = self.null(eng, st, h), self.null(eng, st, t)
            ph, pt = ts.get(('pre', L, 'head')), ts.get(('pre', L, 'tail'))
            if not (h == ph and t == pt) and (nh is None or nt is None or nh != nt):
                # untouched end is null exactly when the other one was
                if not (nh is None and nt is None and h == t): B('list left with %s but not %s' % (('a tail', 'a head') if nh else ('a head', 'a tail')) if nh is not None and nt is not None else 'list head and tail may disagree about the list being empty')
            if t[0] == 's' and nt is not True:
                p = self.eff(st, t, 'prev')
                if p is None or self.null(eng, st, p) is not True: B('tail element of the list has a previous element')
            if h[0] == 's' and nh is not True:
                n = self.eff(st, h, 'next')
                if n is None or self.null(eng, st, n) is not True: B('head element of the list has a next element')
            for e in freed:
                if e in (h, t): B('list still refers to a freed element')
        for k in wl:
            x, f = k[1], k[2]
            if x in freed: continue
            y = self.eff(st, x, f)
            ny = self.null(eng, st, y)
            if ny is True:
                if x not in (heads if f == 'next' else tails): B('element inside the list has no %s element' % f)
            else:
                if y in freed: B('list element still linked to a freed element'); continue
                z = self.eff(st, y, INV[f])
                if z != x: B('%s link of a list element is not matched by a %s link' % (f, INV[f]))
        for e in gone:
            for f in INV:
                n = self.eff(st, e, f)
                if n is None: B('list element freed although a neighbour may still link to it'); continue
                if self.null(eng, st, n) is True or n in freed: continue
                if self.eff(st, n, INV[f]) == e and self.null(eng, st, n) is not True: B('list element freed although its neighbour still links to it')
            for k, v in st.mem.items():
                if v == e and k[0] not in freed and k[0][0] == 's' and (not isinstance(k[1], int) or ELT not in self.types.get(strip(k[0]), ())):
                    if self.types.get(k[0], set()) & {ELT, LST}: continue
                    B('freed list element still referred to')
        for e in linked:
            if not any(v == e for k, v in st.mem.items()): B('new list element not linked')
            if (e, self.O['value']) not in st.mem: B('new list element carries no value')
        d = len(linked) - len(gone)
        for L in lists:
            h = self.now(eng, st, fr, inst, L, 'head')
            if self.null(eng, st, h) is True: continue
            ph = ts.get(('pre', L, 'head'))
            pl = ts.get(('len', ph)) if ph is not None else None
            e = self.eff(st, h, 'length') if h[0] == 's' else None
            if e is None and h == ph and d == 0: continue
            if pl is None and e is not None and e[0] == 's' and h == ph: pl = e
            empty = self.null(eng, st, ph) if ph is not None else None
            ok = False
            if empty is not False and e == C(d): ok = True
            if empty is not True and e is not None and pl is not None:
                if d == 0 and e == pl or e == ('op', 'add', pl, C(d)): ok = True
            if not ok: B('length kept at the head of the list does not follow the number of elements')
        for e in gone:
            v = st.mem.get((e, self.O['value']))
            if fr.fn.ret == 'ptr' and v is not None and val != v: B('the value returned is not the one of the element removed')
            for i, a in enumerate(fr.fn.args):
                if a[3].replace(' ', '') == ITER + '*':        # the iterator goes on with the element after the one removed
                    cur = st.mem.get((('s', (fr.fn.name,), 'arg%d' % i, ''), self.o(ITER, '_element')))
                    before = self.eff(st, e, 'prev')
                    if cur is None or before is None or cur != before and not (self.null(eng, st, cur) is True and self.null(eng, st, before) is True):
                        B('iteration does not go on with the element after the one removed')
                    self.goes = getattr(self, 'goes', 0) + 1


def run_list(prog):
    rule = ListRule(prog)
    eng = Engine(prog, rule)
    roots = []
    for f in data_roots(prog, rule):
        if f.name not in rule.mods or f.name not in rule.uses and not (prog.callees.get(f.name, set()) & rule.mods & rule.uses): continue
        if f.name == 'iot_data_free': continue
        rule.root = f
        rule.keep = {f.name}
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(f.name)
        roots.append(f)
    return eng, rule, roots



def main(run):
    import sys, ir, time
    t = time.time()
    p = ir.load('debug')
    eng, rule, roots = run(p)
    for r in eng.reports:
        print('%s:%s %s [%s] %s   %s' % (r['file'].split('/')[-1], r['line'], r['function'], r['rule'], r['message'], '>'.join(r['callstack'][1:])))
        if len(sys.argv) > 2:
            for x in r['path']: print('      ', x)
    print(len(roots), rule.exits, eng.stats['states'], time.time() - t)
    return rule


if __name__ == '__main__':
    import sys
    r = main({'hash': run_hash, 'list': run_list}[sys.argv[1]])
    if sys.argv[1] == 'list': print(sorted(r.uses), sorted(r.mods), r.changes)
    if sys.argv[1] == 'hash': print(r.events); print({k: list(v) for k, v in r.shapes.items()}); print(r.forms)
