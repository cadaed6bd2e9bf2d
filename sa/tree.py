"""Maps: the entries stay linked as a search tree, in key order, and are counted (D06).

Functions that change links are analysed from any well linked tree: what they load is recorded as the shape they found
(a child refers back to its parent, a parent to its child on one side), what they store gives the shape they leave."""
from engine import *
from ds import Base
from ir import reach

NODE, MAP = 'iot_node_t', 'iot_data_map_t'
SIDE = {'left': 'right', 'right': 'left'}
FREES = {'free', 'iot_data_block_free', 'iot_data_free'}


class Tree(Base):
    name = 'tree'
    max_steps = 60000
    join_at = 400
    exit_join = 400

    def __init__(self, prog):
        Base.__init__(self, prog)
        self.N = {f: self.o(NODE, f) for f in ('left', 'right', 'parent', 'key', 'value')}
        self.M = {f: self.o(MAP, f) for f in ('tree', 'size')}
        self.F = {v: k for k, v in self.N.items()}
        self.links = {}
        self.scan()

    def scan(self):
        self.writers, self.cmps, self.sizes, self.loads, self.stores = set(), set(), set(), {}, {}
        for n, f in self.p.funcs.items():
            if not f.file.endswith(self.SRC): continue
            tags = {}
            for b in f.blocks:
                for i in b:
                    if i.op == 'getelementptr' and 'st' in i.d['gep']:
                        tags[i.id] = (i.d['gep']['st'].replace('struct.', ''), self.p.field(i.d['gep']['st'], i.d['gep']['fo']))
                    if i.op == 'load' and i.ops[0][0] == 'v' and tags.get(i.ops[0][1], ('',))[0] == NODE: self.loads.setdefault(n, set()).add(tags[i.ops[0][1]][1])
                    if i.op == 'store' and i.ops[1][0] == 'v':
                        t = tags.get(i.ops[1][1])
                        if t and (t[0] == NODE and t[1] in ('left', 'right', 'parent') or t == (MAP, 'tree')): self.writers.add(n); self.stores.setdefault(n, set()).add(i.id)
                        if t == (MAP, 'size'): self.sizes.add(n)
                    if i.op == 'call' and i.d['callee'] == ['fn', 'iot_data_cmp']: self.cmps.add(n)
        self.loopy = {n for n, f in self.p.funcs.items() if f.file.endswith(self.SRC) and has_loop(f)}
        self.wreach = {n for n in reach(self.p, lambda n: n in self.writers) if self.p.funcs[n].file.endswith(self.SRC) and not self.p.funcs[n].public} | self.writers
        self.flats = {n for n in self.wreach if self.looped(self.p.funcs[n])}
        self.allocs = reach(self.p, lambda n: n in ('calloc', 'malloc'))
        self.frees = reach(self.p, lambda n: n in FREES)

    def looped(self, f):
        """links are written inside a loop"""
        for k, b in enumerate(f.blocks):
            if not any(i.op == 'call' and i.d['callee'][0] == 'fn' and i.d['callee'][1] in self.wreach or i.op == 'store' and i.id in self.stores.get(f.name, ()) for i in b): continue
            seen, todo = set(), list(f.succs[k])
            while todo:
                x = todo.pop()
                if x not in seen: seen.add(x); todo += f.succs[x]
            if k in seen: return True
        return f.name in self.p.callees.get(f.name, ())

    def node(self, ptr):
        t = tag_of(ptr)
        if t and t[0] == NODE and t[1] in self.N and loc_of(ptr)[1] == self.N[t[1]]: return t[1]
        if t == (MAP, 'tree'): return 'tree'
        return None

    def off_(self, f): return self.M['tree'] if f == 'tree' else self.N[f]

    def null(self, eng, st, v):
        if v == ZERO: return True
        if v is None: return None
        n = eng.lookup(st, v)
        if n is not None: return n == 0
        return False if eng.nonnull(st, v) else None

    def finds(self, fn):
        t = [x.replace(' ', '').replace('const', '') for x in fn.sig]
        return not fn.public and t[0] == NODE + '*' and t.count('iot_data_t*') == 1 and len(t) == 3 and fn.name in self.cmps

    def extreme(self, fn):
        """follows one side only, to the end"""
        t = [x.replace(' ', '').replace('const', '') for x in fn.sig]
        l = self.loads.get(fn.name, set()) & {'left', 'right', 'parent', 'key'}
        return list(l)[0] if t == [NODE + '*'] * 2 and len(l) == 1 and l <= {'left', 'right'} and fn.name in self.loopy and fn.name not in self.writers else None


def has_loop(f):
    seen, onstack = set(), set()
    succ = f.succs

    def go(k):
        st = [(k, iter(succ[k]))]
        seen.add(k); onstack.add(k)
        while st:
            n, it = st[-1]
            for m in it:
                if m in onstack: return True
                if m not in seen:
                    seen.add(m); onstack.add(m); st.append((m, iter(succ[m]))); break
            else:
                st.pop(); onstack.discard(n)
        return False
    return go(0)


class LinkRule(Tree):
    """what a function that changes links found well linked it leaves well linked, with the entries in the same order"""
    name = 'tree'

    def inline(self, eng, fn, fr, st, inst, args):
        if not fn.file.endswith(self.SRC) or fn.public: return False
        return fn.name not in self.flats and fn.name not in self.p.callees.get(fn.name, ()) and (fn.name in self.wreach or fn.name not in self.loopy and not self.p.callees.get(fn.name))

    # ---- the shape found
    def on_load(self, eng, st, fr, inst, ptr):
        f = self.node(ptr)
        if f is None: return
        b, o = loc_of(ptr)
        if (b, o) not in st.mem and b not in st.zero: st.ts[('new',)] = (b, f)
        if ('freed', b) in st.ts: self.bad(eng, fr, inst, st, 'tree', 'entry of a map used after it was released')

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Base.on_loaded(self, eng, st, fr, inst, ptr, val)
        k = st.ts.pop(('new',), None)
        if k is None or val[0] != 's' or self.flat: return
        self.found(eng, st, k[0], k[1], val)

    def found(self, eng, st, n, f, v):
        if ('w', n, f) in st.ts: return
        st.ts[('pre', n, f)] = v
        st.mem.setdefault((n, self.off_(f)), v)
        if v[0] == 's' and f in SIDE and ('w', v, 'parent') not in st.ts:
            st.ts[('pre', v, 'parent')] = n
            st.mem.setdefault((v, self.N['parent']), n)
        for k, w in list(st.ts.items()):
            if f == 'parent' and v[0] == 's' and k[0] == 'in' and w[0] == n:
                eng.set_ne(st, v, 0)
                if w[1] in SIDE:                # every step of the way went to this side
                    st.ts[('pre', v, w[1])] = n; st.mem.setdefault((v, self.N[w[1]]), n)
                    st.ts[k] = (v, w[1])
        if v[0] == 's' and f == 'tree' and ('w', v, 'parent') not in st.ts:
            st.ts[('pre', v, 'parent')] = ZERO
            st.mem.setdefault((v, self.N['parent']), ZERO)

    def on_store(self, eng, st, fr, inst, ptr, val):
        f = self.node(ptr)
        if f is None: return
        b, o = loc_of(ptr)
        if b[0] == 'a': return
        st.ts[('w', b, f)] = 1
        self.links.setdefault(f, set()).add((fr.fn.name, inst.line))

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if self.flat or cond[0] != 'cmp' or cond[1] not in ('eq', 'ne'): return
        same = taken == (cond[1] == 'eq')
        if same and (cond[2] in self.above(st, cond[3]) or cond[3] in self.above(st, cond[2])): return False
        for n, r in ((cond[2], cond[3]), (cond[3], cond[2])):
            for k, v in list(st.ts.items()):
                if k[0] == 'pre' and v == r and r != ZERO and k[2] in SIDE and st.ts.get(('pre', n, 'parent')) == k[1]:
                    p = k[1]
                    side = k[2] if same else SIDE[k[2]]
                    if same:
                        for x in [x for x in st.ts if x[0] == 'pre' and x[1] == r and r != n]: del st.ts[x]
                    st.ts[('pre', p, side)] = n
                    if ('w', p, side) not in st.ts: st.mem[(p, self.N[side])] = n
                if k[0] == 'pre' and k[2] == 'parent' and v == n and r == ZERO and same:
                    m = self.map
                    if m is not None:
                        st.ts[('pre', m, 'tree')] = k[1]
                        if ('w', m, 'tree') not in st.ts: st.mem[(m, self.M['tree'])] = k[1]

    def on_forget(self, eng, st, m):
        """an entry between two others is no longer spoken of: what lies around the way down is kept as a whole"""
        Base.on_forget(self, eng, st, m)
        if self.flat: return
        f = next((f for f in SIDE if st.ts.get(('pre', m, f), ZERO) != ZERO and any(k[0] == 'pre' and k[1] == st.ts[('pre', m, f)] and k[2] in SIDE for k in st.ts)), None) \
            or next((f for f in SIDE if st.ts.get(('pre', m, f), ZERO) != ZERO), None)
        if f is None or any(k[0] == 'w' and k[1] == m for k in st.ts): return
        c = st.ts[('pre', m, f)]
        L = next((k[1] for k, v in st.ts.items() if k[0] == 'in' and v[0] == m), None)
        if L is None:
            p = st.ts.get(('pre', m, 'parent'))
            s = next((s for s in SIDE if p is not None and st.ts.get(('pre', p, s)) == m), None)
            if s is None: return
            L = ('s', m[1], m[2], 'way')
            if any(contains(k, L) for k in st.ts): return
            st.ts[('pre', p, s)] = L; st.ts[('pre', L, 'parent')] = p
            if ('w', p, s) not in st.ts: st.mem[(p, self.N[s])] = L
        d = st.ts.get(('in', L), (None, f))[1]
        st.ts[('in', L)] = (c, f if d == f else 'both')

    def above(self, st, n):
        """entries found above n"""
        out = set()
        while n is not None:
            u = st.ts.get(('pre', n, 'parent'))
            if u is None: u = next((k[1] for k, v in st.ts.items() if k[0] == 'in' and v[0] == n), None)
            if u is None or u in out: break
            out.add(u); n = u
        return out

    # ---- calls
    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        if callee == 'iot_data_free' or fn is None and callee in FREES or callee == 'iot_data_block_free':
            return [(('void',) if inst.ty == 'void' else mk(), st)]
        if fn is not None and self.finds(fn) and fn is not self.root:
            r = mk('node'); s2 = st.copy()
            eng.set_ne(st, r, 0); st.note('%s: entry found' % eng.where(fr, inst)); s2.note('%s: no entry found' % eng.where(fr, inst))
            return [(r, st), (ZERO, s2)]
        if fn is not None and fn is not self.root and not fn.public:
            d = self.extreme(fn)
            if d: return self.least(eng, st, fr, inst, args[0], d)
            t = [x.replace(' ', '').replace('const', '') for x in fn.sig]
            if len(t) == 2 and t[1] == NODE + '*' and t[0] == 'void' and callee in self.frees and callee not in self.writers:
                n = root(args[0])
                st.ts[('freed', n)] = 1
                return [(('void',), st)]
            if t[0] == NODE + '*' and callee in self.allocs and callee not in self.cmps:
                r = mk('made'); eng.set_ne(st, r, 0)
                st.zero = st.zero | {r}; st.fresh = st.fresh | {r}
                st.ts[('made', r)] = 1
                for i, a in enumerate(fn.args):
                    if a[3].replace(' ', '') == NODE + '*': st.mem[(r, self.N['parent'])] = args[i]
                return [(r, st)]
            if self.inline(eng, fn, fr, st, inst, args): return None
        return [(('void',) if inst.ty == 'void' else mk(), st)]

    def least(self, eng, st, fr, inst, n, d):
        """the last entry on one side below n: n itself, its child on that side, or one further down"""
        if self.flat or self.null(eng, st, n) is True:
            return [(eng.fresh_sym(st, fr, eng.cur_env, inst, 'end', 'last entry'), st)]
        mk = lambda k: eng.fresh_sym(st, fr, eng.cur_env, inst, k, {'y': 'last entry on the %s' % d, 'L': '%s subtree' % d, 'q': 'parent of the last entry'}[k])
        a, b, c = st, st.copy(), st.copy()
        self.found(eng, a, n, d, ZERO); a.mem[(n, self.N[d])] = ZERO
        a.note('%s: nothing on the %s' % (eng.where(fr, inst), d))
        y = mk('y'); L = mk('L'); q = mk('q')
        b.note('%s: one entry down on the %s' % (eng.where(fr, inst), d))
        c.note('%s: further down on the %s' % (eng.where(fr, inst), d))
        for s, p in ((b, n), (c, q)):
            eng.set_ne(s, y, 0)
            self.found(eng, s, p, d, y)
            s.ts[('pre', y, d)] = ZERO; s.mem[(y, self.N[d])] = ZERO
        eng.set_ne(c, L, 0); eng.set_ne(c, q, 0)
        self.found(eng, c, n, d, L)
        c.ts[('in', L)] = (q, d)
        return [(n, a), (y, b), (y, c)]

    # ---- the shape left
    def seq(self, eng, st, n, get, out, seen):
        if n in seen: out.append(('again', n)); return
        seen.add(n)
        c = st.ts.get(('in', n))
        if c:
            if c[1] != 'left': out.append(('before', n))
            self.seq(eng, st, c[0], get, out, seen)
            if c[1] != 'right': out.append(('after', n))
        else:
            for f in ('left', 'right'):
                v = get(n, f)
                if v is None: out.append((f, n))
                elif self.null(eng, st, v) is not True: self.seq(eng, st, v, get, out, seen)
                if f == 'left': out.append(n)

    def on_leave(self, eng, st, fr, val):
        if fr.fn is not self.root or len(fr.stack) > 1: return
        inst = fr.fn.blocks[-1][-1]
        ts = st.ts
        w = [k for k in ts if k[0] == 'w']
        freed = {k[1] for k in ts if k[0] == 'freed'}
        made = {k[1] for k in ts if k[0] == 'made'}
        if not (w or freed or made):
            if fr.fn.ret == 'i1' and val[0] == 'c' and val[1]: self.bad(eng, fr, inst, st, 'tree', 'result does not say whether an entry was added or removed')
            return
        self.exits += 1
        B = lambda m: self.bad(eng, fr, inst, st, 'tree', m)
        now = lambda n, f: st.mem.get((n, self.off_(f))) if (n, self.off_(f)) in st.mem else ZERO if n in st.zero else ts.get(('pre', n, f))
        maps = {k[1] for k in ts if k[0] in ('w', 'pre') and k[2] == 'tree'}
        nodes = {k[1] for k in ts if k[0] in ('w', 'pre') and k[2] != 'tree' and self.null(eng, st, k[1]) is not True} - freed
        for k in w:                                             # what was written is mirrored
            n, f = k[1], k[2]
            v = now(n, f)
            if n in freed: continue
            if v in freed: B('entry of a map left linked to a released one'); continue
            if f == 'tree':
                if self.null(eng, st, v) is not True and self.null(eng, st, now(v, 'parent')) is not True and not (now(v, 'parent') is None and self.flat): B('topmost entry of a map has an entry above it')
            elif f in SIDE:
                if self.null(eng, st, v) is True: continue
                if now(v, 'parent') != n: B('entry put below another without referring back to it')
            else:
                if self.null(eng, st, v) is True:
                    if not any(now(m, 'tree') == n for m in maps): B('entry without one above it is not the topmost one of the map')
                elif self.null(eng, st, v) is None and any(now(m, 'tree') == n for m in maps): B('topmost entry of a map may have an entry above it')
                elif now(v, 'left') != n and now(v, 'right') != n: B('entry refers to one above it that does not refer back')
                elif now(v, 'left') == n and now(v, 'right') == n and n not in made: B('entry linked on both sides of the one above it')
        for n in nodes:                                         # links left alone still hold
            for f in ('left', 'right'):
                v = now(n, f)
                if v is None or v == ZERO or self.null(eng, st, v) is True: continue
                if v in freed: B('entry of a map left linked to a released one')
                elif v in nodes and now(v, 'parent') is not None and now(v, 'parent') != n: B('entry still linked below one it no longer refers to')
        for m in maps:
            v = now(m, 'tree')
            if v in freed: B('map left with a released entry as its topmost one')
            elif v in nodes and self.null(eng, st, now(v, 'parent')) is False: B('topmost entry of a map has an entry above it')
        for n in freed:
            p = ts.get(('pre', n, 'parent'))
            if p is None or p != ZERO and self.null(eng, st, p) is None: B('entry released without being taken out of the map'); continue
            if p == ZERO or self.null(eng, st, p) is True:
                if not any(now(m, 'tree') not in (None, n) for m in maps): B('entry released while still the topmost one of the map')
            else:
                f = next((f for f in SIDE if ts.get(('pre', p, f)) == n), None)
                if f is None or now(p, f) == n: B('entry released while still linked below another')
            for f in SIDE:
                c = ts.get(('pre', n, f))
                if c is None: B('entry released without regard to those below it')
                elif c not in freed and self.null(eng, st, c) is not True and now(c, 'parent') in (n, None): B('entry released while another one refers to it')
        for n in made:
            if not any(now(x, f) == n for x in nodes for f in SIDE) and not any(now(m, 'tree') == n for m in maps): B('new entry is not linked into the map')
        if fr.fn.ret == 'i1':
            b = eng.decide(st, val) if val[0] != 'c' else bool(val[1])
            if b is not None and b != bool(freed or made): B('result does not say whether an entry was added or removed')
        if self.flat or self.two: return
        pre = lambda n, f: ts.get(('pre', n, f))
        before = self.order(eng, st, (nodes | freed) - made, pre)
        after = self.order(eng, st, nodes, now)
        if before is None or after is None: return
        self.orders += 1
        b = [[x for x in s if x not in freed] for s in before]
        a = [[x for x in s if x not in made] for s in after]
        F = lambda ss: sorted(repr(s) for s in ss if s)
        if F(b) != F(a): B('entries of a map not kept in their order')

    def order(self, eng, st, nodes, get):
        nodes = set(nodes) | {k[1] for k in st.ts if k[0] == 'in'} | {v[0] for k, v in st.ts.items() if k[0] == 'in'}
        below = {v for n in nodes for f in SIDE for v in [get(n, f)] if v is not None and v != ZERO} | {v[0] for k, v in st.ts.items() if k[0] == 'in'}
        out = []
        for n in sorted(nodes - below, key=repr):
            if self.null(eng, st, n) is True: continue
            s = []
            self.seq(eng, st, n, get, s, set())
            if any(x[0] == 'again' for x in s if isinstance(x, tuple)): return [[('cycle',)]]
            out.append(s)
        return out


class SearchRule(Tree):
    """a descent by key turns to the side the comparison says, and ends at an equal key or at an empty side"""
    name = 'search'

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file.endswith(self.SRC) and fn.name not in self.writers and not self.p.callees.get(fn.name)

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Base.on_loaded(self, eng, st, fr, inst, ptr, val)
        f = self.node(ptr)
        b = loc_of(ptr)[0]
        if f == 'key': st.ts[('key', val)] = b
        if f == 'tree': st.ts[('end', val)] = 1
        if f in SIDE and self.turn(eng, fr, inst, st, b, f): st.ts[('end', val)] = 1

    def rel(self, st, n):
        return [(k[2], v) for k, v in st.ts.items() if k[0] == 'rel' and k[1] == n]

    def turn(self, eng, fr, inst, st, n, f, write=False):
        """the comparison known for entry n allows going on to its side f"""
        rs = self.rel(st, n)
        if not rs: return False                     # looked at, not followed: judged when it is compared or returned
        for r, sign in rs:
            gt, lt, eq = (eng.decide(st, ('cmp', x, r, C(0))) for x in ('sgt', 'slt', 'eq'))
            if gt is None and lt is False and eq is False: gt = True
            if lt is None and gt is False and eq is False: lt = True
            if sign < 0: gt, lt = lt, gt            # gt: the entry's key is greater
            if (gt if f == 'left' else lt): return True
            ge = lt is False; le = gt is False
            if not self.found_ and (ge if f == 'left' else le):
                o = st.ts.setdefault(('ties',), f)  # a key known not to be there: equal keys do not occur
                return True
        return False

    def on_store(self, eng, st, fr, inst, ptr, val):
        f = self.node(ptr)
        if f not in SIDE or val == ZERO: return
        n = loc_of(ptr)[0]
        if n in st.fresh or n in st.zero: return
        self.turns += 1
        if not self.turn(eng, fr, inst, st, n, f, True): self.bad(eng, fr, inst, st, 'search', 'entry put on a side of another that the comparison of their keys did not say')
        v = st.mem.get((n, self.N[f]))
        if v is None or self.null(eng, st, v) is not True: self.bad(eng, fr, inst, st, 'search', 'entry put where another one may already be')

    def on_call(self, eng, st, fr, inst, callee, args):
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        if callee == 'iot_data_cmp':
            a, b = root(args[0]), root(args[1])
            na, nb = st.ts.get(('key', a)), st.ts.get(('key', b))
            self.mode.setdefault(repr(args[2]), (fr.fn.name, inst.line))
            r = next((v for k, v in st.ts.items() if k == ('memo', a, b)), None)
            if r is None:
                r = mk(); st.ts[('memo', a, b)] = r
            n, sign = (na, 1) if na is not None and b == self.key else (nb, -1) if nb is not None and a == self.key else (None, 0)
            if n is None:
                self.bad(eng, fr, inst, st, 'search', 'descent does not compare the key looked for with the key of an entry'); return [(r, st)]
            self.cmpd += 1
            if not self.reached(st, n): self.bad(eng, fr, inst, st, 'search', 'descent goes on to a side that the comparison of keys did not say')
            st.ts[('rel', n, r)] = sign
            return [(r, st)]
        fn = self.p.funcs.get(callee)
        if fn is self.root and self.found_:                         # the rest of the descent, by itself
            n = root(args[self.starti])
            if root(args[self.keyi]) != self.key: self.bad(eng, fr, inst, st, 'search', 'descent goes on with another key')
            if not self.reached(st, n): self.bad(eng, fr, inst, st, 'search', 'descent goes on to a side that the comparison of keys did not say')
            r = mk(); st.ts[('rest', r)] = 1
            return [(r, st)]
        if fn is not None and self.inline(eng, fn, fr, st, inst, args): return None
        if fn is not None and not fn.public and callee in self.allocs and fn.sig[0].replace(' ', '') == NODE + '*':
            r = mk(); eng.set_ne(st, r, 0); st.zero = st.zero | {r}; st.fresh = st.fresh | {r}
            return [(r, st)]
        return [(('void',) if inst.ty == 'void' else mk(), st)]

    def live_syms(self, st, out):
        Tree.live_syms(self, st, out)
        if self.found_:
            if self.start: out.add(self.start)
            out |= {k[1] for k in st.ts if k[0] == 'end'}

    def reached(self, st, n):
        return ('end', n) in st.ts or n == self.start

    def on_leave(self, eng, st, fr, val):
        if fr.fn is not self.root or len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        if not self.found_: return
        v = root(val)
        if ('rest', v) in st.ts: return
        if self.null(eng, st, v) is True:
            if not any(k[0] == 'end' and (k[1] == v or self.null(eng, st, k[1]) is True) for k in st.ts) and self.null(eng, st, self.start) is not True:
                self.bad(eng, fr, inst, st, 'search', 'key reported missing before an empty side was reached')
        elif not any(eng.decide(st, ('cmp', 'eq', r, C(0))) for r, _ in self.rel(st, v)): self.bad(eng, fr, inst, st, 'search', 'entry returned whose key did not compare equal')


class SizeRule(Tree):
    """the number kept in a map changes by exactly the entries put in and taken out"""
    name = 'count'

    def scan(self):
        Tree.scan(self)
        self.ins = {n for n in self.p.funcs if not self.p.funcs[n].public and n in self.writers and n in self.allocs and n in self.cmps}
        self.rem = {n for n in self.p.funcs if not self.p.funcs[n].public and n in self.writers and n in self.frees and self.p.funcs[n].ret in ('i1', 'i8', 'i32', 'void')} - self.ins

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file.endswith(self.SRC) and fn.name not in self.p.callees.get(fn.name, ()) and fn.name in self.through

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        void = lambda: ('void',) if inst.ty == 'void' else mk()
        if fn is None or fn.public or not fn.file.endswith(self.SRC): return [(void(), st)]
        if self.finds(fn):
            key = root(next(a for a, f in zip(args, fn.args) if f[3].replace(' ', '').replace('const', '') == 'iot_data_t*'))
            h = st.ts.get(('has', key))
            if h is not None:
                if h == 0: return [(ZERO, st)]
                return [(h, st)]
            r = mk('node'); s2 = st.copy(); eng.set_ne(st, r, 0)
            st.ts[('has', key)] = r; s2.ts[('has', key)] = 0
            st.note('%s: key is in the map' % eng.where(fr, inst)); s2.note('%s: key is not in the map' % eng.where(fr, inst))
            return [(r, st), (ZERO, s2)]
        if callee in self.ins:
            key = root(args[1])
            if st.ts.get(('has', key)) != 0: self.bad(eng, fr, inst, st, 'count', 'entry added for a key that may already be in the map')
            st.ts[('in',)] = st.ts.get(('in',), 0) + 1
            st.ts[('has', key)] = mk('node'); eng.set_ne(st, st.ts[('has', key)], 0)
            return [(void(), st)]
        if callee in self.rem:
            s2 = st.copy()
            st.ts[('out',)] = st.ts.get(('out',), 0) + 1
            st.note('%s: entry removed' % eng.where(fr, inst)); s2.note('%s: no entry removed' % eng.where(fr, inst))
            return [(C(1) if inst.ty != 'void' else ('void',), st), (ZERO if inst.ty != 'void' else ('void',), s2)]
        if self.inline(eng, fn, fr, st, inst, args): return None
        return [(void(), st)]

    def delta(self, v):
        """how far a value is from the size loaded"""
        if v is None or v[0] == 's': return 0
        if v[0] == 'i' and len(v[2]) == 1 and v[2][0][0] == 1: return v[1]
        if v[0] == 'op' and v[1] in ('add', 'sub') and v[3][0] == 'c':
            d = self.delta(v[2])
            return None if d is None else d + v[3][1] * (1 if v[1] == 'add' else -1)
        if v[0] == 'op' and v[1] == 'add' and v[2][0] == 'c': return self.delta(('op', 'add', v[3], v[2]))
        return None

    def on_leave(self, eng, st, fr, val):
        if fr.fn is not self.root or len(fr.stack) > 1: return
        d = st.ts.get(('in',), 0) - st.ts.get(('out',), 0)
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        now = st.mem.get((self.map, self.M['size']))
        delta = self.delta(now)
        if delta is not None and delta >= 1 << 31: delta -= 1 << 32
        if delta != d: self.bad(eng, fr, inst, st, 'count', 'size of a map not changed by the entries added and removed')
        if fr.fn.ret == 'i1' and self.counted:
            b = eng.decide(st, val) if val[0] != 'c' else bool(val[1])
            if b is not None and b != (d != 0): self.bad(eng, fr, inst, st, 'count', 'result does not say whether an entry was added or removed')


class StepRule(Tree):
    """one step of an iteration goes to the neighbour in key order"""
    name = 'step'

    def scan(self):
        Tree.scan(self)
        self.I = {f: self.o('iot_data_map_iter_t', f) for f in ('_map', '_node')}
        self.it = ('s', None, 'arg0', '')

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and fn.file.endswith(self.SRC)

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        if fn is not None and self.inline(eng, fn, fr, st, inst, args): return None
        return [(('void',) if inst.ty == 'void' else eng.fresh_sym(st, fr, eng.cur_env, inst, '', 'result of ' + callee), st)]

    def live_syms(self, st, out):
        Tree.live_syms(self, st, out)
        if ('n0',) in st.ts: out.add(st.ts[('n0',)])

    def cls(self, st, v):
        if v == st.ts.get(('n0',)): return 'n0'
        return st.ts.get(('cls', v), (None,))[0]

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Base.on_loaded(self, eng, st, fr, inst, ptr, val)
        t = tag_of(ptr)
        b, o = loc_of(ptr)
        if t and t[0] == 'iot_data_map_iter_t' and t[1] == '_node' and val[0] == 's' and ('n0',) not in st.ts: st.ts[('n0',)] = val
        f = self.node(ptr)
        if f is None or val[0] != 's' or ('cls', val) in st.ts: return
        c = self.cls(st, b)
        D, O = self.D, SIDE[self.D]
        k = None
        if f == 'tree': k = 'top'
        elif f == O and c == 'top': k = 'top'
        elif f == D and c == 'n0': k = 'down'
        elif f == O and c == 'down': k = 'down'
        elif f == 'parent' and c in ('n0', 'up'): k = 'cand'
        elif f == 'parent' and c == 'cand': k = 'cand?'
        if k:
            st.ts[('cls', val)] = (k,)
            if k == 'cand': st.ts[('below', val)] = b

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if cond[0] != 'cmp' or cond[1] not in ('eq', 'ne'): return
        same = taken == (cond[1] == 'eq')
        for n, r in ((cond[2], cond[3]), (cond[3], cond[2])):
            for k, v in list(st.ts.items()):
                if k[0] == 'below' and v == n and self.cls(st, k[1]) == 'cand':          # k[1] is above n; r one of its sides?
                    for s in SIDE:
                        if st.mem.get((k[1], self.N[s])) == r:
                            on = (s == self.D) == same
                            st.ts[('cls', k[1])] = ('up' if on else 'stop',)
                            st.ts.pop(k, None)

    def on_leave(self, eng, st, fr, val):
        if fr.fn is not self.root or len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        B = lambda m: self.bad(eng, fr, inst, st, 'step', m)
        it = ('s', (self.root.name,), 'arg0', '')
        v = st.mem.get((it, self.I['_node']))
        n0 = st.ts.get(('n0',))
        if v is None or n0 is None: B('iteration step does not move on'); return
        first = self.null(eng, st, n0)
        D, O = self.D, SIDE[self.D]
        side = lambda n, f: self.null(eng, st, st.mem[(n, self.N[f])]) if (n, self.N[f]) in st.mem else None
        cl = {k[1]: v[0] for k, v in st.ts.items() if k[0] == 'cls'}
        if self.null(eng, st, v) is True:
            if first is True: ok = any(c == 'top' and self.null(eng, st, n) is True for n, c in cl.items()) and 'down' not in cl.values()
            else: ok = side(n0, D) is True and any(c == 'cand' and self.null(eng, st, n) is True for n, c in cl.items())
            if not ok: B('iteration ends before the last entry')
            return
        c = self.cls(st, root(v))
        ok = c == 'top' and first is True and side(v, O) is True or c == 'down' and first is False and side(v, O) is True or c == 'stop' and first is False and side(n0, D) is True
        if not ok: B('iteration does not go to the next entry in key order')


def run_search(prog):
    rule = SearchRule(prog)
    eng = Engine(prog, rule)
    rule.turns = rule.cmpd = 0; rule.mode = {}
    roots = []
    for n in sorted(rule.cmps):
        f = prog.funcs[n]
        t = [a[3].replace(' ', '').replace('const', '') for a in f.args]
        if f.public or not (rule.loads.get(n, set()) & {'left', 'right'}) or 'iot_data_t*' not in t: continue
        A = lambda i: ('s', (n,), 'arg%d' % i, '')
        rule.root = f; rule.found_ = rule.finds(f)
        rule.key = A(t.index('iot_data_t*'))
        rule.keyi = t.index('iot_data_t*'); rule.starti = t.index(NODE + '*') if NODE + '*' in t else None
        rule.start = A(rule.starti) if NODE + '*' in t else None
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n); roots.append(n)
    if len(rule.mode) > 1:
        (a, b) = list(rule.mode.values())[:2]
        f = prog.funcs[b[0]]
        eng.reports.append({'file': f.file, 'line': b[1], 'function': b[0], 'rule': 'search', 'message': 'keys of a map compared in two ways', 'path': ['%s:%d compares them differently' % a], 'callstack': [b[0]]})
    return eng, rule, roots


def run_sizes(prog):
    rule = SizeRule(prog)
    eng = Engine(prog, rule)
    base = lambda n: n in rule.ins or n in rule.rem
    finds = lambda n: n in prog.funcs and rule.finds(prog.funcs[n])
    rule.through = {n for n in reach(prog, lambda n: base(n) or n in rule.sizes or finds(n)) if not prog.funcs[n].public and not finds(n)} - rule.ins - rule.rem
    roots = []
    for n, f in sorted(prog.funcs.items()):
        if not f.public or not f.file.endswith(rule.SRC): continue
        if n not in rule.sizes and not any(base(c) or c in rule.through for c in prog.callees.get(n, ())): continue
        rule.root = f; rule.keep = {n}
        rule.map = ('s', (n,), 'arg0', '')
        rule.counted = f.ret == 'i1'
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n); roots.append(n)
    return eng, rule, roots


def run_steps(prog):
    rule = StepRule(prog)
    eng = Engine(prog, rule)
    roots = []
    for n, d in (('iot_data_map_iter_next', 'right'), ('iot_data_map_iter_prev', 'left')):
        f = prog.funcs[n]
        rule.root = f; rule.keep = {n}; rule.D = d
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n); roots.append(n)
    return eng, rule, roots


def run_links(prog):
    rule = LinkRule(prog)
    eng = Engine(prog, rule)
    rule.orders = 0
    roots = []
    nodes = lambda f: sum(a[3].replace(' ', '') == NODE + '*' for a in f.args)
    todo, skip = sorted(rule.writers), set()
    for n in todo:
        f = prog.funcs[n]
        cs = [c for c in prog.callers.get(n, ()) if c != n]
        if f.public or n not in rule.flats and cs and (nodes(f) > 1 or nodes(f) and all(c not in rule.flats and not prog.funcs[c].public for c in cs)):
            if not f.public: todo += [c for c in cs if c not in todo]           # a part of its callers
            continue
        rule.root = f
        rule.flat = n in rule.flats or n in rule.loopy and n in rule.cmps          # where a new entry belongs is the search rule's question
        rule.two = sum(a[3].replace(' ', '') == NODE + '*' for a in f.args) > 1
        rule.map = next((('s', (n,), 'arg%d' % i, '') for i, a in enumerate(f.args) if a[3].replace(' ', '') == MAP + '*'), None)
        if rule.map is None: continue
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n)
        roots.append(n)
    return eng, rule, roots


if __name__ == '__main__':
    import sys, ir, time
    t = time.time(); p = ir.load('debug')
    eng, rule, rs = globals()['run_' + sys.argv[1]](p)
    for x in eng.reports:
        print('%s:%s %s [%s] %s   %s' % (x['file'].split('/')[-1], x['line'], x['function'], x['rule'], x['message'], '>'.join(x['callstack'][1:])))
        if len(sys.argv) > 2:
            for y in x['path']: print('      ', y)
    print(rs, {k: v for k, v in rule.__dict__.items() if k in ('exits', 'orders', 'turns', 'cmpd', 'mode', 'ins', 'rem')}, time.time() - t)
