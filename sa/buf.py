"""Buffers (S02): nothing is written outside the memory it belongs in."""
import os, re, time
from engine import *
from life import Plain, touches


VERB = DBG = False


class L:
    """linear form over abstract values: constant + sum of coefficient * value"""
    __slots__ = ('k', 't')

    def __init__(self, k=0, t=None):
        self.k = k; self.t = t or {}

    def __add__(self, o):
        t = dict(self.t)
        for v, c in o.t.items():
            t[v] = t.get(v, 0) + c
            if not t[v]: del t[v]
        return L(self.k + o.k, t)

    def scale(self, n):
        return L(self.k * n, {v: c * n for v, c in self.t.items()} if n else {})

    def __sub__(self, o): return self + o.scale(-1)

    def key(self): return ('lin', self.k, tuple(sorted(self.t.items(), key=repr)))


def quotient(v):
    if v[0] == 'op' and v[1] in ('lshr', 'udiv') and v[3][0] == 'c': return v[2], (1 << v[3][1] if v[1] == 'lshr' else max(v[3][1], 1))


def unkey(k): return L(k[1], dict(k[2]))


# text and data buffers kept with their capacity: pointer field -> (capacity field, bytes per unit)
CAP = {('iot_string_holder_t', 'str'): ('size', 1), ('iot_cbor_holder_t', 'data'): ('size', 1), ('iot_parsed_holder_t', 'parsed'): ('size', 1), ('iot_data_vector_t', 'values'): ('size', 8)}
# what is true of such a buffer between calls: (struct, smaller side, larger side, slack): larger - smaller - slack >= 0
INV = {'iot_string_holder_t': ('free', 'size', 1), 'iot_cbor_holder_t': ('index', 'size', 0), 'iot_parsed_holder_t': ('len', 'size', 0)}
HOLD = {k[0]: k for k in CAP}
# library writes: (destination, length argument, factor argument)
WRITES = {'memcpy': (0, 2, None), 'memmove': (0, 2, None), 'memset': (0, 2, None), 'strncpy': (0, 2, None), 'snprintf': (0, 1, None), 'vsnprintf': (0, 1, None), 'read': (1, 2, None), 'fread': (0, 1, 2), 'fgets': (0, 1, None), 'recv': (1, 2, None), 'strftime': (0, 1, None),
          'iot_b64_encode': (2, 3, None), 'gethostname': (0, 1, None)}
# sizes that include a terminator
ATLEAST = {'iot_b64_encodesize'}
# answers -1 where a length is expected
MINUS = {'c32rtomb', 'mbrtoc32', 'mbrtowc', 'read', 'recv', 'recvfrom', 'readlink'}
# library reads: (source, length argument, factor argument)
READS = {'memcpy': (1, 2, None), 'memmove': (1, 2, None), 'fwrite': (0, 1, 2), 'write': (1, 2, None), 'send': (1, 2, None), 'sendto': (1, 2, None)}


class BufRule(Plain):
    name = 'buf'
    join_at = 40
    exit_join = 16
    max_steps = 40000

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.tables = set(); self.toksize = set(); self.refused = set(); self.sites = {}; self.exits = 0; self.gaveup = []
        self.recur = {n for n in prog.funcs if n in prog.reach(n, lambda f: True)} if False else set()

    def flat(self, fn):
        """small and without a loop: analysed as part of its callers; anything else on its own"""
        r = fn.__dict__.get('flat')
        if r is None:
            seen, path = set(), set()
            def back(b):
                seen.add(b); path.add(b)
                for x in fn.blocks[b][-1].d.get('succ', ()):
                    if x in path or x not in seen and back(x): return True
                path.discard(b)
                return False
            r = fn.flat = sum(len(b) for b in fn.blocks) <= 130 and not back(0)
        return r

    def on_enter(self, eng, st, fr):
        self.ctxfn[fr.ctx] = fr.fn.name

    def inline(self, eng, fn, fr, st, inst, args):
        return not fn.public and len(fr.stack) < 6 and fn.name not in fr.stack and (self.flat(fn) or sum(len(b) for b in fn.blocks) <= 70 and fn.name not in self.p.callees.get(fn.name, ()))

    # ---- linear forms
    def lin(self, eng, st, v, d=0, top=True):
        x = eng.lookup(st, v) if top else None
        if x is not None: return L(x if x < (1 << 63) else x - (1 << 64))
        if v[0] == 'op' and d < 12:
            if v[1] == 'add': return self.lin(eng, st, v[2], d + 1) + self.lin(eng, st, v[3], d + 1)
            if v[1] == 'sub': return self.lin(eng, st, v[2], d + 1) - self.lin(eng, st, v[3], d + 1)
            if v[1] in ('mul', 'shl'):
                a, b = self.lin(eng, st, v[2], d + 1), self.lin(eng, st, v[3], d + 1)
                if v[1] == 'shl': return a.scale(1 << b.k) if not b.t and 0 <= b.k < 32 else L(0, {v: 1})
                if not b.t: return a.scale(b.k)
                if not a.t: return b.scale(a.k)
        if v[0] == 'p' and isinstance(v[2], int): return L(v[2], {v[1]: 1})
        if v[0] == 'p': 
            r = L(v[2][1], {v[1]: 1})
            for sc, x in v[2][2]: r = r + self.lin(eng, st, x, d + 1).scale(sc)
            return r
        return L(0, {v: 1})

    def offs(self, eng, st, ptr):
        if ptr[0] != 'p': return L(0)
        o = ptr[2]
        if isinstance(o, int): return L(o)
        r = L(o[1])
        for sc, x in o[2]: r = r + self.lin(eng, st, x).scale(sc)
        return r

    def facts(self, eng, st):
        out = []; apart = []
        for k, f in st.facts.items():
            if k[0] == 'cmp' and f[0] == 'b' and k[1] in ('eq', 'ne') and (k[1] == 'eq') != f[1]: apart.append(self.lin(eng, st, k[2]) - self.lin(eng, st, k[3]))
            if f[0] == 'ne' and 0 in f[1] and k[0] in ('s', 'op'):
                out.append(L(-1, {k: 1}) if k[0] == 's' else self.lin(eng, st, k) + L(-1))
            if f[0] == 'eq' and k[0] == 'op' and k[1] in ('add', 'sub') and abs(f[1]) < 1 << 40:
                d = self.lin(eng, st, k, 0, False) + L(-f[1])
                out += [d, L(0) - d]
            if k[0] == 'cmp' and f[0] == 'b':
                pred = k[1] if f[1] else NEG[k[1]]
                if pred == 'eq':
                    a, b = self.lin(eng, st, k[2]), self.lin(eng, st, k[3])
                    out += [a - b, b - a]
                if pred[1:] not in ('lt', 'le', 'gt', 'ge'): continue
                a, b = self.lin(eng, st, k[2]), self.lin(eng, st, k[3])
                if pred[1] == 'l': d = b - a
                else: d = a - b
                if pred[2] == 't': d = d + L(-1)
                out.append(d)
        keys = {d.key() for d in out}
        for d in apart:
            if d.key() in keys: out.append(d + L(-1))
            n = L(0) - d
            if n.key() in keys: out.append(n + L(-1))
        return out

    def never(self, facts):
        low = {}
        for f in facts:
            if not f.t:
                if f.k < 0: return True
                continue
            t = frozenset(f.t.items())
            low[t] = min(f.k, low.get(t, f.k))
        return any(k + low.get(frozenset((v, -c) for v, c in t), 0) < 0 for t, k in low.items() if frozenset((v, -c) for v, c in t) in low)

    def know(self, eng, st, a, b):
        """a <= b holds here"""
        if a[0] == 'c' and b[0] == 'c': return
        st.facts[eng.norm_cmp('ule', a, b)] = ('b', True)

    def nonneg(self, eng, st, d, facts):
        """d >= 0: constant, or a sum of path facts plus non-negative quantities"""
        def pos(x): return x.k >= 0 and all(c > 0 for c in x.t.values())
        if pos(d): return True
        neg = [v for v, c in d.t.items() if c < 0]
        seen = [d]
        for rnd in range(3):
            nxt = []
            for x in seen:
                for f in facts:
                    # use f only to get rid of a negative term (or of a lacking constant)
                    ns = [v for v, c in x.t.items() if c < 0 and f.t.get(v, 0) < 0]
                    if ns:
                        for v in ns:
                            if x.t[v] % f.t[v] == 0:
                                y = x - f.scale(x.t[v] // f.t[v])
                                if pos(y): return True
                                nxt.append(y)
                    elif not any(c < 0 for c in x.t.values()) and x.k < 0:
                        n = min([x.t[v] // f.t[v] for v in f.t if f.t[v] > 0 and v in x.t] or [1])
                        y = x - f.scale(max(n, 1))
                        if pos(y): return True
            seen = nxt[:200]
        return False

    # ---- sizes
    def size(self, eng, st, ptr):
        """(capacity, offset) of the object written, or None when it is not known"""
        r = root(ptr)
        t = tag_of(ptr)
        s = st.mem.get((r, '#size'))
        if s is not None: return self.lin(eng, st, s), self.offs(eng, st, ptr)
        if r[0] == 'a':
            f = self.ctxfn.get(r[1])
            n = f and self.asize.get((f, r[2]))
            if n: return L(n), self.offs(eng, st, ptr)
        if r[0] == 'g':
            g = self.p.globals.get(r[1])
            if g and g.get('size'): return L(g['size']), self.offs(eng, st, ptr)
        if t is not None and t in self.off_:
            f = self.off_[t]
            if f[3].endswith(']') and f[2] > 0: return L(f[2]), self.offs(eng, st, ptr) - L(f[1])
        return None

    def write(self, eng, st, fr, inst, ptr, n, how):
        so = self.size(eng, st, ptr)
        k = (fr.fn.name, inst.line, how)
        if so is None:
            self.sites.setdefault(k, set()).add('unknown'); return
        S, o = so
        if root(ptr) in self.grown: k = k[:2] + (how + ' after growing',)
        facts = self.facts(eng, st)
        if self.never(facts): return      # only reached if a length wraps round
        D = S - o - n
        for v in list(D.t):
            q = quotient(v)
            if q:
                hi = eng.bounds(st, q[0], False)[1]
                for f in list(facts):
                    for w, c in f.t.items():
                        p = quotient(w)
                        if len(f.t) == 1 and c == -1 and p and p[0] == q[0] and f.k >= 0:
                            h = (f.k + 1) * p[1] - 1
                            hi = h if hi is None else min(hi, h)
                if hi is not None: facts.append(L(hi // q[1], {v: -1}))
            if v[0] == 'op' and v[1] == 'and' and v[3][0] == 'c': facts.append(L(v[3][1], {v: -1}))
        if not o.t and o.k < 0: self.sites.setdefault(k, set()).add('BAD before its start')
        self.verdict(eng, st, k, D, facts)

    def show(self, eng, D):
        return ' '.join(['%+d*%s' % (c, eng.describe(v)) for v, c in D.t.items()] + ['%+d' % D.k])

    # ---- text lengths
    def text(self, eng, st, fr, inst, v):
        """length of the text at v"""
        r, o = loc_of(v)
        if r[0] == 'g':
            g = self.p.globals.get(r[1])
            if g and g.get('const') and (g.get('init') or [''])[0] == 'str':
                b = bytes.fromhex(g['init'][1])
                if isinstance(o, int) and b'\0' in b[o:]: return C(b[o:].index(b'\0'))
        k = (r, '#text' + (str(o) if isinstance(o, int) else repr(o)))
        if k not in st.mem:
            x = ('s', fr.ctx, inst.id, 'text')
            eng.retire(st, eng.cur_env, x)
            eng.desc.setdefault(x, 'length of ' + eng.describe(v))
            st.mem[k] = x
        return st.mem[k]

    def set_text(self, st, v, n):
        r, o = loc_of(v)
        st.mem[(r, '#text' + (str(o) if isinstance(o, int) else repr(o)))] = n

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        t = tag_of(ptr)
        if root(ptr)[0] == 'g' and not isinstance(loc_of(ptr)[1], int): self.tables.add(val)
        if t is not None and t[0].startswith('iot_json_tok') and t[1] == 'size': self.toksize.add(val)
        if t is not None and t[0] in HOLD: self.hold(eng, st, fr, inst, ptr, t)

    def hold(self, eng, st, fr, inst, ptr, t):
        """first touch of a buffer kept with its capacity: what is true of one between calls holds"""
        T = t[0]
        base, o = loc_of(ptr)
        if not isinstance(o, int): return
        b0 = o - self.o(T, t[1])
        self.holders[base] = (b0, T)
        def fld(x):
            k = (base, b0 + self.o(T, x))
            if k not in st.mem and base in st.zero: st.mem[k] = ZERO
            if k not in st.mem:
                n = ('s', fr.ctx, inst.id, 'fld' + x)
                eng.retire(st, eng.cur_env, n)
                eng.desc.setdefault(n, x)
                st.mem[k] = n
                if (base, '#hold') in st.mem: self.lost.add(n)
            return st.mem[k]
        f, sc = CAP[HOLD[T]]
        d = fld(HOLD[T][1])
        fld(f); [fld(x) for x in INV.get(T, ())[:2]]
        st.mem[(base, '#hold')] = ZERO
        if st.mem.get((d, '#size')) is None: self.initvals |= {fld(x) for x in INV.get(T, ())[:2]} | {fld(f), d}
        if d[0] == 's' and (d, '#size') not in st.mem:
            st.mem[(d, '#size')] = eng.arith('mul', fld(f), C(sc), inst) if sc > 1 else fld(f)
        if T in INV:
            a, b, sl = INV[T]
            x, y = fld(a), fld(b)
            if x[0] == 's' and y[0] == 's': self.know(eng, st, eng.arith('add', x, C(sl), inst) if sl else x, y)

    def on_stored(self, eng, st, fr, inst, ptr, val):
        if val == ZERO and inst.d.get('size') == 1: self.set_text(st, ptr, ZERO)

    def invariant(self, eng, st, fr, inst, roots=None):
        """a buffer handed on, or left behind, is one whose size and use are what they say they are"""
        for base, (b0, T) in list(self.holders.items()):
            if T not in INV or roots is not None and base not in roots or roots is None and base[0] == 'a': continue
            f = {x: st.mem.get((base, b0 + self.o(T, x))) for x in (HOLD[T][1],) + INV[T][:2] + CAP[HOLD[T]][:1]}
            if None in f.values(): continue
            k = (fr.fn.name, inst.line, 'state of ' + T)
            facts = self.facts(eng, st)
            if self.never(facts): continue
            a, b, sl = INV[T]
            Ds = []
            if not {f[a], f[b]} <= self.initvals: Ds.append(('use of ', self.lin(eng, st, f[b]) - self.lin(eng, st, f[a]) + L(-sl)))
            d = f[HOLD[T][1]]
            sz = st.mem.get((root(d), '#size'))
            if sz is not None and not {d, f[CAP[HOLD[T]][0]]} <= self.initvals:
                Ds.append(('room of ', self.lin(eng, st, sz) - self.offs(eng, st, d) - self.lin(eng, st, f[CAP[HOLD[T]][0]]).scale(CAP[HOLD[T]][1])))
            for how, D in Ds: self.verdict(eng, st, k[:2] + (how + T,), D, facts)

    def verdict(self, eng, st, k, D, facts):
        if not D.t:
            if DBG and D.k < 0: print('BADD', k, [self.show(eng, x) for x in facts])
            r = 'held' if D.k >= 0 else 'BAD'
        elif self.nonneg(eng, st, D, facts): r = 'held'
        else:
            r = 'OPEN'
            if DBG: print('D', self.show(eng, D), list(D.t)); [print('   ', self.show(eng, x)) for x in facts]
            if any(set(f.t) & set(D.t) and any(v in self.tables for v in f.t) for f in facts): r = 'MIXED'     # room counted with a table
            if any(v[0] == 's' and (isinstance(v[2], tuple) or v in self.lost) or 'earlier' in eng.describe(v) for v in D.t): r = 'MIXED'
            for n in range(1, 10 if r == 'OPEN' else 0):
                if self.nonneg(eng, st, D + L(n), facts): r = 'NEAR%d' % n; break
        self.sites.setdefault(k, set()).add(r if r == 'held' else r + ' ' + self.show(eng, D))

    def on_ret(self, eng, st, fr, inst, val):
        self.invariant(eng, st, fr, inst)
        if ('empty',) in st.ts: self.refused.add(val[0] == 'c' and (val[1] >> 31) & 1 == 1)

    def on_branch(self, eng, st, fr, inst, cond, taken):
        if fr.fn.name == 'iot_json_parse' and taken and cond[0] == 'cmp' and self.token_size(cond): st.ts[('empty',)] = 1
        return Plain.on_branch(self, eng, st, fr, inst, cond, taken)

    geps = True

    def on_gep(self, eng, st, fr, inst, v):
        if not self.minus or v[0] != 'p' or isinstance(v[2], int): return
        for r in self.minus:
            if not any(contains(x, r) for _, x in v[2][2]): continue
            f = st.facts.get(r)
            if f and f[0] == 'ne' and any(x & 0xffffffff == 0xffffffff for x in f[1]): continue
            hi = eng.bounds(st, r, False)[1]
            if hi is not None and hi < 1 << 31: continue
            lo = eng.bounds(st, r, True)[0]
            if lo is not None and lo >= 0: continue
            self.sites.setdefault((fr.fn.name, inst.line, 'move'), set()).add('BAD by a result that may be -1')

    def token_size(self, cond):
        o = [x for x in cond[2:4] if x[0] == 's' and x in self.toksize]
        k = [x[1] for x in cond[2:4] if x[0] == 'c']
        return o and k and (cond[1] == 'eq' and k[0] == 0 or cond[1][1:] in ('lt', 'le') and k[0] in (0, 1))

    def on_store(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        if t is not None and t[0] in HOLD and root(ptr)[0] == 'a':
            self.holders[root(ptr)] = (loc_of(ptr)[1] - self.o(*t), t[0])
        self.stores(eng, st, fr, inst, ptr)

    def stores(self, eng, st, fr, inst, ptr):
        r = root(ptr)
        if ptr[0] != 'p' or isinstance(ptr[2], int) and r[0] == 'a': return
        w = inst.d.get('size') or 1
        so = self.size(eng, st, ptr)
        if so is None: return
        # the characters of escaped text are written one by one; the room counted for them is not followed
        if w == 1 and (so[0] - so[1]).t and any(T == 'iot_string_holder_t' and st.mem.get((b, b0 + self.o(T, 'str'))) == r for b, (b0, T) in self.holders.items()): return
        self.write(eng, st, fr, inst, ptr, L(w), 'store')

    def on_load(self, eng, st, fr, inst, ptr):
        r = root(ptr)
        if ptr[0] != 'p' or isinstance(ptr[2], int): return
        if self.size(eng, st, ptr) is None: return
        self.write(eng, st, fr, inst, ptr, L(inst.d.get('size') or 1), 'load')

    def on_call(self, eng, st, fr, inst, callee, args):
        c = callee.split('@')[0]
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c.startswith('llvm.memset'): c = c.split('.')[1]
        c = {'__isoc99_vsnprintf': 'vsnprintf'}.get(c, c)
        fn = self.p.funcs.get(callee)
        if c in WRITES:
            d, n, m = WRITES[c]
            nn = self.lin(eng, st, args[n])
            if m is not None:
                x = self.lin(eng, st, args[m])
                nn = nn.scale(x.k) if not x.t else nn
            if not (args[d][0] == 'c'): self.write(eng, st, fr, inst, args[d], nn, c)
        if c in READS:
            d, n, m = READS[c]
            nn = self.lin(eng, st, args[n])
            if m is not None:
                x = self.lin(eng, st, args[m])
                nn = nn.scale(x.k) if not x.t else x.scale(nn.k) if not nn.t else L(0, {('s', (), 'product', ''): 1})
            if not (args[d][0] == 'c'): self.write(eng, st, fr, inst, args[d], nn, 'read by ' + c)
        tx = lambda k: self.text(eng, st, fr, inst, args[k])
        lt = lambda k: self.lin(eng, st, tx(k))
        add = lambda a, b: eng.arith('add', a, b, inst)
        if c == 'strcpy': self.write(eng, st, fr, inst, args[0], lt(1) + L(1), c)
        if c == 'strcat': self.write(eng, st, fr, inst, args[0], lt(0) + lt(1) + L(1), c)
        if c in ('sprintf', 'vsprintf'):
            n = st.ts.get(('fmt', tuple(args[1:])))
            self.write(eng, st, fr, inst, args[0], self.lin(eng, st, n) + L(1) if n else L(0, {('fmt',): 1}), c)
        if fn is not None and self.inline(eng, fn, fr, st, inst, args) and callee not in fr.stack: return None
        if inst.d.get('noret') or callee in self.p.noret: return None
        if fn is None and c in ('memcpy', 'memmove', 'memset', 'strlen') and c != 'strlen': return None
        keep = {k: v for k, v in st.mem.items() if isinstance(k[1], str)}
        if c == 'strlen': n = tx(0)
        if c == 'strcat': n = add(tx(0), tx(1))
        if c in ('strcpy', 'strdup'): n = tx(0 if c == 'strdup' else 1)
        if c == 'strcpy' and args[1][0] != 'g': pass
        if fn is not None: self.invariant(eng, st, fr, inst, {root(a) for a in args})
        (ret, s2, env), = eng.opaque(fr, eng.cur_env, st, inst, callee, args)
        hit = {root(a) for a in args}
        if c in ATLEAST: s2.facts[ret] = ('ne', frozenset([0]))
        for k, v in keep.items():
            if k not in s2.mem and (k[1] == '#size' or k[0] not in hit or c in PURE or callee in PURE): s2.mem[k] = v
        if fn is None:
            if c == 'strlen': return [(n, s2)]
            if c == 'malloc': s2.mem[(ret, '#size')] = args[0]
            elif c in MINUS: self.minus.add(ret)
            elif c == 'realloc': s2.mem[(ret, '#size')] = args[1]; self.grown.add(ret)
            elif c == 'calloc': s2.mem[(ret, '#size')] = eng.arith('mul', args[0], args[1], inst)
            elif c == 'strcpy' or c == 'strcat': self.set_text(s2, args[0], n)
            elif c == 'strncpy': self.set_text(s2, args[0], args[2])
            elif c == 'strdup': s2.mem[(ret, '#size')] = add(n, C(1)); self.set_text(s2, ret, n)
            elif c in ('vsnprintf', 'snprintf') and args[0] == ZERO: s2.ts[('fmt', tuple(args[2:]))] = ret
        return [(ret, s2)]

    def on_indirect(self, eng, st, fr, inst, fv, args):
        return None


def touches_holder(prog, rule, f):
    return any(t[0] in INV for t in rule.touch.get(f.name, ()))


def run_buf(prog, only=None):
    rule = BufRule(prog)
    rule.off_ = rule.off if isinstance(rule.off, dict) else rule.__dict__['off']
    rule.asize = {(n, i.id): i.d['size'] for n, f in prog.funcs.items() for b in f.blocks for i in b if i.op == 'alloca' and not i.d.get('vla')}
    rule.ctxfn = {}; rule.touch = touches(prog)
    eng = Engine(prog, rule)
    rs = []
    big = lambda f: sum(len(b) for b in f.blocks) > 160
    for n in sorted(prog.funcs):
        f = prog.funcs[n]
        if n.startswith('yxml') or only and n not in only: continue
        if not (f.public or touches_holder(prog, rule, f) or n in prog.addr_taken or not rule.flat(f) or n in prog.callees.get(n, ())): continue
        eng.steps = 0; eng.memo = {}
        rule.root = f; rule.holders = {}; rule.grown = set(); rule.lost = set(); rule.minus = set(); rule.initvals = set(); t0 = time.time()
        rule.ctxfn = {(n,): n}
        try:
            outs = eng.run_root(n, State())
        except Budget:
            rule.gaveup.append(n); continue
        if VERB and time.time() - t0 > 3: print('%.1f' % (time.time() - t0), n)
        rs.append(n); rule.exits += len(outs or ())
    return eng, rule, rs


SAY = {'BAD': 'goes past the end of its buffer', 'NEAR': 'fits in its buffer only if there is a little more room than was checked for', 'OPEN': 'is not known to fit in its buffer on any ground'}


def reports(eng, rule, assertless=False):
    out = []
    for (fn, line, how), v in alarms(eng, rule, assertless):
        f = rule.p.funcs.get(fn)
        kind = re.match('[A-Z]+', v)[0]
        out.append({'rule': 'room', 'function': fn, 'file': f.file if f else '', 'line': line, 'message': '%s %s' % (how, SAY[kind]) if kind != 'BAD' or ' ' not in v or v.split(' ')[1][:1] in '+-0123456789' else '%s: %s' % (how, v[4:]), 'path': ['left over: ' + v]})
    return out


def alarms(eng, rule, assertless=False):
    """a write is reported when some path to it is sure to overrun, when the room checked for is short by a few bytes,
    or when on no path at all there is a reason why it fits"""
    out = []
    if rule.toksize and True not in rule.refused: out.append((('iot_json_parse', 0, 'tokens'), 'BAD an object key that no value follows is accepted, and the reader of the tokens goes past their end'))
    for k, vs in sorted(rule.sites.items()):
        vs = {v for v in vs if v != 'unknown' and '_index' not in v}
        bad = [v for v in vs if v.startswith('BAD')] or [v for v in vs if v.startswith('NEAR') and len(v.split(' ')) <= 4]
        if k[2] != 'load' and not assertless: bad = bad or [v for v in vs if v.startswith('OPEN') or v.startswith('NEAR')]
        if bad: out.append((k, min(bad)))
    return out


if __name__ == '__main__':
    from ir import load
    import sys, time
    VERB = True; DBG = len(sys.argv) > 1; t = time.time()
    eng, rule, rs = run_buf(load(os.environ.get('V', 'debug')), sys.argv[1:])
    print(len(rs), 'roots', rule.exits, 'exits', '%.1fs' % (time.time() - t), rule.gaveup)
    for k, v in sorted(rule.sites.items()): print(k, sorted(v))
    for k, v in alarms(eng, rule): print('ALARM', k, v)
