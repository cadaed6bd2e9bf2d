"""Path-sensitive interprocedural dataflow over the normalised IR (property simulation).

Abstract state at a program point = SSA environment (live values only), a field-sensitive abstract memory,
branch facts over abstract values (finite: equality with constants and remembered comparisons), and the
property (typestate) component of the rule. States are propagated along CFG edges to a fixpoint; states that agree are
merged, and when a block collects more than `join_at` states, states with the same property component are joined
(facts and memory intersected). Internal functions are analysed in the context of every caller (inlined), so moving
code into or out of a helper does not change what is seen. Nothing is executed and no solver is used."""
import sys

sys.setrecursionlimit(20000)
ZERO = ('c', 0)


class Budget(Exception):
    pass


def C(n):
    return ('c', n)


def is_c(v):
    return v[0] == 'c'


def subst(v, a, b):
    """replace symbol a by b inside a value / nested tuple / frozenset"""
    if v == a:
        return b
    if isinstance(v, tuple):
        n = tuple([subst(x, a, b) if isinstance(x, (tuple, frozenset)) else x for x in v])
        return n if n != v else v
    if isinstance(v, frozenset):
        return frozenset(subst(x, a, b) for x in v)
    return v


def contains(v, a):
    if v == a:
        return True
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            if isinstance(x, (tuple, frozenset)) and contains(x, a):
                return True
    return False


def syms(v, out):
    if isinstance(v, tuple):
        if v and v[0] == 's':
            out.add(v); return
        if v and v[0] == 'a':
            out.add(v); return
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                syms(x, out)
    elif isinstance(v, frozenset):
        for x in v:
            syms(x, out)


def root(v):
    """object an address expression points into"""
    while v[0] == 'p':
        v = v[1]
    return v


def loc_of(v):
    if v[0] == 'p':
        return (v[1], v[2])
    return (v, 0)


def tag_of(v):
    return v[3] if v[0] == 'p' else None


class State:
    __slots__ = ('mem', 'facts', 'ts', 'zero', 'fresh', 'trace')

    def __init__(self):
        self.mem = {}      # loc -> value
        self.facts = {}    # value -> ('eq', n) | ('ne', frozenset) ; cmp-expr -> ('b', bool)
        self.ts = {}       # rule component
        self.zero = frozenset()   # zero-initialised objects
        self.fresh = frozenset()  # objects not yet visible to anyone else
        self.trace = None  # (parent, text)

    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.ts = dict(self.ts)
        s.zero = self.zero; s.fresh = self.fresh; s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.ts.items()), self.zero, self.fresh)

    def note(self, txt):
        self.trace = (self.trace, txt)

    def path(self, limit=60):
        out = []; t = self.trace
        while t is not None and len(out) < limit:
            out.append(t[1]); t = t[0]
        out.reverse()
        return out


class Frame:
    __slots__ = ('fn', 'ctx', 'stack', 'env', 'site')

    def __init__(self, fn, ctx, stack, site=None):
        self.fn = fn; self.ctx = ctx; self.stack = stack; self.env = None; self.site = site


class Rule:
    """hooks; every hook may mutate the given state's ts, call eng.report, or return outcomes"""
    name = 'rule'
    join_at = 48
    exit_join = 6
    max_steps = 400000
    track_alloc = False
    geps = False
    deep = 3            # nesting of arithmetic kept
    widths = False      # True: narrowing is kept as ('op','trunc',value,bits)

    def inline(self, eng, fn, frame, st, inst, args):
        return True

    def on_call(self, eng, st, fr, inst, callee, args):
        """None = default treatment; list of (ret, state) = outcomes"""
        return None

    def on_indirect(self, eng, st, fr, inst, fv, args):
        return None

    def on_opaque(self, eng, st, fr, inst, callee, args):
        pass

    def on_load(self, eng, st, fr, inst, ptr):
        pass

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        pass

    def split_load(self, eng, st, fr, inst, ptr, val):
        return False        # True: a flag; analyse the two values separately from here on

    def on_split(self, eng, st, fr, inst, ptr, truth):
        pass

    def on_store(self, eng, st, fr, inst, ptr, val):
        pass

    def on_stored(self, eng, st, fr, inst, ptr, val):
        pass

    def on_rmw(self, eng, st, fr, inst, ptr, opname, operand, old):
        pass

    def on_extract(self, eng, st, fr, inst, agg, val):
        pass

    def on_branch(self, eng, st, fr, inst, cond, taken):
        """may return False to drop the state"""
        pass

    def on_select(self, eng, st, fr, inst, cond, taken):
        pass

    def on_enter(self, eng, st, fr):
        pass

    def on_leave(self, eng, st, fr, val):
        pass

    def on_ret(self, eng, st, fr, inst, val):
        pass

    def on_forget(self, eng, st, sym):
        pass

    def live_syms(self, st, out):
        for k, v in st.ts.items():
            syms(k, out); syms(v, out)

    def canon(self, st):
        pass

    def prune(self, eng, st, env, fr, inst):
        pass


SWAP = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}


def ev(pred, a, b, bits=64):
    m = (1 << 64) - 1
    if pred[0] == 'u':
        a &= m; b &= m
    return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
            'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]


class Engine:
    def __init__(self, prog, rule, verbose=False):
        self.p = prog
        self.rule = rule
        self.reports = []
        self._seen = set()
        self.desc = {}
        self.steps = 0
        self.stats = {'functions': set(), 'blocks': 0, 'states': 0, 'calls': 0, 'insts': 0, 'joins': 0}
        self.memo = {}
        self.joinsyms = set()

    # ------------------------------------------------------------------ reporting
    def where(self, fr, inst):
        f = inst.file.split('/')[-1]
        return '%s:%d' % (f, inst.line)

    def report(self, rule, fr, inst, st, msg, key=None, extra=None):
        fn = fr.fn.name if fr else '?'
        k = key or (rule, fn, inst.line if inst else 0, msg)
        if k in self._seen:
            return
        self._seen.add(k)
        stack = []
        f = fr
        self.reports.append({'rule': rule, 'function': fn, 'file': inst.file if inst else (fr.fn.file if fr else ''),
                             'line': inst.line if inst else 0, 'message': msg, 'callstack': [c for c in (fr.stack if fr else ())],
                             'path': st.path() if st else [], 'extra': extra})

    # ------------------------------------------------------------------ values
    def sym(self, fr, inst, kind=''):
        s = ('s', fr.ctx, inst.id, kind)
        return s

    def describe(self, v):
        if v[0] == 's':
            d = self.desc.get(v)
            return d or 'value'
        if v[0] == 'c':
            return 'NULL/0' if v[1] == 0 else str(v[1])
        if v[0] == 'p':
            t = v[3]
            if t:
                return '%s->%s' % (self.describe(v[1]), t[1])
            return '%s+%s' % (self.describe(v[1]), v[2])
        if v[0] == 'g':
            return v[1].split('@')[0]
        if v[0] == 'fn':
            return v[1]
        if v[0] == 'a':
            return self.desc.get(v, 'local')
        return v[0]

    def const_init(self, g, off):
        """constant of a constant global at byte offset (scalars in simple arrays/structs only)"""
        return None

    def val(self, fr, env, o):
        k = o[0]
        if k == 'v':
            v = env.get(o[1])
            if v is None:
                v = ('s', fr.ctx, o[1], 'undef')
            return v
        if k == 'c':
            return ('c', o[1])
        if k == 'null' or k == 'zero':
            return ZERO
        if k == 'fn':
            return ('fn', o[1])
        if k == 'g':
            return ('g', o[1])
        if k == 'cgep':
            return self.gepval(fr, env, o[1]['gep'])
        if k == 'undef':
            return ('u',)
        if k == 'f':
            return ('f', o[1])
        if k == 'ce':
            return ('ce', o[1], tuple(self.val(fr, env, x) for x in o[2:]))
        return ('o', str(o))

    def gepval(self, fr, env, g):
        base = self.val(fr, env, g['base'])
        off = g['off']
        tag = None
        if 'st' in g:
            tag = (g['st'].replace('struct.', '').replace('union.', ''), self.p.field(g['st'], g['fo']) or 'f%d' % g['fi'])
        terms = []
        for sc, v in g['vars']:
            x = self.val(fr, env, v)
            if x[0] == 'c':
                off += sc * x[1]
            else:
                terms.append((sc, self.depth(x)))
        b0 = 0; t0 = ()
        if base[0] == 'p':
            o = base[2]
            if isinstance(o, int):
                b0 = o
            else:
                b0 = o[1]; t0 = o[2]
            if tag is None:
                tag = base[3]
            base = base[1]
        off += b0
        terms = list(t0) + terms
        if terms:
            if len(terms) > 2:
                terms = terms[-2:]
            return ('p', base, ('i', off, tuple(terms)), tag)
        if off == 0 and tag is None:
            return base
        return ('p', base, off, tag)

    def depth(self, v, d=0):
        if v[0] == 'op' or v[0] == 'cmp':
            if d > self.rule.deep:
                return ('x', v[1])
            return tuple([self.depth(x, d + 1) if isinstance(x, tuple) else x for x in v])
        return v

    # ------------------------------------------------------------------ facts
    def lookup(self, st, v):
        """constant value of v if known"""
        if v[0] == 'c':
            return v[1]
        f = st.facts.get(v)
        if f and f[0] == 'eq':
            return f[1]
        if v[0] == 'op' and v[1] == 'add' and v[3][0] == 'c':
            x = self.lookup(st, v[2])
            if x is not None:
                return x + v[3][1]
        return None

    def nonnull(self, st, v):
        k = v[0]
        if k in ('g', 'fn', 'a'):
            return True
        if k == 'p':
            o = v[2]
            if isinstance(o, int) and o != 0:
                return True
            if not isinstance(o, int):
                return True
            return self.nonnull(st, v[1])
        if k == 'c':
            return v[1] != 0
        f = st.facts.get(v)
        if f:
            if f[0] == 'ne' and 0 in f[1]:
                return True
            if f[0] == 'eq' and f[1] != 0:
                return True
        return False

    def norm_cmp(self, pred, a, b):
        """canonical comparison: const on the right, only eq/ne/ult/ule/slt/sle; returns value or ('c',0/1)"""
        if a[0] == 'c' and b[0] != 'c':
            a, b = b, a
            pred = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}[pred]
        if b[0] == 'c':
            if a[0] == 'c':
                return ('c', 1 if ev(pred, a[1], b[1]) else 0)
            n = b[1]
            if n == 0 and pred == 'ugt': pred = 'ne'
            elif n == 0 and pred == 'ule': pred = 'eq'
            elif n == 1 and pred == 'ult': pred, b = 'eq', ZERO
            elif n == 1 and pred == 'uge': pred, b = 'ne', ZERO
            elif pred == 'ult' and n == 0: return ('c', 0)
            elif pred == 'uge' and n == 0: return ('c', 1)
            if a[0] == 'cmp' and b == ZERO and pred in ('eq', 'ne'):
                return a if pred == 'ne' else self.norm_cmp(NEG[a[1]], a[2], a[3])
            if a[0] == 'cmp' and b == C(1) and pred in ('eq', 'ne'):
                return a if pred == 'eq' else self.norm_cmp(NEG[a[1]], a[2], a[3])
            if pred in ('eq', 'ne') and a[0] == 'op' and a[1] == 'add' and a[3][0] == 'c':
                a, b = a[2], C(b[1] - a[3][1])
                if a[0] == 'c':
                    return ('c', 1 if ev(pred, a[1], b[1]) else 0)
            # (x - y) == 0
            if a[0] == 'op' and a[1] == 'sub' and b == ZERO and pred in ('eq', 'ne'):
                return self.norm_cmp(pred, a[2], a[3])
            return ('cmp', pred, a, b)
        if a == b:
            return ('c', 1 if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else 0)
        if pred in ('eq', 'ne'):
            if loc_of(a) == loc_of(b):
                return ('c', 1 if pred == 'eq' else 0)
            ka = kb = 0
            if a[0] == 'op' and a[1] == 'add' and a[3][0] == 'c': a, ka = a[2], a[3][1]
            if b[0] == 'op' and b[1] == 'add' and b[3][0] == 'c': b, kb = b[2], b[3][1]
            if ka or kb:        # x + m == y + n
                if a == b: return ('c', int((ka == kb) == (pred == 'eq')))
                k = kb - ka
                if repr(b) < repr(a): a, b, k = b, a, -k
                return ('cmp', pred, a, b if k == 0 else ('op', 'add', b, C(k)))
            if repr(b) < repr(a):
                a, b = b, a
        elif pred in SWAP:
            a, b = b, a
            pred = SWAP[pred]
        return ('cmp', pred, a, b)

    def decide(self, st, v):
        """truth of an abstract value: True / False / None"""
        if v[0] == 'c':
            return v[1] != 0
        if v[0] == 'cmp':
            _, pred, a, b = v
            if b[0] == 'c':
                n = b[1]
                x = self.lookup(st, a)
                if x is not None:
                    return ev(pred, x, n)
                if pred in ('eq', 'ne'):
                    if n == 0 and self.nonnull(st, a):
                        return pred == 'ne'
                    f = st.facts.get(a)
                    if f and f[0] == 'ne' and n in f[1]:
                        return pred == 'ne'
            else:
                x = self.lookup(st, a); y = self.lookup(st, b)
                if x is not None and y is not None:
                    return ev(pred, x, y)
                if pred in ('eq', 'ne'):
                    # null known for one, nonnull for the other
                    if x == 0 and self.nonnull(st, b) or y == 0 and self.nonnull(st, a):
                        return pred == 'ne'
                    ra, rb = root(a), root(b)
                    if ra != rb and ra[0] in ('g', 'a', 'fn') and rb[0] in ('g', 'a', 'fn'):
                        return pred == 'ne'
            f = st.facts.get(v)
            if f:
                return f[1]
            if b[0] != 'c' and pred in ('ult', 'ule', 'slt', 'sle'):
                np = {'ult': 'ule', 'ule': 'ult', 'slt': 'sle', 'sle': 'slt'}[pred]
                f = st.facts.get(('cmp', np, b, a))       # a < b  ==  not (b <= a)
                if f:
                    return not f[1]
                f = st.facts.get(('cmp', pred, b, a))
                if f and f[1] and pred.endswith('lt'):
                    return False
                if pred.endswith('le'):
                    f = st.facts.get(('cmp', np, a, b))
                    if f and f[1]:
                        return True
            f = st.facts.get(self.norm_cmp(NEG[pred], a, b))
            if f:
                return not f[1]
            if b[0] != 'c' and pred in ('eq', 'ne'):
                for np in ('ult', 'slt', 'ule', 'sle'):
                    for k in (('cmp', np, a, b), ('cmp', np, b, a)):
                        f = st.facts.get(k)
                        if f and f[1] == np.endswith('lt'):       # a < b, or not (a <= b): different
                            return pred == 'ne'
            if b[0] == 'c' and pred not in ('eq', 'ne'):
                # remembered comparisons of the same value with constants
                r = self.imply(st, pred, a, b[1])
                if r is not None:
                    return r
            return None
        x = self.lookup(st, v)
        if x is not None:
            return x != 0
        if self.nonnull(st, v):
            return True
        return None

    def bounds(self, st, a, signed):
        lo, hi = (None, None)
        if not signed:
            lo = 0
        for k, f in st.facts.items():
            if k[0] == 'cmp' and k[2] == a and k[3][0] == 'c' and f[0] == 'b':
                pred = k[1] if f[1] else NEG[k[1]]
                n = k[3][1]
                if pred[0] == ('s' if signed else 'u'):
                    if pred[1:] == 'lt' and (hi is None or n - 1 < hi): hi = n - 1
                    elif pred[1:] == 'le' and (hi is None or n < hi): hi = n
                    elif pred[1:] == 'gt' and (lo is None or n + 1 > lo): lo = n + 1
                    elif pred[1:] == 'ge' and (lo is None or n > lo): lo = n
        f = st.facts.get(a)
        if f and f[0] == 'eq':
            lo = hi = f[1]
        if f and f[0] == 'ne':
            while lo is not None and lo in f[1]:
                lo += 1
            while hi is not None and hi in f[1]:
                hi -= 1
        return lo, hi

    def imply(self, st, pred, a, n):
        lo, hi = self.bounds(st, a, pred[0] == 's')
        op = pred[1:]
        if op == 'lt':
            if hi is not None and hi < n: return True
            if lo is not None and lo >= n: return False
        elif op == 'le':
            if hi is not None and hi <= n: return True
            if lo is not None and lo > n: return False
        elif op == 'gt':
            if lo is not None and lo > n: return True
            if hi is not None and hi <= n: return False
        elif op == 'ge':
            if lo is not None and lo >= n: return True
            if hi is not None and hi < n: return False
        return None

    def assume(self, st, v, truth):
        """refine st with v == truth; False if contradictory"""
        d = self.decide(st, v)
        if d is not None:
            return d == truth
        if v[0] == 'cmp':
            _, pred, a, b = v
            if not truth:
                pred = NEG[pred]
            if b[0] == 'c':
                if pred == 'eq':
                    return self.set_eq(st, a, b[1])
                if pred == 'ne':
                    return self.set_ne(st, a, b[1])
            else:
                if pred == 'eq':
                    x = self.lookup(st, a); y = self.lookup(st, b)
                    if x is not None and not self.set_eq(st, b, x): return False
                    if y is not None and not self.set_eq(st, a, y): return False
                    if self.nonnull(st, a) and b[0] in ('s',): self.set_ne(st, b, 0)
                    if self.nonnull(st, b) and a[0] in ('s',): self.set_ne(st, a, 0)
                elif pred == 'ne':
                    x = self.lookup(st, a); y = self.lookup(st, b)
                    if x is not None and not self.set_ne(st, b, x): return False
                    if y is not None and not self.set_ne(st, a, y): return False
            st.facts[v] = ('b', truth)
            if b[0] == 'c':
                for sg in (True, False):
                    lo, hi = self.bounds(st, a, sg)
                    if lo is not None and hi is not None and lo > hi:
                        return False
                    if lo is not None and lo == hi and v[1][0] == ('s' if sg else 'u'):
                        if not self.set_eq(st, a, lo): return False
            return True
        if truth:
            return self.set_ne(st, v, 0)
        return self.set_eq(st, v, 0)

    def set_eq(self, st, a, n):
        x = self.lookup(st, a)
        if x is not None:
            return x == n
        if n == 0 and self.nonnull(st, a):
            return False
        f = st.facts.get(a)
        if f and f[0] == 'ne' and n in f[1]:
            return False
        # remembered comparisons
        drop = []
        for k, g in st.facts.items():
            if k[0] == 'cmp' and k[2] == a and k[3][0] == 'c':
                if ev(k[1], n, k[3][1]) != g[1]:
                    return False
                drop.append(k)
        for k in drop:
            del st.facts[k]
        if a[0] == 'p' and a[2] == 0:
            a = a[1]
        st.facts[a] = ('eq', n)
        return True

    def set_ne(self, st, a, n):
        x = self.lookup(st, a)
        if x is not None:
            return x != n
        if a[0] == 'p' and a[2] == 0:
            a = a[1]
        f = st.facts.get(a)
        if f and f[0] == 'ne':
            st.facts[a] = ('ne', f[1] | {n})
        else:
            st.facts[a] = ('ne', frozenset([n]))
        return True

    # ------------------------------------------------------------------ memory
    def fresh_sym(self, st, fr, env, inst, kind='', desc=None):
        s = ('s', fr.ctx, inst.id, kind)
        if desc and s not in self.desc:
            self.desc[s] = desc
        self.retire(st, env, s)
        return s

    def retire(self, st, env, s):
        """symbol s is about to denote a new value: rename surviving references to the old generation"""
        old = ('s', s[1], s[2], s[3] + '~')
        used = self.mentions(st, s)
        envu = [k for k, v in env.items() if contains(v, s)] if env is not None else []
        if not used and not envu:
            return
        if self.mentions(st, old):
            self.rule.on_forget(self, st, old)
            self.drop(st, old)
        if old not in self.desc and s in self.desc:
            self.desc[old] = self.desc[s] + ' (earlier iteration)'
        self.rename(st, s, old)
        for k in envu:
            env[k] = subst(env[k], s, old)

    def mentions(self, st, s):
        for d in (st.facts, st.mem, st.ts):
            for k, v in d.items():
                if contains(k, s) or contains(v, s):
                    return True
        return s in st.zero or s in st.fresh

    def rename(self, st, a, b):
        for nm in ('facts', 'mem', 'ts'):
            d = getattr(st, nm)
            if any(contains(k, a) or contains(v, a) for k, v in d.items()):
                setattr(st, nm, {subst(k, a, b) if isinstance(k, tuple) else k: subst(v, a, b) if isinstance(v, (tuple, frozenset)) else v for k, v in d.items()})
                if nm == 'facts':
                    for k in [k for k in st.facts if k[0] == 'cmp' and contains(k, b)]:
                        n = self.norm_cmp(k[1], k[2], k[3])
                        if n != k:
                            v = st.facts.pop(k)
                            if n[0] == 'cmp' and n[1] == k[1]: st.facts.setdefault(n, v)
        if a in st.zero: st.zero = (st.zero - {a}) | {b}
        if a in st.fresh: st.fresh = (st.fresh - {a}) | {b}

    def drop(self, st, s):
        st.facts = {k: v for k, v in st.facts.items() if not contains(k, s) and not contains(v, s)}
        st.mem = {k: v for k, v in st.mem.items() if not contains(k, s) and not contains(v, s)}
        st.ts = {k: v for k, v in st.ts.items() if not contains(k, s) and not contains(v, s)}
        st.zero = st.zero - {s}; st.fresh = st.fresh - {s}

    def load(self, st, fr, env, inst, ptr):
        loc = loc_of(ptr)
        v = st.mem.get(loc)
        if v is not None:
            return v
        b = loc[0]
        if b in st.zero:
            return ZERO
        if b[0] == 'g':
            g = self.p.globals.get(b[1])
            if g and g.get('const') and 'init' in g and isinstance(loc[1], int):
                c = self.const_at(g, loc[1])
                if c is not None:
                    return c
        nm = self.describe(ptr)
        s = self.fresh_sym(st, fr, env, inst, '', nm)
        loc = subst(loc, s, ('s', s[1], s[2], s[3] + '~'))      # the address itself may belong to the old generation
        st.mem[loc] = s
        return s

    def const_at(self, g, off):
        init = g['init']
        if init[0] in ('fn', 'g', 'null', 'c', 'cgep') and off == 0:
            return self.val(None, {}, init)
        if init[0] == 'zero':
            return ZERO
        m = None
        if init[0] == 'arr':
            n = len(init) - 1
            sz = g['size'] // n if n else 0
            if sz and off % sz == 0 and off // sz < n:
                e = init[1 + off // sz]
                if e[0] in ('c', 'fn', 'g', 'null', 'cgep'):
                    return self.val(None, {}, e)
        if init[0] == 'st':
            s = self.p.structs.get(g['ty'])
            if s:
                for k, el in enumerate(s['elems']):
                    if el[0] == off and k + 1 < len(init):
                        e = init[1 + k]
                        if e[0] in ('c', 'fn', 'g', 'null', 'cgep'):
                            return self.val(None, {}, e)
        return None

    def store(self, st, ptr, val):
        loc = loc_of(ptr)
        if not isinstance(loc[1], int):
            # variable index: forget constant-index entries of the same array region conservatively
            for k in [k for k in st.mem if k[0] == loc[0] and not isinstance(k[1], int) and k[1] not in ('#size', '#hold')]:
                del st.mem[k]
        st.mem[loc] = val
        # escape of fresh objects
        if st.fresh and root(ptr) not in st.fresh and root(ptr)[0] != 'a':
            r = root(val)
            if r in st.fresh:
                self.escape(st, r)

    def escape(self, st, r):
        """r and every fresh object stored in it become visible"""
        work = [r]
        while work:
            x = work.pop()
            if x in st.fresh:
                st.fresh = st.fresh - {x}
                for k, v in st.mem.items():
                    if k[0] == x and root(v) in st.fresh:
                        work.append(root(v))

    def local(self, st, b):
        return b[0] == 'a' or b in st.fresh

    def havoc_shared(self, st):
        st.mem = {k: v for k, v in st.mem.items() if self.local(st, k[0])}
        st.ts['hv'] = 1
        st.zero = frozenset(z for z in st.zero if self.local(st, z))

    def havoc_obj(self, st, b):
        if b in st.zero:
            st.zero = st.zero - {b}
        for k in [k for k in st.mem if k[0] == b and k[1] not in ('#size', '#hold')]:
            del st.mem[k]

    def gc(self, st, env, extra, ctx):
        """drop facts/memory about dead symbols created in this frame (ctx prefix)"""
        live = set()
        for v in env.values():
            syms(v, live)
        self.rule.live_syms(st, live)
        for v in extra:
            syms(v, live)
        n = len(ctx)
        # memory: reachability from live or foreign symbols
        mem = st.mem
        foreign = lambda s: s[1][:n] != ctx
        todo = list(mem.items())
        changed = True
        keep = {}
        while changed and todo:
            changed = False
            rest = []
            for k, v in todo:
                b = k[0]
                if b[0] == 'g' or b in live or (b[0] in ('s', 'a') and foreign(b)) or b[0] not in ('s', 'a'):
                    keep[k] = v
                    syms(v, live)
                    if not isinstance(k[1], int): syms(k[1], live)
                    changed = True
                else:
                    rest.append((k, v))
            todo = rest
        if len(keep) != len(mem):
            st.mem = keep
        nf = {}
        for k, v in st.facts.items():
            ss = set(); syms(k, ss)
            if all(s in live or foreign(s) for s in ss):
                nf[k] = v
        if len(nf) != len(st.facts):
            st.facts = nf
        if st.zero:
            st.zero = frozenset(z for z in st.zero if z in live or foreign(z))
        if st.fresh:
            st.fresh = frozenset(z for z in st.fresh if z in live or foreign(z))

    # ------------------------------------------------------------------ execution
    def run_root(self, fname, st=None, args=None):
        fn = self.p.funcs[fname]
        ctx = (fname,)
        st = st or State()
        fr = Frame(fn, ctx, (fname,))
        if args is None:
            args = []
            for i, a in enumerate(fn.args):
                s = ('s', ctx, 'arg%d' % i, '')
                self.desc[s] = a[2]
                args.append(s)
        outs = self.run(fr, st, args)
        for ret, s, inst in outs:
            self.rule.on_ret(self, s, fr, inst, ret)
        return outs

    def run(self, fr, st, args):
        """analyse one function body in one context; returns [(retval, state, retinst)]"""
        fn = fr.fn
        self.stats['functions'].add(fn.name)
        env = {}
        for a, v in zip(fn.args, args):
            env[a[0]] = v
        st = st.copy()
        self.rule.on_enter(self, st, fr)
        live = fn.live()
        work = [(0, env, st)]
        seen = {}
        counts = {}
        joined = {}
        exits = {}
        while work:
            # prefer earlier blocks to encourage merging before loops re-enter
            b, env, st = work.pop()
            self.steps += 1
            if self.steps > self.rule.max_steps:
                raise Budget('%s: more than %d steps (at %s)' % (self.rule.name, self.rule.max_steps, '>'.join(fr.stack)))
            self.stats['states'] += 1
            for nb, nenv, nst in self.block(fr, b, env, st, exits):
                lv = fn.live_out_edge(b, nb)
                # phi moves
                penv = {}
                for i in fn.blocks[nb]:
                    if i.op != 'phi':
                        break
                    for pb, o in i.d['inc']:
                        if pb == b:
                            pv = self.val(fr, nenv, o)
                            if pv[0] == 'cmp':
                                d = self.decide(nst, pv)
                                if d is not None: pv = C(1 if d else 0)
                            penv[i.id] = pv
                            break
                lv2 = live[nb]
                nenv2 = {k: v for k, v in nenv.items() if k in lv2}
                nenv2.update(penv)
                self.rule.prune(self, nst, nenv2, fr, fn.blocks[nb][0])
                self.gc(nst, nenv2, (), fr.ctx)
                self.rule.canon(nst)
                key = (frozenset(nenv2.items()), nst.key())
                sb = seen.setdefault(nb, set())
                if key in sb:
                    continue
                sb.add(key)
                if len(sb) > self.rule.join_at:
                    r = self.join(fr, nb, nenv2, nst, joined, len(sb))
                    if r is None:
                        continue
                    nenv2, nst = r
                work.append((nb, nenv2, nst))
        res = []
        for (ret, k), (s, inst) in exits.items():
            res.append((ret, s, inst))
        return res

    max_flags = 6

    def flags(self, fr, env, st):
        """live booleans and pointers known to be zero or not: states that differ there are kept apart while they are few"""
        r = []
        sm = fr.fn.__dict__.get('smalls')
        if sm is None:
            sm = fr.fn.smalls = {i.id for bl in fr.fn.blocks for i in bl if i.ty in ('i1', 'i8', 'ptr')}
        for k, v in env.items():
            if k not in sm: continue
            d = self.decide(st, v) if v[0] in ('c', 's', 'cmp', 'op') else True if v[0] in ('a', 'p', 'g', 'fn') else None
            if d is not None: r.append((k, d))
        return frozenset(r)

    def join(self, fr, b, env, st, joined, n):
        """property simulation: states that agree on the property component are joined"""
        self.stats['joins'] += 1
        # a join symbol met again stands for the value of this iteration: earlier mentions become the old generation
        for k in list(env):
            J = ('s', fr.ctx, ('j', b, k), 'join')
            if env[k] != J and J in self.joinsyms and (self.mentions(st, J) or any(contains(v, J) for v in env.values())):
                self.retire(st, env, J)
        tk = (b, frozenset(st.ts.items()), self.flags(fr, env, st))
        if tk not in joined:
            n = joined.setdefault(tk[:2], set())
            if len(n) < self.max_flags: n.add(tk[2])
            else: tk = tk[:2] + (None,)
        j = joined.get(tk)
        if j is None:
            # keep env as is for the first one
            joined[tk] = (dict(env), st.copy())
            return env, st
        jenv, jst = j
        changed = False
        nenv = {}
        jf = {}
        for k, v in jenv.items():
            w = env.get(k)
            if w == v:
                nenv[k] = v
                continue
            s = ('s', fr.ctx, ('j', b, k), 'join')
            if v == s:
                nenv[k] = v
                if w is not None and s in jst.facts: jf[s] = self.meet(jst, s, st, w)
                continue
            if w is not None:
                x = self.lookup(jst, v)
                y = self.lookup(st, w)
                if x is None and v[0] in ('cmp', 'op') and self.decide(jst, v) is False: x = 0
                if y is None and w[0] in ('cmp', 'op') and self.decide(st, w) is False: y = 0
                if x is not None and x == y:
                    nenv[k] = C(x)
                    if v != C(x): changed = True
                    continue
                jf[s] = self.meet(jst, v, st, w)
            if v in self.desc:
                self.desc.setdefault(s, self.desc[v])
            self.joinsyms.add(s)
            nenv[k] = s; changed = True
        nst = jst.copy()
        nst.trace = st.trace
        for nm in ('mem', 'facts'):
            d = getattr(nst, nm); o = getattr(st, nm)
            for k in list(d):
                if nm == 'facts' and k in jf: continue
                if o.get(k) != d[k]:
                    if nm == 'facts' and k in o and d[k][0] == 'ne' and o[k][0] == 'ne' and (d[k][1] & o[k][1]):
                        if (d[k][1] & o[k][1]) != d[k][1]:
                            d[k] = ('ne', d[k][1] & o[k][1]); changed = True
                        continue
                    if nm == 'facts' and k in o and {d[k][0], o[k][0]} == {'ne', 'eq'}:
                        ne = d[k] if d[k][0] == 'ne' else o[k]; eq = d[k] if d[k][0] == 'eq' else o[k]
                        r = frozenset(x for x in ne[1] if x != eq[1])
                        if r:
                            if d[k] != ('ne', r): d[k] = ('ne', r); changed = True
                            continue
                    del d[k]; changed = True
        for k, f in jf.items():
            if nst.facts.get(k) != f:
                if f is None: nst.facts.pop(k, None)
                else: nst.facts[k] = f
                changed = True
        if nst.zero - st.zero: nst.zero &= st.zero; changed = True
        if nst.fresh - st.fresh: nst.fresh &= st.fresh; changed = True
        if not changed:
            return None
        joined[tk] = (dict(nenv), nst.copy())
        return nenv, nst

    def meet(self, sa, a, sb, b):
        """what is known of both a (in sa) and b (in sb): a fact that holds of either, or None"""
        x = self.lookup(sa, a); y = self.lookup(sb, b)
        if x is not None and x == y: return ('eq', x)
        def ne(st, v, c):
            if c is not None: return {0} if c != 0 else set()
            f = st.facts.get(v)
            r = set(f[1]) if f and f[0] == 'ne' else set()
            if self.nonnull(st, v): r.add(0)
            return r
        p, q = ne(sa, a, x), ne(sb, b, y)
        if x is not None: p |= {n for n in q if n != x}
        if y is not None: q |= {n for n in p if n != y}
        r = frozenset(p & q)
        return ('ne', r) if r else None

    def block(self, fr, b, env, st, exits):
        """transfer through one block (calls may split the state); returns successor states"""
        out = []
        todo = [(0, dict(env), st.copy())]
        L = fr.fn.blocks[b]
        n = len(L)
        while todo:
            idx, env, st = todo.pop()
            dead = False
            while idx < n:
                i = L[idx]
                idx += 1
                op = i.op
                self.cur_env = env
                self.stats['insts'] += 1
                if op == 'phi':
                    continue
                if op == 'load':
                    ptr = self.val(fr, env, i.ops[0])
                    self.rule.on_load(self, st, fr, i, ptr)
                    v = self.load(st, fr, env, i, ptr)
                    ptr = self.val(fr, env, i.ops[0])
                    env[i.id] = v
                    self.rule.on_loaded(self, st, fr, i, ptr, v)
                    if v[0] != 'c' and self.rule.split_load(self, st, fr, i, ptr, v):
                        x = self.lookup(st, v)
                        if x is None:
                            s2 = st.copy()
                            if self.set_eq(s2, v, 0):
                                s2.mem[loc_of(ptr)] = ZERO
                                e2 = dict(env); e2[i.id] = ZERO
                                s2.note('%s: %s is 0' % (self.where(fr, i), self.describe(v)))
                                self.rule.on_split(self, s2, fr, i, ptr, False)
                                todo.append((idx, e2, s2))
                            if not self.set_ne(st, v, 0):
                                dead = True
                                break
                            st.mem[loc_of(ptr)] = C(1)
                            st.note('%s: %s is not 0' % (self.where(fr, i), self.describe(v)))
                            env[i.id] = C(1)
                            self.rule.on_split(self, st, fr, i, ptr, True)
                        else:
                            env[i.id] = C(x)
                elif op == 'store':
                    v = self.val(fr, env, i.ops[0]); ptr = self.val(fr, env, i.ops[1])
                    self.cur_env = env
                    self.rule.on_store(self, st, fr, i, ptr, v)
                    self.store(st, ptr, v)
                    self.rule.on_stored(self, st, fr, i, ptr, v)
                elif op == 'getelementptr':
                    env[i.id] = self.gepval(fr, env, i.d['gep'])
                    if self.rule.geps: self.rule.on_gep(self, st, fr, i, env[i.id])
                elif op == 'icmp':
                    env[i.id] = self.norm_cmp(i.d['pred'], self.val(fr, env, i.ops[0]), self.val(fr, env, i.ops[1]))
                elif op in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
                    env[i.id] = self.val(fr, env, i.ops[0])
                elif op == 'trunc':
                    v = self.val(fr, env, i.ops[0])
                    if self.rule.widths and i.ty[1:].isdigit() and i.ty != 'i1' and v[0] in ('s', 'op'): v = ('op', 'trunc', self.depth(v, 1), C(int(i.ty[1:])))
                    env[i.id] = v
                elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                    v = self.arith(op, self.val(fr, env, i.ops[0]), self.val(fr, env, i.ops[1]), i)
                    if self.rule.widths and v[0] == 'op' and v[1] in ('add', 'mul', 'sub', 'shl') and i.ty[1:].isdigit() and int(i.ty[1:]) < 64: v = ('op', 'trunc', self.depth(v, 1), C(int(i.ty[1:])))
                    env[i.id] = v
                elif op == 'alloca':
                    a = ('a', fr.ctx, i.id, '')
                    self.desc.setdefault(a, fr.fn.vars.get(i.id, 'local'))
                    env[i.id] = a
                elif op == 'call':
                    res = self.call(fr, env, st, i)
                    if not res:
                        dead = True
                        break
                    for ret, s2, e2 in res[1:]:
                        e3 = dict(e2)
                        if i.ty != 'void':
                            e3[i.id] = ret
                        todo.append((idx, e3, s2))
                    ret, st, env = res[0]
                    env = dict(env)
                    if i.ty != 'void':
                        env[i.id] = ret
                elif op == 'select':
                    c = self.val(fr, env, i.ops[0])
                    d = self.decide(st, c)
                    if d is None:
                        s2 = st.copy(); e2 = dict(env)
                        if self.assume(s2, c, False):
                            self.rule.on_select(self, s2, fr, i, c, False)
                            e2[i.id] = self.val(fr, e2, i.ops[2])
                            todo.append((idx, e2, s2))
                        if not self.assume(st, c, True):
                            dead = True
                            break
                        self.rule.on_select(self, st, fr, i, c, True)
                        env[i.id] = self.val(fr, env, i.ops[1])
                    else:
                        env[i.id] = self.val(fr, env, i.ops[1 if d else 2])
                elif op == 'atomicrmw':
                    ptr = self.val(fr, env, i.ops[0]); v = self.val(fr, env, i.ops[1])
                    self.rule.on_load(self, st, fr, i, ptr)
                    s = self.fresh_sym(st, fr, env, i, 'rmw', 'old ' + self.describe(ptr))
                    ptr = self.val(fr, env, i.ops[0])
                    env[i.id] = s
                    st.mem.pop(loc_of(ptr), None)
                    self.rule.on_rmw(self, st, fr, i, ptr, i.d['rmw'], v, s)
                elif op == 'cmpxchg':
                    ptr = self.val(fr, env, i.ops[0])
                    st.mem.pop(loc_of(ptr), None)
                    env[i.id] = ('cx', self.fresh_sym(st, fr, env, i, 'cx'))
                    self.rule.on_rmw(self, st, fr, i, ptr, 'cmpxchg', self.val(fr, env, i.ops[2]), env[i.id])
                elif op == 'extractvalue':
                    agg = self.val(fr, env, i.ops[0])
                    env[i.id] = self.fresh_sym(st, fr, env, i, 'xv')
                    self.rule.on_extract(self, st, fr, i, agg, env[i.id])
                elif op == 'br':
                    if 'cond' not in i.d:
                        out.append((i.d['succ'][0], env, st))
                    else:
                        c = self.val(fr, env, i.d['cond'])
                        t, f = i.d['succ'][0], i.d['succ'][1]
                        out += self.branch(fr, i, env, st, c, t, f)
                    dead = True
                    break
                elif op == 'switch':
                    v = self.val(fr, env, i.d['cond'])
                    x = self.lookup(st, v)
                    cases = i.d['cases']
                    if x is not None:
                        tgt = i.d['default']
                        for cv, cb in cases:
                            if cv == x:
                                tgt = cb
                        out.append((tgt, env, st))
                    else:
                        groups = {}
                        for cv, cb in cases:
                            groups.setdefault(cb, []).append(cv)
                        for cv, cb in cases:
                            s2 = st.copy()
                            if self.set_eq(s2, v, cv):
                                s2.note('%s: case %d' % (self.where(fr, i), cv))
                                if self.rule.on_branch(self, s2, fr, i, ('cmp', 'eq', v, C(cv)), True) is not False:
                                    out.append((cb, dict(env), s2))
                        s2 = st.copy()
                        ok = True
                        for cv, cb in cases:
                            ok = ok and self.set_ne(s2, v, cv)
                        if ok:
                            s2.note('%s: default case' % self.where(fr, i))
                            out.append((i.d['default'], dict(env), s2))
                    dead = True
                    break
                elif op == 'ret':
                    v = self.val(fr, env, i.ops[0]) if i.ops else ('void',)
                    self.rule.on_leave(self, st, fr, v)
                    # locals die
                    pre = fr.ctx
                    st.mem = {k: w for k, w in st.mem.items() if not (k[0][0] == 'a' and k[0][1] == pre)}
                    self.gc(st, {0: v}, (), fr.ctx)
                    k = (v, st.key())
                    if k not in exits:
                        exits[k] = (st, i)
                    dead = True
                    break
                elif op == 'unreachable':
                    dead = True
                    break
                else:
                    # floating point, vectors, etc.: opaque pure value
                    if i.ty != 'void':
                        vs = tuple(self.depth(self.val(fr, env, o)) for o in i.ops)
                        env[i.id] = ('op', op, *vs) if len(vs) <= 2 and op not in ('va_arg',) else self.fresh_sym(st, fr, env, i)
            # end instruction loop
        return out

    def branch(self, fr, i, env, st, c, t, f):
        d = self.decide(st, c)
        out = []
        for truth, tgt in ((True, t), (False, f)):
            if d is not None and d != truth:
                continue
            s2 = st.copy() if d is None else st
            if d is None:
                if not self.assume(s2, c, truth):
                    continue
                s2.note('%s: %s is %s' % (self.where(fr, i), self.cdesc(c), 'true' if truth else 'false'))
            e2 = dict(env)
            self.cur_env = e2
            if self.rule.on_branch(self, s2, fr, i, c, truth) is False:
                continue
            out.append((tgt, e2, s2))
        return out

    def cdesc(self, c):
        if c[0] == 'cmp':
            return '%s %s %s' % (self.describe(c[2]), {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'slt': '<', 'sle': '<=', 'ugt': '>', 'uge': '>=', 'sgt': '>', 'sge': '>='}[c[1]], self.describe(c[3]))
        return self.describe(c)

    def arith(self, op, a, b, i):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                     'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: (x & ((1 << 64) - 1)) >> y, 'ashr': lambda: x >> y,
                     'udiv': lambda: x // y, 'sdiv': lambda: int(x / y), 'urem': lambda: x % y, 'srem': lambda: x - y * int(x / y)}[op]()
                if i.ty.startswith('i') and i.ty[1:].isdigit():
                    w = int(i.ty[1:]); r &= (1 << w) - 1
                    if w > 1 and r >> (w - 1):
                        r -= 1 << w
                    if w == 1: r &= 1
                return C(r)
            except ZeroDivisionError:
                pass
        if op == 'xor' and b in (C(1), C(-1)) and i.ty == 'i1':
            if a[0] == 'cmp':
                return self.norm_cmp(NEG[a[1]], a[2], a[3])
            return ('cmp', 'eq', a, ZERO)
        if op == 'sub' and b[0] == 'c':
            op, b = 'add', C(-b[1])
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'c':
            a, b = b, a
        if op == 'add' and b[0] == 'c':
            if b[1] == 0:
                return a
            if a[0] == 'op' and a[1] == 'add' and a[3][0] == 'c':
                n = a[3][1] + b[1]
                return a[2] if n == 0 else ('op', 'add', a[2], C(n))
        if op == 'mul' and b == C(1): return a
        if op == 'and' and a == b: return a
        if op in ('add', 'mul', 'and', 'or', 'xor') and repr(b) < repr(a) and b[0] != 'c':
            a, b = b, a
        if i.ty == 'i1' and op in ('and', 'or'):
            pass
        return ('op', op, self.depth(a, 1), self.depth(b, 1))

    # ------------------------------------------------------------------ calls
    def call(self, fr, env, st, i):
        """returns [(ret, state, env)]"""
        self.stats['calls'] += 1
        args = [self.val(fr, env, o) for o in i.ops]
        cal = self.val(fr, env, i.d['callee'])
        if cal[0] == 'fn':
            name = cal[1]
            if i.d.get('noret') or name in self.p.noret:
                r = self.rule.on_call(self, st, fr, i, name, args)
                return []
            if name.startswith('llvm.'):
                return self.intrinsic(fr, env, st, i, name, args)
            self.cur_env = env
            r = self.rule.on_call(self, st, fr, i, name, args)
            if r is not None:
                return [(a[0], a[1], env) for a in r]
            fn = self.p.funcs.get(name)
            if fn is not None and name not in fr.stack and self.rule.inline(self, fn, fr, st, i, args):
                return self.inline(fr, env, st, i, fn, args)
            return self.opaque(fr, env, st, i, name, args)
        self.cur_env = env
        r = self.rule.on_indirect(self, st, fr, i, cal, args)
        if r is not None:
            return [(a[0], a[1], env) for a in r]
        return self.opaque(fr, env, st, i, None, args)

    def inline(self, fr, env, st, i, fn, args):
        ctx = fr.ctx + (i.id, fn.name)
        nfr = Frame(fn, ctx, fr.stack + (fn.name,), (fr, i))
        # symbols of a previous visit of this context survive only under their old-generation names
        pre = ctx
        stale = set()
        for d in (st.facts, st.mem, st.ts):
            for k, v in d.items():
                syms(k, stale); syms(v, stale)
        for v in env.values():
            syms(v, stale)
        for s in stale:
            if s[0] == 's' and s[1][:len(pre)] == pre and not (isinstance(s[3], str) and s[3].endswith('~')):
                self.retire(st, env, s)
        # frame rule: the callee sees only the part of the state reachable from its arguments, globals and the rule
        reachs = set()
        for a in args:
            syms(a, reachs)
        self.rule.live_syms(st, reachs)
        todo = list(st.mem.items()); kept = {}
        ch = True
        while ch and todo:
            ch = False; rest = []
            for k, v in todo:
                b = k[0]
                if b[0] not in ('s', 'a') or b in reachs:
                    kept[k] = v; syms(v, reachs); ch = True
                    if not isinstance(k[1], int): syms(k[1], reachs)
                else:
                    rest.append((k, v))
            todo = rest
        rest_mem = dict(todo)
        kf, rf = {}, {}
        for k, v in st.facts.items():
            ss = set(); syms(k, ss)
            (kf if ss <= reachs else rf)[k] = v
        st2 = State()
        st2.mem = kept; st2.facts = kf; st2.ts = dict(st.ts); st2.trace = st.trace
        hv = st2.ts.pop('hv', 0)
        st2.zero = frozenset(z for z in st.zero if z in reachs); st2.fresh = frozenset(z for z in st.fresh if z in reachs)
        st2.note('%s: call %s' % (self.where(fr, i), fn.name))
        key = (ctx, tuple(args), st2.key())
        outs = self.memo.get(key)
        if outs is None:
            outs = self.run(nfr, st2, args)
            if len(outs) > self.rule.exit_join:
                outs = self.join_exits(nfr, outs)
            self.memo[key] = outs
        res = []
        for ret, s, _ in outs:
            s = s.copy()
            rm, z, fsh = rest_mem, st.zero - st2.zero, st.fresh - st2.fresh
            if s.ts.get('hv'):
                rm = {k: v for k, v in rest_mem.items() if k[0][0] == 'a' or k[0] in fsh}
                z = frozenset(x for x in z if x[0] == 'a' or x in fsh)
            for k, v in rm.items():
                s.mem.setdefault(k, v)
            for k, v in rf.items():
                s.facts.setdefault(k, v)
            s.zero = s.zero | z; s.fresh = s.fresh | fsh
            if hv: s.ts['hv'] = 1
            res.append((ret, s, env))
        return res

    def join_exits(self, fr, outs):
        groups = {}
        for ret, s, inst in outs:
            k = (ret, frozenset(s.ts.items()))
            g = groups.get(k)
            if g is None:
                groups[k] = (ret, s.copy(), inst)
                continue
            g = g[1]
            g.mem = {a: b for a, b in g.mem.items() if s.mem.get(a) == b}
            nf = {}
            for a, b in g.facts.items():
                c = s.facts.get(a)
                if c == b: nf[a] = b
                elif c and b[0] == 'ne' and c[0] == 'ne' and b[1] & c[1]: nf[a] = ('ne', b[1] & c[1])
                elif c and {b[0], c[0]} == {'ne', 'eq'}:
                    ne, eq = (b, c) if b[0] == 'ne' else (c, b)
                    r = frozenset(x for x in ne[1] if x != eq[1])
                    if r: nf[a] = ('ne', r)
            g.facts = nf
            g.zero &= s.zero; g.fresh &= s.fresh
            self.stats['joins'] += 1
        return list(groups.values())

    def intrinsic(self, fr, env, st, i, name, args):
        if name.startswith('llvm.memset') and args[1] == ZERO:
            b = root(args[0])
            loc = loc_of(args[0])
            if loc[1] == 0:
                self.havoc_obj(st, b)
                st.zero = st.zero | {b}
            elif isinstance(loc[1], int) and args[2][0] == 'c':
                for k in [k for k in st.mem if k[0] == b and isinstance(k[1], int) and loc[1] <= k[1] < loc[1] + args[2][1]]:
                    del st.mem[k]
            r = self.rule.on_call(self, st, fr, i, 'memset', args)
            if r is not None:
                return [(a[0], a[1], env) for a in r]
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            r = self.rule.on_call(self, st, fr, i, 'memcpy' if 'memcpy' in name else 'memmove', args)
            if r is not None:
                return [(a[0], a[1], env) for a in r]
            self.copy_mem(st, args)
        elif name.startswith('llvm.memset'):
            r = self.rule.on_call(self, st, fr, i, 'memset', args)
            self.havoc_obj(st, root(args[0]))
        if i.ty != 'void':
            return [(self.fresh_sym(st, fr, env, i), st, env)]
        return [(('void',), st, env)]

    def copy_mem(self, st, args):
        d, s = loc_of(args[0]), loc_of(args[1])
        n = args[2]
        if n[0] == 'c' and isinstance(d[1], int) and isinstance(s[1], int):
            for k in [k for k in st.mem if k[0] == d[0] and isinstance(k[1], int) and d[1] <= k[1] < d[1] + n[1]]:
                del st.mem[k]
            if d[0] in st.zero: st.zero = st.zero - {d[0]}
            for k, v in list(st.mem.items()):
                if k[0] == s[0] and isinstance(k[1], int) and s[1] <= k[1] < s[1] + n[1]:
                    st.mem[(d[0], d[1] + k[1] - s[1])] = v
        else:
            self.havoc_obj(st, d[0])

    def opaque(self, fr, env, st, i, name, args):
        """unknown callee: havoc what the pointer arguments reach directly"""
        self.rule.on_opaque(self, st, fr, i, name, args)
        if name in ('calloc',):
            s = self.fresh_sym(st, fr, env, i, '', 'result of calloc at ' + self.where(fr, i))
            st.zero = st.zero | {s}; st.fresh = st.fresh | {s}
            return [(s, st, env)]
        if name in ('malloc',):
            s = self.fresh_sym(st, fr, env, i, '', 'result of malloc at ' + self.where(fr, i))
            st.fresh = st.fresh | {s}
            return [(s, st, env)]
        if name not in PURE:
            for a in args:
                if a[0] in ('a', 'p', 's', 'g'):
                    r = root(a)
                    if r[0] == 'g' and self.p.globals.get(r[1], {}).get('const'):
                        continue
                    self.havoc_obj(st, r)
                    if r in st.fresh and name in CAPTURE:
                        self.escape(st, r)
        if i.ty != 'void':
            s = self.fresh_sym(st, fr, env, i, '', 'result of %s' % (name or 'callback'))
            return [(s, st, env)]
        return [(('void',), st, env)]


PURE = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'strstr', 'memcmp', 'pthread_self', 'getenv', 'strdup', 'strndup', 'printf', 'fprintf', 'puts',
        'pthread_equal', 'free', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_join',
        'isspace', 'isdigit', '__ctype_b_loc', '__errno_location', 'atoi', 'strtol', 'strtoul', 'strtoull', 'strtoll', 'strtod', 'strtof', 'fopen', 'usleep'}
CAPTURE = {'pthread_create', 'iot_thread_create'}
