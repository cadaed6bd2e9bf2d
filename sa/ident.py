"""U01: identifiers are random, marked as such, and printed in the usual form."""
from engine import *
from life import Plain

OUT = 'out'


def bits(v, n=64):
    """bits of a value, lowest first: 0, 1 or (what it comes from, position)"""
    if v[0] == 'c': return [(v[1] >> i) & 1 for i in range(n)]
    if v[0] == 'op' and v[1] in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'trunc', 'zext', 'add', 'udiv', 'urem', 'mul') and len(v) > 3:
        op, y = v[1], v[3]
        x = bits(v[2], n)
        if op == 'ashr': op = 'lshr'       # of bytes
        if op in ('trunc',): return [x[i] if i < y[1] else 0 for i in range(n)] if y[0] == 'c' else x
        if y[0] == 'c' and y[1] > 0 and op in ('udiv', 'urem', 'mul') and y[1] & (y[1] - 1) == 0:
            k = y[1].bit_length() - 1
            op, y = {'udiv': ('lshr', C(k)), 'mul': ('shl', C(k)), 'urem': ('and', C(y[1] - 1))}[op]
        if op in ('shl', 'lshr') and y[0] == 'c':
            k = y[1]
            return ([0] * k + x)[:n] if op == 'shl' else (x + [0] * k)[k:k + n]
        if op in ('and', 'or', 'xor', 'add'):
            z = bits(y, n)
            r = []
            for i in range(n):
                a, b = x[i], z[i]
                if op == 'and': q = 0 if a == 0 or b == 0 else a if b == 1 else b if a == 1 else a if a == b else ((v, i))
                elif op == 'or': q = 1 if a == 1 or b == 1 else a if b == 0 else b if a == 0 else a if a == b else ((v, i))
                elif op == 'xor': q = a if b == 0 else b if a == 0 else 0 if a == b else ((v, i))
                else: q = a if b == 0 else b if a == 0 else None
                r.append(q)
            if op == 'add' and None in r: return [(v, i) for i in range(n)]
            return r
    return [(v, i) for i in range(n)]


class MakeRule(Plain):
    name = 'make'
    deep = 12
    widths = True

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.sites = set(); self.exits = 0; self.seeds = set()

    def inline(self, eng, fn, fr, st, inst, args): return fn.file == self.root.file and not fn.public

    def out(self): return ('s', (self.root.name,), 'arg0', '')

    def B(self, eng, fr, inst, st, m): self.bad(eng, fr, inst, st, 'make', m)

    def seeding(self, v):
        return v[0] == 'g' and v[1].split('@')[0] in self.seedvars

    def on_call(self, eng, st, fr, inst, callee, args):
        if callee in ('getrandom', 'getentropy', 'arc4random_buf'):
            self.sites.add((fr.fn.name, inst.line))
            b = loc_of(args[0])
            n = eng.lookup(st, args[1])
            size = int(self.p.globals.get(b[0][1], {}).get('size', 0) or 0) if b[0][0] == 'g' else 0
            if b[0][0] == 'g': self.seedvars.add(b[0][1].split('@')[0]); st.ts[('seedsize', b[0][1])] = size
            if b[1] != 0 or n != size or not n: self.B(eng, fr, inst, st, 'not the whole state of the generator is made random')
            for k in [k for k in st.mem if k[0] == b[0]]: del st.mem[k]
            s2 = st.copy()
            ok = C(n or 0) if callee == 'getrandom' else ZERO
            r = self.res(eng, s2, fr, inst, 'result of ' + callee)
            if isinstance(n, int):
                if callee == 'getrandom': eng.assume(s2, eng.norm_cmp('slt', r, C(n)), True)
                eng.set_ne(s2, r, n if callee == 'getrandom' else 0)
            st.ts[('seeded',)] = 1
            return [(ok, st), (r, s2)] if inst.ty != 'void' else [(('void',), st)]
        if callee == 'pthread_once': st.ts[('seeded',)] = 1
        if callee.startswith(('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove')):
            (d, do), (s, so), n = loc_of(args[0]), loc_of(args[1]), eng.lookup(st, args[2])
            if isinstance(do, int) and isinstance(so, int) and isinstance(n, int):
                for k in [k for k in st.ts if k[0] == 'put' and k[1] == s and so <= k[2] < so + n]:
                    st.ts[('put', d, k[2] - so + do)] = st.ts[k]
            return None
        if callee.startswith(('pthread_', 'iot_')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        b, o = loc_of(ptr)
        if (b[0] == 'a' or b == self.out()) and val[0] == 's': st.ts[('ld', val)] = (b, o)
        if self.seeding(b):
            st.ts[('from', val)] = 1
            init = any(self.flag(k, v, eng, st) for k, v in st.mem.items())
            if ('seeded',) not in st.ts and not init: self.B(eng, fr, inst, st, 'generator used although it may not have been seeded')

    def flag(self, k, v, eng, st):
        return k[0][0] == 'g' and k[0][1].split('@')[0] in self.flagvars and eng.decide(st, eng.norm_cmp('eq', v, ZERO)) is False

    def random(self, st, v):
        s = set(); syms(v, s)
        return any(('from', x) in st.ts for x in s)

    def on_store(self, eng, st, fr, inst, ptr, val):
        b, o = loc_of(ptr)
        if b[0] == 'g' and b[1].split('@')[0] in self.flagvars and ('seeded',) not in st.ts and val != ZERO:
            self.B(eng, fr, inst, st, 'generator counted as seeded although it may not be')
        if self.seeding(b):
            st.ts[('step',)] = 1
            if val[0] == 'c': self.B(eng, fr, inst, st, 'state of the generator set to a fixed value')
        if b[0] == 'a' or b == self.out():
            if not isinstance(o, int): self.B(eng, fr, inst, st, 'identifier written at an unknown place') if b == self.out() else None; return
            size = inst.d.get('size') or 1
            if size > 1: rnd = self.random(st, val); marks = [('rnd', (val if val[0] == 'op' else (inst.line, st.ts.get(('n',), 0))), i) if rnd else ('fix',) for i in range(size)]
            else:
                x = bits(val, 8)
                free = [i for i in range(8) if x[i] not in (0, 1)]
                dep = len({x[i] for i in free}) == len(free)
                # a byte made from the one that is there
                src = {q[0] for q in (x[i] for i in free)}
                lds = [st.ts.get(('ld', q)) for q in src]
                rnd = bool(src) and all(l is not None and l[1] == o and (st.ts.get(('put',) + l) or ('fix',))[0] in ('rnd', 'mix') for l in lds) or any(self.random(st, q) for q in src)
                cp = st.ts.get(('put',) + st.ts[('ld', val)]) if ('ld', val) in st.ts else None
                marks = [cp] if cp else [('mix', tuple(q if q in (0, 1) else 'r' for q in x)) if rnd and dep else ('fix',)]
            st.ts[('n',)] = min(st.ts.get(('n',), 0) + 1, 40) if size > 1 else st.ts.get(('n',), 0)
            for i, m in enumerate(marks): st.ts[('put', b, o + i)] = m

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        seen = set()
        for k in range(16):
            m = st.ts.get(('put', self.out(), k))
            want = {6: (0, 0, 1, 0), 8: (0, 1)}.get(k)
            if m is None: self.B(eng, fr, inst, st, 'not all bytes of the identifier are made'); return
            if m[0] == 'fix': self.B(eng, fr, inst, st, 'part of the identifier is not random'); return
            if want:
                what = 'version' if k == 6 else 'variant'
                x = m[1] if m[0] == 'mix' else ('r',) * 8
                if x[-len(want):] != want: self.B(eng, fr, inst, st, 'identifier is not marked with the %s of random identifiers' % what); return
                if any(q != 'r' for q in x[:-len(want)]): self.B(eng, fr, inst, st, 'random bits of the identifier lost where its %s is put' % what); return
            elif m[0] == 'mix' and any(q != 'r' for q in m[1]): self.B(eng, fr, inst, st, 'part of the identifier is not random'); return
            if m[0] == 'rnd':
                if m in seen: self.B(eng, fr, inst, st, 'two parts of the identifier are the same'); return
                seen.add(m)
        if ('step',) not in st.ts: self.B(eng, fr, inst, st, 'generator left in the state it was in')


class PrintRule(Plain):
    name = 'print'
    deep = 8

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.sites = set(); self.exits = 0

    def inline(self, eng, fn, fr, st, inst, args): return fn.file == self.root.file and not fn.public

    def a(self, n): return ('s', (self.root.name,), 'arg%d' % n, '')

    def table(self, v):
        from contract import cstr
        if v[0] == 'g':
            g = self.p.globals.get(v[1], {})
            i = g.get('init')
            if i and i[0] == 'str': return cstr(self.p, v)
            if i and i[0] == 'g': return cstr(self.p, ('g', i[1]))
        o = self.origin.get(v)
        if o and o[0][0] == 'g': return self.table(o[0])
        return None

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        b, o = loc_of(ptr)
        if b == self.a(0):
            if isinstance(o, int) and 0 <= o < 16: st.ts[('byte', val)] = o
            else: self.bad(eng, fr, inst, st, 'print', 'byte read from outside the identifier')
            return
        st.ts.pop(('digit', val), None)
        t = self.table(b)
        if t is None and b[0] == 's': t = self.table(b)
        if t is not None and not isinstance(o, int) and o[0] == 'i' and len(o[2]) == 1 and o[2][0][0] == 1 and t[o[1]:] == '0123456789abcdef':
            x = bits(o[2][0][1], 8)
            for k, s in [(k[1], v) for k, v in st.ts.items() if k[0] == 'byte']:
                if x == [(k, i) for i in range(4, 8)] + [0] * 4: st.ts[('digit', val)] = (s, 'high')
                elif x == [(k, i) for i in range(4)] + [0] * 4: st.ts[('digit', val)] = (s, 'low')

    def on_store(self, eng, st, fr, inst, ptr, val):
        b, o = loc_of(ptr)
        if b != self.a(1): return
        self.sites.add((fr.fn.name, inst.line))
        if not isinstance(o, int): self.bad(eng, fr, inst, st, 'print', 'character written at an unknown place'); return
        lay = []
        for k in range(16):
            if k in (4, 6, 8, 10): lay.append('-')
            lay += [(k, 'high'), (k, 'low')]
        if not 0 <= o <= 36: self.bad(eng, fr, inst, st, 'print', 'character written beyond the text of an identifier'); return
        w = lay[o] if o < 36 else None
        v = eng.lookup(st, val)
        ok = v == 0 if o == 36 else v == 45 if w == '-' else st.ts.get(('digit', val)) == w
        if not ok: self.bad(eng, fr, inst, st, 'print', 'wrong character in the text of an identifier')
        st.ts[('at', o)] = 1

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        if any(('at', k) not in st.ts for k in range(37)): self.bad(eng, fr, fr.fn.blocks[-1][-1], st, 'print', 'text of an identifier is not complete')


def run_ident(prog):
    out = []
    for rule, n in ((MakeRule(prog), 'iot_uuid_generate'), (PrintRule(prog), 'iot_uuid_unparse')):
        f = prog.funcs[n]
        # the generator's state: what the system's random bytes are put into; the flag: other statics of the unit
        rule.seedvars, rule.flagvars = set(), set()
        for g, d in prog.globals.items():
            if d.get('unit') == 'uuid.c' and not d.get('const'):
                if int(d.get('size') or 0) <= 4: rule.flagvars.add(g.split('@')[0])
        for x in prog.funcs.values():
            for b in x.blocks:
                for i in b:
                    if i.op == 'call' and i.d['callee'][0] == 'fn' and i.d['callee'][1] in ('getrandom', 'getentropy', 'arc4random_buf'):
                        for o in i.ops:
                            if o[0] == 'g': rule.seedvars.add(o[1].split('@')[0])
        eng = Engine(prog, rule)
        rule.root = f; eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n)
        out.append((eng, rule, f))
    return out


if __name__ == '__main__':
    import ir
    for v in ('debug', 'release'):
        for e, r, f in run_ident(ir.load(v)):
            for x in e.reports: print(x['function'], x['line'], x['message'], x['path'][-4:])
            print(f.name, len(r.sites), r.exits)
