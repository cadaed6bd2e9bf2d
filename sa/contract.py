"""What calls promise their caller, decided per path at the exit: loggers (A03), files and stores (E01), typed look-ups (K01),
threads (E02)."""
from engine import *
from ds import Base
from life import Plain, unbool, touches, run


def cstr(prog, v):
    """content of a constant string argument"""
    if root(v)[0] == 'g':
        g = prog.globals.get(root(v)[1], {})
        i = g.get('init')
        if i and i[0] == 'str':
            s = bytes.fromhex(i[1]).split(b'\0')[0].decode('latin1')
            off = loc_of(v)[1]
            return s[off:] if isinstance(off, int) else None
    return None


def strip_p(v):
    return v[1] if v[0] == 'p' and v[2] == 0 else v


def truths(eng, st, v):
    """the truth values v can have at this point, each with the state in which it has it"""
    if v[0] == 'c': return [(bool(v[1]), st)]
    d = eng.decide(st, v)
    if d is not None: return [(d, st)]
    out = []
    for t in (True, False):
        s2 = st.copy()
        if eng.assume(s2, v, t): out.append((t, s2))
    return out


# ------------------------------------------------------------------ loggers
IMPL = 'iot_logger_impl_t'
OUTPUT = ('fprintf', 'fputs', 'fwrite', 'sendto', 'send', 'write', 'printf', 'puts', 'vfprintf', 'dprintf', 'syslog')
LVL = ('iot_logger_t', 'level')


class LogRule(Plain):
    name = 'log'
    mode = 'send'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.sends = set(); self.advances = set(); self.kinds = set(); self.outs = set(); self.impls = set()

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.file.endswith('logger.c') and fn.name not in ('iot_logger_free', 'iot_logger_add_ref') and (not fn.public or self.mode == 'make' or fn.name in self.senders)

    def dealt(self, eng, st, L):
        if ('sent', L) in st.ts: return True
        lv = st.ts.get(('lv', L))
        return lv is not None and eng.decide(st, eng.norm_cmp('uge', lv, self.level)) is False

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        t = tag_of(ptr)
        if t == LVL: st.ts[('lv', loc_of(ptr)[0])] = val
        if self.mode == 'out' and loc_of(ptr)[0] == self.arg(4): st.ts[('sock', val)] = 1
        if t == (IMPL, 'impl'): st.ts[('fp', val)] = loc_of(ptr)[0]
        if t == (IMPL, 'ctx'): st.ts[('cx', val)] = loc_of(ptr)[0]
        if t == (IMPL, 'next') and self.mode == 'send':
            L = loc_of(ptr)[0]
            self.advances.add((fr.fn.name, inst.line))
            if st.ts.get(('at',)) == L:
                if not self.dealt(eng, st, L): self.bad(eng, fr, inst, st, 'skip', 'logger of the chain passed over although its level may admit the message')
                st.ts[('at',)] = val
                for k in [k for k in st.ts if k[0] in ('sent', 'lv') and k[1] == L]: del st.ts[k]
    
    def on_indirect(self, eng, st, fr, inst, fv, args):
        L = st.ts.get(('fp', fv))
        if L is not None and self.mode == 'send':
            self.sends.add((fr.fn.name, inst.line))
            B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
            if st.ts.get(('at',)) != L: B('chain', 'message given to a logger that is not the next one of the chain')
            if ('sent', L) in st.ts: B('twice', 'message given to one logger twice')
            lv = st.ts.get(('lv', L))
            if lv is None or eng.decide(st, eng.norm_cmp('uge', lv, self.level)) is not True: B('level', 'message given to a logger whose level may not admit it')
            if strip_p(args[0]) != L: B('args', 'log function called with another logger')
            if args[1] != self.level: B('args', 'log function called with another level')
            if len(args) > 4 and st.ts.get(('cx', args[4])) != L: B('args', 'log function called with another context')
            for n, k in ((2, 'time stamp'), (3, 'text')):
                w = root(args[n])
                if st.ts.setdefault(('arg', n), w) != w: B('args', 'loggers of one chain given different %s' % k)
            if self.root.name == 'iot_log__va_log' and ('fmtd', root(args[3])) not in st.ts: B('args', 'text given to the logger is not the message')
            st.ts[('sent', L)] = 1
            for k in [k for k in st.ts if k[0] in ('fp', 'cx')]: del st.ts[k]
            return [(('void',), st)]
        return Plain.on_indirect(self, eng, st, fr, inst, fv, args)

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        if self.mode == 'send' and len(args) >= 3 and self.root.name == 'iot_log__va_log' and self.arg(2) in args: st.ts[('fmtd', root(args[0]))] = 1
        if callee == 'iot_component_init': st.ts[('init', root(args[0]))] = 1
        if callee == 'iot_component_set_' + {'start': 'running', 'stop': 'stopped'}.get(self.mode, '?'): st.ts[('moved',)] = 1
        if callee == 'iot_logger_add_ref' and self.mode == 'next': st.ts[('ref', strip_p(args[0]))] = 1
        if callee == 'iot_logger_free' and self.mode == 'next':
            if not any(k[0] == 'ref' for k in st.ts) and eng.lookup(st, self.arg(1)) != 0: self.bad(eng, fr, inst, st, 'next', 'former successor released before the new one is held (they may be the same)')
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee == 'strdup':
            r = self.res(eng, st, fr, inst, 'strdup'); eng.set_ne(st, r, 0)
            st.ts[('dup', r)] = args[0]
            return [(r, st)]
        if callee == 'iot_logger_add_ref' and self.mode == 'make': st.ts[('ref', strip_p(args[0]))] = 1
        if self.mode == 'out':
            if callee in OUTPUT:
                self.outs.add((fr.fn.name, inst.line)); st.ts[('out',)] = st.ts.get(('out',), 0) + 1
                if ('fmt',) not in st.ts and self.arg(3) not in args: self.bad(eng, fr, inst, st, 'out', 'something else than the message is written')
            if callee in ('snprintf', 'sprintf', '__snprintf_chk', 'asprintf', 'vsnprintf'):
                if self.arg(3) in args:
                    r = self.res(eng, st, fr, inst, 'result of ' + callee); st.ts[('fmt',)] = r
                    return [(r, st)]
        if callee.startswith(('iot_component_set_', 'iot_component_lock')):
            r = self.res(eng, st, fr, inst, 'result of ' + callee)
            if callee == 'iot_component_set_stopped': st.ts[('chg',)] = r
            return [(r, st)]
        if callee.startswith(('iot_', 'pthread_')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def arg(self, n): return ('s', (self.root.name,), 'arg%d' % n, '')

    def get(self, eng, st, o, f):
        v = st.mem.get((o, f if isinstance(f, int) else self.o(*f)))
        if v is None and o in st.zero: v = ZERO
        return v

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        if self.mode == 'send':
            at = st.ts.get(('at',))
            if at is not None and eng.lookup(st, at) != 0: B('end', 'chain of loggers not followed to its end')
        L = self.arg(0)
        if self.mode in ('start', 'stop') and ('moved',) not in st.ts: B(self.mode, 'state of the component not changed')
        if self.mode == 'start':
            lv, sv = self.get(eng, st, L, LVL), self.get(eng, st, L, (IMPL, 'save'))
            if lv is None or lv != sv: B('start', 'started logger does not have its saved level')
        if self.mode == 'stop':
            lv, sv = self.get(eng, st, L, LVL), self.get(eng, st, L, (IMPL, 'save'))
            if lv is None or lv != ZERO and eng.lookup(st, lv) != 0: B('stop', 'stopped logger may still log')
            wrote = st.ts.get(('wsave',))
            first = st.ts.get(('lv', L))
            if wrote:
                o = self.origin.get(wrote)
                if not o or o[2] != LVL: B('stop', 'level saved by stop is not the level the logger had')
                chg = st.ts.get(('chg',))
                if eng.decide(st, eng.norm_cmp('ne', wrote, ZERO)) is not True: B('stop', 'saved level overwritten with none when a logger that does not log is stopped')
            elif first is None or not any(eng.lookup(st, k) == 0 and (self.origin.get(k) or (0, 0, 0))[2] == LVL for k in list(st.facts)):
                chg = st.ts.get(('chg',))
                if chg is None or eng.decide(st, chg) is not False: B('stop', 'level of the logger lost when it is stopped')
        if self.mode == 'level' and self.get(eng, st, L, LVL) != self.arg(1): B('level', 'level asked for is not set')
        if self.mode == 'out':
            n = st.ts.get(('out',), 0)
            if n > 1: B('out', 'message written twice')
            fmt = st.ts.get(('fmt',))
            if not n:
                empty = fmt is not None and any(eng.decide(st, c) is True for c in (eng.norm_cmp('eq', fmt, ZERO), eng.norm_cmp('sle', fmt, ZERO), eng.norm_cmp('ule', fmt, ZERO)))
                shut = eng.lookup(st, self.arg(4)) == 0 or any(k[0] == 'sock' and eng.lookup(st, k[1]) is not None for k in st.ts)
                if not empty and not shut: B('out', 'message not written')
        if self.mode == 'default' and any(k[0] == 'dset' for k in st.ts):
            lv, sv, im = (self.get(eng, st, r, f) for r in (root(val),) for f in (LVL, (IMPL, 'save'), (IMPL, 'impl')))
            if lv is None or lv == ZERO or lv != sv: B('default', 'default logger has no level to log at, or forgets it when stopped')
            if im is None or im[0] != 'fn': B('default', 'default logger has no function to log with')
        if self.mode == 'make':
            r = root(val)
            if r[0] not in ('s', 'h', 'a') or eng.lookup(st, r) == 0: B('make', 'no logger returned'); return
            if ('init', r) not in st.ts: B('make', 'logger returned whose component part is not set up')
            nm = self.get(eng, st, r, (IMPL, 'name'))
            if st.ts.get(('dup', nm)) != self.arg(0): B('make', 'logger not created with the name given')
            nx = next((self.arg(a[0]) for a in fr.fn.args if a[3].replace(' ', '') == 'iot_logger_t*'), None)
            if nx is not None:
                if ('ref', nx) not in st.ts and eng.lookup(st, nx) != 0: B('make', 'next logger stored without being held')
            im = self.get(eng, st, r, (IMPL, 'impl'))
            if im is not None and im[0] == 'fn': self.impls.add(im[1])
            elif im is None or im == ZERO: B('make', 'logger created without a function to log with')
            BYTYPE = {'iot_loglevel_t': 'level', 'bool': 'start', '_Bool': 'start', 'iot_logger_t*': 'next', 'iot_log_function_t': 'impl', 'void*': 'ctx', 'iot_log_free_fn_t': 'freectx'}
            n = {BYTYPE[a[3].replace(' ', '')]: self.arg(a[0]) for a in fr.fn.args if a[3].replace(' ', '') in BYTYPE}
            for f, a in (((IMPL, 'save'), 'level'), ((IMPL, 'impl'), 'impl'), ((IMPL, 'ctx'), 'ctx'), ((IMPL, 'freectx'), 'freectx'), ((IMPL, 'next'), 'next')):
                if a not in n: continue
                v = self.get(eng, st, r, f)
                if v is None or strip_p(v) != n[a] and not (eng.lookup(st, n[a]) == 0 and v == ZERO): B('make', 'new logger does not have the %s it was given' % a)
            lv = self.get(eng, st, r, LVL)
            for t, s2 in truths(eng, st, n['start']) if 'start' in n and 'level' in n else ():
                if lv != (n['level'] if t else ZERO): B('make', 'new logger %s' % ('not given its level although it is to be started' if t else 'logs although it was not started'))
        if self.mode == 'next':
            v = self.get(eng, st, L, (IMPL, 'next'))
            if v is None or strip_p(v) != self.arg(1): B('next', 'successor of the logger not set')

    def on_stored(self, eng, st, fr, inst, ptr, val):
        if self.mode == 'default' and tag_of(ptr) in (LVL, (IMPL, 'save'), (IMPL, 'impl')): st.ts[('dset',)] = 1
        t = tag_of(ptr)
        if t == (IMPL, 'save'): st.ts[('wsave',)] = val
        if t == LVL: self.kinds.add((fr.fn.name, inst.line))


def run_log(prog):
    rule = LogRule(prog)
    eng = Engine(prog, rule)
    own = {n for n, f in prog.funcs.items() if f.file.endswith('logger.c')}
    ind = set()
    for n in own:
        tags = {}
        for b in prog.funcs[n].blocks:
            for i in b:
                if i.op == 'getelementptr' and 'st' in i.d['gep']: tags[i.id] = (i.d['gep']['st'].replace('struct.', ''), prog.field(i.d['gep']['st'], i.d['gep']['fo']))
                if i.op == 'load' and i.ops[0][0] == 'v' and tags.get(i.ops[0][1]) == (IMPL, 'impl'): ind.add(n)
    grow = set(ind)
    while grow:
        grow = {c for x in grow for c in prog.callers.get(x, ()) if c in own and c not in ind}; ind |= grow
    ind |= {'iot_log__log', 'iot_log__va_log'}
    rule.senders = ind
    roots = []
    for n in sorted(ind):
        f = prog.funcs[n]
        lv = [a for a in f.args if a[3] == 'iot_loglevel_t']; lg = [a for a in f.args if a[3].startswith(('iot_logger_t', IMPL))]
        if not lv or not lg or not f.public: continue
        rule.mode = 'send'; rule.root = f; rule.level = ('s', (n,), 'arg%d' % lv[0][0], '')
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        st = State(); st.ts[('at',)] = ('s', (n,), 'arg%d' % lg[0][0], '')
        eng.run_root(n, st); roots.append(n)
    makes = [('make', n) for n, f in sorted(prog.funcs.items()) if n.startswith('iot_logger_alloc') and f.public and n in own]
    modes = [('start', 'iot_logger_start'), ('stop', 'iot_logger_stop'), ('next', 'iot_logger_set_next'), ('level', 'iot_logger_set_level'), ('default', 'iot_logger_default')] + makes
    for m, n in modes:
        f = prog.funcs[n]
        rule.mode = m; rule.root = f; rule.level = None
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n); roots.append(n)
    for n in sorted(rule.impls):
        rule.mode = 'out'; rule.root = prog.funcs[n]; rule.level = None
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n); roots.append(n)
    return eng, rule, roots


# ------------------------------------------------------------------ files and stores
class FileRule(Plain):
    name = 'file'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.steps = {}

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.file.endswith(('/file.c', '/store.c')) and fn.file == self.root.file

    def arg(self, n): return ('s', (self.root.name,), 'arg%d' % n, '')

    def ev(self, k, fr, inst): self.steps.setdefault(k, set()).add((fr.fn.name, inst.line))

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        mk = lambda k: eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        if callee in ('fopen', 'fopen64', 'open'):
            self.ev('open', fr, inst)
            m = cstr(self.p, args[1]) or '?'
            w = m[0] != 'r' or '+' in m
            txt = st.ts.get(('txt', root(args[0])))
            if w and (root(args[0]) == self.arg(0) or txt == (self.arg(0),)): B('atomic', 'existing file opened for writing before its new content is complete')
            elif w and root(args[0])[0] == 'a' and txt in (None, ()): B('atomic', 'file opened for writing under a name that was not set')
            s = mk('')
            st.ts[('opened',)] = 1
            s2 = st.copy(); eng.set_eq(s2, s, 0); s2.note('%s: open fails' % eng.where(fr, inst))
            eng.set_ne(st, s, 0)
            st.ts[('file', s)] = (root(args[0]), 'w' if w else 'r')
            return [(s, st), (ZERO, s2)]
        if callee in ('fwrite', 'fwrite_unlocked'):
            self.ev('write', fr, inst)
            r = mk('')
            st.ts[('wr', args[3])] = (r, args[0], args[1], args[2])
            return [(r, st)]
        if callee in ('fread', 'fread_unlocked'):
            self.ev('read', fr, inst)
            r = mk('')
            st.ts[('rd', args[3])] = (r, root(args[0]), args[1], args[2])
            for k in [k for k in st.mem if k[0] == root(args[0])]: del st.mem[k]
            return [(r, st)]
        if callee == 'fclose':
            self.ev('close', fr, inst)
            r = mk('')
            st.ts[('cl', args[0])] = r
            return [(r, st)]
        if callee in ('fseek', 'fseeko', 'rewind', 'fflush', 'fsync', 'fileno'):
            r = self.res(eng, st, fr, inst, 'result of ' + callee)
            if callee.startswith('fseek'):
                st.ts[('sk', args[0])] = (r, args[2]) if args[1] == ZERO else (r, None)
            if callee == 'rewind': st.ts[('sk', args[0])] = (ZERO, ZERO)
            return [(r, st)]
        if callee in ('ftell', 'ftello'):
            r = mk('')
            st.ts[('tell', r)] = (args[0], st.ts.get(('sk', args[0]), (None, None)))
            return [(r, st)]
        if callee == 'rename':
            self.ev('rename', fr, inst)
            r = mk('')
            F = next((k[1] for k, v in st.ts.items() if k[0] == 'file' and v[0] == root(args[0]) and v[1] == 'w'), None)
            if F is None: B('atomic', 'something else than the file just written takes the place of the old file')
            else:
                why = self.written(eng, st, F)
                if why: B('atomic', 'old file replaced although ' + why)
            if root(args[1]) != self.arg(0): B('atomic', 'new content moved to another name')
            st.ts[('mv',)] = r
            return [(r, st)]
        if callee in ('remove', 'unlink', 'truncate'):
            self.ev('remove', fr, inst)
            if root(args[0]) == self.arg(0): st.ts[('rm',)] = r = mk('')
            else: r = mk('')
            return [(r, st)]
        if callee in ('malloc', 'calloc'):
            r = mk('')
            st.fresh = st.fresh | {r}
            st.ts[('size', r)] = args[0] if callee == 'malloc' else eng.arith('mul', args[0], args[1], inst)
            if callee == 'calloc': st.ts[('txt', r)] = ()
            st.ts[('buf', r)] = 1
            return [(r, st)]
        if callee == 'free':
            return [(('void',), st)]
        if callee in ('strcpy', 'stpcpy', 'strcat'):
            d = root(args[0])
            was = st.ts.get(('txt', d))
            src = cstr(self.p, args[1])
            src = ('k', src) if src is not None else strip_p(args[1])
            if callee != 'strcat': st.ts[('txt', d)] = (src,)
            elif was is not None: st.ts[('txt', d)] = was + (src,)
            elif d[0] == 'a' or ('buf', d) in st.ts: B('name', 'text appended to a name that was not begun')
            else: st.ts[('txt', d)] = ('?',)
            return [(args[0], st)]
        if callee in ('snprintf', 'sprintf', 'asprintf', '__snprintf_chk', 'memcpy', 'strncat'):
            st.ts[('txt', root(args[0]))] = ('?',)
            return None
        if callee == 'strlen':
            k = cstr(self.p, args[0])
            if k is not None: return [(C(len(k)), st)]
            return [(('op', 'strlen', strip_p(args[0]), ZERO), st)]
        if callee.startswith('strncpy') or callee in ('strlcpy',):
            st.ts[('txt', root(args[0]))] = (strip_p(args[1]),)
            return [(args[0], st)]
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith('iot_'): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def on_indirect(self, eng, st, fr, inst, fv, args):
        o = self.origin.get(fv)
        k = o[0][1].split('@')[0] if o and o[0][0] == 'g' else None
        r = self.res(eng, st, fr, inst, 'result of the store function')
        if k:
            self.ev(k, fr, inst)
            if any(x[0] == 'dlg' for x in st.ts): self.bad(eng, fr, inst, st, 'store', 'store asked twice')
            st.ts[('dlg',)] = (k, r, tuple(strip_p(a) for a in args))
        return [(r, st)]

    def complete(self, eng, st, res, a, b, total):
        """result says everything was transferred"""
        if a == C(1): n, m = b, a
        elif b == C(1): n, m = a, a
        else: n, m = None, None
        cnt = b
        if total is not None and not (a == C(1) and b == total or b == C(1) and a == total): return False
        return eng.decide(st, eng.norm_cmp('eq', res, cnt)) is True

    def written(self, eng, st, F):
        w = st.ts.get(('wr', F))
        binary, ln = self.content()
        if w is None: return 'nothing was written'
        if strip_p(w[1]) != binary: return 'other content was written'
        if not (w[2] == C(1) and w[3] == ln or w[3] == C(1) and w[2] == ln): return 'another amount was written'
        if eng.decide(st, eng.norm_cmp('eq', w[0], w[3])) is not True: return 'the write may be incomplete'
        c = st.ts.get(('cl', F))
        if c is None: return 'it is not closed yet'
        if eng.decide(st, eng.norm_cmp('eq', c, ZERO)) is not True: return 'closing it may have failed'
        return None

    def content(self):
        b = self.arg(1)
        return b, (self.arg(2) if len(self.root.args) > 2 else ('op', 'strlen', b, ZERO))

    def on_stored(self, eng, st, fr, inst, ptr, val):
        l = loc_of(ptr)
        if (('txt', l[0]) in st.ts or ('buf', l[0]) in st.ts) and l[1] == 0 and val == ZERO: st.ts[('txt', l[0])] = ()

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        m = self.mode
        if m == 'write':
            F = next((k[1] for k, v in st.ts.items() if k[0] == 'file' and v[1] == 'w'), None)
            mv = st.ts.get(('mv',))
            if ('rm',) in st.ts: B('atomic', 'existing file removed')
            for t, s2 in truths(eng, st, val):
                if t:
                    why = 'no file could be opened' if F is None else self.written(eng, s2, F)
                    if not why and mv is None: why = 'the old file was not replaced'
                    if not why and eng.decide(s2, eng.norm_cmp('eq', mv, ZERO)) is not True: why = 'replacing the old file may have failed'
                    if why: B('told', 'write reported as successful although ' + why)
                elif mv is not None and eng.decide(s2, eng.norm_cmp('ne', mv, ZERO)) is not True: B('told', 'successful write reported as failed')
                elif F is not None and mv is None and (self.written(eng, s2, F) is None or self.written(eng, s2, F).startswith(('nothing', 'other', 'another', 'it is'))): B('told', 'write given up although no step of it failed')
                elif F is None and not any(k[0] == 'opened' for k in st.ts): B('told', 'write given up without trying')
        if m == 'read':
            F = next((k[1] for k, v in st.ts.items() if k[0] == 'file'), None)
            lp = self.arg(1) if len(fr.fn.args) > 1 else ZERO
            for t, s2 in truths(eng, st, val):
                want = ZERO
                if t:
                    r = st.ts.get(('rd', F)) if F else None
                    if r is None or r[1] != root(val): B('read', 'data returned that was not read from the file'); continue
                    size = r[3] if r[2] == C(1) else r[2] if r[3] == C(1) else eng.arith('mul', r[2], r[3], inst) if inst.ty.startswith('i') else None
                    if eng.decide(s2, eng.norm_cmp('eq', r[0], r[3])) is not True: B('read', 'content returned although the read may be incomplete')
                    tl = st.ts.get(('tell', size))
                    if tl is None or tl[0] != F or tl[1][1] != C(2): B('read', 'amount read is not the size of the file')
                    elif eng.decide(s2, eng.norm_cmp('eq', tl[1][0], ZERO)) is not True: B('read', 'file size used although seeking may have failed')
                    sk = st.ts.get(('sk', F))
                    if sk is None or sk[1] != ZERO: B('read', 'file not read from its beginning')
                    if s2.mem.get((root(val), ('i', 0, ((1, size),)))) != ZERO: B('read', 'content returned without terminator')
                    sz = st.ts.get(('size', root(val)))
                    if sz is None or not (sz[0] == 'op' and sz[1] == 'add' and sz[2] == size and sz[3][0] == 'c' and sz[3][1] >= 1): B('read', 'buffer does not have room for the content and its terminator')
                    want = size
                elif F is not None:
                    r = st.ts.get(('rd', F))
                    if r is not None and eng.decide(s2, eng.norm_cmp('eq', r[0], r[3])) is True: B('read', 'content read completely but not returned')
                    if r is None:
                        bad = any(k[0] == 'size' and eng.lookup(s2, k[1]) == 0 for k in st.ts)
                        for k, v in st.ts.items():
                            if k[0] == 'tell' and eng.decide(s2, eng.norm_cmp('sle', k[1], ZERO)) is True: bad = True
                            if k[0] == 'tell' and eng.lookup(s2, k[1]) is not None: bad = True
                            if k[0] == 'sk' and v[0] is not None and eng.decide(s2, eng.norm_cmp('ne', v[0], ZERO)) is True: bad = True
                        if not bad: B('read', 'reading given up although no step of it failed')
                if len(fr.fn.args) > 1 and eng.lookup(s2, lp) != 0:
                    got = s2.mem.get((lp, 0))
                    if got != want: B('read', 'length reported is not the length returned')
        if m == 'delete':
            rm = st.ts.get(('rm',))
            for t, s2 in truths(eng, st, val):
                if rm is None or eng.decide(s2, eng.norm_cmp('eq', rm, ZERO)) is not t: B('told', 'result of the deletion not reported')
        if m == 'config':
            for n, g in enumerate(('iot_store_reader', 'iot_store_writer', 'iot_store_deleter')):
                if not any(k[0][0] == 'g' and k[0][1].startswith(g) and v == self.arg(n) for k, v in st.mem.items()): B('store', 'configured function not kept as %s' % g)
        if m and m.startswith('store'):
            which = {'r': 'iot_store_reader', 'w': 'iot_store_writer', 'd': 'iot_store_deleter'}[m[-1]]
            d = st.ts.get(('dlg',))
            if d is None:
                null = any(eng.lookup(st, k) == 0 and (self.origin.get(k) or (('',),))[0][0] == 'g' and self.origin[k][0][1].startswith(which) for k in list(st.facts))
                if not null: B('store', 'configured store function not used')
                for t, s2 in truths(eng, st, val):
                    if t: B('store', 'success reported although no store function is configured')
                if which.endswith('reader') and len(fr.fn.args) > 1 and fr.fn.args[1][3].replace(' ', '') == 'size_t*' and eng.lookup(st, self.arg(1)) != 0 and st.mem.get((self.arg(1), 0)) != ZERO:
                    B('store', 'length not reported although nothing was read')
                return
            k, r, a = d
            if k != which: B('store', 'wrong store function used (%s)' % k)
            if strip_p(val) != r and any(eng.decide(s2, eng.norm_cmp('ne', r, ZERO)) is not t for t, s2 in truths(eng, st, val)): B('store', 'result of the store function not passed on')
            if m.startswith('storecfg'):
                n, u = self.arg(0), self.arg(1)
                txt = st.ts.get(('txt', a[0]))
                if txt is None: B('store', 'store asked for another path')
                elif '?' not in txt:
                    un = eng.lookup(st, u) == 0
                    want = (n, ('k', '.json')) if un else (u, ('k', '/'), n, ('k', '.json'))
                    if txt != want: B('store', 'path does not consist of location, name and extension')
                    sz = lin(st.ts.get(('size', a[0])))
                    need = sum([lin(('op', 'strlen', x, ZERO)) if x[0] != 'k' else C1(len(x[1])) for x in want], C1(1))
                    if sz is None or not sz.covers(need): B('store', 'buffer too small for the path')
                nd = 2
            else:
                if a[0] != self.arg(0): B('store', 'store asked for another path')
                nd = 1
            if k.endswith('writer'):
                b = self.arg(nd)
                ln = self.arg(nd + 1) if len(self.root.args) > nd + 1 else ('op', 'strlen', b, ZERO)
                if a[1] != b or a[2] != ln: B('store', 'other content handed to the store')
            if k.endswith('reader') and nd == 1 and len(self.root.args) > 1 and a[1] != self.arg(1): B('store', 'length of the data not passed on')


class C1:
    """constant + multiset of symbolic terms"""
    def __init__(self, c, t=()): self.c = c; self.t = dict(t)

    def __add__(self, o):
        t = dict(self.t)
        for k, n in o.t.items(): t[k] = t.get(k, 0) + n
        return C1(self.c + o.c, t)

    def __sub__(self, o):
        return self + C1(-o.c, {k: -n for k, n in o.t.items()})

    @property
    def k(self): return self.c

    def isc(self): return not any(self.t.values())

    def covers(self, o):
        return self.c >= o.c and all(self.t.get(k, 0) >= n for k, n in o.t.items())


def lin(v):
    if v is None: return None
    if v[0] == 'c': return C1(v[1])
    if v[0] == 'op' and v[1] == 'add':
        a, b = lin(v[2]), lin(v[3])
        return a + b if a and b else None
    return C1(0, {v: 1})


FILES = (('config', 'iot_store_config'), ('write', 'iot_file_write_binary'), ('write', 'iot_file_write'), ('read', 'iot_file_read_binary'), ('read', 'iot_file_read'), ('delete', 'iot_file_delete'),
         ('store-r', 'iot_store_read_binary'), ('store-r', 'iot_store_read'), ('store-w', 'iot_store_write_binary'), ('store-w', 'iot_store_write'), ('store-d', 'iot_store_delete'),
         ('storecfg-r', 'iot_store_config_load'), ('storecfg-w', 'iot_store_config_save'), ('storecfg-d', 'iot_store_config_delete'))


def run_file(prog):
    rule = FileRule(prog)
    eng = Engine(prog, rule)
    for m, n in FILES:
        f = prog.funcs[n]
        rule.mode = m; rule.root = f
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n)
    return eng, rule, [n for m, n in FILES]


# ------------------------------------------------------------------ directory listing
class ListRule(Plain):
    name = 'dir'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.steps = {}

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.file == self.root.file

    def entry(self, eng, st, fr, inst):
        e = st.ts.get(('ent',))
        if e is None: return
        d = st.mem.get((e, self.o('dirent', 'd_type'))) if ('dirent', 'd_type') in self.off else None
        reg = None if d is None else eng.decide(st, eng.norm_cmp('eq', d, C(8)))
        rx = st.ts.get(('rx',))
        nore = eng.lookup(st, ('s', (self.root.name,), 'arg1', '')) == 0
        hit = True if nore else None if rx is None else eng.decide(st, eng.norm_cmp('eq', rx, ZERO))
        n = st.ts.get(('push',), 0)
        if n > 1: self.bad(eng, fr, inst, st, 'list', 'directory entry listed twice')
        if n and (reg is not True or hit is not True): self.bad(eng, fr, inst, st, 'list', 'directory entry listed that may not be a matching regular file')
        if not n and reg is not False and hit is not False: self.bad(eng, fr, inst, st, 'list', 'matching regular file may not be listed')
        for k in (('ent',), ('rx',), ('push',)): st.ts.pop(k, None)

    def on_call(self, eng, st, fr, inst, callee, args):
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        if callee in ('readdir', 'readdir64'):
            self.steps.setdefault('entries', set()).add((fr.fn.name, inst.line))
            self.entry(eng, st, fr, inst)
            d = st.ts.get(('opendir',))
            if d is None or args[0] != d or eng.decide(st, eng.norm_cmp('ne', d, ZERO)) is not True: B('list', 'directory read although it may not be open')
            s2 = st.copy(); s2.ts[('end',)] = 1
            r = mk('ent')
            for k in [k for k in st.mem if k[0] == r]: del st.mem[k]
            eng.set_ne(st, r, 0)
            st.ts[('ent',)] = r
            return [(r, st), (ZERO, s2)]
        if callee == 'regexec':
            self.steps.setdefault('matches', set()).add((fr.fn.name, inst.line))
            r = mk(); st.ts[('rx',)] = r
            e = st.ts.get(('ent',))
            if e is None or loc_of(args[1]) != (e, self.o('dirent', 'd_name')): B('list', 'something else than the name of the entry is compared')
            if eng.lookup(st, args[4]) != 0: B('list', 'name of the entry not compared as a whole line')
            if st.ts.get(('pat',)) != args[0]: B('list', 'name of the entry compared with another pattern than the one given')
            return [(r, st)]
        if callee in ('regcomp', 'opendir'):
            if callee == 'regcomp':
                st.ts[('pat',)] = args[0]
                if args[1] != ('s', (self.root.name,), 'arg1', ''): B('list', 'another pattern compiled than the one given')
            elif args[0] != ('s', (self.root.name,), 'arg0', ''): B('list', 'another directory opened than the one given')
            r = mk(); st.ts[(callee,)] = r
            return [(r, st)]
        if callee in ('iot_data_list_tail_push', 'iot_data_list_head_push'):
            self.steps.setdefault('pushes', set()).add((fr.fn.name, inst.line))
            e = st.ts.get(('ent',))
            if st.ts.get(('str', args[1])) is None or st.ts[('str', args[1])] != e: B('list', 'something else than the name of the entry is listed')
            if ('end',) in st.ts: B('list', 'name listed after the last entry')
            st.ts[('push',)] = st.ts.get(('push',), 0) + 1
            return [(('void',), st)]
        if callee == 'iot_data_alloc_string':
            r = mk()
            if loc_of(args[0])[0] == st.ts.get(('ent',)) and loc_of(args[0])[1] == self.o('dirent', 'd_name'):
                if args[1] != C(self.p.enums['iot_data_ownership_t']['IOT_DATA_COPY']): B('list', 'name of the entry listed without being copied')
                st.ts[('str', r)] = root(args[0])
            return [(r, st)]
        if callee.startswith(('iot_', 'regfree', 'closedir')): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        d, r = st.ts.get(('opendir',)), st.ts.get(('regcomp',))
        fail = d is not None and eng.lookup(st, d) == 0 or r is not None and eng.decide(st, eng.norm_cmp('ne', r, ZERO)) is True
        if fail and val != ZERO: self.bad(eng, fr, inst, st, 'list', 'list returned although the directory cannot be read')
        if not fail and (val == ZERO or ('end',) not in st.ts): self.bad(eng, fr, inst, st, 'list', 'directory not read to its end')


def run_dir(prog):
    rule = ListRule(prog)
    eng = run(prog, rule, [prog.funcs['iot_file_list']])
    return eng, rule, ['iot_file_list']


class NamesRule(Plain):
    """the configurations in a directory: each name with its extension taken off"""
    name = 'names'
    deep = 6
    GOOD = ('a.json', 'a.b.json', 'json.json', 'x-1_y.json'); BAD = ('a.json.bak', 'a.jsonx', 'a.xml', 'json', 'a.jso', 'a.json ', 'a.geojson', 'ajson')

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.steps = {}

    def inline(self, eng, fn, fr, st, inst, args): return fn.file == self.root.file and not fn.public

    def done(self, eng, st, fr, inst):
        if ('cur',) in st.ts and st.ts.get(('put',)) != 1: self.bad(eng, fr, inst, st, 'names', 'configuration listed more than once' if st.ts.get(('put',)) else 'configuration not listed by its name')
        for k in [k for k in st.ts if k[0] in ('cur', 'put', 'cut', 'name')]: del st.ts[k]

    def on_call(self, eng, st, fr, inst, callee, args):
        import re
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        B = lambda m: self.bad(eng, fr, inst, st, 'names', m)
        F = ('s', ('names',), 'files', '')
        if callee == 'iot_file_list':
            self.steps.setdefault('lists', set()).add((fr.fn.name, inst.line))
            if args[0] != ('s', (self.root.name,), 'arg0', ''): B('another directory listed than the one given')
            t = cstr(self.p, args[1])
            if t is None: B('all files listed, not only configurations')
            else:
                try: x = re.compile(t)
                except re.error: x = None
                if x is not None and (not all(x.search(n) for n in self.GOOD) or any(x.search(n) for n in self.BAD)): B('pattern "%s" does not tell configurations from other files' % t)
            s2 = st.copy(); s2.ts[('none',)] = 1
            eng.set_ne(st, F, 0)
            return [(F, st), (ZERO, s2)]
        if callee == 'iot_data_list_iter': st.ts[('on', root(args[1]))] = args[0] == F; return [(('void',), st)]
        if callee in ('iot_data_list_iter_next', 'iot_data_list_iter_prev') and st.ts.get(('on', root(args[0]))):
            self.done(eng, st, fr, inst)
            s2 = st.copy(); s2.ts[('end',)] = 1
            st.ts[('cur',)] = 1
            r = mk('more'); eng.set_ne(st, r, 0)
            return [(r, st), (ZERO, s2)]
        if callee in ('iot_data_list_iter_string_value', 'iot_data_string'):
            r = ('s', ('names',), 'name', ''); eng.desc.setdefault(r, 'file name')
            eng.set_ne(st, r, 0)
            return [(r, st)]
        if callee == 'iot_data_list_iter_value': return [(mk(), st)]
        if callee == 'strlen' and args[0] == ('s', ('names',), 'name', ''): return [(('s', ('names',), 'len', ''), st)]
        if callee == 'strndup':
            from clock import nf
            L = ('s', ('names',), 'len', '')
            d = nf(args[1], {})
            if args[0] != ('s', ('names',), 'name', '') or d.get(L) != 1 or (d.get(1, 0) + 5) % (1 << 64) or len(d) != 2: B('extension of a configuration not taken off as it is')
            r = mk('cut'); st.ts[('cut', r)] = 1; eng.set_ne(st, r, 0)
            return [(r, st)]
        if callee == 'iot_data_alloc_string':
            r = mk('str')
            if ('cut', args[0]) in st.ts: st.ts[('name', r)] = 1
            return [(r, st)]
        if callee in ('iot_data_list_iter_replace', 'iot_data_list_tail_push', 'iot_data_list_head_push'):
            self.steps.setdefault('names', set()).add((fr.fn.name, inst.line))
            if ('name', args[1]) not in st.ts: B('something else than the name of a configuration is listed')
            st.ts[('put',)] = min(st.ts.get(('put',), 0) + 1, 2)
            return [(('void',) if 'push' in callee else mk('old'), st)]
        if callee.startswith('iot_'): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        inst = fr.fn.blocks[-1][-1]
        if ('none',) in st.ts:
            if val != ZERO: self.bad(eng, fr, inst, st, 'names', 'list returned although the directory cannot be read')
        elif ('end',) not in st.ts or val == ZERO: self.bad(eng, fr, inst, st, 'names', 'configurations not listed to the last one')


def run_names(prog):
    rule = NamesRule(prog)
    eng = run(prog, rule, [prog.funcs['iot_store_config_list']])
    return eng, rule, ['iot_store_config_list']


# ------------------------------------------------------------------ typed look-ups
SUFFIX = {'bool': 'BOOL', 'i64': 'INT64', 'ui64': 'UINT64', 'i32': 'INT32', 'ui32': 'UINT32', 'f64': 'FLOAT64', 'f32': 'FLOAT32', 'i8': 'INT8', 'ui8': 'UINT8', 'i16': 'INT16', 'ui16': 'UINT16',
          'string': 'STRING', 'pointer': 'POINTER', 'vector': 'VECTOR', 'map': 'MAP', 'array': 'ARRAY', 'list': 'LIST', 'binary': 'BINARY'}
WHOLE = ('VECTOR', 'MAP', 'ARRAY', 'LIST', 'BINARY')
LOOK = {'iot_data_map_get', 'iot_data_string_map_get'}
WIDTH = {'i8': 'i8', 'ui8': 'i8', 'i16': 'i16', 'ui16': 'i16', 'i32': 'i32', 'ui32': 'i32', 'i64': 'i64', 'ui64': 'i64', 'f64': 'double', 'f32': 'float', 'bool': 'i8', 'string': 'ptr', 'pointer': 'ptr'}


class GetRule(Plain):
    name = 'get'

    def __init__(self, prog):
        Plain.__init__(self, prog)
        e = prog.enums['iot_data_type_t']
        self.T = {k.replace('IOT_DATA_', ''): v for k, v in e.items()}
        self.TY = self.o('iot_data_t', 'type')
        self.VO = {self.o('iot_data_value_t', 'value'), self.o('iot_data_pointer_t', 'value')}
        self.gets = {}
        self.ERROR = prog.enums['iot_loglevel_t']['IOT_LOG_ERROR']

    def inline(self, eng, fn, fr, st, inst, args):
        if fn.name == 'iot_data_cast' or self.finds(fn): return False
        if fn.name in LOOK and fn.name != self.root.name: return False
        return fn.file.endswith('data.c') if self.root.file.endswith('data.c') else not fn.public or fn.file == self.root.file or fn.name in self.access or fn.name.startswith(('iot_data_string_map_get_', 'iot_data_map_get_'))

    def arg(self, n): return ('s', (self.root.name,), 'arg%d' % n, '')

    def finds(self, fn):
        """looks an entry of a map up by its key"""
        t = [x.replace(' ', '').replace('const', '') for x in fn.sig]
        return not fn.public and t[0] == 'iot_node_t*' and t.count('iot_data_t*') == 1 and len(t) == 3

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        Plain.on_loaded(self, eng, st, fr, inst, ptr, val)
        b, o = loc_of(ptr)
        if tag_of(ptr) == LVL: st.ts[('lv', b)] = val
        if val[0] == 's' and o in self.VO and (b == st.ts.get(('D',)) or b in self.slotvals): st.ts[('val', val)] = (b, inst.ty)
        if val[0] == 's' and tag_of(ptr) in (('iot_element_t', 'value'), ('iot_node_t', 'value')): self.slotvals.add(val); st.ts[('D',)] = val

    def on_call(self, eng, st, fr, inst, callee, args):
        fn = self.p.funcs.get(callee)
        mk = lambda k='': eng.fresh_sym(st, fr, eng.cur_env, inst, k, 'result of ' + callee)
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        if callee in LOOK and callee != self.root.name or callee in ('iot_data_vector_iter_value',):
            r = mk('D')
            s2 = st.copy(); s2.note('%s: nothing stored under the key' % eng.where(fr, inst))
            eng.set_ne(st, r, 0); st.note('%s: value found' % eng.where(fr, inst))
            st.ts[('D',)] = r; s2.ts[('D',)] = ZERO
            if callee in LOOK and (strip_p(args[0]) != self.arg(0) or strip_p(args[1]) != self.arg(1) and ('key', root(args[1])) not in st.ts): B('get', 'another key or map is looked up')
            return [(r, st), (ZERO, s2)]
        if fn is not None and self.finds(fn):
            r = mk('node')
            if strip_p(args[1]) != self.arg(1) and ('key', root(args[1])) not in st.ts: B('get', 'another key is looked up')
            s2 = st.copy(); s2.note('%s: nothing stored under the key' % eng.where(fr, inst))
            eng.set_ne(st, r, 0); st.note('%s: entry found' % eng.where(fr, inst))
            st.ts[('D',)] = mk('unread'); s2.ts[('D',)] = ZERO
            return [(r, st), (ZERO, s2)]
        if callee == 'iot_data_alloc_const_string':
            if strip_p(args[1]) == self.arg(1): st.ts[('key', root(args[0]))] = 1
            return [(('void',) if inst.ty == 'void' else args[0], st)]
        if callee == 'iot_data_cast':
            r = mk()
            if strip_p(args[0]) != st.ts.get(('D',)): B('get', 'something else than the value found is converted')
            s2 = st.copy(); eng.set_eq(s2, r, 0); eng.set_ne(st, r, 0)
            s2.note('%s: value cannot be converted' % eng.where(fr, inst))
            st.ts[('cast',)] = s2.ts[('cast',)] = (args[1], args[2])
            st.ts[('castok',)] = True; s2.ts[('castok',)] = False
            return [(C(1), st), (ZERO, s2)]
        if callee == 'strdup':
            r = mk(); st.ts[('dup', r)] = args[0]
            eng.set_ne(st, r, 0)
            return [(r, st)]
        if callee == 'iot_logger_default':
            r = mk('dfl'); eng.set_ne(st, r, 0); st.ts[('dfl',)] = r
            return [(r, st)]
        if callee in ('iot_log__log', 'iot_log__va_log'):
            st.ts[('log',)] = args[0]
            return [(('void',), st)]
        if callee == 'iot_container_find_component':
            r = mk('C')
            s2 = st.copy(); s2.ts[('C',)] = ZERO
            s2.note('%s: no such component' % eng.where(fr, inst))
            st.ts[('C',)] = r; eng.set_ne(st, r, 0)
            if ('val', args[1]) not in st.ts: B('get', 'component looked up under another name')
            return [(r, st), (ZERO, s2)]
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        if callee.startswith('iot_'): return [(self.res(eng, st, fr, inst, 'result of ' + callee), st)]
        return None

    def agree(self, eng, st, a, b):
        return all(eng.decide(s2, eng.norm_cmp('ne', b, ZERO)) == t for t, s2 in truths(eng, st, a))

    def on_leave(self, eng, st, fr, val):
        if len(fr.stack) > 1: return
        self.exits += 1
        f = fr.fn
        inst = f.blocks[-1][-1]
        B = lambda c, m: self.bad(eng, fr, inst, st, c, m)
        D = st.ts.get(('D',))
        c = st.ts.get(('cast',))
        want = self.kind
        config = f.name.startswith('iot_config_')
        lvl = lambda l: ('lv', l) in st.ts and eng.decide(st, eng.norm_cmp('uge', st.ts[('lv', l)], C(self.ERROR))) is False
        failed = None
        if any(k[0] == 'val' and k[1] != want and st.ts[k][1] == 'ptr' and eng.lookup(st, k[1]) == 0 for k in st.ts) and want == 'component': return   # a string value is never null
        if D is None:
            if val != ZERO and not self.iter: B('get', 'the key is not looked up')
            elif self.iter and val != ZERO and eng.lookup(st, val) != 0: B('get', 'value returned that was not looked up')
            return
        if want == 'component':
            C_ = st.ts.get(('C',))
            if C_ is None:
                failed = True
                if D != ZERO and D is not None and eng.decide(st, eng.norm_cmp('eq', st.mem.get((D, self.TY), ('s', ('?',), '?', '')), C(self.T['STRING']))) is True: B('get', 'component named by the configuration is not looked up')
                if val != ZERO: B('get', 'component returned that was not looked up')
            else:
                failed = C_ == ZERO
                if val != C_: B('get', 'result of the component look-up not returned')
        elif want in ('number', 'int') or config and self.out:
            if D == ZERO:
                failed = True
                for t, s2 in truths(eng, st, val):
                    if t: B('get', 'success reported although nothing is stored under the key')
            elif c is None: B('get', 'value found but not converted')
            else:
                failed = None
                wt = self.arg(2) if want == 'number' else C(self.T['INT32']) if want == 'int' else C(self.T[SUFFIX[want]])
                if c[0] != wt: B('get', 'value converted to another type than the one asked for')
                vp = self.arg(self.out_ix)
                if strip_p(c[1]) != vp: B('get', 'conversion result not stored where the caller asked')
                d = eng.decide(st, val) if val[0] != 'c' else bool(val[1])
                cr = st.ts.get(('castok',))
                failed = cr is False
                if d is None or d != cr: B('get', 'outcome of the conversion not reported')
        else:
            T = C(self.T[SUFFIX[want]]) if want != 'typed' else self.arg(2)
            dflt = self.arg(self.dflt_ix) if self.dflt_ix is not None else ZERO
            same = None
            if D == ZERO: same = False
            else:
                t = st.mem.get((D, self.TY))
                if t is not None:
                    same = eng.decide(st, eng.norm_cmp('eq', t, T))
            if same is None:
                if config and val == ZERO: same = False
                else: B('get', 'stored value used without looking at its type'); return
            failed = not same
            v = val
            al = ('dup', v) in st.ts
            if al: v = st.ts[('dup', v)]
            if self.alloc_ix is not None and v != ZERO and eng.lookup(st, v) != 0:
                for t, s2 in truths(eng, st, self.arg(self.alloc_ix)):
                    if t != al: B('get', 'string %s' % ('not duplicated although asked for' if t else 'duplicated although not asked for'))
            if same:
                if want == 'typed' or SUFFIX[want] in WHOLE:
                    if v != D: B('get', 'value of the type asked for not returned')
                else:
                    x = st.ts.get(('val', v)) or st.ts.get(('val', v[2] if v[0] in ('cmp', 'op') and len(v) > 2 else v))
                    if x is None and want == 'bool': x = next((st.ts[k] for k in st.ts if k[0] == 'val' and self.agree(eng, st, v, k[1])), None)
                    if x is None or x[0] != D:
                        if not (self.dflt_ix is not None and want == 'string' and (v == dflt) and any(k[0] == 'val' and eng.lookup(st, k[1]) == 0 for k in st.ts)): B('get', 'value of the type asked for not returned')
                    elif x[1] != WIDTH[want]: B('get', 'value returned with another width or kind than its type')
            elif v != dflt and not (eng.lookup(st, dflt) == 0 and v == ZERO) and not (want == 'bool' and self.agree(eng, st, v, dflt)): B('get', 'something else than the default returned although the stored value has another type')
        if config and self.log_ix is not None:
            L = self.arg(self.log_ix)
            log = st.ts.get(('log',))
            dfl = st.ts.get(('dfl',))
            use = dfl if eng.lookup(st, L) == 0 else L
            if failed:
                if log is None:
                    if use is None or not lvl(use): B('log', 'unresolved configuration not logged')
                elif log != use: B('log', 'unresolved configuration logged to another logger')
            elif failed is False and log is not None: B('log', 'error logged although the configuration was resolved')


def run_get(prog):
    rule = GetRule(prog)
    rule.slotvals = set()
    rule.access = {n for n, f in prog.funcs.items() if f.file.endswith('data.c') and f.public and len(f.args) == 1 and f.args[0][3].replace(' ', '') == 'constiot_data_t*' and not prog.callees.get(n, set()) - {'__assert_fail'}}
    eng = Engine(prog, rule)
    roots = []
    for n, f in sorted(prog.funcs.items()):
        if not f.public: continue
        kind = None
        for p in ('iot_data_map_get_', 'iot_data_string_map_get_', 'iot_config_'):
            if n.startswith(p): kind = n[len(p):]
        it = n.startswith(('iot_data_list_iter_', 'iot_data_map_iter_', 'iot_data_vector_iter_')) and n.endswith('_value') and n.split('_iter_')[1][:-6] in SUFFIX
        if it: kind = n.split('_iter_')[1][:-6]
        if kind == 'string_default': kind = 'string'
        if kind not in SUFFIX and kind not in ('number', 'int', 'component', 'typed'): continue
        rule.kind = kind; rule.root = f; rule.iter = it
        names = [a[2] for a in f.args]; tys = [a[3].replace(' ', '') for a in f.args]
        last = len(f.args) - 1
        rule.log_ix = next((i for i, t in enumerate(tys) if t == 'iot_logger_t*'), None)
        rule.alloc_ix = next((i for i, t in enumerate(tys) if i >= 2 and t in ('bool', '_Bool') and n.startswith('iot_config_string')), None)
        rule.out_ix = next((i for i, t in enumerate(tys) if i >= 2 and t.endswith('*') and t not in ('iot_logger_t*', 'constchar*')), None)
        rule.out = rule.out_ix is not None and n.startswith('iot_config_') and kind != 'component'
        rule.dflt_ix = 2 if len(f.args) > 2 and kind != 'typed' and not rule.out and rule.out_ix is None and rule.log_ix is None and n.startswith(('iot_data_', 'iot_config_string_default')) and not it else None
        eng.memo = {}; eng.steps = 0; eng.cur_env = {}
        eng.run_root(n)
        rule.gets[n] = kind
        roots.append(n)
    return eng, rule, roots


if __name__ == '__main__':
    import sys, ir, time
    t = time.time(); p = ir.load('debug')
    eng, rule, rs = globals()['run_' + sys.argv[1]](p)
    for x in eng.reports:
        print('%s:%s %s [%s] %s   %s' % (x['file'].split('/')[-1], x['line'], x['function'], x['rule'], x['message'], '>'.join(x['callstack'][1:])))
        if len(sys.argv) > 2:
            for y in x['path']: print('      ', y)
    print({k: v for k, v in rule.__dict__.items() if k in ('sends', 'advances', 'kinds', 'steps', 'exits', 'gets')})
    print(rs, time.time() - t)
