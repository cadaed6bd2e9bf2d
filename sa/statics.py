"""Process-wide state (C09): every global or function-local static that can change is only touched atomically, under one
common process-wide lock, after a single once-only initialisation, or at start-up.

A flow analysis over the IR of every function that can run: which instructions read, write or hand out the storage of each
candidate variable (through address arithmetic, helper parameters and library calls that fill a buffer), and which tokens -
process-wide locks held, once-initialisations known to be complete - hold at each of them on every path and for every caller."""
from ir import reach
import collections

SYNC = ('pthread_mutex_t', 'pthread_rwlock_t', 'pthread_cond_t', 'pthread_once_t', 'pthread_spinlock_t', 'once_flag', 'mtx_t', 'cnd_t')
TAKE = {'pthread_mutex_lock', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'pthread_spin_lock', 'mtx_lock', 'iot_mutex_lock'}
DROP = {'pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock', 'mtx_unlock', 'iot_mutex_unlock'}
TRY = {'pthread_mutex_trylock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_tryrdlock', 'pthread_spin_trylock', 'mtx_trylock'}
ONCE = {'pthread_once', 'call_once'}
SETUP = {'iot_store_config', 'iot_container_config'}
# argument positions that a library call only reads / fills in; anything else handed to an unknown call counts as both
FILL = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strncpy': 0, 'stpcpy': 0, 'strcat': 0, 'strncat': 0, 'snprintf': 0, 'sprintf': 0, 'vsnprintf': 0, 'vsprintf': 0,
        'fgets': 0, 'fread': 0, 'regcomp': 0, 'getrandom': 0, 'clock_gettime': 1, 'gettimeofday': 0, 'nanosleep': 1, 'localtime_r': 1, 'gmtime_r': 1, 'strftime': 0, 'c32rtomb': 0,
        'inet_aton': 1, 'time': 0, 'read': 1, 'recv': 1, 'pthread_attr_init': 0, 'pthread_mutexattr_init': 0, 'pthread_create': 0, 'pthread_getschedparam': 2}
READERS = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'strchr', 'strrchr', 'strstr', 'strdup', 'strndup', 'fopen', 'printf', 'fprintf', 'fputs', 'puts', 'fwrite', 'sendto',
           'send', 'write', 'open', 'opendir', 'remove', 'rename', 'getenv', 'atoi', 'atol', 'strtol', 'strtod', 'regexec', '__isoc23_sscanf', 'sscanf', '__assert_fail', 'pthread_setschedparam',
           'pthread_mutex_init', 'pthread_cond_init', 'pthread_rwlock_init', 'pthread_attr_setdetachstate', 'toupper', 'tolower'}
HIDDEN = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'inet_ntoa', 'gethostbyname', 'gethostbyaddr', 'getservbyname',
          'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'tmpnam', 'mktemp', 'ttyname', 'getlogin', 'setlocale', 'localeconv', 'setenv', 'putenv', 'unsetenv', 'clearenv', 'basename', 'dirname', 'hsearch', 'hcreate',
          'getopt', 'getopt_long', 'crypt', 'ecvt', 'fcvt', 'l64a', 'chdir', 'umask', 'mblen', 'mbtowc', 'wctomb', 'mbrlen', 'ptsname', 'strsignal', 'signal', 'alarm', 'tzset', 'sleep_until', 'getc_unlocked', 'putc_unlocked', 'putchar_unlocked'}
STATEARG = {'c32rtomb': 2, 'mbrtoc32': 3, 'mbrtowc': 3, 'wcrtomb': 2, 'c16rtomb': 2, 'mbrtoc16': 3}   # NULL here means one hidden state for everybody


def base(n): return n.split('@')[0]


class Statics:
    def __init__(self, prog):
        self.p = prog
        self.reports = []
        self.alias = {}
        live = {f.name for f in prog.funcs.values() if f.public or f.name in prog.addr_taken or not f.internal and (f.unit, f.name) == ()}
        # global callbacks in constant tables are in addr_taken
        work = list(live)
        while work:
            n = work.pop()
            for c in prog.callees.get(n, ()):
                c = c[0] if isinstance(c, tuple) else c
                if c in prog.funcs and c not in live: live.add(c); work.append(c)
        self.live = live
        ctors = set()
        g = prog.globals.get('llvm.global_ctors')
        def scan(o):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == 'fn': ctors.add(o[1])
                else:
                    for x in o: scan(x)
        if g: scan(g.get('init', []))
        self.ctors = ctors
        self.cand = {n: g for n, g in prog.globals.items() if 'init' in g and not g.get('const') and not g.get('tls') and not n.startswith('llvm.')
                     and not any(s in (g.get('dty') or '') for s in SYNC) and 'pthread' not in (g.get('ty') or '')}
        self.once_of = collections.defaultdict(set)    # initialiser -> once objects
        self.param = {}
        self.calls_of = collections.defaultdict(list)
        for f in prog.funcs.values():
            if f.name not in live: continue
            for b in f.blocks:
                for i in b:
                    if i.op == 'call' and i.d['callee'][0] == 'fn':
                        c = i.d['callee'][1]
                        self.calls_of[c].append((f, i))
                        if c in ONCE and len(i.ops) > 1 and i.ops[1][0] == 'fn': self.once_of[i.ops[1][1]].add(self.roots(f, i.ops[0]))
        for s in [n for n in self.cand if any(n in {x[1] for x in r if x[0] == 'g'} for rs in self.once_of.values() for r in rs)]: self.once_obj = getattr(self, 'once_obj', set()) | {s}
        self.once_obj = getattr(self, 'once_obj', set())
        self.tokens()
        self.events = collections.defaultdict(list)
        self.collect()
        self.judge()
        self.hidden()

    # ---------------------------------------------------------- addresses
    def roots(self, f, o, seen=None):
        """variables / parameters whose storage the pointer may point into"""
        if not isinstance(o, list) or not o: return frozenset()
        if o[0] == 'g': return frozenset([('g', o[1])])
        if o[0] != 'v': return frozenset()
        k = (f.name, o[1])
        if k in self.alias: return self.alias[k]
        seen = seen or set()
        if k in seen: return frozenset()
        seen.add(k)
        for n, a in enumerate(f.args):
            if a[0] == o[1]:
                self.alias[k] = frozenset([('arg', n)])
                return self.alias[k]
        i = f.insts.get(o[1])
        r = frozenset()
        if i is not None:
            if i.op == 'getelementptr': r = self.roots(f, i.d['gep']['base'], seen)
            elif i.op == 'phi':
                for _, v in i.d['inc']: r |= self.roots(f, v, seen)
            elif i.op in ('select', 'bitcast', 'addrspacecast', 'freeze'):
                for v in i.ops: r |= self.roots(f, v, seen)
            elif i.op == 'call' and i.d['callee'][0] == 'fn':
                c = i.d['callee'][1]
                if c in ('llvm.threadlocal.address.p0',): r = frozenset()
                elif c in ('strcpy', 'strncpy', 'memcpy', 'memset', 'strcat', 'strchr', 'strrchr', 'strstr', 'fgets'): r = self.roots(f, i.ops[0], seen)
        if len(seen) == 1 or i is None or i.op != 'phi': self.alias[k] = r
        return r

    # ---------------------------------------------------------- tokens: locks held, once-initialisations complete
    def lockroots(self, f, o):
        r = self.roots(f, o)
        return next(iter(r)) if len(r) == 1 else None

    def tokens(self):
        p = self.p
        names = sorted(self.live)
        self.summ = {n: (frozenset(), frozenset()) for n in names}     # gen at return, dropped anywhere
        for _ in range(8):
            ch = False
            for n in names:
                s = self.summarise(p.funcs[n])
                if s != self.summ[n]: self.summ[n] = s; ch = True
            if not ch: break
        # what holds at entry: for every caller; nothing for a function that can be called from outside
        ALL = None
        self.entry = {}
        for n in names:
            f = p.funcs[n]
            if f.public or not f.internal: self.entry[n] = frozenset()
            elif n in p.addr_taken:
                self.entry[n] = frozenset([('once', n)]) if n in self.once_of and all(self.only_once(n, w) for w in p.addr_taken[n]) and not self.calls_of.get(n) else frozenset()
            else: self.entry[n] = ALL
        for _ in range(20):
            ch = False
            for n in names:
                f = p.funcs[n]
                if f.public or not f.internal or n in p.addr_taken: continue
                acc = None
                for g, i in self.calls_of.get(n, ()):
                    h = self.held(g).get(id(i))
                    if h is None: continue
                    m = self.rename(h, i)
                    acc = m if acc is None else acc & m
                if acc is not None and acc != self.entry[n]: self.entry[n] = acc; ch = True
            self._held = {}
            if not ch: break

    def only_once(self, n, w):
        """the place the address is taken at is a once call"""
        return any(True for f, i in [(f, i) for c in ONCE for f, i in self.calls_of.get(c, ())] if (f.name, i.line) == tuple(w))

    def rename(self, h, i):
        """tokens on arguments of the call become tokens on the callee's parameters too"""
        return frozenset(t for t in h if t[0] != 'arg')

    def gens(self, f, i):
        """(tokens gained, dropped) by a call instruction"""
        if i.op != 'call' or i.d['callee'][0] != 'fn': return (), ()
        c = i.d['callee'][1]
        if c in TAKE:
            r = self.lockroots(f, i.ops[0])
            return ((r,) if r else ()), ()
        if c in DROP:
            r = self.roots(f, i.ops[0])
            return (), tuple(r)
        if c in ONCE:
            return (('once', i.ops[1][1]),) if i.ops[1][0] == 'fn' else (), ()
        if c in self.summ:
            g, d = self.summ[c]
            def up(t):
                if t[0] != 'arg': return (t,)
                if t[1] >= len(i.ops): return ()
                return tuple(self.roots(f, i.ops[t[1]]))
            gg = [x for t in g for x in (up(t) if t[0] != 'arg' or len(up(t)) == 1 else ())]
            return tuple(gg), tuple(x for t in d for x in up(t))
        return (), ()

    def flow(self, f, start):
        n = len(f.blocks)
        ins = [None] * n
        ins[0] = frozenset(start)
        work = [0]
        at = {}
        out = {}
        # trylock: the token is gained on the edge where it succeeded
        while work:
            b = work.pop()
            s = ins[b]
            tried = {}
            for i in f.blocks[b]:
                at[id(i)] = s
                if i.op == 'call' and i.d['callee'][0] == 'fn' and i.d['callee'][1] in TRY:
                    r = self.lockroots(f, i.ops[0])
                    if r: tried[i.id] = r
                if i.op == 'icmp' and i.ops[0][0] == 'v' and i.ops[0][1] in tried and i.ops[1][0] in ('c',) and i.ops[1][1] == 0:
                    tried[('c', i.id)] = (tried[i.ops[0][1]], i.d['pred'])
                g, d = self.gens(f, i)
                if g or d: s = (s - set(d)) | set(g)
            out[b] = s
            for k, t in enumerate(f.succs[b]):
                e = s
                br = f.blocks[b][-1]
                cond = br.d.get('cond')
                if cond and cond[0] == 'v' and ('c', cond[1]) in tried and len(br.d.get('succ', ())) == 2:
                    lk, pr = tried[('c', cond[1])]
                    if (pr == 'eq') == (k == 0): e = e | {lk}
                m = e if ins[t] is None else ins[t] & e
                if m != ins[t]: ins[t] = m; work.append(t)
        return at, out

    def summarise(self, f):
        at, out = self.flow(f, ())
        gen = None
        drop = set()
        for b in range(len(f.blocks)):
            for i in f.blocks[b]:
                if id(i) in at: drop |= set(self.gens(f, i)[1])
            if b in out and f.blocks[b][-1].op == 'ret': gen = out[b] if gen is None else gen & out[b]
        gen = gen or frozenset()
        return frozenset(gen), frozenset(drop) - frozenset(gen)

    _held = {}

    def held(self, f):
        if f.name not in self._held:
            e = self.entry.get(f.name)
            self._held[f.name] = {} if e is None else self.flow(f, e)[0]
        return self._held[f.name]

    # ---------------------------------------------------------- events
    def summary(self, fname, n, stack=()):
        """what a function does with the storage its n-th parameter points to: subset of r, w, a, e"""
        k = (fname, n)
        if k in self.param: return self.param[k]
        if k in stack: return frozenset()
        f = self.p.funcs[fname]
        out = set()
        for kind, rts, i, how in self.uses(f, stack + (k,)):
            if ('arg', n) in rts: out.add(kind)
        self.param[k] = frozenset(out)
        return self.param[k]

    def uses(self, f, stack=()):
        for b in f.blocks:
            for i in b:
                if i.op == 'load':
                    r = self.roots(f, i.ops[0])
                    if r: yield ('a' if i.d.get('atomic') else 'r'), r, i, 'read'
                elif i.op == 'store':
                    r = self.roots(f, i.ops[1])
                    if r: yield ('as' if i.d.get('atomic') else 'w'), r, i, 'written'
                    r = self.roots(f, i.ops[0])
                    if r: yield 'e', r, i, 'its address stored'
                elif i.op in ('atomicrmw', 'cmpxchg'):
                    r = self.roots(f, i.ops[0])
                    if r: yield ('am' if i.op == 'atomicrmw' else 'ac'), r, i, 'changed atomically'
                elif i.op == 'ret' and i.ops:
                    r = self.roots(f, i.ops[0])
                    if r: yield 'e', r, i, 'returned'
                elif i.op == 'call':
                    cal = i.d['callee']
                    for n, o in enumerate(i.ops):
                        r = self.roots(f, o)
                        if not r: continue
                        if cal[0] == 'v': yield 'e', r, i, 'handed to a callback'; continue
                        c = cal[1]
                        if c.startswith('llvm.'): c = c.split('.')[1]
                        if c in TAKE or c in DROP or c in TRY or c in ONCE and n == 0 or c.startswith('dbg') or c.startswith('lifetime') or c.startswith('pthread_cond_') or c in ('pthread_mutex_destroy', 'pthread_rwlock_destroy'): continue
                        if c in self.p.funcs:
                            if all(x[0] == 'g' and 'iot_data' in (self.p.globals.get(x[1], {}).get('dty') or '') for x in r):
                                yield 'v', r, i, 'used as a data value by ' + c      # a shared constant value: reference counts are atomic
                                continue
                            for k in self.summary(c, n, stack): yield k, r, i, {'r': 'read', 'w': 'written', 'e': 'handed out'}.get(k, 'used') + ' by ' + c
                        elif c in FILL: yield ('w' if FILL[c] == n else 'r'), r, i, ('filled' if FILL[c] == n else 'read') + ' by ' + c
                        elif c in READERS: yield 'r', r, i, 'read by ' + c
                        else: yield 'w', r, i, 'handed to ' + c

    def collect(self):
        self.nuse = 0
        for n in sorted(self.live):
            f = self.p.funcs[n]
            for kind, rts, i, how in self.uses(f):
                for r in rts:
                    if r[0] == 'g' and r[1] in self.cand:
                        self.nuse += 1
                        self.events[r[1]].append((kind, f, i, how))

    def startup(self):
        """functions that run only at start-up (constructors) or in the documented set-up calls"""
        s = set(self.ctors) | {n for n in SETUP if n in self.p.funcs}
        for f, i in self.calls_of.get('atexit', ()):          # runs once, when the process ends
            if i.ops[0][0] == 'fn' and len(self.p.addr_taken.get(i.ops[0][1], ())) == 1 and not self.calls_of.get(i.ops[0][1]): s.add(i.ops[0][1])
        ch = True
        while ch:
            ch = False
            for n in self.live:
                f = self.p.funcs[n]
                if n in s or f.public or not f.internal or n in self.p.addr_taken or not self.calls_of.get(n): continue
                if all(g.name in s for g, _ in self.calls_of[n]): s.add(n); ch = True
        return s

    def rep(self, rule, g, f, i, msg):
        self.reports.append({'rule': rule, 'function': f.name.split('@')[0], 'file': i.file or f.file, 'line': i.line, 'message': msg, 'callstack': [f.name], 'path': []})

    # ---------------------------------------------------------- verdicts
    def judge(self):
        st = self.startup()
        self.kinds = {}
        for g, ev in sorted(self.events.items()):
            G = self.cand[g]
            name = base(g)
            run = [e for e in ev if e[1].name not in st]
            wr = [e for e in ev if e[0] == 'w' and e[1].name not in st]
            at = [e for e in run if e[0] in ('a', 'as', 'am', 'ac')]
            if not wr and not at:
                self.kinds[g] = 'unchanged after start-up'
                continue
            plain = [e for e in run if e[0] in ('r', 'w', 'e')]
            tok = None
            for k, f, i, how in run:
                h = self.held(f).get(id(i))
                if h is None: continue
                h = frozenset(t for t in h if t[0] != 'arg')
                tok = h if tok is None else tok & h
            if tok:
                locks = sorted(t for t in tok if t[0] == 'g')
                self.kinds[g] = 'guarded by %s' % ', '.join(base(t[1]) if t[0] == 'g' else 'once-initialisation by ' + t[1] for t in sorted(tok))
                if not locks:
                    # initialised once: every write is made by the initialiser itself (or what only it calls)
                    for e in wr:
                        if self.entry.get(e[1].name) is None or not any(t in self.entry[e[1].name] for t in tok) or not self.inside(e[1], tok):
                            self.rep('once', g, e[1], e[2], '%s, shared by every thread, is %s after its once-only initialisation' % (name, e[3]))
                else:
                    for e in run:
                        if e[0] == 'e': self.rep('escape', g, e[1], e[2], 'the storage of %s, guarded by a lock, is %s' % (name, e[3]))
                continue
            if at:
                self.kinds[g] = 'atomic'
                for k, f, i, how in plain:
                    self.rep('plain', g, f, i, '%s, shared by every thread and elsewhere used atomically, is %s without' % (name, how))
                self.atomics(g, at)
                continue
            # no lock in common and not atomic: name the places with the weakest protection
            self.kinds[g] = 'unprotected'
            best = collections.Counter(t for k, f, i, how in run for t in (self.held(f).get(id(i)) or ()) if t[0] != 'arg')
            top = best.most_common(1)
            bad = [e for e in run if not top or top[0][0] not in (self.held(e[1]).get(id(e[2])) or ())]
            if not any(e[0] == 'w' for e in bad) and not top: bad = wr
            for k, f, i, how in bad:
                self.rep('unguarded', g, f, i, '%s, shared by every thread, is %s without the %s' % (name, how, ('lock ' + base(top[0][0][1]) if top[0][0][0] == 'g' else 'once-only initialisation being complete') if top else 'protection of a lock'))

    def inside(self, f, tok):
        """runs only as part of the once-initialiser"""
        names = {t[1] for t in tok if t[0] == 'once'}
        seen = set()
        work = [f.name]
        while work:
            n = work.pop()
            if n in names or n in seen: continue
            seen.add(n)
            if self.p.funcs[n].public or not self.p.funcs[n].internal or n in self.p.addr_taken or not self.calls_of.get(n): return False
            work += [g.name for g, _ in self.calls_of[n]]
        return True

    def atomics(self, g, at):
        """a value is not read and put back in two steps, nor read back separately after having been counted up"""
        name = base(g)
        by = collections.defaultdict(list)
        for e in at: by[e[1].name].append(e)
        for fn, es in by.items():
            f = self.p.funcs[fn]
            loads = [e for e in es if e[0] == 'a']
            for e in es:
                if e[0] == 'as' and any(self.before(f, l[2], e[2]) for l in loads):
                    self.rep('two-step', g, f, e[2], '%s, shared by every thread, is read and written back in two separate steps' % name)
                if e[0] == 'a' and any(m[0] == 'am' and not self.used(f, m[2].id) and (self.before(f, m[2], e[2]) or self.before(f, e[2], m[2])) for m in es):
                    self.rep('two-reads', g, f, e[2], '%s, shared by every thread, is read apart from being counted: another thread may count in between' % name)

    def used(self, f, v):
        """the value reaches something other than arithmetic nobody looks at"""
        seen = set(); work = [v]
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            for b in f.blocks:
                for i in b:
                    if x in f.uses(i) or i.op == 'phi' and any(w == ['v', x] for _, w in i.d['inc']):
                        if i.op in ('add', 'sub', 'trunc', 'zext', 'sext', 'phi', 'and', 'or', 'xor', 'freeze'): work.append(i.id)
                        else: return True
        return False

    def before(self, f, a, b):
        if a.blk == b.blk and a.idx < b.idx: return True
        seen = set(); work = list(f.succs[a.blk])
        while work:
            x = work.pop()
            if x == b.blk: return True
            if x in seen: continue
            seen.add(x); work += f.succs[x]
        return False

    def hidden(self):
        self.ncalls = 0
        for c, sites in sorted(self.calls_of.items()):
            if c in self.p.funcs: continue
            for f, i in sites:
                self.ncalls += 1
                if c in HIDDEN: self.rep('hidden', c, f, i, '%s works on one state or setting shared by the whole process' % c)
                if c in STATEARG and len(i.ops) > STATEARG[c] and i.ops[STATEARG[c]][0] in ('null', 'zero'):
                    self.rep('hidden', c, f, i, '%s is given no state of its own and uses one shared by every thread' % c)


if __name__ == '__main__':
    from ir import load
    import sys
    for v in (sys.argv[1:] or ['debug', 'release']):
        s = Statics(load(v))
        for k, x in sorted(s.kinds.items()): print(v, k, ':', x)
        print(len(s.cand), 'candidates', s.nuse, 'uses', s.ncalls, 'library calls', s.once_of.keys())
        for r in s.reports: print(r['rule'], r['file'].split('/')[-1], r['line'], r['function'], r['message'])
