"""Concurrency rules: lock balance, guarded data, condition variables, callbacks under lock, lock order.
One property-simulation pass over every entry point of the library (public functions, thread entry points, callbacks
stored in tables), internal helpers analysed in the context of each caller."""
import re
from engine import *
from ir import reach, AnalysisBroken

LOCK = {'pthread_mutex_lock': 'M', 'pthread_rwlock_rdlock': 'R', 'pthread_rwlock_wrlock': 'W', 'pthread_spin_lock': 'M'}
TRYLOCK = {'pthread_mutex_trylock': 'M', 'pthread_rwlock_tryrdlock': 'R', 'pthread_rwlock_trywrlock': 'W', 'pthread_mutex_timedlock': 'M'}
UNLOCK = {'pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock'}
WAIT = {'pthread_cond_wait', 'pthread_cond_timedwait'}
SIGNAL = {'pthread_cond_signal', 'pthread_cond_broadcast'}
BLOCKING = {'clock_nanosleep', 'thrd_sleep', 'pthread_join', 'nanosleep', 'usleep', 'sleep', 'pthread_barrier_wait', 'sem_wait', 'select', 'poll'}
# API whose documented effect on the caller's lock state is not neutral
CONTRACT = {'iot_component_lock': +1, 'iot_component_wait_and_lock': +1, 'iot_component_unlock': -1}

# data guarded by a lock that lives in the same object: struct -> (fields, (lock struct, lock field))
GUARDED = {
    'iot_threadpool_t': ({'front', 'rear', 'cache', 'jobs', 'working', 'next_id'}, ('iot_component_t', 'mutex')),
    'iot_queue_t': ({'maxsize', 'running'}, ('iot_queue_t', 'mtx')),
    'iot_component_t': ({'state:w'}, ('iot_component_t', 'mutex')),
    'iot_logger_impl_t': ({'buff'}, ('iot_component_t', 'mutex')),
}
# objects reached through a field: the content is guarded (any iot_data_* call on it needs the lock)
GUARDED_CONTENT = {
    ('iot_queue_t', 'queue'): ('iot_queue_t', 'mtx'),
    ('iot_scheduler_t', 'queue'): ('iot_component_t', 'mutex'),
    ('iot_scheduler_t', 'idle'): ('iot_component_t', 'mutex'),
    ('iot_container_t', 'components'): ('iot_container_t', 'lock'),
}
CHANGES = re.compile(r'iot_data_\w*(push|pop|add|remove|empty|replace|update|free|sort|resize)')
# objects of these structs are guarded by a lock of the owning object: lock class that must be held
GUARDED_BY_OWNER = {
    'iot_job_t': ({'prev', 'function', 'arg', 'priority', 'id'}, ('iot_component_t', 'mutex')),
    'iot_thread_t': ({'pending_delete', 'deleted'}, ('iot_component_t', 'mutex')),
    'iot_schedule_t': ({'start', 'start_key', 'scheduled', 'repeat', 'run_cb', 'abort_cb'}, ('iot_component_t', 'mutex')),
}
GLOBAL_GUARD = {'iot_component_factories': 'iot_container_mutex', 'uuid_seed': 'uuid_mutex', 'uuid_initialized': 'uuid_mutex'}


def base_name(g):
    return g.split('@')[0]


class ConcRule(Rule):
    name = 'conc'
    max_steps = 300000

    def __init__(self, prog):
        self.p = prog
        leaf = set(LOCK) | set(TRYLOCK) | UNLOCK | WAIT | SIGNAL | BLOCKING
        self.rel = reach(prog, lambda n: n in leaf)
        self.origin = {}        # symbol -> (tag, base)
        self.lock_sites = set(); self.unlock_sites = set(); self.wait_sites = set(); self.signal_sites = set()
        self.guard_acc = {}
        self.cb_sites = {}
        self.order = {}
        self.block_sites = set()
        self.exits = 0
        self.log_sites = 0
        self.xcalls = {}
        self.acq = {}
        self.cbs = {}
        self.blk = {}
        self.found = []
        # functions that destroy the lock itself: nobody else may use the object any more
        self.destroyers = {}
        for f in prog.funcs.values():
            for b in f.blocks:
                for i in b:
                    if i.op == 'call' and i.d['callee'][0] == 'fn' and i.d['callee'][1] in ('pthread_mutex_destroy', 'pthread_rwlock_destroy'):
                        for o in i.ops:
                            g = self.gep_of(f, o)
                            if g: self.destroyers.setdefault(g, set()).add(f.name)
        # functions that touch guarded data
        self.touch = set()
        for f in prog.funcs.values():
            if f.unit in ('scheduler.c', 'queue.c', 'threadpool.c', 'component.c'):
                self.touch.add(f.name)
            for b in f.blocks:
                for i in b:
                    g = i.d.get('gep')
                    if g and 'st' in g:
                        st = g['st'].replace('struct.', '')
                        if st in GUARDED or st in GUARDED_BY_OWNER or st in ('iot_scheduler_t', 'iot_queue_t', 'iot_container_t'):
                            self.touch.add(f.name)
                    if i.op in ('load', 'store'):
                        for o in i.ops:
                            if o[0] == 'g' and base_name(o[1]) in GLOBAL_GUARD:
                                self.touch.add(f.name)
        ind = {f.name for f in prog.funcs.values() if any(i.op == 'call' and i.d['callee'][0] == 'v' for b in f.blocks for i in b)}
        seeds = self.touch | ind
        self.rel |= reach(prog, lambda n: n in seeds)
        self.skip = {n for n in prog.funcs if n.startswith('iot_log__') or n.startswith('iot_data_') or n.startswith('iot_config_') or n.startswith('yxml')}
        self.skip -= {n for n in self.skip if prog.funcs[n].unit in ('data.c',) and prog.variant == 'release' and n in reach(prog, lambda x: x in leaf) and False}

    def gep_of(self, f, o):
        if o[0] != 'v': return None
        for b in f.blocks:
            for i in b:
                if i.id == o[1] and i.op == 'getelementptr' and 'st' in i.d['gep']:
                    g = i.d['gep']
                    return '%s.%s' % (g['st'].replace('struct.', ''), self.p.field(g['st'], g['fo']))
        return None

    def inline(self, eng, fn, fr, st, inst, args):
        if fn.name not in self.rel or fn.name in self.skip or len(fr.stack) >= 12:
            return False
        if fn.public and fn.unit != fr.fn.unit and fn.unit not in ('component.c', 'thread.c', 'time.c'):
            return False       # analysed as an entry point of its own; combined through its summary
        return True

    # -------------------------------------------------- helpers
    def lockid(self, ptr):
        return loc_of(ptr)

    def lockcls(self, eng, ptr):
        t = tag_of(ptr)
        if t:
            return '%s.%s' % t
        if ptr[0] == 'g':
            return base_name(ptr[1])
        o = self.origin.get(ptr)
        return eng.describe(ptr)

    def owner(self, fr, cls):
        if cls != 'iot_component_t.mutex':
            return cls
        f = fr
        while f.site and f.fn.unit == 'component.c':
            f = f.site[0]
        return '%s:%s' % (f.fn.unit.replace('.c', ''), cls)

    def held(self, st):
        return st.ts.get('locks', frozenset())

    def rep(self, cat, eng, fr, inst, st, msg, key=None):
        eng.report(cat, fr, inst, st, msg, key=(cat, key) if key else None)

    def holds(self, st, cls, base=None, off=None, write=False):
        for lid, mode, c in self.held(st):
            if c == (cls if isinstance(cls, str) else '%s.%s' % cls):
                if base is None or lid[0] == base:
                    if write and mode == 'R':
                        continue
                    return True
        return False

    def exclusive(self, eng, st, b):
        if b in st.fresh or b[0] == 'a':
            return True
        d = st.ts.get(('dec', b))
        if d is None:
            return False
        return eng.decide(st, ('cmp', 'ule', d, C(1))) is True or eng.decide(st, ('cmp', 'sle', d, C(1))) is True

    def has_ref_object(self):
        pass

    # -------------------------------------------------- calls
    def on_call(self, eng, st, fr, inst, callee, args):
        if callee not in self.p.funcs and not callee.startswith(('pthread_', 'llvm.')):
            # an outside function reads or writes what it is given the address of
            for a in args:
                if tag_of(a): self.access(eng, st, fr, inst, a, True)
        if callee in LOCK or callee in TRYLOCK:
            mode = LOCK.get(callee) or TRYLOCK[callee]
            lid = self.lockid(args[0]); cls = self.lockcls(eng, args[0])
            self.lock_sites.add((fr.fn.name, inst.line, cls))
            self.acq.setdefault(fr.stack[0], set()).add(self.owner(fr, cls))
            outs = []
            if callee in TRYLOCK:
                s2 = st.copy()
                r = eng.fresh_sym(s2, fr, eng.cur_env, inst, 'try')
                eng.set_ne(s2, r, 0)
                outs.append((r, s2))
            H = self.held(st)
            for l, m, c in H:
                if l == lid and (mode != 'R' or m != 'R') and callee in LOCK:
                    self.rep('relock', eng, fr, inst, st, '%s acquired while this path already holds it' % cls)
                elif l != lid:
                    self.order.setdefault((self.owner(fr, c), self.owner(fr, cls)), set()).add((fr.fn.name, '%s:%d' % (inst.file.split('/')[-1], inst.line), '>'.join(fr.stack)))
            eng.havoc_shared(st)
            st.ts['locks'] = H | {(lid, mode, cls)}
            st.ts['epoch'] = ('e', inst.id)
            self.on_acquire(eng, st, fr, inst, lid, cls)
            st.note('%s: acquire %s' % (eng.where(fr, inst), cls))
            outs.append((ZERO, st))
            return outs
        if callee in UNLOCK:
            lid = self.lockid(args[0]); cls = self.lockcls(eng, args[0])
            self.unlock_sites.add((fr.fn.name, inst.line, cls))
            H = self.held(st)
            mine = [x for x in H if x[0] == lid]
            if not mine:
                self.rep('unheld', eng, fr, inst, st, '%s released on a path that does not hold it' % cls)
            self.on_release(eng, st, fr, inst, lid, cls)
            st.ts['locks'] = frozenset(x for x in H if x[0] != lid)
            st.note('%s: release %s' % (eng.where(fr, inst), cls))
            return [(ZERO, st)]
        if callee in WAIT:
            lid = self.lockid(args[1]); cls = self.lockcls(eng, args[1])
            ccls = self.lockcls(eng, args[0])
            self.wait_sites.add((fr.fn.name, inst.line, ccls))
            H = self.held(st)
            if not any(x[0] == lid for x in H):
                self.rep('wait-unheld', eng, fr, inst, st, 'wait on %s without holding %s' % (ccls, cls))
            for x in H:
                if x[0] != lid:
                    self.rep('block', eng, fr, inst, st, 'waits on %s while also holding %s' % (ccls, x[2]))
            self.on_wait(eng, st, fr, inst, args, ccls, lid, cls)
            eng.havoc_shared(st)
            st.note('%s: wait on %s' % (eng.where(fr, inst), ccls))
            if callee == 'pthread_cond_timedwait':
                s2 = st.copy()
                r = eng.fresh_sym(s2, fr, eng.cur_env, inst, 'tw')
                return [(r, s2)]
            return [(ZERO, st)]
        if callee in SIGNAL:
            ccls = self.lockcls(eng, args[0])
            self.signal_sites.add((fr.fn.name, inst.line, ccls, callee))
            self.on_signal(eng, st, fr, inst, callee, args[0], ccls)
            return [(ZERO, st)]
        if callee in BLOCKING:
            self.block_sites.add((fr.fn.name, inst.line, callee))
            self.blk.setdefault(fr.stack[0], set()).add(callee)
            for x in self.held(st):
                self.rep('block', eng, fr, inst, st, '%s called while holding %s' % (callee, x[2]))
            return None
        if callee.startswith('iot_log__'):
            self.log_sites += 1
            for x in self.held(st):
                self.order.setdefault((self.owner(fr, x[2]), 'logger:iot_component_t.mutex'), set()).add((fr.fn.name, '%s:%d' % (inst.file.split('/')[-1], inst.line), callee))
        if callee.startswith('iot_data_') or callee.startswith('iot_schedule_is_next'):
            for a in args:
                o = self.origin.get(a)
                if o and o[0] in GUARDED_CONTENT:
                    self.content(eng, st, fr, inst, callee, a, o)
                    if '_iter' in callee and len(args) > 1: st.ts[('iter', root(args[1]))] = a
                elif ('iter', root(a)) in st.ts:
                    a = st.ts[('iter', root(a))]
                    self.content(eng, st, fr, inst, callee, a, self.origin[a])
        return None

    def content(self, eng, st, fr, inst, callee, a, o):
        cls = GUARDED_CONTENT[o[0]]
        k = ('%s.%s*' % o[0])
        self.guard_acc.setdefault(k, set()).add((fr.fn.name, inst.line))
        b = o[1]
        change = bool(CHANGES.match(callee))
        if self.exclusive(eng, st, b) or self.holds(st, cls, b, write=change) or fr.stack[0] in self.destroyers.get('%s.%s' % cls, ()):
            return
        if cls[1] == 'lock':
            # told by entry point, whatever helper the list is used in
            if fr.stack[0] == 'iot_container_init': return         # before any other thread is given the container
            n = len(eng.reports)
            self.rep('guard', eng, fr, inst, st, '%s of a container %s without holding its lock%s' % (o[0][1], 'changed' if change else 'read', ' for writing' if change else ''), key=(fr.stack[0], o[0], change))
            if len(eng.reports) > n: eng.reports[-1]['function'] = fr.stack[0]
            return
        self.rep('guard', eng, fr, inst, st, '%s used (%s) without holding %s.%s' % (k[:-1], callee, cls[0], cls[1]))

    def on_opaque(self, eng, st, fr, inst, callee, args):
        if callee in self.p.funcs and callee in self.rel and callee not in self.skip:
            self.xcalls.setdefault(callee, set()).add((fr.stack[0], frozenset(self.owner(fr, x[2]) for x in self.held(st)), inst.file.split('/')[-1], inst.line, fr.fn.name))

    def on_indirect(self, eng, st, fr, inst, fv, args):
        o = self.origin.get(fv)
        nm = '%s.%s' % o[0] if o else eng.describe(fv)
        self.cb_sites.setdefault((fr.fn.name, inst.line), set()).add(nm)
        self.cbs.setdefault(fr.stack[0], set()).add(nm)
        self.on_callback(eng, st, fr, inst, nm, fv, args)
        return None

    def on_callback(self, eng, st, fr, inst, nm, fv, args):
        for x in self.held(st):
            eng.report('callback', fr, inst, st, 'callback %s invoked while holding %s' % (nm, self.owner(fr, x[2])), key=('callback', fr.fn.name, nm, x[2]), extra=('cb', nm, self.owner(fr, x[2])))

    # -------------------------------------------------- memory
    def access(self, eng, st, fr, inst, ptr, write):
        t = tag_of(ptr)
        r = root(ptr)
        if r[0] == 'g':
            nm = base_name(r[1])
            if nm in GLOBAL_GUARD:
                self.guard_acc.setdefault(nm, set()).add((fr.fn.name, inst.line))
                if not self.holds(st, GLOBAL_GUARD[nm]):
                    self.rep('guard', eng, fr, inst, st, 'global %s %s without holding %s' % (nm, 'written' if write else 'read', GLOBAL_GUARD[nm]))
            return
        if not t:
            return
        g = GUARDED.get(t[0])
        if g and (t[1] in g[0] or (write and t[1] + ':w' in g[0])):
            self.guard_acc.setdefault('%s.%s' % t, set()).add((fr.fn.name, inst.line))
            if not (self.exclusive(eng, st, r) or self.holds(st, g[1], r)):
                self.rep('guard', eng, fr, inst, st, '%s.%s %s without holding %s.%s' % (t[0], t[1], 'written' if write else 'read', g[1][0], g[1][1]))
            return
        g = GUARDED_BY_OWNER.get(t[0])
        if g and t[1] in g[0]:
            self.guard_acc.setdefault('%s.%s' % t, set()).add((fr.fn.name, inst.line))
            if not (self.owner_excl(eng, st, r) or self.holds(st, g[1])):
                self.rep('guard', eng, fr, inst, st, '%s.%s %s without holding the owner\'s %s.%s' % (t[0], t[1], 'written' if write else 'read', g[1][0], g[1][1]))

    def owner_excl(self, eng, st, r):
        if self.exclusive(eng, st, r):
            return True
        # reached from an object being destroyed
        seen = 0
        while seen < 6:
            o = self.origin.get(r)
            if o is None:
                return False
            r = o[1]
            if self.exclusive(eng, st, r):
                return True
            seen += 1
        return False

    def stable(self, eng, st, ptr):
        return False

    def on_load(self, eng, st, fr, inst, ptr):
        if inst.op == 'load' and inst.d.get('atomic') and not self.stable(eng, st, ptr):
            st.mem.pop(loc_of(ptr), None)      # another thread may have changed it
        if inst.d.get('volatile'):
            r = root(ptr)
            if not any(x[0][0] == r for x in self.held(st)):      # stable while the object's own lock is held
                st.mem.pop(loc_of(ptr), None)
        self.access(eng, st, fr, inst, ptr, False)

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        t = tag_of(ptr)
        if t and val[0] == 's' and val not in self.origin:
            self.origin[val] = (t, root(ptr))

    def on_store(self, eng, st, fr, inst, ptr, val):
        self.access(eng, st, fr, inst, ptr, True)

    def on_rmw(self, eng, st, fr, inst, ptr, opname, operand, old):
        if opname == 'sub' and tag_of(ptr) and tag_of(ptr)[1] == 'refs':
            st.ts[('dec', root(ptr))] = old

    # -------------------------------------------------- hooks for the condition variable rules
    def on_acquire(self, eng, st, fr, inst, lid, cls): pass
    def on_release(self, eng, st, fr, inst, lid, cls): pass
    def on_wait(self, eng, st, fr, inst, args, ccls, lid, cls): pass
    def on_signal(self, eng, st, fr, inst, kind, ptr, ccls): pass

    # -------------------------------------------------- cross-unit combination of the summaries
    def combine(self, eng):
        calls = {}
        for callee, es in self.xcalls.items():
            for root_, H, file, line, fn in es:
                calls.setdefault(root_, set()).add(callee)
        def closure(base):
            out = {k: set(v) for k, v in base.items()}
            ch = True
            while ch:
                ch = False
                for r, cs in calls.items():
                    for c in cs:
                        new = out.get(c, set()) - out.get(r, set())
                        if new:
                            out.setdefault(r, set()).update(new); ch = True
            return out
        acq = closure(self.acq); cbs = closure(self.cbs); blk = closure(self.blk)
        self.summ = (acq, cbs, blk)
        for callee, es in sorted(self.xcalls.items()):
            for root_, H, file, line, fn in sorted(es, key=str):
                for h in H:
                    for a in acq.get(callee, ()):
                        self.order.setdefault((h, a), set()).add((fn, '%s:%d' % (file, line), callee))
                    for nm in cbs.get(callee, ()):
                        self.freport(eng, 'callback', fn, file, line, 'callback %s can be invoked (through %s) while holding %s' % (nm, callee, h), extra=('cb', nm, h))
                    for b in blk.get(callee, ()):
                        self.freport(eng, 'block', fn, file, line, '%s can be reached (through %s) while holding %s' % (b, callee, h))
        # acquisition order must be acyclic
        g = {}
        for (a, b), sites in self.order.items():
            if a != b:
                g.setdefault(a, set()).add(b)
        def path(a, b, seen):
            if a == b: return [a]
            for n in sorted(g.get(a, ())):
                if n not in seen:
                    seen.add(n)
                    r = path(n, b, seen)
                    if r: return [a] + r
            return None
        for a in sorted(g):
            for b in sorted(g[a]):
                r = path(b, a, {b})
                if r:
                    s = sorted(self.order[(a, b)])[0]
                    f, l = s[1].split(':')
                    self.freport(eng, 'order', s[0], f, int(l), '%s is acquired while holding %s, and elsewhere the order is reversed (%s)' % (b, a, ' -> '.join(r)))

    def freport(self, eng, cat, fn, file, line, msg, extra=None):
        k = (cat, fn, line, msg)
        if k in eng._seen: return
        eng._seen.add(k)
        eng.reports.append({'rule': cat, 'function': fn, 'file': file, 'line': line, 'message': msg, 'callstack': [], 'path': [], 'extra': extra})

    def on_ret(self, eng, st, fr, inst, val):
        self.exits += 1
        want = CONTRACT.get(fr.fn.name, 0)
        n = len(self.held(st)) - (1 if want < 0 else 0)
        H = self.held(st)
        if want == 0 and H:
            for x in H:
                self.rep('leak', eng, fr, inst, st, 'returns with %s still held' % x[2])
        elif want > 0 and len(H) != 1:
            self.rep('leak', eng, fr, inst, st, 'documented to return with the lock held, but a path returns with %d locks held' % len(H))
        elif want < 0 and H:
            self.rep('leak', eng, fr, inst, st, 'documented to release the lock, but a path returns with it held')


def roots(prog, rel, skip=()):
    out = []
    for f in prog.funcs.values():
        if f.name in rel and f.name not in skip:
            if f.public or f.name in prog.addr_taken or (not f.internal and not prog.callers.get(f.name)) or (f.internal and not prog.callers.get(f.name)):
                out.append(f.name)
    return sorted(out)


def run_conc(prog, cls=ConcRule, verbose=False):
    rule = cls(prog)
    eng = Engine(prog, rule)
    rs = roots(prog, rule.rel, rule.skip)
    for r in rs:
        st = State()
        f = prog.funcs[r]
        if CONTRACT.get(r, 0) < 0:
            ctx = (r,)
            a = ('s', ctx, 'arg0', '')
            off = None
            for s in prog.structs['struct.iot_component_t']['fields']:
                if s[0] == 'mutex': off = s[1]
            st.ts['locks'] = frozenset([((a, off), 'M', 'iot_component_t.mutex')])
        n0 = eng.steps
        eng.steps = 0
        eng.memo = {}
        eng.run_root(r, st)
        if verbose: print(r, eng.steps)
    rule.combine(eng)
    return eng, rule, rs


if __name__ == '__main__':
    import sys, time
    from ir import load
    t = time.time()
    p = load(sys.argv[1] if len(sys.argv) > 1 else 'debug')
    eng, rule, rs = run_conc(p, verbose=True)
    print(len(rs), 'roots', eng.stats['states'], 'states', rule.exits, 'exits', '%.1fs' % (time.time() - t))
    for r in eng.reports:
        print(r['rule'], r['file'].split('/')[-1], r['line'], r['function'], r['message'], '|', '>'.join(r['callstack']))
        if '-v' in sys.argv:
            for x in r['path'][-15:]: print('      ', x)
    print(rule.guard_acc.keys())
    for k, v in rule.order.items(): print('order', k, sorted(v)[:2])
    print('cb', rule.cb_sites)
