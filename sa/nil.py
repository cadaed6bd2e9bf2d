"""Absent results (P01): a value that may be absent is tested before it is used."""
import re
from engine import *
from life import Plain

# library calls that may answer with a null pointer / that fail on one: position -> required
LIBC_NULL = {'getenv', 'strchr', 'strrchr', 'strstr', 'memchr', 'fopen', 'opendir', 'readdir', 'dlopen', 'dlsym', 'dlerror', 'strtok_r', 'fgets', 'realpath', 'getcwd', 'bsearch', 'strpbrk', 'fdopen', 'popen', 'fopencookie', 'secure_getenv'}
# answers that the data model's contract always fills in: an iterator's current entry (used after its 'next' said there is
# one) and the text or pointer held by a value of that kind
PRESENT = re.compile(r'iot_data_(list|map|array)_iter_(\w+_)?(value|key)$|iot_data_(string|pointer|address)$')
POP = re.compile(r'iot_data_list_(head|tail)_pop$')
# parameters the headers document as optional ("can be NULL"), and what every 'free' function accepts
OPTIONAL = {'iot_data_hash': (0,), 'iot_data_free': (0,), 'iot_data_type': (0,), 'iot_data_is_of_type': (0,), 'iot_data_is_static': (0,), 'iot_data_alloc_pointer': (1,), 'iot_data_array_is_of_type': (0,), 'iot_data_map_merge': (1,),
            'iot_data_map_remove': (1,), 'iot_data_string_map_remove': (1,), 'iot_data_map_key_is_of_type': (0,), 'iot_data_vector_add': (2,), 'iot_data_from_json_with_cache': (2,), 'iot_data_equal': (0, 1), 'iot_data_equal_value': (0, 1),
            'iot_data_compare': (0, 1), 'iot_data_compare_value': (0, 1), 'iot_container_list_components': (1,), 'iot_container_free': (0,), 'iot_logger_free': (0,), 'iot_queue_free': (0,), 'iot_scheduler_free': (0,), 'iot_threadpool_free': (0,),
            'iot_logger_alloc_file': (3,), 'iot_logger_alloc_udp': (3, 4), 'iot_logger_alloc_custom': (3,), 'iot_scheduler_alloc': (2,), 'iot_schedule_create': (2,), 'iot_schedule_add_run_callback': (2,), 'iot_schedule_add_abort_callback': (2,),
            'iot_thread_create': (5,), 'iot_threadpool_alloc': (4,), 'iot_config_string_default': (2,)}
LIBC_NEED = {'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strdup': (0,), 'strndup': (0,), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1),
             'strcat': (0, 1), 'strncat': (0, 1), 'fclose': (0,), 'fread': (0, 3), 'fwrite': (0, 3), 'fseek': (0,), 'ftell': (0,), 'rewind': (0,), 'closedir': (0,), 'readdir': (0,), 'dlclose': (0,), 'dlsym': (0, 1), 'regexec': (0, 1),
             'regcomp': (0, 1), 'atoi': (0,), 'atol': (0,), 'strtol': (0,), 'strtod': (0,), '__isoc23_strtoll': (0,), '__isoc23_strtoull': (0,), '__isoc23_sscanf': (0, 1), 'sscanf': (0, 1), 'fopen': (0, 1), 'opendir': (0,), 'remove': (0,), 'rename': (0, 1),
             'getenv': (0,), 'inet_aton': (0, 1), 'pthread_mutex_lock': (0,), 'pthread_mutex_unlock': (0,), 'pthread_cond_wait': (0, 1), 'pthread_cond_signal': (0,), 'pthread_cond_broadcast': (0,), 'fputs': (0, 1), 'puts': (0,), 'fprintf': (0, 1),
             'vsnprintf': (2,), 'vsprintf': (0, 1), 'snprintf': (2,), 'yaml_parser_set_input_string': (0, 1)}


# pointers kept in objects that are absent until (or unless) something sets them
FIELDS = {('iot_component_t', 'starting_fn'), ('iot_component_t', 'running_fn'), ('iot_component_t', 'stopping_fn'), ('iot_component_factory_t', 'reconfig_fn'), ('iot_component_factory_t', 'category'), ('iot_logger_impl_t', 'freectx'),
          ('iot_schedule_t', 'threadpool'), ('iot_store_config_t', 'load'), ('iot_store_config_t', 'save'), ('iot_store_config_t', 'del'), ('iot_threadpool_t', 'front'), ('iot_threadpool_t', 'rear'), ('iot_threadpool_t', 'cache'),
          ('iot_job_t', 'next'), ('iot_job_t', 'prev')}
OPT = 'was left to the caller to supply or not'
SKIP = {'iot_data_map_add_unused', 'iot_data_map_add'}
CONTRACT_NEED = {'iot_data_map_add_unused': (0, 1, 2), 'iot_data_map_add': (0, 1, 2)}


class NilRule(Plain):
    name = 'nil'
    join_at = 60
    exit_join = 60
    max_steps = 250000

    def __init__(self, prog):
        Plain.__init__(self, prog)
        self.maybe = {}       # symbol -> why it may be absent
        self.meta = set()     # metadata vectors: every entry is set
        self.nullret = {}     # function -> parameter -> the one constant answered whenever it is NULL
        self.need = {}        # function -> parameter positions that must not be NULL
        self.onlyif = {}      # function -> parameters one of which is NULL whenever it returns NULL
        self.null = {}        # function -> why it may return NULL
        self.slots = set(); self.nullargs = set(); self.zero = None; self.track = None; self.fields = set(); self.stored = set(); self.passed = set(); self.gaveup = []; self.optional = set()
        self.uses = 0; self.sources = 0; self.exits = 0; self.tested = 0
        self.small = {n for n, f in prog.funcs.items() if f.internal and not f.public and sum(len(b) for b in f.blocks) <= 60}

    def inline(self, eng, fn, fr, st, inst, args):
        return fn.name in self.small and len(fr.stack) < 5

    # ---- use of a pointer
    def use(self, eng, st, fr, inst, v, how):
        r = root(v)
        if r[0] == 'c' and r[1] == 0 and v[0] != 'c': return
        if r[0] != 's': 
            if r == ZERO and v == ZERO: self.flag(eng, st, fr, inst, 'certain', 'a null pointer is %s' % how)
            return
        self.uses += 1
        x = eng.lookup(st, r)
        if x == 0:
            self.flag(eng, st, fr, inst, 'certain', '%s is %s although it is known to be null here' % (eng.describe(r), how))
            return
        if r in self.maybe and not eng.nonnull(st, r):
            self.flag(eng, st, fr, inst, 'optional' if self.maybe[r] == OPT else 'maybe', '%s is %s without a test, though it %s' % (eng.describe(r), how, self.maybe[r]))
        eng.set_ne(st, r, 0)

    def flag(self, eng, st, fr, inst, rule, msg):
        if self.zero is not None:
            rule = self.mode
            msg = 'when parameter %d of %s is %s: %s' % (self.zero + 1, self.root.name, 'null, as some caller passes it' if rule == 'nullarg' else 'left out', msg)
        eng.report(rule, fr, inst, st, msg)

    def on_load(self, eng, st, fr, inst, ptr): self.use(eng, st, fr, inst, ptr, 'read through')
    def on_store(self, eng, st, fr, inst, ptr, val): self.use(eng, st, fr, inst, ptr, 'written through')

    def on_stored(self, eng, st, fr, inst, ptr, val):
        if val == self.track and val is not None and tag_of(ptr) and ptr[0] == 'p': self.stored.add(tag_of(ptr))

    def on_loaded(self, eng, st, fr, inst, ptr, val):
        if val[0] != 's': return
        t = tag_of(ptr)
        if t in self.fields: self.maybe.setdefault(val, OPT)
        elif t in FIELDS: self.maybe.setdefault(val, 'is absent unless something has set it')
        elif ptr[0] == 'p' and root(ptr) in self.slots: self.maybe.setdefault(val, 'may be an unset entry')
        if t == ('iot_data_vector_t', 'values'): self.slots.add(val)

    def on_call(self, eng, st, fr, inst, callee, args):
        if inst.d.get('noret') or callee in self.p.noret: return None
        fn = self.p.funcs.get(callee)
        if self.track is not None and fn is not None:
            for k, a in enumerate(args):
                if a == self.track: self.passed.add((callee, k))
        for k in LIBC_NEED.get(callee, ()) if fn is None else self.need.get(callee, ()):
            if k < len(args): self.use(eng, st, fr, inst, args[k], 'handed to ' + callee.split('@')[0])
        if fn is not None:
            for k, a in enumerate(args):
                r = root(a)
                if k < len(fn.args) and fn.args[k][1] == 'ptr' and (a == ZERO or r[0] == 's' and (eng.lookup(st, r) == 0 or r in self.maybe and not eng.nonnull(st, r))):
                    cs = tuple((j, eng.lookup(st, x)) for j, x in enumerate(args[:len(fn.args)]) if j != k and eng.lookup(st, x) is not None)
                    self.nullargs.add((callee, k, cs if sum(x[:2] == (callee, k) for x in self.nullargs) < 8 else ()))
        if callee in ('memcpy', 'memmove', 'memset'):
            return None
        if fn is not None and callee not in fr.stack and self.inline(eng, fn, fr, st, inst, args): return None
        s0 = st
        (ret, s2, env), = eng.opaque(fr, eng.cur_env, st, inst, callee, args)
        if callee in ('iot_data_vector_element_count', 'iot_data_list_length') and args: s2.ts[('counted', root(args[0]))] = 1
        if callee == 'iot_data_vector_iter' and len(args) == 2 and root(args[0]) in self.meta: s2.ts[('counted', root(args[1]))] = 1
        if callee == 'iot_data_get_metadata': self.meta.add(ret)
        for k, c in self.nullret.get(callee, {}).items():
            # the callee's answer for an absent value is one constant: tell the two cases apart
            if k < len(args) and root(args[k]) in self.maybe and not eng.nonnull(st, args[k]) and args[k] == root(args[k]):
                s3 = s2.copy()
                eng.set_eq(s3, args[k], 0)
                eng.set_ne(s2, args[k], 0)
                return [(ret, s2), (('c', c), s3)]
        if inst.ty == 'ptr':
            why = None
            if fn is not None and any(k < len(args) and (eng.nonnull(s2, args[k]) or root(args[k])[0] == 's' and root(args[k]) not in self.maybe) for k in self.onlyif.get(callee, ())):
                if all(eng.nonnull(s2, args[k]) for k in self.onlyif[callee]): eng.set_ne(s2, ret, 0)
                self.maybe.pop(ret, None)
                return [(ret, s2)]
            if fn is None and callee in LIBC_NULL: why = 'may be absent'
            elif fn is not None and not PRESENT.search(callee): why = self.null.get(callee)
            if (callee == 'iot_data_vector_iter_value' or POP.search(callee)) and any(k[0] == 'counted' for k in s2.ts if isinstance(k, tuple)): why = None
            if why:
                self.maybe[ret] = why; self.sources += 1
            else: self.maybe.pop(ret, None)
        return [(ret, s2)]

    def on_indirect(self, eng, st, fr, inst, fv, args):
        self.use(eng, st, fr, inst, fv, 'called')
        return None


def order(prog):
    out, seen = [], set()
    def go(n):
        stack = [(n, iter(sorted(prog.callees.get(n, ()))))]
        seen.add(n)
        while stack:
            m, it = stack[-1]
            for c in it:
                if c in prog.funcs and c not in seen:
                    seen.add(c); stack.append((c, iter(sorted(prog.callees.get(c, ())))))
                    break
            else:
                stack.pop()
                out.append(m)
    for n in sorted(prog.funcs):
        if n not in seen: go(n)
    return out


def analyse(eng, rule, n, zero=None, mode='leftout', consts=()):
    """exits of n (with one parameter absent); None when it could not be explored"""
    f = rule.p.funcs[n]
    eng.steps = 0; eng.memo = {}
    rule.maybe = {}; rule.meta = set(); rule.slots = set()
    rule.root = f; rule.zero = zero; rule.mode = mode
    args = [('s', (n,), 'arg%d' % k, '') for k in range(len(f.args))]
    st = State()
    if zero is not None: eng.set_eq(st, args[zero], 0)
    for j, c in consts: eng.set_eq(st, args[j], c)
    try:
        return args, eng.run_root(n, st) or ()
    except Budget:
        rule.gaveup.append(n)
        return args, None
    finally:
        rule.zero = None


def summarise(eng, rule, n, args, outs):
    f = rule.p.funcs[n]
    need = null = only = None; nret = {}
    for ret, st, inst in outs or ():
        rule.exits += 1
        for k, a in enumerate(args):
            if eng.lookup(st, a) == 0: nret.setdefault(k, set()).add(ret[1] if ret is not None and ret[0] == 'c' else None)
        nn = {k for k, a in enumerate(args) if eng.nonnull(st, a)}
        need = nn if need is None else need & nn
        if f.ret == 'ptr' and (ret == ZERO or eng.lookup(st, ret) == 0 or ret in rule.maybe and not eng.nonnull(st, ret)):
            null = 'may be null'
            z = {k for k, a in enumerate(args) if eng.lookup(st, a) == 0}
            only = z if only is None else only & z
    rule.need[n] = frozenset(need or ()) | frozenset(CONTRACT_NEED.get(n, ()))
    rule.nullret[n] = {k: next(iter(v)) for k, v in nret.items() if len(v) == 1 and None not in v}
    if null: rule.null[n] = null
    if null and only: rule.onlyif[n] = frozenset(only)


def run_nil(prog):
    rule = NilRule(prog)
    eng = Engine(prog, rule)
    # what is stored from an optional parameter stays optional
    todo = [(n, k) for n, ks in OPTIONAL.items() for k in ks if n in prog.funcs]
    seen = set(todo)
    while todo:
        n, k = todo.pop()
        a = ('s', (n,), 'arg%d' % k, '')
        rule.track = a; rule.stored = set(); rule.passed = set()
        quiet = eng.reports; eng.reports = []
        analyse(eng, rule, n)
        eng.reports = quiet
        rule.fields |= rule.stored
        for m in rule.passed - seen:
            if not prog.funcs[m[0]].public and not m[0].endswith('_free'): seen.add(m); todo.append(m)
    rule.track = None
    rule.optional = seen
    eng.reports = []; eng._seen = set()
    rs = []
    for n in order(prog):
        if n in SKIP or n.startswith('yxml') or n.startswith('iot_node_'):
            if n in CONTRACT_NEED: rule.need[n] = frozenset(CONTRACT_NEED[n])
            continue
        args, outs = analyse(eng, rule, n)
        if outs is None: continue
        rs.append(n)
        summarise(eng, rule, n, args, outs)
        if n in prog.callees.get(n, ()):
            args, outs = analyse(eng, rule, n)
            if outs is not None: summarise(eng, rule, n, args, outs)
    # every parameter somebody hands a null pointer
    done = set()
    while rule.nullargs - done:
        for n, k, cs in sorted(rule.nullargs - done):
            done.add((n, k, cs))
            if cs and (n, k, ()) in done: continue
            if n in SKIP or n.startswith('yxml') or n.startswith('iot_node_') or k in rule.need.get(n, ()): continue
            analyse(eng, rule, n, k, 'nullarg', cs)
    rule.given = done
    # every documented optional parameter left out
    left = []
    for n, k in sorted((n, k) for n, ks in OPTIONAL.items() for k in ks if n in prog.funcs):
        args, outs = analyse(eng, rule, n, k)
        if outs is None: continue
        left.append((n, k))
        if not outs: eng.report('stops', Frame(prog.funcs[n], (), ()), prog.funcs[n].blocks[0][0], State(), 'parameter %d of %s may be left out, but the function does not get past it' % (k + 1, n))
    rule.left = left
    return eng, rule, rs


if __name__ == '__main__':
    from ir import load
    import sys, time
    t = time.time()
    eng, rule, rs = run_nil(load(sys.argv[1]))
    print(len(rs), 'roots', rule.exits, 'exits', rule.uses, 'uses', rule.sources, '%.1fs' % (time.time() - t), rule.gaveup)
    print(rule.fields, len(rule.left))
    for r in eng.reports:
        print(r['rule'], r['file'].split('/')[-1], r['line'], r['function'], r['message'], '|', '>'.join(r['callstack']))
    if 'v' in sys.argv: print(rule.onlyif); print(sorted(rule.null)); print({k: sorted(v) for k, v in rule.need.items() if v})
