"""Front end: compile every library unit of /repo's working tree with the build's flags and load the
normalised IR (functions, CFGs, struct layouts, globals) that the rules work on."""
import os, re, sys, json, subprocess, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
CLANG = LLVM + '/bin/clang'
BASE_FLAGS = ['-std=gnu11', '-D_GNU_SOURCE', '-pthread', '-DIOT_BUILD_COMPONENTS', '-DIOT_BUILD_DYNAMIC_LOAD',
              '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-fno-discard-value-names']
VARIANTS = {'debug': [], 'release': ['-DNDEBUG']}


class AnalysisBroken(Exception):
    pass


def tool_path():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'irdump-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        cmd = [LLVM + '/bin/clang++', '-std=c++17', '-fno-exceptions', '-O1', '-w', '-I' + LLVM + '/include', src,
               '-o', tmp, '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot build irdump: ' + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def unit_list(repo=None):
    repo = repo or REPO
    txt = open(os.path.join(repo, 'src/c/CMakeLists.txt')).read()
    units = []
    for m in re.finditer(r'set\s*\(\s*C_FILES\s+([^)]*)\)', txt):
        for w in m.group(1).split():
            if w.endswith('.c') and w not in units:
                units.append(w)
    if len(units) < 20:
        raise AnalysisBroken('only %d library units found in CMakeLists.txt' % len(units))
    return units


def gen_defs(repo, out):
    """include/iot/defs.h is generated by the build; make an equivalent one when it is absent"""
    if os.path.exists(os.path.join(repo, 'include/iot/defs.h')):
        return []
    os.makedirs(os.path.join(out, 'inc/iot'), exist_ok=True)
    ver = open(os.path.join(repo, 'VERSION')).read().strip()
    with open(os.path.join(out, 'inc/iot/defs.h'), 'w') as f:
        f.write('#ifndef _IOT_DEFS_H_\n#define _IOT_DEFS_H_\n#define IOT_VERSION "%s"\n#define IOT_HAS_XML\n#define IOT_HAS_YAML\n#define IOT_HAS_CBOR\n#endif\n' % ver)
    return ['-I' + os.path.join(out, 'inc')]


def public_names(repo=None):
    """identifiers declared in the public headers (comments stripped)"""
    repo = repo or REPO
    names = set()
    inc = os.path.join(repo, 'include/iot')
    for root, _, fs in os.walk(inc):
        for f in fs:
            if f.endswith('.h'):
                t = open(os.path.join(root, f), errors='replace').read()
                t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
                t = re.sub(r'//[^\n]*', ' ', t)
                names.update(re.findall(r'\b([A-Za-z_]\w*)\s*\(', t))
    return names


class Inst:
    __slots__ = ('id', 'op', 'ty', 'line', 'file', 'ops', 'd', 'fn', 'blk', 'idx')


class Func:
    def __init__(self, d, unit):
        self.name = d['name']
        self.internal = d['internal']
        self.file = d['file']
        self.line = d['line']
        self.unit = unit
        self.args = d['args']
        self.ret = d['ret']
        self.sig = d.get('sig', [])
        self.blocks = []
        self.vars = {}     # value id -> source name of the local/argument
        self.insts = {}
        for bi, b in enumerate(d['blocks']):
            L = []
            for x in b:
                if x['op'] in ('dbgvar', 'dbgval'):
                    o = x['ops'][0] if x['ops'] else None
                    if o and o[0] == 'v':
                        self.vars.setdefault(o[1], x['name'])
                    continue
                i = Inst()
                i.id = x['id']; i.op = x['op']; i.ty = x['ty']; i.line = x.get('line', 0); i.file = x.get('file', self.file)
                i.ops = x.get('ops', []); i.d = x; i.fn = self; i.blk = bi; i.idx = len(L)
                L.append(i)
                self.insts[i.id] = i
            self.blocks.append(L)
        for a in self.args:
            self.vars[a[0]] = a[2]
        self._live = None
        self.succs = [self._succ(b) for b in self.blocks]
        self.preds = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succs):
            for s in ss:
                self.preds[s].append(b)

    @staticmethod
    def _succ(b):
        t = b[-1]
        if t.op == 'br':
            return t.d['succ']
        if t.op == 'switch':
            return [t.d['default']] + [c[1] for c in t.d['cases']]
        return []

    def uses(self, i):
        out = []

        def opv(o):
            if isinstance(o, list) and o and o[0] == 'v':
                out.append(o[1])
        for o in i.ops:
            opv(o)
        d = i.d
        if 'cond' in d: opv(d['cond'])
        if 'callee' in d: opv(d['callee'])
        if 'gep' in d:
            opv(d['gep']['base'])
            for s in d['gep']['vars']:
                opv(s[1])
        return out

    def live(self):
        """live-in SSA ids per block (phi operands are live-out of the predecessor)"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        gen = [set() for _ in range(n)]; kill = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]
        for b, L in enumerate(self.blocks):
            for i in L:
                if i.op == 'phi':
                    kill[b].add(i.id)
                    for p, v in i.d['inc']:
                        if v[0] == 'v':
                            phiuse[b].setdefault(p, set()).add(v[1])
                else:
                    for u in self.uses(i):
                        if u not in kill[b]:
                            gen[b].add(u)
                    kill[b].add(i.id)
        livein = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succs[b]:
                    out |= livein[s]
                    out |= phiuse[s].get(b, set())
                    # phi results are defined in s
                new = gen[b] | (out - kill[b])
                if new != livein[b]:
                    livein[b] = new; ch = True
        self._live = livein
        self._phiuse = phiuse
        return livein

    def live_out_edge(self, b, s):
        lv = self.live()
        return lv[s] | self._phiuse[s].get(b, set())


class Program:
    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.structs = {}
        self.enums = {}
        self.units = []
        self.noret = set()
        self.variant = None

    def field(self, st, off):
        """name of the field of struct st at byte offset off (innermost struct by prefix)"""
        s = self.structs.get(st)
        if not s:
            return None
        for f in s['fields']:
            if f[1] == off:
                return f[0]
        for f in s['fields']:
            if f[1] <= off < f[1] + max(f[2], 1):
                return f[0]
        return None

    def instcount(self):
        return sum(len(b) for f in self.funcs.values() for b in f.blocks)


def _run(cmd):
    """a compiler that crashed (not: rejected the source) is given a second and a third chance"""
    for _ in range(3):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not (r.returncode < 0 or 'PLEASE' in r.stderr or r.returncode in (134, 137, 139)):
            break
    return r


def _compile(repo, unit, variant, out, extra):
    tool = tool_path()
    src = os.path.join(repo, 'src/c', unit)
    bc = os.path.join(out, variant + '-' + unit.replace('/', '_') + '.bc')
    js = bc[:-3] + '.json'
    cmd = [CLANG] + BASE_FLAGS + VARIANTS[variant] + ['-I' + os.path.join(VERIF, 'tool/shim')] + extra + ['-I' + os.path.join(repo, 'include'), '-emit-llvm', '-c', src, '-o', bc]
    r = _run(cmd)
    if r.returncode:
        raise AnalysisBroken('clang failed on %s: %s' % (unit, r.stderr[-3000:]))
    r = _run([tool, bc, js])
    if r.returncode:
        raise AnalysisBroken('irdump failed on %s: %s' % (unit, r.stderr[-3000:]))
    d = json.load(open(js))
    return unit, d


def load(variant='debug', repo=None, units=None, extra_src=None):
    """compile and load the whole library (always from the current working tree)"""
    repo = repo or REPO
    units = units or unit_list(repo)
    out = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        tool_path()
        extra = gen_defs(repo, out)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda u: _compile(repo, u, variant, out, extra), units))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return link(res, variant, repo)


def load_file(path, variant='debug'):
    """load one stand-alone C file (positive examples of the rules)"""
    out = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        extra = gen_defs(REPO, out)
        bc = os.path.join(out, 'x.bc'); js = os.path.join(out, 'x.json')
        cmd = [CLANG] + BASE_FLAGS + VARIANTS[variant] + ['-I' + os.path.join(VERIF, 'tool/shim')] + extra + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src/c'), '-emit-llvm', '-c', path, '-o', bc]
        r = _run(cmd)
        if r.returncode:
            raise AnalysisBroken('clang failed on %s: %s' % (path, r.stderr[-3000:]))
        r = _run([tool_path(), bc, js])
        if r.returncode:
            raise AnalysisBroken('irdump failed: ' + r.stderr)
        d = json.load(open(js))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return link([(os.path.basename(path), d)], variant, REPO)


def _fix(o, ren, gren):
    """rename colliding static functions / private globals in operands"""
    if isinstance(o, list):
        if len(o) == 2 and o[0] == 'fn' and isinstance(o[1], str):
            return ['fn', ren.get(o[1], o[1])]
        if len(o) == 2 and o[0] == 'g' and isinstance(o[1], str):
            return ['g', gren.get(o[1], o[1])]
        return [_fix(x, ren, gren) for x in o]
    if isinstance(o, dict):
        return {k: _fix(v, ren, gren) for k, v in o.items()}
    return o


def link(res, variant, repo):
    p = Program()
    p.variant = variant
    p.repo = repo
    defs = {}
    for unit, d in res:
        for f in d['functions']:
            defs.setdefault(f['name'], []).append((unit, f['internal'], f['file'], f['line']))
    for unit, d in res:
        p.units.append(unit)
        ren = {}
        for f in d['functions']:
            if f['internal'] and len(defs[f['name']]) > 1:
                if len({(x[2], x[3]) for x in defs[f['name']]}) > 1:   # same name, different definitions
                    ren[f['name']] = f['name'] + '@' + unit
        gren = {g['name']: g['name'] + '@' + unit for g in d['globals'] if g['internal'] or g['name'].startswith('.')}
        d = _fix(d, ren, gren)
        for f in d['functions']:
            nm = ren.get(f['name'], f['name'])
            f['name'] = nm
            if nm in p.funcs:
                continue
            p.funcs[nm] = Func(f, unit)
        for g in d['globals']:
            g['name'] = gren.get(g['name'], g['name'])
            g['unit'] = unit
            if g['name'] not in p.globals or 'init' in g:
                p.globals[g['name']] = g
        for s, v in d['structs'].items():
            if s not in p.structs or len(v['fields']) > len(p.structs[s]['fields']):
                p.structs[s] = v
        for e, v in d['enums'].items():
            p.enums[e] = v
        for n, nr in d['declares']:
            if nr:
                p.noret.add(n)
    p.public = public_names(repo)
    for f in p.funcs.values():
        f.public = (not f.internal) and f.name in p.public
    # address-taken functions (callbacks, thread entry points, table entries)
    p.addr_taken = {}

    def scan(o, where):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 'fn':
                p.addr_taken.setdefault(o[1], []).append(where)
            else:
                for x in o: scan(x, where)
        elif isinstance(o, dict):
            for x in o.values(): scan(x, where)
    for f in p.funcs.values():
        for b in f.blocks:
            for i in b:
                for o in i.ops: scan(o, (f.name, i.line))
                for _, v in i.d.get('inc', []): scan(v, (f.name, i.line))
    for g in p.globals.values():
        if 'init' in g: scan(g['init'], (g['name'], g.get('line', 0)))
    # direct call graph
    p.callees = {}
    for f in p.funcs.values():
        s = set()
        for b in f.blocks:
            for i in b:
                if i.op == 'call' and i.d['callee'][0] == 'fn':
                    s.add(i.d['callee'][1])
        p.callees[f.name] = s
    p.callers = {}
    for a, s in p.callees.items():
        for b in s:
            p.callers.setdefault(b, set()).add(a)
    return p


def reach(p, roots_pred):
    """functions from which a callee satisfying roots_pred(name) is reachable by direct calls"""
    hit = {n for n in set(p.callees) | {c for s in p.callees.values() for c in s} if roots_pred(n)}
    work = list(hit)
    while work:
        n = work.pop()
        for c in p.callers.get(n, ()):
            if c not in hit:
                hit.add(c); work.append(c)
    return hit


if __name__ == '__main__':
    import time
    t = time.time()
    p = load(sys.argv[1] if len(sys.argv) > 1 else 'debug')
    print(len(p.units), 'units', len(p.funcs), 'functions', p.instcount(), 'instructions', len(p.structs), 'structs', '%.1fs' % (time.time() - t))
    print('dup-renamed', [n for n in p.funcs if '@' in n])
    print('non-public external', [n for n, f in p.funcs.items() if not f.internal and not f.public and not n.startswith('yxml')])
