"""Check driver: runs the rules of one property over the current source tree, compares the instance counts with the
confirmed minimum, matches known findings, writes the evidence file and the report, and sets the exit status."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ir import load, AnalysisBroken, VERIF
from engine import Budget


class Result:
    def __init__(self):
        self.reports = []     # dicts: rule function file line message callstack path
        self.cov = {}         # measured counts
        self.floors = []      # (name, measured, minimum)
        self.samples = []
        self.text = ''

    def floor(self, name, got, need):
        self.floors.append((name, got, need))
        self.cov[name] = got

    def add(self, reps):
        self.reports += reps


class Ctx:
    def __init__(self):
        self._p = {}
        self._a = {}

    def prog(self, variant='debug'):
        if variant not in self._p:
            self._p[variant] = load(variant)
        return self._p[variant]

    def memo(self, name, fn):
        if name not in self._a:
            self._a[name] = fn()
        return self._a[name]


def key_of(r):
    return '%s|%s|%s' % (r['rule'], r['function'], r['message'])


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == pid and e.get('status') == 'open':
                out[e['key']] = e
    return out


def run(pid, props, tier):
    t0 = time.time()
    OUT = os.environ.get('VERIF_OUT', VERIF)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    ev = os.path.join(OUT, 'evidence', pid + '.json')
    if os.path.exists(ev): os.unlink(ev)
    P = props[pid]
    try:
        res = Result()
        ctx = Ctx()
        P['run'](ctx, res)
        p = ctx.prog()
    except (AnalysisBroken, Budget) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    kf = known(pid)
    new, old, seen = [], [], set()
    for r in res.reports:
        k = key_of(r)
        if k in seen: continue
        seen.add(k)
        (old if k in kf else new).append(r)
    rp = os.path.join(OUT, 'build', 'report-%s.txt' % pid)
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    with open(rp, 'w') as f:
        f.write('property %s: %s\n' % (pid, P['title']))
        for r in new:
            f.write('\n%s:%s: [%s] in %s: %s\n' % (os.path.basename(r['file'] or '?'), r['line'], r['rule'], r['function'], r['message']))
            if r.get('callstack'): f.write('   call chain: %s\n' % ' > '.join(r['callstack']))
            for x in r.get('path', []): f.write('   path: %s\n' % x)
    for r in new[:12]:
        print('%s:%s: [%s] %s: %s' % (os.path.basename(r['file'] or '?'), r['line'], r['rule'], r['function'], r['message']))
    for r in old:
        print('KNOWN-FINDING: property=%s %s:%s %s: %s' % (pid, os.path.basename(r['file'] or '?'), r['line'], r['function'], r['message']))
    broken = [x for x in res.floors if x[1] < x[2]]
    cov = {'explanation': P['explain'], 'rule': P['rule'],
           'units_analysed': len(p.units), 'functions_in_program': len(p.funcs), 'instructions_in_program': p.instcount()}
    cov.update(res.cov)
    cov['instance_minima'] = {n: m for n, g, m in res.floors}
    cov['samples'] = res.samples[:12]
    cov['known_findings_seen'] = len(old)
    doc = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.get('level', 'other'), 'coverage': cov,
           'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(doc, open(ev, 'w'), indent=1, default=str)
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken:
        for n, g, m in broken:
            print('ANALYSIS-BROKEN property=%s: %s: %d instances found, at least %d were confirmed by reading' % (pid, n, g, m))
        os.unlink(ev)
        return 2
    print('OK property=%s %s (%.1fs)' % (pid, ', '.join('%s=%s' % (n, g) for n, g, m in res.floors), time.time() - t0))
    return 0
