"""Check driver: runs one property's analysis over the registered instantiations, applies the known-findings file, and writes evidence."""
import os, sys, json, time, tempfile, shutil, traceback, multiprocessing as mp, importlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'checks'))
import cases, registry, runner, interp, sym

class Res:
    """outcome of one job"""
    def __init__(self):
        self.obl = 0; self.ok = 0; self.viol = []; self.samples = []; self.counts = {}; self.notes = []
    def add(self, good, key, text):
        """one obligation; key identifies the violated construct, text reports it"""
        self.obl += 1
        if good: self.ok += 1
        else: self.viol.append((key, text))
        return good
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 4: self.samples.append(s)

import re
def generic(s): return re.sub(r'\[\d+\]', '[]', str(s))
def fname(ip, stk):
    """innermost repository function on a call stack, without template arguments"""
    for i in reversed(stk):
        f = ip.P.F.get(i)
        if f: return f['sq'].replace('libmpdataxx::', '')
    return '?'

def shapes_for(c, tier):
    """(label, overrides, mpi) the instantiation is analysed with"""
    if c.mpi:
        s = [('T2r0of2', dict(T=2), (2, 0))]
        if tier == 'thorough': s += [('T2r1of3', dict(T=2), (3, 1)), ('T1r2of3', dict(T=1), (3, 2))]
        return s
    s = [('T2', dict(T=2), (1, 0))]
    if tier == 'thorough':
        dim = {1: 'nx', 2: 'nx', 3: 'ny'}[c.nd]
        s += [('T3', dict(T=3), (1, 0)), ('slab2', {'T': 3, dim: 7}, (1, 0)), ('slab1', {'T': 5, dim: 5}, (1, 0))]
    return s
def interpret(c, over, mpi):
    q = runner.fresh()
    return runner.run(c, runner.shape(q, **over), mpi)

COST = {'mpdata': 1, 'rhs': 1, 'sw': 1, 'vip': 2, 'prs': 8, 'sgs': 8, 'bq': 8}
def _job(a):
    mod, j = a
    t = time.time()
    try:
        m = importlib.import_module(mod)
        r = m.run(j)
        return j, r, None, time.time() - t
    except Exception as e:
        return j, None, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]), time.time() - t
def _extract(n):
    try: runner.program(registry.BY[n]); return n, None
    except Exception as e: return n, '%s: %s' % (type(e).__name__, str(e)[-1500:])

def case_jobs(tier, pred=lambda c: True, shapes=shapes_for, asyn=False):
    js = []
    for c in registry.C + registry.NOC:
        if pred(c) and (asyn or 'async' not in c.tags): js += [(c.name, lab, over, mpi) for lab, over, mpi in shapes(c, tier)]
    js.sort(key=lambda j: -COST.get(registry.BY[j[0]].fam, 1) * registry.BY[j[0]].nd ** 2)
    return js

def known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl'); out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith(('#', 'fixed:')):
                d = json.loads(l)
                if d['property'] == pid: out[d['key']] = d
    return out

def main(pid, tier, explain_only=False):
    t0 = time.time()
    mod = pid.lower(); m = importlib.import_module(mod)
    tmp = None
    if not os.environ.get('MPX_CACHE'):
        tmp = tempfile.mkdtemp(prefix='mpx-'); os.environ['MPX_CACHE'] = tmp
    errors = []; results = []
    try:
        jobs = m.jobs(tier)
        cases.tool(); cases.tree_hash()
        names = list(dict.fromkeys(j[0] for j in jobs if j[0] in registry.BY))
        names.sort(key=lambda n: -COST.get(registry.BY[n].fam, 1))
        nproc = min(8, os.cpu_count() or 1)
        if names:
            with mp.Pool(nproc) as p:
                for n, e in p.imap_unordered(_extract, names, 1):
                    if e: errors.append('extract %s: %s' % (n, e))
        bad = {e.split()[1].rstrip(':') for e in errors}
        with mp.Pool(nproc, maxtasksperchild=1) as p:
            for j, r, e, dt in p.imap_unordered(_job, [(mod, j) for j in jobs if j[0] not in bad], 1):
                if e: errors.append('%s: %s' % (j[:2], e))
                else: results.append((j, r, dt))
    finally:
        if tmp: shutil.rmtree(tmp, ignore_errors=True)
    if os.environ.get('MPX_TIMES'):
        for j, r, dt in sorted(results, key=lambda x: -x[2])[:12]: print('  time %6.1f %s' % (dt, j[:2]))
    results.sort(key=lambda x: str(x[0][:2]))
    obl = sum(r.obl for j, r, _ in results); ok = sum(r.ok for j, r, _ in results)
    counts = {}
    for j, r, _ in results:
        for k, v in r.counts.items(): counts[k] = counts.get(k, 0) + v
    kn = known(pid); viol = {}
    for j, r, _ in results:
        for key, text in r.viol: viol.setdefault(key, []).append(('%s/%s' % (j[0], j[1]), text))
    new = {k: v for k, v in viol.items() if k not in kn}
    old = {k: v for k, v in viol.items() if k in kn}
    broken = list(errors)
    if hasattr(m, 'floors'):
        for k, lo in m.floors(tier).items():
            v = obl if k == 'obligations' else counts.get(k, 0)
            if v < lo: broken.append('analysis broken: %s = %d, expected at least %d' % (k, v, lo))
    samples = []
    for j, r, _ in results:
        for s in r.samples[:1]:
            if len(samples) < 12: samples.append('%s/%s: %s' % (j[0], j[1], s))
    nknown = sum(len(v) for v in old.values())
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {'obligations': obl, 'discharged': ok, 'known_finding_instances': nknown, 'explanation': m.RULE,
           'checker_cmd': './check %s %s' % (pid, '--thorough' if tier == 'thorough' else '--quick'),
           'trusted_base': ['clang 18 front end (type-checked AST)', 'tool/extract.cpp', 'absint/ (abstract interpreter and its models of blitz++, boost.ptr_container, the C++ and MPI libraries in lib.py)', 'checks/%s.py' % mod],
           'analysed': {'jobs': ['%s/%s' % (j[0], j[1]) for j, _, _ in results], 'n_jobs': len(results), **counts},
           'samples': samples or ['(no sample)'], 'errors': errors[:20], 'notes': sorted({n for j, r, _ in results for n in r.notes})[:40],
           'violations': {k: v[:5] for k, v in new.items()}, 'known_findings_seen': {k: v[:3] for k, v in old.items()}}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': m.LEVEL, 'coverage': cov, 'assumptions': getattr(m, 'ASSUME', []), 'violations': len(new), 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d jobs, %d obligations, %d discharged, %s, %.1f s' % (pid, tier, len(results), obl, ok, counts, time.time() - t0))
    for k in sorted(old): print('KNOWN-FINDING: property=%s %s' % (pid, kn[k].get('what', k)))
    for k in sorted(kn):
        if k not in old and tier == 'thorough': print('note: known finding no longer present: %s' % k)
    if new:
        for k, v in sorted(new.items()):
            print('  rule instance %s  [%d occurrence(s)]' % (k, len(v)))
            for w, t in v[:3]: print('     in %s: %s' % (w, t))
        rp = os.path.join(VERIF, 'evidence', 'violation-%s.json' % pid)
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for b in errors[:8]: print('INCOMPLETE (not analysed): ' + b.splitlines()[0][:300])
    if len(broken) > len(errors) or len(errors) * 3 > len(jobs):
        for b in broken[len(errors):][:8]: print('ERROR ' + b[:300])
        return 2
    return 0
