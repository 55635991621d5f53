"""C22 dimensional homogeneity: a change of the units of length, time and temperature changes the numbers of the result accordingly and nothing else."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, ONE, HP, H, const
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program with every input (fields and parameters) multiplied by the factor its physical dimension prescribes for independent changes of the units of length, time and temperature: '
        'every prognostic field must come out multiplied by the factor of its own dimension. Equality as algebraic expressions in every examined cell, for all grid sizes.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)',
          'the constants that keep denominators away from zero (machine epsilon, smallest number) count as zero',
          'iterative solvers are followed for one iteration']
SKIPQ = {'p3_gc', 'b3_il', 'p3_cr', 'p2_gc', 'b3_smg', 'g3_smo', 'g3_sma', 'p3_mr', 'u3_imp', 'b2_ile', 'b3_sma', 'g3_dns'}
RESTQ = {'b2_il', 'g2_dns'}
NOREST = {'b2_ile'}
# LK: units of length and temperature; LTK: time as well; rest: all three, for a run that starts from rest. The first guess of the pressure iteration (minus half the squared
# velocity) does not have the dimension of the quantity iterated; since it does not affect the converged solution it is made to vanish (rest) or the unit of time is kept (LK).
def jobs(tier):
    js = [(c.name, lab, tier) for c in registry.C if not c.mpi and c.fam in ('vip', 'prs', 'sgs', 'bq', 'sw') and (tier != 'quick' or c.name not in SKIPQ)
          for lab in (['LTK'] if c.fam in ('vip', 'sw') else ['LK'] + (['rest'] if c.fam != 'prs' and c.name not in NOREST and (tier != 'quick' or c.name in RESTQ) else []))]
    js.sort(key=lambda j: meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'cells compared': 60}
def run(j): return gvn.deep(_run, j)
def dims(c):
    """input -> exponents of (length, time, temperature); prognostic fields -> the same"""
    u = (1, -1, 0); th = (0, 0, 1)
    d = {'dt': (0, 1, 0), 'di': (1, 0, 0), 'dj': (1, 0, 0), 'dk': (1, 0, 0), 'gc0': (0, 0, 0), 'g0': (0, 0, 0), 'vab0': (0, -1, 0), 'relax0': u, 'prs_tol': (0, 0, 0), 'eta': (2, -1, 0),
         'g': (1, -2, 0), 'Tht_ref': th, 'tht_e': th, 'tht_abs': (0, -1, 0), 'mix_len': (1, 0, 0), 'mix_len_h': (1, 0, 0), 'mix_len_v': (1, 0, 0), 'smg_c': (0, 0, 0), 'c_m': (0, 0, 0), 'cdrag': (0, 0, 0),
         'prandtl_num': (0, 0, 0), 'hflux': (1, -1, 1), 'src': (0, -1, 0), 'tiny': None, 'epsilon': None}
    if c.fam == 'sw': f = [(2, -1, 0)] * c.nd + [(1, 0, 0)]; d['vip_eps'] = (1, 0, 0)
    else: f = [u] * c.nd + [th]
    return d, f
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20)
    gvn.GVN.split = ('q0',)
    m = meta.Model(c, q, 2 if c.fam in ('vip', 'sw') or lab == 'rest' else 1)
    d, f = dims(c)
    base = [HP('length unit'), HP('time unit') if lab != 'LK' else ONE, HP('temperature unit')]
    def fac(x):
        r = ONE
        for b, e in zip(base, x):
            for _ in range(abs(e)): r = r * b if e > 0 else r / b
        return r
    used = set()
    def mk(scaled):
        def leaf(g, nm, k, pt):
            if nm in ('tiny', 'epsilon'): return ZERO
            dm = f[k % c.ne] if nm == 'psi0' else d.get(nm)
            if dm is None: raise gvn.Unsupported('input %s without a dimension' % nm)
            used.add(nm)
            if lab == 'rest' and nm == 'psi0' and k % c.ne < c.nd: return ZERO
            v = meta.base(g, nm, k, pt) if k is not None else HP('in', nm) if nm in sym.POSITIVE else H('in', nm)
            return v * fac(dm) if scaled else v
        return m.inst(leaf)
    a, b = mk(False), mk(True)
    pts = meta.points(m.n, (0,) if c.fam in ('vip', 'sw') or tier != 'quick' else ())
    if c.fam not in ('vip', 'sw') and tier == 'quick':                                # next to the lower wall of the last axis
        x = list(pts[0]); x[-1] = 0; pts.append(tuple(x))
    for pt in pts:
        for e in range(c.ne):
            ok = b(e, pt) == a(e, pt) * fac(f[e]); r.count('cells compared')
            fn, loc = ('', '') if ok else b.site(e, pt)
            which = '' if ok else 'units ' + lab
            r.add(ok, 'dimensions|%s|%s' % (fn, which), 'equation %d at cell %r is not dimensionally consistent (%s; value last computed in %s at %s)' % (e, pt, which, fn, loc))
    r.count('statements value-numbered', a.g.nev + b.g.nev); r.sample('inputs: %s' % ', '.join(sorted(used)))
    return r
