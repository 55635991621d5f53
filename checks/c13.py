"""C13 sources are integrated as the chosen scheme says: forward, backward or trapezoidal around exactly one advection step."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, ONE, HP, H, const
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program with an arbitrary, time- and space-dependent linear source added by the user, compared with the composition the scheme stands for: A is one advection step of the same options '
        '(value numbers of the advection-only program), R the source; euler_a: A(psi) + dt R(psi), euler_b: A(psi + dt R(psi)), trapez: x + dt/2 R\'(x) with x = A(psi + dt/2 R(psi)); fields declared to have no source: A(psi). '
        'Equality as algebraic expressions, for all grid sizes, over two steps (in three dimensions one).')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)', 'the constants that keep denominators away from zero count as zero']
NAMES = ('r1_ea', 'r1_eb', 'r2_tr', 'r2_trd', 'r2_mx', 'r3_tr', 'r1_tr', 'r2_ea', 'r2_eb', 'r3_ea')
def jobs(tier): 
    js = [(n, '', tier) for n in NAMES]
    for n in NAMES: registry.plain(n)
    return js
def floors(tier): return {'cells compared': 60}
def run(j): return gvn.deep(_run, j)
def tiny(nm): return ZERO if nm in ('tiny', 'epsilon') else None
class Ref:
    """one advection step of the plain program applied to a state given as a function (e, pt) -> value"""
    def __init__(self, m, state, flow=None, other=None):
        def leaf(g, nm, k, pt):
            if nm == 'psi0': return state(k % m.c.ne, pt)
            if flow and nm in ('gc0', 'gc', 'ndt', 'ndtt'): return flow(nm, k % m.c.nd, pt)
            return other(nm, k, pt) if other else tiny(nm)
        self.i = m.inst(leaf); self.memo = {}
    def __call__(self, e, pt):
        k = (e, tuple(map(repr, pt)))
        if k not in self.memo: self.memo[k] = self.i(e, pt)
        return self.memo[k]
def val(a, x):
    if isinstance(x, sym.Ex): return a.g.tree(x, (), None, a.p)
    return a.g.poly(x) if isinstance(x, sym.Poly) else const(int(x) if isinstance(x, bool) else x)
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); nd = c.nd
    gvn.GVN.split = ('q0',)
    nt = 2 if nd < 3 else 1
    m = meta.Model(c, q, nt); P = meta.Model(registry.plain(n), q, 1)
    sch = 'euler_a' if 'euler_a' in c.ct else 'euler_b' if 'euler_b' in c.ct or 'mixed' in c.ct else 'trapez'
    nor = {1} if 'hint_norhs' in c.ct else set()
    L = [e for e in range(c.ne) if e not in nor]
    seen = set()
    def leaf(g, nm, k, pt):
        if nm == 'src':
            seen.add(k)
            return H('source', L[k % len(L)], k // len(L), tuple(map(repr, pt)))
        return tiny(nm)
    a = m.inst(leaf)
    dt = HP('input', 'dt', None, ())
    dt = meta.base(a.g, 'dt', None, ()) if False else HP('in', ('dt',))
    R = lambda st, call: (lambda e, pt: ZERO if e in nor else H('source', e, call, tuple(map(repr, pt))) * st(e, pt))
    def plus(st, f, rh): return lambda e, pt: st(e, pt) + f * rh(e, pt)
    half = dt / const(2)
    def step(st, s):
        if sch == 'euler_a': return plus(Ref(P, st), dt, R(st, s))
        if sch == 'euler_b': return Ref(P, plus(st, dt, R(st, s)))
        x = Ref(P, plus(st, half, R(prev[0], s)))
        y = plus(x, half, R(x, s + 1)); prev[0] = x
        return y
    st = lambda e, pt: meta.base(a.g, 'psi0', e, pt)
    prev = [st]
    for s in range(nt):
        st = step(st, s)
    for pt in meta.points(m.n, (0,)):
        for e in range(c.ne):
            ok = a(e, pt) == st(e, pt); r.count('cells compared')
            fn = '' if ok else a.site(e, pt)[0]
            r.add(ok, 'sources|%s|%s' % (sch, fn), 'equation %d at cell %r is not what %s stands for after %d steps (value last computed in %s)' % (e, pt, sch, nt, fn))
    k = 0
    for nm, vals, env in a.p.marks:
        if nm != 'user_rhs' or vals is None: continue
        x, at = val(a, vals[0]), val(a, vals[1]); r.count('source evaluations')
        if sch == 'trapez': wd, wa = half, 1 if k else 0
        else: wd, wa = dt, 0
        r.add(x == wd, 'sources|%s|time step passed' % sch, 'evaluation %d of the sources is passed a wrong time step' % k)
        r.add(at == const(wa), 'sources|%s|time level passed' % sch, 'evaluation %d of the sources is told the wrong time level' % k)
        k += 1
    r.add(k == nt + (sch == 'trapez' or 'mixed' in c.ct), 'sources|%s|evaluations' % sch, 'sources evaluated %d times' % k)
    r.count('statements value-numbered', a.g.nev); r.sample('%s, source evaluated %d times per field' % (sch, len(seen) // len(L)))
    return r
