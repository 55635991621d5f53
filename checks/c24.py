"""C24 flux correction: every antidiffusive flux is scaled by the largest factor up to one that keeps the receiving cell below and the giving cell above the local extremes."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, ONE, HP, H, const
LEVEL = 'other'
RULE = ('Global value numbering of three programs that differ in the flux correction only: first pass alone, corrected without limiting, corrected with limiting. Courant numbers are arbitrary on all faces of one cell and zero elsewhere, so that every '
        'neighbour exchanges one flux and both the unlimited flux F and the limited one F\' can be read off its change. Obligation: F\' = F min(1, up(receiver), down(giver)), up = (largest - value) G / sum of unlimited inflow, '
        'down = (value - smallest) G / sum of unlimited outflow, the extremes taken over the cell and its nearest neighbours before the step and after the first pass: equality as algebraic expressions of all inputs, for all grid sizes. '
        'With these factors no cell can leave the range of its surroundings.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)', 'the constants that keep denominators away from zero count as zero',
          'one corrective iteration; fluxes around one cell at a time; what happens at walls follows from C07']
def jobs(tier):
    js = [(c.name, lab, tier) for c in registry.F if not c.name.endswith('_u') for lab in (['interior', 'seam'] if tier != 'quick' or c.name[3:] in ('iga', 'abs') else ['interior'])]
    js.sort(key=lambda j: meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'fluxes compared': 60}
def run(j): return gvn.deep(_run, j)
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); nd = c.nd
    L = meta.Model(c, q, 1); U = meta.Model(n + '_u', q, 1); P = meta.Model(n + '_u', q, 1, n_iters_=1)
    N = L.n; nug = 'nug' in c.opts
    c0 = list(meta.mid(N))
    if lab == 'seam': c0 = [0] * nd
    per = lambda pt: tuple(meta.wrap(x, N[i], N[i] - 1) for i, x in enumerate(pt))
    def off(d, x):
        for s in (0, 1, -1):
            y = x - c0[d] + s * (N[d] - 1)
            if isinstance(y, int): return y
        return None
    def leaf(g, nm, k, pt):
        if nm in ('tiny', 'epsilon'): return ZERO
        if len(pt) != nd: return None
        if nm == 'gc0':
            d = k % nd; o = [off(i, x) for i, x in enumerate(pt)]              # face between cells o and o+1 along d
            if any(x is None for x in o) or any(o[i] != 0 for i in range(nd) if i != d) or o[d] not in (-1, 0): return ZERO
            return H('input', nm, k, tuple(o))
        if nm in ('psi0', 'g0'): return meta.base(g, nm, k, per(pt))
        return None
    l, u, p = L.inst(leaf), U.inst(leaf), P.inst(leaf)
    G = lambda pt: leaf(l.g, 'g0', 0, pt) if nug else ONE
    old = lambda pt: leaf(l.g, 'psi0', 0, per(pt))
    memo = {}
    def first(pt):
        pt = per(pt)
        if pt not in memo: memo[pt] = p(0, pt)
        return memo[pt]
    sh = lambda pt, d, s: tuple(x + (s if i == d else 0) for i, x in enumerate(pt))
    near = lambda pt: [pt] + [sh(pt, d, s) for d in range(nd) for s in (1, -1)]
    c0 = tuple(c0); F = {}; Fl = {}
    for d in range(nd):
        for s in (1, -1):
            b = per(sh(c0, d, s))
            F[d, s] = (u(0, b) - first(b)) * G(b)                              # flux into the neighbour
            Fl[d, s] = (l(0, b) - first(b)) * G(b)
    def up(pt, inflow):
        vs = [f(x) for x in near(pt) for f in (old, first)]
        return (gvn.vmax(*vs) - first(pt)) * G(pt) / inflow
    def dn(pt, out):
        vs = [f(x) for x in near(pt) for f in (old, first)]
        return (first(pt) - gvn.vmin(*vs)) * G(pt) / out
    tin = tout = ZERO
    for f in F.values(): tin = tin + gvn.pos(-f); tout = tout + gvn.pos(f)
    for (d, s), f in F.items():
        b = per(sh(c0, d, s))
        into = gvn.vmin(ONE, up(b, gvn.pos(f)), dn(c0, tout))
        outof = gvn.vmin(ONE, dn(b, gvn.pos(-f)), up(c0, tin))
        k = gvn.select(gvn.gt0(f), into, outof); want = f * k
        # the random values of a factor need not be squares (positive); where they are not, the donor cell of the limited flux is a different one
        ln = [i for i in range(gvn.NL) if 'iga' in c.opts or gvn.chi(k).a[i] == 1]
        if not ln: continue
        r.count('fluxes compared'); ok = all(want.a[i] == Fl[d, s].a[i] for i in ln) and f != ZERO
        fn = '' if ok else l.site(0, b)[0]
        r.add(ok, 'limiter|%s' % fn, 'the flux through the %s face of cell %r along axis %d is not limited as flux correction prescribes (value last computed in %s)' % ('upper' if s > 0 else 'lower', c0, d, fn))
    # the cell itself receives what its neighbours give
    tot = ZERO
    for f in Fl.values(): tot = tot + f
    r.add(l(0, c0) * G(c0) == first(c0) * G(c0) - tot, 'limiter|balance', 'the limited fluxes around cell %r do not add up' % (c0,))
    r.count('statements value-numbered', l.g.nev + u.g.nev + p.g.nev); r.sample('%s: %d faces' % (lab, len(F)))
    return r
