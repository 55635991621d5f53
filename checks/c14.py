"""C14 solvers that carry their own velocity advect with it: time-extrapolated to the middle of the step, averaged to the faces, and absorbed towards the prescribed state as documented."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, ONE, HP, H, const
from c13 import Ref, tiny
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program compared with its specification composed from the advection-only program: Courant numbers dt/dx * face average of (1+b) u(n) - b u(n-1), b = dt/(2 dt(n-1)) (0 in the first step), times the G factor if there is one, '
        'and their time differences for the third-order divergent-flow terms; velocity = momentum / thickness (0 where the thickness does not exceed the threshold) for the shallow-water solver, whose source is -g h grad h; '
        'absorber: explicit (forward step), implicit (trapezoidal with exact division), none. All fields after each step must be equal as algebraic expressions, for all grid sizes.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)', 'the constants that keep denominators away from zero count as zero', 'two steps (one in three dimensions, three for the third-order terms in the thorough tier); corners of open boundaries are left out']
def jobs(tier):
    cs = [c for c in registry.C + registry.NN if c.fam in ('vip', 'sw') and not c.mpi]
    for c in cs: registry.plain(c.name)
    js = [(c.name, '', tier) for c in cs]
    js.sort(key=lambda j: meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'cells compared': 60}
def run(j): return gvn.deep(_run, j)
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); nd = c.nd
    gvn.GVN.split = ('q0',)
    div3 = 'div_3rd' in (c.opts or '')
    nt = 1 if nd == 3 else 3 if div3 and tier != 'quick' else 2
    m = meta.Model(c, q, nt); P = meta.Model(registry.plain(n), q, 1)
    bcs = c.bcs.split('/'); N = m.n; sw = c.fam == 'sw'
    def into(pt):
        """the cell whose value a halo cell carries"""
        out = []
        for d, x in enumerate(pt):
            if bcs[d] == 'cc':
                x = meta.wrap(x, N[d], N[d] - 1)
                if x is None: raise gvn.Undecided('position')
            elif gvn.le(x, -1): x = 0 if bcs[d] == 'oo' else -x
            elif gvn.le(N[d], x): x = N[d] - 1 if bcs[d] == 'oo' else 2 * (N[d] - 1) - x
            out.append(x)
        return tuple(out)
    def inp(g, nm, k, pt):
        if len(pt) == nd and nm in ('psi0', 'g0', 'vab0', 'relax0'): return meta.base(g, nm, k, into(pt))
        return tiny(nm)
    a = m.inst(inp)
    B = lambda nm, k, pt: meta.base(a.g, nm, k, into(pt))
    dt = HP('in', ('dt',)); half = dt / const(2); dx = [HP('in', (x,)) for x in ('di', 'dj', 'dk')[:nd]]
    nug = 'nug' in (c.opts or ''); vab = 'expl' if 'expl' in c.ct else 'impl' if 'vip_vab = solvers::impl' in c.ct else None
    sh = lambda pt, d, s: tuple(x + (s if i == d else 0) for i, x in enumerate(pt))
    G = lambda pt: B('g0', 0, into(pt)) if nug else ONE
    eps = HP('in', ('vip_eps',)) if 'vip_eps' in sym.POSITIVE else H('in', ('vip_eps',))
    grav = HP('in', ('g',)) if 'g' in sym.POSITIVE else H('in', ('g',))
    def vel(st):
        def f(d, pt):
            pt = into(pt)
            if not sw: return st(d, pt)
            h = st(nd, pt)
            return gvn.select(gvn.gt0(h - eps), st(d, pt) / h, ZERO)
        return f
    def face(d, pt, f):
        """dt/dx times the average of f(cell) over the two cells of a face"""
        p2 = sh(pt, d, 1)
        return dt / dx[d] * (G(pt) * f(d, pt) + G(p2) * f(d, p2)) / const(2)
    def relax(st):
        """absorber: rate of change of a velocity"""
        return lambda d, pt: -B('vab0', 0, pt) * (st(d, pt) - B('relax0', d, pt))
    hist = []                                                 # velocities at the beginning of earlier steps
    st = lambda e, pt: B('psi0', e, pt); st0 = st
    for s in range(nt):
        u = vel(st); hist.append(u)
        mid = u if s == 0 else (lambda d, pt, u=u, v=hist[-2]: const(3) / const(2) * u(d, pt) - v(d, pt) / const(2))
        def flow(nm, d, pt, s=s, mid=mid, h=list(hist)):
            if nm in ('gc0',): return face(d, pt, mid)
            if nm == 'gc': return face(d, pt, mid) / dt        # (the plain program multiplies by dt)
            if nm == 'ndt': return ZERO if s < 1 else face(d, pt, lambda e, p: h[-1](e, p) - h[-2](e, p))
            return ZERO if s < 2 else face(d, pt, lambda e, p: h[-1](e, p) - const(2) * h[-2](e, p) + h[-3](e, p))
        # sources at the beginning of the step
        if sw:
            def R(st):
                def f(e, pt):
                    if e == nd: return ZERO
                    return -grav * st(nd, pt) * (st(nd, into(sh(pt, e, 1))) - st(nd, into(sh(pt, e, -1)))) / (const(2) * dx[e])
                return f
            Rn = R(st if s == 0 else x)                       # the source stored at the end of the previous step
            y = lambda e, pt, st=st, Rn=Rn: st(e, pt) + half * Rn(e, pt)
            x = Ref(P, y, flow, lambda nm, k, pt: inp(a.g, nm, k, pt))
            st = lambda e, pt, x=x, Rn=R(x): x(e, pt) + half * Rn(e, pt)
            memo = {}
            def st(e, pt, x=x, Rn=R(x), memo=memo):
                k = (e, pt)
                if k not in memo: memo[k] = x(e, pt) + half * Rn(e, pt)
                return memo[k]
            continue
        if vab: w = relax(st); f = dt if vab == 'expl' else half
        y = (lambda e, pt, st=st, w=w, f=f: st(e, pt) + (f * w(e, pt) if e < nd else ZERO)) if vab else st
        x = Ref(P, y, flow, lambda nm, k, pt: inp(a.g, nm, k, pt))
        if vab == 'impl':
            def st(e, pt, x=x):
                if e >= nd: return x(e, pt)
                k = half * B('vab0', 0, pt)
                return (x(e, pt) + k * B('relax0', e, pt)) / (ONE + k)
        else: st = x
    mid = meta.mid(N); pts = [mid]
    for d in range(nd):                                        # beyond other boundaries the carried velocity is continued differently from a prescribed one
        if bcs[d] == 'cc': pts += [tuple(x if i == d else y for i, y in enumerate(mid)) for x in (0, N[d] - 1)]
    for pt in pts:
        for e in range(c.ne):
            ok = a(e, pt) == st(e, pt); r.count('cells compared')
            fn = '' if ok else a.site(e, pt)[0]
            r.add(ok, 'velocity|%s' % fn, 'equation %d at cell %r after %d steps is not what advection by the carried velocity gives (value last computed in %s)' % (e, pt, nt, fn))
    r.count('statements value-numbered', a.g.nev); r.sample('%d steps%s' % (nt, ', absorber ' + vab if vab else ''))
    return r
