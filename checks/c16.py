"""C16 buoyancy, heating and absorbers are integrated by the trapezoidal rule together with the pressure."""
from framework import *
import gvn, sym, meta, re
from gvn import ZERO, ONE, HP, H, const
from c13 import Ref
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program, the state being seen when the final hook of a step is entered (x^, after advection) and when the step has ended (x1): '
        '(u1 - u^)/(dt/2) minus the forces evaluated with the state at the end of the step has no discrete curl (what is left is a pressure gradient), the temperature satisfies theta1 = theta^ + dt/2 Q(theta1, w1) cell by cell, '
        'and the next step advects 2 x1 - x^ (plus the explicit absorber) with the velocity extrapolated to the middle of the step. Forces: buoyancy g theta/Tht_ref (of theta - tht_e, optionally filtered 1-2-1 in the vertical, '
        'where theta is the full temperature), absorber alpha (u_r - u); Q: - w d tht_e/dz (perturbation form), heat source, relaxation. Equality as algebraic expressions of all inputs, for all grid sizes.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)', 'the pressure solver is followed for one iteration']
CASES = [c.name for c in registry.NQ]
QUICK = {'q2_im', 'q2_ex', 'q2_fi', 'q2_ab', 'q2_ae'}
def jobs(tier):
    js = []
    for n in CASES:
        if tier == 'quick' and n not in QUICK: js.append(('z1_' + n, 'forces', tier)); continue
        js += [('z1_' + n, 'forces', tier), ('z1_' + n, 'next step', tier)]
        registry.plain('z1_' + n)
    js.sort(key=lambda j: (registry.BY[j[0]].nd, j[1]), reverse=True)
    return js
def floors(tier): return {'cells compared': 20}
def run(j): return gvn.deep(_run, j)
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); nd = c.nd
    gvn.GVN.opaque = True
    m = meta.Model(c, q, 2 if lab == 'next step' else 1); N = m.n; bcs = c.bcs.split('/')
    def per(pt): return tuple(meta.wrap(x, N[i], N[i] - 1) if bcs[i] == 'cc' else x for i, x in enumerate(pt))
    def leaf(g, nm, k, pt):
        if nm in ('tiny', 'epsilon'): return ZERO
        if len(pt) == nd: return meta.base(g, nm, k, per(pt))
        return None
    a = m.inst(leaf)
    dx = [HP('in', (x,)) for x in ('di', 'dj', 'dk')[:nd]]; dt = HP('in', ('dt',)); half = dt / const(2)
    nug = 'nug' in (c.opts or '')
    inp = lambda nm, pt, k=0: meta.base(a.g, nm, k, per(pt))
    G = lambda pt: inp('g0', pt) if nug else ONE
    mid = meta.mid(N)
    st = {e: next(x[0] for x in a.p.obs if x[2] == e) for e in range(c.ne)}
    def state(name, k=0):
        env = [e for nm, v, e in a.p.marks if nm == name][k]; memo = {}
        def f(e, pt):
            key = (e, pt)
            if key not in memo: memo[key] = a.g.cell(env[st[e]], per(pt), a.p)
            return memo[key]
        return f
    bq = c.fam == 'bq'; has = lambda nm, v: re.search(r'\b%s\b\W+(\w+::)*%s\b' % (nm, v), c.ct) is not None
    impl = has('impl_tht', 'true'); filt = 'buoy_filter' in c.kw.get('rtp', '')
    vab = 'impl' if has('vip_vab', 'impl') else 'expl' if has('vip_vab', 'expl') else ''
    sh = lambda pt, d, s: tuple(x + (s if i == d else 0) for i, x in enumerate(pt))
    V_ = nd - 1; TH = nd
    g_, T0 = HP('in', ('g',)), HP('in', ('Tht_ref',))
    the = lambda pt: inp('tht_e', pt); tab = lambda pt: inp('tht_abs', pt); hfl = lambda pt: inp('hflux_frc', pt)
    def absorb(u, d, pt): return inp('vab0', pt) * (inp('relax0', pt, d) - u(d, pt))
    def buoy(u, pt):
        b = lambda p: g_ * (u(TH, p) - (ZERO if impl else the(p))) / T0
        if not filt: return b(pt)
        return (b(sh(pt, V_, 1)) + const(2) * b(pt) + b(sh(pt, V_, -1))) / const(4)
    def force(u, d, pt):
        f = ZERO
        if bq and d == V_: f = f + buoy(u, pt)
        if vab == 'impl': f = f + absorb(u, d, pt)
        return f
    def heat(u, pt):
        if impl: return hfl(pt) - u(V_, pt) * (the(sh(pt, V_, 1)) - the(sh(pt, V_, -1))) / (const(2) * dx[V_]) - tab(pt) * u(TH, pt)
        return hfl(pt) - tab(pt) * (u(TH, pt) - the(pt))
    if lab == 'forces':
        hat, one = state('post_step'), state('step_end')
        R = lambda d: (lambda p: (one(d, p) - hat(d, p)) / half - force(one, d, p))
        D = lambda d, f, pt: (f(sh(pt, d, 1)) - f(sh(pt, d, -1))) / (const(2) * dx[d])
        for i in range(nd):
            for k in range(i + 1, nd):
                x, y = D(i, R(k), mid), D(k, R(i), mid); r.count('cells compared')
                r.add(x == y and x != ZERO, 'forces|velocity', 'what is added to the velocity at cell %r over the second half of a step is not half a time step times the forces at its end and a pressure gradient' % (mid,))
        if bq:
            pts = [mid] + ([sh(mid, 0, 1)] if tier != 'quick' else [])
            for pt in pts:
                ok = one(TH, pt) == hat(TH, pt) + half * heat(one, pt); r.count('cells compared')
                r.add(ok, 'forces|temperature', 'the temperature at cell %r is not advanced by half a time step times its sources at the end of the step' % (pt,))
        else:
            for e in range(nd, c.ne):
                ok = one(e, mid) == hat(e, mid); r.count('cells compared')
                r.add(ok, 'forces|passive', 'equation %d at cell %r is changed though it has no sources' % (e, mid))
        # the force at the beginning of the first step is not fixed here (the first guess of the pressure is arbitrary), but it is that of the state at hand
        r.count('statements value-numbered', a.g.nev); r.sample('forces %s' % ('buoyancy' if bq else '') + vab)
        return r
    u0, h1, u1, h2 = state('ante_loop_end'), state('post_step', 0), state('step_end', 0), state('post_step', 1)
    def start(e, pt):
        x = const(2) * u1(e, pt) - h1(e, pt)
        if e < nd and vab == 'expl': x = x + dt * absorb(u1, e, pt)
        return x
    def flow(nm, d, pt):
        mean = lambda u: (G(pt) * u(d, per(pt)) + G(sh(pt, d, 1)) * u(d, per(sh(pt, d, 1)))) / const(2)
        return dt / dx[d] * (const(3) / const(2) * mean(u1) - mean(u0) / const(2))
    P = meta.Model(registry.plain(n), q, 1)
    ref = Ref(P, start, flow, lambda nm, k, pt: leaf(a.g, nm, k, pt))
    for e in range(c.ne):
        ok = ref(e, mid) == h2(e, mid); r.count('cells compared')
        r.add(ok, 'forces|next step', 'equation %d at cell %r: the next step does not start with the forces that ended the previous one' % (e, mid))
    r.count('statements value-numbered', a.g.nev); r.sample('second step')
    return r
