"""C21 the subgrid force is the divergence of viscosity times deformation."""
from framework import *
import gvn, sym, meta, re, itertools
from gvn import ZERO, ONE, HP, H, const, ext, vmax
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program, the state being seen on both sides of the start of the first step: what is added to each velocity component, less what is added by the same program with zero viscosity, '
        'is one time step times the reference force, the divergence of tau = 2 nu (symmetric gradient of the velocity) on the staggered (compact) or centred grid, with the constant viscosity (dns) or the '
        'Smagorinsky viscosity (c delta)^2 |D| (isotropic or separate horizontal and vertical; times sqrt(1 - Ri/Pr) with buoyancy), periodic along cyclic directions, no tangential stress on rigid walls, the drag law at the ground. '
        'With buoyancy the temperature changes over the second half of the step by the divergence of the subgrid heat flux. Equality as algebraic expressions of all inputs, for all grid sizes.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)', 'the pressure solver is followed for one iteration']
CASES = [c.name for c in registry.ZS]
QUICK = {'zs_' + x for x in ('n2_dns', 'g2_dnn', 'n2_dnp', 'n2_smg', 'n2_sma', 'g2_smn', 'n2_bsm', 'n2_bsa', 'n2_bse', 'g3_dns', 'n2_dng', 'n3_smg', 'b3_smg')}
def jobs(tier):
    js = []
    for n in CASES:
        if tier == 'quick' and n not in QUICK: continue
        js.append((n, 'force', tier))
        if registry.BY[n].fam == 'bq' and (registry.BY[n].nd < 3 or tier != 'quick'): js.append((n, 'heat', tier))
    js.sort(key=lambda j: (registry.BY[j[0]].nd, j[1]), reverse=True)
    return js
def floors(tier): return {'cells compared': 30}
def run(j): return gvn.deep(_run, j)
SQ = lambda x: x * x
def gsqrt(x): return gvn.V(tuple([pow(y, (gvn.PR + 1) // 4, gvn.PR) for y in x.a]))
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); nd = c.nd
    gvn.GVN.opaque = True
    m = meta.Model(c, q, 1); N = m.n; bcs = c.bcs.split('/')
    def per(pt): return tuple(meta.wrap(x, N[i], N[i] - 1) if bcs[i] == 'cc' else x for i, x in enumerate(pt))
    def leaf(g, nm, k, pt):
        if nm in ('tiny', 'epsilon'): return ZERO
        if len(pt) == nd: return meta.base(g, nm, k, per(pt))
        return None
    def calm(g, nm, k, pt):
        if nm in ('eta', 'smg_c', 'cdrag'): return ZERO
        return leaf(g, nm, k, pt)
    a = m.inst(leaf)
    dx = [HP('in', (x,)) for x in ('di', 'dj', 'dk')[:nd]]; dt = HP('in', ('dt',)); half = dt / const(2)
    nug = 'nug' in (c.opts or '')
    inp = lambda nm, pt, k=0: meta.base(a.g, nm, k, per(pt))
    has = lambda nm, v: re.search(r'\b%s\b\W+(\w+::)*%s\b' % (nm, v), c.ct) is not None
    cmp_, pade = has('stress_diff', 'compact'), has('stress_diff', 'pade')
    sg = next(x for x in ('dns', 'smgani', 'smg') if has('sgs_scheme', x))
    bq = c.fam == 'bq'; TH = nd; Z = nd - 1
    st = {e: next(x[0] for x in a.p.obs if x[2] == e) for e in range(c.ne)}
    def state(b, name):
        env = next(e for nm, v, e in b.p.marks if nm == name); memo = {}
        stb = {e: next(x[0] for x in b.p.obs if x[2] == e) for e in range(c.ne)}
        def f(e, pt):
            pt = per(pt); key = (e, pt)
            if key not in memo: memo[key] = b.g.cell(env[stb[e]], pt, b.p)
            return memo[key]
        return f
    u = state(a, 'ante_step')
    def sh(pt, d, s=1): return tuple(x + (s if i == d else 0) for i, x in enumerate(pt))
    G = lambda pt: inp('g0', mir(pt)) if nug else ONE
    # positions: a point of the grid, a face or an edge is named by its lower corner; the walls of direction i are at 0 and N[i]-1
    wall = [b != 'cc' for b in bcs]
    def ground(i): return bcs[i][0] == 'g'
    def same(x, y): return repr(x - y) == '0'
    def mir(pt):
        res = []
        for i, x in enumerate(pt):
            if wall[i]:
                if same(x, -1): x = 1
                elif same(x, N[i]): x = N[i] - 2
            res.append(x)
        return tuple(res)
    memo = {}
    def once(f):
        def g(*k):
            key = (f.__name__,) + k
            if key not in memo: memo[key] = f(*k)
            return memo[key]
        return g
    @once
    def rdiv(pt):            # -w dln(rho)/dz half a level above pt
        if not nug: return ZERO
        if wall[Z]:
            if same(pt[Z], -1): return const(2) * rdiv(sh(pt, Z, 1)) - rdiv(sh(pt, Z, 2))
            if same(pt[Z], N[Z] - 1): return const(2) * rdiv(sh(pt, Z, -1)) - rdiv(sh(pt, Z, -2))
        q_ = sh(pt, Z)
        return -(u(Z, q_) + u(Z, pt)) * (G(q_) - G(pt)) / (dx[Z] * (G(q_) + G(pt)))
    @once
    def diag(d, pt):         # twice the strain along d, at the face above pt
        q_ = sh(pt, d)
        v = rdiv(pt) if d == Z else (rdiv(pt) + rdiv(sh(pt, Z, -1)) + rdiv(q_) + rdiv(sh(q_, Z, -1))) / const(4)
        return const(2) * ((u(d, q_) - u(d, pt)) / dx[d] - v / const(nd))
    @once
    def shear(i, k, pt):
        pi, pk, pik = sh(pt, i), sh(pt, k), sh(sh(pt, i), k)
        return ((u(i, pk) - u(i, pt) + u(i, pik) - u(i, pi)) / dx[k] + (u(k, pi) - u(k, pt) + u(k, pik) - u(k, pk)) / dx[i]) / const(2)
    cd = HP('in', ('cdrag',)); cs = HP('in', ('smg_c',)); eta = HP('in', ('eta',))
    def drag(i, pt):         # surface stress between pt and pt + e_i
        pt = tuple(0 if k == Z else x for k, x in enumerate(pt)); q_ = sh(pt, i)
        if sg == 'dns': return ZERO
        s = [u(k, pt) + u(k, q_) for k in range(Z)]
        return cd / const(8) * (gvn.vabs(s[0]) if nd == 2 else gsqrt(SQ(s[0]) + SQ(s[1]))) * s[i] * (G(pt) + G(q_))
    def lo(i, pt): return wall[i] and same(pt[i], -1)
    def hi(i, pt): return wall[i] and same(pt[i], N[i] - 1)
    # deformation with its continuation beyond walls (before multiplication by the viscosity)
    @once
    def D(i, k, pt):
        if i == k:
            if lo(i, pt):
                return const(2) * D(i, i, sh(pt, i, 1)) - D(i, i, sh(pt, i, 2))
            if hi(i, pt): return const(2) * D(i, i, sh(pt, i, -1)) - D(i, i, sh(pt, i, -2))
            return diag(i, pt)
        for x, y in ((i, k), (k, i)):
            if lo(x, pt): return (const(2) * drag(y, pt) if x == Z and ground(x) else ZERO) - D(i, k, sh(pt, x, 1))
            if hi(x, pt): return -D(i, k, sh(pt, x, -1))
        return shear(i, k, pt)
    @once
    def strain2(pt):
        av, mx = ZERO, ZERO
        if not cmp_:
            for i in range(nd):
                av = av + SQ(Dn(i, i, pt)) / const(2)
                for k in range(i + 1, nd): av = av + SQ(Dn(i, k, pt))
            return av
        for i in range(nd):
            x = [SQ(D(i, i, pt)), SQ(D(i, i, sh(pt, i, -1)))]
            av = av + x[0] + x[1]; mx = mx + vmax(*x)
            for k in range(i + 1, nd):
                x = [SQ(D(i, k, sh(sh(pt, i, s), k, t))) for s in (0, -1) for t in (0, -1)]
                for y in x: av = av + y
                mx = mx + const(2) * vmax(*x)
        return av / const(8) + mx / const(4)
    def delta():
        t = ZERO
        for x in dx: t = t + x
        return t / const(3)
    def theta(pt): return (u(TH, pt) + inp('tht_e', pt)) if has('impl_tht', 'true') else u(TH, pt)
    def dth(d, pt): return (theta(sh(pt, d)) - theta(pt)) / dx[d]
    Pr = HP('in', ('prandtl_num',))
    @once
    def visc(w, pt):         # eddy viscosity at a grid point; w: 0 horizontal, 1 vertical
        pt = mir(pt)
        if bq:
            if wall[Z] and same(pt[Z], 0): return visc(w, sh(pt, Z, 1))
            S2 = strain2(pt)
            ri = HP('in', ('g',)) * (grd(Z, pt) + grd(Z, sh(pt, Z, -1))) / const(2) / (HP('in', ('Tht_ref',)) * S2)
            l = inp('mix_len' if sg == 'smg' else ('mix_len_h', 'mix_len_v')[w], pt)
            return gvn.select(gvn.gt0(ONE - ri / Pr), SQ(cs * l) * gsqrt(S2 * (ONE - ri / Pr)), ZERO)
        if sg == 'smg': l = delta()
        elif w: l = dx[Z]
        else:
            l = ZERO
            for x in dx[:-1]: l = l + x
            l = l / const(nd - 1)
        return SQ(cs * l) * gsqrt(strain2(pt))
    def grd(d, pt):          # temperature gradient at the face above pt, continued evenly beyond walls
        return dthm(d, pt)
    def dthm(d, pt):
        f = lambda p: theta(per(mir(p)))
        if wall[d]:
            if same(pt[d], -1): return (f(sh(pt, d)) - (const(2) * f(sh(pt, d)) - f(sh(pt, d, 2)))) / dx[d]
            if same(pt[d], N[d] - 1): return (const(2) * f(pt) - f(sh(pt, d, -1)) - f(pt)) / dx[d]
        return (f(sh(pt, d)) - f(pt)) / dx[d]
    def mean(f, ps):
        t = ZERO
        for p in ps: t = t + f(p)
        return t / const(len(ps))
    def mul(x, w, ps):
        return x * eta if sg == 'dns' else x * mean(lambda p: visc(w, p), ps) * mean(G, ps)
    @once
    def tau(i, k, pt):
        if i == k:
            return mul(D(i, i, pt), 0, [pt, sh(pt, i)])
        for x, y in ((i, k), (k, i)):
            if lo(x, pt): return (const(2) * drag(y, pt) if x == Z and ground(x) else ZERO) - tau(i, k, sh(pt, x, 1))
            if hi(x, pt): return -tau(i, k, sh(pt, x, -1))
        return mul(shear(i, k, pt), 1 if Z in (i, k) else 0, [pt, sh(pt, i), sh(pt, k), sh(sh(pt, i), k)])
    # centred differences on the unstaggered grid
    def cen(f, d, pt): return (f(mir(sh(pt, d, 1))) - f(mir(sh(pt, d, -1)))) / (const(2) * dx[d])
    @once
    def der(key, d, pt):
        f = fields[key]; g = lambda p: cen(f, d, p)
        if not pade: return g(pt)
        return smooth(key, d, 3, pt)
    @once
    def smooth(key, d, k, pt):
        g = cen(fields[key], d, pt)
        if k == 0: return g
        w = lambda p: smooth(key, d, k - 1, mir(p))
        return w(pt) + g - (w(sh(pt, d, 1)) + const(2) * w(pt) + w(sh(pt, d, -1))) / const(4)
    fields = {('u', i): (lambda p, i=i: u(i, p)) for i in range(nd)}
    for i in range(nd):
        for k in range(nd): fields[('t', i, k)] = lambda p, i=i, k=k: taun(min(i, k), max(i, k), p)
    @once
    def Dn(i, k, pt): return der(('u', i), k, pt) + der(('u', k), i, pt)
    def taun(i, k, pt): return Dn(i, k, pt) * (eta if sg == 'dns' else SQ(cs * delta()) * gsqrt(strain2(pt)))
    def force(d, pt):
        t = ZERO
        if not cmp_:
            for k in range(nd): t = t + der(('t', d, k), k, pt)
            return t
        for k in range(nd):
            if k == d: t = t + (tau(d, d, pt) - tau(d, d, sh(pt, d, -1))) / dx[d]
            else: t = t + (tau(d, k, pt) - tau(d, k, sh(pt, k, -1)) + tau(d, k, sh(pt, d, -1)) - tau(d, k, sh(sh(pt, d, -1), k, -1))) / (const(2) * dx[k])
        return t / G(pt)
    mid = meta.mid(N); pts = [('inside', mid)]
    for i in range(nd):
        if wall[i]:
            pts += [('at the lower wall', tuple(0 if k == i else x for k, x in enumerate(mid))), ('at the upper wall', tuple(N[i] - 1 if k == i else x for k, x in enumerate(mid)))]
        elif tier != 'quick' or i == 0: pts.append(('at the periodic seam', tuple(0 if k == i else x for k, x in enumerate(mid))))
    if lab == 'force':
        b = m.inst(calm); fa, fb = state(a, 'ante_step_end'), state(b, 'ante_step_end'); ub = state(b, 'ante_step')
        for what, pt in pts:
            for d in range(nd):
                if u(d, pt) != ub(d, pt): r.notes.append('state before the step depends on the viscosity'); continue
                x = (fa(d, pt) - fb(d, pt)) / dt; y = force(d, pt); r.count('cells compared')
                r.add(x == y and (x != ZERO or what != 'inside'), 'stress|%s' % what, 'velocity component %d %s, cell %r: what the subgrid model adds at the start of a step is not one time step times the divergence of the stress' % (d, what, pt))
    else:
        def hf(d, pt):       # heat flux through the face above pt
            if lo(d, pt): return (const(2) * -H('in', ('hflux',)) * G(sh(pt, d, 1)) if ground(d) else ZERO) - hf(d, sh(pt, d, 1))
            if hi(d, pt): return -hf(d, sh(pt, d, -1))
            return mul(dthm(d, pt), 1 if d == Z else 0, [pt, sh(pt, d)]) / Pr
        hat, one = state(a, 'post_step'), state(a, 'step_end')
        impl = has('impl_tht', 'true')
        for what, pt in pts:
            h = ZERO
            for d in range(nd): h = h + (hf(d, pt) - hf(d, sh(pt, d, -1))) / dx[d]
            h = h / G(pt); the = lambda p: inp('tht_e', p); tab = inp('tht_abs', pt)
            if impl:
                if what.endswith('wall'): continue
                Q = h - one(Z, pt) * (the(sh(pt, Z, 1)) - the(sh(pt, Z, -1))) / (const(2) * dx[Z]) - tab * one(TH, pt)
            else: Q = h - tab * (one(TH, pt) - the(pt))
            x = one(TH, pt) - hat(TH, pt); r.count('cells compared')
            r.add(x == half * Q, 'heat|%s' % what, 'temperature %s, cell %r: its change over the second half of a step is not that of the divergence of the subgrid heat flux and the other sources' % (what, pt))
    r.count('statements value-numbered', a.g.nev); r.sample('%s %s' % (sg, lab))
    return r
