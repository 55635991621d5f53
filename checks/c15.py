"""C15 the pressure solvers: the residual they test is the divergence of the velocity they return, and what they add is the gradient of one scalar."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, ONE, HP, H, const, Node, V
from interp import Ev
from c13 import Ref
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program: the field whose extremes decide about convergence, as last tested in a step, must equal cell by cell minus the discrete divergence (times G, divided by G; centred differences, one-sided at walls) of the velocity handed '
        'back after that step; the iteration may stop only if the largest absolute value found does not exceed the tolerance divided by the time step. '
        'The change of velocity by the solver has no discrete curl (it is a gradient divided by the absorber\'s factor). Equality as algebraic expressions of all inputs, for all grid sizes.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)', 'the solver is followed for one iteration (its residual update is the same in each)']
QUICK = {'p2_k2', 'p2_mr', 'p2_cr', 'g2_dns', 'g2_dnn'}
GRAD = {'p2_mr', 'p2_cr', 'p2_gc', 'p3_cr'}                  # no forcing other than pressure: the change of velocity can be followed
TRAP = {'p2_mr', 'p2_cr'}
def jobs(tier):
    js = [(c.name, '', tier) for c in registry.C + registry.NN if not c.mpi and c.fam in ('prs', 'sgs', 'bq') and (tier != 'quick' or c.name in QUICK)]
    js += [('z1_' + n, 'gradient', tier) for n in GRAD if tier != 'quick' or n in QUICK] + [('z1_' + n, 'next step', tier) for n in TRAP]
    for n in TRAP: registry.plain('z1_' + n)
    js.sort(key=lambda j: meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'cells compared': 10}
def run(j): return gvn.deep(_run, j)
TOL = V(tuple(0 if i < gvn.NL // 2 else x for i, x in enumerate(HP('in', ('prs_tol',)).a)))      # zero in half of the lanes: there the iteration goes on
def residual(a):
    """the last reduction to a maximum over the whole domain: function cell -> value of what is reduced"""
    nd = a.m.c.nd; last = None
    for ex, rd in a.p.red.items():
        if ex.a[0] == 'max' and len([x for x in ex.a[3] if not isinstance(x, int)]) == nd: last = ex
    if last is None: return None, None
    op, _, t, sh = last.a
    nod = Node('w', rd={s: a.p.env.get(s) for s in a.p.red[last]},        # as it stands when the solver is done: a join over the number of iterations
               e=Ev('red', '?', (), None, {}, ()), ord=0)
    ref = [None] * nd
    for x in sym.leaves(t):
        if x.op == 'rd':
            for mm in x.a[1]:
                if mm[0] == 'x' and ref[mm[1]] is None: ref[mm[1]] = mm[3]
    return last, lambda pt: a.g.tree(t, tuple(x - o for x, o in zip(pt, ref)), nod, a.p)
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); nd = c.nd
    gvn.GVN.opaque = True                                       # the identities hold whatever the coefficients of the iteration are
    m = meta.Model(c, q, 2 if lab == 'next step' else 1); N = m.n; bcs = c.bcs.split('/')
    def per(pt): return tuple(meta.wrap(x, N[i], N[i] - 1) if bcs[i] == 'cc' else x for i, x in enumerate(pt))
    def leaf(g, nm, k, pt):
        if nm in ('tiny', 'epsilon'): return ZERO
        if nm == 'prs_tol': return TOL
        if len(pt) == nd: return meta.base(g, nm, k, per(pt))
        return None
    a = m.inst(leaf)
    dx = [HP('in', (x,)) for x in ('di', 'dj', 'dk')[:nd]]; dt = HP('in', ('dt',))
    nug = 'nug' in (c.opts or '')
    G = lambda pt: meta.base(a.g, 'g0', 0, per(pt)) if nug else ONE
    mid = meta.mid(N)
    if lab:
        st = {e: next(x[0] for x in a.p.obs if x[2] == e) for e in range(c.ne)}
        def state(name, k=0):
            """the fields when a hook is entered for the k-th time"""
            env = [e for nm, v, e in a.p.marks if nm == name][k]
            return lambda e, pt: a.g.cell(env[cur(env, e)], pt, a.p)
        def cur(env, e): return st[e]
    if lab == 'gradient':
        hat = state('post_step')
        w = lambda d, pt: hat(d, pt) - a(d, pt)
        sh = lambda pt, d, s: tuple(x + (s if i == d else 0) for i, x in enumerate(pt))
        D = lambda d, f, pt: (f(sh(pt, d, 1)) - f(sh(pt, d, -1))) / (const(2) * dx[d])
        for i in range(nd):
            for k in range(i + 1, nd):
                x, y = D(i, lambda p: w(k, p), mid), D(k, lambda p: w(i, p), mid)
                ok = x == y and x != ZERO; r.count('cells compared')
                r.add(ok, 'pressure|gradient', 'what the pressure solver subtracts from the velocity at cell %r is not the gradient of a scalar' % (mid,))
        r.count('statements value-numbered', a.g.nev); r.sample('curl of the correction')
        return r
    if lab == 'next step':
        u0, h1, u1, h2 = state('ante_loop_end'), state('post_step', 0), state('step_end', 0), state('post_step', 1)
        f = lambda u: (lambda d, pt: u(d, per(pt)))
        def flow(nm, d, pt):
            mean = lambda u: (G(pt) * u(d, per(pt)) + G(sh(pt)) * u(d, per(sh(pt)))) / const(2)
            sh = lambda pt: tuple(x + (1 if i == d else 0) for i, x in enumerate(pt))
            return dt / dx[d] * (const(3) / const(2) * mean(u1) - mean(u0) / const(2))
        P = meta.Model(registry.plain(n), q, 1)
        ref = Ref(P, lambda e, pt: const(2) * u1(e, pt) - h1(e, pt) if e < nd else u1(e, pt), flow, lambda nm, k, pt: leaf(a.g, nm, k, pt))
        for e in range(c.ne):
            ok = ref(e, mid) == h2(e, mid); r.count('cells compared')
            r.add(ok, 'pressure|next step', 'equation %d at cell %r: the next step does not start with the pressure gradient (and absorber) that ended the previous one' % (e, mid))
        r.count('statements value-numbered', a.g.nev); r.sample('second step')
        return r
    ex, err = residual(a)
    if err is None: r.add(False, 'pressure|residual', 'no maximum over the domain is taken by the pressure solver'); return r
    memo = {}
    def u(d, pt):
        k = (d, pt)
        if k not in memo: memo[k] = G(pt) * a(d, pt)
        return memo[k]
    def der(d, pt):
        sh = lambda s: per(tuple(x + (s if i == d else 0) for i, x in enumerate(pt)))
        if bcs[d] != 'cc' and pt[d] == 0: return (u(d, sh(1)) - u(d, pt)) / dx[d]
        if bcs[d] != 'cc' and pt[d] == N[d] - 1: return (u(d, pt) - u(d, sh(-1))) / dx[d]
        return (u(d, sh(1)) - u(d, sh(-1))) / (const(2) * dx[d])
    pts = [mid]
    for d in range(nd):
        for x in (0, 1, N[d] - 1) if tier != 'quick' else (0,) if d == nd - 1 else (): pts.append(tuple(x if i == d else y for i, y in enumerate(mid)))
    absred = False
    for pt in pts:
        div = ZERO
        for d in range(nd): div = div + der(d, pt)
        e = err(pt); ok = e == -div / G(pt) or e == div / G(pt) or e == gvn.vabs(div / G(pt)); r.count('cells compared')
        if e not in (div / G(pt), -div / G(pt)) and ok: absred = True
        r.add(ok, 'pressure|residual', 'at cell %r the residual of %s tested last is not the divergence of the velocity handed back' % (pt, 'the pressure solver'))
    # the decision to stop
    tol = TOL / dt
    big = [e_ for e_ in a.p.red if e_.a[0] in ('max', 'min') and len([x for x in e_.a[3] if not isinstance(x, int)]) == nd]
    val = [(e_.a[0], a.g.reduction(e_, a.p, None)) for e_ in big]
    ref = set(); part = {}
    def both(s_, x): s_ = s_ if isinstance(s_, set) else part.setdefault(s_, set()); s_.add(gvn.gt0(x - tol).a); s_.add((ONE - gvn.gt0(x - tol)).a); s_.add(gvn.gt0(tol - x).a); s_.add((ONE - gvn.gt0(tol - x)).a)
    for (o1, v1), (o2, v2) in zip(val, val[1:]):
        if o1 == o2: continue
        # the largest magnitude from the largest and the smallest value (the latter does not exceed the former)
        mx, mn = (v1, v2) if o1 == 'max' else (v2, v1)
        for x, y in ((gvn.vabs(mx), gvn.vabs(mn)), (mx, -mn)):
            both(ref, gvn.vmax(x, y))
            both(ref, gvn.vmax(gvn.vmax(x, y), ZERO))
            ref.add(((ONE - gvn.gt0(x - tol)) * (ONE - gvn.gt0(y - tol))).a); ref.add((ONE - (ONE - gvn.gt0(x - tol)) * (ONE - gvn.gt0(y - tol))).a)
            both('max', x); both('min', y)
            m = gvn.vmax(x, y); z = gvn.select(gvn.gt0(ZERO - m), ZERO, m); both(ref, z)
    for o_, v_ in val:
        if absred and o_ == 'max': both(ref, v_)
    k = 0; npart = {'max': 0, 'min': 0}
    for cnd in a.p.conds:
        if not any(z.op == 'in' and z.a[0] == 'prs_tol' for z in gvn.exprs(cnd)): continue
        k += 1; v = gvn.truth(a.g.tree(cnd, (), None, a.p)); r.count('stopping decisions')
        pt_ = [o_ for o_ in part if v.a in part[o_]]
        if v.a not in ref and len(pt_) == 1: npart[pt_[0]] += 1; continue
        r.add(v.a in ref, 'pressure|stopping criterion', 'the iteration is not stopped by comparing the largest absolute residual with prs_tol / dt')
    if any(npart.values()): r.add(npart['max'] == npart['min'], 'pressure|stopping criterion', 'the iteration is stopped by comparing only one of the largest and the smallest residual with prs_tol / dt')
    r.add(k > 0, 'pressure|stopping criterion', 'no decision of the pressure solver depends on prs_tol')
    r.count('statements value-numbered', a.g.nev)
    r.sample('residual reduced at %s' % (getattr(ex, 'loc', None) or 'the last global maximum'))
    return r
