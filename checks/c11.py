"""C11 formal order of accuracy of one advection step for smooth fields."""
from framework import *
import gvn, sym, meta, taylor
from fractions import Fraction as Fr
from gvn import W, ZERO, ONE, H, HP, const
from taylor import MP
LEVEL = 'other'
RULE = ('Truncation-error analysis: the interpreted program is evaluated with all inputs (initial field, Courant numbers, G factor) replaced by smooth polynomials in space and time with random coefficients, as power series in the '
        'grid spacing, and compared with the Taylor expansion of the exact solution of d(G psi)/dt + div(G u psi) = 0 over one step. Every coefficient below the order promised for the option set must vanish.')
ASSUME = ['coefficients are compared by random interpretation in a prime field (collision probability below 2^-50)',
          'fields are smooth, psi positive, and limiters do not apply (cases without fct): the order is the formal one',
          'the cell examined is a generic interior cell of an arbitrarily large grid (boundary treatment is the subject of other properties)']
# (option set, flow, iterations) -> least power of the spacing at which the one-step error may start
def expect(c, flow, it):
    o = set((c.opts or '').split('|')); o = {x.strip().split('::')[-1] for x in o}
    if it == 1: return 2                                           # donor cell: first order
    third = {'div_2nd', 'div_3rd'} <= o or {'div_2nd', 'div_3rd_dt'} <= o
    if 'fot' in o and flow == 'const': return 5 if c.nd == 2 else 4  # fourth-order terms exist in two dimensions only
    if third: return 4
    if 'div_2nd' in o or 'dfl' in o: return 3
    if flow == 'div': return 2                                     # the basic scheme assumes a (nearly) solenoidal flow
    if 'tot' in o and flow == 'const' and ('iga' in o or it > 2): return 4
    return 3
SP = {'exact': [(Fr(1, 2), 1)], 'aver2': [(0, Fr(1, 2)), (1, Fr(1, 2))], 'aver4': [(-1, Fr(-1, 12)), (0, Fr(7, 12)), (1, Fr(7, 12)), (2, Fr(-1, 12))]}
TP = {'mid': {}, 'ext': {'gc': [(0, Fr(3, 2)), (-1, Fr(-1, 2))], 'ndt': [(0, 1), (-1, -1)], 'ndtt': [(0, 1), (-1, -2), (-2, 1)]}}
def plans(tier):
    for c in registry.X:
        o = c.opts or ''; n = c.name
        sp = 'aver2' if n.endswith('d3s') else 'aver4' if n.endswith('d3q') else 'exact'
        tp = 'ext' if n.endswith('d3l') else 'mid'
        its = (2,) if 'iga' in o or n[3:] not in ('bas', 'tot', 'abs') else (1, 2, 3)
        div = 'dfl' in o or 'div_' in o
        for it in its:
            for flow, t in [('const', False), ('nondiv', False)] + ([('div', False)] if div else []) + ([('div', True)] if 'div_' in o else []):
                if tier == 'quick' and c.nd == 3 and (flow == 'const' or it != 2): continue
                yield c, flow, t, it, sp, tp
def jobs(tier):
    js = {}
    for c, flow, t, it, sp, tp in plans(tier): js.setdefault(c.name, []).append((flow, t, it, sp, tp))
    l = [(n, '', tier, tuple(p)) for n, p in js.items()]
    l.sort(key=lambda j: -registry.BY[j[0]].nd * len(j[3]))
    return l
def floors(tier): return {'orders established': 90}
def run(j): return gvn.deep(_run, j)
def smooth(c, flow, tim):
    nd = c.nd
    psi = MP.random(nd, 'psi', True)
    if flow == 'const': F = [MP(nd, {(0,) * (nd + 1): H('u', d)}) for d in range(nd)]
    elif flow == 'nondiv': F = taylor.stream(nd, 's', tim)
    else: F = [MP.random(nd, ('u', d), time=tim) for d in range(nd)]
    G = None
    if 'nug' in (c.opts or ''): G = MP(nd, {(0,) * (nd + 1): HP('G')}) if flow == 'const' else MP.random(nd, 'G', True)
    return psi, F, G
def leafs(c, mid, psi, F, G, sp, tp):
    nd = c.nd
    def leaf(g, n, k, pt):
        off = [x - y for x, y in zip(pt, mid)]
        if n in ('tiny', 'epsilon'): return ZERO
        if n == 'psi0': return psi.at(off)
        if n in ('gc0', 'gc', 'ndt', 'ndtt'):
            d = k % nd; f = F[d]; w = None
            tt = TP[tp].get('gc' if n == 'gc0' else n)
            if tt is None:
                tt = [(Fr(1, 2), 1)]
                if n in ('ndt', 'ndtt'): f = f.diff(nd); w = W((ZERO, ONE))
                if n == 'ndtt': f = f.diff(nd); w = W((ZERO, ZERO, ONE))
            s = W((ZERO,))
            for so, sw in SP[sp]:
                for to, tw in tt:
                    o = list(off); o[d] += so
                    s = s + f.at(o, to) * const(Fr(sw) * tw)
            return s * w if w is not None else s
        if n == 'g0': return G.at(off)
        if n == 'dt': return ONE
    return leaf
def _run(j):
    n, _, tier, plan = j
    c = registry.BY[n]; r = Res()
    W.K = 5
    for flow, tim, it, sp, tp in plan:
        q = runner.fresh(20)
        m = meta.Model(c, q, 1, n_iters_=it)
        mid = [sym.pdiv(x - 1, 2) + o for x, o in zip(m.n, (5, 1, -1))]
        psi, F, G = smooth(c, flow, tim)
        a = m.inst(leafs(c, mid, psi, F, G, sp, tp))
        k = (a(0, mid) - taylor.evolve(psi, F, G).at([0] * c.nd, 1)).order()
        want = expect(c, flow, it)
        ok = k is None or k >= want
        fn, loc = (None, None) if ok else a.site(0, mid)
        lab = '%dD %s%s, %s%s flow, %d iterations' % (c.nd, c.opts or 'basic', '' if (sp, tp) == ('exact', 'mid') else ' ' + sp + '/' + tp, flow, ' unsteady' if tim else '', it)
        r.add(ok, 'order|%s|%s' % (re.sub(r'\d+D ', '', lab), c.nd), '%s: the one-step error starts at power %s of the spacing instead of %d (accuracy order %s, promised %d); value computed in %s at %s' % (lab, k, want, (k or 0) - 1, want - 1, fn, loc))
        r.count('orders established'); r.count('statements value-numbered', a.g.nev)
        if r.counts['orders established'] < 3: r.sample('%s: error O(spacing^%s)' % (lab, k if k is not None else '>=%d' % W.K))
    return r
