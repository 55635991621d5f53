"""C08 conservation: advection moves the advected quantity between cells but neither creates nor destroys it."""
from framework import *
import gvn, sym, meta, itertools
from gvn import ZERO, ONE, HP, H, const
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program with Courant numbers that are arbitrary on the faces inside a window and zero outside it: the sum over the cells the window touches of weight * G * (new - old value) must vanish as an algebraic expression of all '
        'inputs. Windows in the interior, across the seam of cyclic domains and at rigid walls (where a cell has half its weight), for all grid sizes.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)',
          'flows through a window of 2 cells per direction; every flow is a superposition of such windows for linear schemes, for the others the window covers the full stencil of one face']
ACC = {'x1_d3a', 'x1_dfli', 'x2_toti', 'x2_d3f', 'x2_d3i', 'x2_d3t', 'x2_khn', 'x3_d3a', 'x3_toti', 'x3_d3t'}
def jobs(tier):
    js = []
    for c in registry.C + registry.X:
        if c.mpi or {'async', 'polar'} & c.tags or c.fam not in ('mpdata',) and c.name not in ('r2_trd', 'r3_tr'): continue
        if 'var_dt' in c.ct: continue
        if tier == 'quick' and 'acc' in c.tags and c.name not in ACC: continue
        js.append((c.name, 'interior', tier))
        if tier != 'quick' or 'acc' not in c.tags: js += [(c.name, 'edge%d' % d, tier) for d, b in enumerate(c.bcs.split('/')) if b in ('cc', 'rr')]
    js.sort(key=lambda j: meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'balances': 80}
def run(j): return gvn.deep(_run, j)
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20)
    gvn.GVN.split = ('q0',)
    m = meta.Model(c, q, 1 if tier == 'quick' or c.nd == 3 else 2)
    N, nd, bcs = m.n, c.nd, c.bcs.split('/')
    lo = list(meta.mid(N)); D = None
    if lab != 'interior': D = int(lab[4:]); lo[D] = 0
    X = 2 if 'div' in (c.opts or '') else 0
    nug = 'nug' in (c.opts or '')
    sides = (0, 1) if D is not None and bcs[D] == 'rr' else (0,)
    for side in sides:
        if side: lo[D] = N[D] - 1
        W = 2 if nd < 3 else 1
        # window: faces within W cells of lo along each axis
        def off(d, x):
            """integer distance from the reference cell along d, through the seam if there is one; None: far away"""
            for s in ((0, 1, -1) if bcs[d] == 'cc' else (0,)):
                y = x - lo[d] + s * (N[d] - 1)
                if isinstance(y, int): return y
            return None
        def leaf(g, nm, k, pt):
            if len(pt) != nd: return None
            if nm in ('gc0', 'gc', 'ndt', 'ndtt'):
                d = k % nd; o = [off(i, x) for i, x in enumerate(pt)]
                if any(x is None for x in o): return ZERO
                lim = lambda i: (-W, W - 1) if i == d else (1 - W, W - 1)
                if any(not (lim(i)[0] <= o[i] <= lim(i)[1]) for i in range(nd)): return ZERO
                return H('input', nm, k, tuple(o))
            if nm in ('psi0', 'g0'):
                pt = tuple(meta.wrap(x, N[i], N[i] - 1) if bcs[i] == 'cc' else x for i, x in enumerate(pt))
                return meta.base(g, nm, k, pt)
            if nm == 'src': return ZERO
            return None
        a = m.inst(leaf)
        for e in range(c.ne):
            tot = ZERO
            for o in itertools.product(range(-W - X, W + X + 1), repeat=nd):
                # cells touched by a face of the window (with the divergent-flow terms, also by faces next to it)
                if sum(max(abs(x) - W + 1, 0) for x in o) > (1 if not X else X + 1): continue
                pt = [l + x for l, x in zip(lo, o)]; w = ONE; skip = False
                for d in range(nd):
                    if d != D: continue
                    if bcs[d] == 'cc': pt[d] = meta.wrap(pt[d], N[d], N[d] - 1)
                    elif (o[d] < 0) != bool(side) and o[d]: skip = True
                    elif o[d] == 0: w = gvn.const(1) / gvn.const(2)
                if skip: continue
                pt = tuple(pt); r.count('cells summed')
                g = leaf(a.g, 'g0', 0, pt) if nug else ONE
                tot = tot + w * g * (a(e, pt) - leaf(a.g, 'psi0', e, pt))
            ok = tot == ZERO; r.count('balances')
            fn = '' if ok else a.site(e, tuple(lo))[0]
            r.add(ok, 'conservation|%s' % fn, 'equation %d, flow around cell %r (%s): the total of the advected quantity changes (value last computed in %s)' % (e, tuple(lo), lab, fn))
        r.count('statements value-numbered', a.g.nev)
    r.sample(lab)
    return r
