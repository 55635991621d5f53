"""C07 boundary conditions: a cyclic domain has no distinguished point, a rigid wall acts as a mirror, what is beyond an open boundary continues the edge."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, HP, H, const
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program with transformed inputs. Cyclic: with periodic inputs shifted by half the domain the result must be the shifted result (cells at the seam compared with interior cells), and the first and last point, '
        'which coincide, must stay equal. Rigid: the program with walls must give the result of the same program on a cyclic domain twice as large filled with the fields and their mirror images (normal components with opposite sign). '
        'Open: with an arbitrary flow a uniform field must stay uniform in the boundary cells (what enters equals the edge, the flow is continued without divergence); in one dimension and for donor-cell steps, fields that do not vary '
        'along the axis must not do so after the step either. All compared as algebraic expressions, for all grid sizes.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)', 'one time step; the pressure solvers, whose sums count the coinciding points of a cyclic domain twice, are not part of the cyclic and mirror comparisons']
ACC = {'x1_d3f', 'x2_toti', 'x2_d3t', 'x3_d3a'}
VEC = {'gc0', 'gc', 'ndt', 'ndtt'}
VFAM = ('vip', 'sw')
def jobs(tier):
    js = []
    for c in registry.C + registry.X:
        if c.mpi or {'async', 'polar'} & c.tags or c.fam in ('prs', 'sgs', 'bq') or 'var_dt' in c.ct: continue
        if 'acc' in c.tags and tier == 'quick' and c.name not in ACC: continue
        for d, b in enumerate(c.bcs.split('/')):
            if b == 'cc': js.append((c.name, 'cyclic%d' % d, tier))
            if b == 'oo':
                if c.nd == 1 or c.n_iters == 1: js.append((c.name, 'open%d' % d, tier))
                if c.fam == 'mpdata' and c.n_iters == 1: js.append((c.name, 'inflow%d' % d, tier))
    for c in registry.W: js.append((c.name, 'mirror%s' % c.name[1], tier))
    js.sort(key=lambda j: meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'cells compared': 300}
def run(j): return gvn.deep(_run, j)
def comp(c, nm, k):
    if nm in VEC or nm == 'relax0': return k % c.nd
    if nm == 'psi0' and c.fam in VFAM and k % c.ne < c.nd: return k % c.ne
    return None
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20)
    gvn.GVN.split = ('q0',)
    D = int(lab[-1]); what = lab[:-1]; nt = 1; nd = c.nd; bcs = c.bcs.split('/')
    def per(pt, N): 
        return tuple(meta.wrap(x, N[i], N[i] - 1) if bcs[i] == 'cc' else x for i, x in enumerate(pt))
    edge = (0, 1) if tier == 'quick' else (0, 1, 2)
    def cmp(x, y, inst, e, pt, text):
        r.count('cells compared'); ok = x == y
        fn = '' if ok else inst.site(e, pt)[0]
        r.add(ok, 'boundary|%s|%s' % (what, fn), 'equation %d at cell %r: %s (value last computed in %s)' % (e, pt, text, fn))
    if what == 'cyclic':
        m = meta.Model(c, q, nt); N = m.n; S = sym.pdiv(N[D] - 1, 2) + 1
        def at(s): 
            def leaf(g, nm, k, pt):
                if len(pt) != nd: return None
                pt = tuple(x + (s if i == D else 0) for i, x in enumerate(pt))
                return meta.base(g, nm, k, per(pt, N))
            return m.inst(leaf)
        a, b = at(0), at(S)
        for x in edge + tuple(N[D] - 1 - y for y in edge):
            pt = tuple(x if i == D else y for i, y in enumerate(meta.mid(N)))
            to = tuple(meta.wrap(y + (S if i == D else 0), N[i], N[i] - 1) for i, y in enumerate(pt))
            for e in range(c.ne): cmp(a(e, to), b(e, pt), b, e, pt, 'depends on where the seam of the cyclic domain is')
        cells = tuple(0 if i == D else y for i, y in enumerate(meta.mid(N))); last = tuple(N[D] - 1 if i == D else y for i, y in enumerate(cells))
        for e in range(c.ne): cmp(a(e, cells), a(e, last), a, e, last, 'the coinciding first and last point of a cyclic axis differ')
        r.count('statements value-numbered', a.g.nev + b.g.nev)
    elif what == 'mirror':
        A = meta.Model(registry.BY[n[3:]], q, nt); N = A.n
        B = meta.Model(c, q, nt, **{'nx ny nz'.split()[D]: 2 * N[D] - 1}); N2 = B.n
        bcs = registry.BY[n[3:]].bcs.split('/')
        def la(g, nm, k, pt):
            if len(pt) != nd: return None
            d = comp(c, nm, k)
            return meta.base(g, nm, k, per(pt, N))
        def lb(g, nm, k, pt):
            if len(pt) != nd: return None
            d = comp(c, nm, k); pt = list(pt)
            P = 2 * (N[D] - 1)
            x = meta.wrap(pt[D], P + 1, P); sg = 1
            if x is None: raise gvn.Undecided('position')
            stag = nm in VEC and d == D
            top = N[D] - 2 if stag else N[D] - 1
            if gvn.le(x, top) is True: pass
            elif gvn.le(top + 1, x) is True: x = P - x - (1 if stag else 0); sg = -1 if d == D else 1
            else: raise gvn.Undecided('position')
            pt[D] = x
            v = meta.base(g, nm, k, per(tuple(pt), N))
            if d == D and not stag:                           # a normal component at the wall itself vanishes
                if x == 0 or x == N[D] - 1: return ZERO
            return v if sg > 0 else -v
        def la2(g, nm, k, pt):
            v = la(g, nm, k, pt)
            if len(pt) == nd and comp(c, nm, k) == D and nm not in VEC and (pt[D] == 0 or pt[D] == N[D] - 1): return ZERO
            return v
        a, b = A.inst(la2), B.inst(lb)
        for x in edge + tuple(N[D] - 1 - y for y in edge):
            pt = tuple(x if i == D else y for i, y in enumerate(meta.mid(N)))
            for e in range(c.ne):
                if c.fam in VFAM and e == D: continue          # the normal velocity itself is advected as an even quantity
                cmp(a(e, pt), b(e, pt), a, e, pt, 'a rigid wall does not act as a mirror')
        r.count('statements value-numbered', a.g.nev + b.g.nev)
    elif what == 'inflow':
        m = meta.Model(c, q, nt); N = m.n; mid = meta.mid(N)
        def leaf(g, nm, k, pt):
            if nm in ('tiny', 'epsilon'): return ZERO
            if nm == 'psi0': return HP('value', k)
            if len(pt) == nd: return meta.base(g, nm, k, per(pt, N))
        a = m.inst(leaf)
        for x in (0, N[D] - 1):
            pt = tuple(x if i == D else y for i, y in enumerate(mid))
            for e in range(c.ne): cmp(a(e, pt), HP('value', e), a, e, pt, 'a uniform field does not stay uniform at an open boundary: the flow continued beyond it is divergent or what enters differs')
        r.count('statements value-numbered', a.g.nev)
    else:
        m = meta.Model(c, q, nt); N = m.n
        def leaf(g, nm, k, pt):
            if len(pt) != nd: return None
            d = comp(c, nm, k)                             # the flow along any axis does not vary along that axis: it has no divergence
            return meta.base(g, nm, k, tuple(0 if i == D or i == d and nm in VEC else x for i, x in enumerate(per(pt, N))))
        a = m.inst(leaf)
        mid = meta.mid(N)
        for x in edge + tuple(N[D] - 1 - y for y in edge):
            pt = tuple(x if i == D else y for i, y in enumerate(mid))
            for e in range(c.ne): cmp(a(e, pt), a(e, mid), a, e, pt, 'a state that does not vary along an axis does so next to an open boundary')
        r.count('statements value-numbered', a.g.nev)
    r.sample(lab)
    return r
