"""C09 equivalence of the axes: permuting or mirroring the axes, or adding an idle one, changes nothing but the labels."""
from framework import *
import gvn, sym, meta, itertools
from gvn import ZERO, HP, H
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program with transformed inputs. Permutation: the program with axes exchanged (initial fields, advector components, velocity equations and grid sizes permuted) must give the '
        'permuted result. Mirror: fields mirrored along one axis, the normal components with opposite sign, must give the mirrored result. Reduction: with fields uniform along one axis and no flow along it the '
        'program in N dimensions must give the result of the program in N-1 dimensions. Compared as algebraic expressions of the inputs at symbolic interior and boundary cells for every grid size.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50); absolute values, maxima and comparisons are interpreted by an odd multiplicative sign',
          'quick tier follows one time step and one iteration of iterative solvers']
# permutations under which the boundary conditions of the case are symmetric
def perms(c):
    s = c.bcs.split('/'); out = []
    for p in itertools.permutations(range(c.nd)):
        if p != tuple(range(c.nd)) and all(s[i] == s[p[i]] for i in range(c.nd)): out.append(p)
    return [p for p in out if sum(1 for i, x in enumerate(p) if i != x) == 2] or out
def mirrors(c): return [d for d, s in enumerate(c.bcs.split('/')) if s[0] == s[1] and s[0] in 'cor']
QUICK = {'a1_def', 'a1_std', 'a1_tot', 'a1_iga', 'a1_div', 'a1_dfl', 'a1_khn', 'a2_def', 'a2_std', 'a2_tot', 'a2_iga', 'a2_div', 'a2_div3', 'a2_dfl', 'a2_khn', 'a3_def', 'a3_std', 'a3_tot', 'a3_dfl', 'a3_rig', 'a3_div', 'a3_div3',
         'v1_vdt', 'v2_div', 'v2_divdt', 'r2_tr', 's1', 's2', 'u1', 'u2_exp', 'u2_a4', 'u2_div', 'u3_imp'}
QUICKH = {('p2_mr', 'mirror0'), ('p2_cr', 'perm10'), ('g2_dnn', 'perm10'), ('g2_dns', 'mirror0')}
SKIPF = {'bq'}
def jobs(tier):
    js = []
    for c in registry.C:
        if c.mpi or 'async' in c.tags or 'polar' in c.tags or c.fam in SKIPF: continue
        l = [(c.name, 'perm' + ''.join(map(str, p)), tier, p) for p in perms(c)]
        m = [(c.name, 'mirror%d' % d, tier, d) for d in mirrors(c)]
        if tier == 'quick':
            if c.name not in QUICK: l = [x for x in l + m if x[:2] in QUICKH]; m = []
            if len(l) == 3: l = l[:2]; m = m[:1]              # the others follow by composition
            if len(l) == 1 and c.nd == 2: m = m[:1]
        js += l + m
    js.sort(key=lambda j: -COST.get(registry.BY[j[0]].fam, 1) * registry.BY[j[0]].nd ** 2)
    return js
def floors(tier): return {'cells compared': 400}
def run(j): return gvn.deep(_run, j)
VEC = {'gc0', 'gc', 'ndt', 'ndtt'}
def velocity(c):
    """equation -> axis of the velocity component it carries"""
    if c.fam in ('vip', 'prs', 'sgs', 'bq'): return {d: d for d in range(c.nd)}
    if c.fam == 'sw': return {d: d for d in range(c.nd)}
    return {}
def comp(c, n, k):
    """axis of the component the k-th write of input n supplies, or None for a scalar"""
    if n in VEC or n == 'relax0': return k % c.nd
    if n == 'psi0': return velocity(c).get(k)
    return None
def points(c, n, tier, d=None):
    mid = [x for x in MID(n)]
    out = [tuple(mid)]
    for k in range(c.nd):
        for x in ((1, n[k] - 1) if tier == 'quick' else (0, 1, n[k] - 2, n[k] - 1)):
            if k == d or tier != 'quick' or True: out.append(tuple(x if i == k else m for i, m in enumerate(mid)))
    if tier == 'quick' and c.nd == 3: out = out[:1] + out[1::2]
    if c.nd > 1 and 'o' not in c.bcs: out.append(tuple([0] * c.nd))       # corners of two open boundaries are filled in axis order by design
    if tier == 'quick' and c.fam in ('prs', 'sgs'): out = out[:2]
    return out
def MID(n):
    """a generic interior cell"""
    return [sym.pdiv(x - 1, 2) + o for x, o in zip(n, (5, 1, -1))]
def _run(j):
    n, lab, tier, arg = j
    c = registry.BY[n]; r = Res()
    gvn.GVN.split = ('q0',)
    q = runner.fresh(20)
    heavy = c.fam in ('prs', 'sgs', 'bq') or c.nd == 3
    nt = 1 if heavy or tier == 'quick' else 2
    vel = velocity(c)
    A = meta.Model(c, q, nt)
    a = A.inst()
    if lab.startswith('perm'):
        P = arg                                    # axis i of run B is axis P[i] of run A
        B = meta.Model(c, q, nt, order=tuple(P) + tuple(range(c.nd, 3)))
        def back(pt): 
            x = [None] * c.nd
            for i in range(c.nd): x[P[i]] = pt[i]
            return tuple(x)
        def leaf(g, nm, k, pt):
            if len(pt) != c.nd:
                if nm in DELTA and DELTA[nm] < c.nd: return HP('in', (INV[P[DELTA[nm]]],))
                return None
            d = comp(c, nm, k)
            kk = k if d is None else k - d + P[d]
            return meta.base(g, nm, kk, back(pt))
        eq = lambda e: next((P[vel[e]] for _ in (0,) if e in vel), e)      # equation e of run B is this equation of run A
        sgn = lambda e: 1
        where = back
        name = 'axis exchange'
    else:
        D = arg; B = A
        N = A.n[D]
        def flip(pt, d=None): return tuple((N - 1 - x if d != D else N - 2 - x) if i == D else x for i, x in enumerate(pt))
        def leaf(g, nm, k, pt):
            if len(pt) != c.nd: return None
            d = comp(c, nm, k)
            v = meta.base(g, nm, k, flip(pt, d if nm in VEC else None))
            return -v if d == D else v
        eq = lambda e: e
        sgn = lambda e: -1 if vel.get(e) == D else 1
        where = flip
        name = 'mirror'
    b = B.inst(leaf)
    if not lab.startswith('perm'): b.g.pmap = {'q%d' % D: lambda x: N - 1 - x}
    bad = set()
    for pt in points(c, B.n, tier):
        for e in range(c.ne):
            va = a(eq(e), where(pt)); vb = b(e, pt)
            if sgn(e) < 0: va = -va
            r.count('cells compared')
            if va == vb: r.add(True, '', ''); continue
            fn, loc = b.site(e, pt)
            w = first(a, b, eq, e, where, pt, name)
            key = 'axes|%s|%s' % (name, w or fn)
            r.add(False, key, '%s of %s: equation %d at cell %r differs (value last computed in %s at %s)' % (name, lab, e, pt, fn, loc))
    r.count('statements value-numbered', a.g.nev + b.g.nev)
    r.sample('%s at %d cells' % (lab, len(points(c, B.n, tier))))
    return r
DELTA = {'di': 0, 'dj': 1, 'dk': 2}; INV = ['di', 'dj', 'dk']
def first(a, b, eq, e, where, pt, name): return None
