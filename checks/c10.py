"""C10 uniform fields stay uniform: advection by a divergence-free flow keeps a constant field, and a fluid in uniform motion stays in uniform motion."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, ONE, HP, H, const
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program with a uniform field and Courant numbers derived from an arbitrary discrete stream function (their discrete divergence vanishes identically, cyclic or tangential at walls): '
        'the result must be the same constant in every cell, for any G factor. Programs with momentum equations: all fields uniform (velocities, scalars), no walls across the flow: the result must be the same uniform state.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)',
          'the constants that keep denominators away from zero (machine epsilon, smallest number) count as zero',
          'cases with time-dependent advector use a steady one; corners of open boundaries are left out',
          'the third-order terms for divergent flow represent fluxes averaged over faces and preserve uniformity only to their order; option sets with them are included when combined with flux limiting, which enforces it']
QUICKH = {'p2_cr', 'g2_dnn'}
def jobs(tier):
    js = []
    for c in registry.C + registry.X:
        if c.mpi or {'async', 'polar'} & c.tags or c.fam in ('rhs', 'sw'): continue
        if 'div_3rd' in (c.opts or '') and 'fct' not in c.opts: continue
        if tier == 'quick' and 'acc' in c.tags and (c.nd == 1 or c.name.split('_')[1] not in ('dfl', 'dfli', 'd2', 'd2i', 'khn', 'toti')): continue
        if tier == 'quick' and c.fam in ('prs', 'sgs', 'bq') and c.name not in QUICKH: continue
        js.append((c.name, '', tier))
    js.sort(key=lambda j: meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'cells compared': 150}
def run(j): return gvn.deep(_run, j)
def key(*k): return tuple(map(repr, k))
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20)
    gvn.GVN.split = ('q0',)
    mom = c.fam not in ('mpdata',)
    m = meta.Model(c, q, 2 if tier != 'quick' or c.nd < 3 and not mom else 1)
    bcs = c.bcs.split('/'); nd = c.nd; N = m.n
    def A(name, pt, stag):
        """stream function component name at pt; periodic where the boundary is, vanishing on walls"""
        out = []; sg = 1
        for d, x in enumerate(pt):
            if bcs[d] == 'cc':
                x = meta.wrap(x, N[d], N[d] - 1)
                if x is None: raise gvn.Undecided('position')
            elif d in stag and bcs[d] == 'rr':            # vertex coordinate i means i+1/2; odd about the walls, which are at points 0 and n-1
                if gvn.le(x, -1): x = -1 - x; sg = -sg
                elif gvn.le(N[d] - 1, x): x = 2 * N[d] - 3 - x; sg = -sg
            out.append(x)
        v = H('stream', name, key(*out))
        return v if sg > 0 else -v
    def sh(pt, d): return tuple(x - (1 if i == d else 0) for i, x in enumerate(pt))
    def gc(d, pt):
        """Courant number at the face i+1/2 along d: index i"""
        if nd == 1: return H('flow') if bcs[0] in ('cc', 'oo') else ZERO
        if nd == 2:
            o = 1 - d; s = (0, 1)                          # one component at vertices (i+1/2, j+1/2)
            v = A('z', pt, s) - A('z', sh(pt, o), s)
            return v if d == 0 else -v
        v = ZERO
        for o in range(3):
            if o == d: continue
            t = 3 - d - o; s = (d, o)
            w = A(t, pt, s) - A(t, sh(pt, o), s)
            v = v + w if (o - d) % 3 == 1 else v - w
        return v
    val = [HP('value', e) if e % 2 or not mom else H('value', e) for e in range(c.ne)]
    vel = {d: d for d in range(nd)} if mom else {}
    for e, d in vel.items():
        if bcs[d] != 'cc': val[e] = ZERO
    def leaf(g, nm, k, pt):
        if nm in ('tiny', 'epsilon'): return ZERO
        if nm == 'psi0': return val[k % c.ne]
        if nm in ('gc0', 'gc'):
            v = gc(k % nd, pt)
            if 'gc' == nm: return v
            return v
        if nm in ('ndt', 'ndtt'): return ZERO
        if nm == 'g0' and mom: return HP('g factor')        # velocities are uniform, so must be the factor
        if nm == 'relax0': return val[k % nd]
        if nm in ('tht_e', 'tht_abs'): return val[nd] if nm == 'tht_e' else ZERO
        return None
    a = m.inst(leaf)
    pts = meta.points(N, (1,) if tier == 'quick' else (0, 1, 2), corners='o' not in c.bcs)
    if tier == 'quick' and mom: pts = pts[:2] + pts[-2:]
    for pt in pts:
        for e in range(c.ne):
            v = a(e, pt); ok = v == val[e]; r.count('cells compared')
            fn, loc = ('', '') if ok else a.site(e, pt)
            r.add(ok, 'uniform|%s' % fn, 'equation %d at cell %r: a uniform %s does not stay uniform (value last computed in %s at %s)' % (e, pt, 'state' if mom else 'field in a divergence-free flow', fn, loc))
    r.count('statements value-numbered', a.g.nev); r.sample('%d cells' % len(pts))
    return r
