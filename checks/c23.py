"""C23 scaling: multiplying an advected field by a constant multiplies the result; where the scheme is meant for either sign, so does -1; the infinite-gauge scheme is linear."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, HP, H, const
LEVEL = 'other'
RULE = ('Global value numbering of the interpreted program with transformed inputs: the result for a*psi (a>0 arbitrary) must be a times the result for psi; for option sets meant for fields of either sign '
        '(abs or iga) the result for -psi must be minus the result for psi; for iga without flux limiting the result for psi+phi must be the sum of the results. Further fields advected along must not influence each other.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)',
          'the constants that keep denominators away from zero (machine epsilon, smallest number) count as zero']
def names(c): return {x.strip().split('::')[-1] for x in (c.opts or 'opts::iga|opts::fct').split('|')}
ACC = {'x1_d3a', 'x1_dfli', 'x2_toti', 'x2_d3f', 'x2_d3i', 'x3_d3a', 'x3_dfli', 'x3_toti', 'x3_d3i'}
def jobs(tier):
    js = []
    for c in registry.C + registry.X:
        if c.mpi or {'async', 'polar'} & c.tags or c.fam not in ('mpdata', 'rhs'): continue
        if 'delayed' in c.ct or 'delayed_step' in c.ct: continue
        o = names(c)
        l = ['scale']
        if 'abs' in o or 'iga' in o: l.append('sign')
        if 'iga' in o and 'fct' not in o: l.append('sum')
        if c.ne > 1: l.append('indep')
        if tier == 'quick' and ('acc' in c.tags and c.name not in ACC or c.name == 'v3_vdt'): continue
        js += [(c.name, x, tier) for x in l]
    js.sort(key=lambda j: meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'cells compared': 250}
def run(j): return gvn.deep(_run, j)
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20)
    m = meta.Model(c, q, 1 if tier == 'quick' or c.nd == 3 else 2)
    s = HP('factor'); o = names(c)
    def tiny(nm): return ZERO if nm in ('tiny', 'epsilon') else None
    def mk(f): 
        def leaf(g, nm, k, pt):
            if nm == 'psi0': return f(g, nm, k, pt)
            return tiny(nm)
        return m.inst(leaf)
    P = meta.base
    a = mk(P)
    if lab == 'scale': b = mk(lambda *x: P(*x) * s); want = lambda e, pt: a(e, pt) * s; text = 'is not homogeneous: a factor in front of the field is not carried over to the result'
    elif lab == 'sign': b = mk(lambda *x: -P(*x)); want = lambda e, pt: -a(e, pt); text = 'treats a field and its negative differently'
    elif lab == 'sum':
        d = mk(lambda g, nm, k, pt: H('other', k, tuple(map(repr, pt))))
        b = mk(lambda g, nm, k, pt: P(g, nm, k, pt) + H('other', k, tuple(map(repr, pt)))); want = lambda e, pt: a(e, pt) + d(e, pt); text = 'is not linear although the infinite-gauge scheme is'
    else:
        b = mk(lambda g, nm, k, pt: P(g, nm, k, pt) if k == 0 else H('other', k, tuple(map(repr, pt)))); want = lambda e, pt: a(e, pt); text = 'lets one advected field influence another'
    for pt in meta.points(m.n, (0,) if tier == 'quick' else (0, 1, 2)):
        for e in range(c.ne if lab != 'indep' else 1):
            ok = b(e, pt) == want(e, pt); r.count('cells compared')
            fn, loc = ('', '') if ok else b.site(e, pt)
            r.add(ok, 'scaling|%s|%s' % (lab, fn), 'equation %d at cell %r: the step %s (%s; value last computed in %s at %s)' % (e, pt, text, lab, fn, loc))
    r.count('statements value-numbered', a.g.nev + b.g.nev); r.sample(lab)
    return r
