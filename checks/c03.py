"""C03 decomposition independence: the result does not depend on the number of threads or processes."""
from framework import *
import gvn, sym, analysis
LEVEL = 'other'
RULE = ('Global value numbering: the value of a cell of the final state is an expression over the initial fields, obtained by following the last write of every operand back through the '
        'interpreted trace. The expression is built for the single-threaded serial run and for the team (merged barrier interval by barrier interval; C01 shows that the order inside an interval '
        'does not matter) or the processes (received messages replaced by what the peer sent). Obligation: equal value numbers at cells next to every internal boundary, next to the domain edges and '
        'in the interior, for every equation, for symbolic grid sizes; grid-wide sums are compared as formal additive functionals.')
ASSUME = ['value numbers are compared by random interpretation in a prime field: unequal expressions collide with probability below 2^-50',
          'iterative solvers are followed for one iteration (quick) before convergence is tested',
          'slabs are wider than the stencil (narrow slabs are covered for bounds, races and definedness by C05, C01 and C06)']
SKIP = {'p2_gc', 'p3_mr', 'p3_cr', 'p3_gc', 'b3_il', 'g3_dns', 'b3_smg', 'b3_sma', 'g3_smo', 'g3_sma', 'b2_ile', 'v2_vdt', 'v3_vdt'}
HEAVY = {'prs', 'sgs', 'bq'}
MPIQ = {'a1_def_mpi', 'a2_def_mpi', 'a2_div_mpi', 'a2_tot_mpi', 'a3_def_mpi', 'a3_std_mpi', 'r2_tr_mpi', 'u2_exp_mpi', 'p2_cr_mpi'}
def jobs(tier):
    js = []
    for c in registry.C:
        if 'async' in c.tags: continue
        base = c.name.replace('_mpi', '')
        if tier == 'quick' and (base in SKIP or (c.mpi and c.name not in MPIQ)): continue
        if 'polar' in c.tags: pass
        vs = [(2, 2)] if c.mpi else [(1, 2)]
        if tier == 'thorough': vs += [(3, 1)] if c.mpi else [(1, 3)]
        for NP, T in vs: js.append((c.name, 'P%dT%d' % (NP, T), tier, (NP, T)))
    js.sort(key=lambda j: -COST.get(registry.BY[j[0]].fam, 1) * registry.BY[j[0]].nd ** 2)
    return js
def floors(tier): return {'cells compared': 400}
def run(j): return gvn.deep(_run, j)
def _run(j):
    n, lab, tier, (NP, T) = j
    c = registry.BY[n]; r = Res()
    base = registry.BY[n.replace('_mpi', '')]
    heavy = c.fam in HEAVY
    interp.UNROLL = 1 if heavy or tier == 'quick' else 2
    q = runner.fresh(20)
    d = 1 if c.nd == 3 else 0
    gvn.GVN.split = ('q0', 'q1') if c.nd == 3 and c.mpi else ('q%d' % d,)
    nt = 1 if heavy or c.nd == 3 or c.fam == 'vip' or 'var_dt' in c.ct else 2
    ser = runner.run(base, runner.shape(q, T=1, nt=nt)); g0 = gvn.GVN(); p0 = g0.add(ser)
    if c.mpi:
        # the serial counterpart follows one thread, the distributed run NP processes of T threads
        ips = [runner.run(c, runner.shape(q, T=T, nt=nt), (NP, p)) for p in range(NP)]
    else: ips = [runner.run(c, runner.shape(q, T=T, nt=nt))]
    g1 = gvn.GVN(); ps = [g1.add(ip, p, NP) for p, ip in enumerate(ips)]
    k0 = 0
    def around(dim, n):
        """coordinates next to the internal boundaries along dim, at both edges and elsewhere"""
        out = []
        Q = q[dim] * 12
        for i in range(1, n):
            b = splits(ips, ps, dim, i, n)
            for x in b: out += [x - 1, x, x + 1] if tier == 'quick' else [x - 2, x - 1, x, x + 1]
        out += [0, Q] if tier == 'quick' else [0, 1, Q - 1, Q]
        return out
    mids = [x * 6 + o for x, o in zip(q, (5, 1, -1))][:c.nd]
    pts = []
    if c.mpi: pts += [tuple(x if k == 0 else m for k, m in enumerate(mids)) for x in around(0, NP)]
    if not c.mpi or c.nd == 3: pts += [tuple(x if k == d else m for k, m in enumerate(mids)) for x in around(d, T)]
    elif T > 1: pts += [tuple(x if k == 0 else m for k, m in enumerate(mids)) for x in inner(ips, ps)]
    if c.nd > 1 and tier == 'thorough':
        o = 0 if d == 1 else 1
        pts += [tuple(x if k == o else m for k, m in enumerate(mids)) for x in (0, q[o] * 12)]
    pts = list(dict.fromkeys(pts))
    if 'polar' in c.tags: pts = pts[:4]
    for e in range(c.ne):
        st, box, eq, node = p0.obs[k0 + e]
        for pt in pts:
            a = g0.cell(node, pt, p0)
            done = False
            for ip, p in zip(ips, ps):
                s2, b2, e2, n2 = p.obs[k0 + e]
                i = gvn.inside(pt, b2)
                if i is None: raise gvn.Undecided('%r in %r' % (pt, b2))
                if not i: continue
                done = True
                b = g1.cell(n2, pt, p)
                r.count('cells compared')
                if a != b:
                    w = gvn.blame(g0, node, p0, g1, n2, p, pt)
                    fn, loc = gvn.site(ip, w)
                    r.add(False, 'decomposition|%s' % fn, 'equation %d: cell %r of the %s run differs from the serial run; first differing statement in %s at %s' % (e, pt, lab, fn, loc))
                else: r.add(True, '', '')
            if not done: r.add(False, 'decomposition|coverage', 'cell %r belongs to no process' % (pt,))
    r.count('statements value-numbered', g0.nev + g1.nev)
    if c.mpi: r.count('messages followed', len(g1.recvd))
    r.sample('cells %s' % (pts[:3],))
    return r
def splits(ips, ps, dim, i, n):
    """first coordinate of part i along dim, from the parts' own extents"""
    if len(ps) > 1 and dim == 0: return [ps[i].obs[0][1][0][0]]
    q = sym.Poly({('q%d' % dim,): 1})
    return [q * 12 // 1] if False else [thread_split(q * 12 + 1, i, n)]
def thread_split(n, i, parts):
    try: return sym.pdiv(n * i, parts)
    except sym.Imprecise: return sym.pdiv((n - 1) * i, parts)
def inner(ips, ps):
    """thread boundaries inside the first process"""
    (lo, hi) = ps[0].obs[0][1][0]
    m = sym.pdiv(hi - lo + 1, 2) if True else 0
    return [lo + m - 1, lo + m]
