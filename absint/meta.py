"""Relations between value numbers of one or two runs whose inputs are transformed copies of each other."""
import interp, runner, registry, gvn, sym, analysis
from gvn import V, H, HP, GVN, ZERO, ONE, const, vabs

class Model:
    """one interpreted program; value(e, pt) of the state after the run, as a function of the (possibly overridden) inputs"""
    def __init__(self, c, q, nt=1, order=None, unroll=1, **over):
        self.c = c if not isinstance(c, str) else registry.BY[c]
        interp.UNROLL = unroll
        sz = dict(zip(('nx', 'ny', 'nz'), [x * 12 + 1 for x in q]))
        if order:
            ns = [sz[k] for k in ('nx', 'ny', 'nz')]
            for k, o in zip(('nx', 'ny', 'nz'), order): sz[k] = ns[o]
        sz.update(over)
        self.n = [sz[k] for k in ('nx', 'ny', 'nz')][:self.c.nd]
        self.nt = nt
        self.ip = runner.run(self.c, runner.shape(q, T=1, nt=nt, **sz))
        if self.ip.thrown: raise interp.AnalysisError('run throws %s' % self.ip.thrown)
    def inst(self, leaf=None): return Inst(self, leaf)
class Inst:
    """the model with one assignment of inputs"""
    def __init__(self, m, leaf):
        self.m = m; self.g = GVN(); self.g.leaf = leaf and (lambda n, k, pt: leaf(self.g, n, k, pt)); self.p = self.g.add(m.ip)
    def node(self, e, last=True):
        l = [x for x in self.p.obs if x[2] == e]
        return l[-1 if last is True else last][3]
    def __call__(self, e, pt, last=True): return self.g.cell(self.node(e, last), tuple(pt), self.p)
    def site(self, e, pt):
        d = gvn.definer(self.g, self.node(e), tuple(pt))
        return gvn.site(self.m.ip, d)
def base(g, n, k, pt):
    """default value of an input"""
    return (HP if n in sym.POSITIVE else H)('input', n, k, tuple(map(repr, pt)))
def blame(a, na_pt, b, nb_pt, e):
    """first statement of b that makes the values differ, for runs of the same program and cell"""
    w = gvn.blame(a.g, a.node(e), a.p, b.g, b.node(e), b.p, tuple(na_pt), tuple(nb_pt))
    return gvn.site(b.m.ip, w)
def wrap(i, n, period):
    """representative of a coordinate in [0, period) (None if its position is not known for all sizes)"""
    for _ in range(4):
        if gvn.le(0, i) and gvn.le(i, period - 1): return i
        if gvn.le(i, -1): i = i + period
        elif gvn.le(period, i): i = i - period
        else: return None
    return None
def mid(n):
    """a generic interior cell"""
    return tuple(sym.pdiv(x - 1, 2) + o for x, o in zip(n, (5, 1, -1)))
def points(n, edges=(1,), corners=False):
    """a generic interior cell, cells at the given distances from every face, optionally two corners"""
    m = mid(n); out = [m]
    for k in range(len(n)):
        for x in edges:
            for y in (x, n[k] - 1 - x): out.append(tuple(y if i == k else z for i, z in enumerate(m)))
    if corners and len(n) > 1: out += [tuple([0] * len(n)), tuple(x - 1 for x in n)]
    return out
def weight(c):
    """sort key: expensive cases first"""
    return -{'prs': 4, 'sgs': 6, 'bq': 8, 'vip': 2}.get(c.fam, 1) * c.nd ** 2
