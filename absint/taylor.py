"""Smooth model fields as polynomials, and the exact evolution they imply, for truncation-error analysis."""
import itertools
from fractions import Fraction
from gvn import V, W, H, HP, ZERO, ONE, const

class MP:
    """polynomial in the nd coordinates and time (last exponent), truncated at total degree < W.K"""
    def __init__(self, nd, d=None): self.nd = nd; self.d = d or {}
    @staticmethod
    def random(nd, name, positive=False, time=False, deg=None):
        p = MP(nd)
        for e in itertools.product(range(W.K), repeat=nd + 1):
            if sum(e) >= (W.K if deg is None else deg + 1) or (e[nd] and not time): continue
            p.d[e] = (HP if positive and not any(e) else H)('coef', name, e)
        return p
    @staticmethod
    def one(nd): return MP(nd, {(0,) * (nd + 1): ONE})
    def __add__(s, o):
        r = dict(s.d)
        for k, v in o.d.items(): r[k] = r[k] + v if k in r else v
        return MP(s.nd, r)
    def __sub__(s, o): return s + o.scale(const(-1))
    def scale(s, c): return MP(s.nd, {k: v * c for k, v in s.d.items()})
    def __mul__(s, o):
        r = {}
        for k, v in s.d.items():
            for l, w in o.d.items():
                if sum(k) + sum(l) >= W.K: continue
                m = tuple(a + b for a, b in zip(k, l)); t = v * w
                r[m] = r[m] + t if m in r else t
        return MP(s.nd, r)
    def diff(s, d):
        r = {}
        for k, v in s.d.items():
            if k[d]: r[k[:d] + (k[d] - 1,) + k[d + 1:]] = v * const(k[d])
        return MP(s.nd, r)
    def inv(s):
        z = (0,) * (s.nd + 1); c = ONE / s.d[z]
        x = MP(s.nd, {k: -(v * c) for k, v in s.d.items() if k != z}); r = t = MP.one(s.nd)
        for _ in range(W.K): t = t * x; r = r + t
        return r.scale(c)
    def tcoef(s, m): return MP(s.nd, {k[:-1] + (0,): v for k, v in s.d.items() if k[-1] == m})
    def at(s, off, t=0):
        """value at offset off (in grid cells) and time t (in steps), as a series in the grid spacing"""
        c = [ZERO] * W.K; pt = list(off) + [t]
        for k, v in s.d.items():
            f = Fraction(1)
            for x, e in zip(pt, k):
                if e: f *= Fraction(x) ** e
            if f: c[sum(k)] = c[sum(k)] + v * const(f)
        return W(c)
def evolve(psi, flow, G):
    """psi(x, t) with G dpsi/dt = -div(flow psi), as a polynomial in x and t"""
    nd = psi.nd; gi = G.inv() if G is not None else None
    fl = [[f.tcoef(m) for m in range(W.K)] for f in flow]
    ps = [psi]
    for k in range(W.K - 1):
        acc = MP(nd)
        for m in range(k + 1):
            for d in range(nd): acc = acc - (fl[d][m] * ps[k - m]).diff(d)
        if gi is not None: acc = acc * gi
        ps.append(acc.scale(const(Fraction(1, k + 1))))
    out = MP(nd)
    for k, p in enumerate(ps): out = out + MP(nd, {e[:-1] + (k,): v for e, v in p.d.items() if sum(e) + k < W.K})
    return out
def stream(nd, name, time=False):
    """a solenoidal polynomial flow"""
    if nd == 1: return [MP(1, {(0, 0): H('u', name)})]
    def P(n):
        p = MP(nd)
        for e in itertools.product(range(W.K + 1), repeat=nd + 1):
            if sum(e) > W.K or (e[nd] and not time): continue
            p.d[e] = H('coef', name, n, e)
        return p
    if nd == 2:
        A = P('A'); f = [A.diff(1), A.diff(0).scale(const(-1))]
    else:
        A, B, C = P('A'), P('B'), P('C')
        f = [C.diff(1) - B.diff(2), A.diff(2) - C.diff(0), B.diff(0) - A.diff(1)]
    return [MP(nd, {k: v for k, v in p.d.items() if sum(k) < W.K}) for p in f]
