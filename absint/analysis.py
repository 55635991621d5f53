"""Region algebra over trace events: accessed boxes, overlap, epochs (barrier intervals), flattening."""
import sym
from sym import Poly, Ex
from interp import Ev, Br, Sc

def proj(p, hi):
    """eliminate binder symbols from a bound (widen towards hi/lo)"""
    if not isinstance(p, Poly): return p
    while isinstance(p, Poly):
        bs = [s for s in sym.syms(p) if sym.ST.hi[s] is not None]
        if not bs: return p
        s = max(bs, key=lambda x: sym.ST.order[x])
        c = {}
        for k, v in p.m.items():
            if s in k:
                kk = list(k); kk.remove(s); c[tuple(kk)] = v
        c = sym.norm(c)
        pos = sym.lower(c)
        pos = pos is not None and pos >= 0
        p = sym.subst(p, s, (sym.ST.hi[s] if pos else sym.ST.lo[s]) if hi else (sym.ST.lo[s] if pos else sym.ST.hi[s]))
    return p
def projbox(b): return tuple((proj(l, False), proj(h, True)) if not isinstance(l, Ex) and not isinstance(h, Ex) else (None, None) for l, h in b)
def leafbox(x, box):
    """box read by leaf x ('rd') of an assignment over box"""
    out = []
    for m in x.a[1]:
        if m[0] == 'c': out.append((m[1], m[1]))
        elif m[0] == 'x':
            lo, hi = box[m[1]]
            out.append((lo + m[3], hi + m[3]) if m[2] > 0 else (m[3] - hi, m[3] - lo))
        else: out.append((None, None))
    return tuple(out)
def reads_of(e):
    """[(storage, box)] read by event e"""
    d = e.d
    if e.k in ('w', 'red'):
        out = [(x.a[0], leafbox(x, d['box'])) for x in sym.leaves(d['t']) if x.op == 'rd']
        if e.k == 'w' and d['op'] != '=': out.append((d['st'], d['box']))
        return out
    if e.k == 'er': return [(d['st'], tuple((i, i) for i in d['ix']))]
    if e.k == 'rdv': return [(d['st'], d['box'])]
    return []
def writes_of(e):
    d = e.d
    if e.k == 'w': return [(d['st'], d['box'])]
    if e.k == 'ew': return [(d['st'], tuple((i, i) for i in d['ix']))]
    return []
def empty(b):
    for l, h in b:
        if l is None or h is None or isinstance(l, Ex) or isinstance(h, Ex): continue
        if sym.lt(h, l) is True: return True
    return False
def disjoint(a, b):
    for (l1, h1), (l2, h2) in zip(a, b):
        if l1 is None or l2 is None or isinstance(l1, Ex) or isinstance(l2, Ex): continue
        if sym.lt(h1, l2) is True or sym.lt(h2, l1) is True: return True
    return False
def contains(a, b):
    """a contains b (provably)"""
    for (l1, h1), (l2, h2) in zip(a, b):
        if l1 is None or l2 is None: return False
        if sym.le(l1, l2) is not True or sym.le(h2, h1) is not True: return False
    return True
def same(a, b): return all(x == y or (sym.eq(x[0], y[0]) is True and sym.eq(x[1], y[1]) is True) for x, y in zip(a, b))
def subtract(a, b):
    """list of boxes covering a \\ b, or None if undecidable"""
    if disjoint(a, b): return [a]
    out = []; cur = list(a)
    for d in range(len(a)):
        l1, h1 = cur[d]; l2, h2 = b[d]
        c = sym.lt(l1, l2)
        if c is None: return None
        if c:
            out.append(tuple(cur[:d] + [(l1, l2 - 1)] + cur[d+1:])); l1 = l2
        c = sym.lt(h2, h1)
        if c is None: return None
        if c:
            out.append(tuple(cur[:d] + [(h2 + 1, h1)] + cur[d+1:])); h1 = h2
        cur[d] = (l1, h1)
    return out
def cover_minus(a, bs):
    """remaining part of box a after removing boxes bs: list of boxes; undecidable overlaps are kept"""
    rest = [a]
    for b in bs:
        nr = []
        for r in rest:
            s = subtract(r, b)
            nr += [r] if s is None else [x for x in s if not empty(x)]
        rest = nr
        if not rest: break
    return rest

def binder(p):
    """(symbol, coefficient, offset) when index p is +-(loop binder) + loop-independent offset"""
    if not isinstance(p, Poly): return None
    bs = [x for x in sym.syms(p) if sym.ST.hi[x] is not None]
    if len(bs) != 1: return None
    s = bs[0]; c = p.m.get((s,))
    if c not in (1, -1) or any(s in k and k != (s,) for k in p.m): return None
    return s, c, p - Poly({(s,): c})
def vec(e):
    """(box, value tree) of a write, with loops over single cells turned into one region write in destination coordinates"""
    v = e.d.get('_vec')
    if v is None: v = e.d['_vec'] = _vec(e)
    return v
def vecv(e):
    """like vec, but reads of single cells that do not move with a loop keep the value they had when read"""
    v = e.d.get('_vecv')
    if v is None: v = e.d['_vecv'] = _vec(e, True)
    return v
def _vec(e, keep=False):
    d = e.d
    if e.k == 'w': box, t = d['box'], d['t']
    else: box, t = tuple((i, i) for i in d['ix']), d['v']
    pos = {}
    for k, (l, h) in enumerate(box):
        if l is h or l == h:
            b = binder(l)
            if b and b[0] not in pos: pos[b[0]] = (k, b[1], b[2])
    if not isinstance(t, Ex): return projbox(box), t
    def ixmap(p):
        b = binder(p)
        if b and b[0] in pos:
            k, c, o = pos[b[0]]                 # dest = c*s + o  ->  s = c*(dest-o);  index = b1*s + b2
            f = b[1] * c
            return ('x', k, f, b[2] - o * f)
        if isinstance(p, Poly) and any(sym.ST.hi[x] is not None for x in sym.syms(p)): return ('g', p)
        return ('c', p)
    def f(x):
        if x.op == 'el' and keep and all(ixmap(i)[0] == 'c' for i in x.a[1]): return None
        if x.op == 'el': return sym.mk('rd', x.a[0], tuple(ixmap(i) for i in x.a[1]))
        if x.op == 'rd': return sym.mk('rd', x.a[0], tuple(ixmap(m[1]) if m[0] == 'c' else m for m in x.a[1])) if any(m[0] == 'c' for m in x.a[1]) else None
        if x.op == 'i':
            m = ixmap(x.a[0])
            return sym.mk('ix', *m) if m[0] == 'x' else None
        return None
    return projbox(box), sym.rewrite(t, f)

def events(tree):
    """all events in tree order"""
    for x in tree:
        if isinstance(x, Ev): yield x
        elif isinstance(x, Br):
            for a in x.arms: yield from events(a)
        else: yield from events(x.body)

class Epochs:
    """for every event: the barriers that may be the last one passed before it, each with the branch decisions that
    must have been taken since (decisions on values that are equal in every rank make interval pairs exclusive)"""
    def __init__(self, tree):
        self.at = []            # (event, {barrier id: decisions}, branch context)
        self.bars = []
        self.ctx = ()
        self.frames = []
        self.end = self.walk(tree, {('start',): frozenset()})
    @staticmethod
    def join(a, b):
        if a is None: return b
        if b is None: return a
        r = dict(a)
        for k, v in b.items(): r[k] = r[k] & v if k in r else v
        return r
    def walk(self, tree, st):
        for x in tree:
            if isinstance(x, Ev):
                if st is None: continue
                if x.k == 'bar': self.bars.append(x); st = {x.d['id']: frozenset(self.ctx)}
                else: self.at.append((x, st, self.ctx))
            elif isinstance(x, Br):
                outs = None
                for i in (0, 1):
                    c0 = self.ctx; self.ctx = c0 + ((x.cond, i),)
                    o = None if st is None else {b: d | {(x.cond, i)} for b, d in st.items()}
                    o = self.walk(x.arms[i], o)
                    self.ctx = c0
                    k = x.outs[i]
                    if k is None: outs = self.join(outs, o)
                    elif k in ('break', 'cont', 'ret') and o is not None:
                        kind = {'break': 'loop', 'cont': 'iter', 'ret': 'fn'}[k]
                        for fr in reversed(self.frames):
                            if fr[0] == kind or (kind == 'loop' and fr[0] == 'sym'): fr[1].append(o); break
                st = outs
            else:
                self.frames.append((x.kind, []))
                st = self.walk(x.body, st)
                _, p = self.frames.pop()
                for o in p: st = self.join(st, o)
        return st

class Acc:
    __slots__ = ('r', 'w', 'e', 'box', 'st', 'ctx', 'n', 'leaf')
    def __init__(self, r, w, e, box, st, ctx, n, leaf=None): self.r, self.w, self.e, self.box, self.st, self.ctx, self.n, self.leaf = r, w, e, box, st, ctx, n, leaf

def accesses(run, shared=True):
    """storage/cell -> accesses of every rank, each with its barrier interval"""
    eps = {r: Epochs(t) for r, t in run.items()}
    acc = {}
    for r, ep in eps.items():
        for n, (e, st, ctx) in enumerate(ep.at):
            if e.k in ('w', 'ew', 'er', 'red', 'rdv', 'copyio'):
                for s, b, lf in leaf_reads(e):
                    if s.rank is None:
                        pb = projbox(b)
                        if not empty(pb): acc.setdefault(s, []).append(Acc(r, False, e, pb, st, ctx, n, lf))
                for s, b in writes_of(e):
                    if s.rank is None:
                        pb = projbox(b)
                        if not empty(pb): acc.setdefault(s, []).append(Acc(r, True, e, pb, st, ctx, n))
            elif e.k in ('sr', 'sw'):
                acc.setdefault(e.d['cell'], []).append(Acc(r, e.k == 'sw', e, (), st, ctx, n))
    return eps, acc
def leaf_reads(e):
    d = e.d
    if e.k in ('w', 'red'):
        out = [(x.a[0], leafbox(x, d['box']), x) for x in sym.leaves(d['t']) if x.op == 'rd']
        if e.k == 'w' and d['op'] != '=': out.append((d['st'], d['box'], None))
        return out
    return [(s, b, None) for s, b in reads_of(e)]
def meet(a, b):
    """intersection of boxes; None when a bound comparison is undecidable"""
    out = []
    for (l1, h1), (l2, h2) in zip(a, b):
        if None in (l1, h1, l2, h2): return None
        c = sym.le(l1, l2)
        if c is None: return None
        l = l2 if c else l1
        c = sym.le(h1, h2)
        if c is None: return None
        out.append((l, h1 if c else h2))
    return tuple(out)
def same_value(a, c):
    """two writes store identical values in every cell they share"""
    if a.e.k not in ('w', 'ew') or c.e.k not in ('w', 'ew'): return False
    return a.e.d['op'] == '=' and c.e.d['op'] == '=' and vec(a.e)[1] is vec(c.e)[1]
def prefix(c1, c2): return c2[:len(c1)] == c1
def image(leaf, src, box):
    """cells of box (destination) whose leaf read lies in src"""
    out = list(box)
    for k, m in enumerate(leaf.a[1]):
        if m[0] == 'x':
            lo, hi = src[k]
            l, h = (lo - m[3], hi - m[3]) if m[2] > 0 else (m[3] - hi, m[3] - lo)
            out[m[1]] = (l, h)
        elif m[0] != 'c': return None
    return tuple(out)
def benign(a, c, bar, acc):
    """idempotent-overlap rule; a is a write, c a read or write of another rank; returns reason or None"""
    if c.w: return 'same-value' if same_value(a, c) else None
    if not a.box: return None
    I = meet(a.box, c.box)
    if I is None: return None
    own = [x for x in acc if x.r == c.r and x.w and bar in x.st and prefix(x.ctx, c.ctx)]
    # the reader itself has already stored the same value in those cells
    prev = [x for x in own if x.n < c.n]
    hit = [x for x in prev if same_value(a, x)]
    if hit and not cover_minus(I, [x.box for x in hit]):
        last = max(x.n for x in hit)
        if all(x.n <= last or disjoint(x.box, I) for x in prev): return 'own-copy'
    return None
class Timeline:
    """accesses of all ranks of the joined runs, ordered by barrier interval"""
    def __init__(self, run):
        self.eps, self.acc = accesses(run)
        self.pos = {}
        for b in self.eps[min(self.eps)].bars: self.pos.setdefault(b.d['id'], len(self.pos) + 1)
        self.pos[('start',)] = 0
        self.ord = {}
        self.depth = 0
    def order(self, S):
        o = self.ord.get(S)
        if o is None:
            o = []
            for x in self.acc.get(S, ()):
                ps = [self.pos.get(b, 0) for b in x.st]
                o.append(((max if x.w else min)(ps), x.n, x.w, x))
            o.sort(key=lambda z: z[:3]); self.ord[S] = o
        return o
    def dead(self, c, I, bar, depth=6):
        """the cells of access c (a read by an assignment) that lie in I influence nothing: the values computed from
        them are overwritten before anyone reads them"""
        if c.w or c.e.k not in ('w', 'ew') or c.leaf is None or c.e.d['op'] != '=' or depth == 0: return False
        box, t = vec(c.e)
        if c.e.k != 'w': return False
        D = image(c.leaf, I, box)
        D = D and meet(D, box)
        if D is None: return False
        if empty(D): return True
        S = c.e.d['st']; p0 = self.pos[bar]
        rest = [D]; kills = []; cur = p0; priv = {}
        for p, n, w, x in self.order(S):
            if p < p0 or (p == p0 and (x.r != c.r or x.n <= c.n)): continue
            if p != cur:
                for k in kills: rest = [z for r in rest for z in cover_minus(r, [k])]
                if not rest: return True
                kills = []; priv = {}; cur = p
            if x.w:
                if x.e.d['op'] == '=' and prefix(x.ctx[:len(c.ctx)], c.ctx) and len(x.ctx) <= len(c.ctx):
                    kills.append(x.box)
                    priv[x.r] = [z for r in priv.get(x.r, rest) for z in cover_minus(r, [x.box])]
            else:
                for r in priv.get(x.r, rest):
                    if disjoint(x.box, r): continue
                    J = meet(x.box, r)
                    if J is None or not self.dead(x, J, next(b for b in x.st if self.pos.get(b) == p), depth - 1): return False
        return True
def races(run):
    """conflicting accesses of different ranks not ordered by a barrier: (storage, write, other access, barrier)"""
    tl = Timeline(run); eps, acc = tl.eps, tl.acc
    npair = 0; out = []; ok = {}
    for s, l in acc.items():
        by = {}
        for a in l:
            for b in a.st: by.setdefault(b, []).append(a)
        seen = set()
        for b, es in by.items():
            ws = [a for a in es if a.w]
            for a in ws:
                for c in es:
                    if c.r == a.r: continue
                    if c.w and c.r < a.r: continue
                    npair += 1
                    if a.box and disjoint(a.box, c.box): continue
                    if exclusive(a.ctx + tuple(a.st[b]), c.ctx + tuple(c.st[b])): continue
                    why = benign(a, c, b, es)
                    if not why and a.box and not c.w:
                        I = meet(a.box, c.box)
                        if I is not None and tl.dead(c, I, b): why = 'dead-value'
                    if why: ok[why] = ok.get(why, 0) + 1; continue
                    k = (a.e.loc, c.e.loc, c.w)
                    if k in seen: continue
                    seen.add(k); out.append((s, a, c, b))
    return out, npair, eps, ok
def exclusive(c1, c2):
    """the two accesses sit in opposite arms of one branch whose condition is the same for every rank"""
    d = dict(c1)
    for c, i in c2:
        if c in d and d[c] != i: return True
    return False

def join_runs(ip):
    """one trace per rank for the whole driver: successive advance() calls are separated by a synthetic barrier"""
    out = {}
    for i, run in enumerate(ip.team_runs):
        for r, t in run.items():
            l = out.setdefault(r, [])
            l.append(Ev('bar', None, (), None, dict(id=('run', i)), ()))
            l.extend(t)
    return out
