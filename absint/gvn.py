"""Global value numbering of array programs by random interpretation.

Every array cell's value is a function of the user's inputs; two such functions are compared by evaluating their (abstract, fully
symbolic) expressions in a prime field, inputs being replaced by random field elements that depend on the input's name and the
symbolic cell index. Sums, products and quotients are exact, so algebraically equal expressions always agree; |x| and comparisons
use the quadratic character, which is multiplicative and odd exactly like the sign of a real number; other functions are
uninterpreted. Cells are found by walking back through the writes of the interpreted trace (a per-array SSA form); array bounds,
loop ranges and cell indices stay symbolic in the grid size."""
import sys, hashlib, functools
import sym, analysis
from sym import Poly, Ex
from fractions import Fraction
from interp import Ev, Br, Sc

PR = 2**31 - 1                    # = 3 mod 4: the quadratic character is odd
NL = 6                           # independent evaluations
HALF = (PR - 1) // 2
R = range(NL)
class Undecided(Exception): pass
class Unsupported(Exception): pass

class V:
    __slots__ = ('a', 'mx')
    def __init__(self, a, mx=None): self.a = a; self.mx = mx
    def __eq__(self, o): return isinstance(o, V) and self.a == o.a
    def __hash__(self): return hash(self.a)
    def __add__(s, o):
        o = lift(o)
        if o.__class__ is W: return o + s
        return V(tuple([(x + y) % PR for x, y in zip(s.a, o.a)]))
    __radd__ = __add__
    def __sub__(s, o):
        o = lift(o)
        if o.__class__ is W: return W((s,)) - o
        return V(tuple([(x - y) % PR for x, y in zip(s.a, o.a)]))
    def __rsub__(s, o): return lift(o) - s
    def __mul__(s, o):
        o = lift(o)
        if o.__class__ is W: return o * s
        return V(tuple([x * y % PR for x, y in zip(s.a, o.a)]))
    __rmul__ = __mul__
    def __neg__(s): return V(tuple([-x % PR for x in s.a]))
    def __truediv__(s, o):
        o = lift(o)
        if o.__class__ is W: return W((s,)) / o
        i = _INV.get(o.a)
        if i is None: i = _INV[o.a] = tuple([pow(y, -1, PR) if y else 0 for y in o.a])
        return V(tuple([x * y % PR for x, y in zip(s.a, i)]))
    def __rtruediv__(s, o): return lift(o) / s
    def zero(self): return not any(self.a)
class W:
    """truncated power series in the grid spacing: c[k] is the coefficient (a V) of eps**k, k < W.K; missing ones are zero"""
    __slots__ = ('a', 'mx')
    K = 5
    def __init__(self, c, mx=None): self.a = tuple(c)[:W.K]; self.mx = mx
    def __eq__(self, o): return isinstance(o, W) and all((self[k] - o[k]).zero() for k in range(W.K))
    def __hash__(self): return hash(self.a)
    def __getitem__(self, k): return self.a[k] if k < len(self.a) else ZERO
    def __add__(s, o): o = series(o); n = max(len(s.a), len(o.a)); return W([s[k] + o[k] for k in range(n)])
    __radd__ = __add__
    def __sub__(s, o): o = series(o); n = max(len(s.a), len(o.a)); return W([s[k] - o[k] for k in range(n)])
    def __rsub__(s, o): return series(o) - s
    def __neg__(s): return W([-x for x in s.a])
    def __mul__(s, o):
        if o.__class__ is not W: o = lift(o); return W([x * o for x in s.a])
        n = min(W.K, len(s.a) + len(o.a) - 1); r = []
        for k in range(n):
            t = ZERO
            for i in range(max(0, k - len(o.a) + 1), min(k + 1, len(s.a))): t = t + s.a[i] * o.a[k - i]
            r.append(t)
        return W(r)
    __rmul__ = __mul__
    def __truediv__(s, o):
        if o.__class__ is not W: o = lift(o); return W([x / o for x in s.a])
        b = list(o.a) + [ZERO] * (W.K - len(o.a)); a = list(s.a) + [ZERO] * (W.K - len(s.a))
        while b and b[0].zero():
            if not a or not a[0].zero(): raise Unsupported('division by a vanishing series')
            a, b = a[1:], b[1:]
        if not b: raise Unsupported('division by zero series')
        r = []
        for k in range(len(b)):
            t = a[k]
            for i in range(1, k + 1): t = t - b[i] * r[k - i]
            r.append(t / b[0])
        return W(r)
    def __rtruediv__(s, o): return series(o) / s
    def lead(self):
        for x in self.a:
            if not x.zero(): return x
        return ZERO
    def zero(self): return all(x.zero() for x in self.a)
    def order(self):
        """index of the first non-vanishing coefficient (None: vanishes to the truncation)"""
        for k, x in enumerate(self.a):
            if not x.zero(): return k
        return None
def series(x): return x if x.__class__ is W else W((lift(x),))
@functools.lru_cache(None)
def const(f):
    f = Fraction(f)
    return V((f.numerator * pow(f.denominator, PR - 2, PR) % PR,) * NL)
def lift(x): return x if x.__class__ is V or x.__class__ is W else const(x)
ZERO, ONE, HALFV = const(0), const(1), const(Fraction(1, 2))
def H(*k):
    """uninterpreted value named k"""
    b = hashlib.blake2b(repr(k).encode(), digest_size=4 * NL).digest()
    return V(tuple([int.from_bytes(b[4*i:4*i+4], 'little') % PR for i in R]))
def HP(*k):
    """uninterpreted positive value"""
    v = H(*k); return v * v
_CHI = {}; _INV = {}
def chi(x):
    if x.__class__ is W: return chi(x.lead())
    r = _CHI.get(x.a)
    if r is None: r = _CHI[x.a] = V(tuple([(0 if y == 0 else 1 if pow(y, HALF, PR) == 1 else PR - 1) for y in x.a]))
    return r
def vabs(x): return x * chi(x)
def gt0(x):
    """indicator of x > 0"""
    if x.__class__ is W: return gt0(x.lead())
    return V(tuple([1 if y == 1 else 0 for y in chi(x).a]))
def iszero(x):
    if x.__class__ is W: return const(1 if x.zero() else 0)
    return V(tuple([1 if y == 0 else 0 for y in x.a]))
def ext(op, *xs):
    ps = []
    for x in xs:
        x = lift(x)
        for p in (x.mx[1] if x.mx and x.mx[0] == op else (x,)):
            if p not in ps: ps.append(p)
    if len(ps) == 1: return ps[0]
    if not ps: return V(H('empty', op).a, (op, ()))
    if len(ps) == 2:
        a, b = ps; h = vabs(a - b)
        r = (a + b + h) * HALFV if op == 'max' else (a + b - h) * HALFV
    else:
        # the member that wins against all others; if the sign character yields none, the mean: symmetric, homogeneous and dual like the true one
        n = len(ps); t = ONE if op == 'max' else -ONE; w = [ONE] * n
        for i in range(n):
            for j in range(i):
                c = chi(ps[i] - ps[j]) * t
                w[i] = w[i] * (ONE + c); w[j] = w[j] * (ONE - c)
        tot = w[0]
        for x in w[1:]: tot = tot + x
        z = iszero(tot)
        tot = tot + z * const(n); r = ps[0] * (w[0] + z)
        for x, y in zip(ps[1:], w[1:]): r = r + x * (y + z)
        r = r / tot
    return r.__class__(r.a, (op, tuple(ps)))
def vmax(*x): return ext('max', *x)
def vmin(*x): return ext('min', *x)
def pos(x): return (x + vabs(x)) * HALFV
def negp(x): return (x - vabs(x)) * HALFV
def select(c, a, b):
    if a == b: return a
    return c * a + (ONE - c) * b
def truth(c):
    if c.__class__ is W: return const(0 if c.zero() else 1)
    return V(tuple([1 if y else 0 for y in c.a]))

# ---------------------------------------------------------------------------------------------- merging of threads
def hasbar(x):
    if isinstance(x, Ev): return x.k == 'bar'
    if isinstance(x, Br): return any(hasbar(y) for a in x.arms for y in a)
    return any(hasbar(y) for y in x.body)
class MB:
    """branch taken by all threads alike"""
    def __init__(self, brs, arms): self.brs, self.arms = brs, arms
class MS:
    def __init__(self, scs, body): self.scs, self.body = scs, body
def merge(lists, ranks):
    """one sequential order of the threads' traces: barrier interval by barrier interval, thread by thread"""
    if len(lists) == 1 and len(ranks) == 1 and ranks[0] == 0: return lists[0]
    segs = []
    for l in lists:
        s = [[]]; syn = []
        for x in l:
            if hasbar(x): syn.append(x); s.append([])
            else: s[-1].append(x)
        segs.append((s, syn))
    n = len(segs[0][1])
    if any(len(y) != n for s, y in segs): raise Unsupported('threads do not synchronise alike')
    out = []
    for i in range(n + 1):
        for (s, y), r in zip(segs, ranks):
            if s[i]: out.append(Sc('rank', r, '?')); out += s[i]
        if i == n: break
        xs = [y[i] for s, y in segs]
        if isinstance(xs[0], Ev): out.append(xs[0])
        elif isinstance(xs[0], Br): out.append(MB(xs, [merge([x.arms[k] for x in xs], ranks) for k in (0, 1)]))
        else: out.append(MS(xs, merge([x.body for x in xs], ranks)))
    return out

# ---------------------------------------------------------------------------------------------- SSA
class Node:
    """one version of an array: 'w' a region write, 'in' a user input, 'phi' a join, 'recv' a message"""
    __slots__ = ('k', 'box', 't', 'op', 'prev', 'rd', 'ord', 'c', 'a', 'b', 'e', 'st', 'm')
    def __init__(self, k, **d):
        self.k = k; self.m = {}
        for x, y in d.items(): setattr(self, x, y)

FIELDS = ('gc', 'ndt', 'ndtt', 'src', 'fld')
class Proc:
    """SSA form of one process: feeds events of its merged trace"""
    def __init__(self, g, ip, rank=0, nproc=1):
        self.g, self.ip, self.rank, self.nproc = g, ip, rank, nproc
        self.env = {}; self.el = {}; self.red = {}; self.frames = []; self.user = False; self.ord = {}; self.obs = []; self.wraps = {}; self.cnt = {}; self.marks = []; self.colls = []; self.redm = {}; self.conds = []
    def snap(self, t):
        """current versions of every array read by tree t"""
        return {x.a[0]: self.env.get(x.a[0]) for x in self.leaves(t)}
    def leaves(self, t):
        return [x for x in sym.leaves(t) if x.op == 'rd'] if isinstance(t, Ex) else ()
    def run(self, tree): self.walk(tree)
    def write(self, e):
        d = e.d; s = d['st']
        box, t = analysis.vecv(e)
        if any(l is None for l, h in box): raise Unsupported('box of %s at %s' % (s, e.loc))
        if analysis.empty(box): return
        if self.user and isinstance(t, Ex) and t.op == 'in':
            n = t.a[0]; k = self.ord.get(n, 0); self.ord[n] = k + 1
            self.g.inputs.setdefault((n, k), s.name)
            nd = Node('in', box=box, t=(n, k), prev=self.env.get(s), e=e, st=s)
        else:
            o = 0
            if isinstance(t, Ex) and any(z.op == 'in' and str(z.a[0]).startswith(FIELDS) for z in exprs(t)):
                k = ('field', e.fn[0] if e.fn else 0, e.loc, self.curank); o = self.cnt[k] = self.cnt.get(k, -1) + 1
            nd = Node('w', box=box, t=t, op=d['op'], prev=self.env.get(s), rd=self.snap(t), ord=o, e=e, st=s)
        self.env[s] = nd
    curank = 0
    def walk(self, tree):
        """returns None when the end is reached, else 'dead'"""
        for x in tree:
            if isinstance(x, Ev):
                k = x.k
                if k in ('w', 'ew'): self.write(x)
                elif k == 'er': self.el.setdefault(x.d['ex'], self.env.get(x.d['st']))
                elif k == 'red': self.red.setdefault(x.d['ex'], self.snap(x.d['t']))
                elif k == 'coll':
                    if x.d.get('x') is not None: self.colls.append(x.d['x'])
                elif k == 'obs': self.obs.append((x.d['st'], x.d['box'], x.d['eq'], self.env.get(x.d['st'])))
                elif k == 'mark':
                    self.user = x.d['name'] == 'begin_user' or (self.user and x.d['name'] != 'end_user')
                    self.marks.append((x.d['name'], x.d.get('vals'), dict(self.env)))
                elif k == 'wrap': self.wrap(x)
                elif k == 'isend': self.send(x)
                elif k == 'irecv': self.recv(x)
                continue
            if isinstance(x, (Br, MB)):
                cond = x.cond if isinstance(x, Br) else x.brs[0].cond
                outs_ = x.outs if isinstance(x, Br) else x.brs[0].outs
                e0 = self.env; res = []
                if isinstance(cond, Ex) and any(z.op == 'red' for z in exprs(cond)): self.conds.append(cond)
                for i in (0, 1):
                    self.env = dict(e0)
                    dead = self.walk(x.arms[i])
                    o = outs_[i]
                    if dead: res.append(None)
                    elif o is None: res.append(self.env)
                    else:
                        kind = {'break': 'loop', 'cont': 'iter', 'ret': 'fn'}.get(o)
                        if kind:
                            for fr in reversed(self.frames):
                                if fr[0] == kind or (kind == 'loop' and fr[0] == 'sym'): fr[1].append((list(fr[2]) + [(cond, i)], self.env)); break
                        res.append(None)
                if res[0] is None and res[1] is None: return 'dead'
                if res[0] is None or res[1] is None:
                    live = 1 if res[0] is None else 0
                    self.env = res[live]
                    for fr in self.frames: fr[2].append((cond, live))
                else: self.env = self.phi([(cond, 0)], res[0], res[1])
                continue
            if getattr(x, 'kind', None) == 'team':
                run = self.ip.team_runs[x.info]
                self.curank = 0; self.walk(merge([run[r] for r in sorted(run)], sorted(run)))
                continue
            kind = x.kind if isinstance(x, Sc) else x.scs[0].kind
            if kind == 'rank': self.curank = x.info; continue
            fr = (kind, [], []); self.frames.append(fr)
            dead = self.walk(x.body)
            self.frames.pop()
            cur = None if dead else self.env
            for guards, env in fr[1]:
                cur = env if cur is None else self.phi(guards, env, cur)
            if cur is None: return 'dead'
            self.env = cur
        return None
    def phi(self, guards, a, b):
        """versions after a join: a if all guards hold, else b"""
        out = dict(b)
        for s in set(a) | set(b):
            x, y = a.get(s), b.get(s)
            if x is not y: out[s] = Node('phi', c=tuple(guards), a=x, b=y, prev=common(x, y), st=s)
        return out
    # messages -------------------------------------------------------
    def wrap(self, x):
        st, raw = x.d['st'], x.d['raw']
        prev = self.wraps.get(raw)
        n = self.env.get(('raw', raw))
        if n is not None: self.env[st] = Node('alias', a=n, st=st)
        self.wraps[raw] = st
    def send(self, x):
        raw = x.d['st']; peer = x.d['peer']; key = (self.rank, peer, x.d['tag'])
        k = self.cnt[('s',) + key] = self.cnt.get(('s',) + key, -1) + 1
        w = self.wraps.get(raw)
        self.g.msgs[key + (k,)] = (w, self.env.get(w), x)
    def recv(self, x):
        raw = x.d['st']; peer = x.d['peer']; key = (peer, self.rank, x.d['tag'])
        k = self.cnt[('r',) + key] = self.cnt.get(('r',) + key, -1) + 1
        self.g.recvd.append(key + (k,))
        if raw is not None: self.env[('raw', raw)] = Node('recv', t=key + (k,), st=raw, e=x, c=self)
def exprs(t, seen=None):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, Ex) or x in seen: continue
        seen.add(x); yield x
        for y in x.a:
            if isinstance(y, Ex): st.append(y)
def common(x, y):
    """newest version both chains share"""
    seen = set()
    n = x
    k = 0
    while n is not None and k < 400: seen.add(n); n = nxt(n); k += 1
    n = y; k = 0
    while n is not None and k < 400:
        if n in seen: return n
        n = nxt(n); k += 1
    return None
def nxt(n): return getattr(n, 'prev', None)

class GVN:
    def __init__(self):
        _LE.clear()
        if len(_CHI) > 500000: _CHI.clear()
        if len(_INV) > 500000: _INV.clear()
        self.msgs = {}; self.recvd = []; self.inputs = {}; self.undef = []; self.leaf = None; self.procs = []
        self.ptv = {}; self.nev = 0
    def add(self, ip, rank=0, nproc=1):
        p = Proc(self, ip, rank, nproc); p.run(ip.root); self.procs.append(p); return p
    # ------------------------------------------------------------ evaluation
    def inval(self, n, k, pt):
        """value of an input array at a cell; self.leaf may override"""
        if self.leaf:
            r = self.leaf(n, k, pt)
            if r is not None: return r
        return (HP if n in sym.POSITIVE else H)('input', n, k, tuple(map(repr, pt)))
    def poly(self, p):
        if isinstance(p, int): return const(p)
        r = ZERO
        for k, c in p.m.items():
            t = const(c)
            for s in k: t = t * HP('size', s)
            r = r + t
        return r
    def cell(self, n, pt, p):
        """value of cell pt in version n"""
        while n is not None:
            k = n.k
            if k == 'phi':
                if n.a is not None and n.b is not None or True:
                    m = n.m.get(pt)
                    if m is not None: return m
                    if not self.touched(n.a, n.prev, pt) and not self.touched(n.b, n.prev, pt): n = n.prev; continue
                    a = self.cell(n.a, pt, p); b = self.cell(n.b, pt, p)
                    if a != b:
                        c = ONE
                        for cond, arm in n.c:
                            x = self.cond(cond, p); c = c * (x if arm == 0 else ONE - x)
                        a = select(c, a, b)
                    n.m[pt] = a; return a
            if k == 'alias': n = n.a; continue
            if k == 'recv': return self.message(n, pt)
            i = inside(pt, n.box)
            if i is None: raise Undecided('%s in %s (%s, written at %s)' % (pt, n.box, n.st, n.e.loc))
            if i:
                m = n.m.get(pt)
                if m is not None: return m
                self.nev += 1
                if k == 'in': r = self.inval(n.t[0], n.t[1], pt)
                else:
                    r = self.tree(n.t, pt, n, p) if isinstance(n.t, Ex) else lift(n.t)
                    if n.op != '=':
                        o = self.cell(n.prev, pt, p)
                        r = {'+=': lambda: o + r, '-=': lambda: o - r, '*=': lambda: o * r, '/=': lambda: o / r}[n.op]()
                n.m[pt] = r; return r
            n = n.prev
        return None
    def touched(self, n, stop, pt):
        while n is not stop and n is not None:
            if n.k in ('phi', 'alias', 'recv'): return True
            if inside(pt, n.box) is not False: return True
            n = n.prev
        return False
    def message(self, n, pt):
        m = self.msgs.get(n.t)
        if m is None: raise Unsupported('no message %s' % (n.t,))
        w, node, e = m
        q = tuple(x for x in pt)
        src = next(p for p in self.procs if p.rank == n.t[0]) if any(p.rank == n.t[0] for p in self.procs) else None
        return self.cell(node, q, src)
    def cond(self, c, p):
        if not isinstance(c, Ex): return truth(lift(int(c)))
        return self.tree(c, (), None, p)
    def tree(self, t, pt, node, p, sub=None):
        memo = {}
        def ix(m):
            if m[0] == 'c': return m[1] if not sub or isinstance(m[1], int) else subst(m[1], sub)
            if m[0] == 'x':
                o = subst(m[3], sub) if sub else m[3]
                return pt[m[1]] + o if m[2] > 0 else o - pt[m[1]]
            raise Unsupported('index map %r' % (m,))
        def ev(e):
            r = memo.get(e)
            if r is None: r = memo[e] = ev1(e)
            return r
        def ev1(e):
            o, a = e.op, e.a
            if o == 'k': return const(a[0])
            if o == 'in':
                n = a[0]
                if isinstance(n, str) and n.startswith(FIELDS): return self.inval(n, (node.ord if node else 0), pt)
                if self.leaf:
                    r = self.leaf(n, None, ())
                    if r is not None: return r
                return (HP if n in sym.POSITIVE or n in ('epsilon', 'tiny', 'max') else H)('in', a)
            if o == 'i': return self.poly(a[0])
            if o == 'ix': return self.poly(ix(a))
            if o == 'rd':
                q = tuple(ix(m) for m in a[1])
                v = self.cell(node.rd.get(a[0]), q, p)
                if v is None:
                    self.undef.append((a[0], q, node.e.loc)); v = H('undef', repr(a[0]), tuple(map(repr, q)))
                return v
            if o == 'el':
                n = p.el.get(e)
                v = self.cell(n, a[1], p)
                if v is None: self.undef.append((a[0], a[1], '?')); v = H('undef', repr(a[0]), tuple(map(repr, a[1])))
                return v
            if o == '+': return ev(a[0]) + ev(a[1])
            if o == '-': return ev(a[0]) - ev(a[1]) if len(a) == 2 else -ev(a[0])
            if o == '*': return ev(a[0]) * ev(a[1])
            if o == '/': return ev(a[0]) / ev(a[1])
            if o == 'neg': return -ev(a[0])
            if o == 'abs': return vabs(ev(a[0]))
            if o in ('max', 'min'): return ext(o, ev(a[0]), ev(a[1]))
            if o in ('where', 'sel'): return select(truth(ev(a[0])), ev(a[1]), ev(a[2]))
            if o.startswith('cmp'):
                x, y = ev(a[0]), ev(a[1]); c = o[3:]
                if c == '>': return gt0(x - y)
                if c == '<': return gt0(y - x)
                if c == '>=': return ONE - gt0(y - x)
                if c == '<=': return ONE - gt0(x - y)
                z = iszero(x - y)
                return z if c == '==' else ONE - z
            if o == '!': return ONE - truth(ev(a[0]))
            if o == '&&': return truth(ev(a[0])) * truth(ev(a[1]))
            if o == '||': x, y = truth(ev(a[0])), truth(ev(a[1])); return x + y - x * y
            if o == 'pow' and isinstance(a[1], Ex) and a[1].op == 'k' and a[1].a[0].denominator == 1 and 0 <= a[1].a[0] < 16:
                r = ONE; x = ev(a[0])
                for _ in range(int(a[1].a[0])): r = r * x
                return r
            if o == 'sqrt':
                x = ev(a[0])
                return HP('sqrt', x.a) if x.__class__ is W else V(tuple([pow(y, (PR + 1) // 4, PR) for y in x.a]))   # multiplicative, and |y| for y*y
            if o == 'red': return self.reduction(e, p, binding(node, pt))
            if o == 'allred':
                k = next(i for i, z in enumerate(p.colls) if z.a[-1] == a[-1]); r = None
                for z in self.procs:
                    v = self.tree(z.colls[k].a[1], (), None, z)
                    r = v if r is None else ext('max', r, v) if 'max' in a[0] else ext('min', r, v) if 'min' in a[0] else r + v
                return r
            if o.startswith('pow') and o[3:].isdigit() and len(a) == 1:
                r = ONE; x = ev(a[0])
                for _ in range(int(o[3:])): r = r * x
                return r
            return H('fn', o, tuple(ev(x).a if isinstance(x, Ex) else repr(x) for x in a))
        return ev(t)
    # a reduction over a symbolic range stands for its restriction to a fixed set of probe cells, weighted per coordinate: additive over
    # any partition of the range, hence equal for equal sums however they are split up
    def reduction(self, e, p, sub):
        k = (e, tuple(sub.items()) if sub and any(z in sub for x in sym.leaves(e.a[2]) if x.op == 'rd' for m in x.a[1] for z in sym.syms(m[1] if m[0] == 'c' else m[3])) else None)
        r = p.redm.get(k)
        if r is None: r = p.redm[k] = self._reduction(e, p, sub if k[1] else None)
        return r
    def _reduction(self, e, p, sub):
        op, _, t, sh = e.a
        if self.opaque and op in ('sum', 'max', 'min') and not any(isinstance(n, int) for n in sh): return H('reduction', op, e.id, repr(sorted(sub.items(), key=repr)) if sub else '')
        rd = p.red[e]
        ref = [None] * len(sh)
        for x in sorted((x for x in sym.leaves(t) if x.op == 'rd'), key=lambda x: x.id):
            for m in x.a[1]:
                if m[0] == 'x' and ref[m[1]] is None: ref[m[1]] = m
        lst = []
        for k, n in enumerate(sh):
            if isinstance(n, int): lst.append([(i, ONE) for i in range(n)]); continue
            m = ref[k]
            if m is None or m[2] < 0: raise Unsupported('reduction over %r' % (sh,))
            off = subst(m[3], sub) if sub else m[3]
            lo, hi = off, off + n - 1
            c = []
            for g, w in self.probes(n, lo):
                i = inside((g,), ((lo, hi),))
                if i is None: raise Undecided('probe %r in %r..%r' % (g, lo, hi))
                if i: c.append((g - off, H('weight', repr(w)) if 'sum' in op else ONE))
            lst.append(c)
        import itertools
        acc = None
        nd = Node('w', rd=rd, e=Ev('red', '?', (), None, {}, ()), ord=0)
        for cs in itertools.product(*lst):
            v = self.tree(t, tuple(c for c, w in cs), nd, p, sub)
            if 'sum' in op:
                for c, w in cs: v = v * w
                acc = v if acc is None else acc + v
            elif op in ('max', 'min'): acc = v if acc is None else ext(op, acc, v)
            elif op in ('any', 'all'):
                v = truth(v); acc = v if acc is None else acc * v if op == 'all' else acc + v - acc * v
            else: raise Unsupported('reduction %s' % op)
        if acc is None: acc = ZERO if 'sum' in op else V(H('empty', op).a, (op, ()))
        return acc
    def probes(self, n, lo):
        out = []
        for s in sorted(sym.syms(n) | sym.syms(lo)):
            q = Poly({(s,): 1})
            for g in ([q * 3 + 1, q * 8 + 1] if s in self.split else [q * 8 + 1]): out.append((self.pmap.get(s, lambda x: x)(g), g))
        return out
    opaque = False                    # reductions stand for arbitrary values
    pmap = {}                         # symbol -> map of probe coordinates (runs whose cells are relabelled copies of another run's)
    split = ('q0', 'q1', 'q2')
def binding(node, pt):
    """loop indices of a write to single cells in a loop, given the cell"""
    if node is None or node.e.k != 'ew': return None
    out = {}
    for k, i in enumerate(node.e.d['ix']):
        b = analysis.binder(i)
        if b and b[0] not in out: out[b[0]] = (pt[k] - b[2]) * b[1]
    return out
def subst(x, sub):
    if isinstance(x, int): return x
    for s in list(sym.syms(x)):
        if s in sub: x = sym.subst(x, s, sub[s])
    return x
_LE = {}
def linear(p):
    """(symbol, slope, offset) of a coordinate that is linear in one grid size; None otherwise"""
    r = p.lin
    if r == 0:
        r = None
        ks = [k for k in p.m if k]
        if len(ks) == 1 and len(ks[0]) == 1 and sym.ST.hi.get(ks[0][0], 0) is None: r = (ks[0][0], p.m[ks[0]], p.m.get((), 0))
        p.lin = r
    return r
def le(a, b):
    """a <= b for every grid size: True, False, or None if that depends on the size"""
    if a.__class__ is int:
        if b.__class__ is int: return a <= b
        lb = linear(b)
        if lb is not None: s, m, c = lb; c -= a
        else: s = None
    elif b.__class__ is int:
        la = linear(a)
        if la is not None: s, m, c = la; m = -m; c = b - c
        else: s = None
    else:
        la, lb = linear(a), linear(b)
        if la is not None and lb is not None and la[0] == lb[0]: s = la[0]; m = lb[1] - la[1]; c = lb[2] - la[2]
        else: s = None
    if s is not None:
        if m == 0: return c >= 0
        v = m * sym.ST.lo[s] + c
        if m > 0: return True if v >= 0 else None
        return False if v < 0 else None
    k = (a, b)
    r = _LE.get(k, 0)
    if r == 0: r = _LE[k] = sym.le(a, b)
    return r
def inside(pt, box):
    """is the cell inside the box: True, False or None (depends on the grid size)"""
    und = False
    for x, (l, h) in zip(pt, box):
        a = le(l, x)
        if a is False: return False
        b = le(x, h)
        if a is False or b is False: return False
        if a is None or b is None: und = True
    return None if und else True

# ---------------------------------------------------------------------------------------------- helpers for the checks
def deep(fn, *a):
    """run fn on a thread with a large stack (value chains are followed recursively)"""
    import threading
    out = {}
    def go():
        try: out['r'] = fn(*a)
        except BaseException as e: out['e'] = e
    sys.setrecursionlimit(1000000); old = threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go); t.start(); t.join(); threading.stack_size(old)
    if 'e' in out: raise out['e']
    return out['r']
def definer(g, n, pt):
    """the version whose statement wrote the cell (None at a join that merges different values)"""
    while n is not None:
        if n.k == 'alias': n = n.a; continue
        if n.k == 'phi':
            if not g.touched(n.a, n.prev, pt) and not g.touched(n.b, n.prev, pt): n = n.prev; continue
            return n
        if n.k == 'recv':
            m = g.msgs.get(n.t)
            if not m: return n
            n = m[1]; continue
        if inside(pt, n.box): return n
        n = n.prev
    return None
def operands(g, n, pt, p):
    """[(version, cell)] the statement of version n reads to define the cell"""
    if n.k == 'phi': return [(n.a, pt), (n.b, pt)]
    if n.k != 'w' or not isinstance(n.t, Ex): return []
    out = []
    for x in sorted((x for x in sym.leaves(n.t) if x.op == 'rd'), key=lambda x: x.id):
        q = []
        for m in x.a[1]: q.append(m[1] if m[0] == 'c' else pt[m[1]] + m[3] if m[2] > 0 else m[3] - pt[m[1]])
        out.append((n.rd.get(x.a[0]), tuple(q)))
    if n.op != '=': out.append((n.prev, pt))
    return out
def blame(ga, na, pa, gb, nb, pb, pt, ptb=None):
    """statement of run b that first makes the cell differ from run a"""
    qa, qb = pt, ptb or pt
    for _ in range(20000):
        da, db = definer(ga, na, qa), definer(gb, nb, qb)
        if db is None: return None
        if da is None: return db
        oa, ob = operands(ga, da, qa, pa), operands(gb, db, qb, pb)
        if len(oa) != len(ob): return db
        nxt_ = None
        for (m, x), (k, y) in zip(oa, ob):
            try: va, vb = ga.cell(m, x, pa), gb.cell(k, y, pb)
            except Exception: continue
            if va != vb: nxt_ = (m, x, k, y); break
        if nxt_ is None: return db
        na, qa, nb, qb = nxt_
    return db
def site(ip, n):
    """function and source position of a version's statement"""
    if n is None: return '?', '?'
    e = getattr(n, 'e', None)
    if e is None:
        n = n.a or n.b
        e = getattr(n, 'e', None) if n is not None else None
    if e is None: return 'join', '?'
    from framework import fname
    return fname(ip, e.fn), e.loc
