"""Integer domain: polynomials over width symbols, with bounds; real domain: hash-consed expression DAG."""
from fractions import Fraction

class Imprecise(Exception):
    """the abstract domain cannot represent this"""

class Symtab:
    """bounds of integer symbols. base symbols: [lo, inf); binders: [lo, hi] (polys over earlier symbols)"""
    def __init__(self):
        self.lo = {}; self.hi = {}; self.order = {}; self.n = 0; self.derived = {}
    def base(self, name, lo):
        self.lo[name] = lo; self.hi[name] = None; self.order[name] = self.n; self.n += 1
        return Poly({(name,): 1})
    def binder(self, name, lo, hi):
        self.lo[name] = lo; self.hi[name] = hi; self.order[name] = self.n; self.n += 1
        return Poly({(name,): 1})

ST = Symtab()
def reset():
    global ST
    ST = Symtab(); _CMP.clear()

_CMP = {}
class Poly:
    __slots__ = ('m', 'h', 'lin')
    def __init__(self, m): self.m = m; self.h = hash(frozenset(m.items())); self.lin = 0
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o or isinstance(o, Poly) and self.h == o.h and self.m == o.m
    def __ne__(self, o): return not self == o
    def __add__(self, o):
        if o.__class__ is int:
            if not o: return self
            m = dict(self.m); c = m.get((), 0) + o
            if c: m[()] = c
            else: m.pop((), None)
            return Poly(m)
        return padd(self, o)
    __radd__ = __add__
    def __sub__(self, o): return self + -o if o.__class__ is int else padd(self, pmul(o, -1))
    def __rsub__(self, o): return padd(o, pmul(self, -1))
    def __mul__(self, o): return pmul(self, o)
    __rmul__ = __mul__
    def __neg__(self): return pmul(self, -1)
    def __repr__(self):
        t = []
        for k, c in sorted(self.m.items(), key=lambda x: (-len(x[0]), x[0])):
            n = '*'.join(k)
            t.append(str(c) if not k else n if c == 1 else '-' + n if c == -1 else '%d*%s' % (c, n))
        return '+'.join(t).replace('+-', '-')
def norm(m):
    m = {k: c for k, c in m.items() if c}
    if not m: return 0
    if len(m) == 1 and () in m: return m[()]
    return Poly(m)
def pm(x): return x.m if isinstance(x, Poly) else ({(): x} if x else {})
def padd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    r = dict(pm(a))
    for k, c in pm(b).items(): r[k] = r.get(k, 0) + c
    return norm(r)
def pmul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    r = {}
    for k1, c1 in pm(a).items():
        for k2, c2 in pm(b).items():
            k = tuple(sorted(k1 + k2)); r[k] = r.get(k, 0) + c1 * c2
    return norm(r)
def subst(p, s, v):
    if isinstance(p, int): return p
    r = 0
    for k, c in p.m.items():
        t = c
        for x in k: t = pmul(t, v if x == s else Poly({(x,): 1}))
        r = padd(r, t)
    return r
def syms(p):
    if isinstance(p, int): return set()
    return {x for k in p.m for x in k}
def lower(p):
    """greatest provable integer lower bound, or None"""
    if isinstance(p, int): return p
    r = _CMP.get(p)
    if r is None:
        r = (_lower(p),); _CMP[p] = r
    return r[0]
def _lower(p):
    bs = [s for s in syms(p) if ST.hi[s] is not None]
    if bs:
        s = max(bs, key=lambda x: ST.order[x])
        # linear in s?
        c = {}; rest = {}
        for k, v in p.m.items():
            n = k.count(s)
            if n > 1: return None
            if n: kk = list(k); kk.remove(s); c[tuple(kk)] = v
            else: rest[k] = v
        c = norm(c)
        l = lower(c)
        if l is not None and l >= 0: return lower(subst(p, s, ST.lo[s]))
        u = upper(c)
        if u is not None and u <= 0: return lower(subst(p, s, ST.hi[s]))
        return None
    for s in syms(p): p = subst(p, s, padd(Poly({(s,): 1}), ST.lo[s]))
    if isinstance(p, int): return p
    for k, c in p.m.items():
        if k and c < 0: return None
    return p.m.get((), 0)
def upper(p):
    if isinstance(p, int): return p
    l = lower(-p)
    return None if l is None else -l
def lt(a, b):
    d = padd(a, pmul(b, -1))
    u = upper(d)
    if u is not None and u < 0: return True
    l = lower(d)
    if l is not None and l >= 0: return False
    return None
def le(a, b): return lt(a, padd(b, 1))
def eq(a, b):
    d = padd(a, pmul(b, -1))
    if isinstance(d, int): return d == 0
    l = lower(d); u = upper(d)
    if l is not None and l > 0 or u is not None and u < 0: return False
    return None
def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def pdiv(a, b):
    """C++ integer division"""
    if isinstance(a, int) and isinstance(b, int):
        if b == 0: raise Imprecise('division by zero')
        return cdiv(a, b)
    if isinstance(b, int) and b > 0:
        l = lower(a)
        if l is not None and l >= 0 and all(c % b == 0 for k, c in pm(a).items() if k):
            return norm({k: (c // b) for k, c in pm(a).items()})
        u = upper(a)
        if u is not None and u <= 0: return -pdiv(-a, b)
        if l is not None and l >= 0:
            key = ('div', a, b)
            if key not in ST.derived:
                u = a
                q, _ = pbound_div(a, b)
                ST.derived[key] = ST.binder('div#%d' % len(ST.derived), 0 if l < b else l // b, q)
            return ST.derived[key]
    if a == b: return 1
    raise Imprecise('integer division %r / %r' % (a, b))
def pbound_div(a, b):
    """upper bound poly for a//b, a>=0: drop fractional parts upward"""
    return norm({k: -((-c) // b) for k, c in pm(a).items()}), None
def pmod(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b * cdiv(a, b)
    if isinstance(b, int) and b > 0:
        l = lower(a)
        if l is not None and l >= 0 and all(c % b == 0 for k, c in pm(a).items() if k):
            return pm(a).get((), 0) % b
    l = lower(a); lb = lower(b)
    if l is not None and l >= 0 and lb is not None and lb > 0:
        if lt(a, b): return a
        if not lt(a, b) is None and lt(a, b) is False and lt(a, b + b): return a - b
        key = ('mod', a, b)
        if key not in ST.derived:
            ST.derived[key] = ST.binder('mod#%d' % len(ST.derived), 0, b - 1)
        return ST.derived[key]
    raise Imprecise('integer modulo %r %% %r' % (a, b))
def pmin(a, b):
    r = le(a, b)
    if r is None: raise Imprecise('min(%r,%r)' % (a, b))
    return a if r else b
def pmax(a, b):
    r = le(a, b)
    if r is None: raise Imprecise('max(%r,%r)' % (a, b))
    return b if r else a

# ---------------------------------------------------------------- real / opaque expressions
class Ex:
    __slots__ = ('op', 'a', 'id')
    def __init__(self, op, a, i): self.op = op; self.a = a; self.id = i
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
_EX = {}
def mk(op, *a):
    k = (op, a)
    e = _EX.get(k)
    if e is None:
        e = Ex(op, a, len(_EX)); _EX[k] = e
    return e
def K(v): return mk('k', Fraction(v))
def isk(e): return e.op == 'k'
def ar(op, x, y):
    if x.op == 'k' and y.op == 'k':
        a, b = x.a[0], y.a[0]
        if op == '+': return K(a + b)
        if op == '-': return K(a - b)
        if op == '*': return K(a * b)
        if op == '/' and b != 0: return K(a / b)
    return mk(op, x, y)
def neg(x): return K(-x.a[0]) if x.op == 'k' else mk('neg', x)
POSITIVE = {'dt', 'di', 'dj', 'dk', 'max_courant', 'prs_tol', 'vip_eps', 'g0', 'eta', 'Tht_ref', 'smg_c', 'c_m', 'g', 'cdrag', 'prandtl_num'}
_SIGN = {}
def sign(e):
    """'+', '-', '0' or None (unknown) for a real expression over the (positive) inputs"""
    r = _SIGN.get(e, 0)
    if r == 0: r = _SIGN[e] = _sign(e)
    return r
def _sign(e):
    o, a = e.op, e.a
    if o == 'k': return '+' if a[0] > 0 else '-' if a[0] < 0 else '0'
    if o == 'in': return '+' if a[0] in POSITIVE else None
    if o == 'neg':
        s = sign(a[0]); return {'+': '-', '-': '+', '0': '0'}.get(s)
    if o in ('*', '/') and len(a) == 2:
        x, y = sign(a[0]), sign(a[1])
        if x is None or y is None or (o == '/' and y == '0'): return None
        return '0' if '0' in (x, y) else '+' if x == y else '-'
    if o == '+':
        x, y = sign(a[0]), sign(a[1])
        return x if y == '0' or x == y else y if x == '0' else None
    if o == '-':
        x, y = sign(a[0]), sign(a[1])
        if y == '0': return x
        if x == '0': return {'+': '-', '-': '+'}.get(y)
        return x if x and y and x != y else None
    if o == 'sqrt': return sign(a[0]) if sign(a[0]) in ('+', '0') else None
    return None
PREC = {'+': 1, '-': 1, '*': 2, '/': 2}
def show(e, depth=12):
    if not isinstance(e, Ex): return repr(e)
    if depth <= 0: return '..'
    o, a = e.op, e.a
    if o == 'k': return str(a[0]) if a[0].denominator < 10**6 else repr(float(a[0]))
    if o == 'in': return str(a[0])
    if o == 'i': return repr(a[0])
    if o in PREC and len(a) == 2: return '(' + show(a[0], depth-1) + o + show(a[1], depth-1) + ')'
    if o == 'neg': return '-' + show(a[0], depth-1)
    if o in ('rd', 'al'):
        return '%s[%s]' % (a[0], ','.join(showmap(m) for m in a[1]))
    if o == 'el': return '%s[%s]@%s' % (a[0], ','.join(map(repr, a[1])), a[2])
    return o + '(' + ','.join(show(x, depth-1) if isinstance(x, Ex) else repr(x) for x in a) + ')'
def showmap(m):
    if m[0] == 'c': return repr(m[1])
    if m[0] == 'x':
        s = ('i%d' % m[1]) if m[2] > 0 else '-i%d' % m[1]
        return s if m[3] == 0 else '%s+%r' % (s, m[3])
    return repr(m)
def leaves(e, seen=None, out=None):
    """all distinct sub-expressions that read arrays ('rd','al','el')"""
    if out is None: out = []; seen = set()
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, Ex) or x in seen: continue
        seen.add(x)
        if x.op in ('rd', 'al'): out.append(x); continue
        if x.op in ('el', 'k', 'in', 'i', 'red'): continue
        for y in x.a:
            if isinstance(y, Ex): st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, Ex): st.append(z)
    return out
def rewrite(e, f, memo=None):
    """bottom-up rewrite of leaves by f (f returns None to keep)"""
    if memo is None: memo = {}
    r = memo.get(e)
    if r is not None: return r
    r = f(e)
    if r is None:
        if e.op in ('k', 'in', 'i', 'el', 'red', 'al', 'rd', 'ix', 'ipos'): r = e
        else:
            na = tuple(rewrite(x, f, memo) if isinstance(x, Ex) else x for x in e.a)
            r = mk(e.op, *na) if na != e.a else e
    memo[e] = r
    return r
