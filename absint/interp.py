"""Abstract interpreter over the extracted (type-checked, instantiated) syntax tree.

Domain: integers are polynomials over grid-width symbols (sym.Poly), reals are hash-consed expressions (value
numbers), arrays are opaque storages accessed through views whose bounds are polynomials.  Nothing of the library
is compiled or executed.  Unknown branches analyse both arms and join; unknown loops are unrolled K times as nested
branches; loops with a polynomial trip count are analysed once with a bounded symbol for the index.
Output: a trace tree of array accesses, barriers, communication and scalar accesses to shared state."""
import sys, re
import sym
from sym import Poly, Ex, mk, K, Imprecise
from fractions import Fraction
sys.setrecursionlimit(20000)

class AnalysisError(Exception):
    """the analysis cannot interpret a construct (machinery error, never a verdict)"""

class Thrown(Exception):
    def __init__(self, what): self.what = what

class Cell:
    __slots__ = ('v', 'tag', 'ty')
    def __init__(self, v=None, ty=None): self.v = v; self.tag = None; self.ty = ty
    def __repr__(self): return 'Cell(%s)' % (self.tag or repr(self.v)[:60])
class Uninit:
    def __repr__(self): return 'UNINIT'
UN = Uninit()
class Opaque:
    """value of a library type the analysis does not model"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'Opaque(%s)' % self.s
class Obj:
    __slots__ = ('r', 'f', 'nat', 'fn')
    def __init__(self, r): self.r = r; self.f = {}; self.nat = None; self.fn = {}
    def __repr__(self): return 'Obj#%d' % self.r
class VecV:
    """std::array / vector / ptr_vector / TinyVector / C array"""
    __slots__ = ('it', 'kind')
    def __init__(self, it, kind='v'): self.it = tuple(it); self.kind = kind
    def __repr__(self): return 'Vec%r' % (self.it,)
class MapV:
    __slots__ = ('it',)
    def __init__(self, it=()): self.it = tuple(it)
class Rng:
    __slots__ = ('a', 'b', 's')
    def __init__(self, a, b, s=1): self.a = a; self.b = b; self.s = s
    def __repr__(self): return 'R[%r..%r%s]' % (self.a, self.b, '' if self.s == 1 else ':%d' % self.s)
class RDV:
    __slots__ = ('lb', 'ub')
    def __init__(self, lb, ub): self.lb = tuple(lb); self.ub = tuple(ub)
    def __repr__(self): return 'RD%r' % (tuple((a.v, b.v) for a, b in zip(self.lb, self.ub)),)
class Storage:
    __slots__ = ('sid', 'lb', 'len', 'name', 'loc', 'rank', 'et', 'fnstk', 'order')
    def __init__(self, sid, lb, ln, loc, rank): self.sid = sid; self.lb = lb; self.len = ln; self.name = None; self.loc = loc; self.rank = rank; self.et = None
    def __repr__(self): return self.name or 'S%d@%s' % (self.sid, self.loc)
    def __hash__(self): return self.sid
    def __lt__(self, o): return self.sid < o.sid
class View:
    """dims: one entry per view dimension (storage dim, first storage index, step, length, base); fixed: {sdim: index}"""
    __slots__ = ('st', 'dims', 'fixed')
    def __init__(self, st, dims, fixed=()): self.st = st; self.dims = tuple(dims); self.fixed = tuple(fixed)
    def __repr__(self): return 'View(%r,%r,%r)' % (self.st, self.dims, self.fixed)
    def shape(self): return tuple(d[3] for d in self.dims)
    def leaf(self):
        m = [None] * len(self.st.len)
        for k, (sd, fi, stp, ln, base) in enumerate(self.dims): m[sd] = ('p', k, stp, fi)
        for sd, i in self.fixed: m[sd] = ('c', i)
        return mk('al', self.st, tuple(m))
class ArrX:
    __slots__ = ('e', 'sh')
    def __init__(self, e, sh): self.e = e; self.sh = sh
class DataPtr:
    __slots__ = ('view',)
    def __init__(self, v): self.view = v
class RawPtr:
    __slots__ = ('st', 'off')
    def __init__(self, st, off=0): self.st = st; self.off = off
class Ptr:
    """pointer to an object"""
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
    def __eq__(self, o): return isinstance(o, Ptr) and o.c is self.c
    def __hash__(self): return id(self.c)
    def __repr__(self): return '&%r' % (self.c,)
class FuncV:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
class LamV:
    __slots__ = ('f', 'env', 'this')
    def __init__(self, f, env, this): self.f = f; self.env = env; self.this = this
class VIt:
    """iterator / pointer into a Vec"""
    __slots__ = ('it', 'i')
    def __init__(self, it, i): self.it = it; self.i = i
    def __eq__(self, o): return isinstance(o, VIt) and self.i == o.i
    def __hash__(self): return hash(self.i)
class ElemRef:
    """lvalue of one array element"""
    __slots__ = ('view', 'ix')
    def __init__(self, view, ix): self.view = view; self.ix = ix
class AIt:
    __slots__ = ('view', 'end')
    def __init__(self, view, end): self.view = view; self.end = end

class Ev:
    __slots__ = ('k', 'loc', 'fn', 'key', 'd', 'bind')
    def __init__(self, k, loc, fn, key, d, bind): self.k = k; self.loc = loc; self.fn = fn; self.key = key; self.d = d; self.bind = bind
    def __repr__(self): return 'Ev(%s,%s,%r)' % (self.k, self.loc, self.d)
class Br:
    __slots__ = ('cond', 'arms', 'outs', 'key', 'loc')
    def __init__(self, cond, key, loc): self.cond = cond; self.arms = [[], []]; self.outs = [None, None]; self.key = key; self.loc = loc
class Sc:
    __slots__ = ('kind', 'info', 'body', 'loc', 'out')
    def __init__(self, kind, info, loc): self.kind = kind; self.info = info; self.body = []; self.loc = loc; self.out = None

class Frame:
    __slots__ = ('f', 'env', 'this', 'pend', 'mark', 'retref', 'loc', 'up', 'guard0')
class LoopFrame:
    __slots__ = ('pend', 'mark', 'cpend', 'cmark', 'guard0')

def strip_targs(s):
    out = []; d = 0; i = 0
    m = re.search(r'operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)', s)
    tail = ''
    if m: tail = s[m.start():]; s = s[:m.start()]
    for ch in s:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
    r = ''.join(out) + tail
    return r

class Program:
    def __init__(self, j):
        self.j = j
        self.T = j['types']; self.files = j['files']
        self.F = {f['id']: f for f in j['funcs']}
        for f in j['decls']: self.F[f['id']] = f
        self.R = {r['id']: r for r in j['recs']}
        self.G = {g['g']: g for g in j['globs']}
        for f in self.F.values(): f['sq'] = strip_targs(f['q'])
        for r in self.R.values(): r['sq'] = strip_targs(r['q'])
        self.vt = {}; self.ovc = {}; self.mro_ = {}
    def loc(self, l):
        if not l: return '?'
        f = self.files[l[0]] if isinstance(l[0], int) and l[0] < len(self.files) else str(l[0])
        return '%s:%s' % (f.split('/libmpdata++/')[-1] if '/libmpdata++/' in f else f.split('/')[-1], l[1])
    def mro(self, r):
        m = self.mro_.get(r)
        if m is None:
            m = [r]
            for b in self.R[r].get('bases', ()): m += [x for x in self.mro(b) if x not in m]
            self.mro_[r] = m
        return m
    def closure(self, f):
        c = self.ovc.get(f)
        if c is None:
            c = {f}
            for o in self.F[f].get('ov', ()): c |= self.closure(o)
            self.ovc[f] = c
        return c
    def overrider(self, r, f):
        k = (r, f); v = self.vt.get(k)
        if v is None:
            v = f
            for c in self.mro(r):
                hit = None
                for m in self.R[c].get('m', ()):
                    if m.get('virt') and m['f'] >= 0 and m['f'] in self.F and f in self.closure(m['f']): hit = m['f']
                if hit is not None: v = hit; break
            self.vt[k] = v
        return v
    def fields(self, r):
        """fields of a record, bases first"""
        out = []
        for b in self.R[r].get('bases', ()): out += self.fields(b)
        return out + self.R[r].get('f', [])

from lib import EXT, NATIVE_CTOR, native_default   # noqa: E402  (models of blitz, std, boost)

UNROLL = 3
ORACLE = None    # callable(condition) -> True / False / None: only one arm of a symbolic decision is followed
class Interp:
    def __init__(self, prog, inputs=None, mpi=(1, 0)):
        self.P = prog; self.inputs = inputs or {}
        self.mpi = mpi
        self.jn = []                 # undo journal
        self.globs = {}; self.rank = 0; self.in_team = False
        self.frames = []
        self.root = []; self.cur = self.root; self.path = (); self.cnt = [0]
        self.guard = []              # path condition
        self.stor = []; self.unknown_ext = {}
        self.nbounds = self.nshape = 0; self.async_cells = set(); self.nasync = 0
        self.findings = []           # (kind, loc, text)
        self.binders = ()
        self.steps = 0
        self.loops = []
        self.marks = []
        self.comm_hook = None
        self.epoch_writes = {}; self.seg_writes = {}
        self.bk = [0]; self.bpath = (); self.lastbar = None; self.wcount = {}
        self.team_runs = []
        self.hooks = {'mpx::team::solve': team_solve}
    # ------------------------------------------------------------------ trace
    def key(self):
        self.cnt[-1] += 1
        return self.path + (self.cnt[-1],)
    def emit(self, k, loc, **d):
        e = Ev(k, loc, self.fnstk(), self.key(), d, self.binders)
        if k in ('w', 'ew'): self.wcount[d['st']] = self.wcount.get(d['st'], 0) + 1
        self.cur.append(e); return e
    def fnstk(self): return tuple(f.f['id'] for f in self.frames)
    def finding(self, kind, loc, text): self.findings.append((kind, loc, text, self.fnstk()))
    def here(self, e): return self.P.loc(e.get('l')) if isinstance(e, dict) and e.get('l') else self.loc
    loc = '?'
    # ------------------------------------------------------------------ cells
    def setc(self, c, v):
        self.jn.append((c, c.v)); c.v = v
    def rd(self, x):
        """read the value of an lvalue (identity on values)"""
        if isinstance(x, Cell):
            if x.tag is not None and self.in_team: self.acc('sr', x)
            v = x.v
            if x in self.async_cells and self.in_team:
                self.nasync += 1
                return mk('in', 'async flag', self.rank, self.nasync)
            if v is UN:
                self.finding('uninit', self.loc, 'read of an uninitialised variable')
                v = mk('in', 'uninit')
            return v
        if isinstance(x, ElemRef): return self.rd_elem(x)
        return x
    def acc(self, k, c, v=None):
        """access to a cell shared between the threads of the team"""
        t = c.tag
        if isinstance(t, tuple):
            if t[0] == self.rank: return
            t = '%s of thread %d' % (t[1], t[0])
        elif k == 'sw': self.seg_writes[c] = v
        self.emit(k, self.loc, cell=t, v=v)
    def wr(self, lv, v):
        if isinstance(lv, Cell):
            if lv.tag is not None and self.in_team: self.acc('sw', lv, v)
            self.setc(lv, v); return
        if isinstance(lv, ElemRef): self.wr_elem(lv, v); return
        raise AnalysisError('%s: write to non-lvalue %r' % (self.loc, lv))
    # ------------------------------------------------------------------ arrays
    def storage(self, lbs, lens, loc=None):
        s = Storage(len(self.stor), tuple(lbs), tuple(lens), loc or self.loc, self.rank if self.in_team else None)
        s.fnstk = self.fnstk(); self.stor.append(s); return s
    def new_view(self, lbs, lens):
        s = self.storage(lbs, lens)
        return View(s, [(d, lbs[d], 1, lens[d], lbs[d]) for d in range(len(lens))])
    def elem_maps(self, r):
        v = r.view
        m = [None] * len(v.st.len)
        for k, (sd, fi, stp, ln, base) in enumerate(v.dims):
            m[sd] = fi + (r.ix[k] - base) * stp
        for sd, i in v.fixed: m[sd] = i
        return tuple(m)
    def rd_elem(self, r):
        m = self.elem_maps(r)
        e = self.emit('er', self.loc, st=r.view.st, ix=m)
        x = e.d['ex'] = mk('el', r.view.st, m, self.vkey(e, (r.view.st,)))
        return x
    def vkey(self, e, sts):
        """version of the cells of sts read at e: ranks that read a shared cell in the same barrier interval see the same value"""
        if not self.in_team: return e.key
        if any(s.rank is not None for s in sts): return e.key + (self.rank,)
        return ('v', self.lastbar, tuple(self.wcount.get(s, 0) for s in sts))
    def wr_elem(self, r, v, op='='):
        m = self.elem_maps(r)
        self.emit('ew', self.loc, st=r.view.st, ix=m, v=v, op=op)
    def to_x(self, v):
        """array-expression operand -> (tree, shape or None)"""
        v = self.rd(v) if isinstance(v, (Cell, ElemRef)) else v
        if isinstance(v, View): return v.leaf(), v.shape()
        if isinstance(v, ArrX): return v.e, v.sh
        return self.real(v), None
    def join_shape(self, a, b, what='expression'):
        if a is None: return b
        if b is None: return a
        if len(a) != len(b):
            self.finding('shape', self.loc, 'operands of different rank in %s' % what); return a
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, Ex) or isinstance(y, Ex) or sym.eq(x, y) is not True:
                    self.finding('shape', self.loc, '%s combines arrays of extent %r and %r' % (what, a, b))
                    break
        return a
    def arr_op(self, op, *args):
        ts = []; sh = None
        for a in args:
            t, s = self.to_x(a); ts.append(t)
            if s is not None: sh = self.join_shape(sh, s)
        if sh is None and op in ('+', '-', '*', '/'): return sym.ar(op, *ts)
        if op == 'neg' and sh is None: return sym.neg(ts[0])
        if op == 'neg': t = mk('neg', ts[0])
        else: t = mk(op, *ts)
        return t if sh is None else ArrX(t, sh)
    def box(self, v):
        b = [None] * len(v.st.len)
        for sd, fi, stp, ln, base in v.dims:
            last = fi + (ln - 1) * stp
            b[sd] = (fi, last) if stp > 0 else (last, fi)
        for sd, i in v.fixed: b[sd] = (i, i)
        return tuple(b)
    def map_to_dest(self, e, v):
        """rewrite position leaves of expression e into destination-coordinate leaves of view v"""
        def f(x):
            if x.op == 'ipos':
                if x.a[0] >= len(v.dims): raise AnalysisError('%s: index of dimension %d' % (self.loc, x.a[0]))
                sd, dfi, dstp, ln, base = v.dims[x.a[0]]
                if abs(dstp) != 1: raise AnalysisError('%s: index of a strided array' % self.loc)
                return mk('ix', 'x', sd, dstp, base - dfi * dstp)
            if x.op != 'al': return None
            m = []
            for q in x.a[1]:
                if q[0] == 'c': m.append(q); continue
                _, k, stp, fi = q
                sd, dfi, dstp, ln, base = v.dims[k]
                if abs(stp) == 1 and abs(dstp) == 1:
                    s = stp * dstp
                    # pos = (i - dfi)*dstp ; src = fi + pos*stp = fi + (i-dfi)*s
                    m.append(('x', sd, s, fi - dfi * s))
                else: m.append(('g', sd, stp, dstp, fi, dfi))
            return mk('rd', x.a[0], tuple(m))
        return sym.rewrite(e, f)
    def assign_arr(self, view, rhs, op, loc):
        t, sh = self.to_x(rhs)
        self.nshape += 1
        if sh is not None: self.join_shape(view.shape(), sh, 'assignment')
        if sh is not None and len(sh) != len(view.dims): return
        self.emit('w', loc, st=view.st, box=self.box(view), op=op, t=self.map_to_dest(t, view), ne=view_nonempty(view))
    def reduce(self, op, x, loc):
        t, sh = self.to_x(x)
        if sh is None: return t
        # canonical pseudo-destination: position coordinates 0..len-1
        v = View(Storage(-1, (0,) * len(sh), sh, '', None), [(d, 0, 1, sh[d], 0) for d in range(len(sh))])
        t2 = self.map_to_dest(t, v)
        e = self.emit('red', loc, op=op, box=tuple((0, n - 1) for n in sh), t=t2)
        x = e.d['ex'] = mk('red', op, self.vkey(e, tuple(x.a[0] for x in sym.leaves(t2) if x.op in ('rd', 'al'))), t2, tuple(sh))
        return x
    # ------------------------------------------------------------------ scalars
    def real(self, v):
        if isinstance(v, Ex): return v
        if isinstance(v, bool): return K(int(v))
        if isinstance(v, (int, Fraction)): return K(v)
        if isinstance(v, Poly): return mk('i', v)
        if v is UN: return mk('in', 'uninit')
        if isinstance(v, Opaque): return mk('in', 'opaque:' + v.s)
        if isinstance(v, ElemRef): return self.rd_elem(v)
        if isinstance(v, Cell): return self.real(self.rd(v))
        if v is None: return K(0)
        raise AnalysisError('%s: not a number: %r' % (self.loc, v))
    def truth(self, v):
        """True / False / None"""
        if isinstance(v, (Cell, ElemRef)): v = self.rd(v)
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, Ex):
            if v.op == 'k': return v.a[0] != 0
            return None
        if isinstance(v, Poly):
            l = sym.lower(v); u = sym.upper(v)
            if (l is not None and l > 0) or (u is not None and u < 0): return True
            return None
        if v is None: return False
        if isinstance(v, Opaque): return None
        if v is UN: return None
        return True
    def isint(self, t):
        return self.P.T[t]['k'] in ('int', 'bool', 'enum') if t is not None and t >= 0 else False
    def arith(self, op, a, b, t, at=None):
        """built-in binary operator on scalar values"""
        if isinstance(a, Opaque): a = mk('in', 'opaque:' + a.s)
        if isinstance(b, Opaque): b = mk('in', 'opaque:' + b.s)
        if a is UN: a = mk('in', 'uninit')
        if b is UN: b = mk('in', 'uninit')
        if isinstance(a, (VIt, RawPtr)) or isinstance(b, (VIt, RawPtr)): return self.ptr_arith(op, a, b)
        if op in ('==', '!='):
            if a is None or b is None or not isinstance(a, (int, Poly, Ex, Fraction)) or not isinstance(b, (int, Poly, Ex, Fraction)):
                if isinstance(a, (int, Poly)) and b is None: b = 0
                elif isinstance(b, (int, Poly)) and a is None: a = 0
                else:
                    if isinstance(a, (str, Ptr)) or isinstance(b, (str, Ptr)): r = a == b
                    else: r = a is b
                    return int(r if op == '==' else not r)
        if t is not None and self.isint(t):          # whole numbers kept as reals
            if isinstance(a, Ex) and a.op == 'k' and a.a[0].denominator == 1: a = int(a.a[0])
            if isinstance(b, Ex) and b.op == 'k' and b.a[0].denominator == 1: b = int(b.a[0])
        ints = not isinstance(a, (Ex, Fraction)) and not isinstance(b, (Ex, Fraction))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if ints:
                if op == '<': r = sym.lt(a, b)
                elif op == '>': r = sym.lt(b, a)
                elif op == '<=': r = sym.le(a, b)
                elif op == '>=': r = sym.le(b, a)
                else:
                    r = sym.eq(a, b)
                    if op == '!=' and r is not None: r = not r
                if r is not None: return int(r)
            a, b = self.real(a), self.real(b)
            if a.op == 'k' and b.op == 'k':
                x, y = a.a[0], b.a[0]
                return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
            if a is b and op in ('<', '>', '!='): 
                if a.op != 'sel': return 0
            if b.op == 'k' or a.op == 'k':
                x, y, o = (a, b, op) if b.op == 'k' else (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))
                s = sym.sign(x); k = y.a[0]
                if s == '+' and k <= 0 and o in ('>', '>=', '!='): return 1
                if s == '+' and k <= 0 and o in ('<', '<=', '=='): return 0
                if s == '-' and k >= 0 and o in ('<', '<=', '!='): return 1
                if s == '-' and k >= 0 and o in ('>', '>=', '=='): return 0
            return mk('cmp' + op, a, b)
        if op in ('&&', '||'):
            x, y = self.truth(a), self.truth(b)
            if op == '&&':
                if x is False or y is False: return 0
                if x and y: return 1
            else:
                if x or y: return 1
                if x is False and y is False: return 0
            return mk(op, self.real(a), self.real(b))
        if ints and (t is None or self.isint(t)):
            if op == '+': return self.wrapu(a + b, t)
            if op == '-': return self.wrapu(a - b, t)
            if op == '*': return self.wrapu(a * b, t)
            if op == '/': return sym.pdiv(a, b)
            if op == '%': return sym.pmod(a, b)
            if isinstance(a, int) and isinstance(b, int):
                if op == '&': return a & b
                if op == '|': return a | b
                if op == '^': return a ^ b
                if op == '<<': return a << b
                if op == '>>': return a >> b
            if op == '&' and isinstance(b, int): return mk('bit&', self.real(a), self.real(b))
            raise Imprecise('integer operator %s' % op)
        a, b = self.real(a), self.real(b)
        if op in ('+', '-', '*', '/'): return sym.ar(op, a, b)
        return mk('op' + op, a, b)
    def wrapu(self, v, t):
        """unsigned wrap-around"""
        if t is None: return v
        T = self.P.T[t]
        if T.get('k') != 'int' or T.get('sg', True): return v
        w = 1 << T.get('w', 32)
        if isinstance(v, int): return v % w
        c = v.m.get((), 0)
        if abs(c) >= w >> 1: v = v - ((c + (w >> 1)) // w) * w
        return v
    def ptr_arith(self, op, a, b):
        if op in ('+', '-') and (isinstance(a, Ex) or isinstance(b, Ex)): return Opaque('ptr')
        if isinstance(a, VIt):
            if op == '+': return VIt(a.it, a.i + b)
            if op == '-' and isinstance(b, VIt): return a.i - b.i
            if op == '-': return VIt(a.it, a.i - b)
            if isinstance(b, VIt):
                return self.arith(op, a.i, b.i, None)
        if isinstance(b, VIt) and op == '+': return VIt(b.it, b.i + a)
        if isinstance(a, RawPtr):
            if op == '+': return RawPtr(a.st, a.off + b)
            if op == '-': return RawPtr(a.st, a.off - b)
            if op in ('==', '!='):
                r = b is a or (isinstance(b, RawPtr) and b.st is a.st)
                return int(r if op == '==' else not r)
        if op in ('==', '!='): return int((a is b) == (op == '=='))
        if op in ('+', '-') and isinstance(b, int) and b == 0: return a
        raise AnalysisError('%s: pointer arithmetic %s' % (self.loc, op))
    # ------------------------------------------------------------------ values / types
    def default(self, t, zero=False):
        """default-initialised value of a type"""
        T = self.P.T[t]; k = T['k']
        if k in ('int', 'bool', 'enum'): return 0 if zero else UN
        if k == 'real': return K(0) if zero else UN
        if k == 'ptr': return None if zero else UN
        if k == 'array': return VecV([Cell(self.default(T['of'], zero)) for _ in range(T.get('n', 0))], 'c')
        if k == 'rec': return self.default_rec(T['r'], zero)
        return UN
    def default_rec(self, r, zero=False):
        R = self.P.R[r]
        if not R.get('repo'):
            return native_default(self, R)
        o = Obj(r)
        for b in R.get('bases', ()):
            self.default_base(o, b, zero)
        for f in R.get('f', ()):
            o.f[f['id']] = self.field_cell(f, zero)
        return o
    def default_base(self, o, b, zero):
        B = self.P.R[b]
        if not B.get('repo'):
            v = native_default(self, B)
            if not (isinstance(v, Opaque) and B['q'].startswith('std::')) or True:
                if o.nat is None or isinstance(o.nat.v, Opaque): o.nat = Cell(v)
            return
        for bb in B.get('bases', ()): self.default_base(o, bb, zero)
        for f in B.get('f', ()): o.f[f['id']] = self.field_cell(f, zero)
    def field_cell(self, f, zero=False):
        if f.get('e') is not None and self.P.T[f['t']]['k'] != 'ref':
            return Cell(self.val(f['e']))
        return Cell(self.default(f['t'], zero))
    def copy(self, v):
        """value copy (C++ copy construction of modelled values)"""
        if isinstance(v, Obj):
            o = Obj(v.r)
            for k, c in v.f.items():
                o.f[k] = c if k in self.ref_fields else Cell(self.copy(self.rdq(c)))
            if v.nat is not None: o.nat = Cell(self.copy(v.nat.v))
            for k, c in v.fn.items(): o.fn[k] = Cell(self.copy(c.v))
            return o
        if isinstance(v, VecV): return VecV([Cell(self.copy(self.rdq(c))) if not isinstance(c, ElemRef) else c for c in v.it], v.kind)
        if isinstance(v, RDV): return RDV([Cell(c.v) for c in v.lb], [Cell(c.v) for c in v.ub])
        if isinstance(v, MapV): return MapV([(k, Cell(self.copy(c.v))) for k, c in v.it])
        return v
    def rdq(self, c):
        """read without an uninitialised-use finding (copying)"""
        if isinstance(c, Cell):
            if c.tag is not None and self.in_team: self.acc('sr', c)
            return c.v
        return self.rd(c)
    @property
    def ref_fields(self):
        rf = getattr(self.P, '_rf', None)
        if rf is None:
            rf = {f['id'] for r in self.P.R.values() for f in r.get('f', ()) if self.P.T[f['t']]['k'] == 'ref'}
            self.P._rf = rf
        return rf
    def assign(self, lv, v):
        """generic copy assignment"""
        if isinstance(v, (Cell, ElemRef)): v = self.rd(v)
        if isinstance(lv, Cell):
            old = lv.v
            if isinstance(old, Obj) and isinstance(v, Obj):
                for k, c in v.f.items():
                    if k in old.f and k not in self.ref_fields: self.assign(old.f[k], self.rdq(c))
                if v.nat is not None and old.nat is not None: self.assign(old.nat, v.nat.v)
                for k, c in v.fn.items():
                    if k in old.fn: self.assign(old.fn[k], c.v)
                    else: old.fn[k] = Cell(self.copy(c.v))
                return
            if isinstance(old, VecV) and isinstance(v, VecV) and len(old.it) == len(v.it):
                for a, b in zip(old.it, v.it): self.assign(a, self.rdq(b))
                return
            if isinstance(old, RDV) and isinstance(v, RDV):
                for a, b in zip(old.lb + old.ub, v.lb + v.ub): self.setc(a, b.v)
                return
            self.wr(lv, self.copy(v)); return
        self.wr(lv, v)
    # ------------------------------------------------------------------ expressions
    def val(self, e):
        """value of an expression (lvalues are read)"""
        v = self.ev(e)
        if isinstance(v, (Cell, ElemRef)):
            v = self.rdq(v) if isinstance(v, Cell) else self.rd(v)
            return self.copy(v)
        return v
    def ev(self, e):
        if e is None: return None
        m = self.DISP.get(e['k'])
        if m is None: raise AnalysisError('%s: unsupported expression kind %s %s' % (self.loc, e['k'], e.get('cls', '')))
        return m(self, e)
    def e_int(self, e): return e['v']
    def e_flt(self, e):
        try: return K(Fraction(e['v']))
        except (ValueError, ZeroDivisionError): return mk('in', 'flt:' + e['v'])
    def e_str(self, e): return e['v']
    def e_null(self, e): return None
    def e_this(self, e): return Ptr(self.frames[-1].this)
    def e_var(self, e):
        for fr in (self.frames[-1],):
            c = fr.env.get(e['id'])
            if c is not None: return c
        raise AnalysisError('%s: unbound variable %s' % (self.loc, e.get('n')))
    def e_gref(self, e): return self.glob(e['g'])
    def glob(self, g):
        G = self.P.G[g]
        k = (g, self.rank if self.in_team else -1) if G.get('tls') else g
        c = self.globs.get(k)
        if c is None:
            if G.get('e') is not None:
                fr = self.push_frame({'id': -1, 'q': 'global ' + G['q']}, None)
                try: v = self.val(G['e'])
                finally: self.frames.pop()
            elif not G.get('repo'): v = Opaque('global ' + G['q'])
            else: v = self.default(G['t'], True)
            c = Cell(v); 
            self.globs[k] = c
            if self.in_team and not G.get('tls') and G.get('repo') and not G['q'].startswith('libmpdataxx::arr3D'): c.tag = 'global ' + G['q']
        return c
    def e_fref(self, e): return FuncV(e['f'])
    def obj_of(self, v):
        """the Obj denoted by an lvalue/prvalue"""
        return v.v if isinstance(v, Cell) else v
    def e_mem(self, e):
        b = self.arrow(e) if e.get('arrow') else self.ev(e['e'])
        o = b.v if isinstance(b, Cell) else b
        if isinstance(o, Obj):
            c = o.f.get(e['fd'])
            if c is None:
                c = o.fn.get(e['n'])
                if c is None:
                    if o.nat is not None and isinstance(o.nat.v, Obj): return self.e_mem_nat(o.nat, e)
                    if e['n'] in ('first', 'second') or True:
                        c = Cell(UN); o.f[e['fd']] = c
            return c
        if isinstance(o, Opaque) or o is UN: return Cell(Opaque(getattr(o, 's', '?') + '.' + e['n']))
        raise AnalysisError('%s: member %s of %r' % (self.loc, e['n'], o))
    def e_mem_nat(self, nat, e):
        return nat.v.fn.setdefault(e['n'], Cell(UN))
    def arrow(self, e):
        """pointee cell of the base of e->member"""
        if e['e']['k'] == 'this': return self.frames[-1].this
        p = self.ev(e['e'])
        if isinstance(p, (Cell, ElemRef)): p = self.rd(p)
        if p is None or p is UN:
            self.finding('null', self.here(e), 'dereference of a null pointer (member %s)' % e.get('n'))
            raise Thrown('null')
        return self.deref(p)
    def e_mfref(self, e): return FuncV(e['f'])
    def deref(self, p):
        if isinstance(p, VIt):
            if isinstance(p.i, int) and 0 <= p.i < len(p.it): return p.it[p.i]
            self.finding('oob', self.loc, 'iterator/pointer dereference out of range (%r of %d)' % (p.i, len(p.it))); raise Thrown('oob')
        if isinstance(p, RawPtr):
            return ElemRef(View(p.st, [(0, 0, 1, p.st.len[0], 0)]), (p.off,))
        if isinstance(p, AIt): return ('anyelem', p.view)
        if p is None:
            self.finding('null', self.loc, 'dereference of a null pointer'); raise Thrown('null')
        if isinstance(p, Ptr): return p.c
        if isinstance(p, FuncV): return p
        if isinstance(p, Opaque): return Cell(Opaque('*' + p.s))
        if isinstance(p, DataPtr): return ElemRef(p.view, tuple(d[4] for d in p.view.dims))
        if isinstance(p, VecV): return p.it[0]
        raise AnalysisError('%s: dereference of %r' % (self.loc, p))
    def e_tmp(self, e):
        v = self.ev(e['e'])
        if isinstance(v, (Cell, ElemRef)): return v
        return Cell(v)
    def e_stdinit(self, e): return self.ev(e['e'])
    def e_cast(self, e):
        ck = e['ck']; x = e['e']
        if ck == 'LValueToRValue':
            return self.copy(self.rd(self.ev(x)))
        if ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'BitCast', 'FunctionToPointerDecay', 'Dependent'): return self.ev(x)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(x)
            T = self.P.T[e['t']]
            if T['k'] in ('ptr', 'ref'): T = self.P.T[T['to']]
            if T['k'] == 'rec' and not self.P.R[T['r']].get('repo'):
                isp = isinstance(v, Ptr)
                o = v.c.v if isp else v.v if isinstance(v, Cell) else v
                if isinstance(o, Obj) and o.r >= 0 and self.P.R[o.r].get('repo') and o.nat is not None: return Ptr(o.nat) if isp else o.nat
            return v
        if ck == 'BaseToDerived' or ck == 'Dynamic': return self.ev(x)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(x)
            a = self.rdq(v) if isinstance(v, Cell) else v
            if isinstance(a, VecV): return VIt(a.it, 0)
            return a
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            v = self.rd(self.ev(x))
            if ck == 'IntegralToBoolean':
                t = self.truth(v)
                return int(t) if t is not None else v
            T = self.P.T[e['t']]
            if isinstance(v, int) and T.get('k') == 'int' and not T.get('sg', True) and v < 0: v += 1 << T.get('w', 32)
            elif isinstance(v, int) and T.get('k') == 'int' and T.get('sg', True) and v >= (1 << (T.get('w', 32) - 1)): v -= 1 << T.get('w', 32)
            return v
        if ck in ('IntegralToFloating',): return self.real(self.rd(self.ev(x)))
        if ck == 'FloatingCast': return self.rd(self.ev(x))
        if ck == 'FloatingToIntegral':
            v = self.real(self.rd(self.ev(x)))
            if v.op == 'k':
                q = v.a[0]; return int(q) if q >= 0 else -int(-q)
            if v.op == 'i': return v.a[0]
            return mk('toint', v)
        if ck == 'FloatingToBoolean':
            v = self.real(self.rd(self.ev(x)))
            return int(v.a[0] != 0) if v.op == 'k' else mk('cmp!=', v, K(0))
        if ck == 'PointerToBoolean' or ck == 'MemberPointerToBoolean':
            v = self.rd(self.ev(x)) if not isinstance(self.P.T, int) else None
            return int(v is not None)
        if ck == 'NullToPointer': return None
        if ck == 'ToVoid':
            self.ev(x); return None
        raise AnalysisError('%s: cast kind %s' % (self.loc, ck))
    def e_bin(self, e):
        op = e['op']; a, b = e['a']
        if 'l' in e: self.loc = self.P.loc(e['l'])
        if op == ',':
            self.ev(a); return self.ev(b)
        if op == '=':
            lv = self.ev(a); v = self.val(b)
            self.loc = self.here(e)
            self.assign(lv, v); return lv
        if op in ('&&', '||'):
            x = self.truth1(self.val(a))
            t = self.truth(x)
            if op == '&&' and t is False: return 0
            if op == '||' and t is True: return 1
            if t is not None:
                y = self.val(b); t2 = self.truth(y)
                return int(t2) if t2 is not None else y
            # unknown left operand: the right one is evaluated speculatively (effects kept as may-effects)
            y = self.val(b)
            return self.arith(op, x, y, None)
        return self.arith(op, self.val(a), self.val(b), e['t'] if op not in ('<', '>', '<=', '>=', '==', '!=') else None)
    def truth1(self, v): return v
    def e_cas(self, e):
        a, b = e['a']; op = e['op'][:-1]
        lv = self.ev(a); v = self.val(b)
        self.loc = self.here(e)
        if isinstance(lv, ElemRef):
            o = self.rd_elem(lv); self.wr_elem(lv, self.arith(op, o, v, None)); return lv
        t = a.get('t')
        self.wr(lv, self.arith(op, self.rd(lv), v, t)); return lv
    def e_un(self, e):
        op = e['op']; x = e['e']
        if op == '&':
            v = self.ev(x)
            if isinstance(v, ElemRef): return DataPtr(v.view)
            return Ptr(v) if isinstance(v, Cell) else v
        if op == '*':
            return self.deref(self.val(x))
        if op in ('++', '--'):
            lv = self.ev(x); o = self.rd(lv)
            d = 1 if op == '++' else -1
            if isinstance(o, VIt): n = VIt(o.it, o.i + d)
            elif isinstance(o, RawPtr): n = RawPtr(o.st, o.off + d)
            else: n = self.arith('+', o, d, x.get('t'))
            self.wr(lv, n)
            return o if e.get('post') else lv
        v = self.val(x)
        if op == '-':
            if isinstance(v, (int, Poly)): return -v
            return sym.neg(self.real(v))
        if op == '+': return v
        if op == '!':
            t = self.truth(v)
            return int(not t) if t is not None else mk('!', self.real(v))
        if op == '~': 
            if isinstance(v, int): return ~v
        raise AnalysisError('%s: unary %s on %r' % (self.loc, op, v))
    def e_cond(self, e):
        c, a, b = e['a']
        cv = self.val(c); t = self.truth(cv)
        if t is True: return self.ev(a)
        if t is False: return self.ev(b)
        # unknown: both sides; effects joined
        res = self.branch(cv, lambda: self.val(a), lambda: self.val(b), self.here(e), want=True)
        return res
    def e_idx(self, e):
        a, i = e['a']
        b = self.ev(a)
        if isinstance(b, Cell): b = self.rdq(b)
        i = self.val(i)
        if isinstance(b, VecV): b = VIt(b.it, 0)
        if isinstance(b, str): return ord(b[i]) if isinstance(i, int) and i < len(b) else 0
        if isinstance(b, Opaque): return Cell(Opaque(b.s + '[]'))
        return self.deref(self.ptr_arith('+', b, i))
    def e_il(self, e):
        T = self.P.T[e['t']]
        if T['k'] == 'array':
            it = [Cell(self.val(x)) for x in e['a']]
            n = T.get('n', len(it))
            while len(it) < n: it.append(Cell(self.default(T['of'], True)))
            return VecV(it, 'c')
        if T['k'] == 'rec':
            R = self.P.R[T['r']]
            if not R.get('repo'):
                f = NATIVE_CTOR.get(R['sq'])
                vals = [self.val(x) for x in e['a']]
                if R['sq'] == 'std::array':
                    if len(vals) == 1 and isinstance(vals[0], VecV): return vals[0]
                    if not vals: return native_default(self, R)
                    return VecV([Cell(v) for v in vals])
                if f: return f(self, R, vals, None)
                return Opaque('il ' + R['q'])
            o = self.default_rec(T['r'], True)
            fs = self.P.fields(T['r'])
            for f, x in zip(fs, e['a']):
                if self.P.T[f['t']]['k'] == 'ref': o.f[f['id']] = self.ev(x)
                else: o.f[f['id']] = Cell(self.val(x))
            return o
        if len(e['a']) == 1: return self.val(e['a'][0])
        if not e['a']: return self.default(e['t'], True)
        raise AnalysisError('%s: init list' % self.loc)
    def e_zero(self, e): return self.default(e['t'], True)
    def e_new(self, e):
        self.loc = self.here(e)
        if e.get('sz') is not None:
            n = self.val(e['sz'])
            T = self.P.T[e['at']]
            if isinstance(n, int) and T['k'] not in ('real',):
                v = VecV([Cell(self.default(e['at'])) for _ in range(n)], 'c'); return VIt(v.it, 0)
            return RawPtr(self.storage((0,), (n,)))
        if e.get('e') is not None: return Ptr(Cell(self.val(e['e'])))
        return Ptr(Cell(self.default(e['at'])))
    def e_delete(self, e): self.ev(e['e']); return None
    def e_throw(self, e):
        self.loc = self.here(e)
        if e.get('e') is not None: self.ev(e['e'])
        self.emit('throw', self.loc)
        raise Thrown(self.loc)
    def e_lambda(self, e):
        env = {}; this = None
        for c in e['caps']:
            if c.get('this'): this = self.frames[-1].this
            elif 'v' in c:
                lv = self.frames[-1].env.get(c['v'])
                if lv is None: lv = self.ev(c['init'])
                if not c.get('ref'): lv = Cell(self.copy(self.rd(lv)) if isinstance(lv, (Cell, ElemRef)) else lv)
                elif not isinstance(lv, (Cell, ElemRef)): lv = Cell(lv)
                env[c['v']] = lv
        if this is None: this = self.frames[-1].this
        return LamV(e['f'], env, this)
    def e_sizeof(self, e): return Opaque('sizeof')
    def e_typeid(self, e): return Opaque('typeid')
    def e_arrinit(self, e):
        return self.val(e['e'])
    def e_ctor(self, e):
        if 'l' in e: self.loc = self.P.loc(e['l'])
        R = self.P.R[e['r']]
        f = self.P.F[e['f']]
        if f.get('copy') and len(e['a']) >= 1:
            x = self.ev(e['a'][0])
            if R.get('repo') and f.get('b') is not None and not f.get('dflt') and f.get('in') and any(i.get('w') for i in f['in']):
                pass
            else:
                v = x
                if isinstance(v, Cell): v = self.rdq(v)
                if isinstance(v, ElemRef): v = self.rd(v)
                return self.copy(v)
        if not R.get('repo'): return self.native_ctor(R, f, e)
        o = Cell(self.make(e['r'], f, e))
        return o.v
    def native_ctor(self, R, f, e):
        args = [self.ev(x) for x in e['a']]
        h = NATIVE_CTOR.get(R['sq'])
        self.loc = self.here(e)
        if h: return h(self, R, args, f)
        for b in self.P.mro(e['r'])[1:]:
            h = NATIVE_CTOR.get(self.P.R[b]['sq'])
            if h: return h(self, self.P.R[b], args, f)
        self.unknown_ext.setdefault('ctor ' + R['sq'], self.loc)
        return Opaque(R['sq'])
    def make(self, r, f, e, args=None):
        """construct an object of repo record r with constructor f"""
        o = Obj(r); cell = Cell(o)
        self.run_ctor(cell, o, r, f, e, args)
        return o
    def run_ctor(self, cell, o, r, f, e, args=None):
        if args is None:
            args = self.bind_args(f, e['a'] if e else [])
        R = self.P.R[r]
        if f.get('inh') is not None and f.get('in') is None: pass
        if f.get('in') is None and f.get('b') is None:
            # implicit / external constructor without a body: default
            d = self.default_rec(r)
            if f.get('copy') and args:
                s = self.obj_of(args[0]); d = self.copy(s)
            for k, c in d.f.items(): o.f[k] = c
            o.nat = d.nat or o.nat
            return
        fr = self.push_frame(f, cell, e)
        for p, a in zip(f['p'], args): fr.env[p['id']] = a
        if any(i.get('dlg') for i in f.get('in') or ()):
            for i in f['in']:
                x = i['e']; g = self.P.F[x['f']]
                self.run_ctor(cell, o, r, g, x)
        else:
            seen = set()
            for i in f.get('in') or ():
                if 'b' in i:
                    b = i['b']; x = i['e']
                    if not self.P.R[b].get('repo'):
                        o.nat = Cell(self.val(x)); continue
                    while x['k'] in ('cast', 'tmp') and x['k'] != 'ctor': x = x['e']
                    if x['k'] == 'ctor':
                        g = self.P.F[x['f']]
                        if g.get('copy') and g.get('dflt'):
                            s = self.obj_of(self.ev(x['a'][0]))
                            for ff in self.P.fields(b): o.f[ff['id']] = s.f[ff['id']] if ff['id'] in self.ref_fields else Cell(self.copy(self.rdq(s.f[ff['id']])))
                        else: self.run_ctor(cell, o, b, g, x)
                    elif x['k'] == 'inhctor':
                        g = self.P.F[x['f']]
                        self.run_ctor(cell, o, b, g, None, args)
                    elif x['k'] in ('il', 'zero'):
                        s = self.ev(x)
                        if isinstance(s, Obj):
                            for k, c in s.f.items(): o.f[k] = c
                    else: raise AnalysisError('%s: base initialiser %s' % (self.loc, x['k']))
                else:
                    fd = i['fd']; seen.add(fd)
                    if fd in self.ref_fields: o.f[fd] = self.lv(i['e'])
                    else: o.f[fd] = Cell(self.val(i['e']))
            for b in R.get('bases', ()):
                pass
            for ff in R.get('f', ()):
                if ff['id'] not in o.f: o.f[ff['id']] = self.field_cell(ff)
        sig = self.ex_body(f)
        self.leave(fr, sig)
    def lv(self, e):
        v = self.ev(e)
        return v if isinstance(v, (Cell, ElemRef)) else Cell(v)
    def bind_args(self, f, args):
        out = []
        ps = f['p']
        for i, a in enumerate(args):
            if i < len(ps):
                T = self.P.T[ps[i]['t']]
                if T['k'] == 'ref': out.append(self.lv(a))
                else: out.append(Cell(self.val(a)))
            else: out.append(Cell(self.val(a)))
        return out
    # ------------------------------------------------------------------ calls
    def push_frame(self, f, this, e=None):
        fr = Frame(); fr.f = f; fr.env = {}; fr.this = this; fr.pend = []; fr.mark = len(self.jn); fr.loc = self.loc; fr.guard0 = len(self.guard)
        rt = f.get('rt')
        fr.retref = rt is not None and rt >= 0 and self.P.T[rt]['k'] == 'ref'
        if len(self.frames) > 400: raise AnalysisError('recursion too deep in ' + f['q'])
        self.frames.append(fr); self.loops.append(None)
        return fr
    def leave(self, fr, sig):
        """pop a function frame, joining pending returns; returns the value"""
        v = None; dead = False
        if isinstance(sig, tuple): v = sig[1]
        elif sig == 'dead': dead = True
        if fr.pend:
            flows = [] if dead else [(self.gk(fr.guard0), self.snap(fr.mark), v)]
            flows = fr.pend + flows
            v = self.join_flows(flows, fr.mark)
        elif dead:
            self.frames.pop(); self.loops.pop()
            raise Thrown('all paths')
        self.frames.pop(); self.loops.pop()
        return v
    def gk(self, g0):
        g = self.guard[g0:]
        if not g: return K(1)
        r = g[0]
        for x in g[1:]: r = mk('&&', r, x)
        return r
    def snap(self, mark):
        return {c: c.v for c, o in self.jn[mark:]}
    def join_flows(self, flows, mark):
        """flows: list of (guard, {cell: value}, retval); resets the heap to the join"""
        orig = {}
        for c, o in self.jn[mark:]:
            if c not in orig: orig[c] = o
        cells = {}
        for g, s, v in flows:
            for c in s: cells[c] = 1
        if len(flows) == 1:
            g, s, v = flows[0]
            for c, x in s.items():
                if c.v is not x: self.setc(c, x)
            # cells changed since mark but not by this flow return to their original
            for c, o in orig.items():
                if c not in s and c.v is not o: self.setc(c, o)
            return v
        for c, o in orig.items(): cells[c] = 1
        for c in cells:
            base = orig.get(c, c.v)
            vs = [(g, s.get(c, base)) for g, s, v in flows]
            j = vs[-1][1]
            for g, x in reversed(vs[:-1]): j = self.join(g, x, j, c)
            if c.v is not j: self.setc(c, j)
        r = flows[-1][2]
        for g, s, v in reversed(flows[:-1]): r = self.join(g, v, r, None)
        return r
    def join(self, g, a, b, c):
        if a is b: return a
        if isinstance(a, (int, Poly, Fraction)) and isinstance(b, (int, Poly, Fraction)) and a == b: return a
        if a is None and b is None: return None
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('join')
        if a is UN or b is UN: return UN if not isinstance(a, (int, Poly, Ex)) and not isinstance(b, (int, Poly, Ex)) else (a if b is UN else b)
        if isinstance(a, (int, Poly, Ex)) and isinstance(b, (int, Poly, Ex)):
            return mk('sel', g, self.real(a), self.real(b))
        if isinstance(a, View) and isinstance(b, View) and a.st is b.st and a.dims == b.dims and a.fixed == b.fixed: return a
        if isinstance(a, VIt) and isinstance(b, VIt) and a.it is b.it and a.i == b.i: return a
        if isinstance(a, Ptr) and a == b: return a
        if isinstance(a, VecV) and isinstance(b, VecV) and a.it == b.it: return a
        if isinstance(a, VecV) and isinstance(b, VecV) and len(a.it) == len(b.it):
            return VecV([x if x is y else (Cell(Opaque('join')) if isinstance(x, Cell) else self.join(g, x, y, None)) for x, y in zip(a.it, b.it)], a.kind)
        if isinstance(a, Rng) and isinstance(b, Rng) and (a.a, a.b, a.s) == (b.a, b.b, b.s): return a
        return Opaque('join')
    def call(self, f, this, args, e=None):
        """call repo function f (dict) with bound argument cells"""
        h = self.hooks.get(f['sq'])
        if h is not None:
            r = h(self, f, this, args)
            if r is not NotImplemented: return r
        if f.get('b') is None:
            if f['id'] in self.P.F and f.get('pure'): raise AnalysisError('%s: pure virtual call %s' % (self.loc, f['q']))
            raise AnalysisError('%s: no body for %s' % (self.loc, f['q']))
        self.steps += 1
        loc0 = self.loc
        fr = self.push_frame(f, this, e)
        for p, a in zip(f['p'], args): fr.env[p['id']] = a
        sc = Sc('fn', f, loc0)
        save = self.cur; self.cur = sc.body
        k = self.key(); p0 = self.path; self.path = k; self.cnt.append(0)
        try:
            sig = self.ex_body(f)
            v = self.leave(fr, sig)
        except Thrown:
            if self.frames and self.frames[-1] is fr: self.frames.pop(); self.loops.pop()
            else:
                while self.frames and fr in self.frames: self.frames.pop(); self.loops.pop()
            self.cur = save; self.path = p0; self.cnt.pop()
            if sc.body: sc.out = 'throw'; self.cur.append(sc)
            raise
        self.cur = save; self.path = p0; self.cnt.pop()
        if sc.body or f.get('virt'): self.cur.append(sc)
        else: self.cnt[-1] -= 1
        self.loc = loc0
        return v
    def ex_body(self, f):
        try: return self.ex(f['b'])
        except Thrown:
            # this flow ends in an exception; other flows may have returned
            if self.frames[-1].pend:
                return 'dead'
            raise
    def e_call(self, e):
        loc = self.here(e)
        if 'f' not in e:
            fv = self.val(e['fe'])
            return self.call_value(fv, e['a'], e)
        f = self.P.F[e['f']]
        if 'b' in f:
            args = self.bind_args(f, e['a']); self.loc = loc
            return self.call(f, None, args, e)
        h = EXT.get(f['sq']) or EXT.get(f['n'])
        args = [self.ev(x) for x in e['a']]
        self.loc = loc
        if h: return h(self, f, None, args, e)
        return self.unknown_call(f, None, args, e)
    def call_value(self, fv, a, e):
        if isinstance(fv, Cell): fv = fv.v
        if isinstance(fv, FuncV):
            f = self.P.F[fv.f]
            if 'b' in f: return self.call(f, None, self.bind_args(f, a), e)
            h = EXT.get(f['sq']) or EXT.get(f['n'])
            args = [self.ev(x) for x in a]
            if h: return h(self, f, None, args, e)
            return self.unknown_call(f, None, args, e)
        if isinstance(fv, LamV):
            f = self.P.F[fv.f]
            args = self.bind_args(f, a)
            return self.call_lambda(fv, args, e)
        raise AnalysisError('%s: indirect call of %r' % (self.loc, fv))
    def call_lambda(self, fv, args, e=None):
        f = self.P.F[fv.f]
        if f.get('b') is None: raise AnalysisError('lambda without body')
        loc0 = self.loc
        fr = self.push_frame(f, fv.this, e)
        fr.env.update(fv.env)
        for p, a in zip(f['p'], args): fr.env[p['id']] = a if isinstance(a, (Cell, ElemRef)) else Cell(a)
        sc = Sc('fn', f, loc0); save = self.cur; self.cur = sc.body
        p0 = self.path; self.path = self.key(); self.cnt.append(0)
        try:
            sig = self.ex_body(f); v = self.leave(fr, sig)
        finally:
            while fr in self.frames: self.frames.pop(); self.loops.pop()
            self.cur = save; self.path = p0; self.cnt.pop()
            if sc.body: self.cur.append(sc)
        self.loc = loc0
        return v
    def invoke(self, fv, args):
        """call a callable value with already evaluated arguments (library algorithms)"""
        if isinstance(fv, Cell): fv = fv.v
        if isinstance(fv, LamV): return self.call_lambda(fv, [a if isinstance(a, (Cell, ElemRef)) else Cell(a) for a in args])
        if isinstance(fv, FuncV):
            f = self.P.F[fv.f]
            if 'b' in f: return self.call(f, None, [a if isinstance(a, (Cell, ElemRef)) else Cell(a) for a in args])
            h = EXT.get(f['sq'])
            if h: return h(self, f, None, args, {})
        if isinstance(fv, Opaque):
            op = {'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::divides': '/', 'std::less': '<', 'std::greater': '>'}.get(fv.s)
            if op: return self.arith(op, self.rd(args[0]), self.rd(args[1]), None)
        if isinstance(fv, Obj):
            for r in self.P.mro(fv.r):
                for m in self.P.R[r].get('m', ()):
                    if m['n'] == 'operator()' and m['f'] >= 0 and self.P.F.get(m['f'], {}).get('b'):
                        return self.call(self.P.F[m['f']], Cell(fv), [a if isinstance(a, (Cell, ElemRef)) else Cell(a) for a in args])
        raise AnalysisError('%s: cannot invoke %r' % (self.loc, fv))
    def e_mcall(self, e):
        loc = self.here(e)
        f = self.P.F[e['f']]
        if 'e' not in e: raise AnalysisError('%s: member pointer call' % self.loc)
        b = self.arrow(e) if e.get('arrow') else self.ev(e['e'])
        if not isinstance(b, (Cell, ElemRef)): b = Cell(b)
        o = b.v if isinstance(b, Cell) else None
        if isinstance(o, LamV) and f['n'] == 'operator()':
            return self.call_lambda(o, self.bind_args(f, e['a']), e)
        if e.get('virt') and isinstance(o, Obj):
            f = self.P.F[self.P.overrider(o.r, f['id'])]
        if 'b' in f:
            args = self.bind_args(f, e['a']); self.loc = loc
            return self.call(f, b, args, e)
        R = self.P.R[f['r']] if 'r' in f else None
        if R is not None and R.get('repo'):
            # implicit / defaulted member
            if f.get('dtor'): return None
            if f.get('asgn'):
                v = self.val(e['a'][0]); self.assign(b, v); return b
            raise AnalysisError('%s: no body for %s' % (self.loc, f['q']))
        if isinstance(o, Obj) and self.P.R[o.r].get('repo') and o.nat is not None: b = o.nat
        h = self.native_method(f)
        args = [self.ev(x) for x in e['a']]
        self.loc = loc
        if h: return h(self, f, b, args, e)
        return self.unknown_call(f, b, args, e)
    def native_method(self, f):
        R = self.P.R[f['r']]
        h = EXT.get(R['sq'] + '::' + f['n'])
        if h: return h
        for b in R.get('bases', ()):
            for m in self.P.mro(b):
                h = EXT.get(self.P.R[m]['sq'] + '::' + f['n'])
                if h: return h
        return EXT.get(strip_targs(R['sq']).split('::')[-1] + '::' + f['n']) or EXT.get('*::' + f['n'])
    def e_op(self, e):
        loc = self.here(e)
        if 'f' not in e: return self.call_value(self.val(e['fe']), e['a'], e)
        f = self.P.F[e['f']]
        a = e['a']
        ismem = 'r' in f and not f.get('static')
        if ismem:
            b = self.ev(a[0])
            if not isinstance(b, (Cell, ElemRef)): b = Cell(b)
            o = b.v if isinstance(b, Cell) else None
            if isinstance(o, LamV): return self.call_lambda(o, self.bind_args(f, a[1:]), e)
            if f.get('virt') and isinstance(o, Obj): f = self.P.F[self.P.overrider(o.r, f['id'])]
            if 'b' in f:
                args = self.bind_args(f, a[1:]); self.loc = loc
                return self.call(f, b, args, e)
            R = self.P.R[f['r']]
            if R.get('repo') and f['n'] == 'operator=':
                v = self.val(a[1]); self.loc = loc; self.assign(b, v); return b
            if isinstance(o, Obj) and self.P.R[o.r].get('repo') and o.nat is not None: b = o.nat
            h = self.native_method(f)
            args = [self.ev(x) for x in a[1:]]
            self.loc = loc
            if h: return h(self, f, b, args, e)
            return self.unknown_call(f, b, args, e)
        if 'b' in f:
            args = self.bind_args(f, a); self.loc = loc
            return self.call(f, None, args, e)
        args = [self.ev(x) for x in a]
        self.loc = loc
        h = EXT.get(f['sq']) or EXT.get(f['n'])
        if h: return h(self, f, None, args, e)
        return self.unknown_call(f, None, args, e)
    def unknown_call(self, f, this, args, e):
        self.unknown_ext.setdefault(f['sq'], self.loc)
        # pass-through of mutable arguments is not modelled: opaque result
        t = f.get('rt'); T = self.P.T[t] if t is not None and t >= 0 else {'k': 'other'}
        if T['k'] in ('int', 'bool', 'real', 'enum'): return mk('ext', f['sq'], self.key())
        if T['k'] == 'ref': return Cell(Opaque(f['sq']))
        return Opaque(f['sq'])
    # ------------------------------------------------------------------ statements
    def ex(self, s):
        if s is None: return None
        m = self.SDISP.get(s['k'])
        if m is None: raise AnalysisError('%s: unsupported statement %s %s' % (self.loc, s['k'], s.get('cls', '')))
        return m(self, s)
    def s_ex(self, s):
        if 'l' in s: self.loc = self.P.loc(s['l'])
        self.ev(s['e'])
    def s_blk(self, s):
        for x in s['b']:
            r = self.ex(x)
            if r is not None: return r
    def s_decl(self, s):
        for d in s['d']:
            if d['k'] == 'decomp': self.decomp(d); continue
            env = self.frames[-1].env
            if d.get('static'):
                g = d['g']; k = (g, self.rank if self.in_team else -1) if d.get('tls') else g
                c = self.globs.get(k)
                if c is None:
                    c = Cell(self.val(d['e']) if d.get('e') is not None else self.default(d['t'], True))
                    self.globs[k] = c
                    if self.in_team and not d.get('tls'):
                        c.tag = 'static %s' % d['n']
                env[d['id']] = c; continue
            T = self.P.T[d['t']]
            if 'l' in d: self.loc = self.P.loc(d['l'])
            if T['k'] == 'ref': env[d['id']] = self.lv(d['e'])
            elif d.get('e') is not None:
                v = self.val(d['e'])
                env[d['id']] = Cell(v)
            else: env[d['id']] = Cell(self.default(d['t']))
    def decomp(self, d):
        T = self.P.T[d['t']]
        v = self.lv(d['e']) if T['k'] == 'ref' else Cell(self.val(d['e']))
        env = self.frames[-1].env; env[d['id']] = v
        o = v.v
        for i, b in enumerate(d['bs']):
            if isinstance(o, Obj):
                if o.fn: env[b['id']] = list(o.fn.values())[i]
                else: env[b['id']] = o.f[self.P.fields(o.r)[i]['id']]
            elif isinstance(o, VecV): env[b['id']] = o.it[i]
            else: raise AnalysisError('%s: structured binding of %r' % (self.loc, o))
    def s_ret(self, s):
        if 'l' in s: self.loc = self.P.loc(s['l'])
        if s.get('e') is None: return ('ret', None)
        fr = self.frames[-1]
        v = self.lv(s['e']) if fr.retref else self.val(s['e'])
        return ('ret', v)
    def s_nop(self, s): return None
    def s_if(self, s):
        if s.get('i') is not None: self.ex(s['i'])
        if 'l' in s: self.loc = self.P.loc(s['l'])
        loc = self.loc
        if s.get('cv') is not None:
            self.s_decl({'d': [s['cv']]})
        c = self.val(s['c'])
        t = self.truth(c)
        if t is True: return self.ex(s['a'])
        if t is False: return self.ex(s['b']) if s.get('b') else None
        return self.branch(c, lambda: self.ex(s['a']), lambda: self.ex(s['b']) if s.get('b') else None, loc)
    def branch(self, c, fa, fb, loc, want=False):
        """analyse both arms from the same state and join"""
        c = self.real(c)
        if isinstance(c, Ex):
            if ORACLE is not None:
                d = ORACLE(c)
                if d is not None: return fa() if d else fb()
            for g in self.guard:
                if g is c: return fa()
                if g.op == '!' and g.a[0] is c: return fb()
        k = self.key()
        br = Br(c, k, loc); self.cur.append(br)
        save, p0 = self.cur, self.path
        seg0 = self.seg_writes; segs = {}; bp0 = self.bpath; hadbar = False
        flows = []
        for i, fn in enumerate((fa, fb)):
            g = c if i == 0 else mk('!', c)
            self.cur = br.arms[i]; self.path = k + ('a%d' % i,); self.cnt.append(0)
            self.seg_writes = dict(seg0); self.bpath = bp0 + (self.bk[-1], i); self.bk.append(0)
            self.guard.append(g)
            mark = len(self.jn); depth = len(self.frames)
            try: r = fn()
            except Thrown as t: 
                r = 'throw'
                del self.frames[depth:]; del self.loops[depth:]
            self.guard.pop(); self.cnt.pop(); self.path = p0; self.cur = save
            self.bpath = bp0; hadbar |= self.bk.pop() > 0; segs.update(self.seg_writes)
            s = {}
            orig = {}
            for cc, o in self.jn[mark:]:
                if cc not in orig: orig[cc] = o
            s = {cc: cc.v for cc in orig}
            # undo
            for cc, o in reversed(self.jn[mark:]): cc.v = o
            del self.jn[mark:]
            flows.append((g, s, r)); 
            if want and r != 'throw': br.outs[i] = None
            else: br.outs[i] = r[0] if isinstance(r, tuple) else r
        if hadbar: self.bk[-1] += 1
        self.seg_writes = segs
        if want:
            live = [f for f in flows if f[2] != 'throw']
            if not live: raise Thrown('both')
            if len(live) == 1: self.apply(live[0][1]); return live[0][2]
            return self.merge2(live[0], live[1])
        live = [f for f in flows if f[2] is None]
        for g, s, r in flows:
            if r is None or r == 'throw' or r == 'dead': continue
            full = None
            if isinstance(r, tuple):
                fr = self.frames[-1]
                fr.pend.append((self.gand(fr.guard0, g), self.full(fr.mark, s), r[1]))
            else:
                lf = self.loops[-1]
                if lf is None: raise AnalysisError('%s: break outside loop' % loc)
                if r == 'break': lf.pend.append((self.gand(lf.guard0, g), self.full(lf.mark, s), None))
                else: lf.cpend.append((self.gand(lf.guard0, g), self.full(lf.cmark, s), None))
        if not live:
            if all(f[2] == 'throw' for f in flows): raise Thrown('both')
            return 'dead'
        if len(live) == 1: self.apply(live[0][1]); return None
        self.merge2(live[0], live[1]); return None
    def gand(self, g0, g):
        r = self.gk(g0)
        return g if r is K(1) else mk('&&', r, g)
    def full(self, mark, s):
        d = self.snap(mark); d.update(s); return d
    def apply(self, s):
        for c, v in s.items():
            if c.v is not v: self.setc(c, v)
    def merge2(self, A, B):
        ga, sa, ra = A; gb, sb, rb = B
        for c in list(sa) + [x for x in sb if x not in sa]:
            j = self.join(ga, sa.get(c, c.v), sb.get(c, c.v), c)
            if c.v is not j: self.setc(c, j)
        return self.join(ga, ra, rb, None)
    # barriers / team --------------------------------------------------
    def barrier(self):
        self.bk[-1] += 1
        bid = self.bpath + (self.bk[-1],)
        self.emit('bar', self.loc, id=bid); self.lastbar = bid; self.wcount = {}
        if not self.in_team: return
        if self.rank == 0: self.epoch_writes[bid] = {c: c.v for c in self.seg_writes}
        else:
            for c, v in self.epoch_writes.get(bid, {}).items():
                if c not in self.seg_writes and c.v is not v: self.setc(c, v)
        self.seg_writes = {}
    # loops ------------------------------------------------------------
    def loop_enter(self):
        lf = LoopFrame(); lf.pend = []; lf.cpend = []; lf.mark = len(self.jn); lf.cmark = lf.mark; lf.guard0 = len(self.guard)
        self.loops[-1], lf_prev = lf, self.loops[-1]
        return lf, lf_prev
    def loop_exit(self, lf, prev, dead):
        self.loops[-1] = prev
        if lf.pend:
            flows = list(lf.pend)
            if not dead: flows.append((self.gk(lf.guard0), self.snap(lf.mark), None))
            self.join_flows(flows, lf.mark)
            return None
        return 'dead' if dead else None
    def body_once(self, lf, fn):
        """run the loop body; returns None (falls through / continue), 'break', ('ret',v) or 'dead'"""
        lf.cmark = len(self.jn); lf.cpend = []
        sc = Sc('iter', None, self.loc); save = self.cur; self.cur = sc.body
        try: r = fn()
        finally:
            self.cur = save
            if sc.body: save.append(sc)
        if r == 'cont': r = None
        if lf.cpend:
            flows = list(lf.cpend)
            if r is None: flows.append((self.gk(lf.guard0), self.snap(lf.cmark), None))
            elif isinstance(r, tuple):
                fr = self.frames[-1]; fr.pend.append((self.gk(fr.guard0), self.snap(fr.mark), r[1]))
            elif r == 'break': lf.pend.append((self.gk(lf.guard0), self.snap(lf.mark), None))
            self.join_flows(flows, lf.cmark); r = None
            lf.cpend = []
        return r
    def run_loop(self, cond, body, inc, loc, do=False):
        """generic loop; cond() returns a value; unknown conditions unroll as nested branches"""
        lf, prev = self.loop_enter()
        sc = Sc('loop', None, loc); save = self.cur; self.cur = sc.body
        k = self.key(); p0 = self.path; self.path = k; self.cnt.append(0)
        st = {'unk': 0, 'n': 0}
        def step(first):
            # returns signal
            while True:
                if not (do and first):
                    c = cond() if cond else 1
                    t = self.truth(c)
                    if t is False: return None
                    if t is None:
                        st['unk'] += 1
                        if st['unk'] > UNROLL: return None       # bounded unrolling: deeper iterations are not analysed
                        return self.branch(c, lambda: once(), lambda: None, loc)
                first = False
                r = one()
                if r is not None: return r
        def one():
            st['n'] += 1
            if st['n'] > 3000: raise AnalysisError('%s: loop does not terminate in the abstract' % loc)
            before = len(lf.pend) + len(self.frames[-1].pend)
            r = self.body_once(lf, body)
            if r is not None: return r
            if inc: inc()
            if len(lf.pend) + len(self.frames[-1].pend) > before:
                st['br'] = st.get('br', 0) + 1
                if st['br'] >= UNROLL: return 'dead'     # exits through conditional jumps: bounded unrolling
            return None
        def once():
            r = one()
            if r is not None: return r
            return step(False)
        r = step(True)
        if r == 'break': r = None
        self.cur = save; self.path = p0; self.cnt.pop()
        if sc.body: self.cur.append(sc)
        else: self.cnt[-1] -= 1
        if isinstance(r, tuple):
            self.loops[-1] = prev
            if lf.pend:
                fr = self.frames[-1]
                fr.pend.append((self.gk(fr.guard0), self.snap(fr.mark), r[1]))
                self.join_flows(list(lf.pend), lf.mark); return None
            return r
        return self.loop_exit(lf, prev, r == 'dead')
    def s_for(self, s):
        if 'l' in s: self.loc = self.P.loc(s['l'])
        loc = self.loc
        if s.get('i') is not None: self.ex(s['i'])
        sp = self.sym_for(s)
        if sp is not None: return self.run_sym_for(s, sp, loc)
        return self.run_loop((lambda: self.val(s['c'])) if s.get('c') is not None else None, lambda: self.ex(s['b']),
                             (lambda: self.ev(s['n'])) if s.get('n') is not None else None, loc)
    def sym_for(self, s):
        """recognise for (v = a; v <|<=|>|>= b; ++v|--v) with a non-constant polynomial trip count"""
        c, n = s.get('c'), s.get('n')
        if c is None or n is None or c['k'] != 'bin' or c['op'] not in ('<', '<=', '>', '>=', '!='): return None
        x = c['a'][0]
        while x['k'] == 'cast': x = x['e']
        if x['k'] != 'var': return None
        cell = self.frames[-1].env.get(x['id'])
        if not isinstance(cell, Cell) or not isinstance(cell.v, (int, Poly)): return None
        d = None
        if n['k'] == 'un' and n['op'] in ('++', '--'): y = n['e']; d = 1 if n['op'] == '++' else -1
        elif n['k'] == 'cas' and n['op'] in ('+=', '-=') and n['a'][1]['k'] == 'int': y = n['a'][0]; d = n['a'][1]['v'] * (1 if n['op'] == '+=' else -1)
        else: return None
        if y['k'] != 'var' or y['id'] != x['id'] or abs(d) != 1: return None
        b = self.val(c['a'][1])
        if not isinstance(b, (int, Poly)): return None
        a = cell.v
        if d == 1 and c['op'] in ('<', '<=', '!='): lo, hi = a, b if c['op'] == '<=' else b - 1
        elif d == -1 and c['op'] in ('>', '>='): lo, hi = (b if c['op'] == '>=' else b + 1), a
        else: return None
        ln = hi - lo
        if isinstance(ln, int): return None
        return cell, lo, hi, d
    def run_sym_for(self, s, sp, loc):
        cell, lo, hi, d = sp
        ne = sym.le(lo, hi)
        b = sym.ST.binder('b%d' % sym.ST.n, lo, hi)
        lf, prev = self.loop_enter()
        sc = Sc('sym', (b, lo, hi, d), loc); save = self.cur; self.cur = sc.body
        k = self.key(); p0 = self.path; self.path = k; self.cnt.append(0)
        b0 = self.binders; self.binders = b0 + ((b, lo, hi, d),)
        self.setc(cell, b)
        mark = len(self.jn)
        r = self.body_once(lf, lambda: self.ex(s['b']))
        # scalars modified by the body are loop-carried: forget them
        mod = {}
        for c, o in self.jn[mark:]: mod.setdefault(c, o)
        for c, o in mod.items():
            if c is not cell and c.v is not o and c.tag is None:
                if isinstance(c.v, (int, Poly, Ex)) and isinstance(o, (int, Poly, Ex)): self.setc(c, mk('symloop', k, self.real(c.v), self.real(o)))
        self.setc(cell, hi + 1 if d > 0 else lo - 1)
        self.binders = b0; self.cur = save; self.path = p0; self.cnt.pop()
        if sc.body: self.cur.append(sc)
        if isinstance(r, tuple) or r in ('break', 'dead'): 
            if not (isinstance(r, str) and r == 'dead'): self.finding('imprecise', loc, 'abrupt exit from a symbolic loop')
        self.loops[-1] = prev
        return None
    def s_while(self, s):
        if 'l' in s: self.loc = self.P.loc(s['l'])
        return self.run_loop(lambda: self.val(s['c']), lambda: self.ex(s['b']), None, self.loc)
    def s_do(self, s):
        if 'l' in s: self.loc = self.P.loc(s['l'])
        return self.run_loop(lambda: self.val(s['c']), lambda: self.ex(s['b']), None, self.loc, do=True)
    def s_range(self, s):
        if 'l' in s: self.loc = self.P.loc(s['l'])
        v = self.ev(s['e'])
        o = self.rdq(v) if isinstance(v, Cell) else v
        if isinstance(o, Obj) and o.nat is not None: o = o.nat.v
        byref = self.P.T[s['v']['t']]['k'] == 'ref'
        if isinstance(o, MapV):
            items = []
            for kk, c in o.it:
                p = Obj(-1); p.fn = {'first': Cell(kk), 'second': c}; items.append(Cell(p))
        elif isinstance(o, VecV): items = list(o.it)
        elif isinstance(o, Opaque):
            self.unknown_ext.setdefault('range over ' + o.s, self.loc); return None
        else: raise AnalysisError('%s: range-for over %r' % (self.loc, o))
        idx = [0]; vd = s['v']
        def cond(): return int(idx[0] < len(items))
        def body():
            c = items[idx[0]]; idx[0] += 1
            self.frames[-1].env[vd['id']] = c if byref else Cell(self.copy(self.rdq(c)))
            return self.ex(s['b'])
        return self.run_loop(cond, body, None, self.loc)
    def s_break(self, s): return 'break'
    def s_cont(self, s): return 'cont'
    def s_switch(self, s):
        if 'l' in s: self.loc = self.P.loc(s['l'])
        v = self.val(s['c'])
        if not isinstance(v, int): raise AnalysisError('%s: switch on a non-constant' % self.loc)
        body = s['b']['b'] if s['b']['k'] == 'blk' else [s['b']]
        on = False
        lf, prev = self.loop_enter()
        def flat(x):
            out = []
            while x is not None and x['k'] in ('case', 'default'):
                out.append(x); x = x['b']
            return out, x
        hit = False
        for x in body:
            labs, _ = flat(x)
            if any(l['k'] == 'case' and self.val(l['c']) == v for l in labs): hit = True
        r = None
        for x in body:
            labs, st = flat(x)
            if not on:
                if any((l['k'] == 'case' and self.val(l['c']) == v) or (l['k'] == 'default' and not hit) for l in labs): on = True
            if on and st is not None:
                r = self.ex(st)
                if r is not None: break
        if r == 'break': r = None
        if r == 'cont':
            self.loops[-1] = prev; return 'cont'
        if isinstance(r, tuple): self.loops[-1] = prev; return r
        return self.loop_exit(lf, prev, r == 'dead')
    def s_case(self, s): return self.ex(s['b'])
    def s_try(self, s):
        return self.ex(s['b'])
    def s_omp(self, s):
        raise AnalysisError('%s: OpenMP directive reached' % self.loc)
    DISP = {}; SDISP = {}

def team_solve(ip, f, this, args):
    """one call of the (neutral) backend's solve(): every rank is analysed from the same heap; scalar writes of
    rank 0 to shared state become visible to the other ranks at the next barrier"""
    P = ip.P; o = this.v
    tag_shared(ip, o)
    algos = None
    for fl in P.fields(o.r):
        if fl['n'] == 'algos': algos = o.f[fl['id']].v
    thr = next(g for g in P.F.values() if g['n'] == 'mpx_thread')
    n = len(algos.it); nt = ip.rdq(args[0])
    runs = {}; diffs = []
    ip.epoch_writes = {}
    for r in range(n):
        mark = len(ip.jn)
        root, save = [], ip.cur
        ip.cur = root; p0 = ip.path; ip.path = ('T%d' % len(ip.team_runs), ); ip.cnt.append(0)
        ip.rank = r; ip.in_team = True; ip.seg_writes = {}; ip.bk.append(0); ip.bpath = ('T%d' % len(ip.team_runs),); ip.lastbar = ip.bpath; ip.wcount = {}
        depth = len(ip.frames)
        out = None
        try: ip.call(thr, this, [Cell(r), Cell(nt)])
        except Thrown as t:
            out = ('throw', t.what); del ip.frames[depth:]; del ip.loops[depth:]
        ip.in_team = False; ip.cur = save; ip.path = p0; ip.cnt.pop(); ip.bk.pop(); ip.rank = 0
        d = {}
        orig = {}
        for c, v in ip.jn[mark:]: orig.setdefault(c, v)
        d = {c: c.v for c in orig if c.v is not orig[c]}
        for c, v in reversed(ip.jn[mark:]): c.v = v
        del ip.jn[mark:]
        diffs.append(d); runs[r] = root
        if out: ip.finding('throw', out[1], 'rank %d ends with an exception: %s' % (r, out[1]))
    for d in reversed(diffs): ip.apply(d)
    ip.team_runs.append(runs)
    sc = Sc('team', len(ip.team_runs) - 1, ip.loc); ip.cur.append(sc)
    return None
def tag_shared(ip, team):
    """name the cells and storages reachable from the shared-memory object; mark solver objects as thread-owned"""
    P = ip.P; mem = None; algos = None
    for fl in P.fields(team.r):
        if fl['n'] == 'mem': mem = team.f[fl['id']].v
        if fl['n'] == 'algos': algos = team.f[fl['id']].v
    seen = set()
    def walk(c, name, mk_):
        if not isinstance(c, Cell) or id(c) in seen: return
        seen.add(id(c))
        if c.tag is None: c.tag = mk_(name)
        v = c.v
        if isinstance(v, View):
            if v.st.name is None and v.st.rank is None: v.st.name = name
        elif isinstance(v, Obj):
            for fl in P.fields(v.r) if v.r >= 0 else ():
                if fl['id'] in v.f: walk(v.f[fl['id']], name + '.' + fl['n'], mk_)
            if v.nat is not None: walk(v.nat, name, mk_)
            for k, x in v.fn.items(): walk(x, name + '.' + k, mk_)
        elif isinstance(v, VecV):
            for i, x in enumerate(v.it): walk(x, '%s[%d]' % (name, i), mk_)
        elif isinstance(v, MapV):
            for k, x in v.it: walk(x, '%s[%s]' % (name, str(k).split('/')[-1]), mk_)
        elif isinstance(v, RDV):
            for x in v.lb + v.ub: walk(x, name, mk_)
        elif isinstance(v, Ptr): walk(v.c, name, mk_)
    walk(mem.c, 'mem', lambda n: n)
    for r, c in enumerate(algos.it): walk(c, 'solver', lambda n, r=r: (r, n))
def view_nonempty(v):
    r = True
    for sd, fi, stp, ln, base in v.dims:
        l = sym.lower(ln)
        if l is None or l < 1: r = None
    return r

for _n in dir(Interp):
    if _n.startswith('e_'): Interp.DISP[_n[2:]] = getattr(Interp, _n)
    elif _n.startswith('s_'): Interp.SDISP[_n[2:]] = getattr(Interp, _n)
Interp.SDISP['default'] = Interp.s_case
