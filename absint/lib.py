"""Models of the library types the analysed code is written against: Blitz++, std, Boost, MPI, C runtime."""
import math
import sym
from sym import Poly, Ex, mk, K, Imprecise
from fractions import Fraction

EXT = {}; NATIVE_CTOR = {}
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d
def nctor(*names):
    def d(f):
        for n in names: NATIVE_CTOR[n] = f
        return f
    return d
def I():
    import interp
    return interp
def V(ip, x):
    """value of an argument"""
    m = I()
    if isinstance(x, m.Cell): return ip.rdq(x)
    if isinstance(x, m.ElemRef): return ip.rd(x)
    return x
def tinfo(ip, R):
    """(kind of element type index, count) from template arguments"""
    return R.get('ta') or []
def native_default(ip, R):
    m = I(); q = R['sq']; ta = R.get('ta') or []
    if q == 'std::array':
        n = ta[1] if len(ta) > 1 and isinstance(ta[1], int) else 0
        return m.VecV([m.Cell(ip.default(ta[0]['t'])) for _ in range(n)])
    if q == 'blitz::TinyVector':
        n = ta[1]
        return m.VecV([m.Cell(ip.default(ta[0]['t'])) for _ in range(n)])
    if q in ('std::vector', 'boost::ptr_vector', 'std::initializer_list'): return m.VecV(())
    if q in ('std::unique_ptr', 'std::shared_ptr'): return None
    if q in ('std::unordered_map', 'std::map'): return m.MapV()
    if q == 'blitz::Range': return m.Rng(mk('in', 'fromStart'), mk('in', 'toEnd'))
    if q == 'blitz::RectDomain':
        n = ta[0]; return m.RDV([m.Cell(m.UN) for _ in range(n)], [m.Cell(m.UN) for _ in range(n)])
    if q == 'blitz::Array':
        n = ta[1]
        s = ip.storage((0,) * n, (0,) * n)
        return m.View(s, [(d, 0, 1, 0, 0) for d in range(n)])
    if q == 'std::pair':
        o = m.Obj(R['id']); o.fn = {'first': m.Cell(ip.default(ta[0]['t'], True)), 'second': m.Cell(ip.default(ta[1]['t'], True))}
        return o
    if q in ('std::basic_string',): return ''
    h = NATIVE_CTOR.get(q)
    if h and q.startswith('std::') and q in ('std::plus', 'std::minus', 'std::multiplies', 'std::divides', 'std::less', 'std::greater'): return m.Opaque(q)
    for b in R.get('bases', ()):
        v = native_default(ip, ip.P.R[b])
        if not isinstance(v, m.Opaque): return v
    return m.Opaque(q)

# ------------------------------------------------------------------ Range / RectDomain / TinyVector
def as_int(ip, x):
    m = I(); v = V(ip, x)
    if isinstance(v, m.Rng): return v
    return v
@nctor('blitz::Range')
def c_range(ip, R, a, f):
    m = I(); a = [V(ip, x) for x in a]
    if not a: return native_default(ip, R)
    if len(a) == 1: return m.Rng(a[0], a[0])
    return m.Rng(a[0], a[1], a[2] if len(a) > 2 else 1)
@ext('blitz::Range::first')
def r_first(ip, f, t, a, e): return V(ip, t).a
@ext('blitz::Range::last')
def r_last(ip, f, t, a, e): return V(ip, t).b
@ext('blitz::Range::stride')
def r_stride(ip, f, t, a, e): return V(ip, t).s
@ext('blitz::Range::length')
def r_len(ip, f, t, a, e): return rlen(V(ip, t))
def rlen(r):
    if r.s == 1: return r.b - r.a + 1
    if r.s == -1: return r.a - r.b + 1
    return sym.pdiv(r.b - r.a, r.s) + 1
@ext('blitz::Range::all')
def r_all(ip, f, t, a, e):
    m = I(); return m.Rng(mk('in', 'fromStart'), mk('in', 'toEnd'))
@ext('blitz::Range::operator+')
def r_add(ip, f, t, a, e):
    m = I(); r = V(ip, t); k = V(ip, a[0]); return m.Rng(r.a + k, r.b + k, r.s)
@ext('blitz::Range::operator-')
def r_sub(ip, f, t, a, e):
    m = I(); r = V(ip, t); k = V(ip, a[0]); return m.Rng(r.a - k, r.b - k, r.s)
@ext('blitz::Range::operator=', 'blitz::Array_::operator=')
def r_asg(ip, f, t, a, e):
    ip.wr(t, V(ip, a[0])); return t
def rd_of(ip, args, n):
    m = I()
    lb, ub = [], []
    for x in args:
        r = V(ip, x)
        if isinstance(r, m.Rng): lb.append(m.Cell(r.a)); ub.append(m.Cell(r.b))
        else: lb.append(m.Cell(r)); ub.append(m.Cell(r))
    return m.RDV(lb, ub)
@nctor('blitz::RectDomain')
def c_rd(ip, R, a, f):
    m = I(); n = R['ta'][0]
    v = [V(ip, x) for x in a]
    if not v: return native_default(ip, R)
    if len(v) == 1 and isinstance(v[0], m.RDV): return ip.copy(v[0])
    if len(v) == 1 and isinstance(v[0], m.VecV): return rd_of(ip, [c for c in v[0].it], n)
    if len(v) == 2 and isinstance(v[0], m.VecV):
        return m.RDV([m.Cell(c.v) for c in v[0].it], [m.Cell(c.v) for c in v[1].it])
    return rd_of(ip, v, n)
def rdnum(ip, t, a, which):
    m = I(); r = V(ip, t)
    cs = getattr(r, which)
    if not a: return m.VecV(cs)
    d = V(ip, a[0])
    if not isinstance(d, int) or not 0 <= d < len(cs):
        ip.finding('oob', ip.loc, 'domain dimension %r out of range' % (d,)); raise m.Thrown('dim')
    return cs[d]
@ext('blitz::RectDomain::lbound')
def rd_lb(ip, f, t, a, e): return rdnum(ip, t, a, 'lb')
@ext('blitz::RectDomain::ubound')
def rd_ub(ip, f, t, a, e): return rdnum(ip, t, a, 'ub')
@ext('blitz::RectDomain::operator[]')
def rd_idx(ip, f, t, a, e):
    m = I(); r = V(ip, t); d = V(ip, a[0]); return m.Rng(r.lb[d].v, r.ub[d].v)
@ext('blitz::RectDomain::operator=')
def rd_asg(ip, f, t, a, e): ip.assign(t, V(ip, a[0])); return t
@nctor('blitz::TinyVector')
def c_tv(ip, R, a, f):
    m = I(); n = R['ta'][1]; v = [V(ip, x) for x in a]
    if not v: return native_default(ip, R)
    if len(v) == 1 and isinstance(v[0], m.VecV): return m.VecV([m.Cell(V(ip, c)) for c in v[0].it])
    if len(v) == 1 and n > 1: return m.VecV([m.Cell(v[0]) for _ in range(n)])
    return m.VecV([m.Cell(x) for x in v])
def vec_idx(ip, f, t, a, e):
    m = I(); v = V(ip, t)
    if isinstance(v, m.Opaque): return m.Cell(m.Opaque(v.s + '[]'))
    i = V(ip, a[0])
    if v is m.UN: 
        ip.finding('null', ip.loc, 'index into an empty container'); raise m.Thrown('oob')
    if isinstance(i, (Poly, Ex)): raise m.AnalysisError('%s: symbolic container index %r' % (ip.loc, i))
    if not 0 <= i < len(v.it):
        ip.finding('oob', ip.loc, 'container index %d out of range (size %d)' % (i, len(v.it))); raise m.Thrown('oob')
    return v.it[i]
for n in ('blitz::TinyVector::operator[]', 'blitz::TinyVector::operator()', 'std::array::operator[]', 'std::array::at', 'std::vector::operator[]', 'std::vector::at',
          'ptr_sequence_adapter::operator[]', 'ptr_sequence_adapter::at', 'reversible_ptr_container::operator[]', 'reversible_ptr_container::at'): EXT[n] = vec_idx
@ext('std::get', 'get')
def std_get(ip, f, t, a, e):
    m = I(); v = V(ip, a[0])
    n = next((x for x in f.get('ta') or [] if isinstance(x, int)), 0)
    if isinstance(v, m.Obj): return list(v.fn.values())[n]
    return v.it[n]
@nctor('std::array')
def c_arr(ip, R, a, f):
    m = I(); v = [V(ip, x) for x in a]
    if not v: return native_default(ip, R)
    if len(v) == 1 and isinstance(v[0], m.VecV): return ip.copy(v[0])
    return m.VecV([m.Cell(x) for x in v])
def vec_asg(ip, f, t, a, e):
    v = V(ip, a[0]); o = V(ip, t)
    if f['sq'] == 'blitz::TinyVector::operator=' and isinstance(o, I().VecV) and isinstance(v, (int, Poly, Ex)):
        for c in o.it: ip.assign(c, v)
        return t
    ip.assign(t, v); return t
for n in ('std::array::operator=', 'std::vector::operator=', 'blitz::TinyVector::operator=', 'std::pair::operator=', 'std::basic_string::operator='): EXT[n] = vec_asg
@ext('std::array::fill')
def vec_fill(ip, f, t, a, e):
    v = V(ip, a[0])
    for c in V(ip, t).it: ip.assign(c, v)
@ext('std::array::size', 'std::vector::size', 'reversible_ptr_container::size', 'ptr_sequence_adapter::size', 'blitz::TinyVector::length', 'std::initializer_list::size')
def vec_size(ip, f, t, a, e):
    m = I(); v = V(ip, t)
    if isinstance(v, m.Opaque): return mk('in', 'size')
    return len(v.it)
@ext('std::vector::empty', 'reversible_ptr_container::empty', 'std::array::empty')
def vec_empty(ip, f, t, a, e): return int(not V(ip, t).it)
@ext('std::array::begin', 'std::vector::begin', 'std::array::data', 'std::vector::data', 'blitz::TinyVector::data', 'blitz::TinyVector::begin', 'reversible_ptr_container::begin', 'std::initializer_list::begin', 'std::array::cbegin', 'std::vector::cbegin')
def vec_begin(ip, f, t, a, e): return I().VIt(V(ip, t).it, 0)
@ext('std::array::end', 'std::vector::end', 'blitz::TinyVector::end', 'reversible_ptr_container::end', 'std::initializer_list::end', 'std::array::cend', 'std::vector::cend')
def vec_end(ip, f, t, a, e): v = V(ip, t); return I().VIt(v.it, len(v.it))
@ext('std::array::front', 'std::vector::front', 'reversible_ptr_container::front', 'ptr_sequence_adapter::front')
def vec_front(ip, f, t, a, e): return vec_idx(ip, f, t, [0], e)
@ext('std::array::back', 'std::vector::back', 'reversible_ptr_container::back', 'ptr_sequence_adapter::back')
def vec_back(ip, f, t, a, e): return vec_idx(ip, f, t, [len(V(ip, t).it) - 1], e)
@ext('std::begin', 'begin')
def std_begin(ip, f, t, a, e): return vec_begin(ip, f, a[0], (), e)
@ext('std::end', 'end')
def std_end(ip, f, t, a, e): return vec_end(ip, f, a[0], (), e)
@nctor('std::vector')
def c_vec(ip, R, a, f):
    m = I(); v = [V(ip, x) for x in a]
    ta = R.get('ta') or []
    v = [x for x in v if not (isinstance(x, m.Opaque) and 'allocator' in x.s)]
    if not v: return m.VecV(())
    if isinstance(v[0], m.VecV): return ip.copy(v[0])
    if isinstance(v[0], m.VIt): return m.VecV([m.Cell(ip.copy(V(ip, c))) for c in v[0].it[v[0].i:v[1].i]])
    n = v[0]
    if not isinstance(n, int): raise m.AnalysisError('%s: vector of symbolic size %r' % (ip.loc, n))
    if len(v) > 1: return m.VecV([m.Cell(ip.copy(v[1])) for _ in range(n)])
    return m.VecV([m.Cell(ip.default(ta[0]['t'], True)) for _ in range(n)])
@ext('std::vector::resize')
def vec_resize(ip, f, t, a, e):
    m = I(); v = V(ip, t); n = V(ip, a[0])
    R = ip.P.R[f['r']]; ta = R.get('ta') or []
    it = list(v.it[:n])
    while len(it) < n: it.append(m.Cell(ip.copy(V(ip, a[1])) if len(a) > 1 else ip.default(ta[0]['t'], True)))
    ip.wr(t, m.VecV(it))
@ext('std::vector::emplace_back')
def vec_emplace(ip, f, t, a, e):
    """constructs the element from the arguments: library types with a model are built by it, all others take one value"""
    m = I(); ta = ip.P.R[f['r']].get('ta') or []
    T = ip.P.T[ta[0]['t']] if ta and isinstance(ta[0], dict) else {}
    if T.get('k') == 'rec' and a:
        E = ip.P.R[T['r']]; h = NATIVE_CTOR.get(E['sq'])
        v0 = V(ip, a[0])
        if h and not (len(a) == 1 and isinstance(v0, m.Opaque) and v0.s in E['sq']):
            v = V(ip, t); x = h(ip, E, a, None); ip.wr(t, m.VecV(v.it + (m.Cell(x),))); return None
        if len(a) > 1: raise m.AnalysisError('%s: emplace_back of %s' % (ip.loc, E['sq']))
    return vec_push(ip, f, t, a, e)
@ext('std::vector::push_back')
def vec_push(ip, f, t, a, e):
    m = I(); v = V(ip, t); ip.wr(t, m.VecV(v.it + (m.Cell(V(ip, a[0]) if a else m.UN),)))
@ext('std::vector::reserve', 'std::vector::shrink_to_fit', 'ptr_sequence_adapter::reserve')
def vec_reserve(ip, f, t, a, e): return None
@ext('std::vector::clear', 'reversible_ptr_container::clear', 'ptr_sequence_adapter::clear')
def vec_clear(ip, f, t, a, e): ip.wr(t, I().VecV(()))
@nctor('boost::ptr_vector')
def c_pv(ip, R, a, f): return I().VecV(())
@ext('ptr_sequence_adapter::push_back')
def pv_push(ip, f, t, a, e):
    m = I(); v = V(ip, t); p = V1(ip, a[0])
    if p is None: ip.finding('null', ip.loc, 'null pushed into ptr_vector'); raise m.Thrown('null')
    ip.wr(t, m.VecV(v.it + (p.c,)))
def V1(ip, x):
    """pointer argument"""
    return V(ip, x)
@ext('ptr_sequence_adapter::resize', 'reversible_ptr_container::resize')
def pv_resize(ip, f, t, a, e):
    m = I(); v = V(ip, t); n = V(ip, a[0]); it = list(v.it[:n])
    # element type: Array by default
    R = ip.P.R[f['r']]
    while len(it) < n: it.append(m.Cell(m.UN))
    ip.wr(t, m.VecV(it))
@ext('reversible_ptr_container::replace', 'ptr_sequence_adapter::replace')
def pv_replace(ip, f, t, a, e):
    m = I(); v = V(ip, t); i = V(ip, a[0]); p = V1(ip, a[1])
    i = i.i if isinstance(i, m.VIt) else i
    if not 0 <= i < len(v.it): ip.finding('oob', ip.loc, 'ptr_vector::replace out of range'); raise m.Thrown('oob')
    it = list(v.it); it[i] = p.c; ip.wr(t, m.VecV(it)); return m.Opaque('auto_type')
# iterators
def it_of(x, ip): return V(ip, x)
@ext('__gnu_cxx::operator+', 'boost::operator+')
def it_add(ip, f, t, a, e): return ip.ptr_arith('+', V(ip, a[0]), V(ip, a[1]))
@ext('__gnu_cxx::__normal_iterator::operator+')
def it_add2(ip, f, t, a, e): return ip.ptr_arith('+', V(ip, t), V(ip, a[0]))
@ext('__gnu_cxx::__normal_iterator::operator-')
def it_sub2(ip, f, t, a, e): return ip.ptr_arith('-', V(ip, t), V(ip, a[0]))
@ext('__gnu_cxx::__normal_iterator::operator*', 'void_ptr_iterator::operator*')
def it_deref(ip, f, t, a, e): return ip.deref(V(ip, t))
@ext('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--')
def it_inc(ip, f, t, a, e):
    v = V(ip, t); n = I().VIt(v.it, v.i + (1 if '++' in f['n'] else -1)); ip.wr(t, n); return v if a else t
@ext('__gnu_cxx::operator!=', '__gnu_cxx::operator==')
def it_cmp(ip, f, t, a, e): return ip.arith('!=' if '!' in f['n'] else '==', V(ip, a[0]).i, V(ip, a[1]).i, None)
def seq(a, b): return list(a.it[a.i:b.i])
@ext('std::accumulate')
def std_acc(ip, f, t, a, e):
    b, en, x = V(ip, a[0]), V(ip, a[1]), V(ip, a[2])
    for c in seq(b, en):
        y = V(ip, c)
        x = ip.arith('+', x, y, None) if len(a) < 4 else V(ip, ip.invoke(V(ip, a[3]), [x, y]))
    return x
@ext('std::iota')
def std_iota(ip, f, t, a, e):
    x = V(ip, a[2])
    for c in seq(V(ip, a[0]), V(ip, a[1])): ip.assign(c, x); x = ip.arith('+', x, 1, None)
@ext('std::fill')
def std_fill(ip, f, t, a, e):
    x = V(ip, a[2])
    for c in seq(V(ip, a[0]), V(ip, a[1])): ip.assign(c, x)
@ext('std::copy')
def std_copy(ip, f, t, a, e):
    m = I(); b, en, d = V(ip, a[0]), V(ip, a[1]), V(ip, a[2])
    if isinstance(b, m.AIt) or isinstance(d, m.AIt) or isinstance(b, m.RawPtr):
        ip.emit('copyio', ip.loc, src=desc(b), dst=desc(d), n=None)
        if isinstance(d, m.AIt):
            v = d.view; ip.emit('w', ip.loc, st=v.st, box=ip.box(v), op='=', t=mk('buf', rawst(b)), ne=True)
        if isinstance(b, m.AIt):
            ip.emit('rdv', ip.loc, st=b.view.st, box=ip.box(b.view))
        return d
    n = 0
    for c in seq(b, en): ip.assign(d.it[d.i + n], V(ip, c)); n += 1
    return m.VIt(d.it, d.i + n)
@ext('std::copy_n')
def std_copyn(ip, f, t, a, e):
    m = I(); b, n, d = V(ip, a[0]), V(ip, a[1]), V(ip, a[2])
    if isinstance(b, m.VIt) and isinstance(d, m.VIt):
        for k in range(n): ip.assign(d.it[d.i + k], V(ip, b.it[b.i + k]))
        return m.VIt(d.it, d.i + n)
    return std_copy(ip, f, t, [b, b, d], e)
def rawst(x):
    m = I()
    return x.st if isinstance(x, m.RawPtr) else None
def desc(x):
    m = I()
    if isinstance(x, m.AIt): return ('view', x.view.st, None)
    if isinstance(x, m.RawPtr): return ('raw', x.st, x.off)
    return ('?',)
@ext('std::transform')
def std_transform(ip, f, t, a, e):
    m = I(); s = seq(V(ip, a[0]), V(ip, a[1]))
    if len(a) == 4:
        d = V(ip, a[2])
        for k, c in enumerate(s): ip.assign(d.it[d.i + k], V(ip, ip.invoke(V(ip, a[3]), [V(ip, c)])))
        return m.VIt(d.it, d.i + len(s))
    s2 = V(ip, a[2]); d = V(ip, a[3])
    for k, c in enumerate(s): ip.assign(d.it[d.i + k], V(ip, ip.invoke(V(ip, a[4]), [V(ip, c), V(ip, s2.it[s2.i + k])])))
    return m.VIt(d.it, d.i + len(s))
@ext('std::for_each')
def std_foreach(ip, f, t, a, e):
    for c in seq(V(ip, a[0]), V(ip, a[1])): ip.invoke(V(ip, a[2]), [c])
    return a[2]
@ext('std::partial_sum')
def std_psum(ip, f, t, a, e):
    d = V(ip, a[2]); acc = None
    for k, c in enumerate(seq(V(ip, a[0]), V(ip, a[1]))):
        acc = V(ip, c) if acc is None else (V(ip, ip.invoke(V(ip, a[3]), [acc, V(ip, c)])) if len(a) > 3 else ip.arith('+', acc, V(ip, c), None))
        ip.assign(d.it[d.i + k], acc)
@ext('std::swap')
def std_swap(ip, f, t, a, e):
    m = I()
    x, y = V(ip, a[0]), V(ip, a[1])
    x, y = ip.copy(x), ip.copy(y)
    ip.assign(a[0], y); ip.assign(a[1], x)
@ext('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref')
def std_move(ip, f, t, a, e): return a[0]
@ext('std::move_backward')
def std_mb(ip, f, t, a, e): raise I().AnalysisError('move_backward')
def minmax(op):
    def g(ip, f, t, a, e):
        m = I()
        vs = [V(ip, x) for x in a]
        if len(vs) == 1 and isinstance(vs[0], m.VecV): vs = [V(ip, c) for c in vs[0].it]
        if len(vs) >= 2 and not all(isinstance(v, (int, Poly, Ex, Fraction)) for v in vs[:2]): 
            vs = vs[:2]
        r = vs[0]
        for v in vs[1:]:
            if isinstance(r, (int, Poly)) and isinstance(v, (int, Poly)):
                try: r = sym.pmin(r, v) if op == 'min' else sym.pmax(r, v)
                except Imprecise: r = mk(op, ip.real(r), ip.real(v))
            else:
                x, y = ip.real(r), ip.real(v)
                if x.op == 'k' and y.op == 'k': r = K(min(x.a[0], y.a[0]) if op == 'min' else max(x.a[0], y.a[0]))
                elif x is y: r = x
                else: r = mk(op, x, y)
        return r
    return g
EXT['std::min'] = minmax('min'); EXT['std::max'] = minmax('max')
# ------------------------------------------------------------------ smart pointers, maps, pairs, strings
@nctor('std::unique_ptr', 'std::shared_ptr')
def c_up(ip, R, a, f):
    m = I()
    if not a: return None
    return V(ip, a[0])
@ext('std::unique_ptr::reset')
def up_reset(ip, f, t, a, e): ip.wr(t, V1(ip, a[0]) if a else None)
@ext('std::unique_ptr::get')
def up_get(ip, f, t, a, e): return ip.rd(t)
@ext('std::unique_ptr::release')
def up_rel(ip, f, t, a, e): v = ip.rd(t); ip.wr(t, None); return v
@ext('std::unique_ptr::operator bool')
def up_bool(ip, f, t, a, e): return int(ip.rd(t) is not None)
@ext('std::unique_ptr::operator=')
def up_asg(ip, f, t, a, e):
    m = I(); ip.wr(t, V1(ip, a[0])); return t
def up_deref(ip, f, t, a, e):
    m = I(); v = ip.rd(t)
    if v is None and f['n'] == 'operator*': return m.Cell(None)      # formed but not necessarily used
    if v is None or v is m.UN:
        ip.finding('null', ip.loc, 'dereference of an empty unique_ptr'); raise m.Thrown('null')
    if isinstance(v, m.Opaque): return v
    return v if f['n'] == 'operator->' else ip.deref(v)
EXT['std::unique_ptr::operator->'] = up_deref; EXT['std::unique_ptr::operator*'] = up_deref
EXT['std::shared_ptr::operator->'] = up_deref; EXT['std::shared_ptr::operator*'] = up_deref
@ext('std::make_unique')
def mk_unique(ip, f, t, a, e): return I().Ptr(I().Cell(V(ip, a[0]) if a else I().Opaque('make_unique')))
@nctor('std::unordered_map', 'std::map')
def c_map(ip, R, a, f):
    m = I(); a = [V(ip, x) for x in a]
    if a and isinstance(a[0], m.VecV):
        out = m.MapV()
        for c in a[0].it:
            p = c.v
            ks = list(p.fn.values()); out = m.MapV(out.it + ((V(ip, ks[0]), m.Cell(V(ip, ks[1]))),))
        return out
    if a and isinstance(a[0], m.MapV): return ip.copy(a[0])
    return m.MapV()
def key_of(v): return v
@ext('std::map::operator=', 'std::unordered_map::operator=')
def map_set(ip, f, t, a, e):
    v = V(ip, a[0]); ip.wr(t, ip.copy(v) if isinstance(v, I().MapV) else c_map(ip, None, [v], f)); return t
def map_idx(ip, f, t, a, e):
    m = I(); mp = V(ip, t); k = V(ip, a[0])
    for kk, c in mp.it:
        if kk == k: return c
    if f['n'] == 'at':
        ip.finding('oob', ip.loc, 'map::at with a missing key %r' % (k,)); raise m.Thrown('map::at')
    R = ip.P.R[f['r']]; ta = R.get('ta') or []
    c = m.Cell(ip.default(ta[1]['t'], True))
    ip.wr(t, m.MapV(mp.it + ((k, c),)))
    if isinstance(t.tag, str): c.tag = t.tag + '[..]'
    elif t.tag is not None: c.tag = t.tag
    return c
for n in ('std::unordered_map::operator[]', 'std::map::operator[]', 'std::unordered_map::at', 'std::map::at'): EXT[n] = map_idx
def map_items(m, mp):
    out = []
    for kk, c in mp.it:
        p = m.Obj(-1); p.fn = {'first': m.Cell(kk), 'second': c}; out.append(m.Cell(p))
    return out
@ext('std::map::begin', 'std::map::cbegin', 'std::unordered_map::begin', 'std::unordered_map::cbegin')
def map_begin(ip, f, t, a, e): m = I(); return m.VIt(map_items(m, V(ip, t)), 0)
@ext('std::map::end', 'std::map::cend', 'std::unordered_map::end', 'std::unordered_map::cend')
def map_end(ip, f, t, a, e): m = I(); l = map_items(m, V(ip, t)); return m.VIt(l, len(l))
@ext('std::map::find', 'std::unordered_map::find')
def map_find(ip, f, t, a, e):
    m = I(); mp = V(ip, t); k = V(ip, a[0]); l = map_items(m, mp)
    return m.VIt(l, next((i for i, (kk, c) in enumerate(mp.it) if kk == k), len(l)))
@ext('std::map::empty', 'std::unordered_map::empty')
def map_empty(ip, f, t, a, e): return int(not V(ip, t).it)
for n in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', '__gnu_cxx::__normal_iterator'):
    EXT[n + '::operator->'] = lambda ip, f, t, a, e: V(ip, t)
    EXT[n + '::operator*'] = it_deref
    EXT[n + '::operator++'] = EXT[n + '::operator--'] = it_inc
    EXT[n + '::operator=='] = EXT[n + '::operator!='] = lambda ip, f, t, a, e: ip.arith('!=' if '!' in f['n'] else '==', V(ip, t).i, V(ip, a[0]).i, None)
def std_cmp(ip, f, t, a, e):
    m = I(); x, y = V(ip, a[0]), V(ip, a[1])
    op = '!=' if '!' in f['n'] else '=='
    if isinstance(x, m.VIt) and isinstance(y, m.VIt): return ip.arith(op, x.i, y.i, None)
    if isinstance(x, m.VecV) and isinstance(y, m.VecV): 
        u, w = [V(ip, c) for c in x.it], [V(ip, c) for c in y.it]
        if all(isinstance(z, (int, str)) for z in u + w): return int((u == w) == (op == '=='))
    if isinstance(x, str) and isinstance(y, str): return int((x == y) == (op == '=='))
    return ip.unknown_call(f, t, a, e)
for n in ('==', '!='): EXT['std::operator' + n] = std_cmp
@ext('std::unordered_map::count', 'std::map::count')
def map_count(ip, f, t, a, e):
    k = V(ip, a[0]); return int(any(kk == k for kk, c in V(ip, t).it))
@ext('std::unordered_map::size', 'std::map::size')
def map_size(ip, f, t, a, e): return len(V(ip, t).it)
@ext('std::make_pair')
def mkpair(ip, f, t, a, e):
    m = I(); o = m.Obj(-1); o.fn = {'first': m.Cell(V(ip, a[0])), 'second': m.Cell(V(ip, a[1]))}; return o
@nctor('std::pair')
def c_pair(ip, R, a, f):
    m = I()
    if not a: return native_default(ip, R)
    if len(a) == 1: return ip.copy(V(ip, a[0]))
    o = m.Obj(R['id']); o.fn = {'first': m.Cell(V(ip, a[0])), 'second': m.Cell(V(ip, a[1]))}; return o
@nctor('std::basic_string')
def c_str(ip, R, a, f):
    m = I(); v = [V(ip, x) for x in a]
    if v and isinstance(v[0], str): return v[0]
    if v and isinstance(v[0], m.VIt): return m.Opaque('string')
    return '' if not v else m.Opaque('string')
@ext('std::basic_string::empty')
def s_empty(ip, f, t, a, e):
    v = V(ip, t); return int(v == '') if isinstance(v, str) else mk('in', 'string.empty')
for n in ('std::plus', 'std::minus', 'std::multiplies', 'std::divides', 'std::less', 'std::greater', 'std::allocator', 'std::runtime_error', 'std::logic_error',
          'boost::timer::cpu_timer', 'std::basic_ostringstream', 'boost::mpi::minimum', 'boost::mpi::maximum', 'blitz::GeneralArrayStorage', 'std::ostringstream',
          'std::basic_ostream', 'std::basic_stringstream', 'std::out_of_range', 'std::invalid_argument', 'std::domain_error', 'std::tuple'):
    NATIVE_CTOR[n] = (lambda n: lambda ip, R, a, f: I().Opaque(n + '(order)' if 'Storage' in n and any(isinstance(V(ip, x), I().VecV) for x in a) else n))(n)
def nop(ip, f, t, a, e): return None
def opq(name): return lambda ip, f, t, a, e: I().Opaque(name)
for n in ('boost::timer::cpu_timer::resume', 'boost::timer::cpu_timer::start', 'boost::timer::cpu_timer::stop', 'free', 'prctl', 'sprintf', 'std::free', 'std::sprintf', 'snprintf'): EXT[n] = nop
for n in ('std::operator<<', 'std::basic_ostream::operator<<', 'std::endl', 'std::basic_ostringstream::str', 'std::to_string', 'boost::mpi::threading::operator<<', 'boost::timer::cpu_timer::elapsed', 'std::operator+', 'std::basic_string::c_str', 'std::setw', 'std::setprecision'): EXT[n] = opq(n)
def sval(ip, x):
    """text of a string or character operand, None if unknown"""
    v = V(ip, x)
    return v if isinstance(v, str) else chr(v) if isinstance(v, int) and 0 < v < 256 else None
@ext('std::basic_string::append', 'std::basic_string::operator+=', 'std::basic_string::push_back')
def s_app(ip, f, t, a, e):
    x, y = sval(ip, t), sval(ip, a[0]) if len(a) == 1 else None
    ip.wr(t, x + y if x is not None and y is not None else I().Opaque('string'))
    return t
_plus = EXT['std::operator+']
def s_plus(ip, f, t, a, e):
    if len(a) == 2 and any(isinstance(V(ip, z), str) for z in a):
        x, y = sval(ip, a[0]), sval(ip, a[1])
        if x is not None and y is not None: return x + y
    return _plus(ip, f, t, a, e)
EXT['std::operator+'] = s_plus
@ext('std::basic_string::substr')
def s_substr(ip, f, t, a, e):
    x = V(ip, t); n = [V(ip, z) for z in a]
    if not isinstance(x, str) or any(not isinstance(z, int) for z in n[:1]): return I().Opaque('string')
    return x[n[0]:] if len(n) < 2 or not isinstance(n[1], int) or n[1] < 0 else x[n[0]:n[0] + n[1]]
@ext('std::basic_string::size', 'std::basic_string::length')
def s_len(ip, f, t, a, e):
    x = V(ip, t); return len(x) if isinstance(x, str) else mk('in', 'strlen')
@ext('std::basic_string::c_str', 'std::basic_string::data')
def s_cstr(ip, f, t, a, e): return V(ip, t)
# further string and stream operations on known text (only where text matters: ip.strs)
class SOut:
    __slots__ = ('s', 'w', 'fill')
    def __init__(self, s, w=0, fill=' '): self.s = s; self.w = w; self.fill = fill
    def __repr__(self): return 'SOut(%r)' % (self.s,)
class Manip:
    __slots__ = ('k', 'v')
    def __init__(self, k, v): self.k = k; self.v = v
def only_strs(*names):
    def d(fn):
        for n in names:
            old = EXT.get(n)
            def g(ip, f, t, a, e, old=old):
                if getattr(ip, 'strs', False):
                    r = fn(ip, f, t, a, e)
                    if r is not NotImplemented: return r
                if old is None: return ip.unknown_call(f, t, a, e)
                return old(ip, f, t, a, e)
            EXT[n] = g
        return fn
    return d
@only_strs('std::operator<<', 'std::basic_ostream::operator<<')
def so_out(ip, f, t, a, e):
    o, x = (a[0], a[1]) if t is None else (t, a[0])
    w = V(ip, o)
    if not isinstance(w, SOut): return NotImplemented
    y = V(ip, x)
    if isinstance(y, Manip):
        ip.wr(o, SOut(w.s, y.v, w.fill) if y.k == 'setw' else SOut(w.s, w.w, chr(y.v))); return o
    # integers are printed as such, characters as characters
    if isinstance(y, int): y = sval(ip, x) if 'char' in str(f.get('t', '')) or f['n'] == 'operator<<' and t is None else str(y)
    if isinstance(y, str) and isinstance(w.w, int): y = y.rjust(w.w, w.fill)
    ip.wr(o, SOut(w.s + y if isinstance(y, str) and w.s is not None else None, 0, w.fill)); return o
@only_strs('std::setw', 'std::setfill')
def so_manip(ip, f, t, a, e):
    v = V(ip, a[0]); return Manip(f['n'], v) if isinstance(v, int) else NotImplemented
@only_strs('std::basic_ostringstream::str', 'std::basic_stringstream::str')
def so_str(ip, f, t, a, e):
    w = V(ip, t)
    if not isinstance(w, SOut): return NotImplemented
    if a: ip.wr(t, SOut(sval(ip, a[0]))); return None
    return w.s if w.s is not None else I().Opaque('string')
for _n in ('std::basic_ostringstream', 'std::basic_stringstream', 'std::ostringstream'):
    NATIVE_CTOR[_n] = (lambda n: lambda ip, R, a, f: SOut('') if getattr(ip, 'strs', False) and not a else I().Opaque(n))(_n)
@only_strs('std::basic_string::pop_back', 'std::basic_string::erase', 'std::basic_string::clear', 'std::basic_string::resize', 'std::basic_string::insert', 'std::basic_string::assign', 'std::basic_string::append', 'std::basic_string::replace')
def s_edit(ip, f, t, a, e):
    x = V(ip, t); n = [V(ip, z) for z in a]
    if not isinstance(x, str): return NotImplemented
    N = f['n']; num = lambda v: isinstance(v, int)
    if N == 'pop_back': y = x[:-1]
    elif N == 'clear': y = ''
    elif N == 'resize' and len(n) == 1 and num(n[0]) and n[0] <= len(x): y = x[:n[0]]
    elif N == 'erase' and not n: y = ''
    elif N == 'erase' and all(map(num, n)): y = x[:n[0]] + (x[n[0] + n[1]:] if len(n) > 1 and n[1] >= 0 else '')
    elif N == 'erase' and len(n) == 1 and isinstance(n[0], I().VIt) and num(n[0].i): y = x[:n[0].i] + x[n[0].i + 1:]
    elif N == 'insert' and len(n) == 2 and num(n[0]) and isinstance(n[1], str): y = x[:n[0]] + n[1] + x[n[0]:]
    elif N == 'assign' and len(n) == 1 and isinstance(n[0], str): y = n[0]
    elif N == 'append' and len(n) == 2 and num(n[0]) and num(n[1]): y = x + n[0] * chr(n[1])
    else: return NotImplemented
    ip.wr(t, y); return t
@only_strs('std::basic_string::begin', 'std::basic_string::cbegin')
def s_begin(ip, f, t, a, e):
    x = V(ip, t); m = I()
    return m.VIt([m.Cell(ord(c)) for c in x], 0) if isinstance(x, str) else NotImplemented
@only_strs('std::basic_string::end', 'std::basic_string::cend')
def s_end(ip, f, t, a, e):
    x = V(ip, t); m = I()
    return m.VIt([m.Cell(ord(c)) for c in x], len(x)) if isinstance(x, str) else NotImplemented
@only_strs('std::basic_string::find', 'std::basic_string::rfind')
def s_find(ip, f, t, a, e):
    x, y = sval(ip, t), sval(ip, a[0])
    if x is None or y is None or len(a) > 1 and not isinstance(V(ip, a[1]), int): return NotImplemented
    return x.rfind(y) if f['n'] == 'rfind' else x.find(y, *[V(ip, z) for z in a[1:2]])
@only_strs('std::basic_string::operator[]', 'std::basic_string::at', 'std::basic_string::back', 'std::basic_string::front')
def s_char(ip, f, t, a, e):
    x = V(ip, t); i = V(ip, a[0]) if a else -1 if f['n'] == 'back' else 0
    return I().Cell(ord(x[i])) if isinstance(x, str) and isinstance(i, int) and -1 <= i < len(x) and x else NotImplemented
@ext('getenv', 'std::getenv')
def getenv(ip, f, t, a, e): return I().Opaque('getenv')
@ext('strlen')
def strlen(ip, f, t, a, e):
    v = V(ip, a[0]); return len(v) if isinstance(v, str) else mk('in', 'strlen')
@ext('strcmp')
def strcmp(ip, f, t, a, e):
    x, y = V(ip, a[0]), V(ip, a[1])
    return int(x != y) if isinstance(x, str) and isinstance(y, str) else mk('in', 'strcmp')
@ext('atoi')
def atoi(ip, f, t, a, e): return mk('in', 'atoi')
@ext('malloc', 'std::malloc')
def malloc(ip, f, t, a, e):
    m = I(); return m.RawPtr(ip.storage((0,), (a[0] if isinstance(a[0], (int, Poly)) else mk('in', 'malloc'),)))
# ------------------------------------------------------------------ arrays
@nctor('blitz::Array')
def c_array(ip, R, a, f):
    m = I(); n = R['ta'][1]
    v = [V(ip, x) for x in a]
    k = [x for x in v if isinstance(x, m.Opaque) and 'Storage' in x.s]
    if k:
        v = [x for x in v if x not in k]
        w = c_array1(ip, R, v)
        if isinstance(w, m.View) and '(order)' in k[0].s and not (v and isinstance(v[0], (m.DataPtr, m.View, m.RawPtr))): w.st.order = 'custom'
        return w
    return c_array1(ip, R, v)
def c_array1(ip, R, v):
    m = I(); n = R['ta'][1]
    if not v: return native_default(ip, R)
    if isinstance(v[0], m.View): return v[0]
    if isinstance(v[0], (m.DataPtr,)):
        sh = [V(ip, c) for c in v[1].it]; src = v[0].view
        # the data pointer addresses the first element of src; a full-shape wrap re-creates the storage layout
        if len(sh) == len(src.dims) == len(src.st.len) and all(sym.eq(x, d[3]) is True for x, d in zip(sh, src.dims)):
            return m.View(src.st, [(d[0], d[1], d[2], d[3], 0) for d in src.dims])
        ip.finding('alias', ip.loc, 'array wraps foreign data with a different shape: %r over %r' % (sh, [d[3] for d in src.dims]))
        return m.View(src.st, [(d[0], d[1], d[2], s, 0) for d, s in zip(src.dims, sh)])
    if isinstance(v[0], m.RawPtr):
        sh = [V(ip, c) for c in v[1].it]
        s = ip.storage((0,) * n, tuple(sh)); ip.emit('wrap', ip.loc, st=s, raw=v[0].st)
        return m.View(s, [(d, 0, 1, sh[d], 0) for d in range(n)])
    if isinstance(v[0], m.ArrX):
        w = ip.new_view([0] * n, list(v[0].sh)); ip.assign_arr(w, v[0], '=', ip.loc); return w
    if isinstance(v[0], m.VecV) and len(v) == 1:
        sh = [V(ip, c) for c in v[0].it]
        if sh and isinstance(sh[0], m.Rng): return ip.new_view([r.a for r in sh], [rlen(r) for r in sh])
        return ip.new_view([0] * n, sh)
    if isinstance(v[0], m.VecV) and len(v) == 2 and isinstance(v[1], m.VecV):   # lbounds, extents
        return ip.new_view([V(ip, c) for c in v[0].it], [V(ip, c) for c in v[1].it])
    if isinstance(v[0], m.RDV):
        return ip.new_view([c.v for c in v[0].lb], [b.v - c.v + 1 for c, b in zip(v[0].lb, v[0].ub)])
    lbs, lens = [], []
    for x in v[:n]:
        if isinstance(x, m.Rng): lbs.append(x.a); lens.append(rlen(x))
        else: lbs.append(0); lens.append(x)
    if len(lbs) != n: raise m.AnalysisError('%s: Array constructor %r' % (ip.loc, v))
    return ip.new_view(lbs, lens)
def view_of(ip, x):
    m = I(); v = V(ip, x)
    if isinstance(v, m.View): return v
    if v is m.UN or v is None:
        ip.finding('null', ip.loc, 'use of an array that was never allocated'); raise m.Thrown('unallocated')
    if isinstance(v, m.Opaque): raise m.AnalysisError('%s: array value unknown (%s)' % (ip.loc, v.s))
    raise m.AnalysisError('%s: not an array: %r' % (ip.loc, v))
def chk(ip, view, k, i, what='index'):
    """bounds obligation: base_k <= i <= base_k+len-1"""
    d = view.dims[k]
    lo = sym.le(d[4], i) if not isinstance(i, Ex) else None
    hi = sym.le(i, d[4] + d[3] - 1) if not isinstance(i, Ex) else None
    ip.nbounds = getattr(ip, 'nbounds', 0) + 1
    if lo is not True or hi is not True:
        ip.finding('oob', ip.loc, '%s %r outside [%r..%r] (dimension %d of %r)' % (what, i, d[4], d[4] + d[3] - 1, k, view.st))
@ext('blitz::Array::operator()', 'blitz::Array::operator[]')
def arr_sub(ip, f, t, a, e):
    m = I(); v = view_of(ip, t)
    xs = [V(ip, x) for x in a]
    if len(xs) == 1 and isinstance(xs[0], m.RDV):
        r = xs[0]; xs = [m.Rng(x.v, y.v) for x, y in zip(r.lb, r.ub)]
    elif len(xs) == 1 and isinstance(xs[0], m.VecV):
        xs = [V(ip, c) for c in xs[0].it]
    if len(xs) != len(v.dims):
        if len(xs) < len(v.dims) and all(isinstance(x, m.Rng) for x in xs): xs += [m.Rng(mk('in', 'fromStart'), mk('in', 'toEnd'))] * (len(v.dims) - len(xs))
        else: raise m.AnalysisError('%s: subscript rank' % ip.loc)
    if all(not isinstance(x, m.Rng) for x in xs):
        for k, x in enumerate(xs): chk(ip, v, k, x)
        return m.ElemRef(v, tuple(xs))
    dims = []; fixed = list(v.fixed)
    for k, x in enumerate(xs):
        sd, fi, stp, ln, base = v.dims[k]
        if isinstance(x, m.Rng):
            a0 = base if isinstance(x.a, Ex) and x.a.op == 'in' else x.a
            b0 = base + ln - 1 if isinstance(x.b, Ex) and x.b.op == 'in' else x.b
            r = m.Rng(a0, b0, x.s); l = rlen(r)
            ne = sym.lower(l)
            emp = sym.upper(l)
            if emp is not None and emp <= 0:
                pass
            else:
                chk(ip, v, k, a0, 'range start'); chk(ip, v, k, b0, 'range end')
            dims.append((sd, fi + (a0 - base) * stp, stp * x.s, l, base))
        else:
            chk(ip, v, k, x)
            fixed.append((sd, fi + (x - base) * stp))
    return m.View(v.st, dims, fixed)
def arr_op_assign(op):
    def g(ip, f, t, a, e):
        m = I(); v = view_of(ip, t)
        x = a[0]
        x = V(ip, x)
        ip.assign_arr(v, x, op, ip.loc); return t
    return g
for o in ('=', '+=', '-=', '*=', '/='): EXT['blitz::Array::operator' + o] = arr_op_assign(o)
for o in ('=', '+=', '-=', '*=', '/='): EXT['blitz::ETBase::operator' + o] = arr_op_assign(o)
@ext('blitz::Array::reference')
def arr_ref(ip, f, t, a, e): ip.setc(t, view_of(ip, a[0]))
@ext('blitz::Array::dataFirst', 'blitz::Array::data')
def arr_df(ip, f, t, a, e): return I().DataPtr(view_of(ip, t))
@ext('blitz::Array::shape', 'blitz::Array::extent')
def arr_shape(ip, f, t, a, e):
    m = I(); v = view_of(ip, t)
    if a: return v.dims[V(ip, a[0])][3]
    return m.VecV([m.Cell(d[3]) for d in v.dims])
@ext('blitz::shape')
def bz_shape(ip, f, t, a, e):
    m = I(); return m.VecV([m.Cell(V(ip, x)) for x in a])
@ext('blitz::Array::base', 'blitz::Array::lbound')
def arr_base(ip, f, t, a, e):
    m = I(); v = view_of(ip, t)
    if a: return v.dims[V(ip, a[0])][4]
    return m.VecV([m.Cell(d[4]) for d in v.dims])
@ext('blitz::Array::ubound')
def arr_ub(ip, f, t, a, e):
    m = I(); v = view_of(ip, t)
    if a: d = v.dims[V(ip, a[0])]; return d[4] + d[3] - 1
    return m.VecV([m.Cell(d[4] + d[3] - 1) for d in v.dims])
@ext('blitz::Array::domain')
def arr_dom(ip, f, t, a, e):
    m = I(); v = view_of(ip, t); return m.RDV([m.Cell(d[4]) for d in v.dims], [m.Cell(d[4] + d[3] - 1) for d in v.dims])
@ext('blitz::Array::size', 'blitz::Array::numElements')
def arr_size(ip, f, t, a, e):
    r = 1
    for d in view_of(ip, t).dims: r = r * d[3]
    return r
@ext('blitz::Array::ordering')
def arr_ord(ip, f, t, a, e): return I().Opaque('ordering')
@ext('blitz::Array::isStorageContiguous')
def arr_cont(ip, f, t, a, e): return mk('in', 'contig')
@ext('blitz::Array::begin')
def arr_begin(ip, f, t, a, e): return I().AIt(view_of(ip, t), False)
@ext('blitz::Array::end')
def arr_end(ip, f, t, a, e): return I().AIt(view_of(ip, t), True)
@ext('blitz::Array::reindex')
def arr_reindex(ip, f, t, a, e):
    m = I(); v = view_of(ip, t); b = [V(ip, c) for c in V(ip, a[0]).it]
    return m.View(v.st, [(d[0], d[1], d[2], d[3], x) for d, x in zip(v.dims, b)], v.fixed)
@ext('blitz::Array::reindexSelf')
def arr_reindexself(ip, f, t, a, e): ip.setc(t, V(ip, arr_reindex(ip, f, t, a, e)))
@ext('blitz::Array::copy')
def arr_copy(ip, f, t, a, e):
    v = view_of(ip, t); w = ip.new_view([d[4] for d in v.dims], [d[3] for d in v.dims]); ip.assign_arr(w, v, '=', ip.loc); w.st.order = getattr(v.st, 'order', None); return w
@ext('blitz::Array::resize')
def arr_resize(ip, f, t, a, e):
    m = I(); xs = [V(ip, x) for x in a]
    if len(xs) == 1 and isinstance(xs[0], m.VecV): xs = [V(ip, c) for c in xs[0].it]
    lbs = [x.a if isinstance(x, m.Rng) else 0 for x in xs]; lens = [rlen(x) if isinstance(x, m.Rng) else x for x in xs]
    ip.wr(t, ip.new_view(lbs, lens))
@ext('blitz::safeToReturn')
def safe(ip, f, t, a, e): return arrv(ip, a[0])
def arrv(ip, x):
    m = I(); v = V(ip, x)
    if isinstance(v, m.View): return m.ArrX(v.leaf(), v.shape())
    return v
def un(op):
    def g(ip, f, t, a, e):
        m = I(); t_, sh = ip.to_x(a[0])
        r = mk(op, t_); return r if sh is None else m.ArrX(r, sh)
    return g
def binop(op):
    def g(ip, f, t, a, e):
        m = I()
        if len(a) == 1 and t is None:
            return ip.arr_op('neg', a[0]) if op == '-' else arrv(ip, a[0])
        xs = ([t] if t is not None else []) + list(a)
        vs = [V(ip, x) for x in xs]
        if isinstance(vs[0], m.Rng):
            return m.Rng(vs[0].a + vs[1], vs[0].b + vs[1], vs[0].s) if op == '+' else m.Rng(vs[0].a - vs[1], vs[0].b - vs[1], vs[0].s)
        if len(vs) > 1 and isinstance(vs[1], m.Rng): return m.Rng(vs[1].a + vs[0], vs[1].b + vs[0], vs[1].s)
        if isinstance(vs[0], m.VecV) or (len(vs) > 1 and isinstance(vs[1], m.VecV)):
            n = len(vs[0].it) if isinstance(vs[0], m.VecV) else len(vs[1].it)
            g1 = lambda v, i: V(ip, v.it[i]) if isinstance(v, m.VecV) else v
            return m.VecV([m.Cell(ip.arith(op, g1(vs[0], i), g1(vs[1], i), None)) for i in range(n)])
        return ip.arr_op(op, *vs)
    return g
for o in ('+', '-', '*', '/'): EXT['blitz::operator' + o] = binop(o)
for o in ('<', '>', '<=', '>=', '==', '!='): EXT['blitz::operator' + o] = binop('cmp' + o)
for o in ('&&', '||'): EXT['blitz::operator' + o] = binop(o)
EXT['blitz::operator!'] = un('!')
for fn in ('abs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'fabs', 'floor', 'ceil', 'log10', 'pow2', 'pow3', 'pow4', 'cbrt', 'sqr', 'exp2', 'tanh', 'isnan', 'isfinite', 'rint', 'round', 'trunc', 'sinh', 'cosh'):
    def mkf(fn):
        def g(ip, f, t, a, e):
            m = I(); x, sh = ip.to_x(a[0])
            if fn == 'fabs': op = 'abs'
            else: op = fn
            if fn in ('pow2', 'sqr'): r = mk('*', x, x)
            elif fn == 'pow3': r = mk('*', mk('*', x, x), x)
            elif x.op == 'k' and sh is None and op in ('abs', 'log', 'exp', 'floor', 'ceil', 'rint', 'round', 'trunc', 'sqrt', 'cbrt'): return cnum(op, x.a[0])
            else: r = mk(op, x)
            return r if sh is None else m.ArrX(r, sh)
        return g
    EXT['blitz::' + fn] = EXT['std::' + fn] = EXT[fn] = mkf(fn)
def cnum(op, q):
    if op == 'abs': return K(abs(q))
    if op in ('log', 'exp', 'sqrt', 'cbrt'):
        try:
            r = {'log': math.log, 'exp': math.exp, 'sqrt': math.sqrt, 'cbrt': lambda x: x ** (1 / 3)}[op](float(q))
            return K(Fraction(r))
        except ValueError: return mk(op, K(q))
    if op == 'floor': return K(math.floor(q))
    if op == 'ceil': return K(math.ceil(q))
    if op == 'trunc': return K(int(q))
    return K(round(q))
def std_abs(ip, f, t, a, e):
    v = V(ip, a[0])
    if isinstance(v, int): return abs(v)
    if isinstance(v, Poly):
        l = sym.lower(v)
        if l is not None and l >= 0: return v
        u = sym.upper(v)
        if u is not None and u <= 0: return -v
    return mkf('abs')(ip, f, t, a, e)
EXT['std::abs'] = EXT['abs'] = std_abs
def powf(ip, f, t, a, e):
    m = I(); x, sx = ip.to_x(a[0]); y, sy = ip.to_x(a[1]); sh = ip.join_shape(sx, sy)
    if y.op == 'k' and x.op == 'k' and y.a[0].denominator == 1 and abs(y.a[0]) < 64 and (x.a[0] != 0 or y.a[0] > 0): return K(x.a[0] ** int(y.a[0]))
    elif y.op == 'k' and y.a[0] == 2: r = mk('*', x, x)
    else: r = mk('pow', x, y)
    return r if sh is None else m.ArrX(r, sh)
@nctor('blitz::IndexPlaceholder')
def c_ipos(ip, R, a, f): return mk('ipos', R['ta'][0])
def fmodf(ip, f, t, a, e):
    m = I(); x, sx = ip.to_x(a[0]); y, sy = ip.to_x(a[1]); sh = ip.join_shape(sx, sy)
    if x.op == 'k' and y.op == 'k' and sh is None and y.a[0] != 0: return K(x.a[0] - y.a[0] * int(x.a[0] / y.a[0]))
    r = mk('fmod', x, y); return r if sh is None else m.ArrX(r, sh)
EXT['blitz::fmod'] = EXT['std::fmod'] = EXT['fmod'] = fmodf
EXT['blitz::pow'] = EXT['std::pow'] = EXT['pow'] = powf
def bmin(op):
    def g(ip, f, t, a, e):
        m = I()
        if len(a) == 1: return ip.reduce(op, V(ip, a[0]), ip.loc)
        return ip.arr_op(op, *a)
    return g
EXT['blitz::min'] = bmin('min'); EXT['blitz::max'] = bmin('max')
EXT['std::fmin'] = EXT['fmin'] = minmax('min'); EXT['std::fmax'] = EXT['fmax'] = minmax('max')
for r in ('sum', 'product', 'any', 'all', 'count', 'mean'):
    EXT['blitz::' + r] = (lambda r: lambda ip, f, t, a, e: ip.reduce(r, V(ip, a[0]), ip.loc))(r)
@ext('blitz::where')
def where(ip, f, t, a, e): return ip.arr_op('where', *a)
@ext('blitz::ETBase::unwrap', 'blitz::asExpr::getExpr', 'blitz::_bz_ArrayExpr::_bz_ArrayExpr')
def unwrap(ip, f, t, a, e): return t if t is not None else arrv(ip, a[0])
@ext('blitz::_bz_ArrayExprFullReduce')
def fullred(ip, f, t, a, e):
    m = I(); op = 'reduce'
    r = V(ip, a[1]) if len(a) > 1 else None
    if isinstance(r, m.Obj): op = ip.P.R[r.r]['n']
    elif isinstance(r, m.Opaque): op = r.s
    return ip.reduce('khnsum' if 'ahan' in op else op, arrv(ip, a[0]), ip.loc)
@ext('blitz::epsilon', 'blitz::tiny', 'blitz::huge', 'blitz::quiet_NaN', 'blitz::signalling_NaN', 'blitz::infinity')
def eps(ip, f, t, a, e): return mk('in', f['n'])
for n in ('std::numeric_limits::epsilon', 'std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::infinity', 'std::numeric_limits::lowest', 'std::numeric_limits::quiet_NaN'):
    EXT[n] = (lambda n: lambda ip, f, t, a, e: mk('in', n))(n)
@ext('std::isnan', 'std::isfinite', 'std::isinf')
def fpclass(ip, f, t, a, e): return mk(f['n'], ip.real(V(ip, a[0])))
# ------------------------------------------------------------------ MPI
for n in ('boost::mpi::communicator', 'boost::mpi::request', 'boost::mpi::environment'):
    NATIVE_CTOR[n] = (lambda n: lambda ip, R, a, f: I().Opaque(n))(n)
@ext('boost::mpi::communicator::rank')
def mpi_rank(ip, f, t, a, e): return ip.mpi[1]
@ext('boost::mpi::communicator::size')
def mpi_size(ip, f, t, a, e): return ip.mpi[0]
@ext('boost::mpi::environment::thread_level')
def mpi_tl(ip, f, t, a, e): return mk('in', 'thread_level')
@ext('boost::mpi::communicator::operator=', 'boost::mpi::request::operator=', 'boost::mpi::environment::operator=')
def mpi_asg(ip, f, t, a, e):
    ip.setc(t, V(ip, a[0])); return t
def p2p(kind):
    def g(ip, f, t, a, e):
        m = I()
        peer, tag, buf = V(ip, a[0]), V(ip, a[1]), V(ip, a[2])
        n = V(ip, a[3]) if len(a) > 3 else 1
        st = buf.st if isinstance(buf, m.RawPtr) else buf.view.st if isinstance(buf, m.DataPtr) else None
        ev = ip.emit(kind, ip.loc, peer=peer, tag=tag, st=st, n=n)
        o = m.Opaque('req'); o.s = ('req', ev); return o
    return g
EXT['boost::mpi::communicator::isend'] = p2p('isend'); EXT['boost::mpi::communicator::irecv'] = p2p('irecv')
EXT['boost::mpi::communicator::send'] = p2p('send'); EXT['boost::mpi::communicator::recv'] = p2p('recv')
@ext('boost::mpi::wait_all')
def mpi_wait(ip, f, t, a, e):
    m = I(); b, en = V(ip, a[0]), V(ip, a[1])
    rq = []
    for c in seq(b, en):
        v = V(ip, c); rq.append(v.s[1] if isinstance(v, m.Opaque) and isinstance(v.s, tuple) else None)
    ip.emit('wait', ip.loc, reqs=rq)
@ext('boost::mpi::request::wait')
def mpi_wait1(ip, f, t, a, e):
    m = I(); v = V(ip, t); ip.emit('wait', ip.loc, reqs=[v.s[1] if isinstance(v, m.Opaque) and isinstance(v.s, tuple) else None])
def coll(kind):
    def g(ip, f, t, a, e):
        m = I()
        op = None
        vals = [V(ip, x) for x in a]
        for v in vals:
            if isinstance(v, m.Opaque) and isinstance(v.s, str) and v.s in ('boost::mpi::minimum', 'boost::mpi::maximum', 'std::plus'): op = v.s
        ev = ip.emit('coll', ip.loc, kind=kind, op=op)
        if kind == 'all_reduce':
            x = vals[1]
            r = mk('allred', op or '?', ip.real(x), ev.key) if isinstance(x, (int, Poly, Ex)) else m.Opaque('allred')
            ev.d['x'] = r if isinstance(r, Ex) else None
            if len(a) == 4 and isinstance(a[2], m.Cell): ip.wr(a[2], r); return None
            return r
            return mk('allred', op or '?', ip.real(x)) if isinstance(x, (int, Poly, Ex)) else m.Opaque('allred')
        return None
    return g
for n in ('all_reduce', 'broadcast', 'gatherv', 'gather', 'all_gather', 'scatter', 'reduce'): EXT['boost::mpi::' + n] = coll(n)
@ext('boost::mpi::communicator::barrier')
def mpi_bar(ip, f, t, a, e): ip.emit('coll', ip.loc, kind='barrier', op=None)
for n in ('MPI_Finalize', 'MPI_Init_thread', 'MPI_Initialized', 'MPI_Barrier', 'MPI_Abort', 'MPI_Query_thread'):
    EXT[n] = (lambda n: lambda ip, f, t, a, e: outp(ip, n, a))(n)
def outp(ip, n, a):
    m = I()
    for x in a:
        if isinstance(x, m.Ptr) and x.c.v is m.UN: ip.setc(x.c, mk('in', n))
    return mk('in', n)
# ------------------------------------------------------------------ driver markers
@ext('mpx_int')
def mpx_int(ip, f, t, a, e):
    v = ip.inputs.get(V(ip, a[0]))
    if v is None: return mk('in', V(ip, a[0]))
    return v
@ext('mpx_real')
def mpx_real(ip, f, t, a, e): return mk('in', V(ip, a[0]))
@ext('mpx_mark')
def mpx_mark(ip, f, t, a, e): ip.emit('mark', ip.loc, name=V(ip, a[0]))
@ext('mpx_probe')
def mpx_probe(ip, f, t, a, e): ip.emit('mark', ip.loc, name=V(ip, a[0]), vals=[V(ip, x) for x in a[1:]])
@ext('mpx_begin_user')
def mpx_bu(ip, f, t, a, e): ip.emit('mark', ip.loc, name='begin_user')
@ext('mpx_end_user')
def mpx_eu(ip, f, t, a, e): ip.emit('mark', ip.loc, name='end_user')
@ext('mpx_async')
def mpx_async(ip, f, t, a, e):
    v = V(ip, a[0]); ip.async_cells.add(v.c)
@ext('mpx_barrier')
def mpx_barrier(ip, f, t, a, e): ip.barrier()
@ext('mpx_h5_file')
def mpx_h5_file(ip, f, t, a, e): ip.emit('mark', ip.loc, name='h5file', vals=[V(ip, x) for x in a])
@ext('mpx_h5_attr')
def mpx_h5_attr(ip, f, t, a, e):
    v = V(ip, a[1])
    if not isinstance(v, str):
        try: v = ip.rd(ip.deref(v))
        except Exception as x: v = I().Opaque('attr %s' % x)
    ip.emit('mark', ip.loc, name='h5attr', vals=(V(ip, a[0]), v))
@ext('mpx_h5_write')
def mpx_h5_write(ip, f, t, a, e):
    m = I(); n = V(ip, a[2]); d = V(ip, a[0])
    g = lambda x: [V(ip, c) for c in V(ip, x).it[:n]]
    if isinstance(d, m.DataPtr):
        w = d.view
        whole = len(w.dims) == len(w.st.len) and all(k == x[0] and x[2] == 1 and sym.eq(x[1], w.st.lb[k]) is True and sym.eq(x[3], w.st.len[k]) is True for k, x in enumerate(w.dims))
        info = {'order': getattr(w.st, 'order', None), 'whole': whole, 'shape': list(w.st.len), 'st': w.st}
    else: info = {'raw': repr(d)}
    ip.emit('mark', ip.loc, name='h5write', vals=(V(ip, a[1]), info, *[g(x) for x in a[3:]]))
    if isinstance(d, m.DataPtr): ip.emit('obs', ip.loc, st=d.view.st, box=ip.box(d.view), eq=1000)
@ext('mpx_observe')
def mpx_observe(ip, f, t, a, e):
    v = V(ip, a[0]); ip.emit('obs', ip.loc, st=v.st, box=ip.box(v), eq=V(ip, a[1]))
