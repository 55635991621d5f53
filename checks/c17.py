"""C17 recorded output: what a writer is given, and when."""
from framework import *
import gvn, sym, meta, random, math
from fractions import Fraction
from gvn import const, HP, H
from interp import Br, Sc, Ev
LEVEL = 'other'
RULE = ('A writer with the interface of the library\'s own (derived from output_common, with a record() that inspects out_data()) is interpreted. Fixed time step: the guards under which record() runs are extracted from the trace and '
        'evaluated for every pair (outfreq, outstart) of a complete small range; the data given must have the value numbers of the model state after that step, at every cell, and record_time must be the time. Variable time step: the '
        'path of the output decisions is followed for many valuations of the time steps; the data given must have the value numbers of the Lagrange interpolant (linear, quadratic) of the states at the surrounding steps at the output time.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)',
          'the periodicity of the guards in the step number is taken from the steps interpreted (4 with a fixed, 3 with a variable step)']
FIX = ('o1', 'o2', 'o2r', 'o1_w', 'o2v')
TWIN = ('o1', 'o2r', 'o2v')          # also without the writer: p_<name>
VAR = ('o1_v1_10', 'o1_v2_10', 'o2_v1_10', 'o2_v2_10')
def jobs(tier):
    js = [(n, l, tier) for n in FIX for l in ('when', 'what')]
    js += [('p_' + n, 'same', tier) for n in TWIN] 
    for n in VAR:
        ns = (24 if n[1] == '1' else 12) * (1 if tier == 'quick' else 4)
        js += [(n, 'var:%d:%d' % (k, k + 6), tier) for k in range(0, ns, 6)]
    js.sort(key=lambda j: -meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'cells compared': 60, 'guards evaluated': 400, 'records on followed paths': 20}
def run(j): return gvn.deep(_run, j)

# evaluation of scalar expressions under a valuation ----------------------------------------------------------------------------
class Val:
    """one assignment of numbers to the scalar inputs and to the reductions"""
    def __init__(self, seed, fixed): self.rnd = random.Random(seed); self.fixed = fixed; self.memo = {}; self.fn = {}; self.key = {}; self.hold = []
    def num(self, k):
        if k not in self.key: self.key[k] = Fraction(self.rnd.randint(700, 990), 1000)
        return self.key[k]
    def __call__(self, e):
        if isinstance(e, bool): return Fraction(int(e))
        if isinstance(e, sym.Poly): return Fraction(e.const) if hasattr(e, 'const') else Fraction(e.m.get((), 0))
        if not isinstance(e, sym.Ex): return Fraction(e)
        r = self.memo.get(e.id)
        if r is None: r = self.memo[e.id] = self.ev(e); self.hold.append(e)
        return r
    def ev(self, e):
        o, a = e.op, e.a
        if o == 'k': return Fraction(a[0])
        if o == 'in':
            if a[0] in self.fixed: return Fraction(self.fixed[a[0]])
            if a[0] in ('epsilon', 'tiny'): return Fraction(1, 10 ** 12)
            return self.num(('in', a[0]))
        if o in ('red', 'allred', 'rd', 'el'): return self.num((o, e.id))
        f = self
        if o in ('sel', 'where'): return f(a[1]) if f(a[0]) else f(a[2])
        if o == '&&': return Fraction(int(bool(f(a[0])) and bool(f(a[1]))))
        if o == '||': return Fraction(int(bool(f(a[0])) or bool(f(a[1]))))
        x = [f(z) if isinstance(z, (sym.Ex, sym.Poly)) else Fraction(z) if isinstance(z, (int, Fraction)) else z for z in a]
        if o == '+': return x[0] + x[1]
        if o == '-': return x[0] - x[1] if len(x) == 2 else -x[0]
        if o == '*': return x[0] * x[1]
        if o == '/': return x[0] / x[1]
        if o == 'neg': return -x[0]
        if o == 'abs': return abs(x[0])
        if o == 'max': return max(x[0], x[1])
        if o == 'min': return min(x[0], x[1])
        if o == '!': return Fraction(int(not x[0]))
        if o == 'floor': return Fraction(math.floor(x[0]))
        if o == 'ceil': return Fraction(math.ceil(x[0]))
        if o in ('round', 'rint'): return Fraction(math.floor(x[0] + Fraction(1, 2)))
        if o in ('toint', 'trunc'): return Fraction(math.trunc(x[0]))
        if o in ('op%', '%', 'fmod', 'mod'): return x[0] - x[1] * math.trunc(x[0] / x[1])
        if o in ('op/', 'idiv'): return Fraction(math.trunc(x[0] / x[1]))
        if o.startswith('cmp'):
            c = o[3:]
            return Fraction(int({'>': x[0] > x[1], '<': x[0] < x[1], '>=': x[0] >= x[1], '<=': x[0] <= x[1], '==': x[0] == x[1], '!=': x[0] != x[1]}[c]))
        raise gvn.Undecided('no value for operation %s' % o)
class Exit(Exception):
    def __init__(self, k): self.k = k
CATCH = {'fn': ('ret',), 'loop': ('break',), 'sym': ('break',), 'iter': ('cont',)}
def replay(ip, val):
    """the marks passed on the path selected by a valuation"""
    out = []; n = [0]
    def walk(t):
        for x in t:
            if isinstance(x, Ev):
                if x.k == 'mark': out.append((x.d['name'], x.d.get('vals')))
                elif x.k == 'throw': raise Exit('throw')
            elif isinstance(x, Br):
                n[0] += 1
                th = [x.outs[k] == 'throw' or any(isinstance(y, Ev) and y.k == 'throw' for y in x.arms[k]) for k in (0, 1)]
                i = th.index(False) if any(th) and not all(th) else 0 if val(x.cond) else 1          # runs that do not fail
                walk(x.arms[i])
                if x.outs[i]: raise Exit(x.outs[i])
            elif x.kind == 'team':
                run = ip.team_runs[x.info]
                for r in sorted(run): walk(run[r])
            else:
                try: walk(x.body)
                except Exit as e:
                    if e.k not in CATCH.get(x.kind, ()): raise
    try: walk(ip.root)
    except Exit as e: out.append(('exit', e.k))
    return out, n[0]
def stof(p, e, lev):
    """storage of the state of equation e at a time level"""
    for st in set(x for o in p.marks for x in o[2]):
        if getattr(st, 'name', None) == 'mem.psi[%d][%d]' % (e, lev): return st
    raise gvn.Undecided('no storage of equation %d, level %d' % (e, lev))
def _run(j):
    n, lab, tier = j
    return {'when': when, 'what': what, 'same': same}.get(lab, var)(n, lab, tier)
def nvars(c): return 2 if c.ne == 3 else c.ne          # recorded variables
def when(n, lab, tier):
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); gvn.GVN.split = ('q0',)
    nt = 4 if c.nd == 1 else 3
    m = meta.Model(c, q, nt); win = 2 if n == 'o1_w' else 1
    ref = m.inst().p.marks
    hasstart = 'outstart' in c.kw.get('rtp', '')
    for of in range(1, nt + 2):
        for os_ in range(0, nt + 2):
            if os_ % of or (os_ and not hasstart): continue
            val = Val(1, {'outfreq': of, 'outstart': os_})
            ms, k = replay(m.ip, val); r.count('guards evaluated', k)
            step = 0; got = {}; first = True; seen = None
            for nm, vals in ms:
                if nm == 'start':
                    r.add(not got, 'start|order', 'start() runs after the first record'); seen = True
                if nm == 'record':
                    r.add(bool(seen), 'start|order', 'a record before start()')
                    s, t, rt = (val(x) for x in vals)
                    r.add(int(s) == step, 'record|step', 'a record in step %d has the step counter %s' % (step, s))
                    r.add(rt == t and t == step * val(sym.mk('in', 'dt')), 'record|time', 'the recorded time of step %d is %s, the time is %s (dt = %s)' % (step, rt, t, val(sym.mk('in', 'dt'))))
                    got[step] = got.get(step, 0) + 1
                if nm == 'post_step': step += 1
            r.add(step == nt, 'record|steps', '%d steps of %d seen' % (step, nt))
            for s in range(0, nt + 1):
                w = s == 0 or any((s - t) % of == 0 and s - t >= os_ for t in range(win))
                k = got.get(s, 0)
                r.count('steps decided')
                r.add((k > 0) == w, 'record|when', 'outfreq=%d outstart=%d%s: step %d is %s' % (of, os_, ' outwindow=2' if win == 2 else '', s, 'recorded but should not be' if k else 'not recorded'))
                if k and w: r.add(k % nvars(c) == 0, 'record|variables', 'outfreq=%d outstart=%d: %d records of %d variables in step %d' % (of, os_, k, nvars(c), s))
    r.sample('%s: guards of record() decided for outfreq 1..%d, steps 0..%d' % (n, nt + 1, nt))
    return r
def pts_(m):
    import itertools
    ax = [[0, 1, 4, n - 2, n - 1] for n in m.n]
    return list(itertools.product(*ax))
def what(n, lab, tier):
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); gvn.GVN.split = ('q0',)
    nt = 3 if c.nd == 1 else 2
    m = meta.Model(c, q, nt)
    leaf = lambda g, nm, k, pt: meta.base(g, nm, k, pt) if len(pt) == c.nd else None
    A = m.inst(leaf)
    # with outfreq = 1 every step is recorded: the observations in order
    recs = [o for o in A.p.obs if o[2] >= 100]
    nv = nvars(c)
    r.add(len(recs) >= nv * (nt + 1), 'record|count', '%d records of %d variables in %d steps' % (len(recs), nv, nt))
    # the state after k steps: the final state of a run of k steps; after none: the input
    fin = {k: meta.Model(c, q, k).inst(leaf) for k in range(1, nt)}; fin[nt] = A
    order = []; s = 0; oi = iter(recs)
    for nm, vals, env in A.p.marks:
        if nm == 'post_step': s += 1
        if nm == 'record': order.append((s, next(oi, None)))
    for s, o in order:
        if o is None: r.add(False, 'record|observed', 'a record without data'); continue
        e = o[2] - 100
        full = tuple((0, x - 1) for x in m.n)
        r.add(boxeq(o[1], full), 'record|range', 'record of variable %d covers %s, the domain is %s' % (e, o[1], full))
        for pt in pts_(m):
            x = A.g.cell(o[3], pt, A.p)
            y = fin[s](e, pt) if s else initial(A, c, e, pt)
            r.count('cells compared')
            r.add(x == y, 'record|data', 'variable %d recorded after step %d is not the state of the model at that time (cell %s)' % (e, s, pt))
    r.sample('%s: %d records compared with the state' % (n, len(order)))
    return r
def same(n, lab, tier):
    r = Res(); q = runner.fresh(20); gvn.GVN.split = ('q0',)
    c = registry.BY[n[2:]]; nt = 2
    leaf = lambda g, nm, k, pt: meta.base(g, nm, k, pt) if len(pt) == c.nd else None
    A = meta.Model(c, q, nt).inst(leaf); m = meta.Model(n, q, nt); B = m.inst(leaf)
    for e in range(c.ne):
        for pt in pts_(m):
            r.count('cells compared'); ok = A(e, pt) == B(e, pt)
            r.add(ok, 'writer|state', '' if ok else 'equation %d after %d steps depends on whether a writer is attached (cell %s)' % (e, nt, pt))
    r.sample('%s: state with and without a writer compared' % c.name)
    return r
def boxeq(a, b): return len(a) == len(b) and all(gvn.le(x[0], y[0]) and gvn.le(y[0], x[0]) and gvn.le(x[1], y[1]) and gvn.le(y[1], x[1]) for x, y in zip(a, b))
def initial(A, c, e, pt):
    """state before the first step: what the run starts from"""
    mk = next(x for x in A.p.marks if x[0] == 'end_user')
    return A.g.cell(mk[2][stof(A.p, e, 0)], pt, A.p)
def var(n, lab, tier):
    _, lo, hi = lab.split(':'); r = Res()
    for seed in range(int(lo), int(hi)): var1(n, seed, tier, r)
    return r
def var1(n, seed, tier, r):
    import copy
    c0 = registry.BY[n]; c = copy.copy(c0); q = runner.fresh(20); gvn.GVN.split = ('q0',)
    order = 1 if '_v1_' in n else 2
    rnd = random.Random(1000 + seed)
    ofq = Fraction(rnd.randint(*((1400, 3000) if order == 1 else (3000, 5000)) if seed % 6 else (300, 900)), 1000)
    val = Val(seed, {'outfreq': ofq, 'max_courant': 1, 'dt': 1})
    c.decide = lambda e: bool(val(e)) if any(z.op == 'in' and z.a[0] in ('outfreq', 'dt', 'max_courant') for z in gvn.exprs(e)) else None
    m = meta.Model(c, q, 4 if c.nd == 1 else 3, unroll=8)
    leaf = lambda g, nm, k, pt: meta.base(g, nm, k, pt) if len(pt) == c.nd else None
    A = m.inst(leaf); p = A.p
    g = lambda e: A.g.tree(e, (), None, p) if isinstance(e, sym.Ex) else const(e)
    # the steps: time and state before and after
    ante = []; post = []; recs = []; s = 0; oi = iter([o for o in p.obs if o[2] >= 100])
    last = None
    for nm, vals, env in p.marks:
        if nm == 'ante_step_end': last = ('a', vals)
        if nm == 'step_end': last = ('p', vals)
        if nm == 'levels':
            (ante if last[0] == 'a' else post).append((last[1], [int(val(x)) for x in vals], env))
        if nm == 'post_step': s += 1
        if nm == 'record': recs.append((s, vals, next(oi, None)))
    nst = len(post)
    if nst < 2: r.add(False, 'variable step|steps', '%d steps seen' % nst); return
    T = [Fraction(0)] + [val(x[0][1]) for x in post]
    tg = [g(x[0][1]) for x in ante] + [g(post[-1][0][1])]
    def state(k, e, pt):
        """state of equation e after k steps"""
        vals, lev, env = ante[k] if k < len(ante) else post[k - 1]
        if k == 0: return initial(A, c, e, pt)
        lv = lev[0 if e == 0 else -1] % 2
        return A.g.cell(env[stof(p, e, lv)], pt, p)
    # the output times crossed in each step
    cross = [(k, list(range(math.floor(T[k] / ofq) + 1, math.floor(T[k + 1] / ofq) + 1))) for k in range(nst)]
    want = []          # (step after which the record is due, index of the output time, first step of the stencil)
    dense = False; lastc = None
    for k, l in cross:
        if not l: continue
        if len(l) > 1: dense = True
        if order == 2 and lastc is not None and k - lastc < order: dense = True
        want.append((k + order, l[-1], k)); lastc = k
    r.count('paths followed'); r.count('dense paths', int(dense))
    if order == 1:
        r.add(not dense, 'variable step|several output times in one step', 'steps at %s, output interval %s: only the last of the output times passed in one step is recorded' % (fl(T), float(ofq)))
    elif dense:
        # closer together than the stencil of the interpolation
        lost = [o for w, o, k in want if w <= nst and not any(s_ == w for s_, v, ob in recs)]
        if any(len(l) > 1 for k, l in cross): lost += ['passed together']
        r.add(not lost, 'variable step|output times closer than two steps', 'quadratic interpolation, steps at %s, output interval %s: output times are not recorded' % (fl(T), float(ofq)))
        return
    due = {w: (i, k) for w, i, k in want}
    nv = nvars(c)
    for s in range(1, nst + 1):
        l = [(v, o) for s_, v, o in recs if s_ == s]
        r.count('steps decided')
        if s not in due: r.add(not l, 'variable step|when', 'order %d, steps at %s, output interval %s: step %d is recorded, no output is due' % (order, fl(T), float(ofq), s)); continue
        i, k = due[s]
        r.add(len(l) == nv and sorted(o[2] - 100 for v, o in l if o) == list(range(nv)), 'variable step|when', 'order %d, steps at %s, output interval %s: output %d is due after step %d, %d records of %d variables' % (order, fl(T), float(ofq), i, s, len(l), nv))
        tt = const(i) * HP('in', ('outfreq',))
        for v, o in l:
            if o is None: continue
            r.count('records on followed paths')
            r.add(val(v[2]) == i * ofq, 'variable step|time', 'the recorded time is %s, the output time is %s' % (float(val(v[2])), float(i * ofq)))
            tr = g(v[2]); e = o[2] - 100
            for pt in pts_(m):
                x = A.g.cell(o[3], pt, p)
                nodes = range(k, k + order + 1)
                y = gvn.ZERO
                for a in nodes:
                    w = gvn.ONE
                    for b in nodes:
                        if a != b: w = w * ((tr - tg[b]) / (tg[a] - tg[b]))
                    y = y + w * state(a, e, pt)
                r.count('cells compared')
                r.add(x == y, 'variable step|data', 'order %d: variable %d recorded after step %d is not the interpolant of the states of steps %d..%d at the output time (cell %s)' % (order, e, s, k, k + order, pt))
    # the first record: the initial state
    for s_, v, o in recs:
        if s_ == 0 and o is not None:
            for pt in pts_(m):
                r.count('cells compared'); r.add(A.g.cell(o[3], pt, p) == initial(A, c, o[2] - 100, pt), 'variable step|start', 'the first record is not the initial state (cell %s)' % (pt,))
    r.add(sum(1 for s_, v, o in recs if s_ == 0) == nv, 'variable step|start', 'the initial state is not recorded once per variable')
    r.sample('%s: steps at %s, outputs every %s: %d records' % (n, fl(T), float(ofq), len(recs)))
def fl(T): return ' '.join('%.3g' % float(t) for t in T)
