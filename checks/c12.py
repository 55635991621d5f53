"""C12 accounting of steps and time; advancing in two calls equals advancing in one."""
from framework import *
import gvn, sym, meta
from gvn import ZERO, HP, H, const, V
LEVEL = 'other'
RULE = ('The driver is interpreted with probes in the user-overridable hooks. Order: ante_loop exactly once per run, then per step ante_step, ante_delayed_step, post_step. Values at the probes (step counter, time, time step) are compared '
        'with k, k*dt (or the running sum of the variable time step) as algebraic expressions. The final state after advance(2) and after advance(1);advance(1) must have equal value numbers, for all grid sizes.')
ASSUME = ['value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)',
          'runs of two steps; iterative solvers are followed for one iteration before convergence is tested; the split-run comparison is for fixed time steps']
HEAVY = {'prs', 'sgs', 'bq'}
QUICKH = {'p2_mr'}
SKIPQ = {'u3_imp', 'a3_def'}
def jobs(tier):
    js = []
    for c in registry.Z:
        if not c.name.startswith('z1_'): continue
        b = c.name[3:]
        js.append((c.name, 'order', tier))
        if 'var_dt' in c.ct: continue
        if tier == 'quick' and (c.fam in HEAVY and b not in QUICKH or b in SKIPQ): continue
        js.append(('z2_' + b, 'split', tier))
    js.sort(key=lambda j: (j[1] == 'order', meta.weight(registry.BY[j[0]])))
    return js
def floors(tier): return {'cells compared': 80, 'probe values': 300}
def run(j): return gvn.deep(_run, j)
def flat(p, m):
    out = []
    for nm, vals, env in p.marks:
        if vals is None or nm == 'user_rhs': continue
        out.append((nm, vals))
    return out
def _run(j):
    n, lab, tier = j
    c = registry.BY[n]; r = Res(); q = runner.fresh(20)
    gvn.GVN.split = ('q0',)
    if lab == 'order':
        m = meta.Model(c, q, 2); a = m.inst()
        ev = flat(a.p, m); vd = 'var_dt' in c.ct
        val = lambda x: a.g.tree(x, (), None, a.p) if isinstance(x, sym.Ex) else const(int(x) if isinstance(x, bool) else x) if not isinstance(x, sym.Poly) else a.g.poly(x)
        dt = HP('in', ('dt',))
        def bad(k, t): r.add(False, 'steps|%s' % k, t)
        want = ['ante_loop', 'ante_loop_end']
        names_ = [e[0] for e in ev]
        nst = sum(1 for x in names_ if x == 'ante_step')
        want += ['ante_step', 'ante_delayed_step', 'post_step', 'step_end'] * (nst if vd else 2)
        if names_ != want: bad('hook order', 'hooks run as %s, expected %s' % (names_, want))
        else: r.add(True, '', '')
        k = 0; t = ZERO; cur = None
        for nm, (ts, tm, d) in ev:
            vs, vt, vdt = val(ts), val(tm), val(d)
            r.count('probe values', 3)
            if nm == 'post_step': k += 1; t = t + cur if vd else dt * const(k)
            if nm == 'ante_step': cur = vdt
            for what, x, y in (('step counter', vs, const(k)), ('time', vt, t)) + (() if vd else (('time step', vdt, dt),)):
                r.add(x == y, 'steps|%s' % what, '%s at %s of step %d is not the expected %s' % (what, nm, k, 'k' if what == 'step counter' else 'k*dt' if not vd else 'sum of the time steps'))
        r.count('statements value-numbered', a.g.nev); r.sample('%d probes' % len(ev))
        return r
    A = meta.Model('z1_' + n[3:], q, 2); B = meta.Model(c, q, 1)
    a, b = A.inst(), B.inst()
    ea, eb = flat(a.p, A), flat(b.p, B)
    r.add([x[0] for x in ea] == [x[0] for x in eb], 'steps|split hooks', 'hooks differ between advance(2) and advance(1) twice: %s / %s' % ([x[0] for x in ea], [x[0] for x in eb]))
    pts = meta.points(A.n, (0,)) if c.fam not in HEAVY else meta.points(A.n, ())
    for pt in pts:
        for e in range(c.ne):
            ok = a(e, pt) == b(e, pt); r.count('cells compared')
            fn, loc = ('', '') if ok else meta.blame(a, pt, b, pt, e)
            r.add(ok, 'steps|split|%s' % fn, 'equation %d at cell %r differs between advance(2) and advance(1) twice; first differing statement in %s at %s' % (e, pt, fn, loc))
    r.count('statements value-numbered', a.g.nev + b.g.nev)
    return r
