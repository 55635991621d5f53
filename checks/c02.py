"""C02 lock step: all threads of a team pass the same barriers, and all processes enter the same collective operations."""
from framework import *
import analysis
from interp import Ev, Br, Sc
LEVEL = 'other'
RULE = ('Every thread of the team is interpreted on its own; its trace is reduced to the tree of barriers, team-wide messages and the branches and loops that contain them. '
        'Obligation: the trees of all threads are identical, where a branch is identical only if its condition is the same symbolic value in every thread (derived from shared data read in '
        'the same barrier interval, inputs or constants - not from thread-private data, the thread number or a flag another agent may change in between). With distributed memory the same is '
        'required of the collective operations of the processes. For every shared-memory backend the number of threads that take part, the barrier count and the size '
        'of the shared scratch arrays are compared for every ordering of thread count and extents.')
def jobs(tier):
    sh = lambda c, t: [('T2' if not c.mpi else 'T2xP2', dict(T=2), (2 if c.mpi else 1, 0))] + ([('T3' if not c.mpi else 'T3xP3', dict(T=3), (3 if c.mpi else 1, 0))] if tier == 'thorough' else [])
    js = case_jobs(tier, shapes=sh, asyn=True)
    for b in BACKENDS:
        for nd in (1, 2, 3): js.append(('backend %s %dd' % (b, nd), 'orderings', tier, None))
    return js
BACKENDS = ('serial', 'cxx11_thread', 'boost_thread', 'openmp')
def floors(tier): return {'barriers': 4000, 'branches with barriers': 100, 'backend configurations': 30, 'barrier behaviours': 100}
def backend(j):
    import backends
    r = Res(); _, b, nd = j[0].split(); nd = int(nd[0])
    # available threads below, between and above the extents, in every order of the extents
    exts = {1: [(5,), (1,)], 2: [(4, 9), (9, 4)], 3: [(3, 6, 9), (9, 6, 3), (6, 9, 3), (6, 3, 9), (3, 9, 6), (9, 3, 6)]}[nd]
    Ts = (1, 2, 5, 12) if j[2] == 'quick' else (1, 2, 3, 4, 5, 7, 12)
    for ext in exts:
        for T in Ts:
            ip, thrown = backends.analyse(b, nd, ext, T)
            at = '%s %dD extents %s, %d threads available' % (b, nd, ext, T)
            r.count('backend configurations')
            if not r.add(thrown is None, 'backend|throws|%s' % b, '%s: construction or run throws %s' % (at, thrown)): continue
            mem, algos = backends.parts(ip.P, ip.team.v)
            n = len(algos.it)
            r.add(len({id(x) for x in ip.spawned}) == len(ip.spawned), 'backend|solver run twice|%s' % b, '%s: %d thread entries run %d distinct solvers' % (at, len(ip.spawned), len({id(x) for x in ip.spawned})))
            r.add({id(x) for x in ip.spawned} == {id(x) for x in algos.it}, 'backend|threads and solvers|%s' % b, '%s: %d solvers constructed, %d run by a thread' % (at, n, len(ip.spawned)))
            r.add(ip.findings == [], 'backend|access|%s' % b, '%s: %s' % (at, ip.findings[:2]))
            for x in ip.barriers: r.add(x == n, 'backend|barrier count|%s' % b, '%s: barrier for %s participants, %d threads enter it' % (at, x, n))
            for what, x in team_sizes(ip.P, mem): r.add(x == n, 'backend|team size|%s' % b, '%s: %s holds %s, %d threads take part' % (at, what, x, n))
            if ext == exts[0] or j[2] != 'quick':
                for good, text in backends.exercise_barrier(ip, n):
                    r.count('barrier behaviours'); r.add(good, 'backend|barrier|%s' % b, '%s: %s' % (at, text))
    r.sample('%d configurations' % r.counts['backend configurations'])
    return r
def team_sizes(P, mem):
    """what the shared-memory object believes the number of threads is: its integer size member and per-thread scratch arrays"""
    out = []
    for fl in P.fields(mem.r):
        v = mem.f[fl['id']].v if fl['id'] in mem.f else None
        if fl['n'] == 'size' and isinstance(v, int): out.append(('the team size member', v))
    return out
def skel(tree, kinds, conds={}):
    """tree of synchronisation events; everything else is dropped"""
    out = []
    for x in tree:
        if isinstance(x, Ev):
            if x.k == 'bar' and 'bar' in kinds: out.append(('bar', x.d['id'], x))
            elif x.k == 'coll' and 'coll' in kinds: out.append(('coll', x.d['kind'], x.d['op'], x))
        elif isinstance(x, Br):
            arms = tuple(skel(a, kinds, conds) for a in x.arms)
            # leaving a loop or function early matters as much as a barrier inside the branch
            if any(arms) or any(o in ('break', 'cont', 'ret') for o in x.outs): out.append(('br', conds.get(x, x.cond), arms, tuple(x.outs), x))
        else:
            b = skel(x.body, kinds, conds)
            if b: out.append(('sc', x.kind, b, x) if x.kind in ('loop', 'sym', 'iter') else ('fn', '', b, x))
    return tuple(out)
def strip(s):
    """drop early exits of scopes that hold no synchronisation at all"""
    return s
def has(s): return any(x[0] in ('bar', 'coll') or (x[0] == 'br' and any(has(a) for a in x[2])) or (x[0] in ('sc', 'fn') and has(x[2])) for x in s)
def prune(s):
    """remove scopes without synchronisation; keep early exits only inside scopes that synchronise"""
    out = []
    for x in s:
        if x[0] in ('sc', 'fn'):
            if has(x[2]): out.append((x[0], x[1], prune(x[2]), x[3]))
        elif x[0] == 'br': out.append((x[0], x[1], tuple(prune(a) for a in x[2]), x[3], x[4]))
        else: out.append(x)
    return tuple(out)
def diff(a, b, cnt):
    """first difference between two synchronisation trees, or None"""
    for i in range(max(len(a), len(b))):
        if i >= len(a) or i >= len(b): return ('missing', (a if i < len(a) else b)[i])
        x, y = a[i], b[i]
        if x[0] != y[0]: return ('kind', x)
        if x[0] == 'bar':
            cnt[0] += 1
            if x[1] != y[1]: return ('other barrier', x)
        elif x[0] == 'coll':
            cnt[0] += 1
            if x[1:3] != y[1:3]: return ('other collective', x)
        elif x[0] == 'br':
            cnt[1] += 1
            if x[1] is not y[1] and x[1] != y[1]: return ('condition', x)
            if x[3] != y[3]: return ('exit', x)
            for p, q in zip(x[2], y[2]):
                d = diff(p, q, cnt)
                if d: return d
        else:
            if x[1] != y[1]: return ('scope', x)
            d = diff(x[2], y[2], cnt)
            if d: return d
    return None
def canon(tree):
    """rewrite branch conditions of one process in terms of the results of collective operations: a shared cell is replaced by
    the value last stored there, a collective's result by its ordinal in the process's sequence of collectives"""
    env = {}; num = {}
    def f(x):
        if x.op == 'el': return val(env.get((x.a[0], x.a[1])))
        if x.op == 'allred': return sym.mk('in', 'result of collective #%s' % num.get(x.a[-1]), x.a[0])
        return None
    def val(v): return v
    def go(t):
        for x in t:
            if isinstance(x, Ev):
                if x.k == 'coll': num[x.key] = len(num)
                elif x.k == 'ew': env[(x.d['st'], x.d['ix'])] = sym.rewrite(x.d['v'], f) if isinstance(x.d['v'], sym.Ex) and x.d['op'] == '=' else None
            elif isinstance(x, Br):
                conds[x] = sym.rewrite(x.cond, f) if isinstance(x.cond, sym.Ex) else x.cond
                for a in x.arms: go(a)
            else: go(x.body)
    conds = {}
    go(tree)
    return conds
def where(x):
    e = x[-1]
    return getattr(e, 'loc', '?')
def fns(ip, x):
    e = x[-1]
    if isinstance(e, Ev): return fname(ip, e.fn)
    for k in (x[2] if x[0] == 'br' else [x[2]]):
        for z in k:
            f = fns(ip, z)
            if f != '?': return f
    return '?'
def compare(r, ip, trees, kinds, what):
    ref = None
    for k in sorted(trees):
        s = prune(tuple(skel(trees[k], kinds, canon(trees[k]) if 'coll' in kinds else {})))
        if ref is None: ref = s; continue
        cnt = [0, 0]
        d = diff(ref, s, cnt)
        r.count('barriers' if 'bar' in kinds else 'collectives', cnt[0]); r.count('branches with barriers' if 'bar' in kinds else 'branches with collectives', cnt[1])
        r.obl += cnt[0] + cnt[1]; r.ok += cnt[0] + cnt[1] - (1 if d else 0)
        if d:
            r.viol.append(('%s|%s|%s' % (what, d[0], fns(ip, d[1])), '%s %s: %s differ at %s%s' % (what, k, {'missing': 'one has a synchronisation the other lacks; they', 'condition': 'branch conditions guarding synchronisation'}.get(d[0], d[0]), where(d[1]),
                           ' (condition %s)' % sym.show(d[1][1], 4) if d[1][0] == 'br' and isinstance(d[1][1], sym.Ex) else '')))
def run(j):
    if j[0].startswith('backend '): return backend(j)
    n, lab, over, mpi = j
    c = registry.BY[n]; r = Res()
    if not c.mpi:
        ip = interpret(c, over, mpi)
        for k, run in enumerate(ip.team_runs): compare(r, ip, run, {'bar'}, 'threads')
        r.sample('%d team runs, %d threads' % (len(ip.team_runs), len(ip.team_runs[0])))
        return r
    per = {}
    for p in range(mpi[0]):
        ip = interpret(c, over, (mpi[0], p))
        for k, run in enumerate(ip.team_runs):
            compare(r, ip, run, {'bar'}, 'threads')
            for t, tree in run.items(): per.setdefault((k, t), {})[p] = tree
    for (k, t), trees in per.items():
        if t == 0: compare(r, ip, trees, {'coll'}, 'processes')
    r.sample('%d processes' % mpi[0])
    return r
