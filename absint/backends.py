"""Analysis of the library's shared-memory backends: how many threads, solvers, barrier participants and scratch cells a run has, and
whether the hand-written barrier holds every thread back until the last one has arrived."""
import cases, sym, lib
from interp import *
from lib import EXT, NATIVE_CTOR, V

class Stop(Exception): pass
def program(b, nd):
    fl = ['-DX_ND=%d' % nd, '-DX_BACKEND=%s' % b, '-DX_BACKEND_HDR=<libmpdata++/concurr/%s.hpp>' % b, '-DX_BCS=%s' % ','.join(['bcond::cyclic'] * 2 * nd)]
    if b == 'openmp': fl += ['-fopenmp']
    return Program(cases.extract(fl, src='backend.cpp', name='%s %dd' % (b, nd)))

def install(ip, T):
    """models of the threading primitives: thread creation is recorded, not followed"""
    ip.spawned = []; ip.waits = []; ip.omp = {'max': T, 'rank': 0}; ip.team = None
    def hw(ip, f, t, a, e): return T
    for n in ('std::thread::hardware_concurrency', 'boost::thread::hardware_concurrency'): EXT[n] = hw
    EXT['getenv'] = EXT['std::getenv'] = lambda ip, f, t, a, e: None
    EXT['omp_get_max_threads'] = lambda ip, f, t, a, e: ip.omp['max']
    EXT['omp_get_num_threads'] = lambda ip, f, t, a, e: ip.omp['max']
    EXT['omp_get_thread_num'] = lambda ip, f, t, a, e: ip.omp['rank']
    def setn(ip, f, t, a, e):
        ip.omp['max'] = V(ip, a[0])
    EXT['omp_set_num_threads'] = setn
    def obj(ip, f, t, a, e): ip.team = a[0]
    EXT['mpx_object'] = obj
    EXT['boost::ref'] = EXT['std::ref'] = lambda ip, f, t, a, e: Ptr(a[0]) if isinstance(a[0], Cell) else a[0]
    def thread(ip, R, a, f):
        for x in a:
            v = V(ip, x)
            if isinstance(v, Ptr) and isinstance(v.c.v, Obj): ip.spawned.append(v.c)
        return Opaque('thread')
    NATIVE_CTOR['std::thread'] = NATIVE_CTOR['boost::thread'] = thread
    def barrier(ip, R, a, f):
        ip.barriers.append(V(ip, a[0])); return Opaque('boost::barrier')
    ip.barriers = []
    NATIVE_CTOR['boost::barrier'] = barrier
    def omp(self, s):
        if 'Parallel' in s['d']:
            for c in s.get('cl', ()):
                if c['k'] == 'num_threads' and 'e' in c: self.omp['max'] = self.val(c['e'])
            n = self.omp['max']
            for r in range(n):
                self.omp['rank'] = r; self.ex(s['b'])
            self.omp['rank'] = 0
        elif 'Barrier' in s['d']: self.waits.append('omp')
        else: raise AnalysisError('OpenMP directive %s' % s['d'])
        return None
    Interp.SDISP['omp'] = omp; Interp.s_omp = omp
    for f in ip.P.F.values():
        # the solver's entry point: record which solver a thread runs
        if f['n'] == 'solve' and 'solver_common' in f['sq']:
            def rec(ip, f, this, args):
                ip.spawned.append(this); return None
            ip.hooks[f['sq']] = rec
    ip.hooks.pop('mpx::team::solve', None)

def parts(P, o):
    """(shared-memory object, list of solver cells) of a backend object"""
    mem = algos = None
    for fl in P.fields(o.r):
        v = o.f[fl['id']].v if fl['id'] in o.f else None
        if isinstance(v, Ptr) and isinstance(v.c.v, Obj) and (fl['n'] == 'mem' or mem is None): mem = v.c.v
        if isinstance(v, VecV) and v.it and all(isinstance(c.v, Obj) for c in v.it) and (fl['n'] == 'algos' or algos is None): algos = v
    return mem, algos

def analyse(b, nd, ext, T):
    """obligations of one backend for given extents and available threads"""
    P = program(b, nd)
    sym.reset()
    ip = Interp(P, dict(zip(('nx', 'ny', 'nz'), ext), nt=1), (1, 0))
    install(ip, T)
    f = next(f for f in P.F.values() if f['q'] == 'drive')
    thrown = None
    try: ip.call(f, None, [])
    except Thrown as t: thrown = t.what
    return ip, thrown

class Block(Exception): pass
def barrier_class(P, mem):
    """the backend's own barrier object, if it has one"""
    for fl in P.fields(mem.r):
        v = mem.f[fl['id']].v if fl['id'] in mem.f else None
        if isinstance(v, Obj) and P.R[v.r].get('repo'):
            if any(g['n'] == 'wait' for g in methods(P, v.r)): return mem.f[fl['id']]
def methods(P, r): return [g for g in P.F.values() if g.get('rec') == r or g.get('r') == r]

def call_barrier(ip, memc):
    """mem->barrier(), virtually dispatched"""
    P = ip.P
    for r in P.mro(memc.v.r):
        g = next((f for f in P.F.values() if f['n'] == 'barrier' and not f.get('ctor') and f.get('r') == r and not f['p']), None)
        if g: return ip.call(g, memc, [])
    raise AnalysisError('no barrier() in the shared-memory class')

class Blocked(Thrown): pass
def exercise_barrier(ip, n):
    """drive the backend's barrier with n threads in the orders that matter; returns a list of (good, text)"""
    out = []
    memc = None
    for fl in ip.P.fields(ip.team.v.r):
        v = ip.team.v.f[fl['id']].v if fl['id'] in ip.team.v.f else None
        if isinstance(v, Ptr) and isinstance(v.c.v, Obj) and (fl['n'] == 'mem' or memc is None): memc = v.c
    bc = barrier_class(ip.P, memc.v)
    st = {'prim': 0, 'notify': 0, 'hook': None}
    EXT['boost::barrier::wait'] = lambda i, f, t, a, e: st.__setitem__('prim', st['prim'] + 1) or 0
    def cwait(i, f, t, a, e):
        if len(a) < 2: return st['hook']()
        p = a[1].v if isinstance(a[1], Cell) else a[1]
        while True:                                     # wait(lock, pred) is while (!pred()) wait(lock)
            x = i.invoke(p, [])
            x = x.v if isinstance(x, Cell) else x
            if not isinstance(x, (bool, int)): raise AnalysisError('condition wait with an undecided predicate')
            if x: return None
            st['hook']()
    EXT['std::condition_variable::wait'] = cwait
    EXT['std::condition_variable::notify_all'] = lambda i, f, t, a, e: st.__setitem__('notify', st['notify'] + 1)
    EXT['std::condition_variable::notify_one'] = lambda i, f, t, a, e: None
    def lock(i, R, a, f):
        i.emit('lock', i.loc); return Opaque('lock')
    for k in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'): NATIVE_CTOR[k] = lock
    ip.waits.clear()
    def arrive():
        d = len(ip.frames), len(ip.loops), ip.cur, ip.path, len(ip.cnt)
        try: call_barrier(ip, memc); return 'through'
        except Blocked:
            del ip.frames[d[0]:]; del ip.loops[d[1]:]; del ip.cnt[d[4]:]; ip.cur, ip.path = d[2], d[3]
            return 'held'
    if bc is None:
        r = arrive()
        used = st['prim'] + len(ip.waits)
        out.append((n == 1 or used == 1, 'one arrival at the barrier enters the blocking primitive %d time(s)' % used))
        return out
    # accesses to the barrier's members happen under its lock
    for fd, c in bc.v.f.items(): c.tag = 'barrier.%s' % fd
    def hold(after=None):
        """condition wait: wakes spuriously once, then runs `after` (the other threads) or blocks for good"""
        k = {'n': 0}
        def h():
            k['n'] += 1
            if k['n'] == 1: return None
            if k['n'] == 2 and after is not None:
                s = st['hook']; after(); st['hook'] = s; return None
            raise Blocked('held')
        return h
    # 1. n-1 arrivals are all held, the n-th goes through and wakes everybody; twice, as the barrier is reused
    def chain(k):
        """arrival of thread k of n; returns when it leaves the barrier"""
        if k < n: st['hook'] = hold(lambda: res.append((k + 1, chain(k + 1))))
        else: st['hook'] = hold()
        return arrive()
    for rep in (1, 2):
        res = []; st['notify'] = 0
        ev0 = len(ip.cur)
        r = chain(1); res.append((1, r))
        out.append((all(x == 'through' for _, x in res) and len(res) == n, 'use %d with %d threads: %s' % (rep, n, res)))
        out.append((n == 1 or st['notify'] >= 1, 'use %d: the last thread to arrive wakes all waiting threads' % rep))
    # 2. with fewer than n arrivals nobody leaves
    if n > 1:
        for k in range(1, n):
            st['hook'] = hold(); r = arrive(); out.append((r == 'held', 'arrival %d of %d is held back: %s' % (k, n, r)))
        st['hook'] = hold(); r = arrive(); out.append((r == 'through', 'arrival %d of %d passes: %s' % (n, n, r)))
    # 3. a fast thread coming back to the barrier does not capture a slow one still inside it
    if n == 2:
        seen = []
        def others():
            st['hook'] = hold(); seen.append(arrive())       # second thread completes the barrier
            st['hook'] = hold(); seen.append(arrive())       # and returns to it at once
        st['hook'] = hold(others); r = arrive()
        out.append((seen == ['through', 'held'] and r == 'through', 'a thread woken late leaves although the barrier is in use again: %s %s' % (seen, r)))
        st['hook'] = hold(); out.append((arrive() == 'through', 'and completes the second use'))
    # lock before member access
    ip.in_team = True; ip.rank = 0
    root, save = [], ip.cur
    ip.cur = root
    try:
        st['hook'] = hold(); arrive()
    finally: ip.cur = save; ip.in_team = False
    locked = False; bad = 0; seenm = 0
    import analysis
    for e in analysis.events(root):
        if e.k == 'lock': locked = True
        elif e.k in ('sr', 'sw'):
            seenm += 1; bad += not locked
    out.append((bad == 0 and seenm > 0, '%d accesses to the barrier state, %d before its lock is taken' % (seenm, bad)))
    return out
