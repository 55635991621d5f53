"""C04 message protocol of distributed-memory runs."""
from framework import *
import analysis, sym
from interp import Ev, Br, Sc
LEVEL = 'other'
RULE = ('Every thread of every process is interpreted; the resulting traces of sends, receives, waits, collectives and barriers are composed (all processes follow the same branch decisions, see C02). '
        'Typestate obligations per message stream (source, destination, tag): the k-th send meets the k-th receive, with the same number of elements; streams are fed by one thread at a time; '
        'with every wait completing only when its peer operation has been posted (no buffering assumed) all threads run to completion; a send buffer is not written and a receive buffer not touched between the start '
        'of the transfer and its completion; what is unpacked at the receiver is the same section of the same array, up to whole periods along the decomposed dimension, as was packed at the sender.')
ASSUME = ['messages between one pair of processes with one tag do not overtake each other (MPI guarantee)']
BIG = {'p3_gc_mpi', 'b3_sma_mpi', 'g3_dns_mpi', 'g3_smo_mpi'}
def jobs(tier):
    js = []
    for c in registry.C:
        if not c.mpi: continue
        js.append((c.name, 'P2T2', tier, (2, 2)))
        if tier == 'thorough' or c.nd == 1 or c.name in ('a2_def_mpi', 'r2_tr_mpi', 'a3_def_mpi'): js.append((c.name, 'P3T1' if tier == 'quick' else 'P3T2', tier, (3, 1 if tier == 'quick' else 2)))
        if tier == 'thorough': js.append((c.name, 'P4T1', tier, (4, 1)))
    js.sort(key=lambda j: -COST.get(registry.BY[j[0]].fam, 1) * registry.BY[j[0]].nd ** 2)
    return js
def floors(tier): return {'messages': 3000, 'deadlock simulations': 16}

KEEP = {'isend', 'irecv', 'wait', 'bar', 'coll', 'wrap'}
def relevant(tree, memo):
    r = memo.get(id(tree))
    if r is None:
        r = False
        for x in tree:
            if isinstance(x, Ev): r = r or x.k in KEEP
            elif isinstance(x, Br): r = r or any(relevant(a, memo) for a in x.arms) or any(o for o in x.outs)
            else: r = r or x.kind == 'team' or relevant(x.body, memo)
        memo[id(tree)] = r
    return r
def linear(tree, seed):
    """events of one path: branches that matter for synchronisation are decided by their condition and position, identically in every thread"""
    memo = {}; dec = {}; out = []
    def go(t):
        for x in t:
            if isinstance(x, Ev): out.append(x); continue
            if isinstance(x, Br):
                if not (any(relevant(a, memo) for a in x.arms) or any(o for o in x.outs)): a = 0
                else:
                    a = dec.get(x.cond)
                    if a is None: a = dec[x.cond] = seed if seed < 2 else (hash(str(x.loc)) >> seed) & 1
                e = go(x.arms[a]) or x.outs[a]
                if e: return e
                continue
            k = x.kind
            if k == 'team': out.append(('team', x.info)); continue
            e = go(x.body)
            if e:
                if (e == 'ret' and k == 'fn') or (e == 'cont' and k in ('iter', 'loop', 'sym')) or (e == 'break' and k in ('loop', 'sym')): continue
                return e
        return None
    go(tree)
    return out
def run(j):
    n, lab, tier, (NP, T) = j
    c = registry.BY[n]; r = Res()
    interp.UNROLL = 1 if c.fam in ('prs', 'sgs', 'bq') else 2
    q = runner.fresh(20)
    ips = [runner.run(c, runner.shape(q, T=T, nt=1 if c.fam in ('prs', 'sgs', 'bq') else 2), (NP, p)) for p in range(NP)]
    for seed in (0, 1) if tier == 'quick' else (0, 1, 3, 5, 7):
        # driver trace of each process: team scopes interleave with driver code; only the team scopes communicate
        procs = []
        for p, ip in enumerate(ips):
            ths = [[] for _ in range(T)]
            for x in linear(ip.root, seed):
                if isinstance(x, tuple):
                    run_ = ip.team_runs[x[1]]
                    for t in sorted(run_): ths[t] += linear(run_[t], seed) + [('join',)]
                else: ths[0].append(x)
            procs.append(ths)
        simulate(r, ips, procs, NP, T, seed)
    return r
def simulate(r, ips, procs, NP, T, seed):
    IDX.clear()
    pos = [[0] * T for _ in range(NP)]
    sends = {}; recvs = {}; colls = [0] * NP; who = {}
    reqs = {}                               # id(event) -> (kind, channel, index)
    tags = set()
    def post(p, t, e):
        peer, tag = e.d['peer'], e.d['tag']
        ch = (p, peer, tag) if e.k == 'isend' else (peer, p, tag)
        fn = fname(ips[p], e.fn)
        if not isinstance(peer, int) or not 0 <= peer < NP: r.add(False, 'protocol|peer|%s' % fn, 'process %d: %s with peer %r of %d processes at %s' % (p, e.k, peer, NP, e.loc)); return
        d = sends if e.k == 'isend' else recvs
        l = d.setdefault(ch, []); l.append((p, t, e)); reqs[id(e)] = (e.k, ch, len(l) - 1)
        r.count('messages')
        iv = who.setdefault((e.k, ch), {})
        iv.setdefault(epoch[p], set()).add(t)
        r.add(len(iv[epoch[p]]) == 1, 'protocol|two threads on one stream|%s' % fn, 'process %d: threads %s use %s %s between the same barriers (%s)' % (p, sorted(iv[epoch[p]]), e.k, ch, e.loc))
    epoch = [0] * NP
    posted = set(); progress = True
    while progress:
        progress = False
        for p in range(NP):
            for t in range(T):
                l = procs[p][t]
                while pos[p][t] < len(l):
                    e = l[pos[p][t]]
                    if isinstance(e, tuple) or e.k == 'bar':
                        break
                    if e.k in ('isend', 'irecv'):
                        post(p, t, e)
                    elif e.k == 'wait':
                        ok = True
                        for q in e.d['reqs']:
                            if q is None or id(q) not in reqs: continue
                            k, ch, i = reqs[id(q)]
                            if len((recvs if k == 'isend' else sends).get(ch, ())) <= i: ok = False
                        if not ok: break
                    elif e.k == 'coll':
                        if (p, t, pos[p][t]) not in posted: posted.add((p, t, pos[p][t])); colls[p] += 1
                        if min(colls) < colls[p]: break
                    pos[p][t] += 1; progress = True
            # a barrier or join is passed once every thread of the process stands at one
            if all(pos[p][t] < len(procs[p][t]) for t in range(T)):
                es = [procs[p][t][pos[p][t]] for t in range(T)]
                if all(isinstance(e, tuple) or e.k == 'bar' for e in es):
                    for t in range(T): pos[p][t] += 1
                    epoch[p] += 1; progress = True
    stuck = [(p, t) for p in range(NP) for t in range(T) if pos[p][t] < len(procs[p][t])]
    r.count('deadlock simulations')
    w = [(p, t, procs[p][t][pos[p][t]]) for p, t in stuck]
    w = [(p, t, e) for p, t, e in w if not isinstance(e, tuple)]
    key = next((fname(ips[p], e.fn) for p, t, e in w if e.k == 'wait'), fname(ips[w[0][0]], w[0][2].fn) if w else '')
    r.add(not stuck, 'protocol|deadlock|%s' % key, 'no thread can proceed: %s' % [('process %d thread %d' % (p, t), e.k, e.loc) for p, t, e in w][:4])
    for ch in sorted(set(sends) | set(recvs), key=str):
        a, b = sends.get(ch, []), recvs.get(ch, [])
        if len(a) != len(b) and not stuck:
            x = (a if len(a) > len(b) else b)[min(len(a), len(b))]
            r.add(False, 'protocol|unmatched|%s' % fname(ips[x[0]], x[2].fn), 'stream %s: %d sends, %d receives; first unmatched at %s' % (ch, len(a), len(b), x[2].loc))
        for (p, t, x), (p2, t2, y) in zip(a, b):
            fx, fy = fname(ips[p], x.fn), fname(ips[p2], y.fn)
            if not r.add(x.d['n'] == y.d['n'], 'protocol|size|%s' % up(ips[p2], y.fn), 'stream %s: %s elements sent (%s via %s), %s expected (%s)' % (ch, x.d['n'], x.loc, up(ips[p], x.fn), y.d['n'], y.loc)): break
            s, d = packed(procs[p][t], x), unpacked(procs[p2][t2], y)
            if s is None and d is None: continue                     # not an array transfer
            if s is None or d is None: r.add(False, 'protocol|content|%s' % up(ips[p2], y.fn), 'stream %s: %s (%s)' % (ch, 'nothing packed' if s is None else 'nothing unpacked', (x if s is None else y).loc)); continue
            good, why = same_section(s, d, T)
            r.count('sections compared'); r.add(good, 'protocol|content|%s' % up(ips[p2], y.fn), 'stream %s: %s; sent from %s, received in %s' % (ch, why, up(ips[p], x.fn), up(ips[p2], y.fn)))
    for p in range(NP):
        for t in range(T): buffers(r, ips[p], procs[p][t])
    r.sample('%d streams, %d messages' % (len(sends), sum(len(v) for v in sends.values())))
def up(ip, stk):
    """outermost function of the boundary-condition layer on the stack"""
    for i in stk:
        f = ip.P.F.get(i)
        if f and 'bcond' in f['sq']: return f['sq'].replace('libmpdataxx::', '')
    return fname(ip, stk)
def idx(evs):
    r = IDX.get(id(evs))
    if r is None: r = IDX[id(evs)] = {id(e): i for i, e in enumerate(evs) if not isinstance(e, tuple)}
    return r
IDX = {}
def packed(evs, send):
    """(array, map, box) copied into the buffer before the send"""
    raw = send.d['st']; i = idx(evs)[id(send)]; wr = None
    for e in reversed(evs[max(0, i - 60):i]):
        if isinstance(e, tuple): continue
        if wr is None and e.k == 'w':
            wr = e; continue
        if e.k == 'wrap' and e.d['raw'] is raw:
            if wr is None or wr.d['st'] is not e.d['st']: return None
            return section(wr, True)
    return None
def unpacked(evs, recv):
    raw = recv.d['st']; i = idx(evs)[id(recv)]; st = None
    for e in evs[i + 1:i + 60]:
        if isinstance(e, tuple): continue
        if e.k == 'wrap' and e.d['raw'] is raw: st = e.d['st']
        elif e.k == 'w' and st is not None and any(x.op == 'rd' and x.a[0] is st for x in leaves(e)): return section(e, False)
        elif e.k == 'irecv' and e.d['st'] is raw: return None
    return None
def leaves(e): return [x for x in sym.leaves(e.d['t']) if isinstance(x, interp.Ex)] if isinstance(e.d['t'], interp.Ex) else []
def section(e, src):
    """the section of the big array a copy statement addresses: source (packing) or destination (unpacking)"""
    ls = [x for x in leaves(e) if x.op == 'rd']
    if len(ls) != 1 or e.d['t'] is not ls[0] or e.d['op'] != '=': return None
    box = e.d['box']
    if not src: return e.d['st'], tuple(box), ls[0]
    out = []
    for m in ls[0].a[1]:
        if m[0] == 'c': out.append((m[1], m[1]))
        elif m[0] == 'x' and m[2] > 0: out.append((box[m[1]][0] + m[3], box[m[1]][1] + m[3]))
        else: return None
    return ls[0].a[0], tuple(out), ls[0]
import re
def same_section(s, d, T):
    a, b = re.sub(r'#\d+', '', str(s[0])), re.sub(r'#\d+', '', str(d[0]))
    if a != b: return False, 'array %s packed, %s unpacked' % (a, b)
    sh = None
    for k, ((l1, h1), (l2, h2)) in enumerate(zip(s[1], d[1])):
        dl, dh = l1 - l2, h1 - h2
        if dl != dh: return False, 'extent of dimension %d differs: %s..%s packed, %s..%s unpacked' % (k, l1, h1, l2, h2)
        if k == 0:
            P = sym.Poly({('q0',): 12})
            if dl not in (0, P, -P): return False, 'dimension 0 displaced by %s' % (dl,)
        elif dl != 0: return False, 'dimension %d displaced by %s' % (k, dl)
    return True, ''
def buffers(r, ip, evs):
    """no use of a transfer buffer between start and completion"""
    live = {}; alias = {}
    for e in evs:
        if isinstance(e, tuple): continue
        if e.k == 'wrap': alias[e.d['st']] = e.d['raw']
        elif e.k in ('isend', 'irecv'):
            st = e.d['st']
            if st is not None:
                r.add(st not in live, 'protocol|buffer in use|%s' % fname(ip, e.fn), 'second transfer from the same buffer before the first completed at %s' % e.loc)
                live[st] = e
        elif e.k == 'wait':
            for q in e.d['reqs']:
                if q is not None and q.d['st'] in live and live[q.d['st']] is q: del live[q.d['st']]
        elif live and e.k in ('w', 'ew'):
            for s, wr in [(e.d['st'], True)] + [(x.a[0], False) for x in (leaves(e) if e.k == 'w' else [])if x.op == 'rd']:
                raw = alias.get(s)
                if raw in live:
                    k = live[raw].k
                    r.add(not wr if k == 'isend' else False, 'protocol|buffer race|%s' % fname(ip, e.fn), '%s buffer %s at %s before the transfer has completed' % ('send' if k == 'isend' else 'receive', 'written' if wr else 'read', e.loc))
    r.count('buffer uses checked', len(live) + 1)
    for st, e in live.items(): r.add(False, 'protocol|never completed|%s' % fname(ip, e.fn), 'transfer started at %s is never waited for' % e.loc)
