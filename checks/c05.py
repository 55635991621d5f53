"""C05 memory safety: every index is inside its array, every array statement combines equal extents, no null or empty object is used."""
from framework import *
import analysis
LEVEL = 'other'
RULE = ('Abstract interpretation of every registered instantiation, each thread, for all domain sizes the shape describes. Obligations: every index and range '
        'applied to an array provably lies inside its allocated bounds; every array statement combines operands of provably equal extents; message buffers are large enough for what '
        'is copied through them; no null pointer, never-allocated array, out-of-range container element or uninitialised variable is used; no construction of a '
        'supported configuration throws.')
def jobs(tier): return case_jobs(tier)
def floors(tier): return {'index obligations': 100000}
def run(j):
    n, lab, over, mpi = j
    c = registry.BY[n]; r = Res()
    ip = interpret(c, over, mpi)
    r.count('index obligations', ip.nbounds); r.count('array statements', ip.nshape)
    r.obl += ip.nbounds + ip.nshape; r.ok += ip.nbounds + ip.nshape
    for kind, loc, text, stk in ip.findings:
        if kind == 'imprecise': r.notes.append('%s: %s' % (loc, text)); continue
        r.obl += 1
        r.viol.append(('%s|%s' % (kind, fname(ip, stk)), '%s at %s' % (text, loc)))
    if ip.thrown: r.viol.append(('throw|driver', 'the run ends in an exception: %s' % ip.thrown))
    # message buffers
    for run in ip.team_runs:
        for t in run.values():
            for e in analysis.events(t):
                if e.k == 'wrap':
                    need = 8
                    for x in e.d['st'].len: need = need * x
                    ok = sym.le(need, e.d['raw'].len[0]) is True
                    r.count('buffer obligations')
                    r.add(ok, 'buffer|%s' % fname(ip, e.fn), 'array of %r bytes laid over a buffer of %r bytes at %s' % (need, e.d['raw'].len[0], e.loc))
                elif e.k in ('isend', 'irecv') and e.d.get('st') is not None:
                    ok = sym.le(e.d['n'] * 8, e.d['st'].len[0]) is True
                    r.count('buffer obligations')
                    r.add(ok, 'buffer|%s' % fname(ip, e.fn), 'message of %r numbers in a buffer of %r bytes at %s' % (e.d['n'], e.d['st'].len[0], e.loc))
    r.sample('%d index obligations, %d array statements' % (ip.nbounds, ip.nshape))
    return r
