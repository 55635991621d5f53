"""C01 schedule independence: no two threads of a team touch a shared cell, one of them writing, without a barrier in between."""
from framework import *
import analysis
LEVEL = 'other'
RULE = ('Abstract interpretation of every registered instantiation for each thread of the team gives, per thread, the array regions '
        '(polyhedral boxes with symbolic bounds) and scalars read and written between consecutive barriers. For each pair of accesses of '
        'different threads in one barrier interval, at least one a write, the boxes must be provably disjoint, or the branches exclusive, or '
        'the overlap harmless (both threads store the same value; the reader has itself stored that value; the value read is overwritten '
        'before any use). Checked for all domain sizes the shape describes.')
def jobs(tier): return case_jobs(tier)
def floors(tier): return {'pairs': 100000, 'shared accesses': 20000}
def run(j):
    n, lab, over, mpi = j
    c = registry.BY[n]; r = Res()
    ip = interpret(c, over, mpi)
    if ip.thrown: raise interp.AnalysisError('driver ends in an exception: %s' % ip.thrown)
    races, npair, eps, ok = analysis.races(analysis.join_runs(ip))
    r.obl += npair; r.ok += npair - len(races)
    r.count('pairs', npair); r.count('shared accesses', sum(len(e.at) for e in eps.values())); r.count('barriers', len(eps[min(eps)].bars))
    for k, v in ok.items(): r.count('harmless overlap: ' + k, v)
    for s, a, b, bar in races:
        key = 'race|%s|%s|%s' % (generic(s), fname(ip, a.e.fn), fname(ip, b.e.fn))
        r.viol.append((key, 'thread %d writes %s%s at %s while thread %d %s %s%s at %s, no barrier after %s' % (
            a.r, s, a.box, a.e.loc, b.r, 'writes' if b.w else 'reads', s, b.box, b.e.loc, bar)))
    if ip.unknown_ext: r.notes.append('calls treated as opaque: %s' % sorted(ip.unknown_ext))
    r.sample('%d access pairs over %d barrier intervals' % (npair, len(eps[min(eps)].bars)))
    return r

