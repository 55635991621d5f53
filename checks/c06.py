"""C06 definedness: no array cell reaches a result before it has been given a value."""
from framework import *
import defuse
LEVEL = 'other'
RULE = ('Forward region dataflow over the interpreted trace of every registered instantiation (single-threaded team; scheduling is C01 and C03): '
        'per array the set of boxes whose cells provably hold a defined value; a statement passes undefinedness of the operand cells to the destination '
        'cells they influence; received messages, user input and constructor fills define cells. Obligation: every cell read by a reduction, and every '
        'cell of the state handed back to the user, is defined.')
def shapes(c, tier):
    if c.mpi: return [('T1r0of2', dict(T=1), (2, 0))] + ([('T1r1of2', dict(T=1), (2, 1)), ('T1r1of3', dict(T=1), (3, 1))] if tier == 'thorough' else [])
    return [('T1', dict(T=1), (1, 0))] + ([('tiny', dict(T=1, nx=3, **({'ny': 3} if c.nd > 1 else {}), **({'nz': 3} if c.nd > 2 else {})), (1, 0))] if tier == 'thorough' and 'polar' not in c.tags else [])
def jobs(tier): return case_jobs(tier, shapes=shapes)
def floors(tier): return {'operand reads': 30000, 'obligations': 2000}
def run(j):
    n, lab, over, mpi = j
    c = registry.BY[n]; r = Res()
    ip = interpret(c, over, mpi)
    d = defuse.undefined_reads(ip)
    r.obl = d.nsink; r.ok = d.nsink - len(d.f)
    r.count('operand reads', d.nread); r.count('regions without exact bounds', d.unk)
    for e, s, box, und, what in d.f:
        r.viol.append(('undef|%s|%s|%s' % (what, generic(s), fname(ip, e.fn)), '%s reads %s%s at %s, undefined in %s' % (what, s, box, e.loc, und[:2])))
    r.sample('%d operand regions, %d results reached' % (d.nread, d.nsink))
    return r
