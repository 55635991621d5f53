"""Runs the abstract interpreter over one instantiation with a given domain shape."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cases, sym, interp
from interp import Program, Interp, Thrown

class Run:
    """result of interpreting one instantiation"""
    pass
_prog = {}
def program(c):
    k = tuple(c.flags); p = _prog.get(k)
    if p is None: p = _prog[k] = Program(cases.extract(c.flags, name=c.name))
    return p
def oracle(bits):
    """follow one path: the decisions that depend on the output interval are taken as given, equal decisions alike"""
    memo = {}
    def f(c):
        k = repr(c)
        if 'outfreq' not in k: return None
        if id(c) not in memo: memo[id(c)] = (len(memo) < len(bits) and bits[len(memo)] == '1', c)
        return memo[id(c)][0]
    return f
def fresh(lo=2):
    """new symbol context; returns the three grid-size symbols"""
    sym.reset()
    return [sym.ST.base('q%d' % i, lo) for i in range(3)]
def shape(q, T=2, mult=12, **over):
    d = {'nx': q[0] * mult + 1, 'ny': q[1] * mult + 1, 'nz': q[2] * mult + 1, 'T': T, 'nt': 2, 'n_iters': 2}
    d.update(over)
    return d
def run(c, inputs, mpi=(1, 0)):
    """interpret instantiation c; the symbol context must have been prepared by fresh()"""
    P = program(c)
    ip = Interp(P, dict(inputs, n_iters=inputs.get('n_iters_', c.n_iters)), mpi)
    f = next(f for f in P.F.values() if f['q'] == 'drive')
    ip.thrown = None
    d = getattr(c, 'decide', None)
    interp.ORACLE = None if d is None else oracle(d) if isinstance(d, str) else d
    try: ip.call(f, None, [])
    except Thrown as t: ip.thrown = t.what
    return ip
