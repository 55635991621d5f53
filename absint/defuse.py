"""Definedness of array cells: forward region dataflow over the trace tree of a single-threaded team.

Per storage the state is a set of boxes whose cells provably hold a defined value. A statement defines the part of its
destination whose operands are all defined (undefined operand cells are mapped through the access to the destination
cells they influence). Undefined values may be copied around - they must not reach anything observable: a reduction, a
cell read by scalar code, or the state the user sees."""
import sym, analysis
from interp import Ev, Br, Sc
from analysis import projbox, cover_minus, contains, empty, vec, meet, disjoint, image, leafbox

def whole(s): return tuple((l, l + n - 1) for l, n in zip(s.lb, s.len))
class Defs:
    def __init__(self): self.f = []; self.nread = 0; self.nsink = 0; self.frames = []; self.unk = 0; self.team = None
    @staticmethod
    def prec(box): return not any(x is None or isinstance(x, sym.Ex) for l in box for x in l)
    def set(self, st, s, good, bad):
        if not good and not bad: return st
        l = st.get(s, ())
        for b in bad:
            if l: l = tuple(x for k in l for x in cover_minus(k, [b]))
        for g in good:
            if empty(g) or any(contains(b, g) for b in l): continue
            l = tuple(b for b in l if not contains(g, b)) + (g,)
        st = dict(st); st[s] = l
        return st
    def undefined(self, st, s, box):
        self.nread += 1
        if not self.prec(box): self.unk += 1; return []
        return cover_minus(box, st.get(s, ()))
    def sink(self, st, e, s, box, what):
        box = projbox(box)
        if empty(box): return
        self.nsink += 1
        r = self.undefined(st, s, box)
        if r: self.f.append((e, s, box, r, what))
    def write(self, st, e):
        box, t = vec(e)
        d = e.d; s = d['st']
        if not self.prec(box) : self.unk += 1; return st
        if empty(box): return st
        bad = []
        if isinstance(t, sym.Ex):
            for x in sym.leaves(t):
                if x.op != 'rd': continue
                lb = leafbox(x, box)
                if empty(lb): continue
                for u in self.undefined(st, x.a[0], lb):
                    m = image(x, u, box)
                    if m is None: bad.append(box); continue
                    m = meet(m, box)
                    bad.append(box if m is None else m)
        if d['op'] != '=': bad += self.undefined(st, s, box)
        bad = [b for b in bad if not empty(b)]
        return self.set(st, s, cover_minus(box, bad), bad)
    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        if a is b: return a
        out = {}
        for s in a:
            x, y = a[s], b.get(s, ())
            if x is y or x == y: out[s] = x; continue
            r = [k for k in x if not cover_minus(k, y)]
            r += [k for k in y if k not in r and not cover_minus(k, x)]
            if r: out[s] = tuple(r)
        return out
    def walk(self, tree, st):
        for x in tree:
            if isinstance(x, Ev):
                if st is None: continue
                k = x.k
                if k in ('w', 'ew'): st = self.write(st, x)
                elif k == 'red':
                    for l in sym.leaves(x.d['t']):
                        if l.op == 'rd': self.sink(st, x, l.a[0], leafbox(l, x.d['box']), 'reduction')
                elif k == 'obs': self.sink(st, x, x.d['st'], x.d['box'], 'state handed to the user')
                elif k == 'irecv' and x.d.get('st') is not None:
                    s = x.d['st']; st = self.set(st, s, [whole(s)], [])
                elif k == 'wrap':
                    # a handle to a raw buffer: its cells are defined once a message has been received there
                    if st.get(x.d['raw']): st = self.set(st, x.d['st'], [whole(x.d['st'])], [])
            elif isinstance(x, Br):
                outs = None
                for i in (0, 1):
                    o = self.walk(x.arms[i], st)
                    k = x.outs[i]
                    if k is None: outs = self.join(outs, o)
                    elif k in ('break', 'cont', 'ret') and o is not None:
                        kind = {'break': 'loop', 'cont': 'iter', 'ret': 'fn'}[k]
                        for fr in reversed(self.frames):
                            if fr[0] == kind or (kind == 'loop' and fr[0] == 'sym'): fr[1].append(o); break
                st = outs
            elif x.kind == 'team': st = self.team(x.info, st)
            else:
                self.frames.append((x.kind, []))
                st = self.walk(x.body, st)
                _, p = self.frames.pop()
                for o in p: st = self.join(st, o)
        return st

def undefined_reads(ip):
    """(analysis, list of (event, storage, box read, undefined part, kind of use)) for a single-threaded team"""
    d = Defs()
    d.team = lambda i, st: d.walk(ip.team_runs[i][0], st)
    d.walk(ip.root, {})
    return d
