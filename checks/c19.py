"""C19 HDF5 files: what the library's HDF5 writer puts where."""
from framework import *
import gvn, sym, meta, cases, itertools
from fractions import Fraction
from gvn import const
import c17
LEVEL = 'other'
RULE = ('The library\'s HDF5 writer is interpreted on a stand-in for the HDF5 interface that keeps what decides which bytes go where: the extents, starts and counts of the selections in memory and in the file, and the buffer. '
        'For every write the buffer must be a whole array in C order of the extents of the memory selection, the selections must have equal counts and lie inside their dataspaces, and the cell that goes to a file position must have the value number of the '
        'state of the model (the metric factor, the coordinate) at that position, for symbolic grid sizes, serially and for every one of 3 processes, whose selections must tile the file. '
        'The time coordinate is evaluated for every (nt, outfreq, outstart, outwindow) of a complete small range: as many entries as records, each the time of its record, file names being the step numbers.')
ASSUME = ['HDF5 itself behaves as documented: a write copies the elements selected in the (row-major) buffer to those selected in the file, in order',
          'value numbers are compared by random interpretation in a prime field (collision probability below 2^-50)']
NP = 3
def jobs(tier):
    js = [(n, 'data', tier) for n in ('h1', 'h2', 'h3', 'h2x', 'h3x', 'h1_mpi', 'h2_mpi', 'h3_mpi', 'h2x_mpi', 'h3x_mpi')]
    R = 6 if tier == 'quick' else 9
    js += [('h1', 'time:%d' % nt, tier) for nt in range(1, R)]
    js.sort(key=lambda j: -meta.weight(registry.BY[j[0]]))
    return js
def floors(tier): return {'writes': 20, 'cells compared': 100, 'time coordinates': 60}
def run(j): return gvn.deep(_run, j)
def _run(j):
    n, lab, tier = j
    interp.Interp.strs = True
    try: return data(n, tier) if lab == 'data' else time(n, int(lab.split(':')[1]), tier)
    finally: interp.Interp.strs = False
class Val(c17.Val):
    """numbers for the scalar inputs, at one index of an array"""
    def at(self, pt): self.pt = pt; self.memo = {}; return self
    def __call__(self, e):
        if isinstance(e, sym.Poly): e = sym.mk('i', e)
        return super().__call__(e)
    def ev(self, e):
        o, a = e.op, e.a
        if o == 'ix': return Fraction(self.pt[a[1]]) * a[2] + a[3]
        if o == 'i':
            r = Fraction(0)
            for k, c in sym.pm(a[0]).items():
                t = Fraction(c)
                for s in k: t *= self.num(('sym', s))
                r += t
            return r
        return super().ev(e)
def valat(node, pt, val):
    """the element of an array at a fixed index, by the last write that covers it"""
    n = node
    while n is not None and n.k == 'w':
        if all(gvn.le(b[0], i) and gvn.le(i, b[1]) for b, i in zip(n.box, pt)):
            if n.op != '=': raise gvn.Undecided('coordinate written with %s' % n.op)
            return val.at(pt)(n.t)
        n = n.prev
    raise gvn.Undecided('element %s is never written' % (pt,))
def events(p):
    """the writes with their data nodes, the files and attributes in order"""
    ob = iter([o for o in p.obs if o[2] == 1000]); out = []; f = None
    for nm, v, env in p.marks:
        if nm == 'h5file': f = v[0]; out.append(('file', f, v))
        elif nm == 'h5attr': out.append(('attr', f, v))
        elif nm == 'h5write': out.append(('write', f, v, next(ob, None) if 'st' in v[1] else None))
    return out
def eq(a, b): return sym.eq(a, b) is True
def data(n, tier):
    c = registry.BY[n]; r = Res(); q = runner.fresh(20); gvn.GVN.split = ('q0', 'q1') if c.nd == 3 and c.mpi else ('q0',)
    nt = 1; np_ = NP if c.mpi else 1
    sh = runner.shape(q, T=1, nt=nt, outfreq=1, outstart=0, outwindow=1)
    ips = [runner.run(c, sh, (np_, p)) for p in range(np_)]
    for ip in ips:
        if ip.thrown: raise interp.AnalysisError('run throws %s' % ip.thrown)
    g = gvn.GVN(); g.leaf = lambda nm, k, pt: meta.base(g, nm, k, pt) if len(pt) == c.nd else None
    ps = [g.add(ip, p, np_) for p, ip in enumerate(ips)]
    N = [sh[k] for k in ('nx', 'ny', 'nz')][:c.nd]
    evs = [events(p) for p in ps]
    val = Val(7, {})
    nfile = set(len([e for e in ev if e[0] == 'file' and e[2][1] == 2]) for ev in evs); aux = bool(c.kw.get('AUX'))
    if c.mpi:
        for e in evs[0]:
            if e[0] == 'file': r.add(e[2][2] == 1, 'files|collective', 'the file %s is opened by every process on its own' % e[1])
    r.add(nfile == {nt + 2}, 'files|count', '%s files are opened for %d steps' % (sorted(nfile), nt))
    # the writes of all processes, dataset by dataset
    ws = [[e for e in ev if e[0] == 'write'] for ev in evs]
    r.add(len(set(len(w) for w in ws)) == 1, 'writes|collective', 'the processes make %s writes' % [len(w) for w in ws])
    out = {}
    for k in range(min(map(len, ws))):
        W = [w[k] for w in ws]
        f, ds = W[0][1], W[0][2][0]
        r.add(all(w[1] == f and w[2][0] == ds for w in W), 'writes|collective', 'the processes write %s at the same time' % sorted(set('%s:%s' % (w[1], w[2][0]) for w in W)))
        r.count('writes'); tag = ds if ds in ('X', 'Y', 'Z', 'T', 'G', 'aux', 'aux_c', 'srf', 'hal') else 'variable'
        end = 0
        for p, w in enumerate(W):
            _, _, (nm, info, mdim, mst, mct, fdim, fst, fct), o = w
            if o is None: raise interp.AnalysisError('write of %s: data unknown (%s)' % (ds, info.get('raw')))
            nd = len(fdim); who = '%s%s' % (ds, ', process %d' % p if c.mpi else '')
            r.add(info['whole'], 'layout|%s' % tag, 'the buffer written for %s is not a whole array' % who)
            r.add(info['order'] is None, 'layout|%s' % tag, 'the buffer written for %s is not in C order' % who)
            r.add(len(info['shape']) == len(mdim) and all(eq(a, b) for a, b in zip(info['shape'], mdim)), 'layout|%s' % tag, 'the buffer written for %s has extents %s, the dataspace in memory %s' % (who, info['shape'], mdim))
            r.add(len(mct) == nd and all(eq(a, b) for a, b in zip(mct, fct)), 'selection|%s' % tag, 'the selection in memory of %s has %s elements, that in the file %s' % (who, mct, fct))
            r.add(all(gvn.le(0, a) and gvn.le(a + n_, m_) for a, n_, m_ in zip(mst, mct, mdim)), 'selection|%s' % tag, 'the selection in memory of %s, %s from %s, is outside the buffer %s' % (who, mct, mst, mdim))
            if ds != 'hal': r.add(all(eq(a, 0) for a in mst) and all(eq(a, b) for a, b in zip(mct, mdim)), 'selection|%s' % tag, 'only part of the buffer of %s is selected' % who)
            want = {'T': None, 'X': 1, 'Y': 1, 'Z': 1}.get(ds, 0)
            halo = 0
            if ds == 'hal':
                halo = fdim[0] - N[0]; halo = halo // 2 if isinstance(halo, int) else 0; want = 2 * halo
                r.add(halo > 0, 'extent|hal', 'dataset %s has extents %s, the grid has %s cells' % (ds, fdim, N))
            if ds == 'srf': r.add(nd == c.nd and all(eq(a, b) for a, b in zip(fdim, N[:-1] + [1])), 'extent|srf', 'dataset %s has extents %s, the grid has %s cells' % (ds, fdim, N)); want = None
            if want is not None: r.add(nd == c.nd and all(eq(a, b + want) for a, b in zip(fdim, N)), 'extent|%s' % tag, 'dataset %s has extents %s, the grid has %s cells' % (ds, fdim, N))
            for d in range(nd):
                e0 = end if d == 0 and c.mpi and ds != 'T' else 0
                r.add(eq(fst[d], e0), 'selection|%s' % tag, '%s starts at %s along dimension %d of the file, expected %s' % (who, fst[d], d, e0))
                if d or not c.mpi: r.add(eq(fct[d], fdim[d]), 'selection|%s' % tag, '%s covers %s of %s along dimension %d' % (who, fct[d], fdim[d], d))
            end = fst[0] + fct[0]
            # contents
            node = o[3]; lb = [b[0] for b in o[1]]
            if ds == 'T': continue
            lb = [a + b for a, b in zip(lb, mst)]
            for pt in points(lb, fct, tier):
                fp = tuple(a - b + s - halo for a, b, s in zip(pt, lb, fst)); r.count('cells compared')
                if ds in 'XYZ' and len(ds) == 1:
                    d = 'XYZ'.index(ds)
                    x = g.cell(node, pt, ps[p]); y = g.tree(sym.mk('*', sym.mk('in', ('di', 'dj', 'dk')[d]), ips[p].real(fp[d])), (), None, ps[p])
                    r.add(x == y, 'data|%s' % ds, 'the coordinate %s at %s is not the index times the grid step' % (ds, fp))
                    continue
                x = g.cell(node, pt, ps[p])
                if ds in ('G', 'aux_c', 'hal'): r.add(x == cellof(g, ps[p], 'mem.G', fp), 'data|%s' % ds, 'what is recorded as %s at %s is not the metric factor of the cell' % (ds, fp)); continue
                e = {'a': 0, 'b': 1, 'srf': 0, 'aux': 1}.get(ds)
                if e is None: r.add(False, 'names|variables', 'a variable is written as %s' % ds); break
                step = int(re.search(r'(\d+)\.h5$', f).group(1)) if re.search(r'(\d+)\.h5$', f) else None
                if step is None: r.add(False, 'names|files', 'a variable is written to %s' % f); break
                if step == nt: y = g.cell([o_ for o_ in ps[p].obs if o_[2] == e][-1][3], fp, ps[p])
                else:
                    mk = next(x_ for x_ in ps[p].marks if x_[0] == 'end_user'); y = g.cell(mk[2][c17.stof(ps[p], e, 0)], fp, ps[p])
                r.add(x == y, 'data|variable', 'variable %d in the file of step %d at %s is not the state of that cell' % (e, step, fp))
        if c.mpi and ds != 'T': r.add(eq(end, fdim[0]), 'selection|%s' % tag, 'the processes cover %s of %s of %s' % (end, fdim[0], ds))
        out.setdefault(f, []).append(ds)
    for s in range(nt + 1):
        l = [d for f, ds in out.items() for d in ds if f.endswith('%d.h5' % s) and 'const' not in f]
        r.add(sorted(l) == ['a'] + ['aux'] * aux + ['b'] + ['hal', 'srf'] * aux, 'names|variables', 'the file of step %d holds %s' % (s, l))
    l = sorted(d for f, ds in out.items() if 'timestep' not in f for d in ds)
    wantc = sorted(list('XYZ'[:c.nd]) + ['T'] + (['G'] if 'nug' in str(c.kw.get('opts', '')) else []) + ['aux_c'] * aux)
    r.add(l == wantc, 'names|constants', 'the file of constants holds %s, expected %s' % (l, wantc))
    # recorded parameters
    for ev in evs:
        at = {v[0]: v[1] for k, f, v in [e for e in ev if e[0] == 'attr']}
        for k, w in [('dt', sym.mk('in', 'dt'))] + [(x, sym.mk('in', x)) for x in ('di', 'dj', 'dk')[:c.nd]] + [('n_iters', c.n_iters)] + [('scl_c', sym.mk('in', 'scl_c'))] * aux:
            r.count('attributes')
            r.add(k in at and val(at[k]) == val(w) if not isinstance(at.get(k), interp.Opaque) else False, 'attribute|%s' % k, 'attribute %s is %s' % (k, at.get(k)))
    r.sample('%s: %d writes: %s' % (n, len(ws[0]), ' '.join('%s:%s' % (w[1].split('/')[-1], w[2][0]) for w in ws[0])))
    return r
def cellof(g, p, nm, pt):
    for st in set(x for o in p.marks for x in o[2]):
        if getattr(st, 'name', None) == nm: return g.cell(next(o[2] for o in reversed(p.marks) if st in o[2])[st], pt, p)
    raise gvn.Undecided('no storage %s' % nm)
def points(lb, ct, tier):
    ax = [[l, l + 1, l + n - 2, l + n - 1] if not isinstance(n, int) else sorted({l, l + n - 1}) for l, n in zip(lb, ct)]
    if len(ax) == 3 and tier == 'quick': ax[1] = ax[1][1:3]
    return list(itertools.product(*ax))
def time(n, nt, tier):
    c = registry.BY[n]; r = Res(); R = nt + 2
    for of in range(1, R):
        for os_ in range(0, nt + 1, of):
            for win in range(1, min(of, 3) + 1):
                if os_ > nt: continue
                q = runner.fresh(20); gvn.GVN.split = ('q0',)
                m = meta.Model(c, q, nt, outfreq=of, outstart=os_, outwindow=win); p = m.inst().p
                ev = events(p); w = next((e for e in ev if e[0] == 'write' and e[2][0] == 'T'), None)
                lab = 'nt=%d outfreq=%d outstart=%d outwindow=%d' % (nt, of, os_, win)
                files = [e[1] for e in ev if e[0] == 'file' and 'const' not in e[1]]
                steps = [s for s in range(nt + 1) if s == 0 or any((s - t) % of == 0 and s - t >= os_ for t in range(win))]
                r.count('time coordinates')
                got = [int(x.group(1)) if x else None for x in (re.search(r'(\d+)\.h5$', str(f)) for f in files)]
                r.add(got == steps, 'files|steps', '%s: the files written are %s, the steps recorded %s' % (lab, got, steps))
                if w is None: r.add(False, 'T|missing', 'no time coordinate'); continue
                ct = w[2][7][0]; val = Val(3, {})
                r.add(ct == len(steps) and w[2][5] == [ct], 'T|length', '%s: %s time coordinates for %d records' % (lab, ct, len(steps)))
                if not isinstance(ct, int): continue
                dt = val(sym.mk('in', 'dt')); lb = w[3][1][0][0]
                T = [valat(w[3][3], (lb + i,), val) for i in range(ct)]
                for i, s in enumerate(steps[:ct]): r.add(T[i] == s * dt, 'T|value', '%s: the time of record %d is %s steps, expected %d' % (lab, i, T[i] / dt, s))
    r.sample('nt=%d: lengths and values of the time coordinate for all output intervals, starts and windows' % nt)
    return r
