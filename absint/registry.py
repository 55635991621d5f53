"""The analysed instantiations (family x dimension x boundary x options x schemes) and the domain shapes they are run with."""
from cases import case

IXU1 = 'struct ix { enum { u, tht, vip_i=u, vip_den=-1 }; };'
IXU2 = 'struct ix { enum { u, w, tht, vip_i=u, vip_j=w, vip_den=-1 }; };'
IXU3 = 'struct ix { enum { u, v, w, tht, vip_i=u, vip_j=v, vip_k=w, vip_den=-1 }; };'
IXS1 = 'struct ix { enum { qx, h, vip_i=qx, vip_den=h }; }; enum { hint_norhs = opts::bit(ix::h) };'
IXS2 = 'struct ix { enum { qx, qy, h, vip_i=qx, vip_j=qy, vip_den=h }; }; enum { hint_norhs = opts::bit(ix::h) };'
def E(k, v): return 'enum { %s = %s }; ' % (k, v)
def S(k, v): return E(k, 'solvers::' + v)
D1, D2, D3 = 'p.di=mpx_real("di");', 'p.di=mpx_real("di");p.dj=mpx_real("dj");', 'p.di=mpx_real("di");p.dj=mpx_real("dj");p.dk=mpx_real("dk");'
D = {1: D1, 2: D2, 3: D3}
IXU = {1: IXU1, 2: IXU2, 3: IXU3}
B = {'c': 'cyclic', 'o': 'open', 'r': 'rigid', 'p': 'polar', 'g': 'gndsky'}
def bc(s):
    """'cc/or' -> one letter per side"""
    return [B[x] for x in s.replace('/', '')]
def o(s): return '|'.join('opts::' + x for x in s.split()) if s else '0'

class Case:
    def __init__(self, name, fam, nd, bcs, ne=1, tags=(), n_iters=2, nt=2, mpi=False, **kw):
        self.name, self.fam, self.nd, self.bcs, self.ne, self.tags, self.n_iters, self.nt, self.mpi = name, fam, nd, bcs, ne, set(tags), n_iters, nt, mpi
        self.opts = kw.get('opts'); self.ct = kw.get('ct', '')
        self.kw = kw
        self.flags = case(fam, nd, bc(bcs), ne=ne, mpi=mpi, **kw)
C = []
def add(*a, **k): C.append(Case(*a, **k))

# advection only ------------------------------------------------------------------------------------------------------
G = dict(SET_GC=True)
add('a1_def',   'mpdata', 1, 'cc', ne=2, tags={'core'}, **G)
add('a1_up',    'mpdata', 1, 'cc', n_iters=1, tags={'core'}, opts=o(''), **G)
add('a1_std',   'mpdata', 1, 'cc', n_iters=3, tags={'core'}, opts=o(''), **G)
add('a1_tot',   'mpdata', 1, 'oo', n_iters=3, tags={'core'}, opts=o('abs tot fct nug'), **G)
add('a1_iga',   'mpdata', 1, 'cc', tags={'core'}, opts=o('iga tot fct nug'), **G)
add('a1_div',   'mpdata', 1, 'cc', tags={'core'}, opts=o('iga div_2nd div_3rd fct nug'), **G)
add('a1_dfl',   'mpdata', 1, 'cc', n_iters=3, tags={'core'}, opts=o('dfl nug'), **G)
add('a1_khn',   'mpdata', 1, 'oo', tags={'core'}, opts=o('khn fct npa abs'), **G)
add('a1_fot',   'mpdata', 1, 'cc', tags={'core'}, opts=o('iga tot fot'), **G)
add('a2_def',   'mpdata', 2, 'cc/cc', ne=2, tags={'core'}, **G)
add('a2_up',    'mpdata', 2, 'cc/cc', n_iters=1, tags={'core'}, opts=o(''), **G)
add('a2_std',   'mpdata', 2, 'cc/oo', n_iters=3, tags={'core'}, opts=o(''), **G)
add('a2_tot',   'mpdata', 2, 'oo/oo', n_iters=3, tags={'core'}, opts=o('abs tot fct nug'), **G)
add('a2_iga',   'mpdata', 2, 'rr/rr', tags={'core'}, opts=o('iga tot fct nug'), **G)
add('a2_div',   'mpdata', 2, 'cc/cc', tags={'core'}, opts=o('iga div_2nd div_3rd fct nug'), **G)
add('a2_div3',  'mpdata', 2, 'oo/rr', n_iters=2, tags={'core'}, opts=o('abs div_2nd div_3rd nug'), **G)
add('a2_dfl',   'mpdata', 2, 'cc/oo', n_iters=3, tags={'core'}, opts=o('dfl nug fct'), **G)
add('a2_khn',   'mpdata', 2, 'cc/rr', tags={'core'}, opts=o('khn fct npa'), **G)
add('a2_pol',   'mpdata', 2, 'cc/pp', tags={'core', 'polar'}, opts=o('fct nug'), **G)
add('a2_poli',  'mpdata', 2, 'cc/pp', tags={'core', 'polar'}, opts=o('iga fct tot nug'), **G)
add('a3_def',   'mpdata', 3, 'cc/cc/cc', ne=2, tags={'core'}, **G)
add('a3_up',    'mpdata', 3, 'cc/cc/cc', n_iters=1, tags={'core'}, opts=o(''), **G)
add('a3_std',   'mpdata', 3, 'oo/oo/oo', n_iters=3, tags={'core'}, opts=o('nug'), **G)
add('a3_tot',   'mpdata', 3, 'cc/rr/oo', n_iters=2, tags={'core'}, opts=o('abs tot fct'), **G)
add('a3_div',   'mpdata', 3, 'cc/cc/cc', tags={'core'}, opts=o('iga div_2nd div_3rd fct nug'), **G)
add('a3_div3',  'mpdata', 3, 'rr/cc/rr', tags={'core'}, opts=o('abs div_2nd div_3rd'), **G)
add('a3_dfl',   'mpdata', 3, 'rr/oo/cc', n_iters=2, tags={'core'}, opts=o('dfl nug khn'), **G)
add('a3_rig',   'mpdata', 3, 'rr/rr/rr', tags={'core'}, opts=o('iga fct'), **G)
add('o2_up',   'mpdata', 2, 'oo/oo', n_iters=1, tags={'core'}, opts=o('nug'), **G)
add('o3_up',   'mpdata', 3, 'oo/oo/oo', n_iters=1, tags={'core'}, opts=o(''), **G)
add('a2_del',   'mpdata', 2, 'cc/cc', ne=3, tags={'core'}, opts=o('fct'), ct='enum { delayed_step = opts::bit(1) }; static constexpr int hint_scale(const int &e) { return e == 1 ? 4 : 0; } ', **G)
# time-dependent advector / variable time step ------------------------------------------------------------------------
V = dict(USER_VARGC=True, SET_GC=True)
add('v1_vdt',   'mpdata', 1, 'cc', tags={'core'}, opts=o('iga fct'), ct=E('var_dt', 'true'), rtp='p.max_courant = mpx_real("max_courant");', **V)
add('v2_vdt',   'mpdata', 2, 'cc/oo', tags={'core'}, opts=o('nug fct'), ct=E('var_dt', 'true'), rtp='p.max_courant = mpx_real("max_courant");', **V)
add('v2_div',   'mpdata', 2, 'cc/cc', tags={'core'}, opts=o('iga div_2nd div_3rd fct'), **V)
add('v3_div',   'mpdata', 3, 'cc/cc/cc', tags={'core'}, opts=o('nug div_2nd div_3rd'), **V)
add('v2_divdt', 'mpdata', 2, 'cc/cc', tags={'core'}, opts=o('iga div_2nd div_3rd_dt fct'), **V)
add('v3_vdt',   'mpdata', 3, 'oo/cc/rr', tags={'core'}, opts=o('iga fct'), ct=E('var_dt', 'true'), rtp='p.max_courant = mpx_real("max_courant");', **V)
# sources -------------------------------------------------------------------------------------------------------------
R = dict(USER_RHS=True, SET_GC=True)
add('r1_ea',    'rhs', 1, 'cc', ne=2, tags={'core'}, ct=S('rhs_scheme', 'euler_a'), rtp='p.dt = mpx_real("dt");', **R)
add('r1_eb',    'rhs', 1, 'cc', ne=2, tags={'core'}, ct=S('rhs_scheme', 'euler_b'), **R)
add('r2_tr',    'rhs', 2, 'oo/rr', ne=2, tags={'core'}, ct=S('rhs_scheme', 'trapez') + E('hint_norhs', 'opts::bit(1)'), **R)
add('r2_trd',   'rhs', 2, 'cc/cc', ne=3, tags={'core'}, ct=S('rhs_scheme', 'trapez') + 'enum { delayed_step = opts::bit(0) }; static constexpr int hint_scale(const int &e) { return e == 1 ? 4 : 0; } ', **R)
add('r2_mx',    'rhs', 2, 'cc/cc', ne=2, tags={'core'}, ct=S('rhs_scheme', 'mixed'), USER_MIXED=True, **R)
add('r1_tr',   'rhs', 1, 'oo', ne=2, tags={'core'}, ct=S('rhs_scheme', 'trapez') + E('hint_norhs', 'opts::bit(1)'), **R)
add('r2_ea',   'rhs', 2, 'cc/rr', ne=2, tags={'core'}, ct=S('rhs_scheme', 'euler_a') + E('hint_norhs', 'opts::bit(1)'), **R)
add('r2_eb',   'rhs', 2, 'cc/oo', ne=2, tags={'core'}, opts=o('abs fct nug'), ct=S('rhs_scheme', 'euler_b'), **R)
add('r3_ea',   'rhs', 3, 'cc/rr/oo', ne=2, tags={'core'}, ct=S('rhs_scheme', 'euler_a'), **R)
add('r3_tr',    'rhs', 3, 'cc/cc/cc', ne=1, tags={'core'}, ct=S('rhs_scheme', 'trapez'), **R)
add('s1',       'sw', 1, 'cc', ne=2, tags={'core'}, opts=o('fct abs'), ct=S('rhs_scheme', 'trapez') + IXS1, rtp=D1 + 'p.vip_eps=mpx_real("vip_eps");p.g=mpx_real("g");')
add('s2',       'sw', 2, 'cc/oo', ne=3, tags={'core'}, opts=o('fct iga'), ct=S('rhs_scheme', 'trapez') + IXS2, rtp=D2 + 'p.vip_eps=mpx_real("vip_eps");p.g=mpx_real("g");')
# momentum ------------------------------------------------------------------------------------------------------------
def vip(name, nd, bcs, scheme='trapez', vab='noab', tags={'core'}, opts=None, ct='', **k):
    add(name, 'vip', nd, bcs, ne=nd + 1, tags=tags, opts=opts, ct=S('rhs_scheme', scheme) + S('vip_vab', vab) + ct + IXU[nd], rtp=D[nd], SET_VAB=(True if vab != 'noab' else None), **k) if vab != 'noab' else \
    add(name, 'vip', nd, bcs, ne=nd + 1, tags=tags, opts=opts, ct=S('rhs_scheme', scheme) + ct + IXU[nd], rtp=D[nd], **k)
vip('u1',       1, 'cc')
vip('u1_oo',    1, 'oo')
vip('u2_exp',   2, 'cc/rr', vab='expl')
vip('u2_a4',    2, 'cc/oo', vab='impl', ct=S('sptl_intrp', 'aver4'))
vip('u3_imp',   3, 'cc/rr/rr', vab='impl')
vip('u2_div',   2, 'cc/cc', opts=o('nug iga div_2nd div_3rd fct'))
# pressure ------------------------------------------------------------------------------------------------------------
def prs(name, nd, bcs, pr, vab='noab', tags={'core'}, opts=None, ct='', **k):
    add(name, 'prs', nd, bcs, ne=nd + 1, tags=tags, opts=opts, ct=S('rhs_scheme', 'trapez') + S('prs_scheme', pr) + (S('vip_vab', vab) if vab != 'noab' else '') + ct + IXU[nd],
        rtp=D[nd] + 'p.prs_tol=mpx_real("prs_tol");', **dict(k, **({'SET_VAB': True} if vab != 'noab' else {})))
prs('p2_mr',    2, 'cc/rr', 'mr')
prs('p2_cr',    2, 'cc/cc', 'cr', ct=E('prs_khn', 'true'))
prs('p2_gc',    2, 'oo/rr', 'gcrk', opts=o('nug iga fct'))
prs('p3_mr',    3, 'cc/cc/rr', 'mr', vab='impl')
prs('p3_cr',    3, 'cc/rr/rr', 'cr')
prs('p3_gc',    3, 'oo/oo/oo', 'gcrk', opts=o('nug iga fct'))
# subgrid -------------------------------------------------------------------------------------------------------------
def sgs(name, nd, bcs, sg, diff='compact', pr='cr', fam='bq', impl=True, tags={'core'}, vab='impl', rtp='', ct='', **k):
    add(name, fam, nd, bcs, ne=nd + 1, tags=tags, ct=S('rhs_scheme', 'trapez') + S('prs_scheme', pr) + S('vip_vab', vab) + S('stress_diff', diff) + S('sgs_scheme', sg)
        + (E('impl_tht', 'true' if impl else 'false') if fam == 'bq' else '') + ct + IXU[nd],
        rtp=D[nd] + 'p.prs_tol=mpx_real("prs_tol");' + ('p.Tht_ref=mpx_real("Tht_ref");p.g=mpx_real("g");' if fam == 'bq' else '') + ('p.smg_c=mpx_real("smg_c");p.c_m=mpx_real("c_m");p.cdrag=mpx_real("cdrag");' + ('p.prandtl_num=mpx_real("prandtl_num");p.hflux_const=mpx_real("hflux");' if fam == 'bq' else '') if sg.startswith('smg') else '') + rtp, SET_VAB=True,
        SET_SCLR=''.join('run.sclr_array("%s") = mpx_real("%s");' % (x, x) for x in fam == 'bq' and ['tht_e', 'tht_abs'] + ({'smg': ['mix_len'], 'smgani': ['mix_len_h', 'mix_len_v']}.get(sg, [])) or []) or None, **k)
sgs('b2_il',    2, 'cc/rr', 'iles')
sgs('b2_ile',   2, 'cc/rr', 'iles', impl=False, vab='expl', pr='gcrk')
sgs('b3_il',    3, 'cc/cc/rr', 'iles', pr='gcrk')
sgs('g2_dns',   2, 'cc/rr', 'dns', fam='sgs', rtp='p.eta=mpx_real("eta");', diff='compact')
sgs('g2_dnn',   2, 'cc/cc', 'dns', fam='sgs', rtp='p.eta=mpx_real("eta");', diff='normal')
sgs('g3_dns',   3, 'cc/cc/rr', 'dns', fam='sgs', rtp='p.eta=mpx_real("eta");')
sgs('b3_smg',   3, 'cc/cc/gg', 'smg')
sgs('b3_sma',   3, 'cc/cc/gg', 'smgani', rtp='')
sgs('g3_smo',   3, 'cc/cc/rr', 'smg', fam='sgs', pr='gcrk', vab='expl')
sgs('g3_sma',   3, 'cc/cc/rr', 'smgani', fam='sgs')
sgs('g2_smn',   2, 'cc/rr', 'smg', fam='sgs', diff='normal')
sgs('g2_smo',   2, 'cc/rr', 'smg', fam='sgs')
# further combinations, compared with the specification of the momentum solvers only
C0 = C; C = []
vip('u2_imp',   2, 'oo/cc', vab='impl', opts=o('nug iga'))
vip('u3_nug',   3, 'cc/oo/cc', vab='expl', opts=o('nug iga'))
vip('u3_a4',    3, 'oo/cc/cc', opts=o('nug'), ct=S('sptl_intrp', 'aver4'))
prs('p2_k2',    2, 'cc/cc', 'gcrk', opts=o('iga fct'), ct=E('prs_k_iters', '2'))
NN = C; C = []
# momentum with forces other than pressure (buoyancy, absorbers), for the composition of a step
HF = 'run.sclr_array("hflux_frc") = mpx_real("hflux_frc");'
def forced(name, nd, bcs, **k):
    if k.pop('bq', True): sgs(name, nd, bcs, 'iles', pr='mr', **k); C[-1].kw['SET_SCLR'] += HF
    else: prs(name, nd, bcs, 'mr', **k)
    if k.get('vab') == 'noab': C[-1].kw['SET_VAB'] = None
forced('q2_im', 2, 'cc/rr')
forced('q2_ex', 2, 'cc/rr', impl=False, vab='expl')
forced('q2_fi', 2, 'cc/rr', impl=False, rtp='p.buoy_filter=true;')
forced('q2_ab', 2, 'cc/rr', bq=False, vab='impl', opts=o('nug iga fct'))
forced('q2_ae', 2, 'cc/rr', bq=False, vab='expl')
forced('q3_im', 3, 'cc/cc/rr', vab='expl')
forced('q3_fi', 3, 'cc/cc/rr', impl=False, rtp='p.buoy_filter=true;')
forced('q3_ab', 3, 'cc/cc/rr', bq=False, vab='impl')
NQ = C; C = C0

# viscous stresses ------------------------------------------------------------------------------------------------------
C0 = C; C = []
sgs('n2_dns', 2, 'cc/rr', 'dns', fam='sgs', rtp='p.eta=mpx_real("eta");', opts=o('nug iga fct'))
sgs('n2_dng', 2, 'cc/gg', 'dns', fam='sgs', rtp='p.eta=mpx_real("eta");')
sgs('n2_dnp', 2, 'cc/rr', 'dns', fam='sgs', rtp='p.eta=mpx_real("eta");', diff='pade')
sgs('n3_dnn', 3, 'cc/cc/cc', 'dns', fam='sgs', rtp='p.eta=mpx_real("eta");', diff='normal')
sgs('n2_smg', 2, 'cc/gg', 'smg', fam='sgs', opts=o('nug iga fct'))
sgs('n2_sma', 2, 'cc/gg', 'smgani', fam='sgs', opts=o('nug iga fct'))
sgs('n3_smg', 3, 'cc/cc/gg', 'smg', fam='sgs', opts=o('nug iga fct'))
sgs('n3_smw', 3, 'cc/rr/gg', 'smg', fam='sgs')
sgs('n2_bsm', 2, 'cc/gg', 'smg', opts=o('nug iga fct'))
sgs('n2_bsa', 2, 'cc/gg', 'smgani')
sgs('n2_bse', 2, 'cc/gg', 'smg', impl=False)
NS = C; C = C0

# a stop request may arrive at any moment -----------------------------------------------------------------------------
for n_, nd_, b_ in (('y1', 1, 'cc'), ('y2', 2, 'cc/oo'), ('y3', 3, 'cc/cc/rr')):
    add(n_, 'mpdata', nd_, b_, tags={'async'}, ASYNC=True, **G)
# the same programs with distributed memory ---------------------------------------------------------------------------
MPI = ['a1_def', 'a2_def', 'a2_div', 'a2_tot', 'a3_def', 'a3_std', 'a3_div', 'v2_vdt', 'r2_tr', 'u2_exp', 'p2_cr', 'p3_gc', 'b2_il', 'b3_sma', 'g3_dns', 'g3_smo']
for c in list(C):
    if c.name in MPI:
        k = dict(c.kw)
        C.append(Case(c.name + '_mpi', c.fam, c.nd, c.bcs, ne=c.ne, tags=(c.tags - {'core'}) | {'mpi'}, n_iters=c.n_iters, nt=c.nt, mpi=True, **k))
for c in C: c.kw = {k: v for k, v in c.kw.items() if v is not None}
for c in NN + NQ + NS: c.kw = {k: v for k, v in c.kw.items() if v is not None}
BY = {c.name: c for c in C + NN + NQ + NS}

# programs for the truncation-error analysis (flux limiting off, so that the scheme is smooth) ---------------------------
X = []
def accadd(name, nd, opts, var=False, ct='', **k):
    X.append(Case(name, 'mpdata', nd, '/'.join(['cc'] * nd), opts=o(opts), ct=ct, tags={'acc'}, SET_GC=True, **dict(k, **({'USER_VARGC': True} if var else {}))))
for nd_ in (1, 2, 3):
    for nm_, op_ in (('bas', ''), ('abs', 'abs'), ('iga', 'iga'), ('nug', 'nug'), ('nugi', 'nug iga'), ('tot', 'tot nug'), ('toti', 'tot iga nug'), ('tota', 'tot abs'), ('dfl', 'dfl nug'), ('dfli', 'dfl iga nug'),
                     ('khn', 'khn npa')):
        accadd('x%d_%s' % (nd_, nm_), nd_, op_)
    for nm_, op_ in (('d2', 'div_2nd nug'), ('d2i', 'div_2nd iga nug'), ('d3', 'div_2nd div_3rd nug'), ('d3i', 'div_2nd div_3rd iga nug'), ('d3a', 'div_2nd div_3rd abs')):
        accadd('x%d_%s' % (nd_, nm_), nd_, op_, True)
    if nd_ < 3: accadd('x%d_fot' % nd_, nd_, 'iga tot fot'); 
accadd('x1_d3f', 1, 'iga div_2nd div_3rd fot', True); accadd('x2_d3f', 2, 'iga div_2nd div_3rd fot', True)
accadd('x2_d3t', 2, 'iga div_2nd div_3rd_dt nug', True); accadd('x3_d3t', 3, 'iga div_2nd div_3rd_dt nug', True)
for nd_ in (1, 2, 3):
    accadd('x%d_d3l' % nd_, nd_, 'iga div_2nd div_3rd nug', True, ct=S('tmprl_extrp', 'linear2'))
    accadd('x%d_d3s' % nd_, nd_, 'iga div_2nd div_3rd nug', True, ct=S('sptl_intrp', 'aver2'))
    accadd('x%d_d3q' % nd_, nd_, 'iga div_2nd div_3rd nug', True, ct=S('sptl_intrp', 'aver4'))
BY.update({c.name: c for c in X})

# step accounting: probes in the user's hooks, one call of advance() or two ------------------------------------------------
Z = []
for n_ in ('a1_iga', 'a2_def', 'a2_tot', 'a2_del', 'a3_def', 'v1_vdt', 'v2_vdt', 'v2_div', 'v2_divdt', 'r1_ea', 'r1_eb', 'r2_tr', 'r2_trd', 'r2_mx', 's1', 's2', 'u1', 'u2_exp', 'u2_a4', 'u2_div', 'u3_imp', 'p2_mr', 'p2_cr', 'p2_gc', 'p3_cr', 'b2_il', 'b2_ile', 'g2_dns', 'g2_smo', 'b3_smg'):
    c = BY[n_]
    for a_ in (1, 2): Z.append(Case('z%d_%s' % (a_, n_), c.fam, c.nd, c.bcs, ne=c.ne, tags=(c.tags - {'core'}) | {'clock'}, n_iters=c.n_iters, CLOCK=True, nadv=a_, **{k: v for k, v in c.kw.items() if k != 'nadv'}))
ZQ = [Case('z1_' + c.name, c.fam, c.nd, c.bcs, ne=c.ne, tags={'clock'}, n_iters=c.n_iters, CLOCK=True, nadv=1, **{k: v for k, v in c.kw.items() if k != 'nadv'}) for c in NQ]
ZS = [Case('zs_' + c.name, c.fam, c.nd, c.bcs, ne=c.ne, tags={'clock'}, n_iters=c.n_iters, CLOCK=True, CLOCK_MID=True, nadv=1, **{k: v for k, v in c.kw.items() if k != 'nadv'})
      for c in NS + [BY[x] for x in ('g2_dns', 'g2_dnn', 'g3_dns', 'g2_smn', 'g2_smo', 'g3_smo', 'g3_sma', 'b3_smg', 'b3_sma')]]
BY.update({c.name: c for c in Z + ZQ + ZS})

# what a writer is given ----------------------------------------------------------------------------------------------------
C0 = C; C = []
OV = 'p.outvars = {{0, {"a", "u"}}, {1, {"b", "u"}}};'
add('o1', 'mpdata', 1, 'cc', ne=2, rtp='p.outfreq = mpx_int("outfreq"); p.outstart = mpx_int("outstart");' + OV, RECORD=True, **G)
add('o2', 'mpdata', 2, 'cc/oo', ne=1, rtp='p.outfreq = mpx_int("outfreq");', RECORD=True, **G)
add('o2r', 'rhs', 2, 'cc/cc', ne=2, rtp='p.outfreq = mpx_int("outfreq");' + OV, ct=S('rhs_scheme', 'trapez'), RECORD=True, USER_RHS=True, **G)
add('o1_w', 'mpdata', 1, 'cc', ne=2, rtp='p.outfreq = mpx_int("outfreq"); p.outwindow = 2;' + OV, RECORD=True, **G)
add('o2v', 'vip', 2, 'cc/rr', ne=3, ct=S('rhs_scheme', 'trapez') + S('vip_vab', 'expl') + IXU[2], rtp=D[2] + 'p.outfreq = mpx_int("outfreq");' + OV, RECORD=True, SET_VAB=True)
add('p_o1', 'mpdata', 1, 'cc', ne=2, **G)
add('p_o2r', 'rhs', 2, 'cc/cc', ne=2, ct=S('rhs_scheme', 'trapez'), USER_RHS=True, **G)
add('p_o2v', 'vip', 2, 'cc/rr', ne=3, ct=S('rhs_scheme', 'trapez') + S('vip_vab', 'expl') + IXU[2], rtp=D[2], SET_VAB=True)
for k_ in (1, 2):
    for n_, x_ in (('o1', dict(nd=1, bcs='cc', opts=o('iga fct'))), ('o2', dict(nd=2, bcs='cc/oo', opts=o('nug fct')))):
        for b_ in ('10',):
            add('%s_v%d_%s' % (n_, k_, b_), 'mpdata', ne=2, ct=E('var_dt', 'true') + E('out_intrp_ord', k_), rtp='p.max_courant = mpx_real("max_courant"); p.outfreq = mpx_real("outfreq");' + OV, RECORD=True, LEVELS=True, **dict(x_, **V))
            C[-1].decide = b_
NO = C; C = []
OF = 'p.outdir = "out"; p.outfreq = mpx_int("outfreq"); p.outstart = mpx_int("outstart"); p.outwindow = mpx_int("outwindow"); p.dt = mpx_real("dt");'
for m_ in (False, True):
    x_ = '_mpi' if m_ else ''
    add('h1' + x_, 'mpdata', 1, 'cc', ne=2, rtp=OF + D[1] + OV, HDF5=True, mpi=m_, **G)
    add('h2' + x_, 'mpdata', 2, 'cc/oo', ne=2, opts=o('nug fct'), rtp=OF + D[2] + OV, HDF5=True, mpi=m_, **G)
    add('h3' + x_, 'mpdata', 3, 'cc/cc/oo', ne=2, rtp=OF + D[3] + OV, HDF5=True, mpi=m_, **G)
    add('h2x' + x_, 'mpdata', 2, 'cc/oo', ne=2, opts=o('nug fct'), rtp=OF + D[2] + OV, HDF5=True, AUX=True, mpi=m_, **G)
    add('h3x' + x_, 'mpdata', 3, 'cc/cc/oo', ne=2, opts=o('nug fct'), rtp=OF + D[3] + OV, HDF5=True, AUX=True, mpi=m_, **G)
NH = C; C = C0
for c in NH: c.kw = {k: v for k, v in c.kw.items() if v is not None}
BY.update({c.name: c for c in NH})
for c in NO: c.kw = {k: v for k, v in c.kw.items() if v is not None}
BY.update({c.name: c for c in NO})
NOC = [BY[n_] for n_ in ('o1', 'o2r', 'o1_v1_10', 'o2_v2_10')]          # those that the checks of every program look at too

# the cyclic twins of programs with rigid walls (method of images) -----------------------------------------------------------
W = []
for n_ in ('a2_iga', 'a2_khn', 'a2_div3', 'a3_tot', 'a3_rig', 'a3_div3', 'a3_dfl', 'u2_exp', 'u3_imp', 'r2_tr'):
    c = BY[n_]
    for d_, b_ in enumerate(c.bcs.split('/')):
        if b_ != 'rr': continue
        s_ = c.bcs.split('/'); s_[d_] = 'cc'
        W.append(Case('w%d_%s' % (d_, n_), c.fam, c.nd, '/'.join(s_), ne=c.ne, tags=(c.tags - {'core'}) | {'twin'}, n_iters=c.n_iters, **c.kw))
BY.update({c.name: c for c in W})

# plain advection with the settings of a program that has sources or carries its own velocity: the reference for one step ----------------------
def plain(n):
    c = BY[n]; m = 'm_' + n
    if m not in BY:
        k = dict(opts=c.opts, SET_GC=True)
        if 'div_3rd' in (c.opts or ''): k['USER_VARGC'] = True
        if c.fam in ('vip', 'sw'): k['ct'] = S('sptl_intrp', 'aver4' if 'aver4' in c.ct else 'aver2') + S('tmprl_extrp', 'linear2')
        BY[m] = Case(m, 'mpdata', c.nd, c.bcs, ne=c.ne, tags={'plain'}, n_iters=c.n_iters, **{x: y for x, y in k.items() if y is not None})
    return BY[m]

# flux limiting: programs with fct and the same without ---------------------------------------------------------------------------------
F = []
for nd_ in (1, 2, 3):
    for nm_, op_ in (('iga', 'iga nug'), ('npa', 'iga npa'), ('abs', 'abs nug'), ('khn', 'abs khn'), ('dfl', 'iga dfl nug'), ('tot', 'iga tot nug')):
        for s_, f_ in (('', ' fct'), ('_u', '')):
            F.append(Case('f%d_%s%s' % (nd_, nm_, s_), 'mpdata', nd_, '/'.join(['cc'] * nd_), tags={'lim'}, opts=o(op_ + f_), SET_GC=True))
BY.update({c.name: c for c in F})
