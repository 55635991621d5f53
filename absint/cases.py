"""Analysed instantiations: how each one is spelled as macros for drivers/case.cpp, and extraction of its AST."""
import os, sys, json, hashlib, subprocess, tempfile, gzip, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MPX_REPO', '/repo')
BUILD = os.environ.get('MPX_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18'

def tool():
    """path of the extractor, built from tool/extract.cpp if missing or stale"""
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(BUILD, 'mpx-extract-' + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        tmp = exe + '.%d' % os.getpid()
        subprocess.check_call(['/usr/bin/g++', '-O1', *flags, src, '-o', tmp, '-L' + LLVM + '/lib', LLVM + '/lib/libclang-cpp.so.18.1', '-lLLVM-18'])
        os.rename(tmp, exe)
    return exe

FAM = {
  'mpdata': ('solvers/mpdata.hpp', 'solvers::mpdata'),
  'rhs': ('solvers/mpdata_rhs.hpp', 'solvers::mpdata_rhs'),
  'vip': ('solvers/mpdata_rhs_vip.hpp', 'solvers::mpdata_rhs_vip'),
  'prs': ('solvers/mpdata_rhs_vip_prs.hpp', 'solvers::mpdata_rhs_vip_prs'),
  'sgs': ('solvers/mpdata_rhs_vip_prs_sgs.hpp', 'solvers::mpdata_rhs_vip_prs_sgs'),
  'bq': ('solvers/boussinesq.hpp', 'solvers::boussinesq'),
  'sw': ('solvers/shallow_water.hpp', 'solvers::shallow_water'),
}
MPI_INC = None
def mpi_flags():
    global MPI_INC
    if MPI_INC is None:
        MPI_INC = []
        for d in ('/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
                  '/usr/lib/x86_64-linux-gnu/hdf5/openmpi/include', '/usr/include/hdf5/openmpi'):
            if os.path.isdir(d): MPI_INC.append('-I' + d)
    return ['-DUSE_MPI', '-I' + os.path.join(VERIF, 'drivers', 'h5')] + MPI_INC

COMMON = ['-std=c++17', '-DNDEBUG', '-D__FAST_MATH__', '-D_REENTRANT', '-I' + REPO, '-I' + os.path.join(VERIF, 'drivers'),
          '-I' + os.path.join(VERIF, 'drivers', 'compat'), '-I' + os.path.join(VERIF, 'drivers', 'h5'), '-resource-dir', LLVM + '/lib/clang/18', '-w', '-ferror-limit=3']

def case(fam, nd, bcs, ne=1, opts=None, ct='', rtp='', nadv=1, mpi=False, mpi_multi=False, **defs):
    hdr, cls = FAM[fam]
    d = {'ND': nd, 'NE': ne, 'FAMILY_HDR': '<libmpdata++/%s>' % hdr, 'FAMILY': cls, 'BCS': ','.join('bcond::' + b for b in bcs), 'NADV': nadv}
    if opts is not None: d['OPTS'] = opts
    if ct: d['CT'] = ct
    if rtp: d['RTP'] = rtp
    d.update(defs)
    fl = ['-DX_%s=%s' % (k, v) if v is not True else '-DX_' + k for k, v in d.items() if v is not None]
    if mpi: fl += mpi_flags()
    if mpi_multi: fl += ['-DLIBMPDATAXX_MPI_THREAD_MULTIPLE']
    return fl

class ExtractError(Exception): pass
def extract(flags, src='case.cpp', name=''):
    """run the extractor on one driver and return the loaded program"""
    exe = tool()
    cache = os.environ.get('MPX_CACHE')
    srcp = os.path.join(VERIF, 'drivers', src) if not os.path.isabs(src) else src
    out = None
    if cache:
        key = hashlib.sha1(json.dumps([exe, srcp, flags, COMMON, tree_hash()]).encode()).hexdigest()
        out = os.path.join(cache, key + '.json')
        if os.path.exists(out): return json.load(open(out))
    fd, tmp = tempfile.mkstemp(suffix='.json'); os.close(fd); os.unlink(tmp)
    p = subprocess.run([exe, tmp, srcp, '--', *COMMON, *flags], capture_output=True, text=True)
    if p.returncode or not os.path.exists(tmp):
        err = [l for l in p.stderr.split('\n') if 'error:' in l]
        raise ExtractError('%s: driver does not compile: %s' % (name, ' | '.join(l[-300:] for l in err[:2]) or p.stderr[-1000:]))
    d = json.load(open(tmp))
    if out: os.rename(tmp, out)
    else: os.unlink(tmp)
    return d

_TH = None
def tree_hash():
    global _TH
    if _TH is None:
        h = hashlib.sha1()
        for root in (os.path.join(REPO, 'libmpdata++'), os.path.join(VERIF, 'drivers')):
            for dp, dn, fn in sorted(os.walk(root)):
                for f in sorted(fn):
                    p = os.path.join(dp, f); h.update(p.encode()); h.update(open(p, 'rb').read())
        _TH = h.hexdigest()
    return _TH
