"""C18 options: distinct bits, reported under their own names."""
from framework import *
import subprocess, json, tempfile, os
import cases, interp, sym
LEVEL = 'other'
RULE = ('The enumerators of each scheme are taken from the syntax tree too, and the maps that turn schemes into recorded text (*2string) are interpreted for each of them: every enumerator must have an entry, which is its own name. ' 'The option enumerators are taken from the syntax tree of opts.hpp. opts_string() is interpreted for no option, each one and each pair: the text must name exactly the options that are set, each by the name of its enumerator. '
        'That the options occupy distinct bits, and that isset() tests exactly the requested one, is stated as static assertions that the compiler must accept.')
ASSUME = []
def jobs(tier): return [('opts', 'names', tier), ('opts', 'bits', tier), ('opts', 'schemes', tier)]
def floors(tier): return {'options': 10, 'option words': 60, 'scheme names': 12}
def options():
    out = []
    def walk(x):
        if x.get('kind') == 'EnumConstantDecl' and x['name'] not in out: out.append(x['name'])
        for y in x.get('inner', []): walk(y)
    for o in dump('#include <cmath>\n#include <string>\n#include <libmpdata++/opts.hpp>\n', 'libmpdataxx::opts'): walk(o)
    if not out: raise interp.AnalysisError('no options found in opts.hpp')
    return out
def dump(src, flt):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.cpp'); open(f, 'w').write(src)
        p = subprocess.run(['/usr/bin/clang++-18', *cases.COMMON, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, f], capture_output=True, text=True)
    dec = json.JSONDecoder(); t = p.stdout; i = 0
    while True:
        i = t.find('{', i)
        if i < 0: return
        try: o, i = dec.raw_decode(t, i)
        except ValueError: i += 1; continue
        yield o
SCH = '#include <cmath>\n#include <string>\n#include <libmpdata++/solvers/mpdata_rhs_vip_prs_sgs.hpp>\n'
def schemes(r):
    maps = {}
    for o in dump(SCH, '2string'):
        m = re.search(r'map<(?:libmpdataxx::)?(?:solvers::)?(\w+), *(?:std::)?(?:string|basic_string.*)>', o.get('type', {}).get('qualType', ''))
        if o.get('kind') == 'VarDecl' and m: maps[o['name']] = m.group(1)
    prs = []
    for n, e in sorted(maps.items()):
        ens = []
        def walk(x):
            if x.get('kind') == 'EnumConstantDecl' and x['name'] not in ens: ens.append(x['name'])
            for y in x.get('inner', []): walk(y)
        for o in dump(SCH, 'libmpdataxx::solvers::' + e):
            if o.get('kind') == 'EnumDecl' and o.get('name') == e: walk(o)
        if not ens: raise interp.AnalysisError('no enumerators of %s' % e)
        prs += [(n, x) for x in ens]
    if len(maps) < 4: raise interp.AnalysisError('scheme-name maps found: %s' % maps)
    P = interp.Program(cases.extract(['-DX_ALL=' + ' '.join('F(%s,%s)' % p for p in prs)], src='schemes.cpp', name='schemes'))
    out, thrown = drive(P)
    for (n, x), s in zip(prs, out):
        r.count('scheme names'); r.add(s == x, 'schemes|%s|%s' % (n, x), '%s gives "%s" for %s' % (n, s, x))
    if thrown: r.count('scheme names', len(prs) - len(out)); r.add(False, 'schemes|%s|%s' % prs[len(out)], '%s has no entry for %s' % prs[len(out)])
    elif len(out) != len(prs): raise interp.AnalysisError('%d texts for %d schemes' % (len(out), len(prs)))
    r.sample('%s: %s' % (', '.join(sorted(maps)), ' '.join(x for _, x in prs)))
    return r
def drive(P):
    runner.fresh(); ip = interp.Interp(P, {}, (1, 0)); ip.strs = True; thrown = None; interp.ORACLE = None
    f = next(f for f in P.F.values() if f['q'] == 'drive'); out = []
    try: ip.call(f, None, [])
    except interp.Thrown as t: thrown = t.what
    def marks(t):
        for x in t:
            if isinstance(x, interp.Ev):
                if x.k == 'mark': out.append(x.d['name'])
            elif isinstance(x, interp.Br): raise interp.AnalysisError('%s: the text depends on %r' % (x.loc, x.cond))
            else: marks(x.body)
    marks(ip.root)
    for s in out:
        if not isinstance(s, str): raise interp.AnalysisError('unknown text %r' % (s,))
    return out, thrown
def run(j):
    if j[1] == 'schemes': return schemes(Res())
    r = Res(); ns = options(); r.count('options', len(ns))
    if j[1] == 'bits':
        L = ['#include <cmath>', '#include <string>', '#include <libmpdata++/opts.hpp>', 'using namespace libmpdataxx;']; what = {}
        def say(c, k, t): what[len(L) + 1] = (k, t); L.append('static_assert(%s, "%s");' % (c, k))
        for a in ns:
            say('opts::%s != 0 && (opts::opts_t(opts::%s) & (opts::opts_t(opts::%s) - 1)) == 0' % (a, a, a), 'bits|%s' % a, 'option %s is not a single bit' % a)
            for b in ns:
                if a < b: say('(opts::opts_t(opts::%s) & opts::opts_t(opts::%s)) == 0' % (a, b), 'bits|%s' % a, 'options %s and %s share a bit' % (a, b))
                say('opts::isset(opts::%s, opts::%s) == %s' % (a, b, str(a == b).lower()), 'isset|%s' % a, 'isset(%s, %s) is not %s' % (a, b, a == b))
                if a != b: say('opts::isset(opts::opts_t(opts::%s) | opts::opts_t(opts::%s), opts::%s)' % (a, b, a), 'isset|%s' % a, 'isset(%s|%s, %s) is not true' % (a, b, a))
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'a.cpp'); open(f, 'w').write('\n'.join(L) + '\n')
            p = subprocess.run(['/usr/bin/clang++-18', *cases.COMMON, '-ferror-limit=0', '-fsyntax-only', f], capture_output=True, text=True)
        bad = set()
        for l in p.stderr.split('\n'):
            m = re.match(r'%s:(\d+):\d+: error: (.*)' % re.escape(f), l)
            if m:
                if 'static assertion failed' not in m.group(2) and 'static_assert failed' not in m.group(2): raise interp.AnalysisError('witness does not compile: %s' % m.group(2)[:200])
                bad.add(int(m.group(1)))
            elif ': error:' in l: raise interp.AnalysisError('witness does not compile: %s' % l[:200])
        for k, (key, t) in what.items(): r.add(k not in bad, key, t)
        r.count('static assertions', len(what)); r.sample('%d options: %s' % (len(ns), ' '.join(ns)))
        return r
    prs = [(a, b) for i, a in enumerate(ns) for b in ns[i + 1:]]
    P = interp.Program(cases.extract(['-DX_ONE=' + ' '.join('F(%s)' % a for a in ns), '-DX_TWO=' + ' '.join('F(%s,%s)' % p for p in prs)], src='opts.cpp', name='opts'))
    got = [[(a,)] for a in ns] + [[p] for p in prs] + [[()]]; out, thrown = drive(P)
    if thrown: r.add(False, 'names|throws', 'opts_string() throws for %s: %s' % ('|'.join(got[min(len(out), len(got) - 1)][0]) or '0', thrown))
    elif len(out) != len(got): raise interp.AnalysisError('%d texts for %d words' % (len(out), len(got)))
    for (w,), s in zip(got, out):
        r.count('option words')
        if not isinstance(s, str): raise interp.AnalysisError('unknown text %r' % (s,))
        parts = [x for x in s.split('|') if x not in ('', '0')]
        for o in w: r.add(parts.count(o) == 1, 'names|%s missing' % o, 'options %s are reported as "%s": %s is not named once' % ('|'.join(w), s, o))
        extra = sorted(set(parts) - set(w))
        r.add(not extra, 'names|extra %s' % '|'.join(extra), 'options %s are reported as "%s"' % ('|'.join(w) or '0', s))
    r.sample('%d option words' % len(out))
    return r
