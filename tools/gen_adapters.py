#!/usr/bin/env python3
"""One-off generator of lib/adapters_*.cpp (committed). Reads the public headers of the process
classes and the process each prints for itself, so that the adapters call only the public API.
Not run by any check."""
import re, os, sys
SM = os.environ.get('VERIF_REPO', '/repo') + '/SM'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib')
SECT = {
 'lepton': 'eemm emem eeee eeee2 eeeeQED eemmQED eenene eenmnm enenee enmenm menn mnen nenenene nenenene2 nenenmnm nenmnenm',
 'quark': 'ddee deed uuee ueeu ddnn dnnd uunn unnu udnl ulnd ubdt udtb dddd dddd2 uuuu uuuu2 ddss dsds ucuc uucc uuss usus uudd udud',
 'photon': 'AAdd AAee AAuu eAAe dAAd uAAu eeAA ddAA uuAA AZdd AZee AZuu AdZd AeZe AuZu eeAZ dAdh ddAh uAuh uuAh eAeh eeAh',
 'gluon': 'dAgd gAdd gAuu guAu dWgu gWud gZdd gZuu gdZd guZu dgdh uguh hgdd hguu ggdd gguu gugu dggd gggg',
 'higgsz': 'dZZd eZZe uZZu ddZZ eeZZ uuZZ dZdh eZeh uZuh ddZh eeZh uuZh nZZn nnZZ nZnh nnZh ddhh dhdh eehh eheh uuhh uhuh',
 'fermionw': 'AWud AnWe ZnWe enAW enZW WdWd WdZu udZW udAW ddWW uuWW uWWu eeWW eWWe enWh hnWe udWh uhWd nWWn nnWW',
 'boson': 'AAWW AWAW AWWh AWZW AZWW AhWW WWWW WWWW2 ZWWh ZWZW ZZWW ZZZZ ZhWW hWWh hhWW hZZh hhZZ hhhh',
}
PROC = {'AZee': 'A Z e E'}
FL = {'massu':'Fu','massd':'Fd','masss':'Fs','massc':'Fc','masst':'Ft','massb':'Fb','masse':'Fe','massmu':'Fm','masstau':'Fl'}
def par(n): return {'echarge':'P.e','gscharge':'P.gs','gcharge':'P.gs','massh':'P.mh','widthh':'P.wh','massW':'P.MW','sinW':'P.sw','widthW':'P.WW','widthZ':'P.WZ','vev':'(2*P.MW*P.sw/P.e)'}[n]
def args(x): return [a.split('&')[-1].split()[-1] for a in x.split(',') if a.strip()]
allc = sorted(f[:-2] for f in os.listdir(SM+'/include') if f.endswith('.h'))
listed = sum((v.split() for v in SECT.values()), [])
assert sorted(listed) == sorted(set(listed)), 'dup'
miss = set(allc) ^ set(listed)
assert not miss, miss
for s, names in SECT.items():
    o = ['// Adapters of sector %s: public API of each process class behind one interface. See tools/gen_adapters.py.' % s,
         '#include "procs.hpp"']
    for n in names.split(): o.append('#include "include/%s.h"' % n)
    o.append('namespace procs {\nusing namespace refsm;\n')
    for n in names.split():
        h = re.sub(r'//.*', '', open(f'{SM}/include/{n}.h').read()); src = open(f'{SM}/{n}.cpp').read()
        c = args(re.search(r'\b'+n+r'\(([^)]*)\)\s*;', h).group(1)); m = args(re.search(r'set_masses\(([^)]*)\)', h).group(1))
        if n in PROC: legs = PROC[n].split()
        else:
            l = re.search(r'\\t\* ([^:]*?)(?:\(QED\))?\s*:', src)
            legs = re.findall(r'[A-Za-z]+[+-]?', l.group(1).replace('->', ' '))
        if n == 'ueeu': legs = ['u','e','e','u']
        assert len(legs) == 4, (n, legs)
        cm = [a for a in c if a.startswith('mass')]
        ferm = 'Fd' if n[0]=='d' else 'Fu' if n[0]=='u' else 'Fe'
        def val(a):
            if a == 'massf': return 'P.mf[%s]' % ferm
            return 'P.mf[%s]' % FL[a] if a in FL else par(a)
        cargs = ', '.join(val(a) for a in c)
        if n == 'gggg': margs = None
        else:
            assert len(m) == len(cm), (n, c, m)
            margs = ', '.join(val(a) for a in cm)
        am = re.search(n+r'::amp\(([^)]*)\)', src); sp = None
        if am: sp = [int(x)-1 for x in re.findall(r'ds(\d)', am.group(1))]
        pol = [p for p in re.findall(r'ldouble (amp2_\w+)\(\)', h) if re.search(n+'::'+p+r'\s*\(', src)]
        pl = []
        bos = [i for i in range(4) if legs[i] in 'Ag']
        for p in pol:
            if p == 'amp2_Feynman': pl.append((p, [9]*4)); continue
            fix = [9]*4; used = []
            for t in p.split('_')[1:]:
                k, sg = t[0], (1 if t[1:] == 'plus' else -1)
                i = [j for j in bos if legs[j] == k and j not in used and j < 2][0]
                fix[i] = sg; used.append(i)
            pl.append((p, fix))
        extra = sorted(set(re.findall(r'cdouble (amp_\w+)\(', h)))
        o.append('struct P_%s : Proc {' % n)
        o.append('  spinas::%s x;' % n)
        o.append('  P_%s(const PL &P) : x(%s) {}' % (n, cargs))
        if 'set_v(' in h:  # in either order
            o.append('  int calls = 0;')
            o.append('  void masses(const PL &P) { bool first = calls++ %% 2; if (first) x.set_v(%s); x.set_masses(%s); if (!first) x.set_v(%s); }' % (par('vev'), margs, par('vev')))
        else: o.append('  void masses(const PL &P) { %s }' % ('(void)P;' if margs is None else 'x.set_masses(%s);' % margs))
        o.append('  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }')
        o.append('  ldouble amp2() { return x.amp2(); }')
        if re.search(n + r'::amp2\(const ldouble mom1', src):
            o.append('  bool onecall(const ldouble m[4][4], ldouble &a) { a = x.amp2(m[0], m[1], m[2], m[3]); return true; }')
        if pl:
            o.append('  ldouble pol(int i) { switch (i) { %s } return 0; }' % ' '.join('case %d: return x.%s();' % (i, p) for i, (p, f) in enumerate(pl)))
        if sp is not None:
            o.append('  cdouble amp(const int *ds) { %sreturn x.amp(%s); }' % ('' if sp else '(void)ds; ', ', '.join('ds[%d]' % i for i in sp)))
        nq = sum(l.lower() in 'udscbt' for l in legs); ng = legs.count('g')
        K = {(2, 0): 3, (2, 1): 4, (4, 0): 9}.get((nq, ng), 1)
        kind = 'K_FULL'
        if n == 'gggg': kind = 'K_PROP'
        elif sp is None:
            sp = [0, 1, 2, 3]
            d = lambda f: 'opt_%s(x, ds, 0)' % f
            if extra == ['amp_Num']:
                kind = 'K_PROP'; o.append('  ldouble spin2(const int *ds) { return std::norm(%s); }' % d('amp_Num'))
                o.append('  cdouble amp(const int *ds) { return %s; }' % d('amp_Num'))
            else:
                kind = 'K_SUM'
                if extra == ['amp_gluon', 'amp_rest']: a = [d('amp_gluon'), d('amp_rest'), '0', '0']
                elif extra == ['amp_W', 'amp_gluon', 'amp_rest']: a = [d('amp_gluon'), d('amp_rest'), '0', d('amp_W')]
                else:
                    assert len(extra) == 4 and extra[0][:9] == extra[1][:9] == 'amp_gluon', (n, extra)
                    a = [d(extra[0]), d(extra[2]), d(extra[1]), d(extra[3])]
                o.append('  ldouble spin2(const int *ds) { return colour2(%s); }' % ', '.join(a))
                o.append('  void parts(const int *ds, cdouble *o) { %s }' % ' '.join('o[%d] = %s;' % (k, a[j]) for k, j in enumerate((1, 3, 0, 2))))
        if kind == 'K_FULL' or n == 'gggg':
            o.append('  ldouble spin2(const int *ds) { return %d * std::norm(amp(ds)); }' % K)
        o.append('  spinas::process *base() { return &x; }')
        o.append('};')
        pstr = ', '.join('{"%s", {%s}}' % (p, ', '.join(map(str, f))) for p, f in pl)
        o.append('static Reg r_%s({"%s", "%s", {%s}, %s, {%s}, {%s}, [](const PL &P) -> Proc * { return new P_%s(P); }, %s, %s});\n' % (
            n, n, s, ', '.join('"%s"' % l for l in legs), 'true' if 'QED' in n else 'false',
            ', '.join('"%s"' % a for a in c), pstr, n, '{%s}' % ', '.join(map(str, sp)), kind))
    o.append('}  // namespace procs')
    open(f'{OUT}/adapters_{s}.cpp', 'w').write('\n'.join(x for x in o if x)+'\n')
    print(s, len(names.split()))
