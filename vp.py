#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from the current /repo tree, runs the monitors,
writes evidence/<id>.json.  Usage: vp.py ID [--replay FILE] | vp.py setup
Exit 0: held (or only known findings), 1: VIOLATION printed, 2: the check itself could not run."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
JOBS = min(8, os.cpu_count() or 1)
SECTORS = ['lepton', 'quark', 'photon', 'gluon', 'higgsz', 'fermionw', 'boson']


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- building
_hdr = {}


def headers_digest():
    if 'd' not in _hdr:
        h = hashlib.sha256()
        fs = []
        for d in (REPO + '/include', REPO + '/SM/include', REPO + '/user-dir/include', HERE + '/lib'):
            for r, _, ff in os.walk(d):
                fs += [os.path.join(r, f) for f in ff if f.endswith(('.h', '.hpp', '.hh', '.inc', '.ipp', '.tpp'))]
        # headers next to the sources
        fs += glob.glob(REPO + '/source/*.h*') + glob.glob(REPO + '/SM/*.h*')
        for f in sorted(fs):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
        _hdr['d'] = h.hexdigest()
    return _hdr['d']


class Config:
    """One way of building: compiler flags for all translation units."""

    def __init__(self, name, flags, ldflags=(), cxx='g++'):
        self.name, self.flags, self.ldflags, self.cxx = name, list(flags), list(ldflags), cxx


LD = '-DWITH_LONG_DOUBLE'
CONFIGS = {
    'std': Config('std', ['-g1', '-O1', LD]),
    'opt': Config('opt', ['-g1', '-O3', LD]),
    'o0': Config('o0', ['-g1', '-O0', LD]),
    'dbl': Config('dbl', ['-g1', '-O1']),
    'dblopt': Config('dblopt', ['-g1', '-O3']),
    'asan': Config('asan', ['-g1', '-O1', LD, '-fsanitize=address,undefined', '-fsanitize=float-divide-by-zero', '-fno-sanitize-recover=undefined',
                            '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'], ['-fsanitize=address,undefined']),
    'tsan': Config('tsan', ['-g1', '-O1', LD, '-fsanitize=thread'], ['-fsanitize=thread']),
    'fast': Config('fast', ['-g1', '-O2', '-march=native', LD]),
    'mem': Config('mem', ['-g1', '-O1', LD]),
}
CONFIGS['asan'].flags.remove('-fsanitize=float-divide-by-zero')


def compile_one(cfg, src, std, extra=()):
    text = open(src, 'rb').read()
    cmd = [cfg.cxx, '-std=' + std] + cfg.flags + list(extra) + ['-fPIC', '-w', '-I' + REPO + '/include', '-I' + REPO + '/SM', '-I' + os.path.dirname(src),
                                                               '-I' + HERE + '/lib']
    key = hashlib.sha256((' '.join(cmd) + src).encode() + text + headers_digest().encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'obj', key + '.o')
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError('compilation of %s failed:\n%s' % (src, r.stdout[-3000:]))
    os.replace(tmp, out)
    return out


def lib_sources():
    return sorted(glob.glob(REPO + '/source/**/*.cpp', recursive=True))


def sm_sources(names=None):
    if names is not None:
        fs = [REPO + '/SM/%s.cpp' % n for n in names]
        return fs if all(os.path.exists(f) for f in fs) else None
    return [f for f in sorted(glob.glob(REPO + '/SM/**/*.cpp', recursive=True)) if not re.search(r'^\s*int\s+main\s*\(', open(f, errors='replace').read(), re.M)]


def classes_of(sectors):
    out = []
    for s in sectors:
        out += re.findall(r'#include "include/(\w+)\.h"', open(HERE + '/lib/adapters_%s.cpp' % s).read())
    return out


def build(cfgname, harness, sectors=(), extra_repo=(), libs=(), hflags=()):
    """Builds harness (a file in harness/) against the library, and the processes of the sectors."""
    cfg = CONFIGS[cfgname]
    os.makedirs(BUILD + '/obj', exist_ok=True)
    own = [HERE + '/harness/' + harness] + [HERE + '/lib/adapters_%s.cpp' % s for s in sectors]
    small = sm_sources(classes_of(sectors)) if sectors else []
    attempts = [small] if small is not None else []
    if sectors:
        attempts.append(None)
    err = ''
    for sm in attempts or [[]]:
        if sm is None:
            sm = sm_sources()
        jobs = [(f, 'gnu++17', hflags) for f in own] + [(f, 'gnu++11', ()) for f in lib_sources() + sm + list(extra_repo)]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda j: compile_one(cfg, j[0], j[1], j[2]), jobs))
        exe = os.path.join(BUILD, '%s-%s-%s' % (os.path.splitext(harness)[0], cfgname, hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16]))
        if os.path.exists(exe):
            return exe
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([cfg.cxx] + cfg.ldflags + objs + ['-o', tmp, '-lquadmath', '-lpthread'] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(tmp, exe)
            return exe
        err = r.stdout[-3000:]
    raise CheckError('linking %s failed:\n%s' % (harness, err))


# ---------------------------------------------------------------- running
class Run:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.work = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.evaluations = self.distinct = self.undecided = 0
        self.stats, self.samples, self.violations, self.notes = {}, [], {}, []

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def violation(self, key, case, detail, count=1):
        v = self.violations.setdefault(key, {'key': key, 'case': case, 'detail': detail, 'count': 0})
        v['count'] += count

    def add(self, rep, tag=''):
        self.evaluations += rep['evaluations']
        self.distinct += rep['distinct']
        self.undecided += rep['undecided']
        for k, v in rep['stats'].items():
            self.stats[tag + k] = self.stats.get(tag + k, 0) + v
        for s in rep['samples']:
            if len(self.samples) < 12:
                self.samples.append(s)
        for v in rep['violations']:
            self.violation(tag + v['key'], v['case'], v['detail'], v['count'])

    def shards(self, exe, n=JOBS, wrap=(), env=None, tag='', on_fail=None, args=(), timeout=None):
        """Runs n shards of a harness in parallel.  A shard that dies is a violation (with the case in
        flight), unless on_fail classifies it.  One that stays in a case is run again, and is a violation if it
        stays in the same case once more; one that is merely slow is an error of the check."""
        stuck = timeout or (150 if self.tier == 'quick' else 300)
        slow = 800
        e = dict(os.environ)
        e.update(env or {})

        def one(i, again=False):
            out, infl, log = [os.path.join(self.work, '%s%s.%d.%s' % (tag, os.path.basename(exe)[:20], i, x)) for x in ('json', 'inflight', 'log')]
            for f in (out, infl):
                if os.path.exists(f):
                    os.remove(f)
            cmd = list(wrap) + [exe, '--prop', self.prop, '--seed', str(self.seed), '--tier', self.tier, '--shard', str(i), '--nshards', str(n),
                                '--out', out, '--inflight', infl] + list(args)
            if self.only:
                cmd += ['--only', self.only]
            def flying():
                if not os.path.exists(infl):
                    return ''
                return open(infl, 'rb').read().split(b'\0')[0].decode(errors='replace')

            with open(log, 'w') as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=self.work)
                start = since = time.time()
                case = ''
                while True:
                    try:
                        rc = p.wait(timeout=2)
                        break
                    except subprocess.TimeoutExpired:
                        rc = None
                    now, c = time.time(), flying()
                    if c != case:
                        case, since = c, now
                    if now - since > stuck or now - start > slow:
                        p.kill()
                        p.wait()
                        break
            case = flying()
            if rc is None and time.time() - start > slow:
                raise CheckError('%s shard %d is too slow, was in %s' % (self.prop, i, case))
            if rc is None and again != case:
                if again is not False:
                    raise CheckError('%s shard %d stayed in %s and then in %s' % (self.prop, i, again, case))
                return one(i, case)
            rep = None
            if os.path.exists(out):
                try:
                    rep = json.load(open(out))
                except ValueError:
                    rep = None
            return rc, rep, case, log

        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, range(n)))
        for rc, rep, case, log in res:
            text = open(log, errors='replace').read()
            if rep:
                self.add(rep, tag)
            if rc == 0 and rep:
                if on_fail:
                    on_fail(self, rc, case, text)
                continue
            if on_fail and on_fail(self, rc, case, text):
                continue
            grp = case.split('#')[0]
            if rc is None:
                self.violation('%s%s:hang' % (tag, grp), case, 'no end after %d s, twice' % stuck)
            elif rc < 0 or rc in (134, 139):
                self.violation('%s%s:crash' % (tag, grp), case, 'died with status %d: %s' % (rc, text[-600:]))
            else:
                raise CheckError('harness failed with status %s: %s' % (rc, text[-2000:]))


def san_fail(run, rc, case, text):
    """Turns sanitizer reports into violations, keyed by kind and innermost frame in /repo."""
    found = False
    for m in re.finditer(r'(ERROR: AddressSanitizer: [\w-]+|ERROR: LeakSanitizer|WARNING: ThreadSanitizer: [\w -]+|[^\n]*runtime error: [^\n]*)', text):
        kind = m.group(1)
        tail = text[m.start():m.start() + 6000]
        fr = re.search(r'(?:%s)/((?:source|SM|include|user-dir)/[\w./-]+)' % re.escape(REPO), tail)
        where = fr.group(1) if fr else 'unknown'
        short = re.sub(r'.*runtime error: ', '', kind)
        short = re.sub(r'0x[0-9a-f]+|[-\d.]+', 'N', short)
        short = re.sub(r'^(ERROR|WARNING): ', '', short)
        run.violation('%s:%s' % (where, short.strip()[:70].replace(' ', '-')), case, tail[:1500])
        found = True
    return found


# ---------------------------------------------------------------- checks
def sm_check(sectors):
    def f(run):
        run.shards(build('std', 'sm.cpp', sectors))
    return f


def lib_check(harness='core.cpp', cfg='std'):
    def f(run):
        run.shards(build(cfg, harness))
    return f


RULE_SM = ('Random points: masses comparable, near-physical, hierarchical or degenerate; energies near threshold, moderate or high; frames centre-of-mass, '
           'axis-rotated, randomly rotated, boosted, rest frame of a leg, collinear boost. Non-trivial: the reference (or fresh, or untransformed) value is finite and not zero; '
           'distinct by process, parameters and momenta.')
CHECKS = {}
for _i, _s in enumerate(SECTORS):
    CHECKS['S%02d' % (_i + 1)] = (sm_check([_s]), RULE_SM)
for _i in range(8, 16):
    CHECKS['S%02d' % _i] = (sm_check(SECTORS), RULE_SM)
CHECKS['S18'] = (sm_check(SECTORS), RULE_SM)
CHECKS['S19'] = (sm_check(SECTORS), RULE_SM)
CHECKS['S17'] = (sm_check(SECTORS), RULE_SM)
CHECKS['S16'] = (sm_check(['lepton', 'photon']), RULE_SM)

RULE_C = {
    'C01': 'Random on-shell momenta, massless, massive, at rest; directions exactly on axes, in planes, nearly on axes, generic. Distinct by momentum; every one is non-trivial.',
    'C11': 'All label combinations of one to six vector bosons and a seed-dependent seventh of the longer ones; every term enumerated. Distinct by label list.',
    'C12': 'Random masses, energies and tables (positive, negative or zero) with injected deviations (NaN, infinities, sign, zero, relative sizes clearly outside or inside the tolerance) in each kind of frame. Distinct by configuration.',
    'C15': 'Random masses, energies and angles, four independent momenta; four random rotations and boosts each. Distinct by masses and energy.',
    'C13': 'Random ranges; 1200 draws of each helper per range. Distinct by range.',
}
RULE_D = 'Random and structured inputs (and operation sequences) of the property, drawn from the seed; every comparison with the model is one evaluation; distinct by input.'
for _i in range(1, 17):
    CHECKS['C%02d' % _i] = (lib_check(), RULE_C.get('C%02d' % _i, RULE_D))

def vg_fail(run, rc, case, text):
    """Valgrind reports -> violations keyed by kind and innermost frame in /repo."""
    found = False
    for m in re.finditer(r'==\d+== (Conditional jump[^\n]*|Use of uninitialised[^\n]*|Syscall param[^\n]*|Invalid (?:read|write)[^\n]*|Uninitialised byte[^\n]*|Mismatched free[^\n]*|Invalid free[^\n]*|Process terminating[^\n]*)', text):
        tail = text[m.start():m.start() + 5000].split('\n==', 60)
        blk = []
        for l in tail:
            if re.match(r'\d+==\s*$', l):
                break
            blk.append(l)
        blk = '\n'.join(blk)
        fr = re.search(r'%s/((?:source|SM|include|user-dir)/[\w./-]+?):\d+' % re.escape(REPO), blk)
        run.violation('%s:%s' % (fr.group(1) if fr else 'result', re.sub(r'[^A-Za-z]+', '-', m.group(1))[:60]), case, blk[:1500])
        found = True
    return found


ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=1:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:detect_invalid_pointer_pairs=2',
            'UBSAN_OPTIONS': 'print_stacktrace=1'}


def r01(run):
    exe = build('asan', 'robust.cpp', SECTORS)
    run.shards(exe, env=ASAN_ENV, on_fail=san_fail, args=['--mode', 'live', '--nofunc', '1', '--scale', '10'])
    lib = build('asan', 'core.cpp')
    for i in range(1, 17):
        run.shards(lib, env=ASAN_ENV, on_fail=san_fail, args=['--mode', 'C%02d' % i, '--nofunc', '1', '--scale', '60'], tag='C%02d ' % i)


def r02(run):
    run.shards(build('std', 'robust.cpp', SECTORS, hflags=['-DVP_FILL']), args=['--mode', 'fills'])
    vg = ['valgrind', '-q', '--error-exitcode=99', '--fullpath-after=', '--track-origins=no', '--num-callers=16', '--undef-value-errors=yes', '--child-silent-after-fork=yes']
    run.shards(build('mem', 'robust.cpp', SECTORS, hflags=['-DVP_VALGRIND']), wrap=vg, on_fail=vg_fail, args=['--mode', 'live', '--nofunc', '1', '--scale', '60'], tag='valgrind ')
    lib = build('mem', 'core.cpp')
    for i in range(1, 17):
        run.shards(lib, wrap=vg, on_fail=vg_fail, args=['--mode', 'C%02d' % i, '--nofunc', '1', '--scale', '4000'], tag='valgrind C%02d ' % i)


def r03(run):
    exe = build('tsan', 'robust.cpp', SECTORS)
    run.shards(exe, n=4, env={'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_signal_unsafe=0'}, on_fail=san_fail, args=['--mode', 'threads'])


def dumps(run, cfg):
    """Values of the fixed points computed by one build."""
    exe = build(cfg, 'robust.cpp', SECTORS)
    before = run.distinct
    run.shards(exe, args=['--mode', 'dump'], tag=cfg + ' ')
    out = {}
    for f in glob.glob(run.work + '/%s *.dump' % cfg):
        for l in open(f):
            w = l.split()
            out[w[0]] = (int(w[1]), [tuple(float(y) for y in x.split(':')) for x in w[2:]])
    return out


def r04(run):
    """The reference build is extended precision -O1; per value it also reports what rounding the input to double is worth."""
    cfgs = ['opt', 'o0', 'dbl'] if run.tier == 'quick' else ['opt', 'o0', 'dbl', 'dblopt', 'fast']
    ref = dumps(run, 'std')
    for cfg in cfgs:
        got = dumps(run, cfg)
        for case, (npol, rv) in sorted(ref.items()):
            name = case.split('#')[0]
            if case not in got:
                if not any(v['case'] == case for v in run.violations.values()):
                    run.violation('%s %s:missing' % (cfg, name), case, 'the %s build computed nothing' % cfg)
                continue
            gv = got[case][1]
            run.evaluations += len(rv)
            run.distinct += 1
            if len(gv) != len(rv):
                run.violation('%s %s:shape' % (cfg, name), case, 'the %s build offers %d values instead of %d' % (cfg, len(gv), len(rv)))
                continue
            ext = cfg in ('opt', 'o0', 'fast')
            tot = max(abs(rv[0][0]), 1e-300)
            amp = max([abs(a) for a, _ in rv[1 + npol:]] + [1e-300])
            und = 0
            # rounding inside the evaluation mixes the spin states: the least certain value of a group counts for all
            wt, wa = max(w for _, w in rv[:1 + npol]), max([w for _, w in rv[1 + npol:]] + [0])
            wt = max(wt, 2 * tot * wa / amp)
            for i, ((a, w), (b, _)) in enumerate(zip(rv, gv)):
                scale, w = (tot, wt) if i <= npol else (amp, wa)
                # float() keeps 53 bits, enough for the comparison of extended builds at 1e-13
                tol = 1e-13 * scale + 0.1 * w if ext else 1e-12 * scale + 1e4 * w
                if tol > 1e-3 * scale:
                    und += 1
                    continue
                if not abs(a - b) <= tol:
                    what = 'amp2' if i == 0 else 'polarised' if i <= npol else 'amp'
                    run.violation('%s %s:%s' % (cfg, name, what), case, 'value %d is %.17g in the reference build and %.17g in the %s build (allowed %.2e)' % (i, a, b, cfg, tol))
            run.undecided += und
        if len(run.samples) < 12:
            c = sorted(ref)[len(run.samples) * 7 % len(ref)]
            run.samples.append('%s: amp2=%.17g in std, %.17g in %s' % (c, ref[c][1][0][0], got.get(c, (0, [(float('nan'), 0)]))[1][0][0], cfg))


def r05(run):
    run.shards(build('std', 'user.cpp', extra_repo=[REPO + '/user-dir/eemm.cpp'], hflags=['-I' + REPO + '/user-dir']))
    # the shipped program, built the way its comment says
    exe = os.path.join(run.work, 'usertest')
    r = subprocess.run(['g++', '-o', exe, REPO + '/user-dir/test.cpp', REPO + '/user-dir/eemm.cpp', '-I' + REPO + '/include'] + lib_sources() + ['-std=c++11', LD, '-O1', '-w'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        run.violation('eemm:does-not-build', 'shipped program', r.stdout[-1500:])
        return
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, cwd=run.work)
    run.evaluations += 1
    if r.returncode or 'amp2/amp2_data' in r.stdout:
        run.violation('eemm:shipped-program', 'shipped program', 'status %d, output: %s' % (r.returncode, r.stdout[-1500:]))


def lives(mode):
    def f(run):
        run.shards(build('std', 'robust.cpp', SECTORS), args=['--mode', mode], env={'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'} if mode == 'growth' else None)
    return f


CHECKS['R06'] = (lives('quiet'), 'Whole lives of every process class and of library objects and self-checks, with the state of the program (floating-point control, locales, stream formats, signals, '
                                 'files, rand sequence, environment) read before and after and the standard streams captured. Distinct by results of a life.')
CHECKS['R07'] = (lives('growth'), 'The heap held after a quarter, half and all of many repetitions of the lives of each class, of the reuse of one object and of its self-check. Distinct by results.')
CHECKS['R08'] = (lives('arith'), 'Valid construction, mass changes, momenta and evaluations of every process class, library objects and self-checks with the floating-point exception flags read after every step. Distinct by configuration.')
CHECKS['R04'] = (r04, 'The same random parameters and momenta (generic directions) evaluated by builds in extended precision at -O0, -O1 and -O3 and in double precision: squared, polarised and '
                      'single-spin amplitudes compared. Distinct by point and build.')
CHECKS['R05'] = (r05, RULE_SM)
CHECKS['R01'] = (r01, 'Whole lives of every process class (construction, evaluation before and after momenta, all spins, refused momenta, mass changes, destruction), self-checks and library '
                      'workloads of C01-C16 under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer. Evaluations are results computed under the tools; distinct by results of a life.')
CHECKS['R02'] = (r02, 'The same lives on heap and stack memory with four previous contents, compared bitwise, and under valgrind memcheck with a definedness check on every result. '
                      'Distinct by results of a life.')
CHECKS['R03'] = (r03, 'Groups of six threads with their own objects of the same or of different classes under ThreadSanitizer; results compared bitwise with the sequential run. '
                      'Distinct by results of a life.')


# ---------------------------------------------------------------- verdict
def known_findings():
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def main(argv):
    if len(argv) >= 2 and argv[1] == 'setup':
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        for t in ('g++', 'valgrind'):
            if not shutil.which(t):
                print('missing tool: ' + t)
                return 2
        return 0
    prop = argv[1]
    fn, rule = CHECKS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    only = None
    if len(argv) > 3 and argv[2] == '--replay':
        rp = json.load(open(argv[3]))
        seed, tier, only = rp['seed'], rp['tier'], rp['case']
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    ev = os.path.join(EVID, prop + '.json')
    if os.path.exists(ev) and not only:
        os.remove(ev)
    run = Run(prop, tier, seed, only)
    try:
        fn(run)
    finally:
        run.close()
    known, new = [], []
    kf = {(p, k): t for p, k, t in known_findings()}
    for k, v in sorted(run.violations.items()):
        (known if (prop, k) in kf else new).append(v)
    for v in known:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, kf[(prop, v['key'])], v['key']))
    if not only:
        doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
               'coverage': {'evaluations': run.evaluations, 'distinct_nontrivial': run.distinct, 'rule': rule, 'samples': run.samples, 'undecided': run.undecided,
                            'observed': run.stats, 'known_findings_seen': [v['key'] for v in known]},
               'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        with open(ev, 'w') as f:
            json.dump(doc, f, indent=1)
    for v in new[:20]:
        path = os.path.join(EVID, 'replay-%s-%s.json' % (prop, re.sub(r'\W+', '_', v['key'])[:60]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': v['case'], 'key': v['key'], 'count': v['count'], 'detail': v['detail']}, f, indent=1)
        print('%s [%s x%d] %s' % (v['key'], v['case'], v['count'], v['detail'][:1200]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if new:
        return 1
    if run.evaluations == 0 or run.distinct == 0:
        print('nothing was observed')
        return 2
    if run.undecided > 0.2 * run.evaluations:
        print('undecided in %d of %d evaluations' % (run.undecided, run.evaluations))
        return 2
    print('%s held: %d evaluations, %d distinct, %d undecided, %.1f s' % (prop, run.evaluations, run.distinct, run.undecided, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv))
    except CheckError as e:
        print('ERROR: %s' % e)
        sys.exit(2)
