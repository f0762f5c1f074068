#!/usr/bin/env python3
"""Builds the harnesses of one property from /repo's working tree, runs them under their sanitizer and monitors,
and turns what they observed into a verdict and an evidence file.   usage: run.py <property> [quick|thorough]
Other uses: run.py --replay <replay-file>; run.py --build <property>"""
import array, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
OUT = os.environ.get('VERIF_OUT', VERIF)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
FAILFAST = 'VERIF_FAILFAST' in os.environ    # development only: stop at the first violation
sys.path.insert(0, VERIF)
import checks

DEFS = ('-DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1 -DHAVE_POSIX_THREADS=1 '
        '-DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 -DPOSIX_HAVE_MONOTONIC_TIMER=1 '
        '-DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1 -DSTINGRAY_DEFAULT_LOGLEVEL=Info -DU_STATIC_IMPLEMENTATION=1 '
        '-D_REENTRANT=1 -pthread -fno-strict-aliasing -std=gnu++14 -g1 -fno-omit-frame-pointer -w').split()
# The project builds with -ffast-math; it changes floating-point results, so the checks keep it.
DEFS += ['-ffast-math']
WRAPS = ('pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait '
         'pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join pthread_once sem_wait sem_trywait sem_timedwait sem_post '
         'nanosleep usleep sched_yield clock_gettime gettimeofday __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort').split()
TSAN_WRAPS = ['__tsan_atomic%d_%s' % (b, o) for b in (8, 16, 32, 64) for o in
              'load store exchange fetch_add fetch_sub fetch_and fetch_or fetch_xor compare_exchange_strong compare_exchange_weak compare_exchange_val'.split()]
VARIANTS = {
    'asan': dict(cxx='g++', flags=['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS'],
                 link=['-fsanitize=address,undefined'], core=[]),
    'casan': dict(cxx='clang++', flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function', '-D_GLIBCXX_ASSERTIONS'],
                  link=['-fsanitize=address,undefined'], core=[]),
    'tsan': dict(cxx='clang++', flags=['-O1', '-fsanitize=thread'], link=['-fsanitize=thread'], core=['-DVH_TSAN']),
}
ENV = {
    'ASAN_OPTIONS': 'exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=1024:hard_rss_limit_mb=3500:check_initialization_order=1:detect_odr_violation=0:new_delete_type_mismatch=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=97:detect_deadlocks=0:history_size=5:report_thread_leaks=0:report_signal_unsafe=0:second_deadlock_stack=0',
}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


_hash_cache = {}
def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, 'rb') as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        _hash_cache[path] = h
    return h


def compile_one(cxx, flags, src, obj):
    """Compiles src unless obj is up to date with the content of everything it includes."""
    sig_path, dep_path = obj + '.sig', obj + '.d'
    head = hashlib.sha1((cxx + ' ' + ' '.join(flags) + ' ' + src).encode()).hexdigest()

    def signature():
        with open(dep_path) as f:
            deps = f.read().replace('\\\n', ' ').split(':', 1)[1].split()
        return head + ' ' + hashlib.sha1(''.join(d + fhash(d) for d in sorted(set(deps))).encode()).hexdigest()

    if os.path.exists(obj) and os.path.exists(sig_path) and os.path.exists(dep_path):
        try:
            with open(sig_path) as f:
                if f.read() == signature():
                    return None
        except (OSError, IndexError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = sh([cxx] + flags + ['-MMD', '-MF', dep_path, '-c', src, '-o', obj])
    if r.returncode != 0:
        if os.path.exists(obj):
            os.unlink(obj)
        return 'compiling %s failed:\n%s' % (src, r.stdout[-6000:])
    with open(sig_path, 'w') as f:
        f.write(signature())
    return None


def all_lib_sources():
    """Every library source the project builds: those CMake lists for this platform."""
    names = set()
    with open(os.path.join(VERIF, 'deps.json')) as f:
        deps = json.load(f)
    known, excluded = deps['sources'], set(deps['excluded'])
    for root, _, files in os.walk(os.path.join(REPO, 'stingraykit')):
        for n in files:
            if n.endswith('.cpp'):
                rel = os.path.relpath(os.path.join(root, n), REPO)
                if rel not in excluded:
                    names.add(rel)
    return sorted(names), deps['harness']


def build(units, log):
    """Builds every (harness, variant) of the units; returns {(harness, variant): binary}."""
    sources, needed = all_lib_sources()
    out = {}
    pairs = sorted(set((u['harness'], u['variant']) for u in units))
    ex = cf.ThreadPoolExecutor(JOBS)

    def objs_for(variant, rels):
        v = VARIANTS[variant]
        return [(v['cxx'], DEFS + v['flags'] + ['-DSTINGRAY_LIB_SOURCE', '-I' + REPO], os.path.join(REPO, r),
                 os.path.join(BUILD, variant, 'lib', r.replace('/', '_') + '.o')) for r in rels]

    jobs = {}
    link = {}
    for harness, variant in pairs:
        v = VARIANTS[variant]
        hobj = os.path.join(BUILD, variant, 'h', harness + '.o')
        mobj = os.path.join(BUILD, variant, 'h', 'vhmain.o')
        cobj = os.path.join(BUILD, variant, 'h', 'vhcore.o')
        inc = ['-I' + REPO, '-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness')]
        jobs[hobj] = (v['cxx'], DEFS + v['flags'] + inc, os.path.join(VERIF, 'harness', harness), hobj)
        jobs[mobj] = (v['cxx'], DEFS + v['flags'] + inc, os.path.join(VERIF, 'rt', 'vhmain.cpp'), mobj)
        jobs[cobj] = ('g++', ['-O2', '-g1', '-pthread', '-std=gnu++14', '-w', '-fno-exceptions'] + v['core'], os.path.join(VERIF, 'rt', 'vhcore.cpp'), cobj)
        rels = [r for r in needed.get(harness, sources) if os.path.exists(os.path.join(REPO, r))]
        lib = objs_for(variant, rels)
        for j in lib:
            jobs[j[3]] = j
        link[(harness, variant)] = [hobj, mobj, cobj] + [j[3] for j in lib]

    def run_jobs(js):
        errs = [e for e in ex.map(lambda j: compile_one(*j), js) if e]
        if errs:
            raise CheckError(errs[0])

    # big translation units first
    run_jobs(sorted(jobs.values(), key=lambda j: 0 if '/harness/' in j[2] else 1))

    def do_link(pair, objs):
        harness, variant = pair
        v = VARIANTS[variant]
        exe = os.path.join(BUILD, variant, 'bin', harness.replace('.cpp', ''))
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        wraps = ['-Wl,--wrap=' + w for w in WRAPS + (TSAN_WRAPS if variant == 'tsan' else [])]
        arch = exe + '.a'
        if os.path.exists(arch):
            os.unlink(arch)
        r = sh(['ar', 'qc', arch] + objs[3:])
        if r.returncode != 0:
            return exe, r
        r = sh([v['cxx'], '-pthread'] + v['link'] + objs[:3] + [arch] + wraps + ['-licui18n', '-licuuc', '-licudata', '-lrt', '-ldl', '-o', exe])
        return exe, r

    for pair in pairs:
        exe, r = do_link(pair, link[pair])
        if r.returncode != 0:
            # a symbol moved to another source file: take the whole library
            lib = objs_for(pair[1], sources)
            log.append('link with the recorded source subset failed for %s, building the whole library' % (pair,))
            run_jobs(lib)
            exe, r = do_link(pair, link[pair][:3] + [j[3] for j in lib])
            if r.returncode != 0:
                raise CheckError('linking %s failed:\n%s' % (pair, r.stdout[-6000:]))
        out[pair] = exe
    ex.shutdown()
    return out


def sanitizer_key(text):
    m = re.search(r'SUMMARY: (\w+Sanitizer): ([\w-]+)(?: \([^)]*\))?(?: ([^ ]+))?(?: in ([^\n]+))?', text)
    ub = re.search(r'([\w./+-]+):(\d+):(\d+): runtime error: ([^\n]+)', text)
    if ub:
        msg = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', ub.group(4))
        return 'ubsan:%s:%s' % (os.path.basename(ub.group(1)), msg[:80])
    if m:
        kind = m.group(2)
        if m.group(1) == 'ThreadSanitizer':
            kind = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', text)
            kind = kind.group(1).strip().replace(' ', '-') if kind else 'report'
        frame = re.search(r'#\d+ (?:0x[0-9a-f]+ )?(?:in )?(\S*stingray::[^\n(<]+)', text)
        return '%s:%s:%s' % (m.group(1), kind, frame.group(1) if frame else (m.group(4) or '?')[:80])
    m = re.search(r'([\w./+-]+):(\d+): .*Assertion', text)
    if m:
        return 'glibcxx-assertion:%s' % os.path.basename(m.group(1))
    return None


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='vh_%s_' % prop)
        self.violations = []     # (key, detail, replay argv, log)
        self.counters, self.maxima, self.distinct = {}, {}, {}
        self.per_scenario = {}
        self.samples = []
        self.evals = 0
        self.inconclusive = []
        self.lock = threading.Lock()

    def run_proc(self, exe, variant, scenario, start, cases, only=None, hang=60, timeout=800):
        tag = '%s_%s_%d_%s' % (os.path.basename(exe), scenario, start, '' if only is None else only)
        tag += '_%d' % threading.get_ident()
        out = os.path.join(self.tmp, tag + '.json')
        prog = os.path.join(self.tmp, tag + '.prog')
        scratch = os.path.join(self.tmp, tag + '.d')
        os.makedirs(scratch, exist_ok=True)
        argv = [exe, '--scenario', scenario, '--start', str(start), '--cases', str(cases), '--seed', str(self.seed),
                '--out', out, '--progress', prog, '--tmpdir', scratch, '--thorough', '1' if self.tier == 'thorough' else '0', '--hang', str(hang)]
        if only is not None:
            argv += ['--only', str(only)]
        env = dict(os.environ, **ENV)
        supp = os.path.join(VERIF, 'rt', 'tsan.supp')
        if variant == 'tsan' and os.path.exists(supp):
            env['TSAN_OPTIONS'] += ':suppressions=' + supp
        full = argv
        if variant == 'tsan' and shutil.which('setarch'):
            pass
        logp = os.path.join(self.tmp, tag + '.log')
        with open(logp, 'wb') as lf:
            try:
                rc = subprocess.run(full, stdout=lf, stderr=subprocess.STDOUT, env=env, timeout=timeout, stdin=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        with open(logp, errors='replace') as f:
            text = f.read()
        if len(text) > 200000:
            text = text[:100000] + '\n...\n' + text[-100000:]
        res = None
        if os.path.exists(out):
            try:
                with open(out) as f:
                    res = json.load(f)
            except ValueError:
                res = None
        case = None
        try:
            with open(prog, 'rb') as f:
                b = f.read()
            case = int.from_bytes(b[64:72], 'little')
        except OSError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, text, res, case, out, argv

    def add(self, key, detail, argv, case, text, scenario):
        with self.lock:
            self.violations.append(dict(key=key, detail=detail, argv=argv, case=case, text=text, scenario=scenario))

    def shard(self, job):
        unit, exe, scenario, start, cases = job
        attempts = 0
        pos, end = start, start + cases
        while pos < end and attempts < 4:
            if FAILFAST and any(not any(fnmatch.fnmatchcase(v['key'], k) for k, _ in load_known(self.prop)) for v in list(self.violations)):
                return
            attempts += 1
            rc, text, res, case, out, argv = self.run_proc(exe, unit['variant'], scenario, pos, end - pos)
            self.merge(res, out, scenario)
            key = None
            if rc == 0:
                if not res:
                    raise CheckError('%s ended without results: %s' % (scenario, text[-2000:]))
                return
            if rc == 3 and res:
                for v in res['violations']:
                    detail = v['detail']
                    if v['key'] == 'leak':
                        key = sanitizer_key(text)
                        frames = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*stingray[^\n]*|vh_sc_[^\n]*)', text)
                        v['key'] = 'leak:' + (re.sub(r'[<(].*', '', frames[0]) if frames else '?')
                    self.add(v['key'], detail, argv, v['case'], text, scenario)
                return
            if rc == 77 or rc == 'timeout':
                # a process without progress: run the case alone once more before calling it a hang
                rc2, text2, res2, case2, out2, argv2 = self.run_proc(exe, unit['variant'], scenario, pos, end - pos, only=case, timeout=300)
                if rc2 == 77:
                    self.add('hang:' + scenario, 'the case made no progress for 60 s, twice: ' + text2[-1500:], argv2, case2, text2, scenario)
                elif rc2 == 0:
                    with self.lock:
                        self.inconclusive.append('%s case %s: hung once, not on repetition' % (scenario, case))
                elif rc2 == 3 and res2:
                    for v in res2['violations']:
                        self.add(v['key'], v['detail'], argv2, v['case'], text2, scenario)
                else:
                    k = sanitizer_key(text2) or 'crash:%s:%s' % (scenario, rc2)
                    self.add(k, text2[-3000:], argv2, case2, text2, scenario)
                if rc == 'timeout' and rc2 == 0:
                    return
                pos = (case if case is not None else end) + 1
                continue
            key = sanitizer_key(text)
            if key is None:
                if isinstance(rc, int) and rc in (70,):
                    raise CheckError('harness error in %s: %s' % (scenario, text[-2000:]))
                if rc == -9:
                    with self.lock:
                        self.inconclusive.append('%s case %s: killed (out of memory?)' % (scenario, case))
                    return
                key = 'crash:%s:%s' % (scenario, 'exit%s' % rc if rc >= 0 else 'signal%d' % -rc)
                term = re.search(r"terminate called[^\n]*(?:\n  what\(\):[^\n]*)?", text)
                if term:
                    key = 'terminate:%s' % scenario
            self.add(key, text[-3000:] if 'ERROR:' not in text else text[text.index('ERROR:'):][:3000], argv, case, text, scenario)
            pos = (case if case is not None and case != 999999999 else end) + 1

    def merge(self, res, out, scenario):
        if not res:
            return
        with self.lock:
            self.evals += res['evaluations']
            sc = self.per_scenario.setdefault(scenario, {'evaluations': 0, 'cases': 0})
            sc['evaluations'] += res['evaluations']
            for k, (v, is_max) in res['counters'].items():
                if k == 'cases':
                    sc['cases'] += v
                if is_max:
                    self.maxima[k] = max(self.maxima.get(k, 0), v)
                else:
                    self.counters[k] = self.counters.get(k, 0) + v
            for s in res['samples']:
                if len([x for x in self.samples if x['scenario'] == scenario]) < 1 and len(self.samples) < 12:
                    self.samples.append({'scenario': scenario, 'case': s})
            for k in res['distinct']:
                p = '%s.h.%s' % (out, k)
                if os.path.exists(p):
                    a = array.array('Q')
                    with open(p, 'rb') as f:
                        a.frombytes(f.read())
                    self.distinct.setdefault(k, set()).update(a)
                    os.unlink(p)


def load_known(prop):
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r'KNOWN property=(\w+) key=(\S+) \| (.*)', line.strip())
                if m and m.group(1) == prop:
                    known.append((m.group(2), m.group(3)))
    return known


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            d = json.loads(f.read().split('\n', 1)[0])
        r = Runner(d['property'], d['tier'], d['seed'])
        exe = build([d['unit']], [])[(d['unit']['harness'], d['unit']['variant'])]
        res = r.run_proc(exe, d['unit']['variant'], d['scenario'], d['start'], d['cases'], only=d.get('case'))
        print(res[1])
        print('exit', res[0])
        shutil.rmtree(r.tmp, ignore_errors=True)
        return 0 if res[0] == 0 else 1

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only_sc = os.environ.get('VERIF_ONLY')
    t0 = time.time()
    cfg = checks.CHECKS[prop]
    log = []
    r = Runner(prop, tier, seed)
    try:
        exes = build(cfg['units'], log)
        t1 = time.time()
        jobs = []
        for u in cfg['units']:
            exe = exes[(u['harness'], u['variant'])]
            for name, spec in u['scenarios'].items():
                if only_sc and not fnmatch.fnmatch(name, only_sc):
                    continue
                quick, thorough = spec[0], spec[1]
                cases = quick if tier == 'quick' else thorough
                cases = int(cases * float(os.environ.get('VERIF_SCALE', '1')))
                shards = spec[2] if len(spec) > 2 else (8 if cases >= 64 else 1)
                if tier == 'thorough':
                    shards = max(shards, 8) if cases >= 64 else shards
                step = max(1, (cases + shards - 1) // shards)
                for s in range(0, cases, step):
                    jobs.append((u, exe, name, s, min(step, cases - s)))
        # interleave scenarios so that long ones do not end up last together
        if '--build' in sys.argv:
            return 0
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(r.shard, jobs))
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        shutil.rmtree(r.tmp, ignore_errors=True)
        return 2
    t2 = time.time()
    known = load_known(prop)
    seen = {}
    for v in r.violations:
        seen.setdefault(v['key'], v)
    fresh = []
    hits = set()
    for key, v in sorted(seen.items()):
        k = next((p for p, _ in known if fnmatch.fnmatchcase(key, p)), None)
        if k is None:
            fresh.append(v)
        else:
            hits.add(k)
    for p, text in known:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, text, '' if p in hits else ' (not reached in this run)'))
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    for i, v in enumerate(fresh):
        a = v['argv']
        unit = next(u for u in cfg['units'] if v['scenario'] in u['scenarios'])
        rp = os.path.join(OUT, 'replays', '%s-%d.txt' % (prop, i))
        start, cases = int(a[a.index('--start') + 1]), int(a[a.index('--cases') + 1])
        with open(rp, 'w') as f:
            f.write(json.dumps(dict(property=prop, tier=tier, seed=seed, unit=dict(harness=unit['harness'], variant=unit['variant']), scenario=v['scenario'],
                                    start=start, cases=cases, case=v['case'] if v['case'] != 999999999 else None)) + '\n')
            f.write('# replay with: python3 run.py --replay %s\nkey: %s\ndetail: %s\n\nlog:\n%s\n' % (rp, v['key'], v['detail'], v['text'][-20000:]))
        print('  %s: %s' % (v['key'], ' '.join(v['detail'].split())[:700]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    for x in r.inconclusive:
        print('INCONCLUSIVE ' + x)
    distinct = {k: len(s) for k, s in r.distinct.items()}
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=r.evals, distinct_nontrivial=sum(n for k, n in distinct.items() if k not in ('traces', 'states')), rule=cfg['rule'], samples=r.samples or ['none'],
                            distinct_by_class=distinct, events=r.counters, maxima=r.maxima, scenarios=r.per_scenario,
                            sanitizers=sorted(set(u['variant'] for u in cfg['units'])), known_findings_reached=len(hits), inconclusive=r.inconclusive, build_notes=log),
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(r.tmp, ignore_errors=True)
    if r.evals == 0 or not r.per_scenario:
        print('CHECK-ERROR property=%s nothing was evaluated' % prop)
        return 2 if not fresh else 1
    print('property %s %s: %s; %d evaluations, distinct %s, %d scenario(s), build %.1fs run %.1fs' %
          (prop, tier, 'VIOLATED' if fresh else 'held on everything observed', r.evals, distinct, len(r.per_scenario), t1 - t0, t2 - t1))
    return 1 if fresh else 0


if __name__ == '__main__':
    sys.exit(main())
