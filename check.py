#!/usr/bin/env python3
"""Driver of the monitors:  check.py <property id> [--thorough]

Builds the monitors of one property together with the sources in /repo's working tree, runs them,
collects what they and the sanitizers report, writes evidence/<id>.json and decides:
  exit 0  no violation that known_findings.txt does not list
  exit 1  "VIOLATION property=<id> replay=<path>"
  exit 2  no answer (build or harness failure, nothing observed)
check.py --replay <path> runs again what a replay file describes.
"""
import concurrent.futures as cf
import fnmatch, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
from checks import CHECKS, RULES  # noqa: E402

FLAVORS = {
    # name: (compiler, flags)
    'plain': ('g++', '-O2'),
    'asan': ('clang++', '-O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr '
             '-fno-sanitize-recover=all'),
    'tsan': ('clang++', '-O1 -fno-omit-frame-pointer -fsanitize=thread'),
    'clang': ('clang++', '-O1'),
}


def flavor_flags(flavor):
    """flavor: base[-noise][-notls][-dbg]"""
    parts = flavor.split('-')
    cc, flags = FLAVORS[parts[0]]
    flags = flags.split()
    defs = ['-DLEARNLOG_USE_BUNDLED_FMT']
    cov = []
    if 'notls' not in parts:
        defs.append('-DLEARNLOG_USE_TLS')
    if 'dbg' not in parts:
        defs.append('-DNDEBUG')
    if 'noise' in parts:
        cov = ['-fsanitize-coverage=trace-pc-guard']
        cc = 'clang++'
    return cc, flags, defs, cov


def repo_sources():
    pats = ['base/fmt/*.cc', 'base/*.cpp', 'sinks/*.cpp', 'sinks/formatters/*.cpp', 'src/*.cpp']
    r = []
    for p in pats:
        r += sorted(glob.glob(os.path.join(REPO, p)))
    return r


def tree_hash():
    h = hashlib.sha256()
    for d in ('base', 'sinks', 'src', 'include'):
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.cpp', '.cc', '.inl')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'CMakeLists.txt'), 'rb').read())
    return h.hexdigest()


def gen_version():
    """version.h is generated by cmake; provide it in case the tree was never configured."""
    text = open(os.path.join(REPO, 'CMakeLists.txt'), encoding='utf-8').read()
    m = re.search(r'project\(\s*learnlog[^)]*VERSION\s+(\d+)\.(\d+)\.(\d+)', text)
    v = m.groups() if m else ('0', '0', '0')
    tmpl = os.path.join(REPO, 'cmake/version.h.in')
    out = open(tmpl, encoding='utf-8').read() if os.path.exists(tmpl) else '#pragma once\n'
    for name, val in zip(('MAJOR', 'MINOR', 'PATCH'), v):
        out = re.sub(r'@[A-Za-z_]*VERSION_%s@|\$\{[A-Za-z_]*VERSION_%s\}' % (name, name), val, out)
    d = os.path.join(BUILD, 'gen')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'version.h')
    if not os.path.exists(p) or open(p).read() != out:
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(out)
        os.replace(tmp, p)
    return d


def tsan_overlay():
    """ThreadSanitizer does not know std::atomic_thread_fence(), on which the bundled queue relies. For the
    TSan builds the compiler sees that one file with relaxed accesses made sequentially consistent (which is
    what they amount to next to a fence); everything else is compiled as it is."""
    d = os.path.join(BUILD, 'gen')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, 'base/concurrentqueue/concurrentqueue.h')
    text = open(src, encoding='utf-8', errors='surrogateescape').read().replace('memory_order_relaxed', 'memory_order_seq_cst')
    k = hashlib.sha256((src + text).encode('utf-8', 'surrogateescape')).hexdigest()[:12]
    cq, ov = os.path.join(d, 'cq-%s.h' % k), os.path.join(d, 'tsan-%s.yaml' % k)
    y = json.dumps({'version': 0, 'use-external-names': False, 'roots': [
        {'name': os.path.dirname(src), 'type': 'directory', 'contents': [
            {'name': os.path.basename(src), 'type': 'file', 'external-contents': cq}]}]})
    for p, t in ((cq, text), (ov, y)):
        if not os.path.exists(p):
            tmp = p + '.%d' % os.getpid()
            open(tmp, 'w', encoding='utf-8', errors='surrogateescape').write(t)
            os.replace(tmp, p)
    return ['-ivfsoverlay', ov]


class BuildError(Exception):
    pass


def compile_one(cc, flags, src, key):
    obj = os.path.join(BUILD, 'obj', key[:2], key + '.o')
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.o' % os.getpid()
    cmd = [cc] + flags + ['-c', src, '-o', tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('compiling %s failed:\n%s\n%s' % (src, ' '.join(cmd), p.stdout[-6000:]))
    os.replace(tmp, obj)
    return obj


def build(targets):
    """targets: set of (harness source, flavor). returns {(src, flavor): exe}"""
    gen = gen_version()
    th = tree_hash()
    hh = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness/*.h'))):
        hh.update(open(f, 'rb').read())
    hh = hh.hexdigest()
    inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'include'), '-I' + gen, '-I' + os.path.join(VERIF, 'harness')]
    jobs = {}
    plan = {}

    def job(cc, flags, src, extra=''):
        k = hashlib.sha256('\0'.join([cc, ' '.join(flags), src, th, extra]).encode()
                           + open(src, 'rb').read()).hexdigest()
        jobs[k] = (cc, flags, src, k)
        return k

    for src, flavor in sorted(targets):
        cc, flags, defs, cov = flavor_flags(flavor)
        warn = ['-w', '-pthread', '-g1']
        if flavor.startswith('tsan'):
            warn += tsan_overlay()
            defs = defs + ['-DVF_TSAN']
        keys = []
        for s in repo_sources():
            keys.append(job(cc, ['-std=gnu++11'] + warn + flags + defs + cov + inc, s))
        hs = os.path.join(VERIF, 'harness', src)
        keys.append(job(cc, ['-std=gnu++17'] + warn + flags + defs + cov + inc, hs, hh))
        if cov:
            keys.append(job(cc, ['-std=gnu++17'] + warn + flags, os.path.join(VERIF, 'harness/noise.cpp'), hh))
        plan[(src, flavor)] = (cc, flags, keys)
    # longest first
    order = sorted(jobs.values(), key=lambda j: (0 if 'harness' in j[2] and 'noise.cpp' not in j[2] else
                                                 1 if j[2].endswith('format.cc') else
                                                 2 if 'pattern_formatter' in j[2] else 3))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = [ex.submit(compile_one, *j) for j in order]
        done = {j[3]: f for j, f in zip(order, futs)}
        exes = {}
        for (src, flavor), (cc, flags, keys) in plan.items():
            objs = [done[k].result() for k in keys]
            k = hashlib.sha256('\0'.join(objs + [flavor]).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, 'bin', '%s-%s-%s' % (os.path.splitext(src)[0], flavor, k))
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                tmp = exe + '.%d' % os.getpid()
                cmd = [cc] + flags + objs + ['-pthread', '-ldl', '-lutil', '-o', tmp]
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    raise BuildError('linking %s failed:\n%s' % (exe, p.stdout[-6000:]))
                os.replace(tmp, exe)
            exes[(src, flavor)] = exe
    return exes


def classify_report(text):
    """stable key of one sanitizer report: kind and the innermost frame inside the repository"""
    m = re.search(r'(AddressSanitizer|LeakSanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer)[:\s]*([^\n(]*)', text)
    kind = (m.group(1) + ':' + m.group(2).strip()) if m else 'sanitizer'
    m = re.search(r'runtime error: ([^\n]*)', text)
    if m:
        kind = 'UBSan:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:80]
    kind = re.sub(r'0x[0-9a-f]+', '', kind)
    kind = re.sub(r' on (unknown )?address.*', '', kind)
    frames = re.findall(r'#\d+ (?:0x[0-9a-f]+ in )?(.*?) (%s/[^\s:]+)' % re.escape(REPO), text)
    fr = ''
    if frames:
        fr = frames[0][0].split('(')[0] + '@' + os.path.relpath(frames[0][1], REPO)
    return re.sub(r'[\s]+', '_', kind)[:100] + '/' + fr[:120]


class Result:
    def __init__(self):
        self.viol = []      # (key, label, detail)
        self.stats = {}
        self.maxs = {}
        self.samples = []
        self.dist = set()
        self.end = False
        self.hang = None
        self.rc = None
        self.reports = []
        self.errtail = ''
        self.timeout = False
        self.wall = 0


def run_one(exe, run, seed, tier):
    r = Result()
    tmp = tempfile.mkdtemp(prefix='vf-')
    out = os.path.join(tmp, 'out.txt')
    scratch = os.path.join(tmp, 's')
    log = os.path.join(tmp, 'san')
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': tmp, 'LANG': 'C.UTF-8',
           'VERIF_SEED': str(seed), 'VERIF_TIER': tier, 'VF_OUT': out, 'VF_TMP': scratch,
           'VF_REPO': REPO,
           'ASAN_OPTIONS': 'detect_leaks=%d:exitcode=98:log_path=%s:detect_stack_use_after_return=1:'
                           'handle_abort=0:allocator_may_return_null=1' % (1 if run.get('leaks', True) else 0, log),
           'LSAN_OPTIONS': 'log_path=%s:exitcode=98:report_objects=0' % log,
           'UBSAN_OPTIONS': 'print_stacktrace=1:log_path=%s:exitcode=98' % log,
           'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:log_path=%s:history_size=4:suppressions=%s:second_deadlock_stack=1:report_thread_leaks=0'
                           % (log, os.path.join(VERIF, 'harness/tsan.supp'))}
    env.update(run.get('env', {}))
    args = ['%s=%s' % kv for kv in sorted(run.get('args', {}).items())]
    cmd = list(run.get('wrap', [])) + [exe, run['mode']] + args
    t0 = time.time()
    errf = open(os.path.join(tmp, 'stderr.txt'), 'wb')
    inp = subprocess.DEVNULL
    p = subprocess.Popen(cmd, cwd=tmp, env=env, stdin=inp, stdout=errf, stderr=errf, start_new_session=True)
    try:
        p.wait(run.get('timeout', 600 if tier == 'thorough' else 240))
    except subprocess.TimeoutExpired:
        r.timeout = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    errf.close()
    r.rc = p.returncode
    r.wall = time.time() - t0
    r.errtail = open(os.path.join(tmp, 'stderr.txt'), 'rb').read()[-3000:].decode('utf-8', 'replace')
    if os.path.exists(out):
        for line in open(out, encoding='utf-8', errors='replace'):
            f = line.rstrip('\n').split('\t')
            if f[0] == 'VIOL' and len(f) >= 4:
                r.viol.append((f[1], f[2], f[3]))
            elif f[0] == 'STAT':
                r.stats[f[1]] = r.stats.get(f[1], 0) + int(f[2])
            elif f[0] == 'MAX':
                r.maxs[f[1]] = max(r.maxs.get(f[1], 0), int(f[2]))
            elif f[0] == 'SAMPLE':
                r.samples.append(f[1])
            elif f[0] == 'DIST':
                r.dist.update(f[1].split())
            elif f[0] == 'HANG':
                r.hang = f[1]
            elif f[0] == 'END':
                r.end = True
    for lf in sorted(glob.glob(log + '*')):
        text = open(lf, errors='replace').read()
        if 'Sanitizer' in text or 'runtime error' in text:
            blocks = re.split(r'(?m)^=+$', text) if 'ThreadSanitizer' in text else [text]
            for b in blocks:
                if 'ThreadSanitizer' in b and 'WARNING:' not in b and 'ERROR:' not in b:
                    continue
                if 'Sanitizer' in b or 'runtime error' in b:
                    r.reports.append(b)
    # valgrind writes its errors to stderr
    if run.get('wrap') and run['wrap'][0].endswith('valgrind') and r.rc == 99:
        r.reports.append('valgrind: ' + r.errtail)
    shutil.rmtree(tmp, ignore_errors=True)
    return r


def verdicts(prop, run, r):
    """list of (key, detail); raises nothing. second item of the return: error text or None"""
    v = [(k, '%s: %s' % (lab, d)) for k, lab, d in r.viol]
    if run.get('only_sanitizers'):
        # another property's workload, here only for what the sanitizers see
        v = []
    for b in r.reports:
        if 'ptrace' in b and 'LeakSanitizer has encountered a fatal error' in b:
            return v, 'LeakSanitizer cannot run here'
        v.append(('san:' + classify_report(b), b[:4000]))
    if v:
        return v, None
    if r.hang is not None:
        return [], 'hang:' + r.hang
    if r.timeout:
        return [], 'timeout'
    if r.rc is not None and r.rc < 0:
        s = signal.Signals(-r.rc).name
        if s == 'SIGKILL':
            return [], 'killed'
        return [('crash:%s' % s, 'the process died of %s\n%s' % (s, r.errtail))], None
    if not r.end:
        # the code under test ended the process (exit, terminate with a handler, ...)
        if r.rc == 3:
            return [], 'harness error: ' + r.errtail
        return [('exit:%s' % r.rc, 'the process ended early with status %s\n%s' % (r.rc, r.errtail))], None
    if r.rc not in (0, 66, 98):
        return [('exit:%s' % r.rc, 'exit status %s after the run\n%s' % (r.rc, r.errtail))], None
    return [], None


def known_findings():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                r.append(m.groups())
    return r


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        run = rp['run']
        exes = build({(run['src'], run['flavor'])})
        r = run_one(exes[(run['src'], run['flavor'])], run, rp['seed'], rp['tier'])
        v, err = verdicts(rp['property'], run, r)
        for k, d in v:
            print('%s\n  %s' % (k, d))
        print('error: %s' % err if err else '%d violations' % len(v))
        return 1 if v else (2 if err else 0)

    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    chk = CHECKS[prop]
    t0 = time.time()
    runs = []
    for run in chk['runs']:
        if run['flavor'] not in os.environ.get('VF_ONLY', run['flavor']).split(','):     # while developing
            continue
        if tier not in run.get('tiers', ('quick', 'thorough')):
            continue
        run = dict(run)
        run.setdefault('src', chk['src'])
        if tier == 'thorough' and 'thorough_args' in run:
            run['args'] = dict(run.get('args', {}), **run['thorough_args'])
        rep = run.get('repeat_thorough', 1) if tier == 'thorough' else run.get('repeat', 1)
        for i in range(rep):
            rr = dict(run)
            rr['args'] = dict(run.get('args', {}))
            rr['seed_off'] = i * 7919 + len(runs) * 104729
            runs.append(rr)
    try:
        exes = build({(r['src'], r['flavor']) for r in runs})
    except BuildError as e:
        print('ERROR property=%s build: %s' % (prop, e))
        return 2
    t_build = time.time() - t0
    known = [k for k in known_findings() if k[0] == prop]
    cap = chk.get('parallel', 4)
    results = [None] * len(runs)
    viol = []
    errors = []
    stop = [False]

    def go(i):
        if stop[0]:
            return
        run = runs[i]
        r = run_one(exes[(run['src'], run['flavor'])], run, seed + run['seed_off'], tier)
        v, err = verdicts(prop, run, r)
        if err and not v and not stop[0]:
            # hangs and timeouts are inconclusive: once more
            r2 = run_one(exes[(run['src'], run['flavor'])], run, seed + run['seed_off'], tier)
            v2, err2 = verdicts(prop, run, r2)
            if v2:
                r, v, err = r2, v2, None
            elif err2 is None:
                r, v, err = r2, [], None
            elif run['flavor'].startswith('tsan'):
                # TSan's own atomics can starve threads; the other builds run the same workload
                r, v, err = r2, [], None
                r.stats['tsan_runs_stalled'] = r.stats.get('tsan_runs_stalled', 0) + 1
            elif err.startswith('hang:') and err2.startswith('hang:'):
                v, err = [(err2, 'no progress, twice, at %s' % err2)], None
            else:
                err = err2
        results[i] = r
        fresh = [(k, d) for k, d in v
                 if not any(fnmatch.fnmatchcase(k, kk) for _, kk, _ in known)]
        for k, d in v:
            viol.append((k, d, i))
        if err:
            errors.append('%s %s: %s' % (run['flavor'], run['mode'], err))
        if fresh and tier == 'quick':
            stop[0] = True

    with cf.ThreadPoolExecutor(cap) as ex:
        list(ex.map(go, range(len(runs))))

    # evidence
    stats, maxs, samples, dist = {}, {}, [], set()
    nexec = 0
    for run, r in zip(runs, results):
        if r is None:
            continue
        nexec += 1
        for k, n in r.stats.items():
            stats[k] = stats.get(k, 0) + n
        for k, n in r.maxs.items():
            maxs[k] = max(maxs.get(k, 0), n)
        samples += ['%s/%s: %s' % (run['flavor'], run['mode'], s) for s in r.samples[:2]]
        dist |= r.dist
    reported = {}
    new = []
    for k, d, i in viol:
        kf = [x for x in known if fnmatch.fnmatchcase(k, x[1])]
        if kf:
            reported[kf[0][1]] = kf[0][2]
        else:
            new.append((k, d, i))
    cov = {'evaluations': stats.pop('evaluations', 0), 'distinct_nontrivial': len(dist),
           'rule': RULES[prop], 'samples': samples[:12] or ['(none)'],
           'executions': nexec, 'observed': stats, 'maxima': maxs,
           'builds': sorted({r['flavor'] for r in runs}), 'build_s': round(t_build, 1)}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': chk.get('level', 'exploration'), 'coverage': cov,
          'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, ensure_ascii=False)

    for k, what in sorted(reported.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if new:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        first = None
        for n, (k, d, i) in enumerate(new):
            if k in seen:
                continue
            seen.add(k)
            run = runs[i]
            path = os.path.join(rd, '%s-%d-%d.json' % (prop, seed, len(seen)))
            json.dump({'property': prop, 'key': k, 'detail': d, 'seed': seed + run['seed_off'], 'tier': tier,
                       'run': run}, open(path, 'w'), indent=1, ensure_ascii=False)
            first = first or path
            print('  %s [%s %s]\n    %s' % (k, run['flavor'], run['mode'], d[:1500].replace('\n', '\n    ')))
            if len(seen) >= 5:
                break
        print('VIOLATION property=%s replay=%s' % (prop, first))
        return 1
    if errors:
        print('ERROR property=%s %s' % (prop, '; '.join(errors)))
        return 2
    # what a quiet machine reaches easily; a busy one is allowed an eighth of it
    short = [(k, n, stats.get(k, maxs.get(k, 0))) for k, n in chk.get('expect', {}).items()
             if stats.get(k, maxs.get(k, 0)) < max(1, n // 8)]
    if cov['evaluations'] == 0 or short:
        print('ERROR property=%s too little was observed: %s' % (prop, short or 'no evaluations'))
        return 2
    print('OK property=%s %s: %d evaluations, %d distinct, %d executions, %.1f s (build %.1f s)' % (
        prop, tier, cov['evaluations'], len(dist), nexec, ev['wall_s'], t_build))
    return 0


if __name__ == '__main__':
    sys.exit(main())
