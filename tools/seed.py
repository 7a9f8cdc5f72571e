#!/usr/bin/env python3
"""Planted bugs:  seed.py add <spec.py> | verify [id ...] | check [id ...]

add     makes seeded/<id>/ from a spec (dict of edits, demo source, texts) after confirming in scratch copies that the
        change compiles, passes the stable tests, and that the demo passes without and fails with it
verify  confirms the same again for the committed ones
check   runs the check of the bug's property (and others named with +) on a scratch copy with the bug
Scratch copies: /tmp/w/s0 (clean), /tmp/w/s1 (changed).
"""
import json, os, re, subprocess, sys, shutil

V = '/verif/seeded'
S0, S1 = '/tmp/w/s0', '/tmp/w/s1'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout


def scratch(d):
    head = sh('git rev-parse HEAD', '/repo')[1].strip()
    if os.path.isdir(d) and sh('git rev-parse HEAD', d)[1].strip() != head:
        shutil.rmtree(d)
    if not os.path.isdir(d):
        os.makedirs('/tmp/w', exist_ok=True)
        rc, o = sh('git clone -q /repo %s' % d)
        assert rc == 0, o
        t = open('/opt/vp/build.sh').read().replace('/repo', d)
        open(d + '.build.sh', 'w').write(t)
        t = open('/opt/vp/test.sh').read().replace('/repo', d).replace('bash /opt/vp/build.sh', 'bash %s.build.sh' % d)
        open(d + '.test.sh', 'w').write(t)
        rc, o = sh('bash %s.build.sh' % d)
        assert rc == 0, o[-3000:]


def clean1():
    sh('git checkout -q -- . && git clean -fdq', S1)


def tests():
    rc, o = sh('bash %s.test.sh /tmp/w/o1.json' % S1)
    r = json.load(open('/tmp/w/o1.json'))
    missing = BASE - set(r['passed'])
    return missing, o


def demo(bid, d):
    try:
        return sh('bash %s/%s/demo.sh' % (V, bid), d, 300)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def confirm(bid):
    clean1()
    rc, o = sh('git apply %s/%s/patch.diff' % (V, bid), S1)
    if rc:
        return 'patch does not apply: ' + o
    rc, o = sh('bash %s.build.sh' % S1)
    if rc:
        return 'does not build: ' + o[-3000:]
    for i in range(2):
        missing, o = tests()
        if missing:
            return 'tests fail: %s' % sorted(missing)[:5]
    for i in range(2):
        rc, o = demo(bid, S0)
        if rc:
            return 'demo fails on the clean tree: %d %s' % (rc, o[-2000:])
        rc, o = demo(bid, S1)
        if rc == 0:
            return 'demo passes with the bug: %s' % o[-2000:]
    return None


DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -g -w -DLEARNLOG_USE_TLS -DLEARNLOG_USE_BUNDLED_FMT -I. -Iinclude -I_build "$d/demo.cpp" \\
  _build/liblearnlog.a _build/sinks/liblearnlog_sinks.a _build/base/liblearnlog_base.a -pthread -lutil -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''


def add(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        bid = b['id']
        if len(sys.argv) > 3 and bid not in sys.argv[3:]:
            continue
        clean1()
        bad = None
        for f, old, new in b['edits']:
            p = os.path.join(S1, f)
            t = open(p, encoding='utf-8', newline='').read()
            crlf = '\r\n' in t
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) < 1 or (t.count(old) > 1 and not b.get('all')):
                bad = '%s: found %d times: %s' % (f, t.count(old), old[:60])
                break
            open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
        if bad:
            print(bid, 'BAD', bad)
            continue
        d = os.path.join(V, bid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        rc, o = sh('git diff --binary', S1)
        open(d + '/patch.diff', 'w', newline='').write(subprocess.run(['git', 'diff', '--binary'], cwd=S1, stdout=subprocess.PIPE).stdout.decode('utf-8', 'surrogateescape'))
        for n, t in b.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
        if 'demo' in b:
            open(d + '/demo.cpp', 'w').write(ns.get('PRE', '') + b['demo'])
        open(d + '/demo.sh', 'w').write(b.get('sh', DEMO))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        e = confirm(bid)
        print(bid, 'OK' if e is None else 'BAD ' + e, flush=True)
        if e is not None:
            os.makedirs('/tmp/w/bad', exist_ok=True)
            shutil.rmtree('/tmp/w/bad/' + bid, ignore_errors=True)
            shutil.move(d, '/tmp/w/bad/' + bid)
    clean1()


def main():
    cmd = sys.argv[1]
    if cmd in ('add', 'verify'):
        scratch(S0)
        scratch(S1)
    if cmd == 'add':
        add(sys.argv[2])
        return
    ids = [a for a in sys.argv[2:] if not a.startswith('+')] or sorted(os.listdir(V))
    extra = [a[1:] for a in sys.argv[2:] if a.startswith('+')]
    for bid in ids:
        if cmd == 'verify':
            e = confirm(bid)
            print(bid, 'OK' if e is None else 'BAD ' + e, flush=True)
        elif cmd == 'check':
            d = '/tmp/w/c-' + bid
            shutil.rmtree(d, ignore_errors=True)
            sh('git clone -q /repo ' + d)
            rc, o = sh('git apply %s/%s/patch.diff' % (V, bid), d)
            assert rc == 0, o
            prop = json.load(open('%s/%s/meta.json' % (V, bid)))['property']
            for p in [prop] + extra:
                rc, o = sh('VF_REPO=%s VERIF_SEED=%s python3 check.py %s' % (d, os.environ.get('VERIF_SEED', '1'), p), '/verif')
                keys = re.findall(r'^  (\S+) \[', o, re.M)
                print(bid, p, {0: 'MISSED', 1: 'caught'}.get(rc, 'no answer'), ' '.join(keys[:3]) if rc == 1 else o[-300:].strip(), flush=True)
            shutil.rmtree(d)


main()
