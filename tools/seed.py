#!/usr/bin/env python3
"""Development tool (used by no check): plants the bugs of tools/seeds.py in a scratch copy of /repo, confirms
that each compiles, passes the stable tests, changes original lines and is shown by its demonstration, writes
/verif/seeded/<id>/ and runs the check of its property against the copy.

    seed.py [ID...]        plant (all when none is given)
    seed.py --check ID...  only rerun the checks on bugs already planted
"""
import sys, os, subprocess, shutil, json, glob
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SEEDED = os.path.join(ROOT, 'seeded')
S = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# Run in the repository: exit 0 when the behaviour is right, nonzero when it is broken.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
g++ -std=c++20 -fsigned-char -DSIMU_OS_LINUX -O1 -w %s -I include "$H/demo.cpp" %s -o "$D/demo" || exit 3
timeout 60 "$D/demo"
'''
APP_FLAGS = '-I "$H/app" -I "$H/app/stubs" -I demos'
APP_SRC = 'src/Simu/app/*.cpp'
SRC = 'src/Simu/math/*.cpp src/Simu/physics/*.cpp'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def fresh():
    if not os.path.isdir(S):
        sh('cp -a /repo %s && rm -rf %s/_build && sed s#/repo#%s#g /opt/vp/build.sh > /tmp/seed_build.sh' % (S, S, S))
        r = sh('bash /tmp/seed_build.sh')
        assert r.returncode == 0, r.stderr[-2000:] + r.stdout[-2000:]
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq' % (S, S, S))


def base_lines(f):
    out = sh('git -C %s blame -s -l --root HEAD -- %s' % (S, f)).stdout.splitlines()
    root = sh('git -C %s rev-list --max-parents=0 HEAD' % S).stdout.strip()
    return [l.startswith(root[:30]) or l[1:].startswith(root[:30]) for l in out]


def plant(b):
    d = os.path.join(SEEDED, b['id'])
    fresh()
    touched = False
    for f, old, new in b['edits']:
        p = os.path.join(S, f)
        t = open(p).read()
        if t.count(old) != 1:
            return 'BAD: %d matches for %r' % (t.count(old), old)
        first = t[:t.index(old)].count('\n')
        flags = base_lines(f)[first:first + old.count('\n') + 1]
        touched = touched or any(flags)
        open(p, 'w').write(t.replace(old, new))
    if not touched:
        return 'BAD: only touches lines of later commits'
    patch = sh('git -C %s diff' % S).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    open(os.path.join(d, 'demo.cpp'), 'w').write(b['demo'])
    if b.get('app'):
        H = os.path.join(ROOT, 'harness')
        os.makedirs(os.path.join(d, 'app'), exist_ok=True)
        for f in ('mc.hpp', 'app_env.hpp', 'app_scene.hpp', 'glsl.hpp'):
            shutil.copy(os.path.join(H, f), os.path.join(d, 'app', f))
        shutil.copytree(os.path.join(H, 'stubs'), os.path.join(d, 'app', 'stubs'), dirs_exist_ok=True)
        b['flags'] = APP_FLAGS
        b['src'] = APP_SRC + ' ' + b.get('src', SRC)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (b.get('flags', ''), b.get('src', SRC)))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh('bash /tmp/seed_build.sh')
    if r.returncode:
        return 'BAD: does not compile\n' + r.stdout[-1500:]
    sh('rm -rf %s/_build/vp-reports && mkdir -p %s/_build/vp-reports && cd %s/_build && python3 /opt/vp/run_catch.py %s/_build/simu-test %s/_build/vp-reports; python3 /opt/vp/results.py /tmp/seed_out.json "junit:%s/_build/vp-reports/*.xml" "lines:%s/_build/vp-reports/crashed.txt"' % ((S,) * 7))
    got = set(json.load(open('/tmp/seed_out.json'))['passed'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'])
    if want - got:
        return 'BAD: fails tests %s' % sorted(want - got)[:4]
    r = sh('cd %s && bash %s/demo.sh' % (S, d))
    if r.returncode == 0:
        return 'BAD: the demonstration passes with the change: ' + r.stdout[-300:]
    if r.returncode == 3:
        return 'BAD: the demonstration does not compile: ' + r.stderr[:1500]
    r2 = sh('cd /repo && bash %s/demo.sh' % d)
    if r2.returncode:
        return 'BAD: the demonstration fails without the change (%d): %s' % (r2.returncode, r2.stdout[-500:] + r2.stderr[-500:])
    return 'demo %d %s' % (r.returncode, r.stdout.strip()[-120:])


def check(bid):
    d = os.path.join(SEEDED, bid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    fresh()
    r = sh('git -C %s apply %s/patch.diff' % (S, d))
    if r.returncode:
        return 'PATCH DOES NOT APPLY ' + r.stderr
    r = sh('SIMU_REPO=%s python3 %s/check.py %s' % (S, ROOT, prop))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'key' in l]
    return '%s rc=%d %s' % ('CAUGHT' if r.returncode == 1 else 'MISSED', r.returncode, '; '.join(v)[:300])


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--check' in sys.argv:
        for i in args or sorted(os.listdir(SEEDED)):
            print(i, check(i), flush=True)
        sys.exit()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from seeds import BUGS
    import seeds2, seeds3, seeds4, seeds5
    for b in BUGS:
        if args and b['id'] not in args:
            continue
        if not args and os.path.isdir(os.path.join(SEEDED, b['id'])):
            continue
        r = plant(b)
        print(b['id'], r, flush=True)
        if r.startswith('BAD'):
            shutil.rmtree(os.path.join(SEEDED, b['id']), ignore_errors=True)
        else:
            print(b['id'], check(b['id']), flush=True)
