#!/usr/bin/env python3
"""Runs the model checker of one property against /repo's working tree.

    check.py C01              quick tier
    check.py C01 --thorough   thorough tier
    check.py C01 --replay scenario:1,0,2   replays one choice sequence, verbosely
    check.py --setup          builds nothing but checks the tools

Exit 0: held on everything explored. Exit 1 with VIOLATION: broken. Exit 2: no answer.
"""
import sys, os, subprocess, json, time, hashlib, mmap, struct, shutil, concurrent.futures, re

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIMU_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
HARNESS = os.path.join(ROOT, 'harness')
EVID = os.path.join(ROOT, 'evidence')

sys.path.insert(0, ROOT)
from checks import CHECKS, LIB_SOURCES, COMMON_ASSUMPTIONS

NSHARDS = int(os.environ.get('MC_SHARDS', '8'))
CASE_HANG = float(os.environ.get('MC_CASE_HANG', '25'))     # no new case for this long: suspected hang
CASE_HANG_ALONE = 120.0                                      # a suspected hang alone must exceed this

SAN_ENV = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99')


def flags(spec):
    f = ['-std=c++20', '-fsigned-char', '-DSIMU_OS_LINUX', '-g1', '-w', '-I', os.path.join(REPO, 'include'),
         '-I', HARNESS]
    for d in spec.get('includes', []):
        f += ['-I', os.path.join(HARNESS, d)]
    for d in spec.get('repo_includes', []):
        f += ['-I', os.path.join(REPO, d)]
    if spec.get('build') == 'san':
        f += ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all',
              '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
    else:
        f += ['-O2', '-D_GLIBCXX_ASSERTIONS']
    f += spec.get('defines', [])
    f += os.environ.get('MC_FLAGS', '').split()      # development: other roundings, sanitizers
    return f


def tree_digest(paths):
    h = hashlib.sha256()
    for base in paths:
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(pid, spec):
    digest = tree_digest([os.path.join(REPO, d) for d in ['include', 'src'] + spec.get('repo_includes', [])] + [HARNESS])
    cc = os.environ.get('CXX', 'g++')
    fl = flags(spec)
    srcs = [os.path.join(HARNESS, f) for f in [spec['src']] + spec.get('parts', [])]
    srcs += [os.path.join(REPO, s) for s in LIB_SOURCES + spec.get('extra_sources', [])]
    os.makedirs(BUILD, exist_ok=True)
    objs, jobs = [], []
    for s in srcs:
        key = hashlib.sha256((digest + s + ' '.join(fl) + cc).encode()).hexdigest()[:24]
        o = os.path.join(BUILD, os.path.basename(s) + '.' + key + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))

    def comp(job):
        s, o = job
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run([cc] + fl + ['-c', s, '-o', tmp], capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(tmp, o)
        return s, r
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s, r in ex.map(comp, jobs):
            if r.returncode != 0:
                print('cannot build %s:\n%s' % (s, r.stderr[:6000]))
                sys.exit(2)
    exe = os.path.join(BUILD, '%s.%s.exe' % (pid, hashlib.sha256(' '.join(objs).encode()).hexdigest()[:20]))
    if not os.path.exists(exe):
        link = [cc] + os.environ.get('MC_FLAGS', '').split() + (['-fsanitize=address,undefined'] if spec.get('build') == 'san' else []) + objs
        r = subprocess.run(link + ['-o', exe + '.tmp', '-lpthread'] + spec.get('libs', []), capture_output=True, text=True)
        if r.returncode != 0:
            print('cannot link:\n' + r.stderr[:6000])
            sys.exit(2)
        os.replace(exe + '.tmp', exe)
    prune_build(pid, exe, objs)
    return exe


def prune_build(pid, exe, objs):
    """Drop stale products so that the directory stays small."""
    now = time.time()
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        try:
            if p == exe or p in objs:
                os.utime(p)
            elif f.startswith(pid + '.') and f.endswith('.exe') or now - os.path.getmtime(p) > 3 * 3600:
                if os.path.isfile(p):
                    os.remove(p)
        except OSError:
            pass


def read_cur(path):
    try:
        with open(path, 'rb') as f:
            b = f.read()
        cases, ln, active = struct.unpack_from('<Qii', b, 0)
        scen = b[16:80].split(b'\0')[0].decode()
        ch = struct.unpack_from('<1024i', b, 80)[:max(0, min(ln, 1024))]
        return cases, active, scen + ':' + ','.join(map(str, ch))
    except Exception:
        return 0, 0, ''


def cpu_seconds(pid):
    """Processor time used so far: a starved process is not a hanging one."""
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


def env():
    e = dict(os.environ)
    e.update(SAN_ENV)
    return e


def replay(exe, rep, thorough, timeout):
    cmd = [exe, '--replay', rep] + (['--thorough'] if thorough else [])
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, env=env())
    except subprocess.TimeoutExpired:
        return 'hang', 'no result within %.0f s when run alone' % timeout
    if r.returncode == 0:
        return 'ok', ''
    if r.returncode == 1 and 'REPRODUCED' in r.stdout:
        m = re.search(r'REPRODUCED key=(\S+) (.*)', r.stdout, re.S)
        return m.group(1), m.group(2).strip()[:2000]
    if r.returncode in (96, 97, 98):
        return 'harness', 'replay does not fit (exit %d) %s' % (r.returncode, r.stderr[-500:])
    txt = r.stderr
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|terminate called[^\n]*(\n[^\n]*)?|[^\n]*Assertion[^\n]*)', txt)
    return 'crash', (m.group(1) if m else 'exit code %d' % r.returncode) + '\n' + '\n'.join(re.findall(r'#\d+ .*', txt)[:14])


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        for t in ('g++', 'python3'):
            if not shutil.which(t):
                print('missing ' + t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        return 0
    pid = args[0]
    spec = CHECKS[pid]
    thorough = '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in args
    tier = 'thorough' if thorough else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    exe = build(pid, spec)
    tb = time.time() - t0
    if '--replay' in args:
        rep = args[args.index('--replay') + 1]
        if os.path.exists(rep):
            rep = re.search(r'^replay: (.*)$', open(rep).read(), re.M).group(1)
        cmd = [exe, '--replay', rep, '-v'] + (['--thorough'] if thorough else [])
        return subprocess.run(cmd, env=env()).returncode

    work = os.path.join(BUILD, 'run.%s.%d' % (pid, os.getpid()))
    os.makedirs(work)
    budget = float(os.environ.get('MC_BUDGET', spec.get('thorough_budget', 3000) if thorough else spec.get('quick_budget', 600)))
    only = []
    if '--only' in args:
        only = ['--only', args[args.index('--only') + 1]]
    procs = []
    for i in range(NSHARDS):
        out, cur = os.path.join(work, 'out%d' % i), os.path.join(work, 'cur%d' % i)
        cmd = [exe, '--shard', '%d/%d' % (i, NSHARDS), '--out', out, '--cur', cur, '--budget', str(budget)] + only
        if thorough:
            cmd.append('--thorough')
        log = open(os.path.join(work, 'log%d' % i), 'w')
        procs.append(dict(p=subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env()), out=out, cur=cur, i=i,
                          cases=-1, since=time.time(), cpu=0.0, state='run', cmd=cmd, log=log.name))
    found = []          # (key, msg, replay)
    failures = []
    while any(p['state'] == 'run' for p in procs):
        time.sleep(0.05)
        for p in procs:
            if p['state'] != 'run':
                continue
            rc = p['p'].poll()
            cases, active, rep = read_cur(p['cur'])
            if rc is not None:
                p['state'] = 'done'
                if rc != 0:
                    p['state'] = 'dead'
                    if rc == 97:
                        failures.append('the scenario %s is not deterministic: %s' % (rep, open(p['log'], errors='replace').read()[-400:]))
                        found.append(('nondeterminism', 'the same choices led to different behaviour', rep, p['cmd']))
                    elif rep and active:
                        found.append(('crash', 'exit code %d: %s' % (rc, open(p['log'], errors='replace').read()[:1500]), rep, p['cmd']))
                    else:
                        failures.append('shard %d ended with %d: %s' % (p['i'], rc, open(p['log'], errors='replace').read()[-1000:]))
                continue
            if cases != p['cases']:
                p['cases'], p['since'], p['cpu'] = cases, time.time(), cpu_seconds(p['p'].pid)
            elif active and time.time() - p['since'] > CASE_HANG and (
                    cpu_seconds(p['p'].pid) - p['cpu'] > 0.8 * CASE_HANG or time.time() - p['since'] > 10 * CASE_HANG):
                p['p'].kill()
                p['p'].wait()
                p['state'] = 'dead'
                found.append(('hang', 'no progress for %.0f s' % CASE_HANG, rep, p['cmd']))
    scen = {}
    exhausted = True
    states = {}
    for p in procs:
        if p['state'] != 'done' or not os.path.exists(p['out']):
            exhausted = False
            continue
        r = json.load(open(p['out']))
        exhausted = exhausted and r['exhausted']
        for s in r['scenarios']:
            d = scen.setdefault(s['name'], dict(runs=0, transitions=0, checked=0, depth=0, complete=True, outcomes={}, sample='', wall_s=0, cpu_s=0))
            for k in ('runs', 'transitions', 'checked'):
                d[k] += s[k]
            d['depth'] = max(d['depth'], s['depth'])
            d['wall_s'], d['cpu_s'] = max(d['wall_s'], s['wall']), round(d['cpu_s'] + s['wall'], 2)
            d['complete'] = d['complete'] and s['complete']
            if s['sample'] and (not d['sample'] or len(s['sample']) > len(d['sample'])):
                d['sample'] = s['sample']
            for k, v in s['outcomes'].items():
                d['outcomes'][k] = d['outcomes'].get(k, 0) + v
            sp = p['out'] + '.' + s['name'] + '.states'
            if os.path.exists(sp):
                import array
                a = array.array('Q')
                a.frombytes(open(sp, 'rb').read())
                st = states.setdefault(s['name'], set())
                if len(st) < 20000000:
                    st.update(a)
        for v in r['violations']:
            found.append((v['key'], v['msg'], v['replay'], p['cmd']))
    for s, d in scen.items():
        d['states'] = len(states.get(s, ())) or d['runs']

    # every violation is replayed in a process of its own before it is believed
    repdir = os.path.join(EVID, 'replay')
    confirmed, seen, knownhit = [], {}, []
    nviol = len(found)
    for key, msg, rep, cmd in found:
        if seen.get(key, 0) >= 3:
            continue
        seen[key] = seen.get(key, 0) + 1
        if key == 'nondeterminism':
            confirmed.append((key, msg, rep))
            continue
        st, txt = replay(exe, rep, thorough, CASE_HANG_ALONE if key == 'hang' else 60)
        if st == 'hang' and key != 'hang':
            st, txt = replay(exe, rep, thorough, CASE_HANG_ALONE)
        if st in ('ok', 'harness'):
            if key == 'hang':
                failures.append('slow case, not a hang: ' + rep)
                continue
            # depends on what ran before: run the same shard once more
            out2 = os.path.join(work, 'again')
            if os.path.exists(out2):
                os.remove(out2)
            c2 = list(cmd)
            c2[c2.index('--out') + 1] = out2
            try:
                r = subprocess.run(c2, capture_output=True, text=True, errors='replace', env=env(), timeout=400)
                again = r.returncode != 0 or any(v['replay'] == rep for v in json.load(open(out2))['violations'])
            except (subprocess.TimeoutExpired, OSError, ValueError):
                again = False
            if not again:
                failures.append('could not be reproduced: %s (%s) %s' % (rep, key, msg[:300]))
                continue
            confirmed.append((key, msg + ' [only after the cases before it: ' + ' '.join(cmd) + ']', rep))
        else:
            confirmed.append((st if key in ('crash', 'hang') else key, txt or msg, rep))
    report = []
    for key, msg, rep in confirmed:
        hit = next((k for k in known() if k['property'] == pid and k['status'] == 'known' and (k['replay'] == rep or k.get('key') == key and re.fullmatch(k['replay'], rep))), None)
        if hit:
            knownhit.append(hit)
        else:
            report.append((key, msg, rep))
    for k in known():
        if k['property'] == pid and k['status'] == 'known':
            print('KNOWN-FINDING: property=%s %s%s' % (pid, k['what'], '' if k in knownhit else ' (not met in this run)'))
    paths = []
    for n, (key, msg, rep) in enumerate(report[:8]):
        os.makedirs(repdir, exist_ok=True)
        path = os.path.join(repdir, '%s-%d.txt' % (pid, n))
        with open(path, 'w') as f:
            f.write('property: %s\nkey: %s\ntier: %s\nreplay: %s\nrun: python3 /verif/check.py %s%s --replay %s\n\n%s\n'
                    % (pid, key, tier, rep, pid, ' --thorough' if thorough else '', rep, msg))
        paths.append(path)
        print('[%s] %s\n    %s' % (key, rep, msg.replace('\n', '\n    ')[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    wall = time.time() - t0
    tot = lambda k: sum(d[k] for d in scen.values())
    incomplete = [s for s, d in scen.items() if not d['complete']] + [f for f in failures]
    samples = ['%s: choices [%s]' % (s, d['sample']) for s, d in scen.items() if d['sample']]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot('states'), transitions=tot('transitions') or tot('runs'),
                            traces_validated_against_impl=tot('runs'),
                            reference_comparisons=tot('checked'),
                            samples=samples[:40] or ['none'],
                            exhaustive=bool(exhausted and not failures and all(d['complete'] for d in scen.values())),
                            scenarios={s: {k: v for k, v in d.items() if k != 'sample'} for s, d in scen.items()},
                            build_s=round(tb, 1), shards=NSHARDS, incomplete=incomplete),
              assumptions=COMMON_ASSUMPTIONS + spec.get('assumptions', []),
              wall_s=round(wall, 2), violations=len(report))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for s, d in sorted(scen.items()):
        print('%s/%s: %d executions, %d states, %d transitions, %d comparisons%s %s' % (
            pid, s, d['runs'], d['states'], d['transitions'], d['checked'], '' if d['complete'] else ' (NOT COMPLETE)',
            json.dumps(d['outcomes'])))
    if '--keep' not in args:
        shutil.rmtree(work, ignore_errors=True)
    print('%s %s: %.1f s (build %.1f s), %d violation(s)' % (pid, tier, wall, tb, len(report)))
    if report:
        return 1
    if failures:
        for f in failures:
            print('NO ANSWER: ' + f)
        return 2
    if not scen:
        print('NO ANSWER: nothing ran')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
