#!/usr/bin/env python3
"""Development tool (used by no check): changes one token of a random line of /repo at a time, in a scratch copy, and
reports the changes that compile, pass the stable tests and raise no alarm, to be judged by hand.

    mutate.py SEED SECONDS [FILE...]      appends to $MUT_DIR/results.txt
"""
import sys, os, re, random, subprocess, json, time, glob, shutil
D = os.environ.get('MUT_DIR', '/tmp/mut')
V = D + '/verif'      # a copy of /verif: its build directory is emptied
S = D + '/repo'
MAP = {
    'physics/RTree': 'C01 C02 C25', 'utility/Memory': 'C03 C34', 'physics/BoundingBox': 'C04 C25', 'math/Gjk': 'C05 C06 C07',
    'physics/ContactManifold': 'C07 C24 C12 C16 C20', 'math/Polygon': 'C08 C22', 'math/Geometry': 'C08 C05 C22', 'math/Shapes': 'C08',
    'math/Edges': 'C08 C09 C06', 'math/Line': 'C09', 'math/Bary': 'C09 C06', 'math/Interval': 'C19 C10 C35', 'math/Matrix': 'C28 C10 C09',
    'math/Random': 'C33', 'math/General': 'C28 C33',
    'physics/World': 'C11 C12 C13 C21 C25 C15 C30 C34', 'physics/Island': 'C13 C14 C30 C35 C34', 'physics/Body': 'C11 C14 C15 C22 C21 C34',
    'physics/Bodies': 'C14 C16 C12 C11 C34', 'physics/Collider': 'C22 C24 C25 C11 C34', 'physics/Material': 'C24', 'physics/CombinableP': 'C24',
    'physics/PhysicsObject': 'C11', 'physics/Constraint.hpp': 'C20 C16 C35 C17 C18 C19 C12', 'physics/Constraint.inl': 'C20 C16 C35 C17 C18 C12', 'physics/ConstraintSolver': 'C18 C35 C19 C17 C20 C16 C10',
    'physics/ConstraintFunction': 'C17 C18 C16 C35', 'physics/ConstraintInt': 'C11 C12 C34', 'physics/DistanceC': 'C18', 'physics/Motors': 'C19',
    'physics/ForceField': 'C15 C11', 'physics/Profiler': 'C30', 'physics/Transform': 'C23 C14', 'physics/GearC': 'C17', 'utility/View': 'C33 C25 C11',
    'utility/Callable': 'C25 C11', 'utility/Algo': 'C33 C13 C11', 'utility/Timer': 'C30',
    'app/Camera': 'C26 C31', 'app/Application': 'C31 C27', 'app/Scene': 'C31 C27', 'app/Tool': 'C27', 'app/Mouse': 'C27 C29', 'app/Renderer': 'C29',
    'app/Visible': 'C29', 'app/Event': 'C31', 'demos/': 'C32',
}
ALL = ['C%02d' % i for i in range(1, 36)]
OPS = [(r'(?<![<>=!\-+*/&|])<(?![<=])(?= )', ['<=', '>']), (r'(?<=[ ])>(?![>=])(?= )', ['>=', '<']), (r'<=(?!>)', ['<', '>']), (r'(?<!<)>=', ['>', '<']),
       (r'(?<![=!<>])==(?!=)', ['!=']), (r'!=', ['==']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* (?![,)>&])', [' / ', ' + ']), (r' / ', [' * ']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'(?<=[(, ])!(?=[\w(])', ['']), (r'(?<=[(,={] )-(?=[\w(])|(?<=[(,{])-(?=[\w(])|(?<=return )-(?=[\w(])', ['']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]']),
       (r'\b0\.f\b', ['1.f', '-1.f']), (r'\b1\.f\b', ['0.f', '2.f']), (r'\b0\.5f\b', ['1.f']), (r'\b2\b', ['1', '3']), (r'\b1\b', ['0', '2']), (r'\b0\b', ['1']),
       (r'\+\+', ['--']), (r'--', ['++']), (r'\bmax\b(?=[({])', ['min']), (r'\bmin\b(?=[({])', ['max']), (r'\bfirst\b', ['second']), (r'\bsecond\b', ['first']),
       (r'\bfrom\b', ['to']), (r'\bcos\b', ['sin']), (r'\bsin\b', ['cos']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'\bbreak;', ['', 'continue;']),
       (r'\bcontinue;', ['', 'break;']), (r'\bnext\b', ['prev']), (r'\bdt\b', ['(2*dt)']), (r'\breturn (?=[^;]+;)', ['return !', 'return -'])]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def candidates(f):
    out = []
    lines = open(os.path.join(S, f)).read().split('\n')
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t[0] in '/#*' or 'SIMU_ASSERT' in l or 'include' in l or t.startswith(('template', 'typedef', 'using', 'namespace', 'static_assert', 'concept', 'requires')) or 'operator' in l:
            continue
        code = l.split('//')[0]
        for rx, news in OPS:
            for m in re.finditer(rx, code):
                for n in news:
                    out.append((f, i, code[:m.start()] + n + l[m.end():]))
        if re.match(r'^[\w\[\]\.\->:(*+][^=]*\(.*\);$|^[\w\[\]\.\->()]+ *[-+*/]?= .*;$|^\+\+.*;$', t) and not t.startswith(('return', 'if', 'for', 'while', 'else', 'throw')) and not re.match(r'^[\w:<>]+ +\w+ *[=({;]', t):
            out.append((f, i, ''))
        m = re.match(r'^(\s*)(else )?if \((.*)\)$', l)
        if m:
            out.append((f, i, m.group(1) + (m.group(2) or '') + 'if (false)'))
            out.append((f, i, m.group(1) + (m.group(2) or '') + 'if (true)'))
            # drop one side of a conjunction
            parts = re.split(r' && | \|\| ', m.group(3))
            if len(parts) == 2 and all(p.count('(') == p.count(')') for p in parts):
                for p in parts:
                    out.append((f, i, m.group(1) + (m.group(2) or '') + 'if (' + p + ')'))
        # swap two statements
        simple = r'^\s*[\w\[\]\.\->:(*+].*;$'
        if i + 1 < len(lines) and re.match(simple, l) and re.match(simple, lines[i + 1]) and len(l) - len(l.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()) and not t.startswith(('return', 'break', 'case', 'friend', 'typedef')) and not re.match(r'^(const )?[\w:<>]+[&*]? +\w+ *[={(;]', t) and not re.match(r'^(const )?[\w:<>]+[&*]? +\w+ *[={(;]', lines[i + 1].strip()):
            out.append((f, i, (lines[i + 1], l)))
    return out


def fresh():
    sh('git -C %s checkout -q -- .' % S)


def tests_pass(app):
    if app:
        return True
    r = sh('timeout 400 bash %s/build.sh' % D)
    if r.returncode:
        return None
    r = sh('rm -rf {0}/_build/vp-reports && mkdir -p {0}/_build/vp-reports && cd {0}/_build && timeout 60 python3 /opt/vp/run_catch.py {0}/_build/simu-test {0}/_build/vp-reports; python3 /opt/vp/results.py {1}/out.json "junit:{0}/_build/vp-reports/*.xml" "lines:{0}/_build/vp-reports/crashed.txt"'.format(S, D))
    try:
        got = set(json.load(open(D + '/out.json'))['passed'])
    except Exception:
        return False
    return not set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got


def main():
    seed, secs, files = int(sys.argv[1]), float(sys.argv[2]), sys.argv[3:]
    os.makedirs(D, exist_ok=True)
    if not os.path.isdir(S):
        sh('cp -a /repo %s && rm -rf %s/_build && sed s#/repo#%s#g /opt/vp/build.sh > %s/build.sh' % (S, S, S, D))
    if not os.path.isdir(V):
        sh('git clone -q /verif %s' % V)
    else:
        sh('git -C %s pull -q' % V)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (S, S))
    rng = random.Random(seed)
    if not files:
        files = [os.path.relpath(p, S) for g in ('include/Simu/*/*.hpp', 'src/Simu/*/*.cpp', 'demos/*.cpp') for p in glob.glob(os.path.join(S, g))]
    c = []
    for f in files:
        if any(k in f for k in MAP) and 'ImGuiTest' not in f and 'main' not in f:
            c += candidates(f)
    rng.shuffle(c)
    end = time.time() + secs
    log = open(D + '/results.txt', 'a')
    print(len(c), 'candidates')
    for f, i, new in c:
        if time.time() > end:
            break
        fresh()
        p = os.path.join(S, f)
        lines = open(p).read().split('\n')
        old = lines[i]
        if isinstance(new, tuple):
            lines[i], lines[i + 1] = new
            new = 'SWAPPED WITH ' + new[0]
        elif new.strip() == old.strip():
            continue
        else:
            lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        app = '/app/' in f or f.startswith('demos')
        t0 = time.time()
        verdict = ''
        ok = tests_pass(app)
        if ok is None:
            verdict = 'nocompile'
        elif not ok:
            verdict = 'tests'
        else:
            ids = next(v for k, v in MAP.items() if k in f).split()
            for cid in ids:
                r = sh('SIMU_REPO=%s timeout 900 python3 %s/check.py %s' % (S, V, cid))
                if 'cannot build' in r.stdout or 'cannot link' in r.stdout:
                    verdict = 'nocompile'
                    break
                if r.returncode == 1:
                    verdict = 'caught ' + cid
                    break
                if r.returncode != 0:
                    verdict = 'noanswer ' + cid + ' ' + r.stdout[-200:].replace('\n', ' ')
                    break
            else:
                verdict = 'SURVIVED'
        log.write('%s %s:%d | %s | %s | %.0f s\n' % (verdict, f, i + 1, old.strip(), new.strip(), time.time() - t0))
        log.flush()
        for x in glob.glob(V + '/build/*'):
            if time.time() - os.path.getmtime(x) > 900 or x.endswith('.exe'):
                os.remove(x)
    fresh()


main()
