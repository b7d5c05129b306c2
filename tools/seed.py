#!/usr/bin/env python3
"""Makes, verifies and tries planted changes: seed.py make|try|all ID...

The changes are described in tools/bugs/*.py as bug(id, property, edits, demo,
needs, breaks); an edit is (file, old, new[, n-th occurrence]). 'make' writes
seeded/<id>, after checking in a scratch copy of /repo that the change builds,
passes the tests and makes the demonstration fail; 'try' runs the property's
quick check against the changed copy.
"""
import glob, json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUGS = {}
def bug(id, prop, edits, demo, needs, breaks, python=False):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, python=python)
for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
    exec(open(f).read())
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def edit(copy, b):
    for e in b['edits']:
        p = os.path.join(copy, e[0]); s = open(p).read()
        n = e[3] if len(e) > 3 else None
        # blanks of the old text match any blanks
        rx = r'\s+'.join(re.escape(w) for w in e[1].split())
        ms = list(re.finditer(rx, s))
        assert len(ms) == 1 if n is None else n < len(ms), (e[0], e[1], len(ms))
        m = ms[n or 0]
        s = s[:m.start()] + e[2].strip() + s[m.end():]
        open(p, 'w').write(s)
def build(copy):
    r = run(f'cd {copy} && rm -rf _build && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo '
            '-DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_PROJECT_sedaman_INCLUDE=/opt/vp/no-pybind.cmake && ninja -C _build', shell=True)
    if r.returncode: print(r.stdout[-3000:]); return False
    r = run(['ctest', '--test-dir', copy + '/_build/tests', '-j8', '--timeout', '100'])
    if r.returncode: print(r.stdout[-1500:])
    return r.returncode == 0
def original_lines(patch):
    """every hunk has to change a line of the original repository"""
    r = run(['git', '-C', REPO, 'diff', '--stat'])
    out = []
    cur = None
    for l in patch.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)); continue
        if cur and ln_ok(l):
            if l.startswith('-'):
                bl = run(['git', '-C', REPO, 'blame', '-s', '-L', f'{ln},{ln}', cur]).stdout
                out.append(bl.startswith('^'))
            if not l.startswith('+'): ln += 1
    return out
def ln_ok(l): return l[:1] in ' -+' and not l.startswith(('---', '+++'))
def demo(folder, repo):
    return run(['bash', folder + '/demo.sh'], cwd=repo)
def one(id, mode):
    b = BUGS[id]; copy = f'/tmp/seed/{id}'; out = f'{V}/seeded/{id}'
    shutil.rmtree(copy, ignore_errors=True); os.makedirs('/tmp/seed', exist_ok=True)
    run(['cp', '-a', REPO, copy])
    res = []
    try:
        edit(copy, b)
        patch = run(['git', '-C', copy, 'diff']).stdout
        if mode in ('make', 'all'):
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(patch)
            shutil.copy(V + '/tools/demo.sh', out); shutil.copy(V + '/tools/demo.hpp', out)
            if b['python']: # the stand-in for pybind11 goes along
                shutil.copy(V + '/tools/demo_py.sh', out + '/demo.sh')
                shutil.copytree(V + '/harness/pybind11', out + '/pybind11', dirs_exist_ok=True)
            open(out + '/demo.cpp', 'w').write('#include "demo.hpp"\n' + b['demo'].lstrip('\n'))
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            orig = original_lines(patch)
            ok = build(copy)
            d1 = demo(out, copy); d0 = demo(out, REPO)
            good = ok and d0.returncode == 0 and d1.returncode not in (0, 2) and any(orig)
            res.append(f'build+tests {"ok" if ok else "BAD"} demo clean={d0.returncode} bug={d1.returncode} orig={orig}')
            if not good: res.append('NOT-VALID ' + d0.stdout[-600:] + '|' + d1.stdout[-600:])
            else: res.append(d1.stdout.strip()[-150:])
        if mode in ('try', 'all'):
            env = dict(os.environ, VERIF_REPO=copy)
            r = run(['python3', V + '/check.py', b['prop'], os.environ.get('TIER', 'quick')], env=env, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append(('CAUGHT ' if r.returncode == 1 and v else 'MISSED rc=%d ' % r.returncode) + (v[0] if v else r.stdout[-400:]))
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    print(id, b['prop'], ' ; '.join(res), flush=True)
mode, ids = sys.argv[1], sys.argv[2:]
for i in (ids or sorted(BUGS)):
    try: one(i, mode)
    except AssertionError as e: print(i, 'EDIT FAILS', e)
