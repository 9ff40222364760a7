#!/usr/bin/env python3
"""Regenerates and verifies the planted bugs: tools/mkbug.py [ID...] [-check]

tools/bugs/ID.py defines: property, pkg (directory of the demo test below /repo), edits [(file, old, new)],
demo (Go source of TestZZDemo), needs, breaks. Works in a scratch copy of /repo only; with -check the property's
check is run with the patch applied to /repo and undone afterwards.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs demo.go.txt as a test of %(pkg)s (through an overlay), cwd is the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly TMPDIR="$tmp" DEMO_TMP="$tmp"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$repo" "$here" >"$tmp/overlay.json"
go1.27 test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$tmp/overlay.json" -run 'TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def base(): return sh('git log --format=%H | tail -1', '/repo').stdout.strip()
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    ids = args or sorted(f[:-3] for f in os.listdir(V + '/tools/bugs') if f.endswith('.py'))
    ok = True
    for i in ids:
        r = one(i, '-check' in sys.argv)
        print(i, r, flush=True)
    return 0
def one(i, check):
    g = {}
    exec(open(f'{V}/tools/bugs/{i}.py').read(), g)
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkbug')
    try:
        subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True)
        R = t + '/repo'
        orig = 0
        for f, old, new in g['edits']:
            s = open(f'{R}/{f}').read()
            if s.count(old) != 1: return f'FAIL edit {f}: {s.count(old)} occurrences of {old!r}'
            open(f'{R}/{f}', 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], R).stdout
        cur = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
                bl = sh(['git', 'blame', '-l', '-s', 'HEAD', '--', cur], '/repo').stdout.splitlines()
            elif l.startswith('@@'): n = int(l.split()[1].split(',')[0][1:])
            elif cur and l.startswith('-'):
                if bl[n-1].lstrip('^').startswith(base()[:20]): orig += 1
                else: print('   note: line of a fix:', l)
                n += 1
            elif cur and l.startswith(' '): n += 1
        open(d + '/patch.diff', 'w').write(diff)
        demo = g['demo']
        if g.get('helpers'): # imports besides those of the helpers go first
            h = open(V + '/tools/demo_orc.go.txt').read()
            for x in g.get('imports', []): h = h.replace('import (', f'import (\n\t"{x}"', 1)
            demo = h + demo
        open(d + '/demo.go.txt', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': g['pkg'], 'flags': g.get('flags', '')})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if not orig: return 'FAIL changes no original line'
        x = sh(['bash', d + '/demo.sh'], R)
        if x.returncode == 0: return 'FAIL demo passes with the patch'
        if 'build failed' in x.stdout or 'setup failed' in x.stdout: return 'FAIL demo does not build\n' + x.stdout + x.stderr
        x2 = sh(['bash', d + '/demo.sh'], '/repo')
        if x2.returncode: return 'FAIL demo fails without the patch\n' + x2.stdout[-2000:] + x2.stderr[-2000:]
        b = json.load(open('/opt/vp/BASELINE.json'))
        o = sh('go1.27 test -json -vet=off -count=1 ./... 2>/dev/null', R, env=dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', GOTOOLCHAIN='local')).stdout
        if check_tests(o, b): return 'FAIL tests ' + str(check_tests(o, b))
    finally:
        shutil.rmtree(t)
    if not check: return 'ok'
    if sh('git status --porcelain', '/repo').stdout: return '/repo dirty'
    try:
        if sh(['git', 'apply', d + '/patch.diff'], '/repo').returncode: return 'FAIL apply'
        c = sh([V + '/check.sh', g['property']], V, env=dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1'))
    finally:
        sh('git checkout -- .', '/repo')
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    return f"ok; check exit {c.returncode} {'CAUGHT' if c.returncode == 1 and v else 'MISSED'} {v[:1]}"
def check_tests(o, b):
    p = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): p.add(e['Package'] + '/' + e['Test'])
    return [n for n in b['stable'] if n not in p]
if __name__ == '__main__': sys.exit(main())
