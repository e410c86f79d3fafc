"""Plant a bug: seed.py SPEC.py...   A spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...] and
RFL='script' (its output on the unchanged tree is what demo.sh expects) or C='program' (exit 0 on the
unchanged tree).  Works in a scratch copy of /repo; writes seeded/ID only when the change builds, passes the
tests, and the demonstration passes without it and fails with it.  --check runs the property's check too."""
import os, sys, json, shutil, subprocess, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(c, cwd, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout

DEMO_RFL = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) && trap 'rm -rf "$w"' EXIT
r=$PWD
cp "$d/demo.rfl" "$w/demo.rfl"
out=$(cd "$w" && timeout 100 "$r/_build/rayforce" demo.rfl </dev/null 2>&1)
if [ "$out" != "$(cat "$d/expected.txt")" ]; then echo "got: $out"; exit 1; fi
'''
DEMO_C = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) && trap 'rm -rf "$w"' EXIT
clang -std=c17 -O1 -w -include core/def.h -I. %s-DGIT_HASH='"x"' "$d/demo.c" _build/core/*.o _build/app/term.o _build/app/repl.o %s-o "$w/demo" -lm -ldl -lpthread || exit 2
r=$PWD
cd "$w" && timeout 100 ./demo </dev/null
'''

def build(d):
    return sh('make -f /opt/vp/rayforce.mk -j8 CC=/usr/bin/clang PWD=%s vp-build' % d, d)

def main():
    chk = '--check' in sys.argv
    for spec in [a for a in sys.argv[1:] if not a.startswith('-')]:
        one(runpy.run_path(spec), chk)

def one(s, chk):
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    r = os.path.join(w, 'repo')
    try:
        sh(f'cp -a /repo {r}', '/')
        sh('git checkout -q -- .', r)
        o = os.path.join(w, 'out'); os.mkdir(o)
        if 'RFL' in s:
            open(o + '/demo.rfl', 'w').write(s['RFL'].strip() + '\n(exit 0)\n'); open(o + '/demo.sh', 'w').write(DEMO_RFL); open(o + '/expected.txt', 'w').write('')
        elif 'C' in s:
            open(o + '/demo.c', 'w').write(s['C'])
            open(o + '/demo.sh', 'w').write(DEMO_C % (s.get('CFLAGS', ''), s.get('OBJS', '')))
        else:
            open(o + '/demo.sh', 'w').write(s['SH'])
        rc, out = build(r)
        if rc: print(s['ID'], 'unchanged tree does not build', out[-300:]); return
        if 'RFL' in s:
            rc, out = sh(f'bash {o}/demo.sh', r)
            exp = out[5:].rstrip('\n') if out.startswith('got: ') else ''
            open(o + '/expected.txt', 'w').write(exp + '\n')
            print(s['ID'], 'expected:', exp)
        rc, out = sh(f'bash {o}/demo.sh', r)
        if rc: print(s['ID'], 'demo fails on the unchanged tree', out[-600:]); return
        for f, a, b in s['EDITS']:
            t = open(f'{r}/{f}').read()
            if t.count(a) != 1: print(s['ID'], f, 'old text occurs', t.count(a), 'times'); return
            open(f'{r}/{f}', 'w').write(t.replace(a, b))
        _, diff = sh('git diff', r)
        rc, out = build(r)
        if rc: print(s['ID'], 'does not build', out[-600:]); return
        rc, out = sh(f'timeout 700 ./_build/rayforce.vptest {w}/res.txt', r, 800)
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = open(w + '/res.txt').read()
        bad = [l for l in res.split('\n') if 'fail' in l.lower()]
        npass = sum(1 for l in res.split('\n') if l.strip()) - len(bad)
        print(s['ID'], 'tests: pass', npass, 'fail', bad[:3])
        if bad or npass < 185: return
        rc, out = sh(f'bash {o}/demo.sh', r)
        print(s['ID'], 'demo with the change:', rc, out[-300:].strip())
        if rc == 0: return
        d = f"{V}/seeded/{s['ID']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f in os.listdir(o): shutil.copy(f'{o}/{f}', d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        print(s['ID'], 'KEPT')
        if chk:
            rc, out = sh(f"VF_REPO={r} VF_OUT={w} python3 check.py {s['PROP']}", V, 900)
            print(s['ID'], 'CHECK', rc, out[-700:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    main()
