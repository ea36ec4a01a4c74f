#!/usr/bin/env python3
"""plant.py SPEC.py...: make /verif/seeded/<id> from a description of a planted bug and confirm it.

A SPEC defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS and either PROGRAM + EXPECT (run by the run tool)
or CPP (a host program) or SH (demo.sh itself); FILES {name: text} go beside it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
RUN = '''#!/bin/bash
# the run tool must print what the program says
b=$PWD/_build; d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; cd "$t" || exit 3
out=$(timeout 100 "$b/nano_driver" "$d/prog.ccml" 2>err.txt); rc=$?
[ "$rc" = 0 ] && [ "$out" = "$(cat "$d/expect.txt")" ] && exit 0
echo "exit $rc, output:"; echo "$out"; tail -3 err.txt
exit 1
'''
HOST = '''#!/bin/bash
# a host program using the library
r=$PWD; d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -include cstring -D__error_t_defined=1 -fno-delete-null-pointer-checks -O1 -g -I"$r/source" -I"$r/source/lib_common" -I"$r/source/lib_compiler" \\
  -I"$r/source/lib_vm" -I"$r/source/lib_builtins" "$d/demo.cpp" "$r"/source/lib_*/*.cpp -o "$t/demo" || exit 3
cd "$t" || exit 3
timeout 100 ./demo "$d"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    o = sh('bash /opt/vp/test.sh /tmp/plant-out.json')
    try:
        return set(json.load(open('/tmp/plant-out.json'))['passed']), o.stdout
    except Exception:
        return set(), o.stdout


def main(spec, check=True):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['ID'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'])
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty'
    try:
        for f, old, new in g['EDITS']:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
    finally:
        sh('git -C /repo checkout -- .')
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    if 'PROGRAM' in g:
        open(d + '/prog.ccml', 'w', encoding='latin1').write(g['PROGRAM'])
        open(d + '/expect.txt', 'w', encoding='latin1').write(g['EXPECT'])
    if 'CPP' in g:
        open(d + '/demo.cpp', 'w').write(g['CPP'])
    for n, t in g.get('FILES', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    open(d + '/demo.sh', 'w').write(g.get('SH') or (HOST if 'CPP' in g else RUN))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    sh('bash /opt/vp/build.sh')
    a = sh('bash %s/demo.sh' % d, cwd=R)
    if a.returncode:
        print(g['ID'], 'DEMO FAILS ON THE UNCHANGED TREE', a.stdout[-800:])
        return
    try:
        assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
        ok, log = tests()
        lost = want - ok
        if lost:
            print(g['ID'], 'TESTS FAIL', len(lost), sorted(lost)[:5], log[-500:] if len(lost) == len(want) else '')
            return
        b = sh('bash %s/demo.sh' % d, cwd=R)
        if not b.returncode:
            print(g['ID'], 'DEMO PASSES WITH THE BUG', b.stdout[-300:])
            return
        res = ''
        if check:
            c = sh('python3 run.py %s' % g['PROP'], cwd=V)
            res = {0: 'MISSED', 1: 'caught'}.get(c.returncode, 'error %s' % c.stdout[-300:]) + ' ' + ' | '.join(l for l in c.stdout.splitlines() if l.startswith(g['PROP']))[:160]
        print(g['ID'], 'ok demo=%d' % b.returncode, res, flush=True)
    finally:
        sh('git -C /repo checkout -- .')


for s in sys.argv[1:]:
    main(s)
sh('bash /opt/vp/build.sh')
