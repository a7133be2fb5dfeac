#!/usr/bin/env python3
"""mkseed.py SPEC.py [--check]: builds /verif/seeded/<id>/ from a description and confirms it against /repo (applied, run, undone).
SPEC.py defines: id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text), lib (True: the demo needs the stand-in of the multiprecision library)"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SEEDREPO', '/repo')   # a scratch copy (cp -a /repo) while /repo itself is in use
A = 'include/nil/crypto3/algebra/'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build():
    return sh('export CC=clang-18 CXX=clang++-18; cmake -S /opt/vp/cmake -B %s/_sb -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DREPO=%s && ninja -C %s/_sb algebra_headers && rm -rf %s/_sb/CMakeFiles/algebra_*_compile_test.dir && ctest --test-dir %s/_sb --timeout 300; c=$?; rm -rf %s/_sb; exit $c' % ((R,) * 6))


def main():
    ns = {'A': A}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(V, 'seeded', ns['id'])
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --short' % R).stdout.strip(), 'dirty'
    try:
        for f, o, n in ns['edits']:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(o) == 1, (f, t.count(o), o)
            open(p, 'w').write(t.replace(o, n))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % R).stdout)
    finally:
        sh('git -C %s checkout -- .' % R)
    open(os.path.join(d, 'demo.cpp'), 'w').write(ns['demo'])
    lib = ns.get('lib')
    inc, src, pre = '', '', ''
    if lib:
        shutil.copytree(os.path.join(V, 'shim'), os.path.join(d, 'shim'), dirs_exist_ok=True)
        shutil.copy(os.path.join(V, 'vc', 'vc_runtime.cpp'), d)
        inc, src = '-I"$D/shim" ', ' "$W/rt.o"'
        pre = 'g++ -O1 -std=c++17 -c "$D/vc_runtime.cpp" -o "$W/rt.o" || exit 3\n'
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0: the property holds on the sample below
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
%sclang++-18 -std=c++17 -O1 -w -ftemplate-depth=4000 -fconstexpr-steps=200000000 %s-I"$PWD/include" "$D/demo.cpp"%s -o "$W/demo" || exit 3
timeout 200 "$W/demo"
''' % (pre, inc, src))
    json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    print('demo clean', r0.returncode, r0.stdout[-300:], r0.stderr[-1500:] if r0.returncode else '')
    try:
        a = sh('git -C %s apply %s/patch.diff' % (R, d))
        assert not a.returncode, a.stderr
        b = build()
        print('build+tests', b.returncode, b.stdout[-300:] if b.returncode else '')
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        print('demo patched', r1.returncode, r1.stdout[-300:], r1.stderr[-1500:] if r1.returncode == 3 else '')
        if '--check' in sys.argv:
            c = sh('VERIF_REPO=%s VERIF_SEED=1 timeout 900 python3-vt check.py %s' % (R, ns['property']), cwd=V)
            print('check', c.returncode, '\n'.join(x[:300] for x in c.stdout.splitlines()[-6:]), c.stderr[-500:])
    finally:
        sh('git -C %s checkout -- .' % R)
        build()
    print('OK' if r0.returncode == 0 and r1.returncode not in (0, 3) else 'BAD', ns['id'])


main()
