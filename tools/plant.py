#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and keeps those that qualify.

    plant.py FILE [id ...]      FILE defines BUGS = [dict(id, property, needs, breaks,
                                edits=[(file, old, new)], demo=C++ text)]

A bug qualifies if it changes at least one line of the original repository, compiles, passes
the tests, and its demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, runpy
BASE = '19716c7'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
SC = '/tmp/w/plant'
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as specified
here="$(cd "$(dirname "$0")" && pwd)"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
clang++ -std=c++17 -O0 -w -fbracket-depth=4096 -Iinclude "$here/demo.cpp" -o "$tmp/demo" || exit 3
timeout 20 "$tmp/demo"
'''
DEMO_NEG = '''#!/bin/bash
# run with cwd = the repository; exit 0: the ill-formed program is rejected
here="$(cd "$(dirname "$0")" && pwd)"
clang++ -std=c++17 -O0 -w -Iinclude -fsyntax-only -DGOOD "$here/demo.cpp" || exit 3
! clang++ -std=c++17 -O0 -w -Iinclude -fsyntax-only "$here/demo.cpp" 2>/dev/null
'''


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='replace', timeout=timeout)


def demo(d):
    p = sh('bash %s/demo.sh' % d, cwd=SC + '/repo', timeout=300)
    return p.returncode, p.stdout


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only:
            continue
        if not only and os.path.exists(os.path.join(OUT, b['id'])):
            continue
        shutil.rmtree(SC, ignore_errors=True)
        os.makedirs(SC)
        sh('git clone -q /repo %s/repo' % SC)
        d = SC + '/demo'
        os.makedirs(d)
        with open(d + '/demo.cpp', 'w') as f:
            f.write(b['demo'].lstrip())
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO_NEG if b.get('negative') else DEMO)
        rc, out = demo(d)
        if rc != 0:
            print(b['id'], 'DEMO FAILS ON THE UNCHANGED TREE', rc, out[-1500:])
            continue
        bad = False
        for fn, old, new in b['edits']:
            p = SC + '/repo/' + fn
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit does not apply (%d matches): %s' % (s.count(old), old))
                bad = True
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        diff = sh('git diff', cwd=SC + '/repo').stdout
        # at least one removed line is original
        orig = False
        for fn in {e[0] for e in b['edits']}:
            bl = sh('git blame -s --abbrev=7 HEAD -- %s' % fn, cwd=SC + '/repo').stdout.splitlines()
            own = [not re.match(r'\^?%s' % BASE[:6], l) for l in bl]
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- %s' % fn, cwd=SC + '/repo').stdout, re.M):
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                if any(not own[i - 1] for i in range(a, a + n)):
                    orig = True
        if not orig:
            print(b['id'], 'CHANGES NO ORIGINAL LINE')
            continue
        rc, out = demo(d)
        if rc == 0 or (rc == 3 and not b.get('compile_fail')):
            print(b['id'], 'DEMO DOES NOT FAIL', rc, out[-800:])
            continue
        p = sh('CC=gcc CXX=g++ cmake -S test -B _b -G Ninja -DCMAKE_BUILD_TYPE=Release '
               '"-DCMAKE_CXX_FLAGS_RELEASE=-O0 -Wno-error" -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _b', cwd=SC + '/repo')
        if p.returncode:
            print(b['id'], 'DOES NOT BUILD', '\n'.join([l for l in p.stdout.splitlines() if 'error' in l][:4])[:1200])
            continue
        p = sh('ctest --test-dir _b -j8 --timeout 20', cwd=SC + '/repo')
        fails = re.findall(r'(\S+) \.+\**(?:Failed|Exception\S*|Subprocess\S*)', p.stdout)
        if '100% tests passed' not in p.stdout:
            print(b['id'], 'TESTS FAIL', re.findall(r'\d+ - (\S+) \(', p.stdout)[:12])
            continue
        t = os.path.join(OUT, b['id'])
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        open(t + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo.sh', t)
        shutil.copy(d + '/demo.cpp', t)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(t + '/meta.json', 'w'), indent=1)
        print(b['id'], 'KEPT (demo exits %d: %s)' % (rc, out.strip()[-150:]), flush=True)
    shutil.rmtree(SC, ignore_errors=True)


main()
