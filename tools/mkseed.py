#!/usr/bin/env python3
"""mkseed.py DIR: DIR has patch.diff, demo.cpp, meta.json. Confirms the planted bug in /repo (applied, then undone): the demo passes without
it, fails with it, the stable tests pass with it; runs the property's check against it. Adds demo.sh and the stand-in headers."""
import json, os, shutil, subprocess, sys
R = os.environ.get('SEED_REPO', '/repo')  # a copy of the repository can be used for everything but the stable tests
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds the library of the current directory (cwd: the repository) and demo.cpp next to this file; exit 0: the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
F="-g1 -O1 -w -pthread -I$d/shim -I$PWD/code %s"
for f in code/dynamix/*.cpp %s; do echo "g++ -std=c++17 $F -c $f -o $t/$(echo $f | tr / _).o"; done > $t/jobs
echo "gcc -std=c11 $F -c code/dnmx/mixin_common_funcs.c -o $t/common.c.o" >> $t/jobs
echo "g++ -std=c++17 $F -c $d/demo.cpp -o $t/demo.o" >> $t/jobs
for f in $d/unit*.cpp; do [ -f "$f" ] && echo "g++ -std=c++17 $F -c $f -o $t/$(basename $f).o" >> $t/jobs; done
for f in $d/plugin*.cpp; do [ -f "$f" ] && echo "g++ -std=c++17 $F -fPIC -shared -fvisibility=hidden -fno-gnu-unique $f -o $t/$(basename $f .cpp).so" >> $t/jobs; done
%sxargs -P 8 -I{} sh -c '{} || exit 255' < $t/jobs || { echo "build failed"; exit 2; }
g++ $F -rdynamic -o $t/demo $t/*.o -ldl || exit 2
ulimit -c 0
timeout 120 $t/demo $t
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
for d in sys.argv[1:]:
    d = os.path.abspath(d); m = json.load(open(d + '/meta.json'))
    shutil.rmtree(d + '/shim', ignore_errors=True); shutil.copytree(V + '/shim', d + '/shim')
    v1 = m.get('v1')
    gen = ''
    if v1:
        shutil.copy(V + '/tools/gen_v1.py', d + '/gen_v1.py')
        gen = 'python3 "$d/gen_v1.py" "$PWD" "$t/gen" || exit 2\n'
    flags = ('-fsanitize=address,undefined -fno-sanitize-recover=undefined ' if m.get('asan') else '') + ('-I$t/gen -I$PWD/v1compat/code ' if v1 else '') + m.get('flags', '')
    open(d + '/demo.sh', 'w').write(DEMO % (flags.strip(), 'v1compat/code/dynamix/v1compat/*.cpp' if v1 else m.get('srcs', ''), gen))
    assert not sh('git -C ' + R + ' status --porcelain').stdout.strip(), '/repo is not clean'
    r = sh(f'bash {d}/demo.sh', cwd=R)
    if r.returncode: print(d, 'BAD: demo fails on the unchanged tree', r.stdout[-3000:]); continue
    r = sh(f'git -C {R} apply {os.path.abspath(d)}/patch.diff')
    if r.returncode: print(d, 'BAD: apply', r.stdout); continue
    try:
        b = t = sh('true'); tj = '(not run)'
        if R == '/repo': b = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/seed-test.json'); tj = open('/tmp/seed-test.json').read()
        r = sh(f'bash {d}/demo.sh', cwd=R)
        c = sh(f'DYNAMIX_REPO={R} {V}/check {m["property"]}')
    finally:
        sh('git -C ' + R + ' checkout -- .')
        if R == '/repo': sh('bash /opt/vp/build.sh')
    print(os.path.basename(d), 'demo rc', r.returncode, 'BAD' if r.returncode in (0, 2) else 'ok', '| build', b.returncode, '| tests', t.returncode, tj.replace('\n', ' ')[:160], '| check', m['property'], 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + m['property'] in c.stdout else 'MISSED rc=%d' % c.returncode)
    print('   demo:', r.stdout.strip()[-200:]); print('   check:', [l for l in c.stdout.split('\n') if l][-2:][0][:250])
