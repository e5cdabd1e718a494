#!/usr/bin/env python3
"""Mutation sweep over the library's sources (a development tool, not a check): which single-token changes does no check notice?
mutate.py list FILE...               mutants of the files (relative to the repository)
mutate.py run OUT [-j N] FILE...     for sources (.cpp, .c): a shared library per mutant, against harnesses built once
mutate.py hrun OUT [-j N] FILE=C01,C02...   for headers: ./check on a copy of the repository
Mutants of /repo are only ever made in copies below /tmp."""
import sys, os, re, subprocess, shutil, json, time, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
R = '/repo'; W = '/tmp/mutw'
OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\-=])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![>\-=])>(?![>=])', '>='), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\+\+', '--'), (r'(?<![\w])--', '++'), (r'\+ 1\b', ''), (r'- 1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'),
       (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'\bif \(', 'if (!('), (r'(?<![=!<>+\-*/|&])=(?!=) ', None), (r'\+=', '-='), (r'-=', '+='), (r'!(?=[\w(])', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* (?=[\w(])', ' + '), (r'std::move', '')]
def mutants(path):
    src = open(path).read().split('\n'); out = []; block = False
    for n, l in enumerate(src):
        s = l.strip()
        if block:
            if '*/' in s: block = False
            continue
        if s.startswith('/*'): block = '*/' not in s; continue
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('static_assert') or s.startswith('template') or s.startswith('assert'): continue
        code = l.split('//')[0]
        tmpl = re.search(r'\btemplate\b|\boperator\b|_cast<', code)
        for pat, rep in OPS:
            if rep is None: continue
            if tmpl and pat in (OPS[2][0], OPS[4][0]): continue
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                if pat in (OPS[2][0], OPS[4][0]) and not (code[m.start() - 1] == ' ' and code[m.end():m.end() + 1] == ' '): continue
                if rep == 'if (!(':
                    d = 0
                    for e in range(m.end() - 1, len(code)):
                        d += code[e] == '('; d -= code[e] == ')'
                        if not d: break
                    if d: continue
                    out.append((n, code[:m.start()] + 'if (!' + code[m.end() - 1:e + 1] + code[e:])); continue
                out.append((n, code[:m.start()] + rep + code[m.end():]))
        if code.rstrip().endswith(';') and re.match(r'\s*(?!return\b|using\b|struct\b|class\b|friend\b|typedef\b|namespace\b|extern\b|static\b|const\b|auto\b|break\b|continue\b|throw\b|goto\b|case\b|default\b)[\w:*&.>\-\[\]()!+]+[^{}]*;\s*$', code) and not re.match(r'\s*[\w:<>*&, ]+ [\w]+( = [^;]*|\{[^;]*\}|\([^;]*\))?( const| noexcept| override)*;\s*$', code):
            out.append((n, re.match(r'\s*', code).group(0) + ';'))
        if re.match(r'\s*return [^;]+;\s*$', code) and re.search(r'return [\w.>\-]+\(.*\);', code): pass
    seen = set(); r = []
    for n, t in out:
        if (n, t) in seen: continue
        seen.add((n, t)); r.append((n, src[n], t))
    return src, r
FL = ['-std=c++17', '-g1', '-O1', '-w', '-pthread', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-I' + V + '/shim', '-I' + R + '/code']
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
SKIP = {'C22', 'C23', 'C24', 'C25', 'C26', 'C29', 'C30', 'C31', 'C32', 'C33'}
ORDER = {'domain.cpp': 'C01 C02 C05 C10 C04 C28 C19 C27 C07 C08', 'object.cpp': 'C09 C10 C12 C13 C14 C15 C06', 'object_mutation.cpp': 'C09 C10 C16 C15 C06 C12', 'type.cpp': 'C19 C07 C08 C06 C13',
         'type_mutation.cpp': 'C17 C18', 'dbg_dmp.cpp': 'C28', 'mixin_info_data.cpp': 'C20 C01', 'throw_exception.cpp': 'C10 C18 C28 C02'}
def build_base():
    import registry
    os.makedirs(W, exist_ok=True); hs = []
    srcs = sorted(f'{r}/{f}' for r, _, fs in os.walk(R + '/code') for f in fs if f.endswith(('.cpp', '.c')) and '/compat/' not in r)
    jobs = []
    for s in srcs:
        fl = FL if s.endswith('.cpp') else ['-std=c11'] + FL[1:]
        jobs.append((['gcc' if s.endswith('.c') else 'g++'] + fl + ['-fPIC', '-c', s, '-o', W + '/' + os.path.basename(s) + '.o'], W + '/' + os.path.basename(s) + '.o'))
    jobs.append((['g++'] + FL + ['-I' + V + '/harness', '-c', V + '/harness/mc.cpp', '-o', W + '/mc.o'], W + '/mc.o'))
    for pid, c in registry.CHECKS.items():
        for h in c['harnesses']:
            if pid in SKIP or h.get('conf', 'asan') != 'asan' or h.get('v1') or not h.get('lib', True): continue
            objs = []
            for s in h['src']:
                if s == 'mc.cpp': objs.append(W + '/mc.o'); continue
                o = f'{W}/h_{s}.o'; objs.append(o)
                fl = FL if s.endswith('.cpp') else ['-std=c11'] + FL[1:]
                jobs.append((['gcc' if s.endswith('.c') else 'g++'] + fl + h.get('flags', []) + ['-I' + V + '/harness', '-c', f'{V}/harness/{s}', '-o', o], o))
            hs.append((pid, h['name'], objs))
    jobs = [j for j in jobs if not os.path.exists(j[1])]
    with cf.ThreadPoolExecutor(6) as p:
        for j, r in zip(jobs, p.map(lambda j: sh(j[0]), jobs)):
            if r.returncode: print(j[1], r.stdout[:2000]); sys.exit(1)
    so = [W + '/' + os.path.basename(s) + '.o' for s in srcs]
    os.makedirs(W + '/base', exist_ok=True)
    r = sh(['g++'] + FL + ['-shared', '-o', W + '/base/libdnmx.so'] + so); assert not r.returncode, r.stdout
    for pid, n, objs in hs:
        e = W + '/' + n + '.exe'
        if os.path.exists(e): continue
        r = sh(['g++'] + FL + ['-rdynamic', '-o', e] + objs + ['-L' + W + '/base', '-ldnmx', '-ldl']); assert not r.returncode, r.stdout[:2000]
    return so, hs
def run(out, nj, files, cap, only=None):
    so, hs = build_base(); done = set()
    if os.path.exists(out): done = {tuple(json.loads(l)['k']) for l in open(out)}
    todo = []
    for f in files:
        src, ms = mutants(f'{R}/{f}')
        for i, (n, old, new) in enumerate(ms):
            if (f, n, new) not in done: todo.append((f, src, n, old, new))
    print(len(todo), 'mutants'); lock = threading.Lock(); seq = iter(range(10**9))
    def one(t):
        f, src, n, old, new = t; d = f'{W}/m{next(seq)}'; os.makedirs(d); b = os.path.basename(f); res = None
        try:
            p = d + '/' + b; s = list(src); s[n] = new; open(p, 'w').write('\n'.join(s))
            fl = FL if f.endswith('.cpp') else ['-std=c11'] + FL[1:]
            r = sh(['gcc' if f.endswith('.c') else 'g++'] + fl + [f'-I{R}/' + os.path.dirname(f), '-fPIC', '-c', p, '-o', d + '/x.o'])
            if r.returncode: res = 'no build'
            else:
                r = sh(['g++'] + FL + ['-shared', '-o', d + '/libdnmx.so'] + [d + '/x.o' if os.path.basename(o) == b + '.o' else o for o in so])
                if r.returncode: res = 'no link'
            if not res:
                pri = ORDER.get(b, '').split()
                for pid, name, _ in sorted(hs, key=lambda h: (pri.index(h[0]) if h[0] in pri else 99, h[0])):
                    if only and pid not in only: continue
                    try: r = sh([f'{W}/{name}.exe', '--errdir', d, '--cap', str(cap), '--least', '0.4', '--hang', '20', '--workers', '1'], env=dict(os.environ, LD_LIBRARY_PATH=d), timeout=240, cwd=d)
                    except subprocess.TimeoutExpired: res = 'timeout ' + pid; break
                    if r.returncode: res = pid; break
                else: res = 'SURVIVED'
        finally: shutil.rmtree(d, ignore_errors=True)
        with lock: open(out, 'a').write(json.dumps({'k': [f, n, new], 'old': old.strip(), 'new': new.strip(), 'r': res}) + '\n')
    with cf.ThreadPoolExecutor(nj) as p: list(p.map(one, todo))
HORDER = {'sv.h': 'C22', 'mixin_info_data.hpp': 'C20', 'mixin_info_data_literals.hpp': 'C20', 'mixin_info.h': 'C06 C19', 'object_mutation.hpp': 'C16 C09 C10', 'mutate_to.hpp': 'C16 C18 C09', 'mixin_info_util.hpp': 'C20 C19',
          'mutate.hpp': 'C16 C17 C10', 'type.hpp': 'C19 C08', 'throw_exception.hpp': 'C10 C18 C02', 'msg_caller.hpp': 'C08', 'next_impl.hpp': 'C08', 'object.hpp': 'C09 C06 C12', 'type_mutation.hpp': 'C17', 'object_mutate_ops.hpp': 'C16',
          'mixin_common_funcs.h': 'C20', 'type_name_from_typeid.hpp': 'C20', 'domain.hpp': 'C01 C28', 'basic_type.h': 'C19 C07', 'mutate_ops.hpp': 'C16 C17', 'mixin_allocator.hpp': 'C15', 'feature_info_data.hpp': 'C20', 'domain_settings_builder.hpp': 'C24', 'mutate_to_ops.hpp': 'C16',
          'common_mutation_rules.hpp': 'C21', 'make_from_tuple.hpp': 'C23', 'mixin_id.h': 'C24', 'feature_id.h': 'C24', 'dbg_dmp.hpp': 'C28', 'common_feature_info.hpp': 'C20 C07', 'object_of.hpp': 'C06', 'domain_traverse.hpp': 'C28', 'alloc_util.hpp': 'C25 C15', 'define_mixin.hpp': 'C20', 'define_msg.hpp': 'C08 C20'}
NS = ['-std=c++17', '-g1', '-O0', '-w', '-pthread']
def hrun(out, nj, files, cap):
    """headers: everything that includes the header is compiled again (without sanitizers: this is a filter, survivors are looked at)"""
    import registry
    D = W + '/h'; os.makedirs(D, exist_ok=True); done = set()
    if os.path.exists(out): done = {tuple(json.loads(l)['k']) for l in open(out)}
    srcs = sorted(f'{r}/{f}' for r, _, fs in os.walk(R + '/code') for f in fs if f.endswith(('.cpp', '.c')) and '/compat/' not in r)
    hs = {}
    for pid, c in registry.CHECKS.items():
        for h in c['harnesses']:
            if h.get('conf', 'asan') != 'asan' or h.get('v1') or not h.get('lib', True): continue
            hs.setdefault(pid, []).append(h)
    def cmd(s, root, o, extra=()): return (['gcc', '-std=c11'] + NS[1:] if s.endswith('.c') else ['g++'] + NS) + list(extra) + [f'-I{V}/shim', f'-I{root}/code', f'-I{V}/harness', '-c', s, '-o', o]
    deps = {}; jobs = []
    allsrc = [(s, ()) for s in srcs] + [(f'{V}/harness/{s}', tuple(h.get('flags', []))) for l in hs.values() for h in l for s in h['src']]
    for s, fl in dict(allsrc).items():
        o = D + '/' + os.path.basename(s) + '.o'; jobs.append((s, fl, o))
    def pre(j):
        s, fl, o = j
        if not os.path.exists(o):
            r = sh(cmd(s, R, o, fl)); assert not r.returncode, r.stdout[:2000]
        c = cmd(s, R, '/dev/null', fl); c[c.index('-c')] = '-MM'; i = c.index('-o'); del c[i:i + 2]
        deps[s] = set(os.path.realpath(x) for x in sh(c).stdout.replace('\\\n', ' ').split()[1:])
    with cf.ThreadPoolExecutor(nj) as p: list(p.map(pre, jobs))
    todo = []
    for f in files:
        src, ms = mutants(f'{R}/{f}')
        for n, old, new in ms:
            if (f, n, new) not in done: todo.append((f, src, n, old, new))
    print(len(todo), 'mutants', flush=True); lock = threading.Lock(); seq = iter(range(10**9))
    def one(t):
        f, src, n, old, new = t; d = f'{D}/m{next(seq)}'; os.makedirs(d); res = None; path = os.path.realpath(f'{R}/{f}')
        try:
            shutil.copytree(R + '/code', d + '/code'); s = list(src); s[n] = new; open(d + '/' + f, 'w').write('\n'.join(s))
            def obj(s, fl):
                if path not in deps[s]: return D + '/' + os.path.basename(s) + '.o'
                o = d + '/' + os.path.basename(s) + '.o'
                if not os.path.exists(o):
                    r = sh(cmd(s.replace(R, d, 1) if s.startswith(R + '/') else s, d, o, fl))
                    if r.returncode: raise RuntimeError(r.stdout)
                return o
            try:
                lib = [obj(s, ()) for s in srcs]
                pri = HORDER.get(os.path.basename(f), '').split()
                order = sorted(hs, key=lambda p: (pri.index(p) if p in pri else 99, p))
                for pid in order:
                    for h in hs[pid]:
                        ho = [obj(f'{V}/harness/{s}', tuple(h.get('flags', []))) for s in h['src']]
                        if all(not o.startswith(d) for o in lib + ho): continue
                        e = d + '/x.exe'; r = sh(['g++', '-pthread', '-rdynamic', '-o', e] + ho + lib + ['-ldl'])
                        if r.returncode: raise RuntimeError(r.stdout)
                        try: r = sh([e, '--errdir', d, '--cap', str(cap), '--least', '0.3', '--hang', '20', '--workers', '1'], timeout=200, cwd=d)
                        except subprocess.TimeoutExpired: res = 'timeout ' + pid; break
                        if r.returncode: res = pid; break
                    if res: break
                else: res = 'SURVIVED'
            except RuntimeError as x: res = 'no build'
        finally: shutil.rmtree(d, ignore_errors=True)
        with lock: open(out, 'a').write(json.dumps({'k': [f, n, new], 'old': old.strip(), 'new': new.strip(), 'r': res}) + '\n')
    with cf.ThreadPoolExecutor(nj) as p: list(p.map(one, todo))
def main():
    a = sys.argv[1:]; nj = 4; cap = 4.0; only = None
    if '-j' in a: i = a.index('-j'); nj = int(a[i + 1]); del a[i:i + 2]
    if '--cap' in a: i = a.index('--cap'); cap = float(a[i + 1]); del a[i:i + 2]
    if '--only' in a: i = a.index('--only'); only = a[i + 1].split(','); del a[i:i + 2]
    if a[0] == 'list':
        for f in a[1:]:
            for n, o, t in mutants(f'{R}/{f}')[1]: print(f'{f}:{n + 1}: {o.strip()}  ->  {t.strip()}')
    elif a[0] == 'run': run(a[1], nj, a[2:], cap, only)
    elif a[0] == 'hrun': hrun(a[1], nj, a[2:], cap)
if __name__ == '__main__': main()
