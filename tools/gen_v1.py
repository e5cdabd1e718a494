#!/usr/bin/env python3
"""Port of v1compat/gen/gen_message_macros.rb (ruby is not installed here).
usage: gen_v1.py REPO OUTDIR  -> OUTDIR/gen/*.ipp"""
import os, re, sys
repo, out = sys.argv[1:3]
src = os.path.join(repo, 'v1compat/gen')
dst = os.path.join(out, 'gen')
os.makedirs(dst, exist_ok=True)
rd = lambda n: open(os.path.join(src, n)).read()
MAX = int(rd('arity').strip()) + 1

def fmt(t, p):
    return re.sub(r'%\{(\w+)\}', lambda m: str(p[m.group(1)]), t)

def params(n):
    if n == 0:
        return dict(arity=0, args='', arg_types='', args_coma='', args_signature='', coma_args_signature='',
                    coma_args='', coma_arg_types='', fwd_args='', coma_fwd_args='')
    a = ['a%d' % i for i in range(n)]
    t = ['arg%d_type' % i for i in range(n)]
    sig = ', '.join(x + ' ' + y for x, y in zip(t, a))
    fwd = ', '.join('std::forward<%s>(%s)' % (x, y) for x, y in zip(t, a))
    return dict(arity=n, args=', '.join(a), arg_types=', '.join(t),
                args_coma=', ' + ', '.join(x + ', ' + y for x, y in zip(t, a)),
                args_signature=sig, coma_args_signature=', ' + sig, coma_args=', ' + ', '.join(a),
                coma_arg_types=', ' + ', '.join(t), fwd_args=fwd, coma_fwd_args=', ' + fwd)

def w(name, text):
    with open(os.path.join(dst, name), 'w') as f:
        f.write('// generated\n\n' + text)

lines = lambda n: [l.strip() for l in rd(n).splitlines() if l.strip()]
w('template_message_macros.ipp', ''.join(fmt(rd('message_macros_template'), params(i)) for i in range(MAX)))
w('arity_message_macros.ipp', '#include <limits>\n#include <type_traits>\n' + ''.join(fmt(rd('arity_message_macros_template'), params(i)) for i in range(MAX)))

args = {'args': ', '.join('arg%d_type, a%d' % (i, i) for i in range(MAX - 1)) + ', MACRO, ...'}
o = []
for l in lines('no_arity_message_macros_template'):
    ma = re.search(r'D[^(]+', l).group(0)
    mg = re.search(r'\(.+\)', l).group(0)
    macro = fmt(ma, {'arity': ''})
    get = '_GET_%s_MACRO' % macro
    ar = ', I_DYNAMIX_MESSAGE_ARG_ERROR, '.join(fmt(ma, {'arity': '_%d' % i}) for i in range(MAX - 1, -1, -1))
    o.append('#define %s(...) \\\n   I_DYNAMIX_VA_ARGS_PROXY(%s, (__VA_ARGS__, %s))(__VA_ARGS__)' % (macro, get, ar))
    o.append('#define %s%s MACRO' % (get, fmt(mg, args)))
w('no_arity_message_macros.ipp', '#pragma once\n\n' + '\n'.join(o) + '\n')

shorten = [('DYNAMIX_V1_', ''), ('MESSAGE', 'MSG'), ('CONST', 'C'), ('MULTICAST', 'MULTI'), ('EXPORTED', 'X'),
           ('OVERLOAD', 'OVLD'), ('WITH_DEFAULT_IMPL', 'IMPL'), ('DEFINE', 'DEF')]
o = []
for l in lines('short_message_macros_template'):
    s = l
    for k, v in shorten:
        s = s.replace(k, v, 1)
    l = l.replace('%{arity}', '_%{arity}', 1)
    t = '#define %s %s' % (s, l)
    o += [fmt(t, {'arity': i}) for i in range(MAX)]
o.append('#define DEF_MSG DYNAMIX_DEFINE_MESSAGE')
w('short_message_macros.ipp', '#pragma once\n\n' + '\n'.join(o) + '\n')
w('undef_message_macros.ipp', '\n'.join(fmt('#undef ' + l, {'arity': i}) for l in lines('undef_message_macros_template') for i in range(MAX)) + '\n')
w('create_combinator_call.ipp', ''.join(fmt(rd('create_combinator_call_template'), params(i)) for i in range(MAX)))
