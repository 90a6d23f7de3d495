"""Mechanical extraction: compile an instantiation unit against /repo's current headers to LLVM IR."""
import hashlib
import os
import re
import subprocess
import tempfile
from . import ir

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'
CXXFILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'
FN = 'function(sroa,simplifycfg,instcombine<no-verify-fixpoint>,early-cse,jump-threading,simplifycfg,instcombine<no-verify-fixpoint>,early-cse,simplifycfg)'
PASSES = ['internalize,globaldce,' + FN, 'cgscc(inline),globaldce,' + FN, FN + ',globaldce']
FLAGS = ['-std=c++17', '-march=x86-64-v2', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
         '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-strict-aliasing', '-w']
# library functions that are kept as calls (their contracts are assumed)
NOINLINE = re.compile(r'^(std::|__gnu_cxx::|(virtual )?thunk|cybozu::Exception::)')
INLINE_OK = re.compile(r'std::(min|max|swap|move|forward|__addressof|addressof|numeric_limits|abs)\b|__normal_iterator|^bool __gnu_cxx|__gnu_cxx::operator|^decltype')


class BuildError(Exception):
    pass


def sh(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    return r


def compile_ir(tu, roots, defs=(), keep=None, noinline=None, tmp=None, want_text=False, extra_flags=()):
    """tu: path of the instantiation unit; roots: functions to keep; noinline: regex of extra functions kept as calls"""
    tmp = tmp or tempfile.mkdtemp(prefix='vf')
    base = os.path.join(tmp, os.path.basename(tu).replace('.cpp', '') + hashlib.md5(repr((roots, defs)).encode()).hexdigest()[:6])
    a, b = base + '.a.ll', base + '.b.ll'
    r = sh([CLANG] + FLAGS + list(extra_flags) + ['-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'tu')] + ['-D' + d for d in defs] + ['-S', '-emit-llvm', tu, '-o', a])
    if r.returncode:
        raise BuildError(r.stderr[-4000:])
    txt = open(a).read()
    names = re.findall(r'^define [^@]*@("[^"]*"|[\w.$\-]+)\(', txt, re.M)
    names = [n.strip('"') for n in names]
    d = dict(zip(names, sh([CXXFILT], input='\n'.join(names)).stdout.split('\n')))
    nl = set()
    for n, dm in d.items():
        core = dm
        if noinline is not None and noinline.search(dm):
            nl.add(n)
            continue
        # strip a leading return type of template functions for the test
        q = re.sub(r'^[\w:<>,&* ()]*? (?=std::|__gnu_cxx::|cybozu::)', '', dm)
        if (NOINLINE.search(dm) or NOINLINE.search(q)) and not INLINE_OK.search(dm):
            nl.add(n)
    out = []
    for l in txt.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', l)
            n = m.group(1).strip('"')
            if n in nl:
                # attributes come after the parameter list
                l = re.sub(r'\) ((?:local_unnamed_addr|unnamed_addr) )?(#\d+)', lambda mm: ') %snoinline %s' % (mm.group(1) or '', mm.group(2)), l, count=1)
            else:
                pass
        elif l.startswith('attributes #'):
            l = l.replace(' noinline ', ' ').replace(' alwaysinline ', ' ')
        out.append(l)
    open(a, 'w').write('\n'.join(out))
    src = a
    for p in PASSES:
        r = sh([OPT, '-S', '-passes=' + p, '-internalize-public-api-list=' + ','.join(list(roots) + ['vf_layout']), '-inline-threshold=100000', src, '-o', b])
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        src = b
    text = open(b).read()
    for q in (a, b):
        if not os.environ.get('VF_KEEP'):
            os.unlink(q)
    if want_text:
        return text
    return ir.parse(text)
