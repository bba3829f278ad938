"""Compile /repo's current sources: to one linked LLVM module (model headers) and to native objects (real headers)."""
import re, os, subprocess, glob, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
EXCLUDE = {'Narsese/Parser/generate.cpp'}      # developer tool: regenerates the parser tables, not part of the library


def sources():
    pats = ['Config.cpp', 'Global.cpp', 'Narsese/src/*.cpp', 'Narsese/Parser/*.cpp', 'Interpreter/src/*.cpp', 'utils/*.cpp', 'NAL/Functions/src/*.cpp']
    out = []
    for p in pats:
        out += sorted(os.path.relpath(f, REPO) for f in glob.glob(os.path.join(REPO, p)))
    return [f for f in out if f not in EXCLUDE]


def incs(repo=None):
    r = repo or REPO
    return ['-I' + r, '-I' + r + '/Narsese', '-I' + r + '/Narsese/Parser', '-I' + r + '/Interpreter', '-I' + r + '/utils']


MODEL = [LLVM + 'clang++', '-std=gnu++20', '-w', '-DNDEBUG', '-DVF_MODEL', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-threadsafe-statics',
         '-fno-access-control', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd[:3]) + ' ... : ' + p.stderr[-3000:])
    return p


def model_module(harness, work, only=None):
    """-> path of the linked, simplified .ll"""
    os.makedirs(work, exist_ok=True)
    srcs = [os.path.join(REPO, s) for s in sources()] + [harness]
    inc = ['-I' + VERIF + '/model/include', '-I' + VERIF + '/stubs', '-I' + VERIF + '/harness'] + incs()

    flags = [x for m in re.finditer(r'^// CFLAG (.*)$', open(harness).read(), re.M) for x in m.group(1).split()]

    def one(s):
        o = os.path.join(work, os.path.relpath(s, '/').replace('/', '_') + '.bc')
        run(MODEL + flags + inc + ['-emit-llvm', '-c', s, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    allbc = os.path.join(work, 'all.bc')
    run([LLVM + 'llvm-link'] + objs + ['-o', allbc])
    ll = os.path.join(work, 'all.ll')
    run([LLVM + 'opt', '-passes=function(sroa,early-cse,simplifycfg)', '-S', allbc, '-o', ll])
    return ll


NATIVE = ['g++', '-std=gnu++20', '-w', '-O1', '-g1', '-fno-access-control', '-fno-omit-frame-pointer']


def native_objs(work, extra=(), jobs=8):
    """objects of the real library (real STL and fmt, pybind11 stubbed)"""
    os.makedirs(work, exist_ok=True)
    inc = ['-I' + VERIF + '/stubs', '-I' + VERIF + '/harness'] + incs() + fmt_inc()

    def one(s):
        o = os.path.join(work, os.path.relpath(s, '/').replace('/', '_') + '.o')
        run(NATIVE + list(extra) + inc + ['-c', s, '-o', o])
        return o
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, [os.path.join(REPO, s) for s in sources()]))


def fmt_inc():
    for d in (REPO + '/build/_deps/fmt-src/include', '/usr/include'):
        pass
    return ['-DFMT_HEADER_ONLY', '-DFMT_CONSTEVAL=', '-Wno-attributes'] + ([] if os.path.exists('/usr/include/fmt/core.h') else ['-I' + p for p in glob.glob('/opt/vp/**/fmt*/include', recursive=True)])


def native_exe(harness, work, extra=()):
    objs = native_objs(work, extra)
    inc = ['-I' + VERIF + '/stubs', '-I' + VERIF + '/harness'] + incs() + fmt_inc()
    exe = os.path.join(work, 'native')
    hs = [harness, VERIF + '/harness/native_main.cpp']

    def one(s):
        o = os.path.join(work, 'h_' + os.path.basename(s) + '.o')
        run(NATIVE + list(extra) + inc + ['-c', s, '-o', o])
        return o
    with ThreadPoolExecutor(4) as ex:
        ho = list(ex.map(one, hs))
    run(['g++', '-rdynamic'] + list(extra) + ho + objs + ['-o', exe])
    return exe
