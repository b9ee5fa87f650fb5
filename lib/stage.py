"""Scratch staging of /repo's current working tree, compilation to LLVM IR and to native shared objects."""
import atexit
import os
import shutil
import signal
import subprocess
import tempfile
import time

REPO = os.environ.get('VERIF_REPO', '/repo')

EXTS = ['cpu', 'sse2', 'sse42', 'avx', 'avx2', 'avx512_knl', 'avx512_skylake']
EXT_FLAGS = {
    'cpu': ['-DCPU'],
    'sse2': ['-DSSE2', '-msse2'],
    'sse42': ['-DSSE42', '-msse4.2'],
    'avx': ['-DAVX', '-mavx'],
    'avx2': ['-DAVX2', '-mavx2', '-mfma', '-DFP16', '-mf16c', '-DFMA'],
    'avx512_knl': ['-DAVX512_KNL', '-mavx512f', '-mavx512pf', '-mavx512er', '-mavx512cd', '-mfma', '-DFP16', '-mf16c',
                   '-DFMA'],
    'avx512_skylake': ['-DAVX512_SKYLAKE', '-mavx512f', '-mavx512dq', '-mavx512cd', '-mavx512bw', '-mavx512vl',
                       '-mfma', '-DFP16', '-mf16c', '-DFMA'],
}
VBITS = {'cpu': 128, 'sse2': 128, 'sse42': 128, 'avx': 256, 'avx2': 256, 'avx512_knl': 512, 'avx512_skylake': 512}
IRFLAGS = ['-O1', '-S', '-emit-llvm', '-U__clang__', '-w', '-fwrapv', '-fno-strict-aliasing', '-ffp-contract=off',
           '-fno-vectorize', '-fno-slp-vectorize']
NATFLAGS = ['-O2', '-DNDEBUG', '-fPIC', '-shared', '-w', '-ffp-contract=off']
CPUNEED = {'cpu': [], 'sse2': ['sse2'], 'sse42': ['sse4_2'], 'avx': ['avx'], 'avx2': ['avx2', 'fma', 'f16c'],
           'avx512_knl': ['avx512f', 'avx512cd', 'fma', 'f16c'],
           'avx512_skylake': ['avx512f', 'avx512dq', 'avx512cd', 'avx512bw', 'avx512vl', 'fma', 'f16c']}


def cpu_flags():
    try:
        for ln in open('/proc/cpuinfo'):
            if ln.startswith('flags'):
                return set(ln.split(':', 1)[1].split())
    except OSError:
        pass
    return set()


def can_run(ext):
    f = cpu_flags()
    return all(x in f for x in CPUNEED[ext])


PRE = '''
#include <cstring>
#include <cstdlib>
#include <cstddef>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdio>
#include <new>
#include <limits>
#include <algorithm>
#include <vector>
#include <iostream>
#include <functional>
#include <utility>
#if __cplusplus >= 201103L
#include <type_traits>
#include <cstdint>
#include <memory>
#endif
#include <immintrin.h>
#undef __clang__
'''


class StageError(Exception):
    pass


class Stage:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='nsimd-verif-')
        self.pid = os.getpid()
        atexit.register(self.close)
        signal.signal(signal.SIGTERM, lambda *a: os._exit(3) if os.getpid() != self.pid else (self.close(), os._exit(3)))
        t0 = time.time()
        self.src = os.path.join(self.dir, 'nsimd')
        os.mkdir(self.src)
        # tracked and new, non-ignored files of the sub-trees that make up the library
        ls = subprocess.run(['git', '-C', REPO, '-c', 'safe.directory=*', 'ls-files', '-z', '-c', '-o', '--exclude-standard', 'egg', 'include', 'src'],
                            stdout=subprocess.PIPE)
        names = [x for x in ls.stdout.split(b'\0') if x]
        if ls.returncode or not names:
            raise StageError('cannot list %s' % REPO)
        for n in names:
            n = n.decode()
            s = os.path.join(REPO, n)
            if not os.path.isfile(s):
                continue
            d = os.path.join(self.src, n)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(s, d)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['python3', '-B', 'egg/hatch.py', '-lf'], cwd=self.src, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise StageError('hatch.py failed: ' + r.stdout[-2000:])
        self.hatch_s = time.time() - t0
        self.compile_s = 0.0

    def close(self):
        if os.getpid() == self.pid and self.dir and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def ir_cmd(self, src, ext, cxx=False, extra=(), out=None, std=None):
        cc = 'clang++' if cxx else 'clang'
        std = std or ('c++11' if cxx else 'gnu99')
        out = out or os.path.splitext(src)[0] + '.ll'
        fl = [x for x in IRFLAGS]
        if cxx:
            # the system headers need to see clang; the library must not (gcc code paths)
            pre = self.path('pre.hpp')
            if not os.path.exists(pre):
                self.write('pre.hpp', PRE)
            fl = [x for x in fl if x != '-U__clang__'] + ['-include', pre]
        return [cc] + fl + ['-std=' + std, '-I' + os.path.join(self.src, 'include')] + EXT_FLAGS[ext] + list(extra) + \
            ['-o', out, src], out

    def so_cmd(self, srcs, ext, out, cxx=False, extra=(), std=None):
        cc = 'g++' if cxx else 'gcc'
        std = std or ('c++11' if cxx else 'gnu99')
        return [cc] + NATFLAGS + ['-std=' + std, '-I' + os.path.join(self.src, 'include')] + EXT_FLAGS[ext] + \
            list(extra) + ['-o', out] + list(srcs)


def run_all(cmds, jobs=8):
    """run commands in parallel; -> list of (rc, stderr)"""
    from concurrent.futures import ThreadPoolExecutor

    def one(c):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, cmds))
