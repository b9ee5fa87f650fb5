"""C14: the scalar API (nsimd_scalar_* and the C++ overloads nsimd::scalar_*)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, specs, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Int, Out

EXTS = ['cpu', 'sse2', 'avx2', 'avx512_skylake']
ARITH = ['add', 'sub', 'mul', 'div', 'neg', 'abs', 'min', 'max', 'fma', 'fms', 'fnma', 'fnms', 'ceil', 'floor', 'trunc',
         'round_to_even', 'adds', 'subs']
FONLY = ['sqrt', 'rec', 'rec11', 'rec8', 'rsqrt11', 'rsqrt8']
BIT = ['andb', 'orb', 'xorb', 'andnotb', 'notb']
SH = ['shl', 'shr', 'shra']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
UN = ['neg', 'abs', 'ceil', 'floor', 'trunc', 'round_to_even', 'notb', 'sqrt', 'rec', 'rec11', 'rec8', 'rsqrt11', 'rsqrt8']
TER = ['fma', 'fms', 'fnma', 'fnms']


def ops(t):
    r = ARITH + BIT + CMP
    if B.isf(t):
        r = r + FONLY
    else:
        r = r + (SH if B.sgnd(t) else SH)
    return r


def call(cxx, name, suf, args):
    return ('nsimd::scalar_%s(%s)' % (name, args)) if cxx else 'nsimd_scalar_%s_%s(%s)' % (name, suf, args)


def build(st, tier):
    groups, cases = [], []
    for ext, cxx in [(e, False) for e in EXTS] + [('sse2', True), ('avx2', True)]:
        key = ext + ('cxx' if cxx else '')
        src = ['#include <nsimd/nsimd.h>\n']
        if cxx:
            src.append('extern "C" {\n')

        def case(op, t, tt, sym, code, args, good, pre=None):
            src.append(code)

            def post(env):
                return [('result', good(env))]
            cases.append(Case('%s/%s/%s' % (key, op, t if tt == t else tt + '_' + t), sym, args, post, pre, mod=key, fn=('nsimd::scalar_' if cxx else 'nsimd_scalar_') + op + '_' + t))

        for t in B.TYPES:
            w = B.wid(t)
            k = B.lk(t)
            for op in ops(t):
                if op in SH:
                    ps, kinds = ['%s *a0' % t, 'int a1'], 'vs'
                else:
                    n = 1 if op in UN else 3 if op in TER else 2
                    ps, kinds = ['const %s *a%d' % (t, i) for i in range(n)], 'v' * n
                ret = 'i32' if op in CMP else t
                sym = 'w_%s_%s' % (op, t)
                code = 'void %s(%s *o, %s) { *o = %s; }\n' % (
                    sym, ret, ', '.join(ps), call(cxx, op, t, ', '.join('*a0' if c == 'v' and i == 0 else '*a%d' % i if c == 'v' else 'a%d' % i
                                                                        for i, c in enumerate(kinds))))
                args = [Out('o', B.wid(ret), 1, B.lk(ret))]
                args += [Buf('a%d' % i, w, 1, kind=k) if c == 'v' else Int('a%d' % i, 32) for i, c in enumerate(kinds)]

                def vals(env, kinds=kinds):
                    return [env['a%d' % i][0] if c == 'v' else env['a%d' % i] for i, c in enumerate(kinds)]

                def good(env, op=op, t=t, vals=vals):
                    r = env.o['o'][0]
                    if op in CMP:
                        return S.b_and(S.ule(32, r, 1), specs.good(op, t, t, S.b_not(S.eq(32, r, 0)), vals(env)))
                    return specs.good(op, t, t, r, vals(env))

                def pre(env, op=op, t=t, vals=vals):
                    if op in BIT:
                        return []
                    return [p for p in specs.pre(op, t, t, vals(env)) if not (S.isc(p) and p)]
                if op in BIT and t == 'f16':
                    def good(env, op=op, vals=vals):
                        return specs.good(op, 'u16', 'u16', env.o['o'][0], vals(env))
                case(op, t, t, sym, code, args, good, pre)
            for op in ('cvt', 'reinterpret'):
                for tt in [x for x in B.TYPES if B.wid(x) == w]:
                    sym = 'w_%s_%s_%s' % (op, tt, t)
                    c = 'nsimd::scalar_%s(%s(), *a0)' % (op, tt) if cxx else 'nsimd_scalar_%s_%s_%s(*a0)' % (op, tt, t)
                    code = 'void %s(%s *o, const %s *a0) { *o = %s; }\n' % (sym, tt, t, c)

                    def good(env, op=op, t=t, tt=tt):
                        if op == 'reinterpret':
                            return S.eq(B.wid(tt), env.o['o'][0], env['a0'][0]) if not B.isf(t) or not B.isf(tt) else \
                                B.veq(tt, env.o['o'][0], env['a0'][0])
                        return specs.good(op, t, tt, env.o['o'][0], [env['a0'][0]])

                    def pre(env, op=op, t=t, tt=tt):
                        if op == 'reinterpret':
                            return []
                        return [p for p in specs.pre(op, t, tt, [env['a0'][0]]) if not (S.isc(p) and p)]
                    case(op, t, tt, sym, code, [Out('o', w, 1, B.lk(tt)), Buf('a0', w, 1, kind=k)], good, pre)
            # logicals
            sym = 'w_to_logical_%s' % t
            case('to_logical', t, t, sym, 'void %s(i32 *o, const %s *a0) { *o = %s; }\n' % (
                sym, t, 'nsimd::scalar_to_logical(*a0)' if cxx else 'nsimd_scalar_to_logical_%s(*a0)' % t),
                [Out('o', 32, 1), Buf('a0', w, 1, kind=k)],
                lambda env, w=w, t=t: S.b_and(S.ule(32, env.o['o'][0], 1), specs.good('to_logical', t, t, S.b_not(S.eq(32, env.o['o'][0], 0)), [env['a0'][0]])))
            sym = 'w_to_mask_%s' % t
            case('to_mask', t, t, sym, 'void %s(%s *o, int a0) { *o = %s; }\n' % (
                sym, t, 'nsimd::scalar_to_mask(%s(), a0)' % t if cxx else 'nsimd_scalar_to_mask_%s(a0)' % t),
                [Out('o', w, 1, k), Int('a0', 32)],
                lambda env, w=w: S.eq(w, env.o['o'][0], S.ite(w, S.eq(32, env['a0'], 0), 0, S.mask(w))))
        for op in ('andl', 'orl', 'xorl', 'andnotl', 'notl'):
            n = 1 if op == 'notl' else 2
            sym = 'w_' + op
            case(op, 'int', 'int', sym, 'void %s(i32 *o, %s) { *o = %s; }\n' % (
                sym, ', '.join('int a%d' % i for i in range(n)),
                '%s%s(%s)' % ('nsimd::scalar_' if cxx else 'nsimd_scalar_', op, ', '.join('a%d' % i for i in range(n)))),
                [Out('o', 32, 1)] + [Int('a%d' % i, 32) for i in range(n)],
                lambda env, op=op, n=n: specs.good(op, 'i32', 'i32', S.b_not(S.eq(32, env.o['o'][0], 0)),
                                                   [S.b_not(S.eq(32, env['a%d' % i], 0)) for i in range(n)]))
        if cxx:
            src.append('}\n')
        groups.append(Group(key, ext, ''.join(src), cxx=cxx, ir_srcs=['src/fp16.cpp'] if False else ()))
    return groups, cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C14', build,
        bounds='one call; every bit pattern of every operand; all 11 types; C functions compiled for cpu, sse2, avx2 and '
               'avx512_skylake, C++ overloads for sse2 and avx2',
        assumptions=['division by zero and an unrepresentable quotient, out-of-range float to integer conversions and shift '
                     'counts outside 0..width-1 are outside the specification']))
