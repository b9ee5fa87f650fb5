"""C18: SPMD kernels: every element sees the C++ meaning of the kernel's control flow, whatever the other elements do."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, specs, spmdk as K, stage as stg, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Int, Out


def ld(a):
    return ('ld', a)


def v(n):
    return ('v', n)


def c(n):
    return ('c', n)


def lt(a, b):
    return ('<', a, b)


X, Y, Z, R, ONE, ZERO = v('x'), v('y'), v('z'), v('r'), c(1), c(0)
LD = [('var', 'K', 'i', ld('a')), ('var', 'K', 'j', ld('a')), ('var', 'K', 'x', ld('a')), ('var', 'K', 'y', ld('b')), ('var', 'K', 'z', ld('d')), ('var', 'K', 'r', ld('a'))]
INIT = LD + [('set', 'r', ld('o'))]
OUT = [('st', 'o', R)]


def inc(n='r', k=1):
    return ('set', n, ('+', v(n), c(k)))


def IF(cond, a, b=None):
    return ('if', [(cond, a)], b)


def bit(n):
    return ('!=', ('&', v(n), ONE), ZERO)


def loop(body, lim=3, cond=None):
    """i = 0; while (i < lim && cond) { ++i; body }"""
    g = lt(v('i'), c(lim))
    return [('set', 'i', ZERO), ('while', ('&&', g, cond) if cond else g, [inc('i')] + body)]


def shift(n='x'):
    return ('set', n, ('shr', v(n), 1))


def programs():
    """name -> program over inputs a b d and output o (o starts with arbitrary content); integer kernels"""
    P = {}
    P['straight'] = LD + [('set', 'r', ('+', ('*', X, Y), Z)), ('st', 'o', R)]
    P['if'] = INIT + [IF(lt(X, Y), [('set', 'r', Z)])] + OUT
    P['if_else'] = INIT + [IF(lt(X, Y), [('set', 'r', Z)], [('set', 'r', ('+', X, Y))])] + OUT
    chain = [(('==', X, ZERO), [('set', 'r', ONE)]), (lt(X, Y), [('set', 'r', c(2))]), (lt(Y, Z), [('set', 'r', c(3))])]
    P['if_elseif'] = INIT + [('if', chain, None)] + OUT
    P['if_elseif_else'] = INIT + [('if', chain, [('set', 'r', c(4))])] + OUT
    P['nested_if'] = INIT + [IF(lt(X, Y), [IF(lt(Y, Z), [('set', 'r', X)], [('set', 'r', Y)]), inc()],
                                [IF(('==', X, Z), [('set', 'r', Z)]), inc('r', 2)]), inc('r', 4)] + OUT
    P['cond_modified'] = INIT + [('if', [(lt(X, Y), [('set', 'x', Y), inc()]), (('>=', X, Y), [inc('r', 2)])], [inc('r', 4)])] + OUT
    P['store_in_if'] = LD + [IF(lt(X, Y), [('st', 'o', Z)])]
    P['store_in_else'] = LD + [('if', [(lt(X, Y), []), (('==', Y, Z), [])], [('st', 'o', X)])]
    P['load_in_if'] = INIT + [IF(lt(X, Y), [('set', 'r', ld('d'))])] + OUT
    P['unmasked'] = LD + [('uset', 'r', ('+', ('uld', 'o'), ('uld', 'b'))), IF(lt(X, Y), [inc()]), ('ust', 'o', R)]
    P['bool_set'] = INIT + [('var', 'k_bool', 'q', lt(X, Y)), IF(lt(Y, Z), [('setb', 'q', lt(Z, X))]), IF(v('q'), [inc()])] + OUT
    P['bool_set_const'] = INIT + [('var', 'k_bool', 'q', lt(X, Y)), IF(lt(Y, Z), [('setb', 'q', ('T',))]),
                                  IF(('&&', v('q'), ('!', lt(Z, X))), [inc()])] + OUT
    P['bool_ops'] = INIT + [IF(('||', ('&&', lt(X, Y), ('!', ('==', Y, Z))), ('>', X, Z)), [inc()])] + OUT
    P['return'] = INIT + [IF(lt(X, Y), [('st', 'o', X), ('return',)]), ('st', 'o', Y)]
    P['return_chain'] = INIT + [('if', [(lt(X, Y), [('return',)]), (lt(Y, Z), [inc()])], [inc('r', 2), ('return',)]), inc('r', 4)] + OUT
    P['return_nested'] = INIT + [IF(lt(X, Y), [IF(lt(Y, Z), [('return',)]), inc()]), inc('r', 2)] + OUT
    P['return_all'] = INIT + [('st', 'o', X), ('return',), ('st', 'o', Y)]
    P['while'] = INIT + loop([('set', 'r', ('+', R, X))], 3, lt(v('i'), Y)) + OUT
    P['while_bits'] = INIT + loop([IF(bit('x'), [inc()]), shift()]) + OUT
    P['while_cond'] = INIT + loop([inc(), shift()], 3, bit('x')) + OUT
    P['break'] = INIT + loop([IF(bit('x'), [('break',)]), inc(), shift()]) + [inc('r', 8)] + OUT
    P['break_else'] = INIT + loop([IF(bit('x'), [inc()], [inc('r', 2), ('break',)]), inc('r', 4), shift()]) + OUT
    P['continue'] = INIT + loop([shift(), IF(bit('x'), [('continue',)]), inc()]) + OUT
    P['continue_else'] = INIT + loop([shift(), IF(bit('x'), [inc()], [('continue',)]), inc('r', 4)]) + OUT
    P['return_in_loop'] = INIT + loop([IF(bit('x'), [('st', 'o', Y), ('return',)]), inc(), shift()]) + OUT
    P['break_continue'] = INIT + loop([shift('y'), shift(), ('if', [(bit('x'), [('continue',)]), (bit('y'), [('break',)])], None), inc()]) + OUT
    P['break_return'] = INIT + loop([shift('y'), shift(), ('if', [(bit('x'), [('return',)]), (bit('y'), [('break',)])], [inc('r', 2)]), inc()],
                                    2) + [inc('r', 8)] + OUT
    P['break_first'] = INIT + [IF(lt(X, Y), loop([inc(), ('break',), inc('r', 2)]) + [inc('r', 4)])] + OUT
    P['continue_first'] = INIT + [IF(lt(X, Y), loop([inc(), ('continue',), inc('r', 2)]) + [inc('r', 4)])] + OUT
    P['return_in_loop_first'] = INIT + [IF(lt(X, Y), loop([inc(), ('return',), inc('r', 2)]) + [inc('r', 4)])] + OUT
    P['loop_in_if'] = INIT + [IF(lt(X, Y), loop([inc(), shift('z')], 2, bit('z')), [inc('r', 4)]), inc('r', 8)] + OUT
    P['break_deep'] = INIT + loop([shift('y'), shift(), IF(bit('x'), [IF(bit('y'), [('break',)]), inc()]), inc('r', 4)]) + OUT
    P['continue_deep'] = INIT + loop([shift('y'), shift(), IF(bit('x'), [IF(bit('y'), [('continue',)]), inc()], [IF(bit('y'), [inc('r', 2)])]),
                                      inc('r', 4)]) + OUT
    inner = [('set', 'j', ZERO), ('while', lt(v('j'), c(2)), [inc('j'), shift('y'), IF(bit('y'), [('break',)]), inc()])]
    P['nested_loop_break'] = INIT + loop([shift()] + inner + [IF(bit('x'), [('break',)]), inc('r', 4)], 2) + [inc('r', 16)] + OUT
    inner = [('set', 'j', ZERO), ('while', lt(v('j'), c(2)), [inc('j'), shift('y'), IF(bit('y'), [('continue',)]), inc()])]
    P['nested_loop_continue'] = INIT + loop([shift(), IF(bit('x'), [('continue',)])] + inner + [inc('r', 4)], 2) + OUT
    inner = [('set', 'j', ZERO), ('while', lt(v('j'), c(2)), [inc('j'), shift('y'), IF(bit('y'), [('return',)]), inc()])]
    P['nested_loop_return'] = INIT + loop([shift()] + inner + [('st', 'o', R)], 2) + OUT
    P['two_loops'] = INIT + loop([IF(bit('x'), [('break',)]), inc(), shift()], 2) + [
        ('set', 'j', ZERO), ('while', ('&&', lt(v('j'), c(2)), bit('y')), [inc('j'), inc('r', 4), shift('y')])] + OUT
    P['store_in_loop'] = INIT + loop([IF(bit('x'), [('st', 'o', Y)]), shift(), inc('y')], 2)
    return P


# device functions: name -> (parameters, body)
DEV = {
    'dev_plain': (['p', 'q'], [('ret', ('+', v('p'), v('q')))]),
    'dev_if': (['p', 'q'], [('init', 'K', 'r', v('p')), IF(lt(v('p'), v('q')), [('set', 'r', v('q'))], [inc()]), ('ret', R)]),
    'dev_return': (['p', 'q'], [('init', 'K', 'r', v('p')), IF(lt(v('p'), v('q')), [inc(), ('return',)]), inc('r', 2), ('ret', R)]),
    'dev_loop': (['p', 'q'], [('init', 'K', 'r', v('q')), ('init', 'K', 'i', ('&', v('p'), ZERO)), ('init', 'K', 'x', v('p'))] +
                 loop([IF(bit('x'), [('break',)]), inc(), shift()], 2)[1:] + [inc('r', 4), ('ret', R)]),
}


def call(f, *a):
    return ('call', f, DEV[f], list(a))


def dev_programs():
    """kernels calling device functions, at top level, in a branch and in a loop"""
    P = {}
    for f in DEV:
        P['call_' + f] = INIT + [('set', 'r', call(f, X, Y)), ('st', 'o', R)]
        P['call_if_' + f] = INIT + [IF(lt(Y, Z), [('set', 'r', call(f, X, Y)), inc()]), inc('r', 8)] + OUT
    P['call_while_dev_return'] = INIT + loop([shift(), IF(bit('x'), [('continue',)]), ('set', 'r', call('dev_return', R, Y))], 2) + OUT
    P['call_while_dev_loop'] = INIT + loop([shift(), IF(bit('x'), [('break',)]), ('set', 'r', call('dev_loop', R, Y))], 2) + OUT
    return P


def devtext():
    out = []
    for f, (par, body) in DEV.items():
        out.append('spmd_dev_func(K %s, %s)\n%s\nspmd_dev_func_end\n' % (f, ', '.join('K ' + x for x in par), '\n'.join(K.text(body))))
        out.append('struct D_%s { spmd_dev_func(static K impl, %s)\n return spmd_call_dev_func(%s, %s);\nspmd_dev_func_end };\n'
                   % (f, ', '.join('K ' + x for x in par), f, ', '.join(par)))
    return ''.join(out)


def enum_programs():
    """every loop body made of two conditional jumps (with or without an else part) separated by increments"""
    J = ['break', 'continue', 'return', None]
    P = {}
    for n1 in J:
        for e1 in J:
            for n2 in J[:3]:
                for e2 in J:
                    def cj(c, a, b, k):
                        return [IF(c, [inc('r', k)] + ([(a,)] if a else []), [inc('r', 2 * k), (b,)] if b else None)]
                    nm = 'enum_%s_%s_%s_%s' % tuple(str(q)[0].lower() for q in (n1, e1, n2, e2))
                    P[nm] = INIT + loop([shift(), shift('y')] + cj(bit('x'), n1, e1, 1) + [inc('r', 4)] + cj(bit('y'), n2, e2, 8), 2) + [
                        inc('r', 32)] + OUT
    return P


def flt_programs():
    P = {}
    P['f_if_elseif_else'] = INIT + [('if', [(lt(X, Y), [('set', 'r', Z)]), (('==', X, Z), [('set', 'r', Y)])], [('set', 'r', X)])] + OUT
    P['f_store_in_if'] = LD + [IF(('>=', X, Y), [('st', 'o', Z)])]
    P['f_return'] = INIT + [IF(('!=', X, Y), [('st', 'o', X), ('return',)]), ('st', 'o', Z)]
    P['f_bool_set'] = INIT + [('var', 'k_bool', 'q', ('<=', X, Y)), IF(('>', Y, Z), [('setb', 'q', lt(Z, X))]), IF(v('q'), [('set', 'r', Z)])] + OUT
    return P


KT = {'i': 'k_int', 'u': 'k_uint', 'f': 'k_float'}
QUICK = [('sse2', 1, 'i32'), ('sse2', 1, 'u8'), ('cpu', 1, 'i64'), ('avx2', 1, 'u64'), ('avx512_skylake', 1, 'i64'), ('sse2', 2, 'i64')]
QF = [('sse2', 1, 'f32'), ('avx2', 1, 'f64'), ('sse2', 1, 'f16'), ('avx512_skylake', 1, 'f64')]


class M:
    def __init__(self, groups, ext, N, t):
        self.groups, self.ext, self.N, self.t = groups, ext, N, t
        self.key = '%s+n%d+%s' % (ext, N, t)
        self.cxx = {}
        self.src = ['#include <nsimd/nsimd-all.hpp>\n#include <nsimd/modules/spmd.hpp>\ntypedef %s T;\n' % t]
        self.n = 0

    def done(self):
        self.groups.append(Group(self.key, self.ext, ''.join(self.src), cxx=True))


LAUNCH = {'straight', 'store_in_if', 'if_else', 'tmpl_dev_return'}


def kernel(m, cases, name, prog, tmpl=None):
    ext, t, w = m.ext, m.t, B.wid(m.t)
    kn = 'kern_%s' % name
    K.FUN = t == 'f16'
    body = '\n'.join(K.text(prog))
    body = re.sub(r'\bK ', KT[t[0]] + ' ', body)
    if tmpl:
        m.src.append('spmd_tmpl_kernel_1d(%s, Op, T *o, T *a, T *b, T *d)\n%s\nspmd_kernel_end\n'
                     % (kn, body.replace('spmd_call_dev_func(%s,' % tmpl, 'Op::template spmd_call_dev_func(impl,')))
        m.src.append('template <typename Op> static void t_%s(T *o, T *a, T *b, T *d, int n) { spmd_launch_tmpl_kernel_1d(%s, Op, %d, %d, n, '
                     'o, a, b, d) }\n' % (name, kn, w, m.N))
        launch = 't_%s<D_%s>(o, a, b, d, n);' % (name, tmpl)
    else:
        m.src.append('spmd_kernel_1d(%s, T *o, T *a, T *b, T *d)\n%s\nspmd_kernel_end\n' % (kn, body))
        launch = 'spmd_launch_kernel_1d(%s, %d, %d, n, o, a, b, d)' % (kn, w, m.N)
    m.src.append('extern "C" void w_%s(T *o, T *a, T *b, T *d, int n) { %s }\n' % (name, launch))
    full = B.nl(ext, t) * m.N
    for n, tag in [(full, 'simd'), (1, 'scalar')] + ([(2 * full + 3, 'launch')] if name in LAUNCH else []):
        def post(e, n=n):
            sem = K.Sem(t, None)
            gl = []
            for i in range(n):
                st = {'*a': e['a'][i], '*b': e['b'][i], '*d': e['d'][i], '*o': e['o'][i]}
                gl.append(('element %d' % i, B.veq(t, e.o['o'][i], sem.final(prog, st, ['*o'])['*o'])))
            return gl
        args = [Buf('o', w, n, kind=t[0], ro=False, out=True)] + [Buf(x, w, n, kind=t[0]) for x in 'abd'] + [Int('n', 32, n)]
        cases.append(Case('%s/%s/%s' % (m.key, name, tag), 'w_' + name, args, post, None, mod=m.key,
                          fn='spmd kernel ' + name, max_iter=16 if ext != 'cpu' and tag != 'launch' else 64, hang=8))


def opkernel(m, cases, op, to=None):
    """one operator of spmd/functions.hpp applied to loaded elements"""
    ext, t, w = m.ext, m.t, B.wid(m.t)
    tt = to or t
    name = op + ('_' + to if to else '')
    sig = {'if_else1': 'lvv', 'to_mask': 'l', 'notl': 'l', 'notb': 'v', 'neg': 'v', 'abs': 'v', 'ceil': 'v', 'floor': 'v', 'trunc': 'v',
           'round_to_even': 'v', 'rec': 'v', 'sqrt': 'v', 'cvt': 'v', 'reinterpret': 'v', 'to_logical': 'v', 'shl': 'vp', 'shr': 'vp',
           'shra': 'vp', 'fma': 'vvv', 'fms': 'vvv', 'fnma': 'vvv', 'fnms': 'vvv', 'andl': 'll', 'orl': 'll', 'xorl': 'll',
           'andnotl': 'll'}.get(op, 'vv')
    lres = op in specs.CMP + specs.LOG2 + ['notl', 'to_logical']
    nm = ['a', 'b', 'd'][:len(sig)]
    call = ', '.join('n' if x == 'p' else 'k_load(%s)' % y if x == 'v' else 'k_ne(k_load(%s), (L)0)' % y for x, y in zip(sig, nm))
    if to:
        call = '%s, %s' % (KT[to[0]], call)
    elif op == 'to_mask':
        call = '%s, %s' % (KT[t[0]], call)
    e = 'k_%s(%s)' % (op, call)
    body = 'k_if(%s) k_store(o, (L)1); k_else k_store(o, (L)0); k_endif' % e if lres else 'k_store(o, %s);' % e
    L = 'i%d' % w
    par, call, args = ['%s *o' % (L if lres else tt)], ['o'], [Out('o', w, 0, 'i' if lres else tt[0])]
    for x, y in zip(sig, nm):
        par.append('int n' if x == 'p' else '%s *%s' % (L if x == 'l' else t, y))
        call.append('n' if x == 'p' else y)
        args.append(Int('n', 32) if x == 'p' else Buf(y, w, 0, kind='l' if x == 'l' else t[0]))
    m.src.append('spmd_kernel_1d(kern_%s, %s)\n  typedef %s L; %s\nspmd_kernel_end\n' % (name, ', '.join(par), L, body))
    m.src.append('extern "C" void w_%s(%s, int len) { spmd_launch_kernel_1d(kern_%s, %d, %d, len, %s) }\n'
                 % (name, ', '.join(par), name, w, m.N, ', '.join(call)))
    full = B.nl(ext, t) * m.N
    for n, tag in ((full, 'simd'), (1, 'scalar')):
        if op == 'round_to_even' and B.isf(t) and tag == 'scalar':
            continue        # the scalar function is decided by C14
        ar = [a if isinstance(a, Int) else Buf(a.name, a.w, n, a.init, a.kind, None, a.ro, None, a.out) for a in args] + [Int('len', 32, n)]

        def el(e, i):
            return [e['n'] if x == 'p' else S.b_not(S.eq(w, e[y][i], 0)) if x == 'l' else e[y][i] for x, y in zip(sig, nm)]

        def post(e, n=n, el=el):
            gl = []
            for i in range(n):
                r = e.o['o'][i]
                g = specs.good(op, t, tt, S.b_not(S.eq(w, r, 0)) if lres else r, el(e, i))
                gl.append(('element %d' % i, S.b_and(g, S.ule(w, r, 1)) if lres else g))
            return gl

        def pre(e, n=n, el=el):
            return [p for i in range(n) for p in specs.pre(op, t, tt, el(e, i)) if not (S.isc(p) and p)]
        cases.append(Case('%s/k_%s/%s' % (m.key, name, tag), 'w_' + name, ar, post, pre, mod=m.key, fn='k_' + op, max_iter=64))


def operators(m, cases, tier):
    t = m.t
    fl = B.isf(t)
    ops = specs.INT_EW + specs.CMP + specs.LOG2 + ['notl', 'notb', 'adds', 'subs', 'to_mask', 'to_logical'] + specs.BIT2
    ops += ['sqrt', 'rec'] if fl else ['shl', 'shr'] + (['shra'] if t[0] == 'i' else [])
    for op in dict.fromkeys(ops):
        if op == 'round_to_even' and fl and m.ext in ('cpu', 'sse2'):
            continue
        opkernel(m, cases, op)
    for tt in B.SAME[t]:
        opkernel(m, cases, 'cvt', tt)
        opkernel(m, cases, 'reinterpret', tt)


OPS = [('sse2', 1, 'i8'), ('sse2', 1, 'u16'), ('sse2', 1, 'i32'), ('sse2', 1, 'f32'), ('avx2', 2, 'u32'), ('avx2', 1, 'f64'), ('sse2', 1, 'f16')]


def build(st, tier):
    groups, cases = [], []
    for ext, N, t in OPS if tier == 'quick' else [(x, N, t) for x in stg.EXTS for N in (1, 2) for t in B.TYPES]:
        m = M(groups, ext, N, t)
        m.key += '+ops'
        operators(m, cases, tier)
        m.done()
    plan = QUICK if tier == 'quick' else [(x, N, t) for x in stg.EXTS for N in (1, 2) for t in B.TYPES if not B.isf(t)]
    plf = QF if tier == 'quick' else [(x, N, t) for x in stg.EXTS for N in (1, 2) for t in B.TYPES if B.isf(t)]
    for ext, N, t in plan:
        m = M(groups, ext, N, t)
        for nm, p in programs().items():
            kernel(m, cases, nm, p)
        m.src.append(re.sub(r'\bK ', KT[t[0]] + ' ', devtext()))
        for nm, p in dev_programs().items():
            kernel(m, cases, nm, p)
        for f in DEV:
            kernel(m, cases, 'tmpl_' + f, dev_programs()['call_' + f], f)
            kernel(m, cases, 'tmpl_if_' + f, dev_programs()['call_if_' + f], f)
        m.done()
    if tier != 'quick':
        for ext, N, t in [('sse2', 1, 'i32'), ('avx512_skylake', 1, 'i64'), ('cpu', 1, 'i64')]:
            for k in range(8):
                m = M(groups, ext, N, t)
                m.key += '+enum%d' % k
                for nm, p in list(enum_programs().items())[k::8]:
                    kernel(m, cases, nm, p)
                m.done()
    for ext, N, t in plf:
        m = M(groups, ext, N, t)
        for nm, p in flt_programs().items():
            kernel(m, cases, nm, p)
        m.done()
    return groups, cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C18', build,
        bounds='programs: every kernel of the list in checks/C18.py; per program one full pack of elements (SIMD form) and one '
               'element (scalar tail form), every value of every input element; loops of at most 3 iterations',
        assumptions=['no division, no out-of-range conversion in the kernels']))
