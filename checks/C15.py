"""C15: the C++ advanced API on packs of any unroll factor behaves as one long vector."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, cxxb, driver, specs, stage as stg, sym as S
from lib.harness import Buf, Int, Out

C05 = importlib.import_module('checks.C05')
C06 = importlib.import_module('checks.C06')
C07 = importlib.import_module('checks.C07')
C08 = importlib.import_module('checks.C08')
C09 = importlib.import_module('checks.C09')
C13 = importlib.import_module('checks.C13')
FLT = ['sqrt', 'rec']


class Ew:
    """adds the function form and the operator / assignment / scalar forms of one element-wise operator"""

    def __init__(self, b):
        self.b = b

    def add(self, ext, op, t, tt=None, post=None, pre=None, known=None):
        b = self.b
        b.add(ext, op, t, tt, post=post, pre=pre)
        logic = B.SIG[op][0] == 'l'
        if op in cxxb.OPER2 or op in cxxb.OPER1:
            b.add(ext, op, t, tt, post=post, pre=pre, form='op')
        if op in cxxb.OPER2 and not logic:
            b.add(ext, op, t, tt, post=post, pre=pre, form='asg')
        if op in ('add', 'sub', 'mul', 'div', 'lt', 'eq') and t != 'f16' and not (op == 'div' and not B.isf(t)):
            n, w = B.nl(ext, t), B.wid(t)
            for form, k in (('vs', 1), ('sv', 0)):
                args = B.std_args(ext, op, t)
                args[1 + k] = Buf('a%d' % k, w, 1, kind=t[0])

                class V:
                    def __init__(self, e, k):
                        self.e, self.k, self.o = e, k, e.o

                    def __getitem__(self, nm):
                        v = self.e[nm]
                        return [v[0]] * n if nm == 'a%d' % self.k else v

                b.add(ext, op, t, post=lambda e, k=k: post(V(e, k)), pre=lambda e, k=k: pre(VP(e, k, n)), args=args, form=form)


class VP:
    def __init__(self, e, k, n):
        self.e, self.k, self.n = e, k, n

    def __getitem__(self, nm):
        v = self.e[nm]
        return [v[0]] * self.n if nm == 'a%d' % self.k else v


def build(st, tier):
    b = cxxb.CxxBuilder()
    few = ['i32', 'u8', 'f16', 'f64']
    if tier == 'quick':
        plan = [('sse2', 1, B.TYPES), ('sse2', 2, B.TYPES), ('sse2', 3, few), ('cpu', 2, few), ('avx2', 2, few),
                ('avx512_skylake', 2, few)]
    else:
        plan = [(x, N, B.TYPES) for x in stg.EXTS for N in (1, 2, 3)] + [('sse2', 4, B.TYPES), ('avx2', 4, few)]
    for ext, N, types in plan:
        b.N = N
        with cxxb.unrolled(N):
            for t in types:
                one(b, ext, t, N, tier)
    if tier == 'quick':
        # the whole-range and many-lane variants of the memory operators are left to the thorough tier
        heavy = {'gather', 'scatter', 'gather_linear', 'scatter_linear'}
        b.cases = [c for c in b.cases if not (c.id.split('/')[2] in heavy and c.id.endswith('/all'))
                   and not ('/mask_for_loop_tail/' in c.id and B.nl(c.id.split('/')[0], c.id.split('/')[3]) * int(c.id.split('/')[1][1:]) > 32)]
    return b.groups(), b.cases


def one(b, ext, t, N, tier):
    ew = Ew(b)
    fl = B.isf(t)
    for op in specs.INT_EW + specs.CMP + specs.LOG2 + ['notl'] + specs.BIT2 + ['notb', 'adds', 'subs', 'if_else1', 'to_mask', 'to_logical'] + \
            (FLT if fl else ['shl', 'shr', 'shra']):
        if fl and op == 'round_to_even' and ext in ('cpu', 'sse2'):
            continue
        BC.add_ew(ew, ext, op, t)
    for tt in B.SAME[t]:
        for op in ('cvt', 'reinterpret', 'reinterpretl'):
            BC.add_ew(ew, ext, op, t, tt)
    C05.add(b, ext, t)
    C06.add(b, ext, t)
    C07.add(b, ext, t, lambda d: 'X_n%d_%s_load%du_%s' % (N, ext, d, t))
    C08.add(b, ext, t, tier)
    extra(b, ext, t, N)


def extra(b, ext, t, N):
    """forms that only exist on packs"""
    w, n1 = B.wid(t), B.nl(ext, t) // N
    n, k = n1 * N, t[0]
    E = 'nsimd::' + ext
    # alignment-tagged loads and stores
    al = stg.VBITS[ext] // 8
    for op in ('loadu', 'loada', 'storeu', 'storea'):
        a = al if op.endswith('a') else w // 8
        if op.startswith('load'):
            b.add(ext, op, t, form='al', args=[Out('o', w, n, k), Buf('a0', w, n, kind=k, align=a)],
                  post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], e['a0'][i])))
        else:
            b.add(ext, op, t, form='al', args=[Out('a0', w, n, k, align=a), Buf('a1', w, n, kind=k)],
                  post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['a0'][i], e['a1'][i])))
    # logical load / store: zero is false
    for x in 'ua':
        sym = 'XL_n%d_%s_%s_%s' % (N, x, ext, t)
        b.own(ext, t, sym, 'void %s(%s *o, const %s *a) { nsimd::storel%s(o, nsimd::loadl%s<nsimd::packl<%s, %d, %s> >(a)); }\n' % (
            sym, t, t, x, x, t, N, E), [Out('o', w, n, k, align=al if x == 'a' else w // 8),
                                        Buf('a', w, n, kind=k, align=al if x == 'a' else w // 8)],
              lambda e: B.lanes(n, lambda i: B.lres(t, e.o['o'][i], S.b_not(S.f_iszero(w, e['a'][i]) if B.isf(t) else S.eq(w, e['a'][i], 0)))),
              cid='storel%s_loadl%s/%s' % (x, x, t))
    # selection with a logical of another type of the same width
    for L in B.SAME[t]:
        if L == t:
            continue
        sym = 'XIE_n%d_%s_%s_%s' % (N, ext, L, t)
        b.own(ext, t, sym, ('void %s(%s *o, const %s *l, const %s *x, const %s *y) { typedef nsimd::pack<%s, %d, %s> P; nsimd::storeu(o, nsimd::if_else('
                            'nsimd::loadlu<nsimd::packl<%s, %d, %s> >(l), nsimd::loadu<P>(x), nsimd::loadu<P>(y))); }\n')
              % (sym, t, L, t, t, t, N, E, L, N, E),
              [Out('o', w, n, k), Buf('l', w, n, kind=B.lk(L)), Buf('x', w, n, kind=k), Buf('y', w, n, kind=k)],
              lambda e, L=L: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], S.ite(w, B.istrue(L, e['l'][i]), e['x'][i], e['y'][i]))),
              cid='if_else/%s_%s' % (L, t))
    # packx -> pack
    for K in (2, 3, 4):
        for il in ('', '_interleave'):
            sym = 'XTP%s%d_n%d_%s_%s' % (il, K, N, ext, t)
            code = 'void %s(%s *o, const %s *a) { nsimd::packx%d<%s, %d, %s> x; ' % (sym, t, t, K, t, N, E)
            for j in range(K):
                code += 'x.v%d = nsimd::loadu<nsimd::pack<%s, %d, %s> >(a + %d); ' % (j, t, N, E, j * n)
            code += 'nsimd::storeu(o, nsimd::to_pack%s(x)); }\n' % il

            def post(e, K=K, il=il):
                g = []
                for i in range(K * n):
                    r, l = i // n1, i % n1       # register, lane
                    j, q = (r % K, r // K) if il else (r // N, r % N)
                    g.append(('lane %d' % i, B.veq(t, e.o['o'][i], e['a'][j * n + q * n1 + l])))
                return g
            b.own(ext, t, sym, code, [Out('o', w, n * K, k), Buf('a', w, n * K, kind=k)], post, cid='to_pack%s%d/%s' % (il, K, t))
    # widening and narrowing work register by register (the packx2 is read back with to_pack_interleave)
    for tt in B.UPT.get(t, []):
        sym = 'XUP_n%d_%s_%s_%s' % (N, ext, tt, t)
        m1 = n1 // 2
        b.own(ext, t, sym, ('void %s(%s *o, const %s *a) { nsimd::storeu(o, nsimd::to_pack_interleave(nsimd::upcvt<nsimd::packx2<%s, %d, %s> >('
                            'nsimd::loadu<nsimd::pack<%s, %d, %s> >(a)))); }\n') % (sym, tt, t, tt, N, E, t, N, E),
              [Out('o', B.wid(tt), n, tt[0]), Buf('a', w, n, kind=k)],
              lambda e, tt=tt: B.lanes(n, lambda i: specs.good('upcvt', t, tt, e.o['o'][i], [e['a'][i]])),
              pre=lambda e, tt=tt: [p for i in range(n) for p in specs.pre('upcvt', t, tt, [e['a'][i]])], cid='upcvt/%s_%s' % (tt, t))
    for tt in B.DOWNT.get(t, []):
        sym = 'XDN_n%d_%s_%s_%s' % (N, ext, tt, t)
        b.own(ext, t, sym, ('void %s(%s *o, const %s *a, const %s *b) { typedef nsimd::pack<%s, %d, %s> P; nsimd::storeu(o, '
                            'nsimd::downcvt<nsimd::pack<%s, %d, %s> >(nsimd::loadu<P>(a), nsimd::loadu<P>(b))); }\n')
              % (sym, tt, t, t, t, N, E, tt, N, E),
              [Out('o', B.wid(tt), 2 * n, tt[0]), Buf('a', w, n, kind=k), Buf('b', w, n, kind=k)],
              lambda e, tt=tt: [('lane %d' % i, specs.good('downcvt', t, tt, e.o['o'][i], [
                  e['ab'[i // n1 % 2]][i // (2 * n1) * n1 + i % n1]])) for i in range(2 * n)],
              pre=lambda e, tt=tt: [p for i in range(n) for z in 'ab' for p in specs.pre('downcvt', t, tt, [e[z][i]])],
              cid='downcvt/%s_%s' % (tt, t))
    if N == 1:
        C09.add(b, ext, t)
    if B.isf(t):
        sym = 'XAV_n%d_%s_%s' % (N, ext, t)
        m = 127 // (4 if t == 'f16' else 1)
        b.own(ext, t, sym, 'void %s(%s *o, const i8 *k, const %s *a) { (void)k; *o = nsimd::addv(nsimd::loadu<nsimd::pack<%s, %d, %s> >(a)); }\n' % (
            sym, t, t, t, N, E), [Out('o', w, 1, 'f'), Buf('k', 8, n, kind='i'),
                                  Buf('a', w, n, init=lambda e: [C13.flt(w, x) for x in e['k']], kind='f')],
              lambda e: [('sum', C13.sum_goods(e.o['o'][0], w, e['k']))],
              pre=lambda e: [S.b_and(S.sle(8, -m & 255, x), S.sle(8, x, m)) for x in e['k']], cid='addv/%s' % t)


if __name__ == '__main__':
    sys.exit(driver.main(
        'C15', build,
        bounds='one call; every value of every lane; unroll factors 1 and 2 for all types on SSE2, 3 for part of them; quick adds '
               'unroll 2 on cpu, AVX2 and AVX-512 Skylake for part of the types; thorough: see PLAN',
        assumptions=['preconditions as in the checks of the base API (C01-C13)',
                     'half-precision NaN payloads may change']))
