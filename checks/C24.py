"""C24: the "friendly" operators mixing packs with scalars, and logical packs of different types, act lane by lane."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, specs, stage as stg, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Out

OPS = {'orb': '|', 'andb': '&', 'xorb': '^', 'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=',
       'lt': '<', 'le': '<='}
LOG = {'orl': '||', 'andl': '&&'}


def from_i32(t, v):
    """T(s) for an int s"""
    w = B.wid(t)
    if not B.isf(t):
        return S.sext(32, v, w) if w > 32 else S.trunc(32, v, w) if w < 32 else v
    return S.sitofp(32, v, w)


def conv(t, s, v):
    return v if s == t else from_i32(t, v)


def build(st, tier):
    groups, cases = [], []
    quick = tier == 'quick'
    plan = [('sse2', 1), ('sse2', 2), ('avx2', 1), ('avx512_skylake', 1), ('cpu', 1)] if quick else [(x, N) for x in stg.EXTS for N in (1, 2, 3)]
    for ext, N in plan:
        for t in B.TYPES:
            key = '%s+n%d+%s' % (ext, N, t)
            w, n = B.wid(t), B.nl(ext, t) * N
            P = 'nsimd::pack<%s, %d, nsimd::%s>' % (t, N, ext)
            Lp = 'nsimd::packl<%s, %d, nsimd::%s>' % (t, N, ext)
            src = ['#include <nsimd/nsimd-all.hpp>\n#include <nsimd/friendly_but_not_optimized.hpp>\n']
            kind = t[0]

            def add(name, par, body, args, post, pre=None, key=key, src=src):
                src.append('extern "C" void w_%s(%s) { %s }\n' % (name, par, body))
                cases.append(Case('%s/%s' % (key, name), 'w_' + name, args, post, pre, mod=key, fn='nsimd::operator (friendly) ' + name, max_iter=200))
            for op, x in OPS.items():
                cmp_ = op in specs.CMP
                for s in [t] if B.isf(t) or t == 'i32' else [t, 'i32']:
                    if s == 'i32' and t == 'f16':
                        continue
                    ws = B.wid(s)
                    for side in 'vs', 'sv':
                        ex = ('v %s *s' if side == 'vs' else '*s %s v') % x
                        st_ = 'nsimd::storelu(o, %s);' if cmp_ else 'nsimd::storeu(o, %s);'

                        def el(e, i, s=s, side=side, t=t):
                            a = [e['a'][i], conv(t, s, e['s'][0])]
                            return a if side == 'vs' else a[::-1]

                        def post(e, op=op, el=el, t=t, n=n, cmp_=cmp_, w=w):
                            out = []
                            for i in range(n):
                                r = e.o['o'][i]
                                if cmp_:
                                    out.append(('lane %d' % i, B.lres(t, r, specs.good(op, t, t, 1, el(e, i)))))
                                else:
                                    out.append(('lane %d' % i, specs.good(op, t, t, r, el(e, i))))
                            return out

                        def pre(e, op=op, el=el, t=t, n=n):
                            return [p for i in range(n) for p in specs.pre(op, t, t, el(e, i)) if not (S.isc(p) and p)]
                        add('%s_%s_%s' % (op, side, s), '%s *o, const %s *a, const %s *s' % (t, t, s),
                            '%s v = nsimd::loadu<%s >(a); ' % (P, P) + st_ % ex,
                            [Out('o', w, n, kind), Buf('a', w, n, kind=kind), Buf('s', ws, 1, kind=s[0])], post, pre)
            for op, x in LOG.items():
                lk = B.lk(t)
                for side in 'vs', 'sv':
                    ex = ('v %s (*s != 0)' if side == 'vs' else '(*s != 0) %s v') % x

                    def post(e, op=op, t=t, n=n):
                        sv = S.b_not(S.eq(32, e['s'][0], 0))
                        f = S.b_or if op == 'orl' else S.b_and
                        return [('lane %d' % i, B.lres(t, e.o['o'][i], f(B.istrue(t, e['a'][i]), sv))) for i in range(n)]
                    add('%s_%s' % (op, side), '%s *o, const %s *a, const int *s' % (t, t), '%s v = nsimd::loadlu<%s >(a); nsimd::storelu(o, %s);' % (Lp, Lp, ex),
                        [Out('o', w, n, kind), Buf('a', w, n, kind=lk), Buf('s', 32, 1, kind='i')], post)
                for t2 in B.SAME[t]:
                    if t2 == t:
                        continue
                    L2 = 'nsimd::packl<%s, %d, nsimd::%s>' % (t2, N, ext)

                    def post2(e, op=op, t=t, t2=t2, n=n):
                        f = S.b_or if op == 'orl' else S.b_and
                        return [('lane %d' % i, B.lres(t, e.o['o'][i], f(B.istrue(t, e['a'][i]), B.istrue(t2, e['b'][i])))) for i in range(n)]
                    add('%s_%s' % (op, t2), '%s *o, const %s *a, const %s *b' % (t, t, t2),
                        '%s v = nsimd::loadlu<%s >(a); %s z = nsimd::loadlu<%s >(b); nsimd::storelu(o, v %s z);' % (Lp, Lp, L2, L2, x),
                        [Out('o', w, n, kind), Buf('a', w, n, kind=lk), Buf('b', w, n, kind=B.lk(t2))], post2)
            groups.append(Group(key, ext, ''.join(src), cxx=True))
    return groups, cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C24', build,
        bounds='every operator with a scalar on either side (same type, and int for the integer types), logical packs with scalars and with every '
               'other type of the same width; every value of every lane',
        assumptions=['integer division: divisor non-zero, representable quotient']))
