"""C23: ufp counts the leading bits on which the magnitudes of two floating point numbers agree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, fpc, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Out

SRC = '#include <nsimd/nsimd.h>\nextern "C" {\n' + ''.join(
    'void c_{t}(int *o, const {t} *a, const {t} *b) {{ o[0] = nsimd_ufp_{t}(*a, *b); o[1] = nsimd_ufp_{t}(*b, *a); o[2] = nsimd_ufp_{t}(*a, *a); }}\n'
    'void x_{t}(int *o, const {t} *a, const {t} *b) {{ o[0] = nsimd::ufp(*a, *b); o[1] = nsimd::ufp(*b, *a); o[2] = nsimd::ufp(*a, *a); }}\n'.format(t=t)
    for t in B.FTYPES) + '}\n'


def build(st, tier):
    g = Group('ufp', 'cpu', SRC, cxx=True, ir_srcs=['src/ufp.cpp'], link=['src/ufp.cpp', 'src/fp16.cpp'])
    cs = []
    for t in B.FTYPES:
        w = B.wid(t)
        m = {16: 10, 32: 23, 64: 52}[w]
        W = m + 4

        def parts(x, w=w, m=m, W=W):
            ex = S.and_(w, S.lshr(w, x, m), (1 << (w - 1 - m)) - 1)
            sig = S.or_(w, S.and_(w, x, (1 << m) - 1), 1 << m)
            return ex, (S.trunc(w, sig, W) if w > W else S.zext(w, sig, W) if w < W else sig)

        def ref(x, y, w=w, m=m, W=W, parts=parts):
            """largest r <= m + 1 with | |x| - |y| | < 2^(min exponent + 1 - r), 0 when the exponents differ by two or more"""
            (ex, mx), (ey, my) = parts(x), parts(y)
            up, dn = S.eq(w, ex, S.add(w, ey, 1)), S.eq(w, ey, S.add(w, ex, 1))
            px, py = S.ite(W, up, S.shl(W, mx, 1), mx), S.ite(W, dn, S.shl(W, my, 1), my)
            d = S.ite(W, S.ult(W, px, py), S.sub(W, py, px), S.sub(W, px, py))
            r = S.mask(32)      # -1
            for k in range(0, m + 2):
                r = S.ite(32, S.ult(W, d, 1 << (m + 1 - k)), k, r)
            return S.ite(32, S.b_any([up, dn, S.eq(w, ex, ey)]), r, 0)

        def normal(x, w=w, m=m):
            ex = S.and_(w, S.lshr(w, x, m), (1 << (w - 1 - m)) - 1)
            return S.b_and(S.b_not(S.eq(w, ex, 0)), S.b_not(S.eq(w, ex, (1 << (w - 1 - m)) - 1)))
        for f in 'cx':
            cs.append(Case('%s/%s' % (f, t), '%s_%s' % (f, t), [Out('o', 32, 3, 'i'), Buf('a', w, 1, kind='f'), Buf('b', w, 1, kind='f')],
                           lambda e, ref=ref, m=m: [('bits', S.eq(32, e.o['o'][0], ref(e['a'][0], e['b'][0]))),
                                                    ('symmetric', S.eq(32, e.o['o'][0], e.o['o'][1])),
                                                    ('identical', S.eq(32, e.o['o'][2], m + 1))],
                           pre=lambda e, normal=normal: [normal(e['a'][0]), normal(e['b'][0])], mod='ufp', nof16=True, max_iter=80,
                           fn='nsimd_ufp_' + t))
    return [g], cs


if __name__ == '__main__':
    sys.exit(driver.main('C23', build, bounds='every pair of normal numbers of every floating point type (no bound)',
                         assumptions=['normal operands (documented)', 'signs are not compared (documented algorithm)']))
