"""C13: horizontal sum."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from lib import base as B, driver, exact, fpc, stage as stg, sym as S
from lib.harness import Buf, Int, Out


def flt(w, k):
    return S.fcvt(32, S.sitofp(8, k, 32), 16) if w == 16 else S.sitofp(8, k, w)


def sum_goods(o, w, ks):
    """o (float bits) is the exact sum of the 8-bit integers ks"""
    tot = 0
    for k in ks:
        tot = S.add(64, tot, S.sext(8, k, 64))
    if S.isc(o):
        if S.isc(tot):
            v = fpc.fromint(S.sgn(64, tot), w)
            return S.b_or(S.eq(w, o, v), S.b_and(S.f_iszero(w, o), S.f_iszero(w, v)))
    try:
        return S.eq(64, exact.exact(o, w), tot)
    except exact.NotExact:
        return S.eq(w, o, S.sitofp(64, tot, w))


def add(b, ext, t):
    w, n = B.wid(t), B.nl(ext, t)
    sym = 'WV_addv_%s_%s' % (ext, t)
    src = 'void %s(%s *o, const i8 *k, const %s *a) { (void)k; *o = nsimd_addv_%s_%s(nsimd_loadu_%s_%s(a)); }\n' % (
        sym, t, t, ext, t, ext, t)
    m = 63 if t == 'f16' else 128
    b.custom(ext, sym, src, [Out('o', w, 1, 'f'), Buf('k', 8, n, kind='i'),
                             Buf('a', w, n, init=lambda e: [flt(w, x) for x in e['k']], kind='f')],
             lambda e: [('sum', sum_goods(e.o['o'][0], w, e['k']))],
             pre=lambda e: [S.b_and(S.sle(8, -m & 255, x), S.sle(8, x, m)) for x in e['k']] if m < 128 else [],
             fn='nsimd_addv_%s_%s' % (ext, t), cid='addv/%s' % t)


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for t in B.FTYPES:
            add(b, ext, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C13', build,
        bounds='one call on one full vector whose elements are integers in [-128, 127] (f16: [-63, 63]), for which every '
               'order of summation is exact; all 7 x86/cpu extensions',
        assumptions=['summation order (hence rounding for other inputs) is the back end\'s choice']))
