"""C06: contiguous and masked loads and stores, with their exact memory footprint."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, stage as stg, sym as S
from lib.harness import Buf, Int, Out


def add(b, ext, t):
    w, n = B.wid(t), B.nl(ext, t)
    k, L = t[0], B.lk(t)

    def tr(m):
        return [B.istrue(t, x) for x in m]
    for al in 'ua':
        align = stg.VBITS[ext] // 8 if al == 'a' else w // 8
        b.add(ext, 'load' + al, t, args=[Out('o', w, n, k), Buf('a0', w, n, kind=k, align=align)],
              post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], e['a0'][i])))
        b.add(ext, 'store' + al, t, args=[Out('a0', w, n, k, align=align), Buf('a1', w, n, kind=k)],
              post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['a0'][i], e['a1'][i])))

        # masked: inactive lanes are neither read nor written
        def acc(m):
            return lambda e: tr(e[m])
        b.add(ext, 'masko_load%s1' % al, t,
              args=[Out('o', w, n, k), Buf('a0', w, n, kind=L), Buf('a1', w, n, kind=k, align=align, access=acc('a0')),
                    Buf('a2', w, n, kind=k)],
              post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], S.ite(w, tr(e['a0'])[i], e['a1'][i], e['a2'][i]))))
        b.add(ext, 'maskz_load%s1' % al, t,
              args=[Out('o', w, n, k), Buf('a0', w, n, kind=L), Buf('a1', w, n, kind=k, align=align, access=acc('a0'))],
              post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], S.ite(w, tr(e['a0'])[i], e['a1'][i], 0))))

        def pm(e):
            return B.lanes(n, lambda i: S.b_or(
                S.b_and(tr(e['a0'])[i], B.veq(t, e.o['a1'][i], e['a2'][i])),
                S.b_and(S.b_not(tr(e['a0'])[i]), S.eq(w, e.o['a1'][i], e['a1'][i]))))
        b.add(ext, 'mask_store%s1' % al, t,
              args=[Buf('a0', w, n, kind=L), Buf('a1', w, n, kind=k, align=align, access=acc('a0'), out=True),
                    Buf('a2', w, n, kind=k)], post=pm)
    b.add(ext, 'set1', t, post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], e['a0'][0])))
    b.add(ext, 'len', t, args=[Out('o', 32, 1)], post=lambda e: [('len', S.eq(32, e.o['o'][0], n))])


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for t in B.TYPES:
            add(b, ext, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C06', build,
        bounds='one call; every value of every element, every mask; buffer of exactly one vector at an address with the '
               'weakest alignment the operator demands; all 7 x86/cpu extensions; all 11 types',
        assumptions=['masks are produced by the library (loaded logicals)', 'NaN payloads of halves may change']))
