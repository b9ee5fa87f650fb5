"""C09: data movement inside and between vectors."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, stage as stg, sym as S


def perm(op, n, x, y):
    """expected element list for two-operand permutations"""
    h = n // 2
    zl = [v for i in range(h) for v in (x[i], y[i])]
    zh = [v for i in range(h, n) for v in (x[i], y[i])]
    ul = [x[i] for i in range(0, n, 2)] + [y[i] for i in range(0, n, 2)]
    uh = [x[i] for i in range(1, n, 2)] + [y[i] for i in range(1, n, 2)]
    return {'ziplo': zl, 'ziphi': zh, 'unziplo': ul, 'unziphi': uh, 'zip': zl + zh, 'unzip': ul + uh}[op]


def add(b, ext, t):
    from lib import fpc
    w, n = B.wid(t), B.nl(ext, t)
    for op in ('ziplo', 'ziphi', 'unziplo', 'unziphi', 'zip', 'unzip'):
        def post(e, op=op):
            ex = perm(op, n, e['a0'], e['a1'])
            return [('elem %d' % i, B.veq(t, e.o['o'][i], ex[i])) for i in range(len(ex))]
        b.add(ext, op, t, post=post)
    b.add(ext, 'set1', t, post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], e['a0'][0])))
    b.add(ext, 'len', t, post=lambda e: [('len', S.eq(32, e.o['o'][0], n))])
    b.add(ext, 'iota', t, post=lambda e: B.lanes(n, lambda i: S.eq(w, e.o['o'][i], fpc.fromint(i, w) if B.isf(t) else i)))


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for t in B.TYPES:
            add(b, ext, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C09', build,
        bounds='one call on one full vector (pair); every bit pattern of every lane; all 7 x86/cpu extensions; all 11 '
               'types',
        assumptions=['half precision: NaN lanes compare modulo payload']))
