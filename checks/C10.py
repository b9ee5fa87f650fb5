"""C10: conversions and reinterpretations."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, driver, specs, stage as stg, sym as S


def add(b, ext):
    for t in B.TYPES:
        for op in ('cvt', 'reinterpret'):
            for tt in B.SAME[t]:
                BC.add_ew(b, ext, op, t, tt)
        n = B.nl(ext, t)
        for tt in B.UPT.get(t, []):
            b.add(ext, 'upcvt', t, tt,
                  post=lambda e, t=t, tt=tt, n=n: B.lanes(n, lambda i: specs.good('upcvt', t, tt, e.o['o'][i], [e['a0'][i]])),
                  pre=lambda e, t=t, tt=tt, n=n: [p for i in range(n) for p in specs.pre('upcvt', t, tt, [e['a0'][i]])])
        for tt in B.DOWNT.get(t, []):
            def xs(e):
                return e['a0'] + e['a1']
            b.add(ext, 'downcvt', t, tt,
                  post=lambda e, t=t, tt=tt, n=n: B.lanes(2 * n, lambda i: specs.good('downcvt', t, tt, e.o['o'][i], [xs(e)[i]])),
                  pre=lambda e, t=t, tt=tt, n=n: [p for i in range(2 * n) for p in specs.pre('downcvt', t, tt, [xs(e)[i]])])


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        add(b, ext)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C10', build,
        bounds='one call on one full vector (pair); every bit pattern of every lane whose value is representable in the '
               'target integer type; all 7 x86/cpu extensions; all type pairs offered',
        assumptions=['float to integer: value truncates into the target range (otherwise undefined)',
                     'half reinterpretation: NaN patterns excluded']))
