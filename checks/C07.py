"""C07: array-of-structures loads and stores of degree 2, 3 and 4."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, engine, stage as stg, sym as S
from lib.harness import Buf, Int, Out


def lane_order(M, ext, t, d, sym=None):
    """which structure each lane of the unaligned load holds: the load executed on tagged data.  The order itself is the
    back end's choice; the solver then shows that all four operators follow it for every content."""
    n, w = B.nl(ext, t), B.wid(t)
    m = engine.Machine(M.mods)
    m.models.update(M.models)
    tag = 0x3c00 if t == 'f16' else 0
    p = m.alloc(n * d * w // 8, 'tags', w // 8)
    m.set_bytes(p, [tag + i for i in range(n * d)], w)
    o = m.alloc(n * d * w // 8, 'out', w // 8)
    m.set_bytes(o, [0] * (n * d), w)
    m.call(sym or 'W_nsimd_load%du_%s_%s' % (d, ext, t), [o, p])
    r = m.get_vals(m.state, o, n * d, w)
    try:
        perm = [(int(x) - tag) // d for x in r[:n]]
    except (TypeError, ValueError):
        perm = []
    return perm if sorted(perm) == list(range(n)) else list(range(n))


def add(b, ext, t, symf=None):
    w, n = B.wid(t), B.nl(ext, t)
    k = t[0]
    for d in (2, 3, 4):
        order = []

        def perm(e, d=d, order=order):
            if not order:
                order.extend(lane_order(e.M, ext, t, d, symf(d) if symf else None))
            return order

        def ld(e, d=d, perm=perm):
            return [('member %d lane %d' % (j, i), B.veq(t, e.o['o'][j * n + i], e['a0'][d * q + j]))
                    for j in range(d) for i, q in enumerate(perm(e))]

        def sto(e, d=d, perm=perm):
            return [('member %d lane %d' % (j, i), B.veq(t, e.o['a0'][d * q + j], e['a%d' % (j + 1)][i]))
                    for j in range(d) for i, q in enumerate(perm(e))]
        for al in 'ua':
            align = stg.VBITS[ext] // 8 if al == 'a' else w // 8
            b.add(ext, 'load%d%s' % (d, al), t, args=[Out('o', w, n * d, k), Buf('a0', w, n * d, kind=k, align=align)], post=ld)
            b.add(ext, 'store%d%s' % (d, al), t, post=sto,
                  args=[Out('a0', w, n * d, k, align=align)] + [Buf('a%d' % (j + 1), w, n, kind=k) for j in range(d)])


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for t in B.TYPES:
            add(b, ext, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C07', build,
        bounds='one call; every value of every element; buffer of exactly degree x vector-length elements with the weakest '
               'alignment the operator demands; degrees 2, 3, 4; all 7 x86/cpu extensions; all 11 types',
        assumptions=['NaN payloads of halves may change',
                     'which structure a lane holds is the back end\'s choice (AVX and wider permute lanes); it must be the same '
                     'for the aligned and unaligned forms of the loads and stores of one degree and type, for all data']))
