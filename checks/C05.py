"""C05: logical vectors, masks, reductions and selection."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, driver, specs, stage as stg, sym as S
from lib.harness import Buf, Int, Out


def add(b, ext, t):
    w, n = B.wid(t), B.nl(ext, t)
    for op in specs.LOG2 + ['notl', 'if_else1', 'to_mask', 'to_logical']:
        BC.add_ew(b, ext, op, t)
    for tt in B.SAME[t]:
        BC.add_ew(b, ext, 'reinterpretl', t, tt)

    def tr(env):
        return [B.istrue(t, x) for x in env['a0']]
    b.add(ext, 'all', t, post=lambda e: [('all', S.b_not(S.b_xor(S.b_not(S.eq(32, e.o['o'][0], 0)), S.b_all(tr(e)))))])
    b.add(ext, 'any', t, post=lambda e: [('any', S.b_not(S.b_xor(S.b_not(S.eq(32, e.o['o'][0], 0)), S.b_any(tr(e)))))])

    def nb(e):
        c = 0
        for x in tr(e):
            c = S.add(32, c, S.ite(32, x, 1, 0))
        return [('nbtrue', S.eqsum(32, e.o['o'][0], c))]
    b.add(ext, 'nbtrue', t, post=nb)
    b.add(ext, 'set1l', t, post=lambda e: B.lanes(n, lambda i: B.lres(t, e.o['o'][i], S.b_not(S.eq(32, e['a0'], 0)))))

    # lane k is active iff i + k < n (mathematically; 34-bit arithmetic)
    def tail(e):
        i, m = S.sext(32, e['a0'], 40), S.sext(32, e['a1'], 40)
        return B.lanes(n, lambda k: B.lres(t, e.o['o'][k], S.slt(40, S.add(40, i, k), m)))
    b.add(ext, 'mask_for_loop_tail', t, post=tail, pre=lambda e: [S.sle(32, 0, e['a0']), S.sle(32, e['a0'], (1 << 31) - 1 - n),
                                                                      S.sle(32, 0, e['a1'])])
    # loading logicals: zero is false, anything else true (every bit pattern); storing writes exactly 0 or 1
    for al in 'ua':
        src = ('void WL_%s_%s_%s(%s *o, const %s *a) { nsimd_storel%s_%s_%s(o, nsimd_loadl%s_%s_%s(a)); }\n'
               % (al, ext, t, t, t, al, ext, t, al, ext, t))
        align = stg.VBITS[ext] // 8 if al == 'a' else w // 8

        def ll(e):
            g = []
            for i in range(n):
                x = e['a'][i]
                nz = S.b_not(S.f_eq(w, x, 0)) if B.isf(t) else S.b_not(S.eq(w, x, 0))
                g.append(('lane %d' % i, B.lres(t, e.o['o'][i], nz)))
            return g
        known = None
        if t == 'f16' and ext.startswith('avx512'):
            known = [('KF-loadl-f16-negzero', lambda e: S.b_any([S.eq(16, x, 0x8000) for x in e['a']]))]
        b.custom(ext, 'WL_%s_%s_%s' % (al, ext, t), src,
                 [Out('o', w, n, t[0], align=align), Buf('a', w, n, kind=t[0], align=align)], ll,
                 fn='nsimd_loadl%s_%s_%s' % (al, ext, t), cid='loadl%s_storel%s/%s' % (al, al, t), known=known)


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for t in B.TYPES:
            add(b, ext, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C05', build,
        bounds='one call on one full vector of logicals; every combination of true/false lanes, every scalar argument '
               '(loop-tail index and count: all non-negative 32-bit integers); all 7 x86/cpu extensions; all 11 types',
        assumptions=['loop-tail index and count are non-negative and index + vector length fits in an int']))
