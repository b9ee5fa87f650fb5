"""C08: gathers and scatters."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, stage as stg, sym as S
from lib.harness import Buf, Int, Out, Sparse, sp_get



def add(b, ext, t, tier):
    w, n = B.wid(t), B.nl(ext, t)
    k = t[0]
    by = w // 8
    K = 3 if n <= 16 else 1       # half-width of the window of the footprint cases

    def off64(x, xw, elts=1):
        return S.mul(64, S.sext(xw, x, 64) if xw < 64 else x, by * elts)

    def offs(e):
        return [off64(x, w) for x in e['a1']]

    def loff(e):
        # the 32-bit product does not overflow (assumption below)
        return [off64(S.mul(32, e['a1'], i), 32) for i in range(n)]

    def small(e):
        # 64-bit indices: +-2^36 elements, so that a counterexample can be replayed in the address space
        if w < 64:
            return []
        return [S.b_and(S.sle(64, (-(1 << 36)) & S.mask(64), x), S.sle(64, x, 1 << 36)) for x in e['a1']]

    def linfit(e):
        # no overflow of the int product step * lane
        m = 1 << (20 if n > 32 and tier == 'quick' else 31)
        lo, hi = -(m // max(n - 1, 1)) + 1, m // max(n - 1, 1) - 1
        return [S.b_and(S.sle(32, lo & S.mask(32), e['a1']), S.sle(32, e['a1'], hi))]

    def cand_idx(rng):
        pool = [0, 1, -1, 5, -7, (1 << (w - 1)) - 1 if w < 64 else 1 << 36, -(1 << (w - 1)) if w < 64 else -(1 << 36),
                (1 << 30) - 1 if w > 16 else 100]
        idx = [rng.choice(pool) if rng.random() < 0.5 else rng.randrange(-1000, 1000) for _ in range(n)]
        return idx

    def cand(op):
        def f(rng):
            if op in ('gather', 'scatter'):
                idx = cand_idx(rng)
                o = [by * x for x in idx]
                c = {'a1': [x & S.mask(w) for x in idx]}
            else:
                st = rng.choice([0, 1, -1, 2, 3, -5, 1000, -(1 << 31) // n + 1, (1 << 31) // n - 1])
                o = [by * st * i for i in range(n)]
                c = {'a1': st & S.mask(32)}
            hi = 0x3c00 + len(o) if t == 'f16' else 1 + len(o)
            c['a0'] = {x: (0x3c00 if t == 'f16' else 1) + i for i, x in enumerate(o)}
            if op.startswith('scatter'):
                c['a2'] = [hi + i for i in range(n)]
            return c
        return f

    lin = {'o': Out('o', w, n, k)}
    # whole index range
    if w > 8:
        b.add(ext, 'gather', t, tag='all', args=[Out('o', w, n, k), Sparse('a0', w, k), Buf('a1', w, n, kind='i')],
              pre=small, touch=lambda e, nm: offs(e), cand=cand('gather'),
              post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], sp_get(e['a0'], offs(e)[i]))))

        def sc(e):
            o = offs(e)
            g = []
            for i in range(n):
                alts = [S.b_and(S.eq(64, o[j], o[i]), B.veq(t, sp_get(e.o['a0'], o[i]), e['a2'][j])) for j in range(i, n)]
                g.append(('cell of lane %d' % i, S.b_any(alts)))
            return g

        def sc_last(e):
            # lanes addressing distinct elements
            o = offs(e)
            return B.lanes(n, lambda i: B.veq(t, sp_get(e.o['a0'], o[i]), e['a2'][i]))

        def distinct(e):
            r = small(e)
            o = e['a1']
            for i in range(n):
                for j in range(i):
                    r.append(S.b_not(S.eq(w, o[i], o[j])))
            return r
        b.add(ext, 'scatter', t, tag='all', args=[Sparse('a0', w, k, True), Buf('a1', w, n, kind='i'), Buf('a2', w, n, kind=k)],
              pre=distinct, touch=lambda e, nm: offs(e), cand=cand('scatter'), post=sc_last)
    b.add(ext, 'gather_linear', t, tag='all', args=[Out('o', w, n, k), Sparse('a0', w, k), Int('a1', 32, kind='i')],
          pre=linfit, touch=lambda e, nm: loff(e), cand=cand('gather_linear'),
          post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], sp_get(e['a0'], loff(e)[i]))))

    def scl(e):
        # a zero step makes every lane write element 0: any lane's value may remain
        o = loff(e)
        z = S.eq(32, e['a1'], 0)
        g = []
        for i in range(n):
            r = sp_get(e.o['a0'], o[i])
            g.append(('cell of lane %d' % i, S.b_or(B.veq(t, r, e['a2'][i]),
                                                   S.b_and(z, S.b_any([B.veq(t, r, v) for v in e['a2']])))))
        return g
    b.add(ext, 'scatter_linear', t, tag='all', args=[Sparse('a0', w, k, True), Int('a1', 32, kind='i'), Buf('a2', w, n, kind=k)],
          pre=linfit, touch=lambda e, nm: loff(e), cand=cand('scatter_linear'), post=scl,
          timeout=100 if n > 32 else None)

    # small window around the base: nothing but the addressed elements is touched
    m = 2 * K
    if w > 8:
        def inwin(e):
            return [S.b_and(S.sle(w, (-K) & S.mask(w), x), S.slt(w, x, K)) for x in e['a1']]

        def acc(e):
            return [S.b_any([S.eq(w, x, (c - K) & S.mask(w)) for x in e['a1']]) for c in range(m)]

        def pick(e, i):
            v = e['a0'][0]
            for c in range(1, m):
                v = S.ite(w, S.eq(w, e['a1'][i], (c - K) & S.mask(w)), e['a0'][c], v)
            return v
        b.add(ext, 'gather', t, tag='window', ptr_off=K, pre=inwin,
              args=[Out('o', w, n, k), Buf('a0', w, m, kind=k, access=acc), Buf('a1', w, n, kind='i')],
              post=lambda e: B.lanes(n, lambda i: B.veq(t, e.o['o'][i], pick(e, i))))

        def scw(e):
            g = []
            for c in range(m):
                hit = [S.eq(w, x, (c - K) & S.mask(w)) for x in e['a1']]
                r = e.o['a0'][c]
                g.append(('element %d' % (c - K), S.b_any(
                    [S.b_and(S.b_not(S.b_any(hit)), S.eq(w, r, e['a0'][c]))] +
                    [S.b_and(h, B.veq(t, r, v)) for h, v in zip(hit, e['a2'])])))
            return g
        b.add(ext, 'scatter', t, tag='window', ptr_off=K, pre=inwin, post=scw,
              args=[Buf('a0', w, m, kind=k, access=acc, out=True), Buf('a1', w, n, kind='i'), Buf('a2', w, n, kind=k)])
    # linear: stride s, buffer exactly spans the addressed elements
    for s in (0, 1, 2, 3, -1, -2):
        span = abs(s) * (n - 1) + 1
        base = span - 1 if s < 0 else 0
        pos = [base + s * i for i in range(n)]
        accl = (lambda e, pos=pos, span=span: [1 if c in pos else 0 for c in range(span)])

        def gl(e, pos=pos):
            return B.lanes(n, lambda i: B.veq(t, e.o['o'][i], e['a0'][pos[i]]))

        def sl(e, pos=pos, span=span):
            g = []
            for c in range(span):
                r = e.o['a0'][c]
                vs = [e['a2'][i] for i in range(n) if pos[i] == c]
                g.append(('element %d' % c, S.b_any([B.veq(t, r, v) for v in vs]) if vs else S.eq(w, r, e['a0'][c])))
            return g
        b.add(ext, 'gather_linear', t, tag='span%d' % s, ptr_off=base, post=gl,
              args=[Out('o', w, n, k), Buf('a0', w, span, kind=k, access=accl), Int('a1', 32, s)])
        b.add(ext, 'scatter_linear', t, tag='span%d' % s, ptr_off=base, post=sl,
              args=[Buf('a0', w, span, kind=k, access=accl, out=True), Int('a1', 32, s), Buf('a2', w, n, kind=k)])


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for t in B.TYPES:
            add(b, ext, t, tier)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C08', build,
        bounds='one call; every value; offsets: all values of 16- and 32-bit offset lanes, +-2^36 for 64-bit ones, all int '
               'steps whose product with the lane number fits an int (quick, 64-lane vectors: |step| < 2^14); exact footprint for offsets within +-3 elements (+-1 for vectors of 32 and more) and '
               'steps 0, 1, 2, 3, -1, -2; all 7 x86/cpu extensions; all types offered',
        assumptions=['scatter over the whole offset range: offsets pairwise distinct (duplicates are covered in the window)',
                     'step x lane number does not overflow int']))
