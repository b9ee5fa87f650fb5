"""C20: the counter based random generators are Random123's Philox and Threefry on every lane."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, stage as stg, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Out

# J. Salmon, M. Moraes, R. Dror, D. Shaw, "Parallel random numbers: as easy as 1, 2, 3", SC'11
PHILOX = {(32, 2): [10], (32, 4): [7, 10], (64, 2): [6, 10], (64, 4): [7, 10]}
THREEFRY = {(32, 2): [12, 20, 32], (32, 4): [12, 20, 72], (64, 2): [13, 20, 32], (64, 4): [12, 20, 72]}
MULT = {(32, 2): [0xD256D193], (64, 2): [0xD2B74407B1CE6E93], (32, 4): [0xD2511F53, 0xCD9E8D57],
        (64, 4): [0xD2E7470EE14C6C93, 0xCA5A826395121157]}
WEYL = {32: [0x9E3779B9, 0xBB67AE85], 64: [0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B]}
PARITY = {32: 0x1BD11BDA, 64: 0x1BD11BDAA9FC1A22}
ROT = {(64, 2): [16, 42, 12, 31, 16, 32, 24, 21], (32, 2): [13, 15, 26, 6, 17, 29, 16, 24],
       (64, 4): [(14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12), (58, 22), (32, 32)],
       (32, 4): [(10, 26), (11, 21), (13, 27), (23, 5), (6, 20), (17, 11), (25, 10), (18, 20)]}


def mulhilo(w, m, x):
    p = S.mul(2 * w, m, S.zext(w, x, 2 * w))
    return S.extract(p, w, w) if not S.isc(p) else p >> w, S.trunc(2 * w, p, w)


def philox(w, n, rounds, ctr, key):
    ctr, key = list(ctr), list(key)
    for r in range(rounds):
        if r:
            key = [S.add(w, k, b) for k, b in zip(key, WEYL[w])]
        if n == 2:
            hi, lo = mulhilo(w, MULT[w, n][0], ctr[0])
            ctr = [S.xor(w, S.xor(w, hi, key[0]), ctr[1]), lo]
        else:
            h0, l0 = mulhilo(w, MULT[w, n][0], ctr[0])
            h1, l1 = mulhilo(w, MULT[w, n][1], ctr[2])
            ctr = [S.xor(w, S.xor(w, h1, key[0]), ctr[1]), l1, S.xor(w, S.xor(w, h0, key[1]), ctr[3]), l0]
    return ctr


def rotl(w, x, k):
    return S.or_(w, S.shl(w, x, k), S.lshr(w, x, w - k))


def threefry(w, n, rounds, ctr, key):
    ks = list(key)
    p = PARITY[w]
    for k in key:
        p = S.xor(w, p, k)
    ks.append(p)
    x = [S.add(w, c, k) for c, k in zip(ctr, key)]
    for r in range(rounds):
        if n == 2:
            x[0] = S.add(w, x[0], x[1])
            x[1] = S.xor(w, rotl(w, x[1], ROT[w, n][r % 8]), x[0])
        else:
            a, b = (1, 3) if r % 2 == 0 else (3, 1)
            for i, j, k in ((0, a, 0), (2, b, 1)):
                x[i] = S.add(w, x[i], x[j])
                x[j] = S.xor(w, rotl(w, x[j], ROT[w, n][r % 8][k]), x[i])
        if r % 4 == 3:
            d = r // 4 + 1
            x = [S.add(w, v, ks[(d + j) % (n + 1)]) for j, v in enumerate(x)]
            x[n - 1] = S.add(w, x[n - 1], d)
    return x


S.LOWMOD = 32      # rotations: keep the rotated words whole


def build(st, tier):
    groups, cases = [], []
    for ext in (['cpu', 'sse2', 'avx2', 'avx512_skylake'] if tier == 'quick' else stg.EXTS):
        # kept out of line so that the generators can be decided modulo the 128-bit product, which has cases of its own
        src = ['#include <nsimd/nsimd-all.hpp>\nnamespace nsimd { namespace random { __attribute__((noinline)) '
               'void mulhilo64(pack<u64>, pack<u64>, pack<u64> *, pack<u64> *); } }\n#include <nsimd/modules/random/functions.hpp>\nextern "C" {\n']
        for name, table, ref, nk in (('philox', PHILOX, philox, lambda n: n // 2), ('threefry', THREEFRY, threefry, lambda n: n)):
            for (w, n), rs in table.items():
                for r in rs:
                    gen(src, cases, ext, name, ref, w, n, nk(n), r)
        ln = B.nl(ext, 'u64')
        src.append('void w_mulhilo64(u64 *l, u64 *h, const u64 *a, const u64 *b) { nsimd::pack<u64> p, q; nsimd::random::mulhilo64('
                   'nsimd::loadu(a, u64()), nsimd::loadu(b, u64()), &p, &q); nsimd::storeu(l, p); nsimd::storeu(h, q); }\n')
        for m in sorted(set(MULT[64, 2] + MULT[64, 4])):
            cases.append(Case('%s/mulhilo64/%x' % (ext, m), 'w_mulhilo64', [Out('l', 64, ln), Out('h', 64, ln), Buf('a', 64, ln, init=[m] * ln), Buf('b', 64, ln)],
                              mulpost(ln), mod=ext, ints=True, fn='nsimd::random::mulhilo64'))
        groups.append(Group(ext, ext, ''.join(src) + '}\n', cxx=True))
    return groups, cases


def mulmodel(M):
    """calls of mulhilo64 from the generators stand for the 128-bit product (decided by the mulhilo64 cases)"""
    names = [n for m in M.mods for n in m.ftext if 'mulhilo64' in n and not n.startswith('w_')]

    def f(m, st, ty, vals, tys):
        v = []
        for x, t in zip(vals[:-2], tys):
            v += x if isinstance(x, list) else [x]
        n = len(v) // 2
        pr = [mulhilo(64, v[i], v[n + i]) for i in range(n)]
        for k, p in ((1, vals[-2]), (0, vals[-1])):
            m.store(st, ('v', n, ('i', 64)), [x[k] for x in pr], p)
        return None
    return {n: f for n in names}


def mulpost(ln):
    def post(e):
        gl = []
        for i in range(ln):
            h, l = mulhilo(64, e['a'][i], e['b'][i])
            gl += [('low of lane %d' % i, S.eq(64, e.o['l'][i], l)), ('high of lane %d' % i, S.eq(64, e.o['h'][i], h))]
        return gl
    return post


def gen(src, cases, ext, name, ref, w, n, k, r):
    t = 'u%d' % w
    f = '%s_%dx%d_%d' % (name, n, w, r)
    ln = B.nl(ext, t)
    c = 'void w_%s(%s *o, const %s *c, const %s *k) { nsimd::packx%d<%s> in; nsimd::packx%d<%s> key; ' % (f, t, t, t, n, t, k, t)
    if k == 1:
        c = c.replace('nsimd::packx1<%s> key' % t, 'nsimd::packx1<%s> key' % t)
    c += ''.join('in.v%d = nsimd::loadu(c + %d, %s()); ' % (i, i * ln, t) for i in range(n))
    c += ''.join('key.v%d = nsimd::loadu(k + %d, %s()); ' % (i, i * ln, t) for i in range(k))
    c += 'in = nsimd::random::%s(in, key); ' % f
    c += ''.join('nsimd::storeu(o + %d, in.v%d); ' % (i * ln, i) for i in range(n))
    src.append(c + '}\n')

    def post(e):
        gl = []
        for i in range(ln):
            x = ref(w, n, r, [e['c'][j * ln + i] for j in range(n)], [e['k'][j * ln + i] for j in range(k)])
            gl += [('word %d of lane %d' % (j, i), S.eq(w, e.o['o'][j * ln + i], x[j])) for j in range(n)]
        return gl
    cases.append(Case('%s/%s' % (ext, f), 'w_' + f, [Out('o', w, n * ln), Buf('c', w, n * ln), Buf('k', w, k * ln)], post, mod=ext, ac=w,
                      models=mulmodel if w == 64 else None, fn='nsimd::random::' + f))


if __name__ == '__main__':
    sys.exit(driver.main(
        'C20', build,
        bounds='one call, every counter and every key on every lane, all 7 Philox and 12 Threefry variants; quick: cpu, SSE2, AVX2, AVX-512 Skylake',
        assumptions=[]))
