"""Semantics of the LLVM and x86 intrinsics and C library functions nsimd's code reaches."""
import re
import z3
from . import sym as S
from . import llparse as L
from .sym import POISON, isc


def _E():
    from . import engine
    return engine


def lanes(v):
    return v if isinstance(v, list) else [v]


def un(f):
    def g(M, st, ty, a, tys):
        if ty[0] == 'v':
            w = M.layout.bits(ty[2])
            return [POISON if x is POISON else f(w, x) for x in a[0]]
        return POISON if a[0] is POISON else f(M.layout.bits(ty), a[0])
    return g


def bi(f):
    def g(M, st, ty, a, tys):
        if ty[0] == 'v':
            w = M.layout.bits(ty[2])
            return [POISON if x is POISON or y is POISON else f(w, x, y) for x, y in zip(a[0], a[1])]
        if a[0] is POISON or a[1] is POISON:
            return POISON
        return f(M.layout.bits(ty), a[0], a[1])
    return g


def tri(f):
    def g(M, st, ty, a, tys):
        if ty[0] == 'v':
            w = M.layout.bits(ty[2])
            return [POISON if x is POISON or y is POISON or z is POISON else f(w, x, y, z) for x, y, z in zip(a[0], a[1], a[2])]
        if any(x is POISON for x in a[:3]):
            return POISON
        return f(M.layout.bits(ty), a[0], a[1], a[2])
    return g


def _minnum(w, a, b):
    return S.ite(w, S.f_isnan(w, a), b, S.ite(w, S.f_isnan(w, b), a, S.ite(w, S.f_lt(w, b, a), b, a)))


def _maxnum(w, a, b):
    return S.ite(w, S.f_isnan(w, a), b, S.ite(w, S.f_isnan(w, b), a, S.ite(w, S.f_lt(w, a, b), b, a)))


def _x86min(w, a, b):
    return S.ite(w, S.f_lt(w, a, b), a, b)


def _x86max(w, a, b):
    return S.ite(w, S.f_lt(w, b, a), a, b)


def _copysign(w, a, b):
    return S.or_(w, S.and_(w, a, S.mask(w - 1)), S.and_(w, b, 1 << (w - 1)))


def _ctlz(w, a):
    if isc(a):
        return w - a.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        b = S.bit(w, a, i)
        r = S.ite(w, b, w - 1 - i, r)
    return r


def _cttz(w, a):
    if isc(a):
        return w if a == 0 else (a & -a).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in range(w - 1, -1, -1):
        r = S.ite(w, S.bit(w, a, i), i, r)
    return r


def _bswap(w, a):
    n = w // 8
    return S.concat([(8, S.extract(a, 8 * (n - 1 - i), 8) if not isc(a) else (a >> (8 * (n - 1 - i))) & 255) for i in range(n)])


def _fsh(w, a, b, c, left):
    c = S.urem(w, c, w)
    c2 = S.zext(w, c, 2 * w)
    ab = S.concat([(w, b), (w, a)])
    if left:
        return S.trunc(2 * w, S.lshr(2 * w, S.shl(2 * w, ab, c2), w), w)
    return S.trunc(2 * w, S.lshr(2 * w, ab, c2), w)


def _rm(name):
    return lambda w, a: S.fround(w, a, name)


GEN = {
    'abs': lambda M, st, ty, a, tys: un(S.iabs)(M, st, ty, a, tys),
    'ctpop': un(S.popcount), 'ctlz': un(_ctlz), 'cttz': un(_cttz), 'bswap': un(_bswap),
    'fabs': un(S.fabs), 'sqrt': un(S.fsqrt),
    'floor': un(_rm('DOWN')), 'ceil': un(_rm('UP')), 'trunc': un(_rm('RTZ')),
    'round': un(_rm('RNA')), 'rint': un(_rm('RNE')), 'nearbyint': un(_rm('RNE')), 'roundeven': un(_rm('RNE')),
    'fma': tri(S.ffma), 'fmuladd': tri(lambda w, a, b, c: S.fadd(w, S.fmul(w, a, b), c)),
    'smax': bi(S.smax), 'smin': bi(S.smin), 'umax': bi(S.umax), 'umin': bi(S.umin),
    'sadd.sat': bi(S.sadd_sat), 'ssub.sat': bi(S.ssub_sat), 'uadd.sat': bi(S.uadd_sat), 'usub.sat': bi(S.usub_sat),
    'minnum': bi(_minnum), 'maxnum': bi(_maxnum), 'copysign': bi(_copysign),
    'fshl': tri(lambda w, a, b, c: _fsh(w, a, b, c, True)), 'fshr': tri(lambda w, a, b, c: _fsh(w, a, b, c, False)),
}


def memcpy(M, st, ty, a, tys):
    n = S.simp(a[2])
    if not isc(n):
        n = M.concretize_len(st, n) if hasattr(M, 'concretize_len') else None
        if n is None:
            raise _E().Unsupported('symbolic memcpy length')
    d, s = a[0], a[1]
    if n == 0:
        return d
    # copy in 8-byte-term preserving chunks: byte granular keeps (term,k) entries intact
    E = _E()
    rd = M.resolve(st, d, 'memcpy')
    rs = M.resolve(st, s, 'memcpy')
    if len(rd) == 1 and len(rs) == 1 and rd[0][1] is not None and rs[0][1] is not None and isc(rd[0][2]) and isc(rs[0][2]):
        _, od, offd = rd[0]
        _, os_, offs = rs[0]
        if M._chk(st, os_, offs, n, 1, 1, 'memcpy read', False) and M._chk(st, od, offd, n, 1, 1, 'memcpy write', True):
            src = os_.b[offs:offs + n]
            o = st.wobj(od.id, M.gobjs)
            o.b[offd:offd + n] = src
        return d
    vals = [M.load_bytes(st, M.padd(s, i), 1, what='memcpy') for i in range(n)]
    for i, v in enumerate(vals):
        M.store_bytes(st, M.padd(d, i), 1, v, what='memcpy')
    return d


def memset(M, st, ty, a, tys):
    n = S.simp(a[2])
    if not isc(n):
        raise _E().Unsupported('symbolic memset length')
    v = a[1]
    if tys[1][1] > 8:
        v = S.trunc(tys[1][1], v, 8)
    for i in range(n):
        M.store_bytes(st, M.padd(a[0], i), 1, v, what='memset')
    return a[0]


def masked_load(M, st, ty, a, tys):
    # (ptr, align, mask, passthru)
    p, al, m, pt = a
    w = M.layout.bits(ty[2])
    n = w // 8
    if al > 1:
        M._align_ob(st, p, al, 1, 'masked load')
    out = []
    for i in range(ty[1]):
        c = m[i]
        if isc(c) and not c:
            out.append(pt[i])
            continue
        v = M.load(st, ty[2], M.padd(p, i * n), 1, c, 'masked load')
        out.append(_E().merge_val(w, c, v, pt[i]))
    return out


def masked_store(M, st, ty, a, tys):
    # (val, ptr, align, mask)
    v, p, al, m = a
    vt = tys[0]
    n = M.layout.bits(vt[2]) // 8
    if al > 1:
        M._align_ob(st, p, al, 1, 'masked store')
    for i in range(vt[1]):
        c = m[i]
        if isc(c) and not c:
            continue
        M.store(st, vt[2], v[i], M.padd(p, i * n), 1, c, 'masked store')
    return None


def sbit(w, x):
    return S.bit(w, x, w - 1)


def x86_shift(op):
    def g(M, st, ty, a, tys):
        w = ty[2][1]
        v, c = a
        cw = tys[1][2][1]
        cnt = S.concat([(cw, x) for x in c[:64 // cw]])
        return [shift1(op, w, x, cnt, 64) for x in v]
    return g


def shift1(op, w, x, cnt, cw):
    if x is POISON or cnt is POISON:
        return POISON
    big = S.b_not(S.ult(cw, cnt, w))
    cl = S.trunc(cw, cnt, w) if cw >= w else S.zext(cw, cnt, w)
    if op == 'sll':
        return S.ite(w, big, 0, S.shl(w, x, cl) if not (isc(big) and big) else 0)
    if op == 'srl':
        return S.ite(w, big, 0, S.lshr(w, x, cl) if not (isc(big) and big) else 0)
    return S.ite(w, big, S.ashr(w, x, w - 1), S.ashr(w, x, cl) if not (isc(big) and big) else 0)


def x86_shifti(op):
    def g(M, st, ty, a, tys):
        w = ty[2][1]
        return [shift1(op, w, x, a[1], 32) for x in a[0]]
    return g


def x86_shiftv(op):
    def g(M, st, ty, a, tys):
        w = ty[2][1]
        return [shift1(op, w, x, c, w) for x, c in zip(a[0], a[1])]
    return g


def x86_blendv(M, st, ty, a, tys):
    w = M.layout.bits(ty[2])
    return [_E().merge_val(w, sbit(w, m), y, x) if m is not POISON else POISON for x, y, m in zip(*a)]


def rnd_imm(M, imm):
    if not isc(imm):
        raise _E().Unsupported('symbolic rounding immediate')
    return {0: 'RNE', 1: 'DOWN', 2: 'UP', 3: 'RTZ'}.get(imm & 3) if not imm & 4 else 'RNE'


def x86_round(M, st, ty, a, tys):
    w = M.layout.bits(ty[2])
    rm = rnd_imm(M, a[1])
    return [S.fround(w, x, rm) for x in a[0]]


def mask_bits(M, m, t, n):
    if isinstance(m, list):
        return m[:n]
    w = t[1]
    return [S.bit(w, m, i) for i in range(n)]


def masked(M, ty, res, passthru, m, mt):
    w = M.layout.bits(ty[2])
    mb = mask_bits(M, m, mt, len(res))
    return [_E().merge_val(w, c, x, y) for c, x, y in zip(mb, res, passthru)]


def x86_rndscale(M, st, ty, a, tys):
    # (src, imm, passthru, mask, sae)
    w = M.layout.bits(ty[2])
    if a[1] >> 4:
        raise _E().Unsupported('rndscale with scale')
    rm = rnd_imm(M, a[1])
    return masked(M, ty, [S.fround(w, x, rm) for x in a[0]], a[2], a[3], tys[3])


def chk_round(M, r):
    if isc(r) and r not in (4, 8, 12):
        pass


def x86_cvt_fp2int(src, dst, signed, rm):
    oob = (1 << (dst - 1)) if signed else S.mask(dst)
    f = S.fptosi if signed else S.fptoui

    def g(M, st, ty, a, tys):
        r = rm
        if len(a) >= 4 and isc(a[3]) and r != 'RTZ':
            r = {4: 'RNE', 8: 'RNE', 9: 'DOWN', 10: 'UP', 11: 'RTZ'}[a[3]]
        n = ty[1]
        res = [f(src, x, dst, r, oob) for x in a[0]]
        while len(res) < n:
            res.append(0)
        if len(a) >= 3:
            return masked(M, ty, res, a[1], a[2], tys[2])
        return res[:n]
    return g


def x86_cvt_fp2fp(src, dst):
    def g(M, st, ty, a, tys):
        res = [S.fcvt(src, x, dst) for x in a[0]]
        while len(res) < ty[1]:
            res.append(0)
        if len(a) >= 3:
            return masked(M, ty, res, a[1], a[2], tys[2])
        return res
    return g


def x86_cvtps2ph(M, st, ty, a, tys):
    imm = a[1]
    if imm & 3 and not imm & 4:
        raise _E().Unsupported('vcvtps2ph rounding mode %d' % imm)
    res = [S.fcvt(32, x, 16) for x in a[0]]
    while len(res) < ty[1]:
        res.append(0)
    if len(a) >= 4:
        return masked(M, ty, res, a[2], a[3], tys[3])
    return res


def hw(name):
    def g(M, st, ty, a, tys):
        w = M.layout.bits(ty[2])
        return [S.uf('hw!%s:%d' % (name, w), [(w, x)], w) for x in a[0]]
    return g


def hw_mask(name):
    # (src, passthru, mask [, sae])
    def g(M, st, ty, a, tys):
        w = M.layout.bits(ty[2])
        res = [S.uf('hw!%s:%d' % (name, w), [(w, x)], w) for x in a[0]]
        return masked(M, ty, res, a[1], a[2], tys[2])
    return g


def maskmovdqu(M, st, ty, a, tys):
    d, m, p = a
    for i in range(16):
        M.store_bytes(st, M.padd(p, i), 1, d[i], sbit(8, m[i]), what='maskmovdqu')


def avx_maskload(M, st, ty, a, tys):
    p, m = a
    w = M.layout.bits(ty[2])
    out = []
    for i in range(ty[1]):
        c = sbit(w, m[i])
        if isc(c) and not c:
            out.append(0)
            continue
        v = M.load_bytes(st, M.padd(p, i * w // 8), w // 8, c, 1, 'maskload')
        out.append(_E().merge_val(w, c, v, 0))
    return out


def avx_maskstore(M, st, ty, a, tys):
    p, m, v = a
    w = M.layout.bits(tys[2][2])
    for i in range(tys[2][1]):
        c = sbit(w, m[i])
        if isc(c) and not c:
            continue
        M.store_bytes(st, M.padd(p, i * w // 8), w // 8, v[i], c, 1, 'maskstore')


def gather2(M, st, ty, a, tys):
    src, p, idx, m, sc = a
    w = M.layout.bits(ty[2])
    iw = tys[2][2][1]
    out = []
    for i in range(ty[1]):
        c = sbit(w, m[i])
        q = M.padd(p, S.mul(64, S.sext(iw, idx[i], 64), sc))
        v = M.load_bytes(st, q, w // 8, c, 1, 'gather')
        out.append(_E().merge_val(w, c, v, src[i]))
    return out


def gather512(M, st, ty, a, tys):
    src, p, idx, m, sc = a
    w = M.layout.bits(ty[2])
    iw = tys[2][2][1]
    mb = mask_bits(M, m, tys[3], ty[1])
    out = []
    for i in range(ty[1]):
        c = mb[i]
        if isc(c) and not c:
            out.append(src[i])
            continue
        q = M.padd(p, S.mul(64, S.sext(iw, idx[i], 64), sc))
        v = M.load_bytes(st, q, w // 8, c, 1, 'gather')
        out.append(_E().merge_val(w, c, v, src[i]))
    return out


def scatter512(M, st, ty, a, tys):
    p, m, idx, v, sc = a
    vt = tys[3]
    w = M.layout.bits(vt[2])
    iw = tys[2][2][1]
    n = min(vt[1], tys[2][1])
    mb = mask_bits(M, m, tys[1], n)
    for i in range(n):
        c = mb[i]
        if isc(c) and not c:
            continue
        q = M.padd(p, S.mul(64, S.sext(iw, idx[i], 64), sc))
        M.store_bytes(st, q, w // 8, v[i], c, 1, 'scatter')


def vpermi2(M, st, ty, a, tys):
    x, idx, y = a
    xy = x + y
    w = M.layout.bits(ty[2])
    iw = tys[1][2][1]
    k = (2 * ty[1]).bit_length() - 1
    out = []
    for i in range(ty[1]):
        out.append(select_idx(M, xy, idx[i], iw, k, w))
    return out


def select_idx(M, vals, ix, iw, k, w):
    if ix is POISON:
        return POISON
    if isc(ix):
        return vals[ix & ((1 << k) - 1)]
    lo = z3.Extract(k - 1, 0, ix)
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = _E().merge_val(w, lo == j, vals[j], r)
    return r


def permvar(M, st, ty, a, tys):
    # llvm.x86.avx2.permd(v, idx) / permps
    w = M.layout.bits(ty[2])
    k = ty[1].bit_length() - 1
    return [select_idx(M, a[0], ix, tys[1][2][1], k, w) for ix in a[1]]


def pshufb(M, st, ty, a, tys):
    out = []
    for i in range(ty[1]):
        base = i & ~15
        ix = a[1][i]
        if ix is POISON:
            out.append(POISON)
            continue
        if isc(ix):
            out.append(0 if ix & 0x80 else a[0][base + (ix & 15)])
            continue
        v = select_idx(M, a[0][base:base + 16], ix, 8, 4, 8)
        out.append(_E().merge_val(8, sbit(8, ix), 0, v))
    return out


def movmsk(M, st, ty, a, tys):
    w = M.layout.bits(tys[0][2])
    n = tys[0][1]
    r = S.concat([(1, sbit(w, x)) for x in a[0]])
    if n == 1:
        return S.zext(1, r, ty[1])
    return S.zext(n, r, ty[1])


def pack(signed, w):
    def g(M, st, ty, a, tys):
        w2 = w // 2

        def sat(x):
            if x is POISON:
                return x
            if signed:
                lo, hi = -(1 << (w2 - 1)) & S.mask(w), (1 << (w2 - 1)) - 1
            else:
                lo, hi = 0, (1 << w2) - 1
            return S.trunc(w, S.ite(w, S.slt(w, hi, x), hi, S.ite(w, S.slt(w, x, lo), lo, x)), w2)
        n = tys[0][1]
        per = 128 // w
        out = []
        for l in range(0, n, per):
            out += [sat(x) for x in a[0][l:l + per]]
            out += [sat(x) for x in a[1][l:l + per]]
        return out
    return g


def pmulh(signed):
    def g(M, st, ty, a, tys):
        w = ty[2][1]
        ex = S.sext if signed else S.zext
        return [POISON if x is POISON or y is POISON else
                S.trunc(2 * w, S.lshr(2 * w, S.mul(2 * w, ex(w, x, 2 * w), ex(w, y, 2 * w)), w), w)
                for x, y in zip(a[0], a[1])]
    return g


def pmaddwd(M, st, ty, a, tys):
    out = []
    for i in range(ty[1]):
        s = 0
        for j in (0, 1):
            s = S.add(32, s, S.mul(32, S.sext(16, a[0][2 * i + j], 32), S.sext(16, a[1][2 * i + j], 32)))
        out.append(s)
    return out


def fhadd(sub):
    def g(M, st, ty, a, tys):
        w = M.layout.bits(ty[2])
        per = 128 // w
        out = []
        f = S.fsub if sub else S.fadd
        for l in range(0, ty[1], per):
            for v in a[:2]:
                for k in range(0, per, 2):
                    out.append(f(w, v[l + k], v[l + k + 1]))
        return out
    return g


def ihadd(M, st, ty, a, tys):
    w = ty[2][1]
    per = 128 // w
    out = []
    for l in range(0, ty[1], per):
        for v in a[:2]:
            for k in range(0, per, 2):
                out.append(S.add(w, v[l + k], v[l + k + 1]))
    return out


def psadbw(M, st, ty, a, tys):
    out = []
    for i in range(ty[1]):
        s = 0
        for j in range(8):
            x, y = a[0][8 * i + j], a[1][8 * i + j]
            d = S.ite(8, S.ult(8, x, y), S.sub(8, y, x), S.sub(8, x, y))
            s = S.add(64, s, S.zext(8, d, 64))
        out.append(s)
    return out


def ptest(kind):
    def g(M, st, ty, a, tys):
        w = M.layout.bits(tys[0][2])
        if 'vtest' in kind:
            def f(x):
                return S.bit(w, x, w - 1)
            z = S.b_not(S.b_any([S.b_and(f(x), f(y)) for x, y in zip(a[0], a[1])]))
            c = S.b_not(S.b_any([S.b_and(S.b_not(f(x)), f(y)) for x, y in zip(a[0], a[1])]))
        else:
            z = S.b_all([S.eq(w, S.and_(w, x, y), 0) for x, y in zip(a[0], a[1])])
            c = S.b_all([S.eq(w, S.and_(w, S.not_(w, x), y), 0) for x, y in zip(a[0], a[1])])
        r = z if kind.endswith('z') and not kind.endswith('nzc') else c if kind.endswith('testc') else S.b_and(S.b_not(z), S.b_not(c))
        return S.zext(1, r, 32)
    return g


def psign(M, st, ty, a, tys):
    w = ty[2][1]
    return [S.ite(w, S.slt(w, y, 0), S.neg(w, x), S.ite(w, S.eq(w, y, 0), 0, x)) for x, y in zip(a[0], a[1])]


def pternlog(M, st, ty, a, tys):
    w = ty[2][1]
    imm = a[3]
    out = []
    for x, y, z in zip(a[0], a[1], a[2]):
        r = 0
        for k in range(8):
            if (imm >> k) & 1:
                t = x if k & 4 else S.not_(w, x)
                t = S.and_(w, t, y if k & 2 else S.not_(w, y))
                t = S.and_(w, t, z if k & 1 else S.not_(w, z))
                r = S.or_(w, r, t)
        out.append(r)
    return out


def permilvar(M, st, ty, a, tys):
    w = M.layout.bits(ty[2])
    per = 128 // w
    out = []
    for i in range(ty[1]):
        b = i // per * per
        ix = a[1][i]
        if w == 64 and ix is not POISON:
            ix = S.lshr(64, ix, 1)
        out.append(select_idx(M, a[0][b:b + per], ix, w, per.bit_length() - 1, w))
    return out


X86 = [
    (r'sse2?\.min\.p[sd]|avx\.min\.p[sd]\.256|avx512\.min\.p[sd]\.512', bi(_x86min)),
    (r'sse2?\.max\.p[sd]|avx\.max\.p[sd]\.256|avx512\.max\.p[sd]\.512', bi(_x86max)),
    (r'sse41\.blendvp[sd]|avx\.blendv\.p[sd]\.256|sse41\.pblendvb|avx2\.pblendvb', x86_blendv),
    (r'sse41\.round\.p[sd]|avx\.round\.p[sd]\.256', x86_round),
    (r'avx512\.mask\.rndscale\.p[sd]\.(128|256|512)', x86_rndscale),
    (r'sse2\.cvtps2dq|avx\.cvt\.ps2dq\.256|avx512\.mask\.cvtps2dq\.(128|256|512)', x86_cvt_fp2int(32, 32, True, 'RNE')),
    (r'sse2\.cvttps2dq|avx\.cvtt\.ps2dq\.256|avx512\.mask\.cvttps2dq\.(128|256|512)', x86_cvt_fp2int(32, 32, True, 'RTZ')),
    (r'avx512\.mask\.cvtps2udq\.(128|256|512)', x86_cvt_fp2int(32, 32, False, 'RNE')),
    (r'avx512\.mask\.cvttps2udq\.(128|256|512)', x86_cvt_fp2int(32, 32, False, 'RTZ')),
    (r'avx512\.mask\.cvtpd2qq\.(128|256|512)', x86_cvt_fp2int(64, 64, True, 'RNE')),
    (r'avx512\.mask\.cvttpd2qq\.(128|256|512)', x86_cvt_fp2int(64, 64, True, 'RTZ')),
    (r'avx512\.mask\.cvtpd2uqq\.(128|256|512)', x86_cvt_fp2int(64, 64, False, 'RNE')),
    (r'avx512\.mask\.cvttpd2uqq\.(128|256|512)', x86_cvt_fp2int(64, 64, False, 'RTZ')),
    (r'sse2\.cvtpd2dq|avx\.cvt\.pd2dq\.256|avx512\.mask\.cvtpd2dq\.(128|256|512)', x86_cvt_fp2int(64, 32, True, 'RNE')),
    (r'sse2\.cvttpd2dq|avx\.cvtt\.pd2dq\.256|avx512\.mask\.cvttpd2dq\.(128|256|512)', x86_cvt_fp2int(64, 32, True, 'RTZ')),
    (r'avx512\.mask\.cvtpd2udq\.(128|256|512)', x86_cvt_fp2int(64, 32, False, 'RNE')),
    (r'avx512\.mask\.cvttpd2udq\.(128|256|512)', x86_cvt_fp2int(64, 32, False, 'RTZ')),
    (r'avx512\.mask\.cvtps2qq\.(128|256|512)', x86_cvt_fp2int(32, 64, True, 'RNE')),
    (r'avx512\.mask\.cvttps2qq\.(128|256|512)', x86_cvt_fp2int(32, 64, True, 'RTZ')),
    (r'avx512\.mask\.cvtps2uqq\.(128|256|512)', x86_cvt_fp2int(32, 64, False, 'RNE')),
    (r'avx512\.mask\.cvttps2uqq\.(128|256|512)', x86_cvt_fp2int(32, 64, False, 'RTZ')),
    (r'sse2\.cvtpd2ps|avx\.cvt\.pd2\.ps\.256|avx512\.mask\.cvtpd2ps(\.512)?', x86_cvt_fp2fp(64, 32)),
    (r'avx512\.mask\.cvtps2pd\.512', x86_cvt_fp2fp(32, 64)),
    (r'vcvtps2ph\.(128|256)|avx512\.mask\.vcvtps2ph\.(128|256|512)', x86_cvtps2ph),
    (r'sse\.rcp\.ps|avx\.rcp\.ps\.256', hw('rcp12')),
    (r'sse\.rsqrt\.ps|avx\.rsqrt\.ps\.256', hw('rsqrt12')),
    (r'avx512\.rcp14\.p[sd]\.\d+', hw_mask('rcp14')),
    (r'avx512\.rsqrt14\.p[sd]\.\d+', hw_mask('rsqrt14')),
    (r'avx512\.rcp28\.p[sd]', hw_mask('rcp28')),
    (r'avx512\.rsqrt28\.p[sd]', hw_mask('rsqrt28')),
    (r'sse2\.maskmov\.dqu', maskmovdqu),
    (r'avx2?\.maskload\..*', avx_maskload),
    (r'avx2?\.maskstore\..*', avx_maskstore),
    (r'avx2\.gather\..*', gather2),
    (r'avx512\.mask\.gather\..*', gather512),
    (r'avx512\.mask\.scatter\..*', scatter512),
    (r'avx512\.vpermi2var\..*', vpermi2),
    (r'avx2\.permd|avx2\.permps|avx512\.permvar\..*', permvar),
    (r'ssse3\.pshuf\.b\.128|avx2\.pshuf\.b|avx512\.pshuf\.b\.512', pshufb),
    (r'sse2?\.movmsk\.p[sd]|sse2\.pmovmskb\.128|avx\.movmsk\.p[sd]\.256|avx2\.pmovmskb', movmsk),
    (r'sse2\.packsswb\.128|avx2\.packsswb|avx512\.packsswb\.512', pack(True, 16)),
    (r'sse2\.packssdw\.128|avx2\.packssdw|avx512\.packssdw\.512', pack(True, 32)),
    (r'sse2\.packuswb\.128|avx2\.packuswb|avx512\.packuswb\.512', pack(False, 16)),
    (r'sse41\.packusdw|avx2\.packusdw|avx512\.packusdw\.512', pack(False, 32)),
    (r'sse2\.pmulh\.w|avx2\.pmulh\.w|avx512\.pmulh\.w\.512', pmulh(True)),
    (r'sse2\.pmulhu\.w|avx2\.pmulhu\.w|avx512\.pmulhu\.w\.512', pmulh(False)),
    (r'sse2\.pmadd\.wd|avx2\.pmadd\.wd|avx512\.pmaddw\.d\.512', pmaddwd),
    (r'sse3\.hadd\.p[sd]|avx\.hadd\.p[sd]\.256', fhadd(False)),
    (r'sse3\.hsub\.p[sd]|avx\.hsub\.p[sd]\.256', fhadd(True)),
    (r'ssse3\.phadd\.[wd]\.128|avx2\.phadd\.[wd]', ihadd),
    (r'sse2\.psad\.bw|avx2\.psad\.bw|avx512\.psad\.bw\.512', psadbw),
    (r'ssse3\.psign\.[bwd]\.128|avx2\.psign\.[bwd]', psign),
    (r'avx512\.pternlog\..*', pternlog),
    (r'avx\.vpermilvar\..*|avx512\.vpermilvar\..*', permilvar),
]
for _o in ('sll', 'srl', 'sra'):
    X86.append((r'(sse2|avx2)\.p%s\.[wdq]|avx512\.p%s\.[wdq]\.(128|256|512)' % (_o, _o), x86_shift(_o)))
    X86.append((r'(sse2|avx2)\.p%si\.[wdq]|avx512\.p%si\.[wdq]\.(128|256|512)' % (_o, _o), x86_shifti(_o)))
    X86.append((r'avx2\.p%sv\.[dq](\.256)?|avx512\.p%sv\.[wdq]\.(128|256|512)|avx512\.p%sv\.[wdq]' % (_o, _o, _o), x86_shiftv(_o)))
X86 = [(re.compile(p + r'\Z'), f) for p, f in X86]
for _k in ('ptestz', 'ptestc', 'ptestnzc'):
    X86.append((re.compile(r'sse41\.%s\Z|avx\.%s\.256\Z' % (_k, _k)), ptest(_k)))
for _k in ('vtestz', 'vtestc', 'vtestnzc'):
    X86.append((re.compile(r'avx\.%s\.p[sd](\.256)?\Z' % _k), ptest(_k)))


def malloc(M, st, ty, a, tys):
    n = S.simp(a[0])
    if not isc(n):
        raise _E().Unsupported('symbolic malloc size')
    return M.alloc(n, 'heap', 16, 'heap', st)


def free(M, st, ty, a, tys):
    p = a[0]
    E = _E()
    if isinstance(p, E.Ptr) and p.obj is None:
        return None
    if isinstance(p, E.Ptr):
        o = st.wobj(p.obj, M.gobjs)
        if not o.alive:
            M.ob(st, 1, 'double free')
        if not (isc(p.off) and p.off == 0) or o.kind != 'heap':
            M.ob(st, 1, 'free of a pointer not returned by the allocator')
        o.alive = False
        return None
    raise E.Unsupported('free of symbolic pointer')


def lib1(f, w):
    return lambda M, st, ty, a, tys: POISON if a[0] is POISON else f(w, a[0])


LIB = {}
for _n, _w in (('', 64), ('f', 32)):
    LIB['sqrt' + _n] = lib1(S.fsqrt, _w)
    LIB['floor' + _n] = lib1(_rm('DOWN'), _w)
    LIB['ceil' + _n] = lib1(_rm('UP'), _w)
    LIB['trunc' + _n] = lib1(_rm('RTZ'), _w)
    LIB['round' + _n] = lib1(_rm('RNA'), _w)
    LIB['rint' + _n] = lib1(_rm('RNE'), _w)
    LIB['nearbyint' + _n] = lib1(_rm('RNE'), _w)
    LIB['roundeven' + _n] = lib1(_rm('RNE'), _w)
    LIB['fabs' + _n] = lib1(S.fabs, _w)
    LIB['fma' + _n] = (lambda w: lambda M, st, ty, a, tys: S.ffma(w, a[0], a[1], a[2]))(_w)
LIB['memcpy'] = memcpy
LIB['memmove'] = memcpy
LIB['memset'] = memset
LIB['malloc'] = malloc
LIB['free'] = free
LIB['__cxa_allocate_exception'] = malloc
LIB['_Znwm'] = malloc
LIB['_Znam'] = malloc
LIB['_ZdlPv'] = free
LIB['_ZdaPv'] = free
LIB['_ZdlPvm'] = free
LIB['_ZdaPvm'] = free


def f16_models():
    """nsimd's software half conversions as their IEEE meaning (proved separately from src/fp16.cpp)."""
    up = lambda M, st, ty, a, tys: POISON if lanes(a[0])[0] is POISON else S.fcvt(16, _u16(a[0], tys[0]), 32)
    down = lambda M, st, ty, a, tys: _to(ty, S.fcvt(32, a[0], 16))
    cxx = {'_ZN5nsimd10f32_to_f16Ef': down, '_ZN5nsimd10f32_to_u16Ef': down, '_ZN5nsimd10u16_to_f32Et': up,
           '_ZN5nsimd10f16_to_f32E9nsimd_f16': up, '_ZN5nsimd10f16_to_f32E3f16': up}
    return {**cxx, 'nsimd_f16_to_f32': up, 'nsimd_u16_to_f32': up, 'nsimd_f32_to_f16': down, 'nsimd_f32_to_u16': down}


def _u16(v, t):
    while isinstance(v, list):
        v = v[0]
    return v


def _to(ty, v):
    while ty[0] == 's':
        return [_to(ty[1][0], v)]
    if ty[0] == 'i' and ty[1] != 16:
        return S.zext(16, v, ty[1])
    return v


def call(M, st, name, ty, a, tys):
    E = _E()
    M.externals[name] = M.externals.get(name, 0) + 1
    if name in LIB:
        return LIB[name](M, st, ty, a, tys)
    if not name.startswith('llvm.'):
        raise E.Unsupported('external function ' + name)
    n = name[5:]
    if n.startswith('x86.'):
        for p, f in X86:
            if p.match(n[4:]):
                return f(M, st, ty, a, tys)
        raise E.Unsupported('intrinsic ' + name)
    base = re.sub(r'(\.(v\d+|nxv\d+)?(i\d+|f\d+|p\d+))+$', '', n)
    if base in GEN:
        return GEN[base](M, st, ty, a, tys)
    if base in ('memcpy', 'memmove', 'memcpy.inline'):
        return memcpy(M, st, ty, a, tys)
    if base in ('memset', 'memset.inline'):
        return memset(M, st, ty, a, tys)
    if base == 'masked.load':
        return masked_load(M, st, ty, a, tys)
    if base == 'masked.store':
        return masked_store(M, st, ty, a, tys)
    if base == 'masked.gather':
        out = []
        w = M.layout.bits(ty[2])
        for i in range(ty[1]):
            c = a[2][i]
            v = M.load_bytes(st, a[0][i], w // 8, c, 1, 'gather') if not (isc(c) and not c) else a[3][i]
            out.append(E.merge_val(w, c, v, a[3][i]))
        return out
    if base == 'masked.scatter':
        w = M.layout.bits(tys[0][2])
        for i in range(tys[0][1]):
            c = a[3][i]
            if not (isc(c) and not c):
                M.store_bytes(st, a[1][i], w // 8, a[0][i], c, 1, 'scatter')
        return None
    if base in ('expect', 'ssa.copy', 'launder.invariant.group', 'strip.invariant.group'):
        return a[0]
    m = re.match(r'([us])(add|sub|mul)\.with\.overflow', base)
    if m:
        w = ty[1][0][1]
        ext = S.sext if m.group(1) == 's' else S.zext
        w2 = 2 * w if m.group(2) == 'mul' else w + 1
        f = {'add': S.add, 'sub': S.sub, 'mul': S.mul}[m.group(2)]
        x, y = a[0], a[1]
        r = f(w, x, y)
        wide = f(w2, ext(w, x, w2), ext(w, y, w2))
        ov = S.b_not(S.eq(w2, wide, ext(w, r, w2)))
        return [r, ov]
    m = re.match(r'vector\.reduce\.(\w+)', base)
    if m:
        k = m.group(1)
        w = M.layout.bits(ty)
        if k in ('fadd', 'fmul'):
            acc = a[0]
            for x in a[1]:
                acc = (S.fadd if k == 'fadd' else S.fmul)(w, acc, x)
            return acc
        f = {'add': S.add, 'mul': S.mul, 'and': S.and_, 'or': S.or_, 'xor': S.xor, 'smax': S.smax, 'smin': S.smin,
             'umax': S.umax, 'umin': S.umin}.get(k)
        if f:
            acc = a[0][0]
            for x in a[0][1:]:
                acc = f(w, acc, x)
            return acc
    if base == 'is.constant' or n.startswith('is.constant'):
        return 0
    if n == 'trap' or base == 'trap':
        M.ob(st, 1, 'trap')
        return E.DEAD
    if n.startswith('objectsize'):
        return S.mask(ty[1])
    if base == 'stacksave' or n.startswith('stacksave'):
        return E.Ptr(None, 0)
    if n.startswith('stackrestore'):
        return None
    if base == 'is.fpclass':
        w = M.layout.bits(tys[0])
        msk = a[1]
        r = 0
        nan = S.f_isnan(w, a[0])
        from . import fpc
        ab = S.fabs(w, a[0])
        sg = S.bit(w, a[0], w - 1)
        isinf = S.eq(w, ab, fpc.inf(w))
        zero = S.eq(w, ab, 0)
        mn = 1 << (fpc.FMT[w][1] - 1)
        sub = S.b_and(S.ult(w, ab, mn), S.b_not(zero))
        norm = S.b_and(S.b_not(S.ult(w, ab, mn)), S.ult(w, ab, fpc.inf(w)))
        for bit_, c in ((3, nan), (0x204, isinf), (0x108, norm), (0x90, sub), (0x60, zero)):
            if bit_ == 3:
                if msk & 3:
                    r = S.b_or(r, c)
                continue
        for neg_, pos_, c in ((0x4, 0x200, isinf), (0x8, 0x100, norm), (0x10, 0x80, sub), (0x20, 0x40, zero)):
            if msk & neg_:
                r = S.b_or(r, S.b_and(sg, c))
            if msk & pos_:
                r = S.b_or(r, S.b_and(S.b_not(sg), c))
        return r
    raise E.Unsupported('intrinsic ' + name)
