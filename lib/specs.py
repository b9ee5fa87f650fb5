"""Specifications of the element-wise operators: pre(op,t,tt,args) -> list of assumptions,
good(op,t,tt,r,args) -> condition that result element r is right.  args: element values (bit patterns; logicals are
z3/py booleans), r: result element bits (boolean for logical results)."""
import math

from . import fpc
from . import sym as S
from .base import (SIG, dn16, f_bin, f_tern, f_un, feq_num, isf, notnan, sgnd, up32, veq, wid)

INT_EW = ['add', 'sub', 'mul', 'div', 'neg', 'abs', 'min', 'max', 'fma', 'fms', 'fnma', 'fnms', 'ceil', 'floor',
          'trunc', 'round_to_even']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
LOG2 = ['andl', 'orl', 'xorl', 'andnotl']
BIT2 = ['andb', 'orb', 'xorb', 'andnotb']


def pre(op, t, tt, a):
    w = wid(t)
    if op == 'div' and not isf(t):
        r = [S.b_not(S.eq(w, a[1], 0))]
        if sgnd(t):
            r.append(S.b_not(S.b_and(S.eq(w, a[0], 1 << (w - 1)), S.eq(w, a[1], S.mask(w)))))
        return r
    if op in ('shl', 'shr', 'shra'):
        return [S.b_and(S.sle(32, 0, a[1]), S.slt(32, a[1], w))]
    if op in BIT2 + ['notb'] and t == 'f16':
        return notnan(t, a)
    if op in ('min', 'max') and isf(t):
        return notnan(t, a)
    if op in ('cvt', 'upcvt', 'downcvt') and isf(t) and not isf(tt):
        return [S.in_range(w, a[0], wid(tt), sgnd(tt), 'RTZ'), S.in_range(w, a[0], wid(tt), sgnd(tt), 'RNE')]
    if op == 'reinterpret' and t == 'f16':
        return notnan(t, a)
    return []


def good(op, t, tt, r, a):
    """-> condition"""
    w = wid(t)
    sg = sgnd(t)
    fl = isf(t)
    if op in CMP:
        x, y = a
        if fl:
            c = {'eq': lambda: S.f_eq(w, x, y), 'ne': lambda: S.b_not(S.f_eq(w, x, y)), 'lt': lambda: S.f_lt(w, x, y),
                 'le': lambda: S.f_le(w, x, y), 'gt': lambda: S.f_lt(w, y, x), 'ge': lambda: S.f_le(w, y, x)}[op]()
        else:
            lt = S.slt if sg else S.ult
            le = S.sle if sg else S.ule
            c = {'eq': lambda: S.eq(w, x, y), 'ne': lambda: S.b_not(S.eq(w, x, y)), 'lt': lambda: lt(w, x, y),
                 'le': lambda: le(w, x, y), 'gt': lambda: lt(w, y, x), 'ge': lambda: le(w, y, x)}[op]()
        return S.b_not(S.b_xor(r, c))
    if op in LOG2:
        x, y = a
        c = {'andl': lambda: S.b_and(x, y), 'orl': lambda: S.b_or(x, y), 'xorl': lambda: S.b_xor(x, y),
             'andnotl': lambda: S.b_and(x, S.b_not(y))}[op]()
        return S.b_not(S.b_xor(r, c))
    if op == 'notl':
        return S.b_xor(r, a[0])
    if op == 'if_else1':
        return veq(t, r, S.ite(w, a[0], a[1], a[2]))
    if op == 'reinterpretl':
        return S.b_not(S.b_xor(r, a[0]))
    if op == 'to_mask':
        return veq(t, r, S.ite(w, a[0], S.mask(w), 0))
    if op == 'to_logical':
        return S.b_not(S.b_xor(r, S.b_not(S.eq(w, a[0], 0))))
    if op in BIT2 or op == 'notb':
        if op == 'notb':
            v = S.not_(w, a[0])
        else:
            x, y = a
            v = {'andb': lambda: S.and_(w, x, y), 'orb': lambda: S.or_(w, x, y), 'xorb': lambda: S.xor(w, x, y),
                 'andnotb': lambda: S.and_(w, x, S.not_(w, y))}[op]()
        if t == 'f16':
            # half vectors are held as single precision on x86: acting on that image is the documented-by-use behaviour
            y = [up32(q) for q in a]
            v2 = {'notb': lambda: S.not_(32, y[0]), 'andb': lambda: S.and_(32, *y), 'orb': lambda: S.or_(32, *y),
                  'xorb': lambda: S.xor(32, *y), 'andnotb': lambda: S.and_(32, y[0], S.not_(32, y[1]))}[op]()
            return S.b_or(veq(t, r, v), veq(t, r, dn16(v2)))
        return S.eq(w, r, v)
    if op in ('shl', 'shr', 'shra'):
        x, n = a
        n = S.zext(32, n, w) if w > 32 else (S.trunc(32, n, w) if w < 32 else n)
        v = {'shl': S.shl, 'shr': S.lshr, 'shra': S.ashr if sg else S.lshr}[op](w, x, n)
        return S.eq(w, r, v)
    if op in ('cvt', 'upcvt', 'downcvt'):
        return cvt_good(op, t, tt, r, a[0])
    if op == 'reinterpret':
        return veq(tt, r, a[0])
    if op in ('adds', 'subs'):
        if fl:
            return good('add' if op == 'adds' else 'sub', t, tt, r, a)
        f = {'adds': (S.sadd_sat if sg else S.uadd_sat), 'subs': (S.ssub_sat if sg else S.usub_sat)}[op]
        return S.eq(w, r, f(w, a[0], a[1]))
    if not fl:
        return int_good(op, t, r, a)
    return flt_good(op, t, r, a)


def int_good(op, t, r, a):
    w = wid(t)
    sg = sgnd(t)
    if op == 'add':
        v = S.add(w, *a)
    elif op == 'sub':
        v = S.sub(w, *a)
    elif op == 'mul':
        v = S.mul(w, *a)
    elif op == 'div':
        v = S.sdiv(w, *a) if sg else S.udiv(w, *a)
    elif op == 'neg':
        v = S.neg(w, a[0])
    elif op == 'abs':
        v = S.ite(w, S.slt(w, a[0], 0), S.neg(w, a[0]), a[0]) if sg else a[0]
    elif op in ('min', 'max'):
        c = S.slt(w, *a) if sg else S.ult(w, *a)
        v = S.ite(w, c, a[0], a[1]) if op == 'min' else S.ite(w, c, a[1], a[0])
    elif op == 'fma':
        v = S.add(w, S.mul(w, a[0], a[1]), a[2])
    elif op == 'fms':
        v = S.sub(w, S.mul(w, a[0], a[1]), a[2])
    elif op == 'fnma':
        v = S.sub(w, a[2], S.mul(w, a[0], a[1]))
    elif op == 'fnms':
        v = S.neg(w, S.add(w, S.mul(w, a[0], a[1]), a[2]))
    elif op in ('ceil', 'floor', 'trunc', 'round_to_even'):
        v = a[0]
    else:
        raise KeyError(op)
    return S.eq(w, r, v)


def flt_good(op, t, r, a):
    w = wid(t)
    if op in ('add', 'sub', 'mul', 'div'):
        f = {'add': S.fadd, 'sub': S.fsub, 'mul': S.fmul, 'div': S.fdiv}[op]
        return veq(t, r, f_bin(t, f)(*a))
    if op == 'neg':
        return veq(t, r, S.fneg(w, a[0]))
    if op == 'abs':
        return feq_num(t, r, S.fabs(w, a[0]))
    if op in ('min', 'max'):
        x, y = a
        if op == 'max':
            x, y = y, x
        # result is one of the operands and no operand is on the wrong side of it
        is_op = S.b_or(veq(t, r, a[0]), veq(t, r, a[1]))
        if op == 'min':
            best = S.b_and(S.f_le(w, r, a[0]), S.f_le(w, r, a[1]))
        else:
            best = S.b_and(S.f_le(w, a[0], r), S.f_le(w, a[1], r))
        return S.b_and(is_op, best)
    if op in ('fma', 'fms', 'fnma', 'fnms'):
        def fused(w, x, y, z):
            if op in ('fnma', 'fnms'):
                x = S.fneg(w, x)
            if op in ('fms', 'fnms'):
                z = S.fneg(w, z)
            return S.ffma(w, x, y, z)

        def split(w, x, y, z):
            p = S.fmul(w, x, y)
            if op in ('fnma', 'fnms'):
                p = S.fneg(w, p)
            return S.fsub(w, p, z) if op in ('fms', 'fnms') else S.fadd(w, p, z)
        g = [feq_num(t, r, f_tern(t, fused)(*a)), feq_num(t, r, f_tern(t, split)(*a))]
        if t == 'f16':
            # half rounding of the intermediate product is also a multiply followed by an add
            def split16(x, y, z):
                p = dn16(S.fmul(32, up32(x), up32(y)))
                if op in ('fnma', 'fnms'):
                    p = S.fneg(16, p)
                f = S.fsub if op in ('fms', 'fnms') else S.fadd
                return dn16(f(32, up32(p), up32(z)))
            g.append(feq_num(t, r, split16(*a)))
        return S.b_any(g)
    if op in ('ceil', 'floor', 'trunc', 'round_to_even'):
        rm = {'ceil': 'UP', 'floor': 'DOWN', 'trunc': 'RTZ', 'round_to_even': 'RNE'}[op]
        return feq_num(t, r, f_un(t, lambda w, x: S.fround(w, x, rm))(a[0]))
    if op == 'sqrt':
        return veq(t, r, f_un(t, S.fsqrt)(a[0]))
    if op == 'rec':
        one = {16: 0x3f800000, 32: 0x3f800000, 64: 0x3ff0000000000000}[w]
        return veq(t, r, f_un(t, lambda w, x: S.fdiv(w, one, x))(a[0]))
    if op in ('rec11', 'rec8', 'rsqrt11', 'rsqrt8'):
        return approx(op, t, r, a[0])
    raise KeyError(op)


def approx(op, t, r, x):
    """approximate reciprocal (square root): symbolically, the result is the exactly rounded value or that of one of the
    hardware approximations (uninterpreted, relative error at most 1.5*2^-12 by the architecture manual); on
    concrete values, the documented relative error itself"""
    w = wid(t)
    if S.isc(r) and S.isc(x):
        v, q = fpc.topy(w, x), fpc.topy(w, r)
        lo, hi = {16: (2.0**-10, 2.0**10)}.get(w, (2.0**-100, 2.0**100))
        if not (lo <= abs(v) <= hi) or (op[1] == 's' and v < 0):
            return True
        ref = 1.0 / v if op[1] == 'e' else 1.0 / math.sqrt(v)
        tol = 2.0**-11 if op.endswith('11') else 2.0**-8
        if w == 16:
            tol += 2.0**-10
        return bool(abs(q - ref) <= tol * abs(ref))

    def alts(w, x):
        one = {32: 0x3f800000, 64: 0x3ff0000000000000}[w]
        if op[1] == 'e':
            return [S.fdiv(w, one, x)] + [S.uf('hw!%s:%d' % (n, w), [(w, x)], w) for n in ('rcp12', 'rcp14', 'rcp28')]
        return [S.fdiv(w, one, S.fsqrt(w, x))] + [S.uf('hw!%s:%d' % (n, w), [(w, x)], w)
                                                  for n in ('rsqrt12', 'rsqrt14', 'rsqrt28')]
    if t == 'f16':
        vs = [dn16(v) for v in alts(32, up32(x))]
    else:
        vs = alts(w, x)
    return S.b_any([veq(t, r, v) for v in vs])


def cvt_good(op, t, tt, r, x):
    w, w2 = wid(t), wid(tt)
    if t == tt:
        return veq(tt, r, x)
    if not isf(t) and not isf(tt):
        v = x if w == w2 else (S.trunc(w, x, w2) if w2 < w else (S.sext(w, x, w2) if sgnd(t) else S.zext(w, x, w2)))
        return S.eq(w2, r, v)
    if isf(t) and isf(tt):
        return veq(tt, r, S.fcvt(w, x, w2))
    if isf(t):
        f = S.fptosi if sgnd(tt) else S.fptoui
        # rounding of non-integral values is the back end's: truncation or round-to-nearest-even
        return S.b_or(S.eq(w2, r, f(w, x, w2, 'RTZ')), S.eq(w2, r, f(w, x, w2, 'RNE')))
    f = S.sitofp if sgnd(t) else S.uitofp
    if tt == 'f16':
        # ints reach half precision through single precision
        return S.b_or(veq(tt, r, S.fcvt(32, f(w, x, 32), 16)), veq(tt, r, f(w, x, 16)))
    return veq(tt, r, f(w, x, w2))
