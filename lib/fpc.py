"""Exact concrete IEEE-754 arithmetic on bit patterns (half, float, double)."""
import struct
from fractions import Fraction
from math import isqrt

FMT = {16: (5, 11), 32: (8, 24), 64: (11, 53)}


def emax(w):
    return (1 << (FMT[w][0] - 1)) - 1


def qnan(w):
    e, s = FMT[w]
    return (((1 << e) - 1) << (s - 1)) | (1 << (s - 2))


def inf(w, neg=0):
    e, s = FMT[w]
    return (neg << (w - 1)) | (((1 << e) - 1) << (s - 1))


def isnan(w, b):
    return (b & ((1 << (w - 1)) - 1)) > inf(w)


def isinf(w, b):
    return (b & ((1 << (w - 1)) - 1)) == inf(w)


def sign(w, b):
    return b >> (w - 1)


def neg(w, b):
    return b ^ (1 << (w - 1))


def fabs(w, b):
    return b & ((1 << (w - 1)) - 1)


def value(w, b):
    """Fraction of a finite number"""
    e, s = FMT[w]
    m = b & ((1 << (s - 1)) - 1)
    x = (b >> (s - 1)) & ((1 << e) - 1)
    if x == 0:
        v = Fraction(m) * Fraction(2) ** (1 - emax(w) - (s - 1))
    else:
        v = Fraction(m | (1 << (s - 1))) * Fraction(2) ** (x - emax(w) - (s - 1))
    return -v if sign(w, b) else v


def rnd_int(q, rm, negative=False):
    """Round non-negative Fraction q to int; rm in RNE RTZ UP DOWN (towards +inf/-inf wrt sign)"""
    n = q.numerator // q.denominator
    r = q - n
    if r == 0:
        return n
    if rm == 'RNE':
        if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
            return n + 1
        return n
    if rm == 'RNA':
        return n + 1 if r >= Fraction(1, 2) else n
    if rm == 'RTZ':
        return n
    if rm == 'UP':
        return n if negative else n + 1
    if rm == 'DOWN':
        return n + 1 if negative else n
    raise Exception(rm)


def round_frac(w, v, zsign=0, rm='RNE'):
    """Fraction -> bits"""
    e, s = FMT[w]
    if v == 0:
        return zsign << (w - 1)
    sg = 1 if v < 0 else 0
    a = -v if sg else v
    # exponent floor(log2 a)
    ex = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** ex > a:
        ex -= 1
    emin = 1 - emax(w)
    q = max(ex, emin) - (s - 1)
    n = rnd_int(a / Fraction(2) ** q, rm, sg)
    if n >= (1 << s):
        n >>= 1
        q += 1
    if n == 0:
        return sg << (w - 1)
    if n < (1 << (s - 1)):
        return (sg << (w - 1)) | n  # subnormal
    be = q + (s - 1) + emax(w)
    if be >= (1 << e) - 1:
        if rm == 'RTZ' or (rm == 'UP' and sg) or (rm == 'DOWN' and not sg):
            return (sg << (w - 1)) | (inf(w) - 1)
        return inf(w, sg)
    return (sg << (w - 1)) | (be << (s - 1)) | (n - (1 << (s - 1)))


def add(w, a, b):
    if isnan(w, a) or isnan(w, b):
        return qnan(w)
    if isinf(w, a):
        if isinf(w, b) and a != b:
            return qnan(w)
        return a
    if isinf(w, b):
        return b
    v = value(w, a) + value(w, b)
    zs = sign(w, a) & sign(w, b)
    return round_frac(w, v, zs)


def mul(w, a, b):
    if isnan(w, a) or isnan(w, b):
        return qnan(w)
    sg = sign(w, a) ^ sign(w, b)
    if isinf(w, a) or isinf(w, b):
        if fabs(w, a) == 0 or fabs(w, b) == 0:
            return qnan(w)
        return inf(w, sg)
    return round_frac(w, value(w, a) * value(w, b), sg)


def div(w, a, b):
    if isnan(w, a) or isnan(w, b):
        return qnan(w)
    sg = sign(w, a) ^ sign(w, b)
    if isinf(w, a):
        return qnan(w) if isinf(w, b) else inf(w, sg)
    if isinf(w, b):
        return sg << (w - 1)
    if fabs(w, b) == 0:
        return qnan(w) if fabs(w, a) == 0 else inf(w, sg)
    return round_frac(w, value(w, a) / value(w, b), sg)


def fma(w, a, b, c):
    if isnan(w, a) or isnan(w, b) or isnan(w, c):
        return qnan(w)
    sg = sign(w, a) ^ sign(w, b)
    if isinf(w, a) or isinf(w, b):
        if fabs(w, a) == 0 or fabs(w, b) == 0:
            return qnan(w)
        if isinf(w, c) and sign(w, c) != sg:
            return qnan(w)
        return inf(w, sg)
    if isinf(w, c):
        return c
    v = value(w, a) * value(w, b) + value(w, c)
    return round_frac(w, v, sg & sign(w, c))


def sqrt(w, a):
    if isnan(w, a):
        return qnan(w)
    if fabs(w, a) == 0:
        return a
    if sign(w, a):
        return qnan(w)
    if isinf(w, a):
        return a
    v = value(w, a)
    # v = n/d ; scale so that integer sqrt has > 2*s+4 bits
    sc = 2 * (FMT[w][1] + 8)
    ex = v.numerator.bit_length() - v.denominator.bit_length()
    k = sc * 2 - ex
    k += k & 1
    x = v * Fraction(2) ** k
    n = x.numerator // x.denominator
    r = isqrt(n)
    sticky = (r * r != x)
    q = Fraction(2 * r + (1 if sticky else 0), 2) * Fraction(2) ** (-(k // 2))
    return round_frac(w, q)


def roundint(w, a, rm):
    if isnan(w, a):
        return qnan(w)
    if isinf(w, a) or fabs(w, a) == 0:
        return a
    v = value(w, a)
    sg = sign(w, a)
    n = rnd_int(-v if sg else v, rm, sg)
    return round_frac(w, Fraction(-n if sg else n), sg)


def cvt(w, a, w2):
    if isnan(w, a):
        # keep sign/payload top bits, quieted
        e1, s1 = FMT[w]
        e2, s2 = FMT[w2]
        m = a & ((1 << (s1 - 1)) - 1)
        m = m << (s2 - s1) if s2 >= s1 else m >> (s1 - s2)
        return (sign(w, a) << (w2 - 1)) | inf(w2) | m | (1 << (s2 - 2))
    if isinf(w, a):
        return inf(w2, sign(w, a))
    return round_frac(w2, value(w, a), sign(w, a))


def fromint(v, w):
    """v: python int (signed value)"""
    return round_frac(w, Fraction(v))


def toint(w, a, rm='RTZ'):
    """-> python int or None for NaN/inf"""
    if isnan(w, a) or isinf(w, a):
        return None
    v = value(w, a)
    sg = sign(w, a)
    n = rnd_int(-v if sg else v, rm, sg)
    return -n if sg else n


def lt(w, a, b):
    if isnan(w, a) or isnan(w, b):
        return False
    return key(w, a) < key(w, b)


def key(w, a):
    m = fabs(w, a)
    return -m if sign(w, a) else m


def eq(w, a, b):
    if isnan(w, a) or isnan(w, b):
        return False
    return key(w, a) == key(w, b)


def le(w, a, b):
    return lt(w, a, b) or eq(w, a, b)


_FMT = {16: '<e', 32: '<f', 64: '<d'}
_IFMT = {16: '<H', 32: '<I', 64: '<Q'}


def topy(w, b):
    return struct.unpack(_FMT[w], struct.pack(_IFMT[w], b))[0]


def frompy(w, v):
    try:
        return struct.unpack(_IFMT[w], struct.pack(_FMT[w], v))[0]
    except OverflowError:
        return inf(w, 1 if v < 0 else 0)
