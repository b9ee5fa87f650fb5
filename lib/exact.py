"""Integer reading of floating-point terms: for inputs that are small integers every addition, subtraction,
multiplication and conversion in the term is exact, so the term's value is the integer term built here."""
import z3

from . import fpc
from . import sym as S

W = 64


class NotExact(Exception):
    pass


def exact(e, w, memo=None):
    """64-bit integer term with the value of the w-bit float term e"""
    memo = {} if memo is None else memo
    if S.isc(e):
        n = fpc.toint(w, e, 'RTZ')
        if n is None or fpc.fromint(n, w) not in (e, e ^ (1 << (w - 1))) or (n and fpc.fromint(n, w) != e):
            raise NotExact('constant %x' % e)
        return z3.BitVecVal(n, W)
    k = e.get_id()
    if k in memo:
        return memo[k]
    if z3.is_bv_value(e):
        r = exact(e.as_long(), w, memo)
    elif z3.is_app_of(e, z3.Z3_OP_ITE):
        r = z3.If(e.arg(0), exact(e.arg(1), w, memo), exact(e.arg(2), w, memo))
    elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('fp!'):
        p = e.decl().name()[3:].split(':')
        a = [e.arg(i) for i in range(e.num_args())]
        if p[0] == 'add':
            r = exact(a[0], w, memo) + exact(a[1], w, memo)
        elif p[0] == 'mul':
            r = exact(a[0], w, memo) * exact(a[1], w, memo)
        elif p[0] == 'fma':
            r = exact(a[0], w, memo) * exact(a[1], w, memo) + exact(a[2], w, memo)
        elif p[0] == 'cvt':
            r = exact(a[0], int(p[1]), memo)
        elif p[0] == 'sitofp':
            r = z3.SignExt(W - a[0].size(), a[0]) if a[0].size() < W else a[0]
        elif p[0] == 'uitofp':
            r = z3.ZeroExt(W - a[0].size(), a[0]) if a[0].size() < W else a[0]
        else:
            raise NotExact(e.decl().name())
    else:
        n = S.fneg(w, e)
        if not S.isc(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED and n.decl().name().startswith('fp!'):
            r = -exact(n, w, memo)
        else:
            raise NotExact(str(e.decl()))
    memo[k] = r
    return r
