"""Element-wise operators of the base API as cases."""
from . import base as B, specs, stage as stg, sym as S
from .harness import Buf, Int


def elem_args(env, op, t, i):
    r = []
    for j, p in enumerate(B.SIG[op][1]):
        v = env['a%d' % j]
        if p == 'v':
            r.append(v[i])
        elif p == 'l':
            r.append(B.istrue(t, v[i]))
        else:
            r.append(v)
    return r


def res_elem(ret, tt, x):
    return S.b_not(S.eq(B.wid(tt), x, 0)) if ret == 'l' else x


def add_ew(b, ext, op, t, tt=None, known=None):
    """element-wise op: output element i depends on input elements i only"""
    tt = tt or t
    n = B.nl(ext, t)
    ret = B.SIG[op][0]

    def post(env):
        out = []
        for i in range(n):
            a = elem_args(env, op, t, i)
            r = env.o['o'][i]
            g = specs.good(op, t, tt, res_elem(ret, tt, r), a)
            if ret == 'l':
                g = S.b_and(g, S.b_or(S.eq(B.wid(tt), r, 0), S.eq(B.wid(tt), r, B.one(tt))))
            out.append(('lane %d' % i, g))
        return out

    def pre(env):
        out = []
        for i in range(n):
            out += [p for p in specs.pre(op, t, tt, elem_args(env, op, t, i)) if not (S.isc(p) and p)]
        return out
    return b.add(ext, op, t, tt, post=post, pre=pre, known=known)
