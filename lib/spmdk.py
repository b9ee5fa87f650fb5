"""A small abstract syntax for SPMD kernels: emits the NSIMD SPMD source text, and gives every program its meaning as the
C++ program a single element would run (path by path, no masks)."""
from . import base as B
from . import sym as S

CMP = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}


FUN = False        # spell comparisons as k_lt(a, b), ... (half precision scalars have no infix operators)


class Unbounded(Exception):
    pass


# ---- program text
def expr(e):
    k = e[0]
    if k in CMP and FUN:
        return 'k_%s(%s, %s)' % (CMP[k], expr(e[1]), expr(e[2]))
    if k == 'ld':
        return 'k_load(%s)' % e[1]
    if k == 'uld':
        return 'k_unmasked_load(%s)' % e[1]
    if k == 'v':
        return e[1]
    if k == 'c':
        return '(T)%d' % e[1]
    if k == 'shr':
        return 'k_shr(%s, %d)' % (expr(e[1]), e[2])
    if k in CMP or k in '+-*&|^':
        return '(%s %s %s)' % (expr(e[1]), k, expr(e[2]))
    if k in ('&&', '||'):
        return '(%s %s %s)' % (expr(e[1]), k, expr(e[2]))
    if k == '!':
        return '(!%s)' % expr(e[1])
    if k == 'T':
        return 'true'
    if k == 'call':
        return 'spmd_call_dev_func(%s, %s)' % (e[1], ', '.join(expr(x) for x in e[3]))
    raise KeyError(k)


def text(prog, ind='  '):
    out = []
    for s in prog:
        k = s[0]
        if k == 'var':
            out.append('%s%s %s; k_set(%s, %s);' % (ind, s[1], s[2], s[2], expr(s[3])))
        elif k == 'init':
            out.append('%s%s %s = %s;' % (ind, s[1], s[2], expr(s[3])))
        elif k in ('set', 'setb'):
            out.append('%sk_set(%s, %s);' % (ind, s[1], expr(s[2])))
        elif k == 'uset':
            out.append('%sk_unmasked_set(%s, %s);' % (ind, s[1], expr(s[2])))
        elif k == 'st':
            out.append('%sk_store(%s, %s);' % (ind, s[1], expr(s[2])))
        elif k == 'ust':
            out.append('%sk_unmasked_store(%s, %s);' % (ind, s[1], expr(s[2])))
        elif k in ('break', 'continue', 'return'):
            out.append('%sk_%s' % (ind, k))
        elif k == 'while':
            out.append('%sk_while(%s)' % (ind, expr(s[1])))
            out += text(s[2], ind + '  ')
            out.append(ind + 'k_endwhile')
        elif k == 'if':
            for i, (c, b) in enumerate(s[1]):
                out.append('%sk_%s(%s)' % (ind, 'elseif' if i else 'if', expr(c)))
                out += text(b, ind + '  ')
            if s[2] is not None:
                out.append(ind + 'k_else')
                out += text(s[2], ind + '  ')
            out.append(ind + 'k_endif')
        elif k == 'ret':
            out.append('%sreturn %s;' % (ind, expr(s[1])))
        else:
            raise KeyError(k)
    return out


# ---- meaning for one element: list of (path condition, store, signal)
class Sem:
    def __init__(self, t, pt, feasible=None, maxit=8):
        self.t, self.w = t, B.wid(t)
        self.pt = pt                       # array name -> element type
        self.maxit = maxit
        self.feasible = feasible or (lambda c: True)

    def ev(self, e, st):
        k, w = e[0], self.w
        if k in ('ld', 'uld'):
            return st['*' + e[1]]
        if k == 'v':
            return st[e[1]]
        if k == 'c':
            return self.cst(e[1])
        if k == 'shr':
            return S.lshr(w, self.ev(e[1], st), e[2])
        if k in CMP:
            return self.cmp(CMP[k], self.ev(e[1], st), self.ev(e[2], st))
        if k in '+-*&|^' and len(k) == 1:
            f = {'+': S.add, '-': S.sub, '*': S.mul, '&': S.and_, '|': S.or_, '^': S.xor}[k]
            return f(w, self.ev(e[1], st), self.ev(e[2], st))
        if k == '&&':
            return S.b_and(self.ev(e[1], st), self.ev(e[2], st))
        if k == '||':
            return S.b_or(self.ev(e[1], st), self.ev(e[2], st))
        if k == '!':
            return S.b_not(self.ev(e[1], st))
        if k == 'T':
            return 1
        if k == 'call':
            st2 = {n: self.ev(x, st) for n, x in zip(e[2][0], e[3])}
            st2.update({n: x for n, x in st.items() if n[0] == '*'})
            body, r = e[2][1][:-1], e[2][1][-1]
            outs = self.block(body, st2)       # 'return ret' runs for every path
            x = self.ev(r[1], outs[-1][1])
            for c, s2, _ in outs[:-1]:
                x = S.ite(w, c, self.ev(r[1], s2), x)
            return x
        raise KeyError(k)

    def cst(self, v):
        assert not B.isf(self.t)
        return v & S.mask(self.w)

    def cmp(self, op, a, b):
        w = self.w
        if B.isf(self.t):
            return {'lt': lambda: S.f_lt(w, a, b), 'gt': lambda: S.f_lt(w, b, a), 'le': lambda: S.f_le(w, a, b),
                    'ge': lambda: S.f_le(w, b, a), 'eq': lambda: S.f_eq(w, a, b),
                    'ne': lambda: S.b_not(S.f_eq(w, a, b))}[op]()
        lt, le = (S.slt, S.sle) if self.t[0] == 'i' else (S.ult, S.ule)
        return {'lt': lambda: lt(w, a, b), 'gt': lambda: lt(w, b, a), 'le': lambda: le(w, a, b), 'ge': lambda: le(w, b, a),
                'eq': lambda: S.eq(w, a, b), 'ne': lambda: S.b_not(S.eq(w, a, b))}[op]()

    def block(self, prog, st, pc=1):
        live = [(pc, st)]
        done = []
        for s in prog:
            nxt = []
            for pc, st in live:
                for c, st2, sig in self.stmt(s, st, pc):
                    (nxt if sig is None else done).append((c, st2) if sig is None else (c, st2, sig))
            live = nxt
        return done + [(c, st, None) for c, st in live]

    def split(self, pc, c):
        a, b = S.b_and(pc, c), S.b_and(pc, S.b_not(c))
        return (a, b)

    def ok(self, c):
        return not (S.isc(c) and not c) and (S.isc(c) or self.feasible(c))

    def stmt(self, s, st, pc):
        k = s[0]
        if k in ('var', 'init', 'set', 'setb', 'uset', 'st', 'ust'):
            name = s[2] if k in ('var', 'init') else s[1]
            e = s[3] if k in ('var', 'init') else s[2]
            st = dict(st)
            st['*' + name if k in ('st', 'ust') else name] = self.ev(e, st)
            return [(pc, st, None)]
        if k in ('break', 'continue', 'return'):
            return [(pc, st, k)]
        if k == 'ret':
            st = dict(st)
            st['<ret>'] = self.ev(s[1], st)
            return [(pc, st, None)]
        if k == 'if':
            res = []
            for c, b in s[1]:
                t, pc = self.split(pc, self.ev(c, st))
                if self.ok(t):
                    res += self.block(b, st, t)
            if self.ok(pc):
                res += self.block(s[2] or [], st, pc)
            return res
        if k == 'while':
            res, cur = [], [(pc, st)]
            for it in range(self.maxit + 1):
                nxt = []
                for pc, st in cur:
                    t, f = self.split(pc, self.ev(s[1], st))
                    if self.ok(f):
                        res.append((f, st, None))
                    if not self.ok(t):
                        continue
                    for c, st2, sig in self.block(s[2], st, t):
                        if sig in (None, 'continue'):
                            nxt.append((c, st2))
                        elif sig == 'break':
                            res.append((c, st2, None))
                        else:
                            res.append((c, st2, sig))
                cur = nxt
                if not cur:
                    return res
            raise Unbounded
        raise KeyError(k)

    def final(self, prog, st, names):
        """value of each name after the program ran"""
        outs = self.block(prog, st)
        res = {}
        for nm in names:
            w = self.w
            v = outs[-1][1][nm]
            for c, s2, _ in outs[:-1]:
                v = S.ite(w, c, s2[nm], v)
            res[nm] = v
        return res
