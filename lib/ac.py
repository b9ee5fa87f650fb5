"""AC normal form for bit-vector terms: nested sums/xors/ands/ors/products are flattened, sorted by identity and rebuilt.

Two terms that differ only by commutativity and associativity come out as the same hash-consed term, so that long
add-rotate-xor chains are decided by the solver without bit-blasting.
"""
import z3

from . import sym as S

_AC = {z3.Z3_OP_BADD: '+', z3.Z3_OP_BXOR: '^', z3.Z3_OP_BAND: '&', z3.Z3_OP_BOR: '|', z3.Z3_OP_BMUL: '*'}
_UNIT = {'+': 0, '^': 0, '|': 0}


def ints(t, memo):
    """normal() plus rewrites that help an integer translation: narrow sums and products in the high part of a word
    become shifted wide ones, disjunctions of 0/1 words become conditionals on a disjunction"""
    memo['ints'] = True
    return normal(t, memo)


def _widen(t, w):
    """a w-bit term equal to t modulo 2**t.size()"""
    k = t.decl().kind()
    if z3.is_bv_value(t):
        return z3.BitVecVal(t.as_long(), w)
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
        r = None
        for c in t.children():
            c = _widen(c, w)
            r = c if r is None else r + c if k == z3.Z3_OP_BADD else r * c
        return r
    return z3.Concat(z3.BitVecVal(0, w - t.size()), t)


def _shl_form(x, ch):
    """concat(sum, 0) as a sum of shifted wide terms"""
    n = ch[-1].size()
    w = x.size()
    t = ch[0]
    if t.decl().kind() == z3.Z3_OP_BADD:
        r = None
        for c in t.children():
            c = _widen(c, w) << n
            r = c if r is None else r + c
        return r
    return _widen(t, w) << n


def _half(a):
    return not (z3.is_app_of(a, z3.Z3_OP_CONCAT) and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0 and a.arg(0).size() >= 32)


def _ite01(a):
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        c, x, y = a.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y) and y.as_long() == 0 and x.as_long() == 1:
            return c
    return None


def normal(t, memo):
    """AC normal form of t (memo: id -> (term kept alive, result))"""
    st = [t]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in memo:
            st.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in memo]
        if todo:
            st += todo
            continue
        st.pop()
        memo[i] = (x, _rebuild(x, [memo[c.get_id()][1] for c in ch], memo))
    return memo[t.get_id()][1]


def _rebuild(x, ch, memo):
    if not ch:
        return x
    kd = x.decl().kind()
    op = _AC.get(kd)
    if memo.get('ints'):
        if kd == z3.Z3_OP_CONCAT and len(ch) == 2 and z3.is_bv_value(ch[1]) and ch[1].as_long() == 0 and ch[0].size() == ch[1].size():
            return _shl_form(x, ch)
        if kd == z3.Z3_OP_BMUL and x.size() == 64 and len(ch) == 2 and z3.is_bv_value(ch[1]) and ch[1].as_long() >> 32 and _half(ch[0]):
            # schoolbook product of the halves
            k, z = ch[1].as_long(), z3.BitVecVal(0, 32)
            lo, hi = z3.Concat(z, z3.Extract(31, 0, ch[0])), z3.Concat(z, z3.Extract(63, 32, ch[0]))
            kl, kh = z3.BitVecVal(k & 0xffffffff, 64), z3.BitVecVal(k >> 32, 64)
            return _acbuild('+', 64, [lo * kl, (lo * kh) << 32, (hi * kl) << 32], x)
        if kd == z3.Z3_OP_BOR:
            cs = [_ite01(c) for c in ch]
            if all(c is not None for c in cs):
                w = x.size()
                return z3.If(z3.Or(*cs), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if kd == z3.Z3_OP_EQ and ch[0].eq(ch[1]):
        return z3.BoolVal(True, x.ctx)
    if kd == z3.Z3_OP_NOT and z3.is_true(ch[0]):
        return z3.BoolVal(False, x.ctx)
    if kd in _SCMP:
        # x ^ MSB <s y ^ MSB  is  x <u y
        a, b = _unflip(ch[0]), _unflip(ch[1])
        if a is not None and b is not None:
            return _SCMP[kd](a, b)
    if op is None:
        if kd == z3.Z3_OP_EXTRACT:
            if z3.is_app_of(ch[0], z3.Z3_OP_CONCAT) and not memo.get('push'):
                return _ext_concat(x, ch[0])
            if memo.get('push'):
                return _extract(x.params()[0], x.params()[1], ch[0], memo)
        if kd == z3.Z3_OP_CONCAT and memo.get('push'):
            return _concat(ch)
        if kd == z3.Z3_OP_ZERO_EXT:
            return z3.Concat(z3.BitVecVal(0, x.size() - ch[0].size()), ch[0])
        return x.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, x.children())) else x
    return _acbuild(op, x.size(), ch, x, memo)


def _concat(ps):
    """concat, flattened, neighbouring constants merged"""
    out = []
    for p in ps:
        for q in (p.children() if z3.is_app_of(p, z3.Z3_OP_CONCAT) else [p]):
            if out and z3.is_bv_value(q) and z3.is_bv_value(out[-1]):
                a = out[-1]
                out[-1] = z3.BitVecVal(a.as_long() << q.size() | q.as_long(), a.size() + q.size())
            elif (out and z3.is_app_of(q, z3.Z3_OP_EXTRACT) and z3.is_app_of(out[-1], z3.Z3_OP_EXTRACT) and q.arg(0).eq(out[-1].arg(0))
                  and out[-1].params()[1] == q.params()[0] + 1):
                h, l = out[-1].params()[0], q.params()[1]
                out[-1] = q.arg(0) if l == 0 and h == q.arg(0).size() - 1 else z3.Extract(h, l, q.arg(0))
            else:
                out.append(q)
    return out[0] if len(out) == 1 else z3.Concat(*out)


def _tz(t):
    """number of syntactically zero low bits"""
    if z3.is_bv_value(t):
        v = t.as_long()
        return t.size() if v == 0 else (v & -v).bit_length() - 1
    if z3.is_app_of(t, z3.Z3_OP_CONCAT):
        n = 0
        for p in reversed(t.children()):
            z = _tz(p)
            n += z
            if z < p.size():
                break
        return n
    return 0


def _acbuild(op, w, ch, x, memo=None):
    if memo is not None and memo.get('push'):
        if op == '+':
            W = memo['push']
            ch = [d for c in ch for d in (c.children() if z3.is_app_of(c, z3.Z3_OP_BADD) else [c])]
            z = sorted(_tz(c) for c in ch)
            l = min(z[1], w) if len(z) > 1 else 0
            l = max(w - (w - l + W - 1) // W * W, 0)      # the upper part keeps whole words
            if 0 < l < w:
                # at most one summand is non-zero in the low l bits: no carry leaves them
                low = next((c for c in ch if _tz(c) < l), ch[0])
                hi = _acbuild('+', w - l, [_extract(w - 1, l, c, memo) for c in ch], x, memo)
                return _concat([hi, _extract(l - 1, 0, low, memo)])
        elif op == '*':
            l = sum(_tz(c) for c in ch)
            if l >= w:
                return z3.BitVecVal(0, w)
            if l % memo['push'] == 0 and l and all(_tz(c) % memo['push'] == 0 for c in ch):
                y = []
                for c in ch:
                    k = _tz(c)
                    c = _extract(w - 1, k, c, memo) if k else c
                    n = c.size()
                    y.append(_extract(w - l - 1, 0, c, memo) if n > w - l else c if n == w - l
                             else _concat([z3.BitVecVal(0, w - l - n), c]))
                return _concat([_acbuild('*', w - l, y, x, memo), z3.BitVecVal(0, l)])
    args = []
    for c in ch:
        if z3.is_app(c) and _AC.get(c.decl().kind()) == op:
            args += c.children()
        else:
            args.append(c)
    m = (1 << w) - 1
    k = None
    rest = []
    for a in args:
        if z3.is_bv_value(a):
            v = a.as_long()
            k = v if k is None else (k + v if op == '+' else k ^ v if op == '^' else k & v if op == '&' else k | v if op == '|' else k * v) & m
        else:
            rest.append(a)
    if op == '^':
        cnt = {}
        for a in rest:
            cnt[a.get_id()] = cnt.get(a.get_id(), 0) ^ 1
        seen = set()
        rest = [a for a in rest if cnt[a.get_id()] and not (a.get_id() in seen or seen.add(a.get_id()))]
    elif op in '&|':
        seen = set()
        rest = [a for a in rest if not (a.get_id() in seen or seen.add(a.get_id()))]
    rest.sort(key=lambda a: (S.shash(a), a.get_id()))
    if k is not None and not (op in _UNIT and k == 0) and not (op == '*' and k == 1) and not (op == '&' and k == m):
        rest.append(z3.BitVecVal(k, w))
    if not rest:
        return z3.BitVecVal({'+': 0, '^': 0, '|': 0, '*': 1, '&': m}[op], w)
    if len(rest) == 1:
        return rest[0]
    # n-ary application through the declaration of the binary one
    a, b = rest[:2]
    d = (a + b if op == '+' else a ^ b if op == '^' else a & b if op == '&' else a | b if op == '|' else a * b).decl()
    if len(rest) == 2:
        return d(a, b)
    arr = (z3.Ast * len(rest))(*[a.as_ast() for a in rest])
    return z3.BitVecRef(z3.Z3_mk_app(x.ctx.ref(), d.ast, len(rest), arr), x.ctx)


_SCMP = {z3.Z3_OP_SLT: z3.ULT, z3.Z3_OP_SLEQ: z3.ULE, z3.Z3_OP_SGT: z3.UGT, z3.Z3_OP_SGEQ: z3.UGE}


def _unflip(a):
    w = a.size()
    if z3.is_bv_value(a):
        return z3.BitVecVal(a.as_long() ^ (1 << (w - 1)), w)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_BXOR:
        ch = a.children()
        if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 1 << (w - 1):
            r = ch[0]
            for c in ch[1:-1]:
                r = r ^ c
            return r
    return None


_PUSH = {z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR}


def push(t, memo, word=32):
    """normal() with word-aligned extracts pushed towards the leaves (sums and products keep their low part only)"""
    memo['push'] = word
    return normal(t, memo)


def _extract(h, l, t, memo):
    """normal form of Extract(h, l, t) for a t in normal form"""
    if l == 0 and h == t.size() - 1:
        return t
    k = t.decl().kind()
    if k not in _PUSH and k not in (z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_BNUM):
        return z3.Extract(h, l, t)
    W = memo['push']
    if k in _PUSH and (l % W or (h + 1) % W or t.size() <= W):
        # inside a machine word: leave rotations as they are
        a, b = l // W * W, min(t.size(), h // W * W + W) - 1
        if (a, b) == (0, t.size() - 1) or t.size() % W:
            return z3.Extract(h, l, t)
        return _extract(h - a, l - a, _extract(b, a, t, memo), memo)
    key = ('x', h, l, t.get_id())
    if key in memo:
        return memo[key][1]
    if k == z3.Z3_OP_BNUM:
        r = z3.BitVecVal(t.as_long() >> l, h - l + 1)
    elif k == z3.Z3_OP_EXTRACT:
        lo = t.params()[1]
        r = _extract(h + lo, l + lo, t.arg(0), memo)
    elif k == z3.Z3_OP_ZERO_EXT:
        n = t.arg(0).size()
        r = (z3.BitVecVal(0, h - l + 1) if l >= n else _extract(h, l, t.arg(0), memo) if h < n
             else z3.Concat(z3.BitVecVal(0, h - n + 1), _extract(n - 1, l, t.arg(0), memo)))
    elif k == z3.Z3_OP_CONCAT:
        off = t.size()
        out = []
        for p in t.children():
            off -= p.size()
            a, b = off, off + p.size() - 1
            if b < l or a > h:
                continue
            out.append(_extract(min(h, b) - a, max(l, a) - a, p, memo))
        r = _concat(out)
    elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
        y = t if h == t.size() - 1 else _acbuild(_AC[k], h + 1, [_extract(h, 0, c, memo) for c in t.children()], t, memo)
        if l == 0:
            r = y
        elif y.decl().kind() != k:
            r = _extract(h, l, y, memo)
        else:
            r = z3.Extract(h, l, y)
    else:
        r = _acbuild(_AC[k], h - l + 1, [_extract(h, l, c, memo) for c in t.children()], t, memo)
    memo[key] = (t, r)
    return r


def _ext_concat(x, c):
    """extract over concat, when it selects whole parts or lies within one"""
    hi, lo = x.params()
    off = c.size()
    out = []
    for p in c.children():
        off -= p.size()
        a, b = off, off + p.size() - 1
        if b < lo or a > hi:
            continue
        l, h = max(lo, a) - a, min(hi, b) - a
        out.append(p if (l, h) == (0, p.size() - 1) else z3.Extract(h, l, p))
    return out[0] if len(out) == 1 else z3.Concat(*out)
