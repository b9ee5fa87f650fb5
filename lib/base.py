"""Wrappers and case builders for the C base API (nsimd_<op>_<ext>_<type>)."""
from . import stage as stg
from . import sym as S
from .harness import Buf, Case, Int, Out
from .driver import Group

ITYPES = ['i8', 'i16', 'i32', 'i64']
UTYPES = ['u8', 'u16', 'u32', 'u64']
FTYPES = ['f16', 'f32', 'f64']
TYPES = ITYPES + UTYPES + FTYPES
IU = ITYPES + UTYPES

# op -> (return, params): v vector, l logicals, s scalar, p int, * / c* pointer, vi signed-int vector, vx2..4
SIG = {}
for ln in '''
p len
v set1 s
l set1l p
v loadu c*
v masko_loadu1 l c* v
v maskz_loadu1 l c*
vx2 load2u c*
vx3 load3u c*
vx4 load4u c*
v loada c*
v masko_loada1 l c* v
v maskz_loada1 l c*
vx2 load2a c*
vx3 load3a c*
vx4 load4a c*
l loadlu c*
l loadla c*
_ storeu * v
_ mask_storeu1 l * v
_ store2u * v v
_ store3u * v v v
_ store4u * v v v v
_ storea * v
_ mask_storea1 l * v
_ store2a * v v
_ store3a * v v v
_ store4a * v v v v
v gather c* vi
v gather_linear c* p
_ scatter * vi v
_ scatter_linear * p v
_ storelu * l
_ storela * l
v orb v v
v andb v v
v andnotb v v
v notb v
v xorb v v
l orl l l
l andl l l
l andnotl l l
l xorl l l
l notl l
v add v v
v sub v v
s addv v
v mul v v
v div v v
v neg v
v min v v
v max v v
v shr v p
v shl v p
v shra v p
l eq v v
l ne v v
l gt v v
l ge v v
l lt v v
l le v v
v if_else1 l v v
v abs v
v fma v v v
v fnma v v v
v fms v v v
v fnms v v v
v ceil v
v floor v
v trunc v
v round_to_even v
p all l
p any l
p nbtrue l
v reinterpret v
l reinterpretl l
v cvt v
vx2 upcvt v
v downcvt v v
v rec v
v rec11 v
v rec8 v
v sqrt v
v rsqrt11 v
v rsqrt8 v
v ziplo v v
v ziphi v v
v unziplo v v
v unziphi v v
vx2 zip v v
vx2 unzip v v
v to_mask l
l to_logical v
v iota
l mask_for_loop_tail p p
v adds v v
v subs v v
'''.strip().splitlines():
    w = ln.split()
    SIG[w[1]] = (w[0], w[2:])

UP = {'i8': ['i16', 'u16', 'f16'], 'i16': ['i32', 'u32', 'f32'], 'i32': ['i64', 'u64', 'f64']}
UPT = {}
DOWNT = {}
SAME = {}
for t in TYPES:
    b = int(t[1:])
    SAME[t] = [x for x in TYPES if int(x[1:]) == b]
    if b < 64:
        UPT[t] = [x for x in TYPES if int(x[1:]) == 2 * b]
    if b > 8:
        DOWNT[t] = [x for x in TYPES if int(x[1:]) == b // 2]
NONCLOSED = {'cvt', 'reinterpret', 'reinterpretl', 'upcvt', 'downcvt'}


def wid(t):
    return int(t[1:])


def isf(t):
    return t[0] == 'f'


def sgnd(t):
    return t[0] == 'i'


def nl(ext, t):
    return stg.VBITS[ext] // wid(t)


def lk(t):
    return 'lf' if isf(t) else 'l'


def one(t):
    return {'f16': 0x3c00, 'f32': 0x3f800000, 'f64': 0x3ff0000000000000}.get(t, 1)


def out_types(op, t):
    if op in ('cvt', 'reinterpret', 'reinterpretl'):
        return SAME[t]
    if op == 'upcvt':
        return UPT.get(t, [])
    if op == 'downcvt':
        return DOWNT.get(t, [])
    return [t]


PREFIX = '#include <nsimd/nsimd-all.h>\n'


def fname(ext, op, t, tt=None):
    return 'nsimd_%s_%s_%s' % (op, ext, '%s_%s' % (tt, t) if op in NONCLOSED else t)


def wrapper(ext, op, t, tt=None, ptr_off=0, pconst=None):
    """C source of one wrapper + its symbol.  Arguments in order: o (if any), a0, a1, ..."""
    tt = tt or t
    ret, params = SIG[op]
    fn = fname(ext, op, t, tt)
    decl, call = [], []
    if ret == 'p':
        decl.append('int *o')
    elif ret != '_':
        decl.append('%s *o' % tt)
    for i, p in enumerate(params):
        if p == 'v':
            decl.append('const %s *a%d' % (t, i))
            call.append('nsimd_loadu_%s_%s(a%d)' % (ext, t, i))
        elif p == 'vi':
            it = 'i' + t[1:]
            decl.append('const %s *a%d' % (it, i))
            call.append('nsimd_loadu_%s_%s(a%d)' % (ext, it, i))
        elif p == 'l':
            decl.append('const %s *a%d' % (t, i))
            call.append('nsimd_loadlu_%s_%s(a%d)' % (ext, t, i))
        elif p == 's':
            decl.append('const %s *a%d' % (t, i))
            call.append('*a%d' % i)
        elif p == 'p':
            if pconst is not None:
                call.append(str(pconst))
                continue
            decl.append('int a%d' % i)
            call.append('a%d' % i)
        elif p == '*':
            decl.append('%s *a%d' % (t, i))
            call.append('a%d + %d' % (i, ptr_off) if ptr_off else 'a%d' % i)
        elif p == 'c*':
            decl.append('const %s *a%d' % (t, i))
            call.append('a%d + %d' % (i, ptr_off) if ptr_off else 'a%d' % i)
    c = '%s(%s)' % (fn, ', '.join(call))
    if ret == 'v':
        body = 'nsimd_storeu_%s_%s(o, %s);' % (ext, tt, c)
    elif ret == 'l':
        body = 'nsimd_storelu_%s_%s(o, %s);' % (ext, tt, c)
    elif ret == '_':
        body = c + ';'
    elif ret in ('p', 's'):
        body = '*o = %s;' % c
    else:
        k = int(ret[2])
        body = 'nsimd_%s_v%sx%d r = %s; ' % (ext, tt, k, c)
        for j in range(k):
            body += 'nsimd_storeu_%s_%s(o + %d * nsimd_len_%s_%s(), r.v%d);' % (ext, tt, j, ext, tt, j)
    sym = 'W_' + fn + ('_k%d' % pconst if pconst is not None else '') + ('_o%d' % ptr_off if ptr_off else '')
    return 'void %s(%s) { %s }\n' % (sym, ', '.join(decl), body), sym


def std_args(ext, op, t, tt=None):
    """default argument list for an op without pointer parameters"""
    tt = tt or t
    ret, params = SIG[op]
    args = []
    n = nl(ext, t)
    w = wid(t)
    if ret == 'p':
        args.append(Out('o', 32, 1))
    elif ret == 's':
        args.append(Out('o', wid(tt), 1, tt[0]))
    elif ret in ('v', 'l'):
        args.append(Out('o', wid(tt), nl(ext, tt), tt[0]))
    elif ret != '_':
        args.append(Out('o', wid(tt), nl(ext, tt) * int(ret[2]), tt[0]))
    for i, p in enumerate(params):
        if p == 'v':
            args.append(Buf('a%d' % i, w, n, kind=t[0]))
        elif p == 'vi':
            args.append(Buf('a%d' % i, w, n, kind='i'))
        elif p == 'l':
            args.append(Buf('a%d' % i, w, n, kind=lk(t)))
        elif p == 's':
            args.append(Buf('a%d' % i, w, 1, kind=t[0]))
        elif p == 'p':
            args.append(Int('a%d' % i, 32, kind='i'))
        else:
            raise ValueError(p)
    return args


class Builder:
    """collects wrapper sources per extension and cases"""

    def __init__(self, exts, extra=None, suffix=''):
        self.src = {e: [] for e in exts}
        self.seen = {e: set() for e in exts}
        self.cases = []
        self.exts = exts
        self.extra = extra or {}

    def add(self, ext, op, t, tt=None, post=None, pre=None, args=None, tag='', known=None, ptr_off=0, pconst=None, **kw):
        src, sym = wrapper(ext, op, t, tt, ptr_off, pconst)
        if sym not in self.seen[ext]:
            self.seen[ext].add(sym)
            self.src[ext].append(src)
        if args is None:
            args = std_args(ext, op, t, tt)
            if pconst is not None:
                args = [a for a in args if not isinstance(a, Int)]
        cid = '%s/%s/%s%s%s' % (ext, op, (tt + '_' + t) if op in NONCLOSED else t,
                                '/k%d' % pconst if pconst is not None else '', '/' + tag if tag else '')
        self.cases.append(Case(cid, sym, args, post, pre, mod=ext, known=known, fn=fname(ext, op, t, tt), **kw))
        return self.cases[-1]

    def custom(self, ext, sym, src, args, post, pre=None, fn=None, cid=None, **kw):
        if sym not in self.seen[ext]:
            self.seen[ext].add(sym)
            self.src[ext].append(src)
        self.cases.append(Case('%s/%s' % (ext, cid or sym), sym, args, post, pre, mod=ext, fn=fn or sym, **kw))
        return self.cases[-1]

    def groups(self):
        return [Group(e, e.split('+')[0], PREFIX + ''.join(self.src[e])) for e in self.exts if self.src[e]]


# ---------------------------------------------------------------- lane helpers
def veq(t, a, b):
    """equality of a result of type t (floats: modulo NaN payload)"""
    if isf(t):
        return S.feq_modnan(wid(t), a, b)
    return S.eq(wid(t), a, b)


def feq_num(t, a, b):
    """floats: numerically equal (zero sign ignored) or both NaN; ints: equal"""
    w = wid(t)
    if not isf(t):
        return S.eq(w, a, b)
    return S.b_any([S.eq(w, a, b), S.b_and(S.f_iszero(w, a), S.f_iszero(w, b)),
                    S.b_and(S.f_isnan(w, a), S.f_isnan(w, b))])


def istrue(t, x):
    """logical element x (0 / one) is true"""
    return S.b_not(S.eq(wid(t), x, 0))


def lres(t, r, cond):
    """stored logical r equals cond: exactly 1 or 0"""
    w = wid(t)
    return S.eq(w, r, S.ite(w, cond, one(t), 0))


def notnan(t, xs):
    return [S.b_not(S.f_isnan(wid(t), x)) for x in xs]


def up32(x):
    return S.fcvt(16, x, 32)


def dn16(x):
    return S.fcvt(32, x, 16)


def f_un(t, f):
    """unary float op spec: f(w, x); f16 computed in f32 and rounded"""
    if t == 'f16':
        return lambda x: dn16(f(32, up32(x)))
    w = wid(t)
    return lambda x: f(w, x)


def f_bin(t, f):
    if t == 'f16':
        return lambda x, y: dn16(f(32, up32(x), up32(y)))
    w = wid(t)
    return lambda x, y: f(w, x, y)


def f_tern(t, f):
    if t == 'f16':
        return lambda x, y, z: dn16(f(32, up32(x), up32(y), up32(z)))
    w = wid(t)
    return lambda x, y, z: f(w, x, y, z)


def lanes(n, f):
    return [('lane %d' % i, f(i)) for i in range(n)]
