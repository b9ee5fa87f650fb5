"""C19: TET1D expression templates assign, element by element, what the expression says (packed part and scalar tail)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, specs, stage as stg, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Int, Out

INFIX = {'orb': '|', 'xorb': '^', 'andb': '&', 'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
CMPX = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
LOGX = {'orl': '||', 'andl': '&&'}
UNX = {'notb': '~', 'neg': '-'}
SIG = {'notb': 'v', 'neg': 'v', 'abs': 'v', 'ceil': 'v', 'floor': 'v', 'trunc': 'v', 'round_to_even': 'v', 'rec': 'v', 'sqrt': 'v',
       'rec11': 'v', 'rec8': 'v', 'rsqrt11': 'v', 'rsqrt8': 'v',
       'shl': 'vp', 'shr': 'vp', 'shra': 'vp', 'fma': 'vvv', 'fms': 'vvv', 'fnma': 'vvv', 'fnms': 'vvv'}


class M:
    def __init__(self, groups, cases, ext, N, t):
        self.groups, self.cases, self.ext, self.N, self.t, self.w = groups, cases, ext, N, t, B.wid(t)
        self.key = '%s+n%d+%s' % (ext, N, t)
        self.full = B.nl(ext, t) * N
        self.src = ['#include <nsimd/nsimd-all.hpp>\n#include <nsimd/modules/tet1d.hpp>\ntypedef %s T; typedef nsimd::pack<T, %d> P;\n'
                    'extern "C" {\n' % (t, N)]
        self.k = 0

    def done(self):
        self.groups.append(Group(self.key, self.ext, ''.join(self.src) + '}\n', cxx=True, extra=['-UNDEBUG']))

    def stmt(self, name, code, ref, sizes=None, ins='abd', wr=None, tt=None, scal=(), pre=None, nout=None, nin=None, fn=None):
        """name, C++ statement over o (output node constructor OUT), va vb vd (input nodes), scalar parameters;
        ref(e, i, r) -> condition on element i of the output; wr(e, i): condition under which it is written"""
        tt = tt or self.t
        w, w2 = self.w, B.wid(tt)
        self.k += 1
        sym = 'w_%s' % name
        L = self.full
        par = ['%s *o' % tt] + ['const T *%s' % x for x in ins] + [p for p, _ in scal] + ['int n']
        nodes = ' '.join('TET1D_IN(T) v%s = tet1d::in(%s, n);' % (x, x) for x in ins)
        # a pack type of the output's base type selects extension and unroll
        out = 'typedef nsimd::pack<%s, %d> Q; tet1d::node<tet1d::out_t, tet1d::none_t, tet1d::none_t, Q> O = ' \
              'tet1d::out<%s, Q>(o, 0, NULL);' % (tt, self.N, tt)
        self.src.append('void %s(%s) { %s %s %s }\n' % (sym, ', '.join(par), nodes, out, code))
        for n in sizes or (1, L + 1):
            m = nout(n) if nout else n

            def post(e, m=m, n=n):
                gl = []
                for i in range(m):
                    r = e.o['o'][i]
                    g = ref(e, i, r)
                    if wr:
                        c = wr(e, i)
                        g = S.b_or(S.b_and(c, g), S.b_and(S.b_not(c), B.veq(tt, r, e['o'][i]) if tt == 'f16' else S.eq(w2, r, e['o'][i])))
                    gl.append(('element %d' % i, g))
                return gl

            def pr(e, m=m):
                return [p for i in range(m) for p in pre(e, i) if not (S.isc(p) and p)]
            args = [Out('o', w2, m, tt[0], init='sym' if wr else 'fill')] + [Buf(x, w, n, kind=self.t[0]) for x in ins]
            args += [Int(p.split()[-1], wd) for p, wd in scal] + [Int('n', 32, n)]
            self.cases.append(Case('%s/%s/%d' % (self.key, name, n), sym, args, post, pr if pre else None, mod=self.key,
                                   fn=fn or 'tet1d::' + name, max_iter=64))

    # ------------------------------------------------------------- one operator
    def op(self, op, to=None, infix=None):
        t, w = self.t, self.w
        tt = to or t
        sig = SIG.get(op, 'v' if to else 'vv')
        ins = 'abd'[:sig.count('v')]
        scal = [('int p', 32)] if 'p' in sig else []

        def el(e, i):
            return [e[x][i] for x in ins] + [e['p'] for _ in scal]
        a = ', '.join(['v' + x for x in ins] + ['p'] * len(scal))
        if op in specs.CMP:
            # a condition selects the elements to write
            code = 'O(%s) = vd;' % (infix % ('va', 'vb') if infix else 'tet1d::%s(va, vb)' % op)

            def wr(e, i):
                return cond(op, t, e['a'][i], e['b'][i])
            return self.stmt(('x_' if infix else '') + op, code, lambda e, i, r: B.veq(t, r, e['d'][i]), ins='abd', wr=wr)
        call = (infix % tuple('v' + x for x in ins)) if infix else 'tet1d::%s%s(%s)' % (op, '<%s>' % to if to else '', a)
        self.stmt(('x_' if infix else '') + op + ('_' + to if to else ''), 'O = %s;' % call,
                  lambda e, i, r: specs.good(op, t, tt, r, el(e, i)), ins=ins, tt=tt, scal=scal,
                  pre=lambda e, i: specs.pre(op, t, tt, el(e, i)))


def cond(op, t, x, y):
    """the comparison as a condition"""
    return specs.good(op, t, t, 1, [x, y])


def operators(m):
    t = m.t
    fl = B.isf(t)
    ops = specs.INT_EW + ['notb', 'adds', 'subs'] + specs.BIT2 + specs.CMP + (['sqrt', 'rec'] if fl else ['shl', 'shr'] + (['shra'] if t[0] == 'i' else []))
    for op in dict.fromkeys(ops):
        if op == 'round_to_even' and fl:
            continue
        m.op(op)
    for op, x in list(INFIX.items()) + list(CMPX.items()):
        m.op(op, infix='%%s %s %%s' % x)
    for op, x in UNX.items():
        m.op(op, infix=x + '%s')
    for to in B.SAME[t]:
        m.op('cvt', to)
        m.op('reinterpret', to)


def scalars(m):
    """scalars and literals on either side of the infix operators"""
    t, w = m.t, m.w
    one = {'f16': 0x3c00, 'f32': 0x3f800000, 'f64': 0x3ff0000000000000}.get(t, 1)
    three = {'f16': 0x4200, 'f32': 0x40400000, 'f64': 0x4008000000000000}.get(t, 3)
    for op, x in INFIX.items():
        if op in ('orb', 'andb', 'xorb') and B.isf(t):
            continue
        for side in 'rl':
            def el(e, i, side=side):
                return [e['a'][i], e['s']] if side == 'r' else [e['s'], e['a'][i]]
            if t != 'f16':
                m.stmt('s%s_%s' % (side, op), 'O = %s;' % ('va %s s' % x if side == 'r' else 's %s va' % x),
                       lambda e, i, r, op=op, el=el: specs.good(op, t, t, r, el(e, i)), ins='a', scal=[('T s', w)],
                       pre=lambda e, i, op=op, el=el: specs.pre(op, t, t, el(e, i)), fn='tet1d::operator' + x)

            def el3(e, i, side=side):
                return [e['a'][i], three] if side == 'r' else [three, e['a'][i]]
            m.stmt('l%s_%s' % (side, op), 'O = %s;' % ('va %s 3' % x if side == 'r' else '3 %s va' % x),
                   lambda e, i, r, op=op, el=el3: specs.good(op, t, t, r, el(e, i)), ins='a',
                   pre=lambda e, i, op=op, el=el3: specs.pre(op, t, t, el(e, i)), fn='tet1d::operator' + x)
    for op, x in CMPX.items():
        for side in 'rl':
            def wr(e, i, op=op, side=side):
                return cond(op, t, e['a'][i], three) if side == 'r' else cond(op, t, three, e['a'][i])
            m.stmt('l%s_%s' % (side, op), 'O(%s) = vb;' % ('va %s 3' % x if side == 'r' else '3 %s va' % x),
                   lambda e, i, r: B.veq(t, r, e['b'][i]), ins='ab', wr=wr, fn='tet1d::operator' + x)
    if not B.isf(t):
        for op, x in (('shl', '<<'), ('shr', '>>')):
            m.stmt('sh_' + op, 'O = va %s p;' % x, lambda e, i, r, op=op: specs.good(op, t, t, r, [e['a'][i], e['p']]), ins='a',
                   scal=[('int p', 32)], pre=lambda e, i, op=op: specs.pre(op, t, t, [e['a'][i], e['p']]), fn='tet1d::operator' + x)
    # assignments of scalars through a condition
    m.stmt('mask_lit', 'O(va < vb) = 1;', lambda e, i, r: S.eq(w, r, one), ins='ab', wr=lambda e, i: cond('lt', t, e['a'][i], e['b'][i]),
           fn='tet1d::node<mask_out_t>::operator=')


def masks(m):
    t, w = m.t, m.w

    def lt(e, x, y, i):
        return cond('lt', t, e[x][i], e[y][i])

    def cp(e, i, r):
        return B.veq(t, r, e['d'][i])
    L = m.full
    big = (1, L, L + 1, 2 * L + 1)
    m.stmt('mask_and', 'O(va < vb && vb < vd) = vd;', cp, wr=lambda e, i: S.b_and(lt(e, 'a', 'b', i), lt(e, 'b', 'd', i)), sizes=big)
    m.stmt('mask_or', 'O(va < vb || vb < vd) = vd;', cp, wr=lambda e, i: S.b_or(lt(e, 'a', 'b', i), lt(e, 'b', 'd', i)))
    m.stmt('mask_not', 'O(!(va < vb)) = vd;', cp, wr=lambda e, i: S.b_not(lt(e, 'a', 'b', i)))
    m.stmt('mask_xorl', 'O(tet1d::xorl(va < vb, vb < vd)) = vd;', cp, wr=lambda e, i: S.b_xor(lt(e, 'a', 'b', i), lt(e, 'b', 'd', i)))
    m.stmt('mask_andnotl', 'O(tet1d::andnotl(va < vb, vb < vd)) = vd;', cp,
           wr=lambda e, i: S.b_and(lt(e, 'a', 'b', i), S.b_not(lt(e, 'b', 'd', i))))
    m.stmt('mask_to_logical', 'O(tet1d::to_logical(va)) = vd;', cp,
           wr=lambda e, i: S.b_not(S.f_iszero(w, e['a'][i]) if B.isf(t) else S.eq(w, e['a'][i], 0)),
           pre=lambda e, i: [S.b_not(S.eq(w, e['a'][i], 1 << (w - 1)))] if B.isf(t) else [])      # -0.0: either
    m.stmt('mask_expr', 'O(va < vb) = va + vd;', lambda e, i, r: specs.good('add', t, t, r, [e['a'][i], e['d'][i]]),
           wr=lambda e, i: lt(e, 'a', 'b', i), sizes=big)
    if not B.isf(t):
        def all1(e, i, r):
            c = lt(e, 'a', 'b', i)
            return S.b_or(S.b_and(c, S.eq(w, r, S.mask(w))), S.b_and(S.b_not(c), S.eq(w, r, 0)))
        m.stmt('to_mask', 'O = tet1d::to_mask(va < vb);', all1, ins='ab')


def exprs(m):
    t, w = m.t, m.w
    L = m.full
    big = (1, 2, L, L + 1, 2 * L, 2 * L + 1, 3 * L + 1)
    m.stmt('copy', 'O = va;', lambda e, i, r: B.veq(t, r, e['a'][i]), ins='a', sizes=big, fn='tet1d::node<in_t>')
    if not B.isf(t):
        m.stmt('nest', 'O = (va + vb) * vd - (va ^ vb);',
               lambda e, i, r: S.eq(w, r, S.sub(w, S.mul(w, S.add(w, e['a'][i], e['b'][i]), e['d'][i]), S.xor(w, e['a'][i], e['b'][i]))), fn='tet1d nested expression')
        m.stmt('nest_fma', 'O = tet1d::fma(va & vb, vd, tet1d::max(va, vb)) | -vd;',
               lambda e, i, r: S.eq(w, r, S.or_(w, S.add(w, S.mul(w, S.and_(w, e['a'][i], e['b'][i]), e['d'][i]),
                                                        (S.smax if B.sgnd(t) else S.umax)(w, e['a'][i], e['b'][i])), S.neg(w, e['d'][i]))), fn='tet1d nested expression')
        m.stmt('auto_out', 'tet1d::out(o) = va + vb;', lambda e, i, r: S.eq(w, r, S.add(w, e['a'][i], e['b'][i])), ins='ab',
               sizes=(1, B.nl(m.ext, t) + 1, 2 * L + 1), fn='tet1d::out')
        m.stmt('alias', 'tet1d::node<tet1d::in_t, tet1d::none_t, tet1d::none_t, T> vo = tet1d::in(o, n); O = vo + va;',
               lambda e, i, r: S.eq(w, r, S.add(w, e['o'][i], e['a'][i])), ins='a', wr=lambda e, i: 1, fn='tet1d in-place update')
    elif t != 'f16':       # emulated half packs may keep intermediate results in single precision
        m.stmt('nest', 'O = (va + vb) * vd;', lambda e, i, r: B.veq(t, r, B.f_bin(t, S.fmul)(B.f_bin(t, S.fadd)(e['a'][i], e['b'][i]), e['d'][i])),
               fn='tet1d nested expression')
    # slices: bounds are inclusive, negative ones count from the end
    n = 2 * L + 3
    for i0, i1 in ((0, -1), (1, -1), (1, L + 1), (2, -2), (-L - 2, -1), (-3, -2), (L, 2 * L), (1, 2), (2, 2), (-1, -1)):
        a, b = i0 % n, i1 % n
        if a > b:
            continue
        nm = ('slice_%d_%d' % (i0, i1)).replace('-', 'm')
        e1 = 'tet1d::end' if i1 == -1 else 'tet1d::end - %d' % (-1 - i1) if i1 < 0 else str(i1)
        m.stmt(nm, 'O = va(%d, %s);' % (i0, e1), lambda e, i, r, a=a: B.veq(t, r, e['a'][a + i]), ins='a', sizes=(n,), nout=lambda n, a=a, b=b: b - a + 1,
               fn='tet1d::node<in_t>::operator()')
        if not B.isf(t) and i0 >= 0 and b - a >= 1:
            m.stmt(nm + '_add', 'O = va(%d, %s) + vb(0, %d);' % (i0, e1, b - a),
                   lambda e, i, r, a=a: S.eq(w, r, S.add(w, e['a'][a + i], e['b'][i])), ins='ab', sizes=(n,), nout=lambda n, a=a, b=b: b - a + 1,
                   fn='tet1d::node<in_t>::operator()')


QUICK = [('sse2', 1, 'i32'), ('sse2', 1, 'f32'), ('sse2', 2, 'u16'), ('avx2', 1, 'u8'), ('avx2', 1, 'f64'), ('cpu', 1, 'i16'), ('sse2', 1, 'i8'),
         ('avx512_skylake', 1, 'u64'), ('avx', 1, 'u32'), ('sse42', 1, 'i64'), ('sse2', 1, 'f16')]


def build(st, tier):
    groups, cases = [], []
    for ext, N, t in QUICK if tier == 'quick' else [(x, N, t) for x in stg.EXTS for N in (1, 2) for t in B.TYPES]:
        m = M(groups, cases, ext, N, t)
        operators(m)
        scalars(m)
        masks(m)
        exprs(m)
        m.done()
    return groups, cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C19', build,
        bounds='statements: every tet1d operator, infix operator, scalar/literal operand, masked output, slice and the nested expressions '
               'listed in checks/C19.py; sizes 1 and one pack + 1 (up to three packs + 1 for copies and masks); every value of every element',
        assumptions=['no division by zero, no out-of-range conversion, operands of one expression have equal sizes']))
