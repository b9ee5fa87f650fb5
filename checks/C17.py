"""C17: the fixed point module: arithmetic, comparisons, conversions and packs of fp_t<lf, rt>."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, fpc, specs, stage as stg, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Int, Out

QUICK = [(1, 2), (4, 2), (4, 6), (8, 4), (8, 8), (16, 8), (2, 31), (32, 16)]
ALL = QUICK + [(2, 3), (1, 3), (5, 1), (9, 3), (14, 1), (30, 1), (12, 10), (16, 7), (16, 16), (20, 20), (62, 1), (8, 28)]
EXTS = ['cpu', 'sse2', 'avx2', 'avx512_skylake']
CMP = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}
ARI = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}


def store(lf, rt):
    n = lf + 2 * rt
    return 8 if n <= 8 else 16 if n <= 16 else 32 if n <= 32 else 64


def fits(w, big, x):
    """the wide signed value x of 'big' bits is representable on w bits"""
    return S.eq(big, S.sext(w, S.trunc(big, x, w), big), x)


def value(op, w, rt, a, b=None):
    if op == 'mul':
        return S.ashr(w, S.mul(w, a, b), rt)
    if op == 'div':
        return S.sdiv(w, S.shl(w, a, rt), b)
    return {'add': S.add, 'sub': S.sub}[op](w, a, b)


def pre(op, w, rt, a, b):
    """the exact scaled intermediate is representable in the storage type"""
    if op == 'mul':
        W = 2 * w
        return [fits(w, W, S.mul(W, S.sext(w, a, W), S.sext(w, b, W)))]
    if op == 'div':
        m = S.shl(w, a, rt)
        return [S.b_not(S.eq(w, b, 0)), S.eq(w, S.ashr(w, m, rt), a),
                S.b_not(S.b_and(S.eq(w, m, 1 << (w - 1)), S.eq(w, b, S.mask(w))))]
    W = w + 1
    f = S.add if op == 'add' else S.sub
    return [fits(w, W, f(W, S.sext(w, a, W), S.sext(w, b, W)))]


def scaled(x, rt):
    return S.fround(32, S.fmul(32, x, fpc.fromint(1 << rt, 32)), 'RNA')


def conv(x, w, rt):
    return S.fptosi(32, scaled(x, rt), w)


def convpre(x, w, rt):
    return [S.in_range(32, scaled(x, rt), w, True, 'RTZ')]


def build(st, tier):
    groups, cases = [], []
    pairs = QUICK if tier == 'quick' else ALL
    for ext in ['sse2'] if tier == 'quick' else EXTS:
        for lf, rt in pairs:
            scalar(groups, cases, ext, lf, rt)
    for ext in (['cpu', 'sse2', 'avx2', 'avx512_skylake'] if tier == 'quick' else stg.EXTS):
        for lf, rt in (pairs if tier != 'quick' or ext == 'sse2' else [(4, 2), (4, 6), (8, 8), (32, 16)]):
            packs(groups, cases, ext, lf, rt)
    return groups, cases


class Mod:
    def __init__(self, groups, cases, key, ext, pro, inc='fixed_point'):
        self.key, self.ext, self.src, self.cases = key, ext, [pro + 'extern "C" {\n'], cases
        self.groups, self.inc = groups, inc

    def add(self, name, args, body, goals, pre=None, decl=None):
        sym = 'w_%d' % len(self.src)
        d = []
        for a in args:
            if isinstance(a, Int):
                d.append('int ' + a.name)
            else:
                ty = decl[a.name] if decl and a.name in decl else 'R'
                d.append('%s%s *%s' % ('' if a.out else 'const ', ty, a.name))
        self.src.append('void %s(%s) { %s }\n' % (sym, ', '.join(d), body))
        self.cases.append(Case('%s/%s' % (self.key, name), sym, args, goals, pre, mod=self.key, fn='nsimd::fixed_point::' + name.split('/')[0]))

    def done(self):
        self.groups.append(Group(self.key, self.ext, '#include <nsimd/nsimd-all.hpp>\n#include <nsimd/modules/%s.hpp>\n' % self.inc +
                                 ''.join(self.src) + '}\n', cxx=True))


def scalar(groups, cases, ext, lf, rt):
    w = store(lf, rt)
    pro = ('#include <nsimd/modules/fixed_point/function/floor.hpp>\n#include <nsimd/modules/fixed_point/function/ceil.hpp>\n'
           '#include <nsimd/modules/fixed_point/function/abs.hpp>\n#include <nsimd/modules/fixed_point/function/is_int.hpp>\n'
           'namespace fx = nsimd::fixed_point;\ntypedef fx::fp_t<%d, %d> F; typedef F::value_type R;\n'
           'static inline F mk(R r) { F f; f._raw = r; return f; }\n') % (lf, rt)
    m = Mod(groups, cases, '%s+s%d_%d' % (ext, lf, rt), ext, pro)

    def A(*n):
        return [Buf(x, w, 1, kind='i') for x in n]

    def o(n=1, ww=None):
        return Out('o', ww or w, n, 'i')

    def val(e, k):
        return e[k][0]
    for c, op in ARI.items():
        for nm, expr in ((op, '%s(mk(*a), mk(*b))' % op), ('operator' + c, '(mk(*a) %s mk(*b))' % c)):
            m.add(nm, [o()] + A('a', 'b'), '*o = fx::%s._raw;' % expr if nm == op else '*o = %s._raw;' % expr,
                  lambda e, op=op: [('result', S.eq(w, e.o['o'][0], value(op, w, rt, val(e, 'a'), val(e, 'b'))))],
                  lambda e, op=op: pre(op, w, rt, val(e, 'a'), val(e, 'b')))
        m.add('operator%s=' % c, [o()] + A('a', 'b'), 'F x = mk(*a); x %s= mk(*b); *o = x._raw;' % c,
              lambda e, op=op: [('result', S.eq(w, e.o['o'][0], value(op, w, rt, val(e, 'a'), val(e, 'b'))))],
              lambda e, op=op: pre(op, w, rt, val(e, 'a'), val(e, 'b')))
        # mixed with a float
        X = Buf('x', 32, 1, kind='f')
        m.add('operator%s/fp_float' % c, [o()] + A('a') + [X], '*o = (mk(*a) %s *x)._raw;' % c,
              lambda e, op=op: [('result', S.eq(w, e.o['o'][0], value(op, w, rt, val(e, 'a'), conv(val(e, 'x'), w, rt))))],
              lambda e, op=op: convpre(val(e, 'x'), w, rt) + pre(op, w, rt, val(e, 'a'), conv(val(e, 'x'), w, rt)), {'x': 'float'})
        m.add('operator%s/float_fp' % c, [o()] + A('a') + [X], '*o = (*x %s mk(*a))._raw;' % c,
              lambda e, op=op: [('result', S.eq(w, e.o['o'][0], value(op, w, rt, conv(val(e, 'x'), w, rt), val(e, 'a'))))],
              lambda e, op=op: convpre(val(e, 'x'), w, rt) + pre(op, w, rt, conv(val(e, 'x'), w, rt), val(e, 'a')), {'x': 'float'})
    for c, op in CMP.items():
        def cmpg(e, op=op):
            return [('result', S.b_and(S.ule(32, e.o['o'][0], 1), specs.good(op, 'i%d' % w, 'i%d' % w, S.b_not(S.eq(32, e.o['o'][0], 0)),
                                                                             [val(e, 'a'), val(e, 'b')])))]
        m.add('operator' + c, [o(1, 32)] + A('a', 'b'), '*o = mk(*a) %s mk(*b);' % c, cmpg, decl={'o': 'i32'})
        if op not in ('eq', 'ne'):
            def cmpm(e, op=op):
                return [('result', specs.good(op, 'i%d' % w, 'i%d' % w, S.b_not(S.eq(32, e.o['o'][0], 0)),
                                              [val(e, 'a'), conv(val(e, 'x'), w, rt)]))]
            m.add('operator%s/fp_float' % c, [o(1, 32)] + A('a') + [Buf('x', 32, 1, kind='f')], '*o = mk(*a) %s *x;' % c, cmpm,
                  lambda e: convpre(val(e, 'x'), w, rt), {'x': 'float', 'o': 'i32'})
    m.add('neg', [o()] + A('a'), '*o = (-mk(*a))._raw;', lambda e: [('result', S.eq(w, e.o['o'][0], S.neg(w, val(e, 'a'))))],
          lambda e: [S.b_not(S.eq(w, val(e, 'a'), 1 << (w - 1)))])
    # abs goes through a multiplication by -1: the scaled product must fit
    m.add('abs', [o()] + A('a'), '*o = fx::abs(mk(*a))._raw;', lambda e: [('result', S.eq(w, e.o['o'][0], S.iabs(w, val(e, 'a'))))],
          lambda e: pre('mul', w, rt, val(e, 'a'), S.mask(w) ^ S.mask(rt)))
    m.add('floor', [o()] + A('a'), '*o = fx::floor(mk(*a))._raw;',
          lambda e: [('result', S.eq(w, e.o['o'][0], S.and_(w, val(e, 'a'), S.mask(w) ^ S.mask(rt))))])

    def ceil(e):
        a = val(e, 'a')
        return S.and_(w, S.add(w, a, S.mask(rt)), S.mask(w) ^ S.mask(rt))
    m.add('ceil', [o()] + A('a'), '*o = fx::ceil(mk(*a))._raw;', lambda e: [('result', S.eq(w, e.o['o'][0], ceil(e)))],
          lambda e: pre('add', w, rt, val(e, 'a'), S.mask(rt)))
    m.add('is_int', [o(1, 32)] + A('a'), '*o = fx::is_int(mk(*a));',
          lambda e: [('result', S.eq(32, e.o['o'][0], S.ite(32, S.eq(w, S.and_(w, val(e, 'a'), S.mask(rt)), 0), 1, 0)))], decl={'o': 'i32'})

    def ulp(e):
        W = 66
        d = S.sub(W, S.sext(w, val(e, 'a'), W), S.sext(w, val(e, 'b'), W))
        return S.sle(W, S.iabs(W, d), S.sext(32, e['k'], W))
    m.add('equal_ulp', [o(1, 32)] + A('a', 'b') + [Int('k', 32)], '*o = fx::equal_ulp(mk(*a), mk(*b), k);',
          lambda e: [('result', S.eq(32, e.o['o'][0], S.ite(32, ulp(e), 1, 0)))],
          lambda e: [S.sle(32, 0, e['k'])] + pre('sub', w, rt, val(e, 'a'), val(e, 'b')), {'o': 'i32'})
    for nm, ex, f in (('bitwise_and', 'fx::bitwise_and(mk(*a), *b)', lambda a, b: S.and_(w, a, b)),
                      ('operator&', 'mk(*a) & *b', lambda a, b: S.and_(w, a, b)),
                      ('bitwise_or', 'fx::bitwise_or(mk(*a), *b)', lambda a, b: S.or_(w, a, b)),
                      ('operator|', 'mk(*a) | *b', lambda a, b: S.or_(w, a, b)),
                      ('bitwise_xor', 'fx::bitwise_xor(mk(*a), *b)', lambda a, b: S.xor(w, a, b)),
                      ('operator^', 'mk(*a) ^ *b', lambda a, b: S.xor(w, a, b)),
                      ('bitwise_nor', 'fx::bitwise_nor(mk(*a), *b)', lambda a, b: S.not_(w, S.or_(w, a, b)))):
        m.add(nm, [o()] + A('a', 'b'), '*o = (%s)._raw;' % ex,
              lambda e, f=f: [('result', S.eq(w, e.o['o'][0], f(val(e, 'a'), val(e, 'b'))))])
    m.add('bitwise_not', [o()] + A('a'), '*o = (~mk(*a))._raw;', lambda e: [('result', S.eq(w, e.o['o'][0], S.not_(w, val(e, 'a'))))])
    for nm, c, f in (('shift_left', '<<', S.shl), ('shift_right', '>>', S.ashr)):
        m.add(nm, [o()] + A('a') + [Int('k', 32)], '*o = (mk(*a) %s k)._raw;' % c,
              lambda e, f=f: [('result', S.eq(w, e.o['o'][0], f(w, val(e, 'a'), S.zext(32, e['k'], w) if w > 32 else S.trunc(32, e['k'], w))))],
              lambda e: [S.ult(32, e['k'], w)])
    # conversions
    m.add('fp_t(float)', [o(), Buf('x', 32, 1, kind='f')], '*o = F(*x)._raw;',
          lambda e: [('result', S.eq(w, e.o['o'][0], conv(val(e, 'x'), w, rt)))], lambda e: convpre(val(e, 'x'), w, rt), {'x': 'float'})
    m.add('operator float', [Out('o', 32, 1, 'f')] + A('a'), '*o = (float)mk(*a);',
          lambda e: [('result', S.feq_modnan(32, e.o['o'][0], S.fdiv(32, S.sitofp(w, val(e, 'a'), 32), fpc.fromint(1 << rt, 32))))], None,
          {'o': 'float'})

    def exact(e):
        b = min(24, w)
        return [S.eq(w, S.sext(b, S.trunc(w, val(e, 'a'), b), w), val(e, 'a'))] if b < w else []
    m.add('fp_t(float(fp_t))', [o()] + A('a'), '*o = F((float)mk(*a))._raw;',
          lambda e: [('round trip', S.eq(w, e.o['o'][0], val(e, 'a')))], exact)
    m.done()


def packs(groups, cases, ext, lf, rt):
    w = store(lf, rt)
    n = stg.VBITS[ext] // w
    t = 'i%d' % w
    pro = ('namespace fx = nsimd::fixed_point;\ntypedef fx::fp_t<%d, %d> F; typedef F::value_type R;\n'
           'typedef fx::pack<F> P; typedef fx::packl<F> L;\n'
           'static inline P ld(const R *p) { return fx::loadu<P>((F *)p); }\n'
           'static inline void sto(R *p, P v) { fx::storeu((F *)p, v); }\n'
           'static inline L ldl(const R *p) { return fx::loadlu<L>((R *)p); }\n'
           'static inline void stl(R *p, L v) { fx::storelu((R *)p, v); }\n') % (lf, rt)
    m = Mod(groups, cases, '%s+p%d_%d' % (ext, lf, rt), ext, pro)

    def V(*names):
        return [Buf(x, w, n, kind='i') for x in names]

    def Lg(*names):
        return [Buf(x, w, n, kind='l') for x in names]
    o = Out('o', w, n, 'i')

    def lanes(f):
        return lambda e: [('lane %d' % i, f(e, i)) for i in range(n)]
    for c, op in ARI.items():
        for nm, ex in ((op, 'fx::%s(ld(a), ld(b))' % op), ('operator' + c, 'ld(a) %s ld(b)' % c)):
            m.add('pack.' + nm, [o] + V('a', 'b'), 'sto(o, %s);' % ex,
                  lanes(lambda e, i, op=op: S.eq(w, e.o['o'][i], value(op, w, rt, e['a'][i], e['b'][i]))),
                  lambda e, op=op: [p for i in range(n) for p in pre(op, w, rt, e['a'][i], e['b'][i])])
    m.add('pack.fma', [o] + V('a', 'b', 'c'), 'sto(o, fx::fma(ld(a), ld(b), ld(c)));',
          lanes(lambda e, i: S.eq(w, e.o['o'][i], S.add(w, value('mul', w, rt, e['a'][i], e['b'][i]), e['c'][i]))),
          lambda e: [p for i in range(n) for p in pre('mul', w, rt, e['a'][i], e['b'][i]) +
                     pre('add', w, rt, value('mul', w, rt, e['a'][i], e['b'][i]), e['c'][i])])
    for op in ('min', 'max'):
        m.add('pack.' + op, [o] + V('a', 'b'), 'sto(o, fx::%s(ld(a), ld(b)));' % op,
              lanes(lambda e, i, op=op: S.eq(w, e.o['o'][i], (S.smin if op == 'min' else S.smax)(w, e['a'][i], e['b'][i]))))
    m.add('pack.abs', [o] + V('a'), 'sto(o, fx::abs(ld(a)));', lanes(lambda e, i: S.eq(w, e.o['o'][i], S.iabs(w, e['a'][i]))),
          lambda e: [S.b_not(S.eq(w, x, 1 << (w - 1))) for x in e['a']])
    m.add('pack.rec', [o] + V('a'), 'sto(o, fx::rec(ld(a)));',
          lanes(lambda e, i: S.eq(w, e.o['o'][i], value('div', w, rt, 1 << rt, e['a'][i]))),
          lambda e: [p for i in range(n) for p in pre('div', w, rt, 1 << rt, e['a'][i])])
    for c, op in CMP.items():
        for nm, ex in ((op, 'fx::%s(ld(a), ld(b))' % op), ('operator' + c, 'ld(a) %s ld(b)' % c)):
            m.add('pack.' + nm, [o] + V('a', 'b'), 'stl(o, %s);' % ex,
                  lanes(lambda e, i, op=op: S.b_and(S.ule(w, e.o['o'][i], 1), specs.good(
                      op, t, t, S.b_not(S.eq(w, e.o['o'][i], 0)), [e['a'][i], e['b'][i]]))))
    m.add('pack.if_else1', [o] + Lg('l') + V('a', 'b'), 'sto(o, fx::if_else1(ldl(l), ld(a), ld(b)));',
          lanes(lambda e, i: S.eq(w, e.o['o'][i], S.ite(w, S.b_not(S.eq(w, e['l'][i], 0)), e['a'][i], e['b'][i]))))
    for op in ('andb', 'orb', 'xorb', 'andnotb'):
        m.add('pack.' + op, [o] + V('a', 'b'), 'sto(o, fx::%s(ld(a), ld(b)));' % op,
              lanes(lambda e, i, op=op: specs.good(op, t, t, e.o['o'][i], [e['a'][i], e['b'][i]])))
        l = op[:-1] + 'l'
        m.add('pack.' + l, [o] + Lg('a', 'b'), 'stl(o, fx::%s(ldl(a), ldl(b)));' % l,
              lanes(lambda e, i, l=l: specs.good(l, t, t, S.b_not(S.eq(w, e.o['o'][i], 0)),
                                                 [S.b_not(S.eq(w, e[k][i], 0)) for k in 'ab'])))
    m.add('pack.notb', [o] + V('a'), 'sto(o, fx::notb(ld(a)));', lanes(lambda e, i: S.eq(w, e.o['o'][i], S.not_(w, e['a'][i]))))
    m.add('pack.notl', [o] + Lg('a'), 'stl(o, fx::notl(ldl(a)));',
          lanes(lambda e, i: S.b_not(S.b_xor(S.b_not(S.eq(w, e.o['o'][i], 0)), S.eq(w, e['a'][i], 0)))))
    m.add('pack.set1', [o, Buf('a', w, 1, kind='i')], 'F f; f._raw = *a; sto(o, fx::set1<P>(f));',
          lanes(lambda e, i: S.eq(w, e.o['o'][i], e['a'][0])))
    al = stg.VBITS[ext] // 8
    for x in 'ua':
        k = al if x == 'a' else w // 8
        m.add('pack.load%s_store%s' % (x, x), [Out('o', w, n, 'i', align=k), Buf('a', w, n, kind='i', align=k)],
              'fx::store%s((F *)o, fx::load%s<P>((F *)a));' % (x, x), lanes(lambda e, i: S.eq(w, e.o['o'][i], e['a'][i])))
        m.add('packl.loadl%s_storel%s' % (x, x), [Out('o', w, n, 'i', align=k), Buf('a', w, n, kind='i', align=k)],
              'L l = fx::loadl%s<L>((R *)a); fx::storel%s(o, l);' % (x, x),
              lanes(lambda e, i: S.eq(w, e.o['o'][i], S.ite(w, S.eq(w, e['a'][i], 0), 0, 1))))
    m.done()


if __name__ == '__main__':
    sys.exit(driver.main(
        'C17', build,
        bounds='one call; every bit pattern of the raw value of every operand (every lane); formats fp_t<lf, rt> with 8, 16, 32 and '
               '64-bit storage (quick: 8 formats, thorough: 20); scalars and packs; packs on cpu, SSE2, AVX2, AVX-512 Skylake',
        assumptions=['the exact scaled intermediate result (a*b, a*2^rt, a+b, x*2^rt) is representable in the storage type',
                     'non-zero divisor', 'sqrt, exp, log and trigonometric functions are not covered']))
