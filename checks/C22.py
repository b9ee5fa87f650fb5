"""C22: a mathematical function calls, for every lane, exactly the kernel of that function and accuracy on that lane's arguments."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, stage as stg, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Out

# nsimd name -> (name of the kernel in Sleef's own sources without the type letter, number of arguments)
OPS = {}
for _f in 'sin cos tan asin acos atan atan2 log cbrt'.split():
    OPS[_f + '_u35'] = (_f, '', 2 if _f == 'atan2' else 1)
    OPS[_f + '_u10'] = (_f, '_u1', 2 if _f == 'atan2' else 1)
for _f in 'exp pow sinh cosh tanh asinh acosh atanh exp2 exp10 expm1 log10 log2 log1p'.split():
    OPS[_f + '_u10'] = (_f, '', 2 if _f == 'pow' else 1)
for _f in 'sinh cosh tanh exp2 exp10 log2'.split():
    OPS[_f + '_u35'] = (_f, '_u35', 1)
OPS.update({'sinpi_u05': ('sinpi', '_u05', 1), 'cospi_u05': ('cospi', '_u05', 1), 'hypot_u05': ('hypot', '_u05', 2),
            'hypot_u35': ('hypot', '_u35', 2), 'fmod': ('fmod', '', 2), 'remainder': ('remainder', '', 2), 'lgamma_u10': ('lgamma', '_u1', 1),
            'tgamma_u10': ('tgamma', '_u1', 1), 'erf_u10': ('erf', '_u1', 1), 'erfc_u15': ('erfc', '_u15', 1)})
IDS = {op: k + 1 for k, op in enumerate(sorted(OPS))}
RENAME = {'cpu': 'rename.h', 'sse2': 'renamesse2.h', 'sse42': 'renamesse4.h', 'avx': 'renameavx.h', 'avx2': 'renameavx2.h',
          'avx512_knl': 'renameavx512f.h', 'avx512_skylake': 'renameavx512f.h'}

# Kernels are uninterpreted: a native build uses an arbitrary mixing function, the encoding an uninterpreted function per kernel.
HEAD = r'''
#include <nsimd/nsimd-all.hpp>
#include <../src/%s>
extern "C" {
#ifdef __llvm__
u32 w_kern32(int id, u32 a, u32 b);
u64 w_kern64(int id, u64 a, u64 b);
#else
static u64 mix(u64 id, u64 a, u64 b) {
  u64 h = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + id * 0x165667B19E3779F9ull;
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 32);
}
static u32 w_kern32(int id, u32 a, u32 b) { return 0x3f800000u | (u32)(mix(id, a, b) >> 41); }
static u64 w_kern64(int id, u64 a, u64 b) { return 0x3ff0000000000000ull | (mix(id, a, b) >> 12); }
#endif
}
#define KERNEL1(f, id, V, n, U, k) extern "C" V f(V x) { U a[n]; __builtin_memcpy(a, &x, sizeof(x)); \
  for (int i = 0; i < n; i++) a[i] = k(id, a[i], 0); __builtin_memcpy(&x, a, sizeof(x)); return x; }
#define KERNEL2(f, id, V, n, U, k) extern "C" V f(V x, V y) { U a[n], b[n]; __builtin_memcpy(a, &x, sizeof(x)); __builtin_memcpy(b, &y, sizeof(y)); \
  for (int i = 0; i < n; i++) a[i] = k(id, a[i], b[i]); __builtin_memcpy(&x, a, sizeof(x)); return x; }
'''
M64 = (1 << 64) - 1


def mix(i, a, b):
    h = (a * 0x9E3779B97F4A7C15 + b * 0xC2B2AE3D27D4EB4F + i * 0x165667B19E3779F9) & M64
    h ^= h >> 29
    h = h * 0xBF58476D1CE4E5B9 & M64
    return h ^ (h >> 32)


def kern(w, i, a, b):
    """the kernel i on the bit patterns a, b"""
    if S.isc(a) and S.isc(b):
        h = mix(i, a, b)
        return 0x3f800000 | (h >> 41) if w == 32 else (0x3ff << 52) | (h >> 12)
    return S.uf('kernel%d_%d' % (i, w), [(w, a), (w, b)], w)


def models(M):
    def k(w):
        def f(M, st, ty, a, tys):
            if a[1] is S.POISON or a[2] is S.POISON:
                return S.POISON
            return kern(w, a[0], a[1], a[2])
        return f
    return {'w_kern32': k(32), 'w_kern64': k(64)}


def build(st, tier):
    groups, cases = [], []
    for ext in stg.EXTS:
        src = [HEAD % RENAME[ext]]
        for op, (f, sfx, n) in sorted(OPS.items()):
            for t, letter in (('f32', 'f'), ('f64', '')):
                V = t if ext == 'cpu' else 'nsimd_%s_v%s' % (ext, t)
                ln = 1 if ext == 'cpu' else B.nl(ext, t)
                src.append('KERNEL%d(x%s%s%s, %d, %s, %d, u%d, w_kern%d)\n' % (n, f, letter, sfx, IDS[op], V, ln, B.wid(t), B.wid(t)))
        for op, (f, sfx, n) in sorted(OPS.items()):
            for t in B.FTYPES:
                w = B.wid(t)
                L = B.nl(ext, t)
                names = 'ab'[:n]
                par = ', '.join(['%s *o' % t] + ['const %s *%s' % (t, x) for x in names])
                E = 'nsimd::' + ext
                forms = [('c', L, 'nsimd_storeu_%s_%s(o, nsimd_%s_%s_%s(%s));' % (ext, t, op, ext, t, ', '.join('nsimd_loadu_%s_%s(%s)' % (ext, t, x) for x in names))),
                         ('cxx', L, 'nsimd::storeu(o, nsimd::%s(%s, %s(), %s()), %s(), %s());' %
                          (op, ', '.join('nsimd::loadu(%s, %s(), %s())' % (x, t, E) for x in names), t, E, t, E))]
                for N in (1, 2, 3) if tier == 'thorough' else (2,):
                    P = 'nsimd::pack<%s, %d, %s>' % (t, N, E)
                    forms.append(('pack%d' % N, L * N, 'nsimd::storeu(o, nsimd::%s(%s));' % (op, ', '.join('nsimd::loadu<%s >(%s)' % (P, x) for x in names))))
                if ext == 'cpu':
                    forms.append(('scalar', 1, '*o = nsimd_scalar_%s_%s(%s);' % (op, t, ', '.join('*' + x for x in names))))
                    forms.append(('cxx_scalar', 1, '*o = nsimd::scalar_%s(%s);' % (op, ', '.join('*' + x for x in names))))
                for nm, m, body in forms:
                    sym = 'w_%s_%s_%s' % (op, t, nm)
                    src.append('extern "C" void %s(%s) { %s }\n' % (sym, par, body))

                    def one(e, i, t=t, w=w, n=n, op=op):
                        a = [e[x][i] for x in 'ab'[:n]]
                        if t == 'f16':
                            a = [B.up32(x) for x in a]
                        r = kern(32 if t == 'f16' else w, IDS[op], a[0], a[1] if n == 2 else 0)
                        return B.dn16(r) if t == 'f16' else r

                    def post(e, t=t, m=m, one=one):
                        return [('lane %d' % i, B.veq(t, e.o['o'][i], one(e, i))) for i in range(m)]

                    def pre(e, t=t, m=m, n=n):
                        return [B.notnan(t, [e[x][i]])[0] for x in 'ab'[:n] for i in range(m)] if t == 'f16' else []
                    cases.append(Case('%s/%s/%s/%s' % (ext, op, t, nm), sym, [Out('o', w, m, 'f')] + [Buf(x, w, m, kind='f') for x in names],
                                      post, pre, mod=ext, fn='nsimd_%s_%s_%s' % (op, ext, t) if nm != 'scalar' else 'nsimd_scalar_' + op, models=models))
        groups.append(Group(ext, ext, ''.join(src), cxx=True, link=['src/fp16.cpp']))
    return groups, cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C22', build,
        bounds='%d mathematical functions, f16/f32/f64, every x86 extension and the scalar API; C, C++ and pack interfaces; one call on every '
               'bit pattern of every lane (half precision: not NaN)' % len(OPS),
        assumptions=['Sleef kernels are uninterpreted functions applied to every lane; their names are the ones of Sleef sources after '
                     "the renaming headers of src/", 'the half precision conversions are IEEE-754 conversions (C12)']))
