"""C21: memory functions return NULL / throw, or aligned memory that holds everything that was asked for."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, stage as stg, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Int, Out

# The C library's allocation functions are stand-ins with their documented contract: they fail whenever the input says so,
# fail for sizes above PTRDIFF_MAX, and otherwise return some block of at least the requested size, multiple of the
# requested alignment. They record what they were asked for.
WORLD = r'''
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <new>
#include <vector>
typedef unsigned long long W64;
#ifndef PTRDIFF_MAX
#define PTRDIFF_MAX __PTRDIFF_MAX__
#endif
extern "C" {
struct World { void *mem; W64 addr, fail, fail2, calls, al, n, freed, nfree, exited, zero; } W;
static int vp_fails() { return W.calls == 1 ? W.fail != 0 : W.fail2 != 0; }
static void *vp_block(W64 al) { return W.mem ? W.mem : (void *)(W.addr & -al); }
static int vp_posix_memalign(void **p, size_t al, size_t n) {
  W.calls++; W.al = al; W.n = n;
  if (al < sizeof(void *) || (al & (al - 1))) return EINVAL;
  if (vp_fails() || n > (size_t)PTRDIFF_MAX) return ENOMEM;
  *p = vp_block(al);
  return 0;
}
static void *vp_malloc(size_t n) {
  W.calls++; W.al = 16; W.n = n;
  if (vp_fails() || n > (size_t)PTRDIFF_MAX) return NULL;
  return vp_block(16);
}
static void *vp_calloc(size_t a, size_t b) {
  size_t n;
  W.calls++; W.al = 16;
  if (__builtin_mul_overflow(a, b, &n) || n > (size_t)PTRDIFF_MAX) { return NULL; }
  W.n = n; W.zero = 1;
  if (vp_fails()) return NULL;
  if (W.mem) { for (size_t i = 0; i < n; i++) ((char *)W.mem)[i] = 0; }
  return vp_block(16);
}
static void vp_free(void *p) { if (p) { W.nfree++; W.freed = (W64)p; } }
static void vp_exit(int) { W.exited++; }
static void vp_memset(void *p, int v, size_t n) {
  if (W.mem) memset(p, v, n);
  else if (v == 0 && n == W.n && (W64)p == (W64)vp_block(W.al)) W.zero = 1;
}
static void vp_world(void *mem, W64 addr, W64 fail, W64 fail2) {
  W.mem = mem; W.addr = addr; W.fail = fail; W.fail2 = fail2; W.calls = W.al = W.n = W.freed = W.nfree = W.exited = W.zero = 0;
}
}
namespace std {
struct vp_ostream {
  template <typename X> vp_ostream &operator<<(X const &) { return *this; }
  vp_ostream &operator<<(ostream &(*)(ostream &)) { return *this; }
};
static vp_ostream vp_cerr;
}
#define posix_memalign vp_posix_memalign
#define malloc vp_malloc
#define calloc vp_calloc
#define free vp_free
#define exit vp_exit
#define cerr vp_cerr
#define memset vp_memset
#include <../src/memory.cpp>
#undef NSIMD_INSIDE
'''
# exceptions: a native build catches and reports them, the encoded build records the path condition of every throw
TRY = r'''
#ifdef __llvm__
  #define VP_TRY
  #define VP_CATCH(x)
#else
  #define VP_TRY try {
  #define VP_CATCH(x) } catch (...) { x = 1; }
#endif
'''
GPU = r'''
// the host code of the GPU branch, with the CUDA runtime replaced by stand-ins
enum cudaError_t { cudaSuccess = 0, cudaErr = 2 };
enum cudaMemcpyKind { cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2 };
struct Dev { W64 addr, fail, failset, calls, n, zeroed, nfree, freed, kind, src, dst, len; } D;
static cudaError_t cudaMalloc(void **p, size_t n) {
  D.calls++; D.n = n;
  if (D.fail || n > (size_t)PTRDIFF_MAX) return cudaErr;
  *p = (void *)(D.addr & -256ull);
  return cudaSuccess;
}
static cudaError_t cudaMemset(void *p, int v, size_t n) {
  if (D.failset) return cudaErr;
  if (v == 0 && (W64)p == (D.addr & -256ull) && n == D.n) D.zeroed = 1;
  return cudaSuccess;
}
static cudaError_t cudaFree(void *p) { if (p) { D.nfree++; D.freed = (W64)p; } return cudaSuccess; }
static cudaError_t cudaMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k) {
  D.kind = k; D.dst = (W64)d; D.src = (W64)s; D.len = n; return cudaSuccess;
}
static void vp_dev(W64 addr, W64 fail, W64 failset) { memset(&D, 0, sizeof(D)); D.addr = addr; D.fail = fail; D.failset = failset; }
#define %s
'''
LIM = (1 << 63) - 1


def ext64(v):
    return S.zext(64, v, 128)


def wide(n, size, signed):
    """n * size as an exact 128 bit number"""
    return S.mul(128, (S.sext if signed else S.zext)(64, n, 128), size)


def fits(n, size, signed):
    """0 <= n * size <= PTRDIFF_MAX: a request the allocator can satisfy"""
    p = wide(n, size, signed)
    return S.b_and(S.sle(128, 0, p), S.sle(128, p, LIM)) if signed else S.ule(128, p, LIM)


def b(e, name, k):
    return e.o[name][k]


def nz(v):
    return S.b_not(S.eq(64, v, 0))


def imp(a, c):
    return S.b_or(S.b_not(a), c)


def thrown(e, flag):
    """a path of the call ends with an exception"""
    if e.M is not None:
        r = 0
        for c in e.M.throws:
            r = S.b_or(r, c)
        return r
    return nz(flag)


ALLOC = [Int('addr', 64), Int('fail', 1)]


def addr_ok(e):
    return [S.ule(64, 1 << 20, e['addr']), S.ule(64, e['addr'], 1 << 62)]


def block_good(e, ret, al, n, size, signed, align, null=None):
    """NULL, or an aligned block of at least n * size bytes; not NULL when the request can be satisfied"""
    null = S.eq(64, ret, 0) if null is None else null
    ok = S.b_not(null)
    need = wide(n, size, signed)
    g = [('alignment', imp(ok, S.eq(64, S.and_(64, ret, align - 1), 0))),
         ('size', imp(ok, S.ule(128, need, ext64(b(e, 'o', 1))) if not signed else S.b_and(S.sle(128, 0, need), S.sle(128, need, ext64(b(e, 'o', 1)))))),
         ('satisfiable request', imp(S.b_and(fits(n, size, signed), S.b_not(e['fail'])), ok)),
         ('failure reported', imp(e['fail'], null))]
    return g


class M:
    def __init__(self, groups, cases, key, ext, std, head=''):
        self.groups, self.cases, self.key, self.ext, self.std = groups, cases, key, ext, std
        self.src = [WORLD, TRY, head]

    def case(self, name, sig, body, args, post, pre=None, fn=None, max_iter=64):
        sym = 'w_' + name
        self.src.append('extern "C" void %s(%s) {\n%s\n}\n' % (sym, sig, body))
        self.cases.append(Case('%s/%s' % (self.key, name), sym, args, post, pre, mod=self.key, fn=fn or name, max_iter=max_iter))

    def done(self):
        self.groups.append(Group(self.key, self.ext, ''.join(self.src), cxx=True, std=self.std, link=['src/fp16.cpp']))


REC = 'o[0] = (W64)%s; o[1] = W.n; o[2] = W.al; o[3] = W.calls;'


def host(m, types, align):
    ISIG = 'W64 *o, W64 addr, bool fail, %s n'
    out = [Out('o', 64, 6, 'u')]
    for nm, call, size in [('c_alloc', 'nsimd_aligned_alloc(n)', 1), ('cxx_alloc', 'nsimd::aligned_alloc(n)', 1)] + \
            [('alloc_for_' + t, 'nsimd::aligned_alloc_for<%s>(n)' % t, B.wid(t) // 8) for t in types]:
        m.case(nm, ISIG % 'nsimd_nat', 'vp_world(0, addr, fail, 1); void *r = (void *)%s; %s' % (call, REC % 'r'),
               out + ALLOC + [Int('n', 64)],
               lambda e, size=size: block_good(e, b(e, 'o', 0), b(e, 'o', 2), e['n'], size, True, align), addr_ok, fn=call.split('(')[0])
    for nm, call in [('c_free', 'nsimd_aligned_free((void *)p)'), ('cxx_free', 'nsimd::aligned_free((void *)p)')] + \
            [('free_for_' + t, 'nsimd::aligned_free_for<%s>((void *)p)' % t) for t in types] + \
            [('deallocate_' + t, 'nsimd::allocator<%s> A; A.deallocate((%s *)p, n)' % (t, t)) for t in types]:
        m.case(nm, 'W64 *o, W64 p, W64 n', 'vp_world(0, 0, 0, 0); %s; o[0] = W.nfree; o[1] = W.freed;' % call, out + [Int('p', 64), Int('n', 64)],
               lambda e: [('freed once', S.eq(64, b(e, 'o', 0), 1)), ('the same block', S.eq(64, b(e, 'o', 1), e['p']))],
               lambda e: [nz(e['p'])], fn=call.split('(')[0])
    for t in types:
        size = B.wid(t) // 8
        forms = [('allocate', 'A.allocate(n)')]
        if m.std == 'c++98':
            forms.append(('allocate_hint', 'A.allocate(n, (const void *)0)'))
        for nm, call in forms:
            def post(e, size=size):
                th = thrown(e, b(e, 'o', 4))
                g = block_good(e, b(e, 'o', 0), b(e, 'o', 2), e['n'], size, False, align, null=th)
                return g + [('never NULL', S.b_or(th, nz(b(e, 'o', 0))))]
            m.case('%s_%s' % (nm, t), ISIG % 'W64',
                   'vp_world(0, addr, fail, 1); o[4] = 0; VP_TRY nsimd::allocator<%s> A; %s *r = %s; %s VP_CATCH(o[4])' % (t, t, call, REC % 'r'),
                   out + ALLOC + [Int('n', 64)], post, addr_ok, fn='nsimd::allocator::allocate')
        # scoped memory: n zeroed elements, aligned, released exactly once
        for n in (1, 3, 8):
            def post(e, n=n, size=size, t=t):
                g = [('element %d' % i, B.veq(t, e.o['o'][i], e['a'][i])) for i in range(n)]
                q = e.o['q']
                return g + [('alignment', S.eq(64, q[0], 0)), ('freed once', S.eq(64, q[1], 1)), ('released the block', S.eq(64, q[2], 1)),
                            ('not released early', S.eq(64, q[3], 0)), ('size', S.ule(64, n * size, q[4])), ('zeroed', S.eq(64, q[5], 0))]
            m.case('scoped_%s_%d' % (t, n), '%s *o, const %s *a, unsigned char *m, W64 *q' % (t, t),
                   'vp_world(m, 0, 0, 1); { nsimd::scoped_aligned_mem_for<%s> s(%d); %s *p = s.get(); W64 z = 0; for (int i = 0; i < %d; i++) '
                   '{ unsigned char by[sizeof(%s)]; __builtin_memcpy(by, p + i, sizeof(by)); for (unsigned k = 0; k < sizeof(by); k++) z |= by[k]; } '
                   'for (int i = 0; i < %d; i++) p[i] = a[i]; const nsimd::scoped_aligned_mem_for<%s> &cs = s; for (int i = 0; i < %d; i++) o[i] = cs.get()[i]; '
                   'q[0] = (W64)(W.al %% %d); q[3] = W.nfree; q[4] = W.n; q[5] = z; } q[1] = W.nfree; q[2] = W.freed == (W64)m;' % (t, n, t, n, t, n, t, n, align),
                   [Out('o', B.wid(t), n, t[0]), Buf('a', B.wid(t), n, kind=t[0]), Out('m', 8, n * size, 'u', align=64), Out('q', 64, 6, 'u')],
                   post, fn='nsimd::scoped_aligned_mem_for')


def device(m, types):
    out = [Out('o', 64, 8, 'u')]
    for t in types:
        size = B.wid(t) // 8
        for nm in ('malloc', 'calloc'):
            def post(e, size=size, nm=nm, pair=False):
                g = block_good(e, b(e, 'o', 0), 0, e['n'], size, False, 1)
                if nm == 'calloc':
                    g.append(('zeroed', imp(nz(b(e, 'o', 0)), nz(b(e, 'o', 4)))))
                return g
            body = 'vp_world(0, addr, fail, 1); %s *r = nsimd::device_%s<%s>(n); %s o[4] = W.zero;'
            m.case('device_%s_%s' % (nm, t), 'W64 *o, W64 addr, bool fail, size_t n', body % (t, nm, t, REC % 'r'), out + ALLOC + [Int('n', 64)], post, addr_ok,
                   fn='nsimd::device_' + nm)
            for ox in ('', '_or_exit'):
                def ppost(e, post=post, ox=ox):
                    g = post(e) + [('same block', S.eq(64, b(e, 'o', 0), b(e, 'o', 5))),
                                   ('element count', imp(nz(b(e, 'o', 0)), S.eq(64, b(e, 'o', 6), e['n'])))]
                    if ox:
                        g.append(('exits on failure', S.eq(64, b(e, 'o', 7), S.ite(64, S.eq(64, b(e, 'o', 0), 0), 1, 0))))
                    return g
                m.case('pair_%s%s_%s' % (nm, ox, t), 'W64 *o, W64 addr, bool fail, size_t n',
                       'vp_world(0, addr, fail, 1); nsimd::paired_pointers_t<%s> r = nsimd::pair_%s%s<%s>(n); %s o[4] = W.zero; o[5] = (W64)r.host_ptr; '
                       'o[6] = r.sz; o[7] = W.exited;' % (t, nm, ox, t, REC % 'r.device_ptr'), out + ALLOC + [Int('n', 64)], ppost, addr_ok, fn='nsimd::pair_%s%s' % (nm, ox))
        for nm, call in (('device_free', 'nsimd::device_free<%s>((%s *)p)' % (t, t)),
                         ('pair_free', 'nsimd::paired_pointers_t<%s> q; q.device_ptr = q.host_ptr = (%s *)p; q.sz = n; nsimd::pair_free(q)' % (t, t))):
            m.case('%s_%s' % (nm, t), 'W64 *o, W64 p, W64 n', 'vp_world(0, 0, 0, 0); %s; o[0] = W.nfree; o[1] = W.freed;' % call, out + [Int('p', 64), Int('n', 64)],
                   lambda e: [('freed once', S.eq(64, b(e, 'o', 0), 1)), ('the same block', S.eq(64, b(e, 'o', 1), e['p']))], lambda e: [nz(e['p'])], fn='nsimd::' + nm)
        for n in (0, 1, 5):
            A = [Buf('d', B.wid(t), n, kind=t[0]), Buf('a', B.wid(t), n, ro=True, kind=t[0])]
            A[0] = Out('d', B.wid(t), n, t[0], init='fill')
            for nm in ('copy_to_device', 'copy_to_host'):
                m.case('%s_%s_%d' % (nm, t, n), '%s *d, const %s *a' % (t, t), 'nsimd::%s<%s>(d, (%s *)a, %d);' % (nm, t, t, n), A,
                       lambda e, n=n, t=t: [('element %d' % i, S.eq(B.wid(t), e.o['d'][i], e['a'][i])) for i in range(n)], fn='nsimd::' + nm)
            m.case('pair_copies_%s_%d' % (t, n), '%s *d' % t,
                   'nsimd::paired_pointers_t<%s> p; p.device_ptr = p.host_ptr = d; p.sz = %d; nsimd::copy_to_device(p); nsimd::copy_to_host(p);' % (t, n),
                   [Out('d', B.wid(t), n, t[0], init='sym')], lambda e, n=n, t=t: [('element %d' % i, S.eq(B.wid(t), e.o['d'][i], e['d'][i])) for i in range(n)],
                   fn='nsimd::copy_to_device(pair)')
            if t[0] != 'f':
                m.src.append('namespace f_%s_%d { nsimd_fill_dev_mem_func(fill, (i * 1103515245 + 12345) %% 120) }\n' % (t, n))
                m.case('fill_%s_%d' % (t, n), '%s *d' % t, 'f_%s_%d::fill(d, %d);' % (t, n, n), [Out('d', B.wid(t), n, t[0])],
                       lambda e, n=n, t=t: [('element %d' % i, S.eq(B.wid(t), e.o['d'][i], (i * 1103515245 + 12345) % 120)) for i in range(n)], fn='nsimd_fill_dev_mem_func')


def gpu(m, types):
    """host part of the CUDA/ROCm branches"""
    out = [Out('o', 64, 10, 'u')]
    args = [Int('addr', 64), Int('daddr', 64), Int('fail', 1), Int('dfail', 1), Int('sfail', 1), Int('n', 64)]
    sig = 'W64 *o, W64 addr, W64 daddr, bool fail, bool dfail, bool sfail, size_t n'
    ini = 'vp_world(0, addr, fail, 1); vp_dev(daddr, dfail, sfail); '

    def pre(e):
        return addr_ok(e) + [S.ule(64, 1 << 20, e['daddr']), S.ule(64, e['daddr'], 1 << 62)]
    for t in types:
        size = B.wid(t) // 8
        for nm in ('malloc', 'calloc'):
            def dev(e, ret, size=size, nm=nm):
                ok = nz(ret)
                p = wide(e['n'], size, False)
                may = S.b_or(e['dfail'], e['sfail'] if nm == 'calloc' else 0)
                g = [('device size', imp(ok, S.ule(128, p, ext64(b(e, 'o', 1)))))]
                if nm == 'calloc':
                    g.append(('device zeroed', imp(ok, nz(b(e, 'o', 2)))))
                return g, may, p

            def dpost(e, dev=dev):
                g, may, p = dev(e, b(e, 'o', 0))
                null = S.eq(64, b(e, 'o', 0), 0)
                return g + [('satisfiable request', imp(S.b_and(S.ule(128, p, LIM), S.b_not(may)), S.b_not(null))), ('failure reported', imp(may, null)),
                            ('no leak', imp(S.b_and(null, nz(b(e, 'o', 5))), S.eq(64, b(e, 'o', 3), 1)))]
            m.case('device_%s_%s' % (nm, t), sig, ini + '%s *r = nsimd::device_%s<%s>(n); o[0] = (W64)r; o[1] = D.n; o[2] = D.zeroed; o[3] = D.nfree; o[4] = D.freed; '
                   'o[5] = D.calls && !D.fail && D.n <= (W64)PTRDIFF_MAX;' % (t, nm, t), out + args, dpost, pre, fn='nsimd::device_%s (GPU)' % nm)

            def ppost(e, dev=dev, nm=nm):
                g, may, p = dev(e, b(e, 'o', 0))
                d, h = b(e, 'o', 0), b(e, 'o', 6)
                null = S.eq(64, d, 0)
                hz = [('host zeroed', imp(S.b_not(null), nz(b(e, 'o', 8))))] if nm == 'calloc' else []
                return g + hz + [('both or none', S.b_not(S.b_xor(null, S.eq(64, h, 0)))),
                                 ('host size', imp(S.b_not(null), S.ule(128, p, ext64(b(e, 'o', 7))))),
                                 ('element count', imp(S.b_not(null), S.eq(64, b(e, 'o', 9), e['n']))),
                                 ('satisfiable request', imp(S.b_and(S.ule(128, p, LIM), S.b_not(S.b_or(may, e['fail']))), S.b_not(null))),
                                 ('no leak', imp(S.b_and(null, nz(b(e, 'o', 5))), S.eq(64, b(e, 'o', 3), 1)))]
            m.case('pair_%s_%s' % (nm, t), sig, ini + 'nsimd::paired_pointers_t<%s> r = nsimd::pair_%s<%s>(n); o[0] = (W64)r.device_ptr; o[1] = D.n; o[2] = D.zeroed; '
                   'o[3] = D.nfree; o[4] = D.freed; o[5] = D.calls && !D.fail && D.n <= (W64)PTRDIFF_MAX; o[6] = (W64)r.host_ptr; o[7] = W.n; o[8] = W.zero; o[9] = r.sz;'
                   % (t, nm, t), out + args, ppost, pre, fn='nsimd::pair_%s (GPU)' % nm)
        m.case('pair_free_' + t, 'W64 *o, W64 p, W64 h, W64 n', 'vp_world(0, 0, 0, 0); vp_dev(0, 0, 0); nsimd::paired_pointers_t<%s> q; q.device_ptr = (%s *)p; '
               'q.host_ptr = (%s *)h; q.sz = n; nsimd::pair_free(q); o[0] = W.nfree; o[1] = W.freed; o[2] = D.nfree; o[3] = D.freed;' % (t, t, t),
               out + [Int('p', 64), Int('h', 64), Int('n', 64)],
               lambda e: [('host freed once', S.eq(64, b(e, 'o', 0), 1)), ('host block', S.eq(64, b(e, 'o', 1), e['h'])),
                          ('device freed once', S.eq(64, b(e, 'o', 2), 1)), ('device block', S.eq(64, b(e, 'o', 3), e['p']))],
               lambda e: [nz(e['p']), nz(e['h'])], fn='nsimd::pair_free (GPU)')
        for nm, kind in (('copy_to_device', 1), ('copy_to_host', 2)):
            for pair in (0, 1):
                def cpost(e, kind=kind, size=size):
                    src, dst = (e['h'], e['p']) if kind == 1 else (e['p'], e['h'])
                    return [('direction', S.eq(64, b(e, 'o', 0), kind)), ('source', S.eq(64, b(e, 'o', 1), src)), ('destination', S.eq(64, b(e, 'o', 2), dst)),
                            ('bytes', S.eq(128, ext64(b(e, 'o', 3)), wide(e['n'], size, False)))]
                call = ('nsimd::paired_pointers_t<%s> q; q.device_ptr = (%s *)p; q.host_ptr = (%s *)h; q.sz = n; nsimd::%s(q);' % (t, t, t, nm)) if pair else \
                    'nsimd::%s<%s>((%s *)%s, (%s *)%s, n);' % ((nm, t, t, 'p', t, 'h') if kind == 1 else (nm, t, t, 'h', t, 'p'))
                m.case('%s%s_%s' % ('pair_' if pair else '', nm, t), 'W64 *o, W64 p, W64 h, W64 n',
                       'vp_dev(0, 0, 0); %s o[0] = D.kind; o[1] = D.src; o[2] = D.dst; o[3] = D.len;' % call, out + [Int('p', 64), Int('h', 64), Int('n', 64)], cpost,
                       lambda e, size=size: [fits(e['n'], size, False)], fn='nsimd::%s (GPU)' % nm)


ROCM = '''
#define hipMalloc cudaMalloc
#define hipMemset cudaMemset
#define hipMemcpy cudaMemcpy
#define hipFree cudaFree
#define hipSuccess cudaSuccess
#define hipMemcpyHostToDevice cudaMemcpyHostToDevice
#define hipMemcpyDeviceToHost cudaMemcpyDeviceToHost
'''


def build(st, tier):
    groups, cases = [], []
    quick = tier == 'quick'
    al = {'cpu': 16, 'sse2': 16, 'sse42': 16, 'avx': 32, 'avx2': 32, 'avx512_knl': 64, 'avx512_skylake': 64}
    for ext, std in [('avx512_skylake', 'c++11'), ('avx2', 'c++98'), ('sse2', 'c++20')] if quick else \
            [(x, s) for x in stg.EXTS for s in ('c++98', 'c++11', 'c++14', 'c++17', 'c++20')]:
        m = M(groups, cases, '%s+%s' % (ext, std.replace('c++', 'cxx')), ext, std)
        host(m, B.TYPES, al[ext])
        m.done()
    for ext in ['sse2'] if quick else ['cpu', 'sse2', 'avx2', 'avx512_skylake']:
        m = M(groups, cases, '%s+device' % ext, ext, 'c++11', '#include <nsimd/modules/memory_management.hpp>\n')
        device(m, B.TYPES)
        m.done()
    for nm in ('CUDA', 'ROCM'):
        m = M(groups, cases, 'host_of_' + nm, 'sse2', 'c++11', GPU % ('NSIMD_' + nm) + (ROCM if nm == 'ROCM' else '') + '#include <nsimd/modules/memory_management.hpp>\n')
        gpu(m, B.TYPES)
        m.done()
    return groups, cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C21', build,
        bounds='allocation and copy requests: every 64 bit count and every failure pattern; zeroed/copied/filled contents: up to 8 elements',
        assumptions=['posix_memalign, malloc, calloc, free and the CUDA/HIP runtime behave as documented: they may fail at any call, fail above '
                     'PTRDIFF_MAX bytes, and otherwise return a block of at least the requested size and alignment']))
