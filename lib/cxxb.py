"""Builder whose wrappers go through the C++ advanced API (nsimd::pack<T, N, Ext>), so that the cases of the C base
checks can be replayed on packs of any unroll factor."""
import contextlib

from . import base as B
from .driver import Group
from .harness import Case, Int

OPER2 = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'andb': '&', 'orb': '|', 'xorb': '^', 'eq': '==', 'ne': '!=',
         'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'andl': '&&', 'orl': '||', 'shl': '<<', 'shr': '>>'}
OPER1 = {'neg': '-', 'notb': '~', 'notl': '!'}
RET_TPL = {'loadu', 'loada', 'loadlu', 'loadla', 'load2u', 'load3u', 'load4u', 'load2a', 'load3a', 'load4a', 'set1', 'set1l',
           'iota', 'mask_for_loop_tail', 'gather_linear'}
ALIGN = {'loadu': 'load', 'storeu': 'store', 'loada': 'load', 'storea': 'store'}


@contextlib.contextmanager
def unrolled(N):
    old = B.nl
    B.nl = lambda ext, t: old(ext, t) * N
    try:
        yield
    finally:
        B.nl = old


class CxxBuilder(B.Builder):
    def __init__(self, std=None, tsplit=None, variants=False):
        self.mods = {}
        self.cases = []
        self.std = std
        self.N = 1
        self.variants = variants
        self.tsplit = tsplit or (lambda t: {'8': 'a', '6': 'a', '2': 'b', '4': 'c'}[t[-1]])

    def key(self, ext, t):
        return '%s+n%d+%s' % (ext, self.N, self.tsplit(t))

    def cxx(self, ext, op, t, tt, ptr_off, pconst, form):
        ret, params = B.SIG[op]
        N = self.N
        E = 'nsimd::' + ext

        def P(ty, x=''):
            return 'nsimd::pack%s<%s, %d, %s>' % (x, ty, N, E)
        decl, call = [], []
        if ret == 'p':
            decl.append('int *o')
        elif ret != '_':
            decl.append('%s *o' % tt)
        for i, p in enumerate(params):
            q = {'v': 'nsimd::loadu<%s>(a%d)' % (P(t), i), 'vi': 'nsimd::loadu<%s>(a%d)' % (P('i' + t[1:]), i),
                 'l': 'nsimd::loadlu<%s>(a%d)' % (P(t, 'l'), i), 's': '*a%d' % i, 'p': 'a%d' % i}.get(p)
            if p == 'p' and pconst is not None:
                call.append(str(pconst))
                continue
            if p in ('*', 'c*'):
                q = 'a%d + %d' % (i, ptr_off) if ptr_off else 'a%d' % i
            call.append(q)
            decl.append({'v': 'const %s *a%d' % (t, i), 'l': 'const %s *a%d' % (t, i), 's': 'const %s *a%d' % (t, i),
                         'vi': 'const i%s *a%d' % (t[1:], i), 'p': 'int a%d' % i, '*': '%s *a%d' % (t, i),
                         'c*': 'const %s *a%d' % (t, i)}[p])
        x = {'vx2': P(tt, 'x2'), 'vx3': P(tt, 'x3'), 'vx4': P(tt, 'x4'), 'l': P(tt, 'l')}.get(ret, P(tt))
        a = ', '.join(call)
        if form == 'op':
            c = '(%s %s %s)' % (call[0], OPER2[op], call[1]) if op in OPER2 else '(%s%s)' % (OPER1[op], a)
        elif form == 'asg':
            c = '(tmp %s= %s)' % (OPER2[op], call[1])
        elif form == 'vs':
            c = '(%s %s *a1)' % (call[0], OPER2[op])
        elif form == 'sv':
            c = '(*a0 %s %s)' % (OPER2[op], call[1])
        elif form == 'al':
            al = 'aligned' if op.endswith(('a', 'a1')) else 'unaligned'
            base = op.rstrip('1')[:-1]
            if op.startswith('load'):
                c = 'nsimd::%s<%s, nsimd::%s>(%s)' % (base, x, al, a)
            else:
                c = 'nsimd::%s<nsimd::%s>(%s)' % (base, al, a)
        elif op == 'len':
            c = 'nsimd::len(%s())' % P(t)
        elif op in RET_TPL:
            c = 'nsimd::%s<%s>(%s)' % (op, x, a)
        elif op in B.NONCLOSED:
            c = 'nsimd::%s<%s>(%s)' % (op, x, a)
        else:
            c = 'nsimd::%s(%s)' % (op, a)
        if ret == 'v':
            body = 'nsimd::storeu(o, %s);' % c
        elif ret == 'l':
            body = 'nsimd::storelu(o, %s);' % c
        elif ret == '_':
            body = c + ';'
        elif ret in ('p', 's'):
            body = '*o = %s;' % c
        else:
            k = int(ret[2])
            body = '%s r = %s; int L = nsimd::len(%s()); ' % (x, c, P(tt))
            for j in range(k):
                body += 'nsimd::storeu(o + %d * L, r.v%d); ' % (j, j)
        if form == 'asg':
            body = '%s tmp = %s; ' % (P(t), call[0]) + body
        if form == 'vs':
            decl[2] = 'const %s *a1' % t
        sym = 'X_n%d_%s_%s_%s%s%s%s' % (N, ext, op, '%s_%s' % (tt, t) if op in B.NONCLOSED else t, '_' + form if form else '',
                                        '_k%d' % pconst if pconst is not None else '', '_o%d' % ptr_off if ptr_off else '')
        return 'void %s(%s) { %s }\n' % (sym, ', '.join(decl), body), sym

    def put(self, ext, t, sym, src):
        m = self.mods.setdefault(self.key(ext, t), {})
        m.setdefault(sym, src)

    def add(self, ext, op, t, tt=None, post=None, pre=None, args=None, tag='', known=None, ptr_off=0, pconst=None, form='', **kw):
        tt = tt or t
        src, sym = self.cxx(ext, op, t, tt, ptr_off, pconst, form)
        self.put(ext, t, sym, src)
        if args is None:
            args = B.std_args(ext, op, t, tt)
            if pconst is not None:
                args = [a for a in args if not isinstance(a, Int)]
        cid = '%s/n%d/%s%s/%s%s%s' % (ext, self.N, op, '.' + form if form else '', (tt + '_' + t) if op in B.NONCLOSED else t,
                                      '/k%d' % pconst if pconst is not None else '', '/' + tag if tag else '')
        self.cases.append(Case(cid, sym, args, post, pre, mod=self.key(ext, t), known=known, fn='nsimd::' + op, **kw))
        return self.cases[-1]

    def custom(self, ext, sym, src, args, post, pre=None, fn=None, cid=None, **kw):
        return None

    def own(self, ext, t, sym, src, args, post, pre=None, cid=None, **kw):
        self.put(ext, t, sym, src)
        self.cases.append(Case('%s/n%d/%s' % (ext, self.N, cid or sym), sym, args, post, pre, mod=self.key(ext, t), fn=cid or sym, **kw))

    def groups(self):
        return [Group(k, k.split('+')[0], '#include <nsimd/nsimd-all.hpp>\nextern "C" {\n' + ''.join(v.values()) + '}\n', cxx=True,
                      std=self.std) for k, v in self.mods.items()]
