"""C16: the C interfaces on top of the base API (the generic macros v*(..., type) and the C11 nsimd_*(...) selections)
dispatch to the right function of the right type."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, cxxb, driver, specs, stage as stg, sym as S
from lib.driver import Group

C05, C06, C07, C08, C09 = [importlib.import_module('checks.C%02d' % i) for i in (5, 6, 7, 8, 9)]
TYPE_ARG = {'loadu', 'loada', 'loadlu', 'loadla', 'load2u', 'load3u', 'load4u', 'load2a', 'load3a', 'load4a', 'set1', 'set1l',
            'iota', 'mask_for_loop_tail', 'gather', 'gather_linear', 'len'}


class CBuilder(cxxb.CxxBuilder):
    """form 'm': v*(…, type); form 'g': C11 _Generic selections on packs"""

    def key(self, ext, t):
        return '%s+%s' % (ext, self.form)

    def cxx(self, ext, op, t, tt, ptr_off, pconst, form):
        form = self.form
        ret, params = B.SIG[op]

        def P(ty, x=''):
            return 'nsimd_pack%s_%s_%s' % (x, ty, ext)
        decl, call, pre = [], [], []
        if ret == 'p':
            decl.append('int *o')
        elif ret != '_':
            decl.append('%s *o' % tt)
        for i, p in enumerate(params):
            if p == 'p' and pconst is not None:
                call.append(str(pconst))
                continue
            ti = 'i' + t[1:]
            if form == 'm':
                q = {'v': 'vloadu(a%d, %s)' % (i, t), 'vi': 'vloadu(a%d, %s)' % (i, ti), 'l': 'vloadlu(a%d, %s)' % (i, t)}
            else:
                q = {'v': 'nsimd_loadu(%s, a%d)' % (P(t), i), 'vi': 'nsimd_loadu(%s, a%d)' % (P(ti), i),
                     'l': 'nsimd_loadlu(%s, a%d)' % (P(t, 'l'), i)}
            if form == 'g' and p in q:
                pre.append('%s x%d = %s; ' % ({'v': P(t), 'vi': P(ti), 'l': P(t, 'l')}[p], i, q[p]))
                q = {p: 'x%d' % i}
            q = dict(q, s='*a%d' % i, p='a%d' % i).get(p)
            if p in ('*', 'c*'):
                q = 'a%d + %d' % (i, ptr_off) if ptr_off else 'a%d' % i
            call.append(q)
            decl.append({'v': 'const %s *a%d' % (t, i), 'l': 'const %s *a%d' % (t, i), 's': 'const %s *a%d' % (t, i),
                         'vi': 'const %s *a%d' % (ti, i), 'p': 'int a%d' % i, '*': '%s *a%d' % (t, i), 'c*': 'const %s *a%d' % (t, i)}[p])
        if form == 'm':
            ty = [t, tt] if op in B.NONCLOSED else [t]
            c = 'v%s(%s)' % (op, ', '.join(call + ty))
            L = 'vlen(%s)' % tt
            st = {'v': 'vstoreu(o, %s, %s);' % (c, tt), 'l': 'vstorelu(o, %s, %s);' % (c, tt)}
            X = 'nsimd_%s_v%s' % (ext, tt)
            part = 'vstoreu(o + %d * L, r.v%d, ' + tt + '); '
        else:
            to = {'l': P(tt, 'l'), 'vx2': P(tt, 'x2'), 'vx3': P(tt, 'x3'), 'vx4': P(tt, 'x4')}.get(ret, P(tt))
            ty = [to] if op in TYPE_ARG or op in B.NONCLOSED else []
            c = 'nsimd_%s(%s)' % (op, ', '.join(ty + call))
            L = 'nsimd_len(%s)' % P(tt)
            st = {'v': 'nsimd_storeu(o, %s);' % c, 'l': 'nsimd_storelu(o, %s);' % c}
            X = 'nsimd_pack'
            part = None
        if ret in st:
            body = st[ret]
        elif ret == '_':
            body = c + ';'
        elif ret in ('p', 's'):
            body = '*o = %s;' % c
        else:
            k = int(ret[2])
            if form == 'm':
                body = '%sx%d r = %s; int L = %s; ' % (X, k, c, L) + ''.join(part % (j, j) for j in range(k))
            else:
                body = 'nsimd_packx%d_%s_%s r = %s; int L = %s; ' % (k, tt, ext, c, L)
                for j in range(k):
                    body += 'nsimd_storeu(o + %d * L, r.v%d); ' % (j, j)
        sym = 'C%s_%s_%s_%s%s%s' % (form, ext, op, '%s_%s' % (tt, t) if op in B.NONCLOSED else t,
                                    '_k%d' % pconst if pconst is not None else '', '_o%d' % ptr_off if ptr_off else '')
        return 'void %s(%s) { %s }\n' % (sym, ', '.join(decl), ''.join(pre) + body), sym

    def add(self, ext, op, t, tt=None, **kw):
        c = cxxb.CxxBuilder.add(self, ext, op, t, tt, **kw)
        c.id = c.id.replace('/n1/', '/%s/' % {'m': 'macro', 'g': 'c11'}[self.form])
        c.fn = {'m': 'v', 'g': 'nsimd_'}[self.form] + op
        return c

    def groups(self):
        return [Group(k, k.split('+')[0], '#include <nsimd/nsimd-all.h>\n' + ''.join(v.values()), std='gnu11') for k, v in self.mods.items()]


def build(st, tier):
    b = CBuilder()
    exts = ['cpu', 'sse2', 'avx2', 'avx512_skylake'] if tier == 'quick' else stg.EXTS
    for form in 'mg':
        b.form = form
        for ext in exts:
            for t in B.TYPES:
                fl = B.isf(t)
                for op in [o for o in specs.INT_EW if not (fl and o == 'round_to_even')] + specs.CMP + specs.LOG2 + ['notl'] + specs.BIT2 + \
                        ['notb', 'adds', 'subs'] + (['sqrt', 'rec', 'rec11', 'rsqrt11', 'rec8', 'rsqrt8'] if fl else ['shl', 'shr', 'shra']):
                    BC.add_ew(b, ext, op, t)
                for tt in B.SAME[t]:
                    for op in ('cvt', 'reinterpret'):
                        BC.add_ew(b, ext, op, t, tt)
                C05.add(b, ext, t)
                C06.add(b, ext, t)
                C07.add(b, ext, t, lambda d, form=form, ext=ext, t=t: 'C%s_%s_load%du_%s' % (form, ext, d, t))
                C08.add(b, ext, t, tier)
                C09.add(b, ext, t)
                n = B.nl(ext, t)
                for tt in B.UPT.get(t, []):
                    b.add(ext, 'upcvt', t, tt,
                          post=lambda e, t=t, tt=tt, n=n: B.lanes(n, lambda i: specs.good('upcvt', t, tt, e.o['o'][i], [e['a0'][i]])),
                          pre=lambda e, t=t, tt=tt, n=n: [p for i in range(n) for p in specs.pre('upcvt', t, tt, [e['a0'][i]])])
                for tt in B.DOWNT.get(t, []):
                    b.add(ext, 'downcvt', t, tt,
                          post=lambda e, t=t, tt=tt, n=n: B.lanes(2 * n, lambda i: specs.good('downcvt', t, tt, e.o['o'][i], [(e['a0'] + e['a1'])[i]])),
                          pre=lambda e, t=t, tt=tt, n=n: [p for i in range(2 * n) for p in specs.pre('downcvt', t, tt, [(e['a0'] + e['a1'])[i]])])
    # whole-range and many-lane cases belong to C05 and C08
    heavy = {'gather', 'scatter', 'gather_linear', 'scatter_linear'}
    seen, cs = set(), []
    for c in b.cases:
        op = c.id.split('/')[2]
        if (op in heavy and c.id.endswith('/all')) or c.id in seen or op == 'mask_for_loop_tail' and B.nl(
                c.id.split('/')[0], c.id.split('/')[3]) > 16:
            continue
        seen.add(c.id)
        cs.append(c)
    b.cases = cs
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C16', build,
        bounds='one call; every value of every lane; the macros v*(…, type) and the C11 selections nsimd_*(…) on packs; quick: cpu, '
               'sse2, avx2, avx512_skylake; thorough: all 7 extensions; all 11 types',
        assumptions=['preconditions as in the checks of the base API (C01-C11)']))
