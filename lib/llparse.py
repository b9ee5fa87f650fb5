"""Parser for textual LLVM 18 IR (the subset clang emits for nsimd).

A module is split textually; each function is parsed on first use."""
import re
import struct

# ---------------------------------------------------------------- types
# ('i',n) ('f','half'|'float'|'double') ('p',) ('v',n,t) ('a',n,t) ('s',[t],packed) ('void',)
VOID = ('void',)
PTR = ('p',)
I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
FBITS = {'half': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'bfloat': 16}


def align_up(x, a):
    return (x + a - 1) // a * a


class Layout:
    """Data layout: little-endian; pointer size is configurable."""

    def __init__(self, ptr_bits=64):
        self.ptr = ptr_bits // 8

    def bits(self, t):
        k = t[0]
        if k == 'i':
            return t[1]
        if k == 'f':
            return FBITS[t[1]]
        if k == 'p':
            return self.ptr * 8
        if k == 'v':
            return t[1] * self.bits(t[2])
        return self.size(t) * 8

    def align(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == 'f':
            return 16 if t[1] == 'x86_fp80' else FBITS[t[1]] // 8
        if k == 'p':
            return self.ptr
        if k == 'v':
            n = (self.bits(t) + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return a
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            if t[2]:
                return 1
            return max([self.align(e) for e in t[1]] or [1])
        raise Exception('align %r' % (t,))

    def store_size(self, t):
        k = t[0]
        if k in 'ifpv' and len(k) == 1:
            return (self.bits(t) + 7) // 8
        return self.size(t)

    def size(self, t):
        """alloc size"""
        k = t[0]
        if k in ('i', 'f', 'p', 'v'):
            return align_up((self.bits(t) + 7) // 8, self.align(t))
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 's':
            return self.struct(t)[1]
        raise Exception('size %r' % (t,))

    def struct(self, t):
        off = 0
        offs = []
        for e in t[1]:
            if not t[2]:
                off = align_up(off, self.align(e))
            offs.append(off)
            off += self.size(e)
        if not t[2]:
            off = align_up(off, self.align(t))
        return offs, off


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w$.]+))
 | (?P<glob>@(?:"[^"]*"|[-\w$.]+))
 | (?P<meta>!(?:[-\w$.]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d*(?:e[-+]?\d+)?|0x[HKLMR]?[0-9a-fA-F]+|-?\d+)
 | (?P<id>[a-zA-Z_$.][-\w$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*|:])
 )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        if s[i] == ';':
            break
        g = m(s, i)
        if not g:
            rest = s[i:].strip()
            if not rest or rest[0] == ';':
                break
            raise SyntaxError('tokenize: %r in %r' % (s[i:i + 40], s))
        out.append((g.lastgroup, g.group(g.lastgroup)))
        i = g.end()
    return out


class Const:
    """kinds: int, zero, undef, poison, null, agg(list of (type, operand)), global, gep, cast"""
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val=None):
        self.kind = kind
        self.val = val

    def __repr__(self):
        return 'Const(%s,%r)' % (self.kind, self.val)


class Local:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


SKIP_ATTR = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
    'writeonly', 'returned', 'immarg', 'nofree', 'swiftself', 'nest', 'noext', 'dead_on_unwind', 'writable',
    'allocptr', 'allocalign', 'nofpclass',
}


class P:
    """Token-stream parser for one line."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def pv(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %r at %r of %r' % (v, self.t[self.i:self.i + 5], ' '.join(x[1] for x in self.t)))

    # ---- types
    def type(self):
        k, v = self.next()
        if v == '<':
            if self.pv() == '{':
                self.next()
                el = []
                while not self.accept('}'):
                    el.append(self.type())
                    self.accept(',')
                self.expect('>')
                t = ('s', tuple(el), True)
            else:
                sc = False
                if self.pv() == 'vscale':
                    self.next()
                    self.expect('x')
                    sc = True
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('v', n, e)
                if sc:
                    t = ('vs', n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '{':
            el = []
            while not self.accept('}'):
                el.append(self.type())
                self.accept(',')
            t = ('s', tuple(el), False)
        elif v == 'ptr':
            t = PTR
            if self.accept('addrspace'):
                self.expect('(')
                self.next()
                self.expect(')')
        elif v == 'void':
            t = VOID
        elif v in FBITS:
            t = ('f', v)
        elif v in ('label', 'metadata', 'token'):
            t = (v,)
        elif k == 'loc':
            t = self.mod.named_type(v)
        elif k == 'id' and re.fullmatch(r'i\d+', v):
            t = ('i', int(v[1:]))
        elif k == 'id' and v == 'opaque':
            t = ('s', (), False)
        else:
            raise SyntaxError('type? %r in %r' % (v, ' '.join(x[1] for x in self.t)))
        # function types
        if self.pv() == '(' and t[0] != 'label' and self.mod.allow_fnty:
            pass
        return t

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'id' and v in SKIP_ATTR:
                self.next()
                if v == 'nofpclass':
                    self.skip_parens()
            elif v in ('align',):
                self.next()
                if self.pv() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'captures', 'initializes', 'range'):
                self.next()
                self.skip_parens()
            elif v in ('sret', 'byval', 'byref', 'inalloca', 'elementtype', 'preallocated'):
                self.next()
                if self.pv() == '(':
                    self.skip_parens()
            else:
                return

    def skip_parens(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    # ---- values
    def value(self, t):
        k, v = self.next()
        if k == 'loc':
            return Local(v)
        if k == 'glob':
            return Const('global', v[1:].strip('"'))
        if k == 'num':
            if t[0] == 'i':
                return Const('int', int(v) & ((1 << t[1]) - 1))
            if t[0] == 'f':
                return Const('int', fpconst(v, t[1]))
            raise SyntaxError('num for %r' % (t,))
        if k == 'str':
            b = parse_cstr(v)
            return Const('agg', [(I8, Const('int', x)) for x in b])
        if v == 'true':
            return Const('int', 1)
        if v == 'false':
            return Const('int', 0)
        if v == 'null':
            return Const('null')
        if v in ('zeroinitializer', 'none'):
            return Const('zero')
        if v == 'undef':
            return Const('undef')
        if v == 'poison':
            return Const('poison')
        if v == '<' and self.pv() == '{':
            self.next()
            r = self.agg('}')
            self.expect('>')
            return r
        if v == '<':
            return self.agg('>')
        if v == '[':
            return self.agg(']')
        if v == '{':
            return self.agg('}')
        if v == 'splat':
            self.expect('(')
            et = self.type()
            ev = self.value(et)
            self.expect(')')
            return Const('agg', [(et, ev)] * t[1])
        if v == 'getelementptr':
            while self.pv() in ('inbounds', 'nuw', 'nusw') or self.pv() == 'inrange':
                x = self.next()[1]
                if x == 'inrange' and self.pv() == '(':
                    self.skip_parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                if self.accept('inrange'):
                    pass
                tt = self.type()
                ops.append((tt, self.value(tt)))
                if not self.accept(','):
                    break
            self.expect(')')
            return Const('gep', (bt, ops))
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            sv = self.value(st)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return Const('cast', (v, st, sv, tt))
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while self.pv() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            st = self.type()
            a = self.value(st)
            self.expect(',')
            st2 = self.type()
            b = self.value(st2)
            self.expect(')')
            return Const('bin', (v, st, a, b))
        raise SyntaxError('value? %r in %r' % (v, ' '.join(x[1] for x in self.t)))

    def agg(self, close):
        el = []
        while not self.accept(close):
            t = self.type()
            el.append((t, self.value(t)))
            self.accept(',')
        return Const('agg', el)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        if t[0] == 'metadata':
            d = 0
            while self.i < len(self.t):
                v = self.pv()
                if v in ('(', '{'):
                    d += 1
                elif v in (')', '}'):
                    if d == 0:
                        break
                    d -= 1
                elif v == ',' and d == 0:
                    break
                self.next()
            return t, None
        return t, self.value(t)


def parse_cstr(v):
    s = v[v.index('"') + 1:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def fpconst(v, ty):
    if v.startswith('0xH'):
        return int(v[3:], 16)
    if v.startswith('0xR'):
        return int(v[3:], 16)
    if v.startswith('0xK'):
        return int(v[3:], 16)
    if v.startswith('0x'):
        bits = int(v, 16)
        if ty == 'double':
            return bits
        d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        if ty == 'float':
            if d != d:
                # keep sign / quiet / top payload
                return ((bits >> 63) << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff)
            return struct.unpack('<I', struct.pack('<f', d))[0]
        raise SyntaxError(v)
    d = float(v)
    if ty == 'double':
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    if ty == 'float':
        return struct.unpack('<I', struct.pack('<f', d))[0]
    if ty == 'half':
        return struct.unpack('<H', struct.pack('<e', d))[0]
    raise SyntaxError(v)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text=''):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.text = text


class Block:
    __slots__ = ('name', 'phis', 'insts', 'term', 'succ')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.insts = []
        self.term = None
        self.succ = []


class Func:
    def __init__(self, name, ret, params, header):
        self.name = name
        self.ret = ret
        self.params = params  # [(type, localname)]
        self.header = header
        self.blocks = {}
        self.entry = None
        self.ipdom = None


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'fast', 'nnan', 'ninf', 'nsz', 'arcp',
         'contract', 'afn', 'reassoc', 'volatile', 'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
        'inttoptr', 'bitcast', 'addrspacecast'}


class Module:
    allow_fnty = False

    def __init__(self, text, ptr_bits=64):
        self.layout = Layout(ptr_bits)
        self.ftext = {}
        self.fparsed = {}
        self.gtext = {}
        self.gparsed = {}
        self.ttext = {}
        self.tparsed = {}
        self.decls = set()
        self.aliases = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.ftext[m.group(1).strip('"')] = (i, j, lines)
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', l)
                self.gtext[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)', l)
                self.ttext[m.group(1)] = m.group(2)
            i += 1

    def named_type(self, n):
        if n not in self.tparsed:
            self.tparsed[n] = P(tokenize(self.ttext[n]), self).type()
        return self.tparsed[n]

    def globalvar(self, n):
        """-> (type, Const or None, align, constant?)"""
        if n in self.gparsed:
            return self.gparsed[n]
        s = self.gtext[n]
        p = P(tokenize(s), self)
        const = None
        ext = False
        alias = False
        while True:
            v = p.pv()
            if v == 'alias':
                alias = True
            if v in ('global', 'constant'):
                const = v == 'constant'
                p.next()
                break
            if v in ('external', 'extern_weak'):
                ext = True
            if v is None:
                raise SyntaxError('global ' + s)
            p.next()
            if v in ('thread_local', 'addrspace', 'comdat') and p.pv() == '(':
                p.skip_parens()
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
        m = re.search(r', align (\d+)', s)
        al = int(m.group(1)) if m else self.layout.align(t)
        self.gparsed[n] = (t, init, al, const)
        return self.gparsed[n]

    def func(self, n):
        if n in self.fparsed:
            return self.fparsed[n]
        i, j, lines = self.ftext[n]
        f = self._parse_func(n, lines[i:j])
        self.fparsed[n] = f
        return f

    def _parse_func(self, name, lines):
        hdr = lines[0]
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', hdr)
        pre = hdr[len('define '):m.start()]
        # return type: last type in prefix
        pt = tokenize(pre)
        # drop linkage/visibility/cc/attrs
        k = 0
        skip = {'dso_local', 'internal', 'private', 'linkonce_odr', 'weak_odr', 'weak', 'linkonce', 'available_externally',
                'hidden', 'protected', 'default', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'coldcc',
                'x86_vectorcallcc', 'tailcc', 'aarch64_vector_pcs', 'aarch64_sve_vector_pcs', 'arm_aapcs_vfpcc',
                'dso_preemptable'}
        p = P(pt, self)
        while True:
            v = p.pv()
            if v in skip:
                p.next()
            else:
                before = p.i
                p.skip_attrs()
                if p.i == before:
                    break
        ret = p.type()
        # params
        p = P(tokenize(hdr[m.end() - 1:]), self)
        p.expect('(')
        params = []
        idx = 0
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            byval = None
            while True:
                if p.pv() == 'byval':
                    p.next()
                    p.expect('(')
                    byval = p.type()
                    p.expect(')')
                else:
                    b = p.i
                    p.skip_attrs()
                    if p.i == b:
                        break
            if p.peek()[0] == 'loc':
                nm = p.next()[1]
            else:
                nm = '%%%d' % idx
            idx += 1
            params.append((t, nm, byval))
            p.accept(',')
        f = Func(name, ret, params, hdr)
        cur = None
        i = 1
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s[0] == ';':
                continue
            if not l.startswith(' '):
                mm = re.match(r'("[^"]*"|[-\w$.]+):', l)
                nm = '%' + mm.group(1)
                cur = Block(nm)
                f.blocks[nm] = cur
                if f.entry is None:
                    f.entry = nm
                continue
            if cur is None:
                # unnamed entry block
                nm = '%%%d' % idx if all(re.fullmatch(r'%\d+', q[1]) for q in params) or not params else '%entry'
                cur = Block(nm)
                f.blocks[nm] = cur
                f.entry = nm
            if s.startswith('switch ') and not s.rstrip().endswith(']'):
                while True:
                    s += ' ' + lines[i].strip()
                    i += 1
                    if lines[i - 1].strip().startswith(']'):
                        break
            if 'invoke ' in s and i < n and lines[i].strip().startswith('to label'):
                s += ' ' + lines[i].strip()
                i += 1
            ins = self.inst(s)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in ('br', 'condbr', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                cur.term = ins
                if ins.op == 'br':
                    cur.succ = [ins.a[0]]
                elif ins.op == 'condbr':
                    cur.succ = [ins.a[1], ins.a[2]]
                elif ins.op == 'switch':
                    cur.succ = [ins.a[2]] + [x[1] for x in ins.a[3]]
                elif ins.op == 'invoke':
                    cur.succ = [ins.a[2]]
            else:
                cur.insts.append(ins)
        return f

    def inst(self, s):
        toks = tokenize(s)
        p = P(toks, self)
        res = None
        if p.peek()[0] == 'loc' and p.t[1][1] == '=':
            res = p.next()[1]
            p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        flags = set()
        while p.peek()[0] == 'id' and p.pv() in FLAGS:
            flags.add(p.next()[1])
        if op in BIN:
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Inst(op, res, t, (a, b, flags), s)
        if op in ('fneg', 'freeze'):
            t = p.type()
            return Inst(op, res, t, (p.value(t),), s)
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Inst(op, res, t, (pred, a, b), s)
        if op in CAST:
            st, v = p.tv()
            p.expect('to')
            t = p.type()
            return Inst(op, res, t, (st, v), s)
        if op == 'select':
            ct, c = p.tv()
            p.expect(',')
            t, a = p.tv()
            p.expect(',')
            _, b = p.tv()
            return Inst(op, res, t, (ct, c, a, b), s)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                bb = p.next()[1]
                p.expect(']')
                inc.append((v, bb))
                if not p.accept(','):
                    break
                if p.peek()[0] == 'meta':
                    break
            return Inst(op, res, t, dict((bb, v) for v, bb in inc), s)
        if op == 'load':
            p.accept('atomic')
            while p.pv() in FLAGS:
                p.next()
            t = p.type()
            p.expect(',')
            _, ptr = p.tv()
            al = 1
            m = re.search(r', align (\d+)', s)
            if m:
                al = int(m.group(1))
            return Inst(op, res, t, (ptr, al), s)
        if op == 'store':
            p.accept('atomic')
            while p.pv() in FLAGS:
                p.next()
            t, v = p.tv()
            p.expect(',')
            _, ptr = p.tv()
            al = 1
            m = re.search(r', align (\d+)', s)
            if m:
                al = int(m.group(1))
            return Inst(op, None, t, (v, ptr, al), s)
        if op == 'alloca':
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.pv() != 'align':
                    cnt = p.tv()
            al = self.layout.align(t)
            m = re.search(r', align (\d+)', s)
            if m:
                al = int(m.group(1))
            return Inst(op, res, t, (cnt, al), s)
        if op == 'getelementptr':
            bt = p.type()
            p.expect(',')
            ops = []
            while True:
                if p.peek()[0] == 'meta':
                    break
                ops.append(p.tv())
                if not p.accept(','):
                    break
            return Inst(op, res, PTR, (bt, ops), s)
        if op == 'extractelement':
            vt, v = p.tv()
            p.expect(',')
            it, i = p.tv()
            return Inst(op, res, vt[2], (vt, v, it, i), s)
        if op == 'insertelement':
            vt, v = p.tv()
            p.expect(',')
            et, e = p.tv()
            p.expect(',')
            it, i = p.tv()
            return Inst(op, res, vt, (v, e, it, i), s)
        if op == 'shufflevector':
            vt, a = p.tv()
            p.expect(',')
            _, b = p.tv()
            p.expect(',')
            mt, m = p.tv()
            return Inst(op, res, (vt[0], mt[1], vt[2]), (vt, a, b, m, mt), s)
        if op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return Inst(op, res, t, (v, idx), s)
        if op == 'insertvalue':
            t, v = p.tv()
            p.expect(',')
            et, e = p.tv()
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return Inst(op, res, t, (v, et, e, idx), s)
        if op == 'br':
            if p.accept('label'):
                return Inst('br', None, VOID, (p.next()[1],), s)
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1]
            p.expect(',')
            p.expect('label')
            b = p.next()[1]
            return Inst('condbr', None, VOID, (c, a, b), s)
        if op == 'switch':
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            d = p.next()[1]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv.val, p.next()[1]))
            return Inst(op, None, VOID, (t, v, d, cases), s)
        if op == 'ret':
            if p.pv() == 'void':
                return Inst('ret', None, VOID, (None,), s)
            t, v = p.tv()
            return Inst('ret', None, t, (v,), s)
        if op == 'unreachable':
            return Inst(op, None, VOID, (), s)
        if op in ('call', 'invoke'):
            # cc / ret attrs
            while True:
                v = p.pv()
                if v in FLAGS or v in ('fastcc', 'ccc', 'coldcc', 'x86_vectorcallcc', 'tailcc', 'aarch64_vector_pcs',
                                       'aarch64_sve_vector_pcs', 'arm_aapcs_vfpcc'):
                    p.next()
                else:
                    b = p.i
                    p.skip_attrs()
                    if p.i == b:
                        break
            t = p.type()
            if p.pv() == '(':  # function type
                p.skip_parens()
            k, callee = p.next()
            if k == 'id' and callee == 'asm':
                return Inst('asm', res, t, (), s)
            callee = callee[1:].strip('"') if k == 'glob' else Local(callee)
            p.expect('(')
            args = []
            while not p.accept(')'):
                args.append(p.tv())
                p.accept(',')
            if op == 'invoke':
                m = re.search(r'to label (%\S+) unwind label (%\S+)', s)
                nb = None
                return Inst('invoke', res, t, (callee, args, m.group(1), m.group(2)), s)
            return Inst('call', res, t, (callee, args), s)
        if op in ('landingpad', 'cleanup', 'catch', 'filter'):
            return None
        if op == 'resume':
            return Inst('unreachable', None, VOID, (), s)
        if op in ('fence',):
            return None
        return Inst('unknown:' + op, res, None, (), s)


def compute_ipdom(f):
    """Immediate post-dominators; virtual exit is None."""
    if f.ipdom is not None:
        return f.ipdom
    names = list(f.blocks)
    EXIT = '<exit>'
    preds = {n: [] for n in names}
    preds[EXIT] = []
    succ = {}
    for n in names:
        b = f.blocks[n]
        s = list(dict.fromkeys(b.succ)) or [EXIT]
        succ[n] = s
        for x in s:
            preds[x].append(n)
    # reverse-postorder on reversed graph
    order = []
    seen = set()
    stack = [(EXIT, iter(preds[EXIT]))]
    seen.add(EXIT)
    while stack:
        n, it = stack[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                stack.append((m, iter(preds[m])))
                break
        else:
            order.append(n)
            stack.pop()
    order.reverse()
    num = {n: i for i, n in enumerate(order)}
    idom = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            new = None
            for s in succ[n]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        a, b = s, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new
                changed = True
    f.ipdom = {n: (None if idom.get(n, EXIT) == EXIT else idom[n]) for n in names}
    return f.ipdom
