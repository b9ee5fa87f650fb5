"""Symbolic executor for LLVM IR: concrete control flow is followed, symbolic branches are executed on both
sides up to their post-dominator and merged; memory is a set of byte-addressed objects with bounds,
alignment and accessibility obligations."""
import sys
import z3
from . import sym as S
from . import llparse as L
from .sym import POISON, isc

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class NeverReturns(Exception):
    """every path ends in an abort"""


class BoundExceeded(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj   # object id or None (null based)
        self.off = off   # int or BV64

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class PIte:
    """pointer if-then-else"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def psame(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and S.same(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    return False


class Obj:
    __slots__ = ('id', 'name', 'size', 'align', 'base', 'b', 'access', 'ro', 'kind', 'owner', 'alive', 'arr', 'ew')

    def __init__(self, id, name, size, align, base, kind):
        self.id = id
        self.name = name
        self.size = size
        self.align = align
        self.base = base
        self.b = [None] * size
        self.access = None
        self.ro = False
        self.kind = kind
        self.owner = None
        self.alive = True
        self.arr = None     # whole-memory objects: z3 array byte offset -> element
        self.ew = 0

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.name, o.size, o.align, o.base = self.id, self.name, self.size, self.align, self.base
        o.b = list(self.b)
        o.access = self.access
        o.ro = self.ro
        o.kind = self.kind
        o.owner = owner
        o.alive = self.alive
        o.arr, o.ew = self.arr, self.ew
        return o


# byte entries: None (uninit), int, (expr, k) -> byte k of expr (BV multiple of 8 / Ptr)
class State:
    __slots__ = ('mem', 'pc', 'dead')

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def fork(self, c):
        return State(dict(self.mem), S.b_and(self.pc, c))

    def wobj(self, oid, g=None):
        o = self.mem.get(oid)
        if o is None:
            o = g[oid]
        if o.owner is not self:
            o = o.clone(self)
            self.mem[oid] = o
        return o


class Machine:
    def __init__(self, mods, max_iter=4096):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.layout = self.mods[0].layout
        self.pbits = self.layout.ptr * 8
        self.state = State({}, 1)
        self.next_base = 0x10000
        self.next_id = 1
        self.globals = {}
        self.gobjs = {}
        self.bases = {}
        self.oblig = []       # (bad condition, text)
        self.assumes = []
        self.throws = []      # path conditions of executions that end with an exception
        self.models = {}      # external function name -> callable(machine, state, inst_ty, args) -> value
        self.called = {}      # functions encoded -> #times
        self.externals = {}
        self.max_iter = max_iter
        self.steps = 0
        self.solver_time = 0.0
        self.feas_queries = 0
        self.entry_counts = {}
        self.check_uninit = True
        self.forks = 0
        self.objs_freed = []

    # ------------------------------------------------------------ memory
    def alloc(self, size, name='', align=16, kind='heap', state=None):
        st = state or self.state
        oid = self.next_id
        self.next_id += 1
        al = max(align, 1)
        base = L.align_up(self.next_base, al)
        # make the base aligned to exactly `al`, not more
        if base % (2 * al) == 0:
            base += al
        self.next_base = base + size + 4096
        o = Obj(oid, name, size, al, base, kind)
        o.owner = st
        st.mem[oid] = o
        self.bases[oid] = base
        return Ptr(oid, 0)

    def alloc_sparse(self, name, w, arr, align):
        """an object covering every byte offset, elements of w bits at multiples of w/8"""
        p = self.alloc(0, name, align)
        o = self.state.mem[p.obj]
        o.arr, o.ew = arr, w
        return p

    def _skey(self, state, o, off, n, cc, what):
        if 8 * n != o.ew:
            raise Unsupported('%s of %d bytes in whole-memory object %s' % (what, n, o.name))
        k = n.bit_length() - 1
        if k:
            lo = (off & (n - 1)) if isc(off) else S.extract(off, 0, k)
            if k == 1 and not isc(lo):
                bad = S.simp(lo == z3.BitVecVal(1, 1))
                bad = bad if isc(bad) else bad
            else:
                bad = S.b_not(S.eq(k, lo, 0))
            self.ob(state, S.b_and(cc, bad), '%s: offset in %s is not a multiple of the element size' % (what, o.name))
        return z3.BitVecVal(off, 64) if isc(off) else off

    def set_bytes(self, p, vals, w):
        """initialise object memory with a list of values of width w bits"""
        o = self.state.wobj(p.obj)
        n = w // 8
        off = p.off
        for v in vals:
            self._put(o, off, n, v)
            off += n

    def get_vals(self, state, p, count, w):
        o = state.mem[p.obj]
        n = w // 8
        return [self._get(o, p.off + i * n, n) for i in range(count)]

    def _put(self, o, off, n, v):
        if isc(v):
            for k in range(n):
                o.b[off + k] = (v >> (8 * k)) & 255
        elif v is POISON:
            for k in range(n):
                o.b[off + k] = POISON
        else:
            for k in range(n):
                o.b[off + k] = (v, k)

    def _get(self, o, off, n):
        b = o.b
        x = b[off]
        # fast path: whole term
        if type(x) is tuple and x[1] == 0:
            e = x[0]
            if isinstance(e, z3.ExprRef) and e.size() == 8 * n or isinstance(e, (Ptr, PIte, FnPtr)) and n == self.layout.ptr:
                for k in range(1, n):
                    y = b[off + k]
                    if type(y) is not tuple or y[0] is not e or y[1] != k:
                        break
                else:
                    return e
        parts = []
        i = 0
        while i < n:
            x = b[off + i]
            if x is None or x is POISON:
                return POISON
            if type(x) is int:
                parts.append((8, x))
                i += 1
                continue
            e, k = x
            if not isinstance(e, z3.ExprRef):
                # part of a pointer
                if isinstance(e, Ptr) and isc(e.off):
                    a = self.ptr_to_int(e)
                    parts.append((8, (a >> (8 * k)) & 255))
                    i += 1
                    continue
                raise Unsupported('partial pointer load')
            j = i + 1
            kk = k + 1
            while j < n:
                y = b[off + j]
                if type(y) is tuple and y[0] is e and y[1] == kk:
                    j += 1
                    kk += 1
                else:
                    break
            parts.append((8 * (kk - k), S.extract(e, 8 * k, 8 * (kk - k))))
            i = j
        return S.concat(parts)

    def ob(self, state, cond, text):
        """record: cond (under state's pc) must be impossible"""
        if isc(cond) and not cond:
            return
        c = S.b_and(state.pc, cond)
        if isc(c) and not c:
            return
        self.oblig.append((c, text))

    def resolve(self, state, p, what):
        """-> list of (cond, obj, off)"""
        if isinstance(p, PIte):
            r = []
            for c, q in ((p.c, p.a), (S.b_not(p.c), p.b)):
                for c2, o, off in self.resolve(state, q, what):
                    cc = S.b_and(c, c2)
                    if not (isc(cc) and not cc):
                        r.append((cc, o, off))
            return r
        if p is POISON:
            return [(1, None, 0)]
        if isc(p):
            p = self.int_to_ptr(state, p)
        if not isinstance(p, Ptr):
            raise Unsupported('%s through non-pointer %r' % (what, p))
        if p.obj is None:
            if not isc(p.off):
                raise Unsupported('%s through symbolic address %s' % (what, str(p.off)[:80]))
            return [(1, None, p.off)]
        o = state.mem.get(p.obj)
        return [(1, self.gobjs[p.obj] if o is None else o, p.off)]

    def load_bytes(self, state, p, n, cond=1, align=1, what='load'):
        """load n bytes as one value (under cond)"""
        res = None
        for c, o, off in self.resolve(state, p, what):
            cc = S.b_and(cond, c)
            if isc(cc) and not cc:
                continue
            if o is None:
                self.ob(state, cc, '%s through null/invalid pointer' % what)
                v = POISON
            else:
                v = self._load_obj(state, o, off, n, cc, align, what)
            res = v if res is None else merge_val(8 * n, c, v, res)
        return POISON if res is None else res

    def _chk(self, state, o, off, n, cc, align, what, write):
        if not o.alive:
            self.ob(state, cc, '%s: use after free of %s' % (what, o.name))
        if write and o.ro:
            self.ob(state, cc, '%s: write to read-only %s' % (what, o.name))
        if isc(off):
            so = S.sgn(self.pbits, off)
            if so < 0 or so + n > o.size:
                self.ob(state, cc, '%s: out of bounds of %s (offset %d, %d bytes, size %d)' % (what, o.name, so, n, o.size))
                return False
            if align > 1 and (o.base + so) % align:
                self.ob(state, cc, '%s: misaligned access to %s (offset %d, needs %d)' % (what, o.name, so, align))
            if o.access is not None:
                for k in range(n):
                    a = o.access[so + k]
                    if not (isc(a) and a):
                        self.ob(state, S.b_and(cc, S.b_not(a)), '%s: touches inaccessible byte %d of %s' % (what, so + k, o.name))
                        break
            return True
        if o.size < n:
            self.ob(state, cc, '%s: out of bounds of %s' % (what, o.name))
            return False
        self.ob(state, S.b_and(cc, z3.UGT(off, z3.BitVecVal(o.size - n, self.pbits))),
                '%s: symbolic offset out of bounds of %s' % (what, o.name))
        return True

    def _cands(self, o, off, n):
        """candidate concrete offsets for a symbolic offset"""
        step = 1
        for k in (8, 4, 2):
            if n % k == 0:
                low = S.simp(z3.Extract(k.bit_length() - 2, 0, off))
                if isc(low):
                    step = k
                    start = low
                    return range(start, o.size - n + 1, step)
        return range(0, o.size - n + 1)

    def _load_obj(self, state, o, off, n, cc, align, what):
        if not isc(off):
            off = S.simp(off)
        if o.arr is not None:
            v = S.simp(z3.Select(o.arr, self._skey(state, o, off, n, cc, what)))
            return v
        if not self._chk(state, o, off, n, cc, align, what, False):
            return POISON
        if isc(off):
            return self._get(o, S.sgn(self.pbits, off), n)
        res = None
        for k in self._cands(o, off, n):
            c = off == z3.BitVecVal(k, self.pbits)
            if o.access is not None:
                for q in range(n):
                    a = o.access[k + q]
                    if not (isc(a) and a):
                        self.ob(state, S.b_all([cc, c, S.b_not(a)]), '%s: touches inaccessible byte of %s' % (what, o.name))
                        break
            v = self._get(o, k, n)
            res = v if res is None else merge_val(8 * n, c, v, res)
        if res is None:
            return POISON
        return res

    def store_bytes(self, state, p, n, v, cond=1, align=1, what='store'):
        for c, o, off in self.resolve(state, p, what):
            cc = S.b_and(cond, c)
            if isc(cc) and not cc:
                continue
            if o is None:
                self.ob(state, cc, '%s through null/invalid pointer' % what)
                continue
            if not isc(off):
                off = S.simp(off)
            if o.arr is not None:
                key = self._skey(state, o, off, n, cc, what)
                if o.ro:
                    self.ob(state, cc, '%s: write to read-only %s' % (what, o.name))
                o = state.wobj(o.id, self.gobjs)
                if v is POISON:
                    raise Unsupported('poison stored to whole-memory object')
                na = z3.Store(o.arr, key, z3.BitVecVal(v, o.ew) if isc(v) else v)
                o.arr = na if isc(cc) else z3.If(cc, na, o.arr)
                continue
            if not self._chk(state, o, off, n, cc, align, what, True):
                continue
            o = state.wobj(o.id, self.gobjs)
            if isc(off):
                so = S.sgn(self.pbits, off)
                if not isc(cc):
                    v2 = merge_val(8 * n, cc, v, self._get(o, so, n))
                else:
                    v2 = v
                self._put(o, so, n, v2)
            else:
                for k in self._cands(o, off, n):
                    cq = S.b_and(cc, off == z3.BitVecVal(k, self.pbits))
                    if o.access is not None:
                        for q in range(n):
                            a = o.access[k + q]
                            if not (isc(a) and a):
                                self.ob(state, S.b_and(cq, S.b_not(a)), '%s: touches inaccessible byte of %s' % (what, o.name))
                                break
                    self._put(o, k, n, merge_val(8 * n, cq, v, self._get(o, k, n)))

    def padd(self, p, d):
        """pointer + integer byte displacement (width pbits)"""
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, d), self.padd(p.b, d))
        if isinstance(p, Ptr):
            return Ptr(p.obj, S.add(self.pbits, p.off, d))
        if p is POISON:
            return POISON
        if d == 0 and isc(d):
            return p
        return S.add(self.pbits, p, d)

    def load(self, state, t, p, align=1, cond=1, what='load'):
        lay = self.layout
        k = t[0]
        if k in ('i', 'f', 'p'):
            n = lay.store_size(t)
            v = self.load_bytes(state, p, n, cond, align, what)
            if k == 'i' and t[1] % 8:
                if isinstance(v, (Ptr, PIte)):
                    raise Unsupported('ptr->int load')
                return S.trunc(n * 8, v, t[1])
            if k == 'i' and isinstance(v, (Ptr, PIte)):
                return self.ptr_to_int(v)
            if k == 'p':
                return self.int_to_ptr(state, v)
            return v
        if k == 'v':
            eb = lay.bits(t[2])
            if eb % 8 == 0:
                n = eb // 8
                out = [self.load(state, t[2], self.padd(p, i * n), 1, cond, what) for i in range(t[1])]
                if align > 1:
                    self._align_ob(state, p, align, cond, what)
                return out
            n = lay.store_size(t)
            v = self.load_bytes(state, p, n, cond, align, what)
            return self.split(n * 8, v, eb, t[1])
        if k == 'a':
            n = lay.size(t[2])
            return [self.load(state, t[2], self.padd(p, i * n), 1, cond, what) for i in range(t[1])]
        if k == 's':
            offs, _ = lay.struct(t)
            return [self.load(state, e, self.padd(p, o), 1, cond, what) for e, o in zip(t[1], offs)]
        raise Unsupported('load %r' % (t,))

    def _align_ob(self, state, p, align, cond, what):
        for c, o, off in self.resolve(state, p, what):
            if o is not None and isc(off) and (o.base + off) % align:
                self.ob(state, S.b_and(cond, c), '%s: misaligned access to %s (needs %d)' % (what, o.name, align))

    def store(self, state, t, v, p, align=1, cond=1, what='store'):
        lay = self.layout
        k = t[0]
        if k in ('i', 'f', 'p'):
            n = lay.store_size(t)
            if k == 'i' and t[1] % 8:
                v = S.zext(t[1], v, n * 8)
            self.store_bytes(state, p, n, v, cond, align, what)
            return
        if v is POISON:
            v = self.poison_of(t)
        if k == 'v':
            eb = lay.bits(t[2])
            if eb % 8 == 0:
                n = eb // 8
                for i in range(t[1]):
                    self.store(state, t[2], v[i], self.padd(p, i * n), 1, cond, what)
                if align > 1:
                    self._align_ob(state, p, align, cond, what)
                return
            n = lay.store_size(t)
            x = S.concat([(eb, e) for e in v])
            self.store_bytes(state, p, n, S.zext(eb * t[1], x, n * 8), cond, align, what)
            return
        if k == 'a':
            n = lay.size(t[2])
            for i in range(t[1]):
                self.store(state, t[2], v[i], self.padd(p, i * n), 1, cond, what)
            return
        if k == 's':
            offs, _ = lay.struct(t)
            for e, o, x in zip(t[1], offs, v):
                self.store(state, e, x, self.padd(p, o), 1, cond, what)
            return
        raise Unsupported('store %r' % (t,))

    def poison_of(self, t):
        if t[0] in ('v', 'a'):
            return [self.poison_of(t[2]) for _ in range(t[1])]
        if t[0] == 's':
            return [self.poison_of(e) for e in t[1]]
        return POISON

    def zero_of(self, t):
        if t[0] in ('v', 'a'):
            return [self.zero_of(t[2]) for _ in range(t[1])]
        if t[0] == 's':
            return [self.zero_of(e) for e in t[1]]
        if t[0] == 'p':
            return Ptr(None, 0)
        return 0

    def split(self, w, v, eb, n):
        if v is POISON:
            return [POISON] * n
        out = []
        for i in range(n):
            if isc(v):
                out.append((v >> (i * eb)) & S.mask(eb))
            elif eb == 1:
                out.append(S.bit(w, v, i))
            else:
                out.append(S.as_int(S.extract(v, i * eb, eb)))
        return out

    def ptr_to_int(self, p):
        if isinstance(p, PIte):
            return S.ite(self.pbits, p.c, self.ptr_to_int(p.a), self.ptr_to_int(p.b))
        if isinstance(p, Ptr):
            if p.obj is None:
                return p.off
            base = self.state_objs_base(p.obj)
            return S.add(self.pbits, p.off, base)
        if isinstance(p, FnPtr):
            raise Unsupported('function pointer to int')
        return p

    def state_objs_base(self, oid):
        return self.bases[oid]

    def int_to_ptr(self, state, v):
        if isinstance(v, (Ptr, PIte, FnPtr)) or v is POISON:
            return v
        if not isc(v):
            v = S.simp(v)
        if isc(v):
            if v == 0:
                return Ptr(None, 0)
            for o in list(state.mem.values()) + list(self.gobjs.values()):
                if o.base <= v <= o.base + o.size:
                    return Ptr(o.id, v - o.base)
            return Ptr(None, v)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return PIte(v.arg(0), self.int_to_ptr(state, S.as_int(v.arg(1))), self.int_to_ptr(state, S.as_int(v.arg(2))))
        # base + expr: find a numeral addend that is an object address
        if z3.is_app_of(v, z3.Z3_OP_BADD):
            for i in range(v.num_args()):
                k = v.arg(i)
                if z3.is_bv_value(k):
                    q = self.int_to_ptr(state, k.as_long())
                    if q.obj is not None:
                        rest = [v.arg(j) for j in range(v.num_args()) if j != i]
                        s = rest[0]
                        for r in rest[1:]:
                            s = s + r
                        return Ptr(q.obj, S.add(self.pbits, q.off, s))
        return Ptr(None, v)      # some address outside every known object: usable as a value only

    # ------------------------------------------------------------ globals / constants
    def global_ptr(self, state, name):
        if name in self.globals:
            oid = self.globals[name]
            return Ptr(oid, 0)
        for m in self.mods:
            if name in m.ftext:
                return FnPtr(name)
        mm = None
        for m in self.mods:
            if name in m.gtext and not m.gtext[name].startswith('external'):
                mm = m
                break
        if mm is None:
            for m in self.mods:
                if name in m.decls:
                    return FnPtr(name)
            if name.startswith(('_ZTV', '_ZTI')):
                # type information of the C++ run time: only its address matters
                tmp = State({}, 1)
                p = self.alloc(64, '@' + name, 16, 'global', tmp)
                self.globals[name] = p.obj
                o = tmp.mem[p.obj]
                self.bases[p.obj] = o.base
                o.ro, o.owner = True, None
                self.gobjs[p.obj] = o
                return p
            raise Unsupported('global ' + name)
        t, init, al, const = mm.globalvar(name)
        tmp = State({}, 1)
        p = self.alloc(self.layout.size(t), '@' + name, al, 'global', tmp)
        self.globals[name] = p.obj
        self.bases[p.obj] = tmp.mem[p.obj].base
        if init is not None:
            self.store(tmp, t, self.const(tmp, t, init), p)
        o = tmp.mem[p.obj]
        o.ro = bool(const)
        o.owner = None
        self.gobjs[p.obj] = o
        return p

    def const(self, state, t, c):
        k = c.kind
        if k == 'int':
            return c.val
        if k == 'zero':
            return self.zero_of(t)
        if k == 'null':
            return Ptr(None, 0)
        if k in ('undef', 'poison'):
            return self.poison_of(t)
        if k == 'agg':
            return [self.const(state, et, ev) for et, ev in c.val]
        if k == 'global':
            return self.global_ptr(state, c.val)
        if k == 'gep':
            bt, ops = c.val
            vals = [(tt, self.const(state, tt, v)) for tt, v in ops]
            return self.gep(bt, vals)
        if k == 'cast':
            op, st, sv, tt = c.val
            return self.cast(state, op, st, self.const(state, st, sv), tt)
        if k == 'bin':
            op, st, a, b = c.val
            return self.binop(state, op, st, self.const(state, st, a), self.const(state, st, b), set())
        raise Unsupported('const ' + k)

    def gep(self, bt, vals):
        p = vals[0][1]
        if isinstance(p, list):
            # vector gep
            n = len(p)
            return [self.gep(bt, [(t, v[i] if isinstance(v, list) else v) for t, v in vals]) for i in range(n)]
        for t, v in vals[1:]:
            if isinstance(v, list):
                n = len(v)
                return [self.gep(bt, [(tt, x[i] if isinstance(x, list) else x) for tt, x in vals]) for i in range(n)]
        pb = self.pbits

        def idx(t, v):
            if v is POISON:
                return POISON
            if t[1] == pb:
                return v
            if t[1] > pb:
                return S.trunc(t[1], v, pb)
            return S.sext(t[1], v, pb)
        t0, v0 = vals[1]
        off = S.mul(pb, idx(t0, v0), self.layout.size(bt))
        t = bt
        for tt, v in vals[2:]:
            if t[0] == 's':
                offs, _ = self.layout.struct(t)
                off = S.add(pb, off, offs[v])
                t = t[1][v]
            else:
                off = S.add(pb, off, S.mul(pb, idx(tt, v), self.layout.size(t[2])))
                t = t[2]
        if off is POISON:
            return POISON
        if not isc(p) and not isinstance(p, (Ptr, PIte)):
            if p is POISON:
                return POISON
            raise Unsupported('gep on %r' % (p,))
        return self.padd(p, off)

    # ------------------------------------------------------------ values
    def val(self, state, env, t, v):
        if type(v) is L.Local:
            return env[v.name]
        if v.kind == 'int':
            return v.val
        return self.const(state, t, v)

    def ew(self, t):
        return self.layout.bits(t)

    def binop(self, state, op, t, a, b, flags):
        if t[0] == 'v':
            return [self.binop1(state, op, t[2], x, y) for x, y in zip(a, b)]
        return self.binop1(state, op, t, a, b)

    def binop1(self, state, op, t, a, b):
        w = self.layout.bits(t)
        if isinstance(a, (Ptr, PIte)):
            a = self.ptr_to_int(a)
        if isinstance(b, (Ptr, PIte)):
            b = self.ptr_to_int(b)
        if op == 'add':
            return S.add(w, a, b)
        if op == 'sub':
            return S.sub(w, a, b)
        if op == 'mul':
            return S.mul(w, a, b)
        if op == 'and':
            return S.and_(w, a, b)
        if op == 'or':
            return S.or_(w, a, b)
        if op == 'xor':
            return S.xor(w, a, b)
        if op == 'shl':
            return S.shl(w, a, b, True)
        if op == 'lshr':
            return S.lshr(w, a, b, True)
        if op == 'ashr':
            return S.ashr(w, a, b, True)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if b is POISON or a is POISON:
                return POISON
            self.ob(state, S.eq(w, b, 0), 'integer division by zero')
            if op[0] == 's':
                self.ob(state, S.b_and(S.eq(w, b, S.mask(w)), S.eq(w, a, 1 << (w - 1))), 'signed division overflow')
            return {'udiv': S.udiv, 'sdiv': S.sdiv, 'urem': S.urem, 'srem': S.srem}[op](w, a, b)
        if op == 'fadd':
            return S.fadd(w, a, b)
        if op == 'fsub':
            return S.fsub(w, a, b)
        if op == 'fmul':
            return S.fmul(w, a, b)
        if op == 'fdiv':
            return S.fdiv(w, a, b)
        if op == 'frem':
            return S.uf('fp!frem:%d' % w, [(w, a), (w, b)], w)
        raise Unsupported(op)

    def cast(self, state, op, st, v, t):
        if op == 'bitcast':
            return self.bitcast(state, st, v, t)
        if st[0] == 'v':
            return [self.cast1(state, op, st[2], x, t[2]) for x in v]
        return self.cast1(state, op, st, v, t)

    def cast1(self, state, op, st, v, t):
        if op == 'ptrtoint':
            self.cur = state
            x = self.ptr_to_int(v)
            if x is POISON:
                return x
            return S.trunc(self.pbits, x, t[1]) if t[1] <= self.pbits else S.zext(self.pbits, x, t[1])
        if op == 'inttoptr':
            return self.int_to_ptr(state, v if st[1] == self.pbits else S.zext(st[1], v, self.pbits))
        if v is POISON:
            return POISON
        w = self.layout.bits(st)
        w2 = self.layout.bits(t)
        if op == 'trunc':
            return S.trunc(w, v, w2)
        if op == 'zext':
            return S.zext(w, v, w2)
        if op == 'sext':
            return S.sext(w, v, w2)
        if op in ('fpext', 'fptrunc'):
            return S.fcvt(w, v, w2)
        if op == 'sitofp':
            return S.sitofp(w, v, w2)
        if op == 'uitofp':
            return S.uitofp(w, v, w2)
        if op == 'fptosi':
            return S.fptosi(w, v, w2)
        if op == 'fptoui':
            return S.fptoui(w, v, w2)
        raise Unsupported(op)

    def bitcast(self, state, st, v, t):
        sv, tv = st[0] == 'v', t[0] == 'v'
        if st == t:
            return v
        lay = self.layout
        if sv and tv:
            eb, eb2 = lay.bits(st[2]), lay.bits(t[2])
            if eb == eb2:
                return v
            if eb < eb2:
                k = eb2 // eb
                if eb2 % eb == 0:
                    return [S.concat([(eb, v[i * k + j]) for j in range(k)]) for i in range(t[1])]
            elif eb % eb2 == 0:
                out = []
                k = eb // eb2
                for x in v:
                    out += self.split(eb, x, eb2, k)
                return out
            whole = S.concat([(eb, x) for x in v])
            return self.split(eb * st[1], whole, eb2, t[1])
        if sv:
            eb = lay.bits(st[2])
            return S.concat([(eb, x) for x in v])
        if tv:
            return self.split(lay.bits(st), v, lay.bits(t[2]), t[1])
        return v

    def icmp(self, state, pred, t, a, b):
        if t[0] == 'v':
            return [self.icmp(state, pred, t[2], x, y) for x, y in zip(a, b)]
        w = self.layout.bits(t)
        if t[0] == 'p':
            if a is POISON or b is POISON:
                return POISON
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                r = int(psame(a, b))
                return r if pred == 'eq' else 1 - r
            self.cur = state
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return S.ICMP[pred](w, a.off, b.off)
            a, b = self.ptr_to_int(a), self.ptr_to_int(b)
        elif isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            self.cur = state
            a, b = self.ptr_to_int(a), self.ptr_to_int(b)
        return S.ICMP[pred](w, a, b)

    # ------------------------------------------------------------ feasibility
    def feasible(self, state, c):
        import time
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 5000)
        for a in self.assumes:
            s.add(a)
        pc = S.b_and(state.pc, c)
        if isc(pc):
            return bool(pc)
        s.add(pc)
        r = s.check()
        if r == z3.sat and S.apps([pc]):
            # uninterpreted FP: allow IEEE definitions to rule the path out
            cs, _ = S.fp_defs([pc] + self.assumes)
            s.add(*cs)
            r2 = s.check()
            if r2 == z3.unsat:
                r = r2
        self.solver_time += time.time() - t0
        self.feas_queries += 1
        return r != z3.unsat

    # ------------------------------------------------------------ execution
    def lookup(self, name):
        for m in self.mods:
            if name in m.ftext:
                return m.func(name)
        return None

    def call(self, name, args, state=None):
        """entry point: run function `name` with argument values on the machine state"""
        st = state or self.state
        self.cur = st
        for o in st.mem.values():
            self.bases[o.id] = o.base
        f = self.lookup(name)
        if f is None:
            raise Unsupported('no function ' + name)
        r, st2 = self.run_func(f, args, st)
        if st2 is None:
            raise NeverReturns('function %s never returns' % name)
        self.state = st2
        return r

    def run_func(self, f, args, st):
        self.called[f.name] = self.called.get(f.name, 0) + 1
        env = {}
        for (t, nm, byval), a in zip(f.params, args):
            if byval is not None:
                n = self.layout.size(byval)
                q = self.alloc(n, 'byval', 16, 'stack', st)
                self.bases[q.obj] = st.mem[q.obj].base
                v = self.load(st, byval, a)
                self.store(st, byval, v, q)
                a = q
            env[nm] = a
        L.compute_ipdom(f)
        fr = Frame(f)
        res = self.run(fr, f.entry, None, env, st, None)
        if res is None:
            return None, None
        env, st = res
        return env.get('<ret>'), st

    def enter(self, fr, bb, prev, env, st):
        """evaluate phis of block bb for edge prev->bb"""
        phis = fr.f.blocks[bb].phis
        if phis:
            vals = [self.val(st, env, p.ty, p.a[prev]) for p in phis]
            for p, v in zip(phis, vals):
                env[p.res] = v

    def run(self, fr, bb, prev, env, st, stop):
        """execute from block bb (phis already evaluated unless prev given) until `stop` (or function exit).
        returns (env, state) or None if no execution reaches it"""
        f = fr.f
        if prev is not None:
            self.enter(fr, bb, prev, env, st)
        while True:
            if bb == stop:
                return env, st
            b = f.blocks[bb]
            fr.visits[bb] = fr.visits.get(bb, 0) + 1
            if fr.visits[bb] > self.max_iter:
                x = BoundExceeded('%s block %s executed more than %d times' % (f.name, bb, self.max_iter))
                x.pc = st.pc
                raise x
            for ins in b.insts:
                r = self.step(fr, ins, env, st)
                if r is DEAD:
                    return None
            t = b.term
            op = t.op
            if op == 'ret':
                if t.a[0] is not None:
                    env['<ret>'] = self.val(st, env, t.ty, t.a[0])
                    env['<retty>'] = t.ty
                return (env, st) if stop is None else self._early(fr, env, st)
            if op == 'br':
                nb = t.a[0]
                self.enter(fr, nb, bb, env, st)
                bb = nb
                continue
            if op == 'unreachable':
                self.ob(st, 1, 'reached unreachable in %s' % f.name)
                return None
            if op == 'invoke':
                ins = L.Inst('call', t.res, t.ty, (t.a[0], t.a[1]), t.text)
                if self.step(fr, ins, env, st) is DEAD:
                    return None
                nb = t.a[2]
                self.enter(fr, nb, bb, env, st)
                bb = nb
                continue
            if op == 'condbr':
                c = self.val(st, env, L.I1, t.a[0])
                if c is POISON:
                    self.ob(st, 1, 'branch on undefined value in %s' % f.name)
                    return None
                if not isc(c):
                    c = S.simp(c)
                if isc(c):
                    nb = t.a[1] if c else t.a[2]
                    self.enter(fr, nb, bb, env, st)
                    bb = nb
                    continue
                targets = [(c, t.a[1]), (S.b_not(c), t.a[2])]
            elif op == 'switch':
                ty, v, d, cases = t.a
                v = self.val(st, env, ty, v)
                if v is POISON:
                    self.ob(st, 1, 'switch on undefined value')
                    return None
                v = S.simp(v)
                if isc(v):
                    nb = d
                    for cv, cb in cases:
                        if cv == v:
                            nb = cb
                            break
                    self.enter(fr, nb, bb, env, st)
                    bb = nb
                    continue
                targets = []
                rest = 1
                by = {}
                w = ty[1]
                for cv, cb in cases:
                    e = S.eq(w, v, cv)
                    by[cb] = S.b_or(by.get(cb, 0), e)
                    rest = S.b_and(rest, S.b_not(e))
                by[d] = S.b_or(by.get(d, 0), rest)
                targets = [(cc, nb) for nb, cc in by.items()]
            else:
                raise Unsupported('terminator ' + op)
            # symbolic multi-way branch: run each side to the post-dominator and merge
            P = f.ipdom[bb]
            if stop is not None and P is None:
                # region may leave through a return; run to function exit
                pass
            self.forks += 1
            loop = fr.visits[bb] > 1
            results = []
            for c, nb in targets:
                if loop and not self.feasible(st, c):
                    continue
                s2 = st.fork(c)
                e2 = dict(env)
                r = self.run(fr, nb, bb, e2, s2, P)
                if r is not None:
                    results.append((c, r))
            if not results:
                return None
            env, st = self.merge(fr, results, st.pc)
            if P is None:
                # reached function exit on every side
                return (env, st) if stop is None else self._early(fr, env, st)
            bb = P

    def _early(self, fr, env, st):
        raise Unsupported('return inside a region with a post-dominator (%s)' % fr.f.name)

    def merge(self, fr, results, pc):
        c, (env, st) = results[-1]
        if len(results) == 1:
            return env, st
        for c, (e1, s1) in reversed(results[:-1]):
            # c selects e1/s1 over env/st
            types = fr.types
            out = {}
            for k, v1 in e1.items():
                if k == '<retty>':
                    out[k] = v1
                    continue
                if k not in env:
                    continue
                v2 = env[k]
                if v1 is v2:
                    out[k] = v1
                    continue
                t = e1['<retty>'] if k == '<ret>' else types.get(k)
                if t is None:
                    continue
                out[k] = self.merge_typed(t, c, v1, v2)
            env = out
            st = self.merge_state(c, s1, st)
        st.pc = S.simp(S.b_any([r[1][1].pc for r in results])) if len(results) > 0 else pc
        # keep the pc small when both sides survive
        if len(results) == 2 and self._compl(results, pc):
            st.pc = pc
        return env, st

    def _compl(self, results, pc):
        # both sides reached the join: join pc equals the fork pc unless a side lost paths inside
        for c, (e, s) in results:
            if not getattr_lost(s):
                pass
        return all(S.same(s.pc, S.b_and(pc, c)) for c, (e, s) in results)

    def merge_typed(self, t, c, a, b):
        if t[0] in ('v', 'a'):
            return [self.merge_typed(t[2], c, x, y) for x, y in zip(a, b)]
        if t[0] == 's':
            return [self.merge_typed(e, c, x, y) for e, x, y in zip(t[1], a, b)]
        return merge_val(self.layout.bits(t), c, a, b)

    def merge_state(self, c, s1, s2):
        out = State({}, 0)
        for oid in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(oid), s2.mem.get(oid)
            if oid in self.gobjs:
                a = a or self.gobjs[oid]
                b = b or self.gobjs[oid]
            if a is None or b is None:
                out.mem[oid] = a or b
                continue
            if a is b:
                out.mem[oid] = a
                continue
            o = a.clone(out)
            if a.alive != b.alive:
                o.alive = a.alive and b.alive
            if a.arr is not None and not a.arr.eq(b.arr):
                o.arr = b.arr if isc(c) and not c else a.arr if isc(c) else z3.If(c, a.arr, b.arr)
            i = 0
            n = o.size
            while i < n:
                x, y = a.b[i], b.b[i]
                if x is y or (type(x) is int and type(y) is int and x == y) or \
                   (type(x) is tuple and type(y) is tuple and x[1] == y[1] and (x[0] is y[0])):
                    i += 1
                    continue
                # run length: widest term starting here
                ln = 1
                for z in (x, y):
                    if type(z) is tuple and z[1] == 0:
                        sz = z[0].size() // 8 if isinstance(z[0], z3.ExprRef) else self.layout.ptr
                        if sz <= 16:
                            ln = max(ln, min(sz, n - i))
                va, vb = self._get(a, i, ln), self._get(b, i, ln)
                if va is POISON and vb is POISON and ln > 1:
                    ln = 1
                    va, vb = self._get(a, i, 1), self._get(b, i, 1)
                if (va is POISON) != (vb is POISON) and ln > 1:
                    ln = 1
                    va, vb = self._get(a, i, 1), self._get(b, i, 1)
                self._put(o, i, ln, merge_val(8 * ln, c, va, vb))
                i += ln
            out.mem[oid] = o
        return out

    def step(self, fr, ins, env, st):
        op = ins.op
        self.steps += 1
        V = self.val
        if op == 'load':
            p = V(st, env, L.PTR, ins.a[0])
            r = self.load(st, ins.ty, p, ins.a[1])
        elif op == 'store':
            v = V(st, env, ins.ty, ins.a[0])
            p = V(st, env, L.PTR, ins.a[1])
            self.store(st, ins.ty, v, p, ins.a[2])
            return
        elif op == 'getelementptr':
            r = self.gep(ins.a[0], [(t, V(st, env, t, v)) for t, v in ins.a[1]])
        elif op in L.BIN:
            r = self.binop(st, op, ins.ty, V(st, env, ins.ty, ins.a[0]), V(st, env, ins.ty, ins.a[1]), ins.a[2])
        elif op == 'icmp':
            r = self.icmp(st, ins.a[0], ins.ty, V(st, env, ins.ty, ins.a[1]), V(st, env, ins.ty, ins.a[2]))
            fr.types[ins.res] = ('v', ins.ty[1], L.I1) if ins.ty[0] == 'v' else L.I1
            env[ins.res] = r
            return
        elif op == 'fcmp':
            a, b = V(st, env, ins.ty, ins.a[1]), V(st, env, ins.ty, ins.a[2])
            if ins.ty[0] == 'v':
                w = self.layout.bits(ins.ty[2])
                r = [S.fcmp(ins.a[0], w, x, y) for x, y in zip(a, b)]
                fr.types[ins.res] = ('v', ins.ty[1], L.I1)
            else:
                r = S.fcmp(ins.a[0], self.layout.bits(ins.ty), a, b)
                fr.types[ins.res] = L.I1
            env[ins.res] = r
            return
        elif op in L.CAST:
            r = self.cast(st, op, ins.a[0], V(st, env, ins.a[0], ins.a[1]), ins.ty)
        elif op == 'select':
            ct, c, a, b = ins.a
            c = V(st, env, ct, c)
            a = V(st, env, ins.ty, a)
            b = V(st, env, ins.ty, b)
            if ct[0] == 'v':
                w = self.layout.bits(ins.ty[2])
                r = [merge_val(w, x, y, z) for x, y, z in zip(c, a, b)]
            elif isc(c):
                r = a if c else b
            elif c is POISON:
                r = self.poison_of(ins.ty)
            else:
                r = self.merge_typed(ins.ty, c, a, b)
        elif op == 'extractelement':
            vt, v, it, i = ins.a
            v = V(st, env, vt, v)
            i = S.simp(V(st, env, it, i))
            if isc(i):
                r = v[i] if i < len(v) else POISON
            elif i is POISON:
                r = POISON
            else:
                w = self.layout.bits(vt[2])
                r = v[-1]
                for k in range(len(v) - 2, -1, -1):
                    r = merge_val(w, S.eq(it[1], i, k), v[k], r)
                r = merge_val(w, S.ult(it[1], i, len(v)), r, S.fresh(w, 'eepoison'))
        elif op == 'insertelement':
            v, e, it, i = ins.a
            v = list(V(st, env, ins.ty, v))
            e = V(st, env, ins.ty[2], e)
            i = S.simp(V(st, env, it, i))
            if isc(i):
                if i < len(v):
                    v[i] = e
                else:
                    v = self.poison_of(ins.ty)
            else:
                w = self.layout.bits(ins.ty[2])
                v = [merge_val(w, S.eq(it[1], i, k), e, x) for k, x in enumerate(v)]
            r = v
        elif op == 'shufflevector':
            vt, a, b, m, mt = ins.a
            a = V(st, env, vt, a)
            b = V(st, env, vt, b)
            ab = list(a) + list(b)
            if m.kind == 'zero':
                idx = [0] * mt[1]
            elif m.kind in ('undef', 'poison'):
                idx = [None] * mt[1]
            else:
                idx = [x[1].val if x[1].kind == 'int' else None for x in m.val]
            r = [POISON if k is None else ab[k] for k in idx]
        elif op == 'alloca':
            cnt, al = ins.a
            n = 1
            if cnt is not None:
                n = S.simp(V(st, env, cnt[0], cnt[1]))
                if not isc(n):
                    raise Unsupported('symbolic alloca')
            r = self.alloc(self.layout.size(ins.ty) * n, fr.f.name + ':' + ins.res, al, 'stack', st)
            self.bases[r.obj] = st.mem[r.obj].base
            fr.types[ins.res] = L.PTR
            env[ins.res] = r
            return
        elif op == 'fneg':
            v = V(st, env, ins.ty, ins.a[0])
            if ins.ty[0] == 'v':
                w = self.layout.bits(ins.ty[2])
                r = [S.fneg(w, x) for x in v]
            else:
                r = S.fneg(self.layout.bits(ins.ty), v)
        elif op == 'freeze':
            v = V(st, env, ins.ty, ins.a[0])
            r = self.freeze(ins.ty, v)
        elif op == 'extractvalue':
            v, idx = ins.a
            v = V(st, env, ins.ty, v)
            t = ins.ty
            for k in idx:
                v = v[k]
                t = t[1][k] if t[0] == 's' else t[2]
            fr.types[ins.res] = t
            env[ins.res] = v
            return
        elif op == 'insertvalue':
            v, et, e, idx = ins.a
            r = self.insval(V(st, env, ins.ty, v), V(st, env, et, e), idx)
        elif op == 'call':
            callee, args = ins.a
            r = self.do_call(fr, ins, callee, args, env, st)
            if r is DEAD:
                return DEAD
            if ins.res is None:
                return
        else:
            raise Unsupported('instruction ' + ins.text)
        fr.types[ins.res] = ins.ty
        env[ins.res] = r

    def freeze(self, t, v):
        if isinstance(v, list):
            if t[0] == 's':
                return [self.freeze(e, x) for e, x in zip(t[1], v)]
            return [self.freeze(t[2], x) for x in v]
        if v is POISON:
            return S.fresh(self.layout.bits(t), 'frozen')
        return v

    def insval(self, v, e, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insval(v[idx[0]], e, idx[1:])
        return v

    def do_call(self, fr, ins, callee, args, env, st):
        if isinstance(callee, L.Local):
            fp = env[callee.name]
            if not isinstance(fp, FnPtr):
                raise Unsupported('indirect call')
            callee = fp.name
        if callee in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.assume', 'llvm.donothing',
                      'llvm.experimental.noalias.scope.decl', 'llvm.dbg.value', 'llvm.dbg.declare',
                      'llvm.prefetch.p0', 'llvm.invariant.start.p0', 'llvm.invariant.end.p0'):
            return None
        vals = [self.val(st, env, t, v) if v is not None else None for t, v in args]
        tys = [t for t, v in args]
        m = self.models.get(callee)
        if m is not None:
            self.externals[callee] = self.externals.get(callee, 0) + 1
            return m(self, st, ins.ty, vals, tys)
        f = self.lookup(callee)
        if f is not None:
            r, st2 = self.run_func(f, vals, st)
            if st2 is None:
                return DEAD
            if st2 is not st:
                # adopt merged state in place
                st.mem = st2.mem
                for oid, o in list(st.mem.items()):
                    if o.owner is st2:
                        o.owner = st
                st.pc = st2.pc
            return r
        if callee == '__cxa_throw' or callee.startswith('_ZSt') and '__throw_' in callee:
            self.throws.append(st.pc)
            return DEAD
        if callee in ('__assert_fail', 'abort'):
            self.ob(st, 1, 'assertion failure' if callee != 'abort' else 'abort')
            return DEAD
        from . import intrin
        r = intrin.call(self, st, callee, ins.ty, vals, tys)
        return r


def getattr_lost(s):
    return False


class _Dead:
    pass


DEAD = _Dead()


class Frame:
    def __init__(self, f):
        self.f = f
        self.visits = {}
        self.types = {p[1]: p[0] for p in f.params}
        for b in f.blocks.values():
            for p in b.phis:
                self.types[p.res] = p.ty


def merge_val(w, c, a, b):
    """if c then a else b, for scalars/pointers/poison"""
    if isc(c):
        return a if c else b
    if a is b:
        return a
    if c is POISON:
        return POISON
    pa, pb = isinstance(a, (Ptr, PIte, FnPtr)), isinstance(b, (Ptr, PIte, FnPtr))
    if pa or pb:
        if pa and pb:
            if psame(a, b):
                return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, S.ite(64 if w < 8 else w, c, a.off, b.off))
            return PIte(c, a, b)
        if a is POISON:
            return b
        if b is POISON:
            return a
        if isc(a):
            return PIte(c, Ptr(None, a), b)
        if isc(b):
            return PIte(c, a, Ptr(None, b))
        raise Unsupported('merge pointer with integer')
    if a is POISON:
        if b is POISON:
            return POISON
        a = S.fresh(w, 'mpoison')
    if b is POISON:
        b = S.fresh(w, 'mpoison')
    return S.ite(w, c, a, b)
