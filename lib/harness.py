"""Case-based solver checking: symbolic execution of a wrapper around the real code, solver verdict, replay."""
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

import z3

from . import ac, engine, fpc, intrin, llparse, stage as stg
from . import sym as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
isc = S.isc


class Buf:
    """memory argument: n elements of w bits.
    init: 'sym' | 'zero' | 'fill' (distinctive constant) | list of ints | callable(env)->list
    kind: 'i','u','f','l' (l: logical stored as 0/1 -- symbolic elements constrained to {0, one})
    access: None or callable(env)->per-element list of bool conditions (1 = may be touched)"""

    def __init__(self, name, w, n, init='sym', kind='u', align=None, ro=True, access=None, out=False):
        self.name, self.w, self.n, self.init, self.kind = name, w, n, init, kind
        self.align = align if align else max(w // 8, 1)
        self.ro = ro and not out
        self.out = out
        self.access = access


def Out(name, w, n, kind='u', align=None, init='fill', access=None):
    return Buf(name, w, n, init, kind, align, False, access, True)


class Sparse:
    """memory argument covering all byte offsets around its address: elements of w bits at multiples of w/8.
    env value: z3 array (byte offset -> element); concretely a dict {signed byte offset: value}, 0 elsewhere"""

    def __init__(self, name, w, kind='u', out=False):
        self.name, self.w, self.kind, self.out = name, w, kind, out
        self.init = None


def sp_get(a, off):
    """element of a Sparse value at a 64-bit byte offset"""
    if isinstance(a, dict):
        o = S.sgn(64, off)
        return a.get(o, 0)
    return S.simp(z3.Select(a, z3.BitVecVal(off, 64) if isc(off) else off))


class Int:
    """integer argument; v: None (symbolic) or a constant"""

    def __init__(self, name, w, v=None, kind='u'):
        self.name, self.w, self.v, self.kind = name, w, v, kind


class Env(dict):
    """env[name] -> list of element values (inputs) / scalar; env.o[name] -> output lists"""
    __slots__ = ('o', 'M')


class Case:
    def __init__(self, id, sym, args, post, pre=None, mod='', known=None, models=None, noreplay=False, tags=(),
                 timeout=None, hook=None, cand=None, prep=None, max_iter=None, fn=None, conc_only_native=False,
                 rel=None, split=None, touch=None, nof16=False, hang=None, ac=False, ints=False):
        self.id, self.sym, self.args, self.post, self.pre, self.mod = id, sym, args, post, pre, mod
        self.known = known or []
        self.models = models
        self.noreplay = noreplay
        self.tags = tags
        self.timeout = timeout
        self.hook = hook
        self.cand = cand
        self.prep = prep
        self.max_iter = max_iter
        self.fn = fn or sym
        self.rel = rel
        self.split = split
        self.touch = touch
        self.nof16 = nof16
        self.ints = ints      # wide products: ask cvc5's integer translation first
        self.ac = ac          # long add-rotate-xor chains: compare AC normal forms first
        self.hang = hang      # seconds: the call must return; a replay that runs longer confirms a hang


ONE = {16: 0x3c00, 32: 0x3f800000, 64: 0x3ff0000000000000}


def one_of(kind, w):
    return ONE[w] if kind == 'lf' else 1


FILL = 0xA5


def build_env(case, conc=None):
    """symbolic (or concrete when conc given) initial values; returns env, assumptions, variables"""
    env = Env()
    env.o = {}
    env.M = None
    assum = []
    vars = []
    for a in case.args:
        if isinstance(a, Int):
            if a.v is not None and not callable(a.v):
                env[a.name] = a.v & S.mask(a.w)
            elif callable(a.v):
                env[a.name] = a.v(env)
            elif conc is not None:
                env[a.name] = conc[a.name]
            else:
                v = z3.BitVec(a.name, a.w) if a.w > 1 else z3.Bool(a.name)
                env[a.name] = v
                vars.append((a.name, None, v, a.kind, a.w))
        elif isinstance(a, Sparse):
            if conc is not None:
                env[a.name] = dict(conc.get(a.name) or {})
            else:
                env[a.name] = z3.Array(a.name, z3.BitVecSort(64), z3.BitVecSort(a.w))
        else:
            init = a.init
            if callable(init):
                env[a.name] = init(env)
            elif isinstance(init, list):
                env[a.name] = list(init)
            elif init == 'zero':
                env[a.name] = [0] * a.n
            elif init == 'fill':
                env[a.name] = [int.from_bytes(bytes([FILL]) * (a.w // 8), 'little')] * a.n
            elif conc is not None:
                env[a.name] = list(conc[a.name])
            elif a.kind in ('l', 'lf'):
                lst = []
                for i in range(a.n):
                    b = z3.Bool('%s_%d' % (a.name, i))
                    lst.append(z3.If(b, z3.BitVecVal(one_of(a.kind, a.w), a.w), z3.BitVecVal(0, a.w)))
                    vars.append((a.name, i, b, a.kind, a.w))
                env[a.name] = lst
            else:
                lst = [z3.BitVec('%s_%d' % (a.name, i), a.w) for i in range(a.n)]
                for i, v in enumerate(lst):
                    vars.append((a.name, i, v, a.kind, a.w))
                env[a.name] = lst
    return env, vars


def pre_of(case, env):
    if case.pre is None:
        return []
    r = case.pre(env)
    return r if isinstance(r, list) else [r]


def execute(case, env, mods, assumes=()):
    """run the wrapper on env (symbolic or concrete) -> Machine; fills env.o"""
    M = engine.Machine(mods)
    if case.max_iter:
        M.max_iter = case.max_iter
    if not case.nof16:
        M.models.update(intrin.f16_models())
    if case.models:
        M.models.update(case.models(M) if callable(case.models) else case.models)
    M.assumes = [a for a in assumes if not isc(a)]
    args = []
    ptrs = {}
    if case.prep:
        case.prep(M, env)
    for a in case.args:
        if isinstance(a, Int):
            args.append(env[a.name])
            continue
        if isinstance(a, Sparse):
            arr = env[a.name]
            if isinstance(arr, dict):
                z = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, a.w))
                for k, v in arr.items():
                    z = z3.Store(z, z3.BitVecVal(k, 64), z3.BitVecVal(v, a.w))
                arr = z
            p = M.alloc_sparse(a.name, a.w, arr, max(a.w // 8, 1))
            M.state.mem[p.obj].ro = not a.out
            ptrs[a.name] = p
            args.append(p)
            continue
        p = M.alloc(max(a.n * a.w // 8, 0), a.name, a.align)
        M.set_bytes(p, env[a.name], a.w)
        o = M.state.mem[p.obj]
        o.ro = a.ro
        if a.access is not None:
            acc = a.access(env)
            k = a.w // 8
            o.access = [c for c in acc for _ in range(k)]
        ptrs[a.name] = p
        args.append(p)
    env.M = M
    M.call(case.sym, args)
    for a in case.args:
        if isinstance(a, Buf):
            env.o[a.name] = M.get_vals(M.state, ptrs[a.name], a.n, a.w)
        elif isinstance(a, Sparse):
            env.o[a.name] = M.state.mem[ptrs[a.name].obj].arr
    return M


def goods_of(case, env):
    r = case.post(env)
    out = []
    for i, g in enumerate(r):
        if isinstance(g, tuple):
            out.append(g)
        else:
            out.append(('c%d' % i, g))
    return out


class CaseTimeout(Exception):
    pass


# --------------------------------------------------------------------------- native
def native_job(case, envs, so, places=('end', 'start'), timeout=60):
    """run concrete envs natively; yields (env_index, place, status, outs) ; status 'ok'|'crash'|'error'"""
    runs = []
    for i, env in enumerate(envs):
        for pl in places:
            args = []
            for a in case.args:
                if isinstance(a, Int):
                    args.append({'k': 'i', 'w': a.w, 'v': int(env[a.name])})
                elif isinstance(a, Sparse):
                    offs = set(env[a.name])
                    if case.touch:
                        offs |= {S.sgn(64, o) for o in case.touch(env, a.name)}
                    args.append({'k': 's', 'w': a.w, 'cells': [[o, env[a.name].get(o, 0)] for o in sorted(offs)]})
                else:
                    k = a.w // 8
                    data = b''.join(int(v).to_bytes(k, 'little') for v in env[a.name])
                    d = {'k': 'b', 'bytes': data.hex(), 'align': a.align, 'place': pl, 'ro': a.ro}
                    if a.access is not None:
                        acc = [bool(x) for x in a.access(env)]
                        idx = [j for j, x in enumerate(acc) if x]
                        if idx:
                            lo, hi = idx[0], idx[-1] + 1
                        else:
                            lo, hi = 0, 0
                        d['lo'], d['hi'] = lo * k, hi * k
                        if idx and not all(acc[lo:hi]):
                            pass
                    args.append(d)
            runs.append({'id': [i, pl], 'sym': case.sym, 'args': args})
    res = []
    pos = 0
    deadline = time.time() + timeout
    ncrash = 0
    while pos < len(runs) and time.time() < deadline:
        try:
            p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'native.py')],
                               input=json.dumps({'so': so, 'runs': runs[pos:]}), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=max(1, deadline - time.time()),
                               cwd='/')
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = 'timeout', (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), ''
        cur = None
        done = 0
        for ln in out.splitlines():
            try:
                j = json.loads(ln)
            except ValueError:
                continue
            if 'begin' in j:
                cur = j['begin']
            else:
                outs = j['outs']
                res.append((j['id'][0], j['id'][1], 'ok', outs))
                cur = None
                done += 1
        pos += done
        if rc == 0:
            break
        if cur is None or rc == 'timeout' and cur is None:
            res.append((None, None, 'error', err[-500:]))
            break
        if isinstance(rc, int) and rc < 0:
            sig = -rc
            st = 'crash' if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT) else 'error'
            res.append((cur[0], cur[1], st, 'signal %d (%s)' % (sig, signal.Signals(sig).name)))
        elif rc == 'timeout':
            res.append((cur[0], cur[1], 'hang', 'timeout'))
        else:
            res.append((cur[0], cur[1], 'error', 'rc %s %s' % (rc, err[-500:])))
            break
        pos += 1
        ncrash += 1
        if ncrash > 4:
            break
    return res


def conc_check(case, env):
    """violated goods for a concrete env with filled outputs"""
    bad = []
    for nm, g in goods_of(case, env):
        g = S.simp(g) if not isc(g) else g
        if g is S.POISON or (isc(g) and not g):
            bad.append(nm)
        elif not isc(g):
            return None     # not decidable concretely
    return bad


def fill_outs(case, env, outs):
    env.o = {}
    bi = 0
    for a in case.args:
        if isinstance(a, Int):
            continue
        if isinstance(a, Sparse):
            env.o[a.name] = {int(k): v for k, v in outs[bi]}
            bi += 1
            continue
        d = bytes.fromhex(outs[bi])
        bi += 1
        k = a.w // 8
        env.o[a.name] = [int.from_bytes(d[i * k:(i + 1) * k], 'little') for i in range(a.n)]


SPECIAL_F = {
    16: [0, 0x8000, 0x3c00, 0xbc00, 0x3e00, 0x4100, 0xc100, 0x3800, 0xb800, 0x7c00, 0xfc00, 0x7e00, 1, 0x8001, 0x3ff,
         0x7bff, 0xfbff, 0x400, 0x4200, 0x6400, 0x6401, 0x3555, 0x7801],
    32: [0, 0x80000000, 0x3f800000, 0xbf800000, 0x3fc00000, 0x40200000, 0xc0200000, 0x3f000000, 0xbf000000,
         0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000001, 0x7fffff, 0x7f7fffff, 0xff7fffff, 0x800000, 0x40400000,
         0x4b000001, 0x4affffff, 0x3effffff, 0x4effffff, 0x4f000000, 0xcf000000, 0x4f800000, 0x3eaaaaab, 0x33800000,
         0x477ff000, 0x34000000],
    64: [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x3ff8000000000000, 0x4004000000000000,
         0xc004000000000000, 0x3fe0000000000000, 0xbfe0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
         0x7ff8000000000000, 1, (1 << 63) | 1, 0xfffffffffffff, 0x7fefffffffffffff, 0xffefffffffffffff,
         0x10000000000000, 0x4330000000000001, 0x432fffffffffffff, 0x3fdfffffffffffff, 0x43e0000000000000,
         0xc3e0000000000000, 0x43f0000000000000, 0x3fd5555555555555, 0x4530000000000000, 0x41dfffffffc00000],
}


def rnd_val(rng, kind, w):
    r = rng.random()
    if kind == 'l':
        return rng.randrange(2)
    if kind == 'lf':
        return one_of('lf', w) * rng.randrange(2)
    if kind == 'f' and w in SPECIAL_F:
        if r < 0.45:
            return rng.choice(SPECIAL_F[w])
        if r < 0.75:
            return fpc.frompy(w, rng.uniform(-40, 40)) if hasattr(fpc, 'frompy') else rng.getrandbits(w)
        return rng.getrandbits(w)
    if r < 0.4:
        return rng.choice([0, 1, 2, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1,
                           (1 << (w // 2)), (1 << (w // 2)) - 1]) & S.mask(w)
    if r < 0.6:
        return rng.randrange(-20, 21) & S.mask(w)
    return rng.getrandbits(w)


def rand_conc(case, rng):
    conc = {}
    for a in case.args:
        if isinstance(a, Int):
            if a.v is None:
                conc[a.name] = rnd_val(rng, a.kind, a.w) if a.w > 1 else rng.randrange(2)
        elif isinstance(a, Sparse):
            conc[a.name] = {}
        elif a.init == 'sym':
            mode = rng.random()
            if a.kind in ('l', 'lf') and mode < 0.5:
                k = rng.randrange(a.n + 1)
                one = one_of(a.kind, a.w)
                conc[a.name] = [one] * k + [0] * (a.n - k) if mode < 0.25 else [0] * (a.n - k) + [one] * k
            else:
                conc[a.name] = [rnd_val(rng, a.kind, a.w) for _ in range(a.n)]
    return conc


def model_conc(case, model, vars):
    conc = {}
    for nm, i, v, kind, w in vars:
        x = model.eval(v, model_completion=True)
        if z3.is_bool(x):
            x = 1 if z3.is_true(x) else 0
            if i is not None:
                x = one_of(kind, w) * x
        else:
            x = x.as_long()
        if i is None:
            conc[nm] = x
        else:
            conc.setdefault(nm, []).append((i, x))
    for k, v in list(conc.items()):
        if isinstance(v, list):
            conc[k] = [x for _, x in sorted(v)]
    for a in case.args:
        if isinstance(a, Sparse):
            e, _ = build_env(case, dict(conc, **{b.name: {} for b in case.args if isinstance(b, Sparse)}))
            arr = z3.Array(a.name, z3.BitVecSort(64), z3.BitVecSort(a.w))
            conc[a.name] = {S.sgn(64, o): model.eval(z3.Select(arr, z3.BitVecVal(o, 64)), model_completion=True).as_long()
                            for o in case.touch(e, a.name)}
    return conc


class Ctx:
    """everything a worker needs"""

    def __init__(self):
        self.mods = {}     # mod key -> list of llparse.Module
        self.sos = {}      # mod key -> so path or None
        self.qt = 20000    # ms per query
        self.case_t = 120
        self.deadline = None
        self.tier = 'quick'
        self.seed = 1
        self.diff = 0      # random differential runs per case (engine vs native), translator validation


def mk_solver(ms, cs):
    s = z3.Solver()
    s.set('timeout', int(ms))
    for c in cs:
        if isc(c):
            if not c:
                s.add(z3.BoolVal(False))
        else:
            s.add(c)
    return s


class Result(dict):
    pass


def confirm(case, ctx, concs, res, why):
    """try concrete inputs on the real code; returns dict describing confirmed violation or None"""
    envs = []
    for conc in concs:
        env, _ = build_env(case, conc)
        ok = True
        for p in pre_of(case, env):
            p = p if isc(p) else S.simp(p)
            if not isc(p) or not p:
                ok = False
        if ok:
            envs.append((env, conc))
    if not envs:
        return None
    so = ctx.sos.get(case.mod)
    if so and not case.noreplay:
        rs = native_job(case, [e for e, _ in envs], so, timeout=case.hang or 60)
        for i, pl, st, outs in rs:
            if st == 'ok':
                env, conc = envs[i]
                fill_outs(case, env, outs)
                bad = conc_check(case, env)
                res['native_runs'] = res.get('native_runs', 0) + 1
                if bad:
                    return {'inputs': conc, 'violated': bad[:8], 'how': 'native replay (%s placement)' % pl,
                            'outputs': {a.name: env.o[a.name] for a in case.args if isinstance(a, Buf) and a.out}}
            elif st in ('crash', 'hang'):
                env, conc = envs[i]
                return {'inputs': conc, 'violated': [why], 'how': 'native replay (%s placement): %s' % (pl, outs)}
            else:
                res.setdefault('notes', []).append('native: %s' % (outs,))
        return None
    return interp(case, ctx, envs, res, why)


def interp(case, ctx, envs, res, why):
    for env, conc in envs[:40]:
        try:
            M = execute(case, env, ctx.mods[case.mod])
        except (engine.Unsupported, engine.BoundExceeded) as e:
            res.setdefault('notes', []).append('interp: %s' % e)
            return None
        obs = [t for c, t in M.oblig if (isc(c) and c) or (not isc(c) and z3.is_true(z3.simplify(c)))]
        bad = conc_check(case, env)
        if bad or obs:
            return {'inputs': conc, 'violated': (bad or [])[:8] + obs[:4], 'how': 'concrete interpretation of the compiled IR'
                    , 'outputs': {a.name: [repr(x) for x in env.o[a.name]] for a in case.args if isinstance(a, Buf) and a.out}}
    return None


def run_case(case, ctx):
    t0 = time.time()
    res = Result(id=case.id, status='undecided', queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, syntactic=0,
                 fn=case.fn)
    try:
        _run_case(case, ctx, res)
    except engine.Unsupported as e:
        res['status'] = 'undecided'
        res['why'] = 'unsupported: %s' % e
        if ctx.sos.get(case.mod) and not case.noreplay:
            fallback(case, ctx, res)
    except engine.BoundExceeded as e:
        res['status'] = 'undecided'
        res['why'] = 'bound exceeded: %s' % e
        if case.hang:
            try:
                hangs(case, ctx, res, getattr(e, 'pc', 1))
            except CaseTimeout:
                pass
    except engine.NeverReturns as e:
        res['status'] = 'undecided'
        res['why'] = str(e)
        try:
            hangs(case, ctx, res, 1)
        except CaseTimeout:
            pass
    except CaseTimeout:
        res['status'] = 'undecided'
        res['why'] = 'case time budget exhausted'
    except z3.Z3Exception as e:
        res['status'] = 'undecided'
        res['why'] = 'z3: %s %s' % (str(e)[:200], traceback.format_exc(limit=-4)[-900:])
    except RecursionError:
        res['status'] = 'undecided'
        res['why'] = 'recursion'
    except Exception:
        res['status'] = 'undecided'
        res['why'] = 'internal error: ' + traceback.format_exc(limit=-3)[-600:]
    res['wall'] = time.time() - t0
    return res


def hangs(case, ctx, res, pc):
    """some input reaches the iteration bound: replay it; a run that does not return is a violation"""
    env, vars = build_env(case)
    s = mk_solver(ctx.qt, pre_of(case, env) + [pc])
    if check(s, res) == z3.sat:
        v = confirm(case, ctx, [model_conc(case, s.model(), vars)], res, 'the call returns')
        if v is not None:
            v['assertion'] = 'the call returns'
            res['status'] = 'violated'
            res['cex'] = v


def fallback(case, ctx, res):
    """no encoding: nothing is claimed"""
    return


def _run_case(case, ctx, res):
    env, vars = build_env(case)
    pre = [p for p in pre_of(case, env)]
    if any(p is S.POISON for p in pre):
        raise engine.Unsupported('poison precondition')
    M = execute(case, env, ctx.mods[case.mod], pre)
    res['steps'] = M.steps
    res['forks'] = M.forks
    res['called'] = list(M.called)
    res['externals'] = list(M.externals)
    res['queries'] += M.feas_queries
    res['solver_s'] += M.solver_time
    goods = goods_of(case, env)
    asm = list(pre) + list(M.assumes)
    known_hits = []
    excl = []
    for kid, cond in case.known:
        if kid in ctx.known:
            excl.append((kid, cond(env)))
    base = asm + [S.b_not(c) for _, c in excl]
    base = [b for b in base if not (isc(b) and b)]
    # vacuity: the assumptions are satisfiable
    if base and any(not isc(b) for b in base):
        s = mk_solver(ctx.qt, base)
        t = time.time()
        r = s.check()
        res['queries'] += 1
        res['solver_s'] += time.time() - t
        res['vacuity'] = str(r)
        if r == z3.unsat:
            res['status'] = 'undecided'
            res['why'] = 'vacuous: assumptions unsatisfiable'
            return
    bads = []
    acm = {}
    for nm, g in goods:
        if g is S.POISON:
            bads.append((nm + ' (poison)', 1))
            continue
        b = S.b_not(g)
        if not isc(b) and (case.ac or case.ints):
            b = (ac.ints(b, acm) if case.ints else ac.push(b, acm, case.ac) if case.ac else ac.normal(b, acm))
        if not isc(b):
            q = z3.simplify(b)
            if z3.is_false(q):
                b = 0
            elif z3.is_true(q):
                b = 1
        if isc(b) and not b:
            res['syntactic'] += 1
            continue
        bads.append((nm, b))
    for c, t in M.oblig:
        if not isc(c):
            q = z3.simplify(c)
            if z3.is_false(q):
                res['syntactic'] += 1
                continue
        bads.append(('memory: ' + t, c))
    res['goods'] = len(goods)
    res['memobl'] = len(M.oblig)
    if not bads:
        res['status'] = 'proved'
    else:
        res['status'] = 'proved'
        decide(case, ctx, res, env, vars, base, bads)
    # known findings: still present?
    for kid, cond in excl:
        s = mk_solver(ctx.qt, asm + [cond] + [S.b_any([b for _, b in _allbads(goods, M)])])
        if s.check() == z3.sat:
            res.setdefault('known', []).append(kid)


def _allbads(goods, M):
    r = []
    for nm, g in goods:
        r.append((nm, 1 if g is S.POISON else S.b_not(g)))
    for c, t in M.oblig:
        r.append((t, c))
    return r


def check(s, res):
    t = time.time()
    r = s.check()
    res['queries'] += 1
    res['solver_s'] += time.time() - t
    res[str(r)] = res.get(str(r), 0) + 1
    return r


_vc = {}


def tvars(e):
    """ids of the free constants of a term (cached)"""
    k = e.get_id()
    c = _vc.get(k)
    if c is not None and c[0].eq(e):
        return c[1]
    out = {}
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        n = x.num_args()
        if n == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = x
        else:
            stack.extend(x.arg(j) for j in range(n - 1, -1, -1))
    if len(_vc) > 50000:
        _vc.clear()
    _vc[k] = (e, out)
    return out


def cone(base, b):
    """assumptions connected to b through shared variables (dropping the others is sound for an unsat verdict)"""
    if isc(b):
        return list(base)
    vs = dict(tvars(b))
    rest = [x for x in base if not isc(x)]
    keep = [x for x in base if isc(x)]
    grew = True
    while grew and rest:
        grew = False
        r2 = []
        for x in rest:
            t = tvars(x)
            if any(k in vs for k in t) or not t:
                keep.append(x)
                vs.update(t)
                grew = True
            else:
                r2.append(x)
        rest = r2
    return keep


_proved = {}


def canon(cs):
    """one formula with its variables renamed in order of occurrence"""
    cs = [x for x in cs if not isc(x)]
    f = z3.And(*cs) if len(cs) > 1 else cs[0]
    vs = tvars(f)
    sub = []
    cnt = {}
    for v in vs.values():
        srt = v.sort()
        k = cnt.get(str(srt), 0)
        cnt[str(srt)] = k + 1
        sub.append((v, z3.Const('cv!%s!%d' % (srt, k), srt)))
    return z3.substitute(f, *sub)


def decide(case, ctx, res, env, vars, base, bads):
    t_end = time.time() + (case.timeout or ctx.case_t)
    # all at once first (fast when everything is unsat)
    allbad = S.b_any([b for _, b in bads])
    todo = bads
    if len(bads) > 1 and not case.ints:
        s = mk_solver(min(3000, ctx.qt), base + [allbad])
        if check(s, res) == z3.unsat:
            return
    tried = False
    und = []
    acm = {}
    for nm, b in todo:
        if not isc(b):
            b = (ac.ints(b, acm) if case.ints else ac.push(b, acm, case.ac) if case.ac else ac.normal(b, acm))
            if z3.is_false(b):
                continue
        if time.time() > t_end or (ctx.deadline and time.time() > ctx.deadline):
            und.append((nm, 'time'))
            continue
        cb = cone(base, b)
        key = None
        if not isc(b):
            key = canon(cb + [b])
            hit = _proved.get(key.get_id())
            if hit is not None and hit.eq(key):
                res['cached'] = res.get('cached', 0) + 1
                continue
        if case.ints and second_solver(ctx, cb + [b], res, True) == 'unsat':
            remember(key)
            continue
        s = mk_solver(ctx.qt, cb + [b])
        r = check(s, res)
        if r == z3.unsat:
            remember(key)
            continue
        v = None
        if r == z3.sat:
            # the model must satisfy all assumptions, not only the connected ones
            if len(cb) != len(base):
                s = mk_solver(ctx.qt, base + [b])
                r = check(s, res)
                if r == z3.unsat:
                    continue
        fpapps = None
        if r == z3.sat:
            conc = model_conc(case, s.model(), vars)
            v = confirm(case, ctx, [conc], res, nm)
        else:
            r2 = second_solver(ctx, cb + [b], res)
            if r2 == 'unsat':
                remember(key)
                continue
        if v is None:
            # abstract counterexample: give the FP applications their IEEE meaning
            exprs = [x for x in cb + [b] if not isc(x)]
            cs, unk = S.fp_defs(exprs)
            if not cs and r == z3.sat and not unk:
                # footprint-style counterexamples: ask for another model / random concretisations
                v = more_models(case, ctx, res, s, vars, nm)
            if v is None and not tried:
                tried = True
                rng = random.Random(ctx.seed)
                concs = [case.cand(rng) if case.cand and k % 2 else rand_conc(case, rng) for k in range(160)]
                v = confirm(case, ctx, concs, res, nm)
            if v is None and cs:
                s2 = mk_solver(ctx.qt, cb + [b] + cs)
                r = check(s2, res)
                if r == z3.unsat:
                    res['ieee_unsat'] = res.get('ieee_unsat', 0) + 1
                    remember(key)
                    continue
                if r == z3.sat and len(cb) != len(base):
                    s2 = mk_solver(ctx.qt, base + [b] + cs)
                    r = check(s2, res)
                if r == z3.sat:
                    conc = model_conc(case, s2.model(), vars)
                    v = confirm(case, ctx, [conc], res, nm)
                    if v is None:
                        und.append((nm, 'counterexample did not replay: %r' % (short(conc),)))
                        continue
                else:
                    r2 = second_solver(ctx, cb + [b] + cs, res)
                    if r2 == 'unsat':
                        remember(key)
                        continue
        if v is not None:
            v['assertion'] = nm
            res['status'] = 'violated'
            res['cex'] = v
            return
        und.append((nm, 'solver %s, not confirmed' % r))
    if und:
        res['status'] = 'undecided'
        res['why'] = '; '.join('%s: %s' % x for x in und[:3]) + (' (+%d)' % (len(und) - 3) if len(und) > 3 else '')


def remember(key):
    if key is not None:
        if len(_proved) > 20000:
            _proved.clear()
        _proved[key.get_id()] = key


def short(c):
    t = repr(c)
    return t if len(t) < 300 else t[:300] + '...'


def more_models(case, ctx, res, s, vars, nm):
    """block the unconfirmed model with structure-breaking constraints and retry a few times"""
    concs = []
    for k in range(6):
        m = s.model()
        concs.append(model_conc(case, m, vars))
        cl = []
        for _, i, v, kind, w in vars[:64]:
            cl.append(v != m.eval(v, model_completion=True))
        if not cl:
            break
        s.add(z3.Or(*cl))
        if check(s, res) != z3.sat:
            break
    return confirm(case, ctx, concs, res, nm)


def second_solver(ctx, cs, res, ints=False):
    """cvc5 as a second opinion on queries z3 leaves open"""
    s = z3.Solver()
    for c in cs:
        if not isc(c):
            s.add(c)
        elif not c:
            s.add(False)
    try:
        txt = s.to_smt2()
    except z3.Z3Exception:
        return 'unknown'
    if len(txt) > 2000000:
        return 'unknown'
    txt = '(set-logic ALL)\n' + txt
    best = 'unknown'
    # products and quotients of wide words: cvc5's translation to integers decides what bit-blasting does not
    modes = [['--tlimit', str(int(ctx.qt))]]
    if any(k in txt for k in ('bvmul', 'bvudiv', 'bvurem', 'bvsdiv', 'bvsrem')) and 'FloatingPoint' not in txt:
        modes.insert(0, ['--solve-bv-as-int=sum', '--tlimit', str(int(min(ctx.qt, 8000)))])
    if ints:
        modes = modes[:1]
    for o in modes:
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--lang', 'smt2'] + o + ['-'], input=txt, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=ctx.qt / 1000 + 10)
            out = p.stdout.strip()
        except (subprocess.TimeoutExpired, OSError):
            out = 'unknown'
        res['solver_s'] += time.time() - t
        res['queries'] += 1
        r = out.splitlines()[-1] if out else 'unknown'
        if 'error' in out or r not in ('sat', 'unsat'):
            r = 'unknown'
        res['cvc5_' + r] = res.get('cvc5_' + r, 0) + 1
        if r != 'unknown':
            best = r
            break
    return best


# --------------------------------------------------------------------------- differential validation of the translator
def diff_case(case, ctx, n, rng):
    """encode vs. real code on concrete inputs: -> (runs, mismatches)"""
    so = ctx.sos.get(case.mod)
    if not so or case.noreplay:
        return 0, []
    concs = []
    envs = []
    for _ in range(n * 6):
        if len(envs) >= n:
            break
        conc = case.cand(rng) if case.cand and rng.random() < 0.5 else rand_conc(case, rng)
        env, _v = build_env(case, conc)
        if all((p if isc(p) else S.simp(p)) for p in pre_of(case, env)):
            envs.append(env)
            concs.append(conc)
    if not envs:
        return 0, []
    rs = native_job(case, envs, so, places=('end',))
    mism = []
    k = 0
    for i, pl, st, outs in rs:
        if st != 'ok':
            mism.append((case.id, st, str(outs)[:200]))
            continue
        e2, _ = build_env(case, concs[i])
        try:
            execute(case, e2, ctx.mods[case.mod])
        except (engine.Unsupported, engine.BoundExceeded):
            continue
        k += 1
        e1 = envs[i]
        fill_outs(case, e1, outs)
        for a in case.args:
            if isinstance(a, Sparse) and a.out:
                for o, x in e1.o[a.name].items():
                    y = sp_get(e2.o[a.name], o & S.mask(64))
                    if x != y:
                        mism.append((case.id, '%s[%d]' % (a.name, o), x, y, short(concs[i])))
                        break
            if not isinstance(a, Buf) or not a.out:
                continue
            for j, (x, y) in enumerate(zip(e1.o[a.name], e2.o[a.name])):
                if not isc(y):
                    y = S.simp(y)
                if not isc(y):
                    continue     # hardware approximation: not determined by the encoding
                if x != y and not (a.kind == 'f' and S.f_isnan(a.w, x) and S.f_isnan(a.w, y)):
                    mism.append((case.id, '%s[%d]' % (a.name, j), hex(x), hex(y), short(concs[i])))
                    break
    return k, mism


# --------------------------------------------------------------------------- pool
_CTX = None
_CASES = None


def _limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)


def _alarm(sig, frm):
    raise CaseTimeout()


def _work(i):
    case = _CASES[i]
    ctx = _CTX
    if ctx.deadline and time.time() > ctx.deadline:
        return Result(id=case.id, status='undecided', why='global time budget exhausted', queries=0, solver_s=0.0,
                      fn=case.fn, wall=0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 2 * (case.timeout or ctx.case_t) + 10)
    try:
        r = run_case(case, ctx)
        if ctx.diff and r['status'] != 'violated':
            try:
                rng = random.Random('%s/%s' % (ctx.seed, case.id))
                k, mm = diff_case(case, ctx, ctx.diff, rng)
                r['diff_runs'] = k
                if mm:
                    r['diff_mism'] = mm[:3]
            except Exception:
                r['diff_err'] = traceback.format_exc(limit=-2)[-300:]
    except CaseTimeout:
        r = Result(id=case.id, status='undecided', why='case time budget exhausted', queries=0, solver_s=0.0,
                   fn=case.fn, wall=0)
    except MemoryError:
        r = Result(id=case.id, status='undecided', why='memory budget exhausted', queries=0, solver_s=0.0,
                   fn=case.fn, wall=0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def run_pool(cases, ctx, jobs=8, verbose=False):
    global _CTX, _CASES
    _CTX, _CASES = ctx, cases
    results = []
    if jobs == 1:
        sys.setrecursionlimit(20000)
        for i in range(len(cases)):
            results.append(_work(i))
        return results
    mpc = mp.get_context('fork')
    order = list(range(len(cases)))
    with mpc.Pool(jobs, initializer=_limit, maxtasksperchild=60) as pool:
        it = pool.imap_unordered(_work, order, chunksize=1)
        while True:
            try:
                left = None
                if ctx.deadline:
                    left = max(1, ctx.deadline + 60 - time.time())
                r = it.next(timeout=left)
            except StopIteration:
                break
            except mp.TimeoutError:
                done = {r['id'] for r in results}
                for c in cases:
                    if c.id not in done:
                        results.append(Result(id=c.id, status='undecided', why='worker lost or budget exhausted',
                                              queries=0, solver_s=0.0, fn=c.fn, wall=0))
                pool.terminate()
                break
            results.append(r)
            if verbose and (r['status'] != 'proved' or r.get('wall', 0) > 5):
                print('  %-40s %-10s %.1fs %s' % (r['id'], r['status'], r.get('wall', 0), str(r.get('why', ''))[:300]),
                      file=sys.stderr, flush=True)
    return results
