"""Check driver: stage /repo, compile the wrappers, decide every case, replay, write evidence, set the exit code."""
import collections
import json
import os
import sys
import time

from . import harness as H
from . import llparse, stage as stg

VERIF = H.VERIF


class Group:
    """one compiled wrapper module"""

    def __init__(self, key, ext, src, cxx=False, extra=(), std=None, native=True, link=(), ir_srcs=()):
        self.key, self.ext, self.src, self.cxx, self.extra, self.std = key, ext, src, cxx, list(extra), std
        self.native = native
        self.link = list(link)
        self.ir_srcs = list(ir_srcs)      # extra library sources to encode together (paths relative to the tree)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except OSError:
        return {}
    return {e['id']: e for e in d.get('known', [])}


def prepare(st, groups, want_native=True):
    mods, sos, errs = {}, {}, {}
    cmds, meta = [], []
    for g in groups:
        ext = '.cpp' if g.cxx else '.c'
        base = 'w_' + g.key.replace('/', '_').replace('+', 'p')
        src = st.write(base + ext, g.src)
        c, out = st.ir_cmd(src, g.ext, g.cxx, g.extra, std=g.std)
        cmds.append(c)
        meta.append(('ir', g, out))
        for k, s in enumerate(g.ir_srcs):
            o = st.path('%s_x%d.ll' % (base, k))
            c, _ = st.ir_cmd(os.path.join(st.src, s), g.ext, s.endswith('.cpp'), g.extra, out=o)
            cmds.append(c)
            meta.append(('irx', g, o))
        if want_native and g.native and stg.can_run(g.ext):
            so = st.path(base + '.so')
            # library sources the wrapper links against, compiled alongside
            srcs = [src]
            extra = list(g.extra)
            link = [os.path.join(st.src, x) for x in (['src/fp16.cpp', 'src/memory.cpp'] if not g.link else g.link)]
            if g.cxx:
                c = st.so_cmd([src] + link, g.ext, so, True, extra, g.std)
            else:
                # C wrapper + C++ library sources in one go: -x switches language per file
                c = ['g++'] + stg.NATFLAGS + ['-I' + os.path.join(st.src, 'include')] + stg.EXT_FLAGS[g.ext] + \
                    extra + ['-o', so, '-x', 'c', '-std=gnu99', src, '-x', 'c++', '-std=c++11'] + link
                c = c_then_link(st, g, src, link, so, base)
            cmds.append(c)
            meta.append(('so', g, so))
    t0 = time.time()
    res = stg.run_all(cmds)
    irx = collections.defaultdict(list)
    for (kind, g, out), (rc, err) in zip(meta, res):
        if kind == 'so':
            if rc == 0:
                sos[g.key] = out
            else:
                errs[g.key + ':native'] = err[-1500:]
        elif rc:
            errs[g.key] = err[-3000:]
        elif kind == 'irx':
            irx[g.key].append(out)
        else:
            mods[g.key] = out
    st.compile_s += time.time() - t0
    pm = {}
    for k, p in mods.items():
        if k in errs:
            continue
        pm[k] = [llparse.Module(open(x).read()) for x in [p] + irx[k]]
    return pm, sos, errs


def c_then_link(st, g, src, link, so, base):
    inc = '-I' + os.path.join(st.src, 'include')
    fl = ' '.join(stg.NATFLAGS[:3] + ['-w', '-ffp-contract=off', inc] + stg.EXT_FLAGS[g.ext] + g.extra)
    obj = st.path(base + '.o')
    cmd = 'gcc -std=%s %s -c -o %s %s && g++ -std=c++11 %s -shared -o %s %s %s' % (g.std or 'gnu99', fl, obj, src, fl, so, obj, ' '.join(link))
    return ['bash', '-c', cmd]


def write_replay(prop, k, r, case, groups):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (prop, k))
    g = groups.get(case.mod)
    args = []
    for a in case.args:
        if isinstance(a, H.Int):
            args.append({'int': a.name, 'bits': a.w})
        elif isinstance(a, H.Sparse):
            args.append({'memory': a.name, 'element_bits': a.w, 'output': a.out})
        else:
            args.append({'buffer': a.name, 'element_bits': a.w, 'elements': a.n, 'kind': a.kind, 'align': a.align,
                         'output': a.out})
    with open(p, 'w') as f:
        json.dump({'property': prop, 'case': r['id'], 'function': case.fn, 'wrapper': case.sym,
                   'wrapper_source': wrapper_of(g.src, case.sym) if g else None,
                   'compile_flags': (stg.EXT_FLAGS[g.ext] + g.extra) if g else None, 'arguments': args,
                   'counterexample': r['cex']}, f, indent=1, default=str)
    return p


def wrapper_of(src, sym):
    for ln in src.splitlines():
        if (' ' + sym + '(') in ln or ('*' + sym + '(') in ln:
            return ln
    i = src.find(sym + '(')
    return src[max(0, i - 20):i + 800] if i >= 0 else None


def main(prop, build, bounds, assumptions, argv=None, technique='', qt=None, case_t=None, diff=None, budget=None,
         outside=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    jobs = min(8, os.cpu_count() or 1)
    nd = None
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('only='):
            only = a[5:]
        elif a == '-v':
            verbose = True
        elif a.startswith('jobs='):
            jobs = int(a[5:])
        elif a.startswith('diff='):
            nd = int(a[5:])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': {}, 'wall_s': 0.0,
          'assumptions': assumptions, 'violations': 0}
    st = None
    try:
        st = stg.Stage()
    except stg.StageError as e:
        print('staging failed: %s' % e)
        ev['coverage'] = {'explanation': 'the tree could not be staged (code generation failed); nothing decided: %s' % e}
        finish(prop, ev, t0)
        return 0
    groups, cases = build(st, tier)
    if only:
        import re
        cases = [c for c in cases if re.search(only, c.id)]
        used = {c.mod for c in cases}
        groups = [g for g in groups if g.key in used]
    gd = {g.key: g for g in groups}
    mods, sos, errs = prepare(st, groups)
    if verbose:
        for k, e in errs.items():
            print('compile %s:\n%s' % (k, e[:1500]))
    ctx = H.Ctx()
    ctx.mods, ctx.sos = mods, sos
    ctx.tier, ctx.seed = tier, seed
    ctx.known = load_known()
    ctx.qt = (qt or {}).get(tier, 10000 if tier == 'quick' else 60000)
    ctx.case_t = (case_t or {}).get(tier, 40 if tier == 'quick' else 300)
    ctx.deadline = t0 + (budget or {}).get(tier, 600 if tier == 'quick' else 5400)
    ctx.diff = nd if nd is not None else ((diff or {}).get(tier, 0 if tier == 'quick' else 6))
    missing = [c for c in cases if c.mod not in mods]
    cases = [c for c in cases if c.mod in mods]
    results = H.run_pool(cases, ctx, jobs, verbose)
    byid = {c.id: c for c in cases}
    for c in missing:
        results.append(H.Result(id=c.id, status='undecided', why='wrapper module does not compile', queries=0,
                                solver_s=0.0, fn=c.fn, wall=0))
    cnt = collections.Counter(r['status'] for r in results)
    fns = set()
    called = set()
    for r in results:
        if r['status'] == 'proved':
            fns.add(r['fn'])
        called.update(r.get('called', ()))
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    known_hits = {}
    for r in results:
        for k in r.get('known', ()):
            known_hits.setdefault(k, r['id'])
    for k, cid in sorted(known_hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, ctx.known[k]['what']))
    viol = [r for r in results if r['status'] == 'violated']
    viol.sort(key=lambda r: r['id'])
    for k, r in enumerate(viol[:10]):
        p = write_replay(prop, k, r, byid[r['id']], gd)
        print('%s: %s -> %s' % (r['id'], r['cex'].get('assertion'), H.short(r['cex'].get('inputs'))))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    und = [r for r in results if r['status'] == 'undecided']
    samples = []
    for r in sorted(results, key=lambda r: -r.get('queries', 0))[:3]:
        samples.append({k: r.get(k) for k in ('id', 'status', 'goods', 'memobl', 'syntactic', 'queries', 'unsat', 'sat',
                                              'solver_s', 'steps', 'wall')})
    cov = {
        'explanation': 'Bounded symbolic execution of the LLVM IR that clang produces from the staged tree (code '
                       'generator re-run on /repo, wrappers call the public API); every assertion is decided by an SMT '
                       'solver for all values within the bounds; counterexamples are replayed on the gcc-compiled code.',
        'cases': len(results), 'proved': cnt['proved'], 'violated': cnt['violated'], 'undecided': cnt['undecided'],
        'functions_encoded': len(fns), 'ir_functions_executed': len(called), 'ir_instructions_executed': tot('steps'),
        'assertions': tot('goods'), 'memory_obligations': tot('memobl'),
        'assertions_closed_by_term_rewriting': tot('syntactic'),
        'solver_queries': tot('queries'), 'solver_unsat': tot('unsat'), 'solver_sat': tot('sat'),
        'solver_unknown': tot('unknown'), 'cvc5_unsat': tot('cvc5_unsat'), 'ieee_refined_unsat': tot('ieee_unsat'),
        'solver_seconds': round(tot('solver_s'), 2), 'native_replays': tot('native_runs'),
        'translator_validation_runs': tot('diff_runs'),
        'translator_mismatches': sum(len(r.get('diff_mism', ())) for r in results),
        'vacuity_checks_satisfiable': sum(1 for r in results if r.get('vacuity') == 'sat'),
        'bounds': bounds, 'outside_the_claim': outside or [],
        'functions': sorted(fns)[:4000],
        'undecided_cases': [{'id': r['id'], 'why': r.get('why', '')} for r in und][:200],
        'compile_errors': {k: v[:600] for k, v in errs.items()},
        'samples': samples,
        'externals_modelled': sorted({x for r in results for x in r.get('externals', ())})[:400],
        'stage_seconds': round(st.hatch_s, 2), 'compile_seconds': round(st.compile_s, 2),
    }
    mm = [m for r in results for m in r.get('diff_mism', ())]
    if mm:
        cov['translator_mismatch_samples'] = [list(map(str, m)) for m in mm[:10]]
    de = [r['diff_err'] for r in results if r.get('diff_err')]
    if de:
        cov['diff_errors'] = de[:3]
    ev['coverage'] = cov
    ev['violations'] = len(viol)
    finish(prop, ev, t0)
    print('%s %s: %d cases, %d proved, %d violated, %d undecided; %d queries, %.1f solver-s, %.1f s wall' % (
        prop, tier, len(results), cnt['proved'], cnt['violated'], cnt['undecided'], cov['solver_queries'],
        cov['solver_seconds'], ev['wall_s']))
    if verbose:
        for e in errs.items():
            print('COMPILE', e[0], e[1][:1500])
        if mm:
            print('MISMATCH', mm[:5])
        for e in de[:2]:
            print(e)
    for r in und[:8]:
        print('  undecided %s: %s' % (r['id'], str(r.get('why', ''))[:200]))
    st.close()
    return 1 if viol else 0


def finish(prop, ev, t0):
    ev['wall_s'] = round(time.time() - t0, 2)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
