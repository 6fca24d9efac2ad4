#!/usr/bin/env python3
"""check driver:  run.py Cxx [quick|thorough]"""
import sys, os, time, json, re, subprocess, hashlib, importlib, traceback, tempfile, shutil
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'specs'))
import ir, spec, solve
from vals import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
IRFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only', '-S', '-emit-llvm', '-w']


def compile_ir(drv, flags, work):
    out = os.path.join(work, hashlib.sha1((drv + ' '.join(flags)).encode()).hexdigest()[:12] + '.ll')
    if not os.path.exists(out):
        cmd = [CLANG, '-std=c++20', '-I', os.path.join(REPO, 'src')] + IRFLAGS + list(flags) + [os.path.join(ROOT, 'drivers', drv), '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Unsupported('driver %s does not compile: %s' % (drv, r.stderr[:1500]))
    return out


def _target_job(arg):
    """runs in a forked child: symbolic execution of one target"""
    mods, t, key, tl = arg
    mod = mods[key]
    t0 = time.time()
    res = {'target': t.name, 'entry': t.entry, 'obls': [], 'canaries': [], 'error': None}
    e = None
    try:
        e, obls, can = spec.run_target(mod, t, tl)
        for o in obls:
            res['obls'].append({'name': o.name, 'kind': o.kind, 'loc': o.loc, 'smt': solve.to_smt(o.pc, o.goal)})
        for k, pc in can: res['canaries'].append((k, solve.canary_text(pc)))
        res['inlined'] = {mod.dem(n): c for n, c in e.inlined.items()}
        res['models'] = {mod.dem(n): c for n, c in e.used_models.items()}
        res['contracts'] = sorted(e.contracts_used)
        res['loops'] = e.loop_count
    except Unsupported as ex:
        res['error'] = 'not translated: %s' % ex
    except Exception as ex:
        res['error'] = 'engine error: %s\n%s' % (ex, traceback.format_exc()[-3000:])
    res['time'] = time.time() - t0
    return res


_MODS = None
_TS = None


def _job_idx(i):
    t, key, tl = _TS[i]
    return _target_job((_MODS, t, key, tl))


_OBLS = None


def _solve_idx(i):
    txt, budget = _OBLS[i][:2]
    return i, solve.solve_text(txt, budget, seed=_OBLS[i][2] if len(_OBLS[i]) > 2 else 0)


def _canary_idx(i):
    return i, solve.canary(_OBLS[i][0])


def pmap(fn, n, procs=8, chunksize=1):
    """fork based parallel map, unordered; one pool per batch: workers are only forked while this process has a single thread"""
    size = 150 * procs
    for b in range(0, n, size):
        with mp.get_context('fork').Pool(min(procs, max(1, n - b))) as p:
            it = p.imap_unordered(fn, range(b, min(n, b + size)), chunksize)
            while True:
                try: yield it.next(400)
                except StopIteration: break
                except mp.TimeoutError: return      # a worker was killed (memory): what it had is left undecided
            p.close()
            p.join()


def known(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def run_finder(prop, sp, work, hints, tier, seconds):
    """compile and run the bounded input search that replays/finds a failing input on the real code"""
    src = os.path.join(ROOT, 'finders', sp.FINDER)
    log = []
    if not os.path.exists(src): return None, 'no finder'
    exe = os.path.join(work, 'finder')
    fl = getattr(sp, 'FINDER_FLAGS', [])
    cmd = ['g++', '-std=c++20', '-O1', '-g', '-w', '-I', os.path.join(REPO, 'src'), '-I', os.path.join(ROOT, 'finders'), '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'] + fl + [src, '-o', exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return None, 'finder does not compile: ' + r.stderr[:3000]
    hf = os.path.join(work, 'hints')
    with open(hf, 'w') as f:
        for h in sorted(hints): f.write('%d\n' % h)
    seed = os.environ.get('VERIF_SEED', '1')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=98', FINDER_HINTS=hf, FINDER_SECONDS=str(seconds))
    try:
        r = subprocess.run([exe, seed], capture_output=True, text=True, errors='replace', timeout=seconds * 4 + 60, env=env, cwd=work)
    except subprocess.TimeoutExpired as ex:
        o = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or '')
        last = [l for l in o.split('\n') if l.startswith('CASE ')]
        return None, 'finder timed out; last case: %s' % (last[-1] if last else '-')
    if r.returncode == 0: return None, 'finder found no failing input (%s)' % r.stdout.strip()[-300:]
    lines = r.stdout.strip().split('\n')
    fails = [l for l in lines if l.startswith('FAIL ')]
    if fails: return '\n'.join(fails[:5]), r.stderr[-1500:]
    # crashed: sanitizer or abort inside the code under test
    last = [l for l in lines if l.startswith('CASE ')]
    note = open(os.path.join(work, 'case'), errors='replace').read().split('\0')[0] if os.path.exists(os.path.join(work, 'case')) else ''
    return 'crash (exit %d) on input: %s' % (r.returncode, note or (last[-1] if last else '')), r.stderr[-3000:]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t_start = time.time()
    sp = importlib.import_module(prop.lower())
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        rc = check(prop, tier, sp, work, t_start)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, sp, work, t_start):
    global _MODS, _TS, _OBLS
    verbose = os.environ.get('VERIF_V')
    targets = sp.targets()
    only = os.environ.get('VERIF_ONLY')
    if only: targets = [t for t in targets if re.search(only, t.name)]
    problems = []      # (obligation, detail)
    mods, ts = {}, []
    budget = getattr(sp, 'BUDGET', 20) * (4 if tier == 'thorough' else 1)
    try:
        keys = []
        for t in targets:
            drv = t.driver or sp.DRIVER
            fl = tuple(t.flags if t.flags is not None else getattr(sp, 'FLAGS', ()))
            keys.append((drv, fl))
        for k in dict.fromkeys(keys):
            mods[k] = ir.Module(compile_ir(k[0], list(k[1]), work), 4 if '-m32' in k[1] else 8)
        ts = [(t, k, t.tl or getattr(sp, 'TL', 240)) for t, k in zip(targets, keys)]
    except (Unsupported, ir.IRError) as ex:
        problems.append(('extraction of the verified functions from the current source', str(ex)))
    _MODS, _TS = mods, ts
    results = []
    if not problems:
        for r in pmap(_job_idx, len(ts)): results.append(r)
    results.sort(key=lambda r: [t.name for t in targets].index(r['target']))
    obls, texts, uniq = [], [], {}
    for r in results:
        if r['error']:
            problems.append(('%s: translation' % r['target'], r['error']))
            if verbose: print(r['target'], r['error'])
        for o in r['obls']:
            h = hashlib.sha1(o['smt'].encode()).digest()
            if h not in uniq:
                uniq[h] = len(texts)
                texts.append((o['smt'], budget))
            obls.append((r['target'], o, uniq[h]))
    _OBLS = texts
    sol = [None] * len(texts)
    if texts:
        # enough failures or out of time: what is left counts as undecided
        limit = 2400 if tier == 'thorough' else getattr(sp, 'SOLVE_LIMIT', 420)
        maxfail = 1000 if verbose or tier == 'thorough' else 8
        nfail = 0
        it = pmap(_solve_idx, len(texts))
        for i, res in it:
            sol[i] = res
            if res[0] != 'proved': nfail += 1
            if nfail >= maxfail or time.time() - t_start > limit: break
        it.close()
    for i, s in enumerate(sol):
        if s is None: sol[i] = ('undecided', 'nobody (stopped after earlier failures or at the time limit)', 0.0, None)
    backends, stime, hints, discharged = {}, 0.0, set(), 0
    for s in sol:
        stime += s[2]
        if s[0] == 'proved': backends[s[1]] = backends.get(s[1], 0) + 1
    for tn, o, i in obls:
        s = sol[i]
        if s[0] == 'proved': discharged += 1
        else:
            problems.append(('%s: %s' % (tn, o['name']), '%s by %s in %.1fs at %s%s' % (s[0], s[1], s[2], o['loc'], ' model %s' % json.dumps(s[3]) if s[3] else '')))
            if s[3]:
                for v in s[3].values():
                    if isinstance(v, int) and not isinstance(v, bool): hints.add(v)
            if verbose:
                d = os.environ.get('VERIF_DUMP')
                if d: open(os.path.join(d, re.sub(r'\W+', '_', '%s_%s_%d' % (tn, o['name'], i))[:120] + '.smt2'), 'w').write(o['smt'])
    # vacuity canaries
    can, ctx = [], []
    for r in results:
        if r['error']: continue
        t = [t for t in targets if t.name == r['target']][0]
        for kind in t.expects:
            cs = [c for k, c in r['canaries'] if k == kind]
            can.append((r['target'], kind, len(ctx), len(cs)))
            ctx += [(c, 0) for c in cs[:6]]
    _OBLS = ctx
    cres = [None] * len(ctx)
    if ctx:
        for i, b in pmap(_canary_idx, len(ctx)): cres[i] = b
    for tn, kind, a, n in can:
        if os.environ.get('VERIF_V') and not any(cres[a:a + min(6, n)]): print('CANARY', tn, kind, n, cres[a:a+6])
        if n == 0 or not any(cres[a:a + min(6, n)]):
            problems.append(('%s: canary' % tn, 'no reachable path with outcome %s (contract would be vacuous)' % kind))
    extra = []
    if hasattr(sp, 'extra_checks'):
        for nm, ok, detail, backend, secs in sp.extra_checks(REPO, work, tier):
            extra.append({'name': nm, 'ok': ok, 'backend': backend, 'seconds': round(secs, 2)})
            stime += secs
            if ok:
                discharged += 1
                backends[backend] = backends.get(backend, 0) + 1
            else: problems.append((nm, detail))
    # bounded stand-ins: executed on the real code within a stated bound; reported separately, never counted as proved
    stand_ins, stand_fail = [], None
    if hasattr(sp, 'bounded_checks'):
        for nm, ok, detail, bound, cases, secs in sp.bounded_checks(REPO, work, tier):
            stand_ins.append({'function': nm, 'bound': bound, 'cases': cases, 'ok': ok, 'seconds': round(secs, 2)})
            if not ok:
                problems.append((nm + ' (bounded)', detail))
                if detail.startswith('FAIL'): stand_fail = detail
    # evidence
    fn_contract, inl, mdl = {}, {}, {}
    for r in results:
        for k, v in (r.get('inlined') or {}).items(): inl[k] = inl.get(k, 0) + v
        for k, v in (r.get('models') or {}).items(): mdl[k] = mdl.get(k, 0) + v
    under = []
    for t in targets: under += t.under or [t.entry]
    assumptions = list(getattr(sp, 'ASSUMPTIONS', []))
    for t in targets: assumptions += [a for a in t.assumptions if a not in assumptions]
    total = len(obls) + len(extra)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': discharged,
            'checker_cmd': 'python3-vt engine/run.py %s %s' % (prop, tier),
            'trusted_base': ['clang 18 C++ front end (IR generation)', 'engine/ir.py, engine/sym.py (IR semantics, VC generation)', 'engine/models.py (assumed contracts of libstdc++/runtime)', 'z3', 'cvc5'] + getattr(sp, 'TRUSTED', []),
            'functions_under_contract': sorted(set(under)),
            'functions_executed_from_source': sorted(k for k in inl if not k.startswith('d_'))[:400],
            'assumed_library_contracts': sorted(k[:160] for k in mdl)[:400],
            'targets': [{'name': r['target'], 'obligations': len(r['obls']), 'loops_cut': r.get('loops', 0), 'vcgen_s': round(r['time'], 2), 'error': r['error']} for r in results],
            'extra_checks': extra,
            'backends': backends, 'solver_time_s': round(stime, 2), 'distinct_queries': len(texts),
            'canaries': len(ctx), 'canaries_alive': sum(1 for c in cres if c),
        },
        'assumptions': assumptions + ['the standard library functions listed in assumed_library_contracts meet the contracts in engine/models.py', 'memory allocation succeeds; containers hold fewer than 2^60 elements'],
        'wall_s': 0, 'violations': 0,
    }
    bounded = getattr(sp, 'BOUNDED', None)
    if bounded or stand_ins: ev['coverage']['bounded_stand_ins'] = bounded or stand_ins
    rc = 0
    finder_note = None
    kf = known(prop)
    for key, txt in kf: print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    fail = stand_fail
    if (problems and not fail) or tier == 'thorough':
        if hasattr(sp, 'FINDER'):
            f2, finder_note = run_finder(prop, sp, work, hints, tier, getattr(sp, 'FINDER_SECONDS', 20) * (3 if tier == 'thorough' else 1))
            fail = fail or f2
    if problems and not fail and not verbose:
        # undecided obligations only, and no failing input: give them a longer second round before reporting them
        open_ = sorted(set(i for tn, o, i in obls if sol[i][0] != 'proved'))
        only_open = len(problems) == sum(1 for tn, o, i in obls if sol[i][0] != 'proved') and all(sol[i][0] in ('unknown', 'undecided') for i in open_)
        stop = 2 * (3000 if tier == 'thorough' else 720)
        if only_open and len(open_) <= 40:
            _OBLS = [(texts[i][0], min(budget * 5, 240), 11) for i in open_]
            ok = True
            it = pmap(_solve_idx, len(open_), 3)
            for k, r in it:
                i = open_[k]
                sol[i] = (r[0], r[1], sol[i][2] + r[2], r[3])
                stime += r[2]
                if r[0] != 'proved': ok = False
                else: backends[r[1]] = backends.get(r[1], 0) + 1
                if not ok or time.time() - t_start > stop / 2: ok = False; break
            it.close()
            if ok:
                discharged += len(problems)
                problems = []
                ev['coverage'].update(discharged=discharged, backends=backends, solver_time_s=round(stime, 2), second_round=len(open_))
    if problems or fail:
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(ROOT, 'evidence', 'replay', prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\nfailed obligations (%d):\n' % (prop, len(problems)))
            for a, b in problems[:60]: f.write('  %s\n    %s\n' % (a, b.replace('\n', '\n    ')))
            f.write('\nreplay on the real code (finders/%s, seed %s):\n' % (getattr(sp, 'FINDER', '-'), os.environ.get('VERIF_SEED', '1')))
            f.write((fail or 'no failing input found') + '\n' + (finder_note or '') + '\n')
        for a, b in problems[:12]: print('failed obligation: %s  [%s]' % (a, b.split('\n')[0][:200 if not verbose else 3000]))
        if fail: print('failing input: %s' % fail.split('\n')[0][:300])
        elif finder_note: print(finder_note[:300])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fail else ' no-failing-input-found'))
        rc = 1
        ev['violations'] = max(1, len(problems))
    elif finder_note: ev['coverage']['cross_check'] = finder_note
    ev['wall_s'] = round(time.time() - t_start, 2)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged (%d distinct), %d targets, solver %.1fs, wall %.1fs' % (prop, tier, discharged, total, len(texts), len(results), stime, time.time() - t_start))
    return rc


if __name__ == '__main__': main()
