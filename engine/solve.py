"""Discharge of obligations: z3 in process first, then a portfolio of external solver processes."""
import os, pickle, select, subprocess, tempfile, time, hashlib
import z3

# The default arithmetic of z3 5.3.2 (arith.solver 6) now and then derives conflicts that do not follow: it refuted satisfiable path conditions
# of C31 for about one random seed in thirty. Its refutations count only if they come out for three different seeds; the older simplex
# (arith.solver 2), z3 4.8.12 and cvc5 are believed at once.
z3.set_param('smt.arith.solver', 2)
z3.set_param('lp.dio', False)
SEEDS = (0, 17, 4711)


def _die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)


def find(names):
    for n in names:
        for d in os.environ.get('PATH', '').split(':') + ['/usr/local/bin', '/usr/bin', '/opt/veriftools/bin']:
            p = os.path.join(d, n)
            if os.path.exists(p): return p
    return None


Z3NEW = find(['z3-new']) or find(['z3'])
CVC5 = find(['cvc5'])


def to_smt(pc, goal):
    s = z3.Solver()
    for f in pc: s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


def relevant_first(pc, goal): return pc


def z3_try(txt, arith, seed, ms):
    s = z3.Solver(ctx=z3.Context())
    s.set('timeout', int(ms))
    s.set('arith.solver', arith)
    if seed: s.set('random_seed', seed)
    try:
        s.from_string(txt)
        r = str(s.check())
    except z3.Z3Exception as ex:
        r = 'unknown'
    return r, s


def first_try(txt, budget):
    """z3 in this process -> (result, model, version)"""
    v = 'z3-%s' % z3.get_version_string()
    r, s = z3_try(txt, 2, 0, min(600, budget * 60))
    if r != 'unknown': return r, model_of(s) if r == 'sat' else None, v + ' arith.solver=2'
    for k, seed in enumerate(SEEDS):
        r, s = z3_try(txt, 6, seed, min(2500, budget * 250))
        if r == 'sat': return r, model_of(s), v
        if r == 'unknown': return r, None, v
    return r, None, v + ' (3 seeds)'


def in_child(f, limit):
    """f() in a forked process with a hard time limit (z3 does not always respect its own)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _die_with_parent()
            with os.fdopen(w, 'wb') as o: o.write(pickle.dumps(f()))
        finally: os._exit(0)
    os.close(w)
    data, end = b'', time.time() + limit
    try:
        while True:
            ok, _, _ = select.select([r], [], [], max(0, end - time.time()))
            if not ok: break
            b = os.read(r, 1 << 16)
            if not b: break
            data += b
    finally:
        os.close(r)
        try: os.kill(pid, 9)
        except ProcessLookupError: pass
        os.waitpid(pid, 0)
    try: return pickle.loads(data)
    except Exception: return 'unknown', None, ''


def solve_text(txt, budget, seed=0):
    """-> (status, backend, seconds, model dict)"""
    t0 = time.time()
    r, model, ver = in_child(lambda: first_try(txt, budget), 3 * min(2.5, budget * .25) + 3.6)
    if r == 'unsat': return ('proved', ver, time.time() - t0, None)
    if r == 'sat': return ('refuted', ver, time.time() - t0, model)
    # portfolio
    fd, path = tempfile.mkstemp('.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    sd = ['smt.random_seed=%d' % seed, 'sat.random_seed=%d' % seed] if seed else []
    left = max(5, int(budget - (time.time() - t0)))
    new = ['lp.dio=false'] if Z3NEW.endswith('new') else []
    job6 = lambda k: [Z3NEW, *new, '-T:%d' % left, '-memory:3000', 'smt.arith.solver=6', 'smt.random_seed=%d' % k, path]
    jobs = [('z3-new', job6(seed + 1)),
            ('z3-new arith.solver=2', [Z3NEW, *new, '-T:%d' % left, '-memory:3000', 'smt.arith.solver=2', *sd, path]),
            ('z3-new mbqi=false', [Z3NEW, *new, '-T:%d' % left, '-memory:3000', 'smt.arith.solver=2', 'smt.mbqi=false', 'smt.auto_config=false', *sd, path]),
            ('cvc5', [CVC5, '--tlimit=%d' % (left * 1000), '--lang=smt2', path]),
            ('cvc5 enum', [CVC5, '--tlimit=%d' % (left * 1000), '--lang=smt2', '--enum-inst', '--nl-ext-tplanes', path])]
    ps = []
    try:
        for n, c in jobs:
            if c[0] is None: continue
            ps.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=_die_with_parent)))
        live, conf = list(ps), []
        end = t0 + budget + 3
        while live and time.time() < end:
            for n, p in list(live):
                if p.poll() is not None:
                    live.remove((n, p))
                    out = p.stdout.read()
                    first = out.strip().split('\n')[0].strip() if out.strip() else ''
                    if first == 'unsat' and n.startswith('z3-new ') and n[7:].isdigit():
                        conf.append(n)
                        if len(conf) == 3: return ('proved', 'z3-new (3 seeds)', time.time() - t0, None)
                        continue
                    if first == 'unsat' and n == 'z3-new':
                        # two more seeds
                        conf.append(n)
                        left = max(5, int(end - time.time()))
                        for k in SEEDS[1:]:
                            q = ('z3-new %d' % k, subprocess.Popen(job6(seed + k), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=_die_with_parent))
                            ps.append(q)
                            live.append(q)
                        end += 5
                        continue
                    if first == 'unsat': return ('proved', n, time.time() - t0, None)
                    if first == 'sat': return ('refuted', n, time.time() - t0, None)
            time.sleep(0.01)
    finally:
        for n, p in ps:
            if p.poll() is None: p.kill()
            p.wait()
        os.unlink(path)
    return ('unknown', 'portfolio', time.time() - t0, None)


def model_of(s):
    out = {}
    try:
        m = s.model()
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v): out[d.name()] = v.as_long()
                elif z3.is_bv_value(v): out[d.name()] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v): out[d.name()] = bool(z3.is_true(v))
                else:
                    t = str(v)
                    if len(t) < 400: out[d.name()] = t
    except Exception: pass
    return out


def canary_text(pc):
    s = z3.Solver()
    for f in pc: s.add(f)
    return s.to_smt2()


def canary(txt, ms=1500):
    """True if the path condition could not be refuted"""
    def f():
        for k in SEEDS:
            r = z3_try(txt, 6, k, ms)[0]
            if r != 'unsat': break
        return r, None, ''
    return in_child(f, 3 * ms / 1000 + 3)[0] != 'unsat'
