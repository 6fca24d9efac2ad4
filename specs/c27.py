from spec import *
import os, subprocess, time
DRIVER = 'c27.cpp'
FINDER = 'c27.cpp'
M = (1 << 30) - 1
I = IntSort()
VP = 'std::vector<std::pair<long, long>, std::allocator<std::pair<long, long> > >'
PT = ('int', 64)
CR = Function('cross3', I, I, I, I, I, I, I)          # (b - a) x (c - a)
CR2 = Function('cross2', I, I, I, I, I)
OK, AREA, CNT, STRICT, SUM = (Function(n, I, s) for n, s in (('ok_before', BoolSort()), ('area_before', BoolSort()), ('changes_before', I), ('strict_before', BoolSort()), ('sum_before', I)))
C3 = r'\bcross<std::pair<long, long> ?>\(std::pair<long, long> const&, std::pair<long, long>, std::pair<long, long>\)'
C2 = r'\bcross<std::pair<long, long> ?>\(std::pair<long, long> const&, std::pair<long, long> const&\)'
AB = r'\bdetails::assertBounds<'
k = Int('k')


def pt(e, st, p): return tuple(e.S(st, e.load(st, e.padd_const(p, o), PT)) for o in (0, 8))


def inb(*ts): return And(*[And(-M <= t, t <= M) for t in ts])


def m_cross3(c):
    """contract of cross(p, a, b) (proved below); coordinates within the bound"""
    e, st = c.e, c.st
    e.contracts_used.add('cross(p, a, b)')
    t = list(pt(e, st, c.args[0])) + [e.S(st, v) for v in c.args[1:]]
    e.oblige(st, 'coordinates of cross(p, a, b) within the bound', inb(*t), 'pre')
    r = CR(*t)
    e.typed(st, r, 64, 'S')
    return IV(r, 64, 'S')


def m_cross2(c):
    e, st = c.e, c.st
    e.contracts_used.add('cross(a, b)')
    t = pt(e, st, c.args[0]) + pt(e, st, c.args[1])
    e.oblige(st, 'coordinates of cross(a, b) within the bound', inb(*t), 'pre')
    r = CR2(*t)
    e.typed(st, r, 64, 'S')
    st.assume(And(-2 * M * M <= r, r <= 2 * M * M))      # proved in the target of cross(a, b)
    return IV(r, 64, 'S')


def m_bounds(c):
    """contract of assertBounds (proved below)"""
    e, st = c.e, c.st
    e.contracts_used.add('details::assertBounds')
    v = e.x['v']
    bad = Exists(k, And(0 <= k, k < v.n, Not(inb(v.at(k), v.at(k, 8)))))
    s2 = st.fork()
    w = e.fint('outside')
    s2.assume(And(0 <= w, w < v.n, Not(inb(v.at(w), v.at(w, 8)))))
    st.assume(forall(k, Implies(And(0 <= k, k < v.n), inb(v.at(k), v.at(k, 8))), [v.at(k)]))
    st.assume(forall(k, Implies(And(0 <= k, k < v.n), inb(v.at(k), v.at(k, 8))), [v.at(k, 8)]))
    return [(st, 'ret', IV(v.n, 64, 'B')), (s2, 'throw', 'std::logic_error')]


def targets():
    T = []

    # cross products: exact, no overflow within the bounds
    def s3(x):
        x.raw('p', size=16)
        ax, ay, bx, by = x.s64('ax'), x.s64('ay'), x.s64('bx'), x.s64('by')
        px, py = pt(x.e, x.st, x.args[0])
        x.env.update(px=px, py=py)
        x.assume(inb(px, py, ax, ay, bx, by))
        for u, v in ((ax - px, by - py), (ay - py, bx - px)): x.assume(And(-4 * M * M <= u * v, u * v <= 4 * M * M))

    def p3(x, o):
        if o.kind != 'ret': return None
        return [('(a - p) x (b - p)', o.s() == (x['ax'] - x['px']) * (x['by'] - x['py']) - (x['ay'] - x['py']) * (x['bx'] - x['px']))]
    T.append(Target('cross(p, a, b)', 'd_cross', s3, p3, under=['cross(p, a, b)']))

    def s2(x):
        a, b = x.raw('a', size=16), x.raw('b', size=16)
        ax, ay = pt(x.e, x.st, a)
        bx, by = pt(x.e, x.st, b)
        x.env.update(ax=ax, ay=ay, bx=bx, by=by)
        x.assume(inb(ax, ay, bx, by))
        for u, v in ((ax, by), (ay, bx)): x.assume(And(-M * M <= u * v, u * v <= M * M))

    def p2(x, o):
        if o.kind != 'ret': return None
        return [('a x b', o.s() == x['ax'] * x['by'] - x['ay'] * x['bx']), ('at most 2 M^2', And(-2 * M * M <= o.s(), o.s() <= 2 * M * M))]
    T.append(Target('cross(a, b)', 'd_cross2', s2, p2, under=['cross(a, b)']))

    def setup(x):
        v = x.vec('v', VP)
        x.assume(And(OK(0), Not(AREA(0)), CNT(0) == 0, STRICT(0)))          # definitions
        for o in (0, 8): x.assume(forall(k, Implies(And(0 <= k, k < v.n), v.at(k, o) > I64MIN), [v.at(k, o)]))

    # assertBounds
    def binv(L):
        v, it = L.e.x['v'], L['it']
        return [('position', And(0 <= it, it <= v.n, L['n'] == it)), ('inside so far', forall(k, Implies(And(0 <= k, k < it), inb(v.at(k), v.at(k, 8))), [v.at(k)]))]
    lb = LoopSpec(AB, 0, {'it': ('cur', 'it', 'first'), 'n': ('u64', 'n', 'count', 'res')}, binv, name='scan', variant=lambda L: L.e.x['v'].n - L['it'])

    def pb(x, o):
        v = x['v']
        if o.kind == 'throw': return [('only if a coordinate is too large', And(BoolVal(o.val == 'std::logic_error'), Exists(k, And(0 <= k, k < v.n, Not(inb(v.at(k), v.at(k, 8)))))))]
        if o.kind != 'ret': return None
        return [('all coordinates within the bound', forall(k, Implies(And(0 <= k, k < v.n), inb(v.at(k), v.at(k, 8))))), ('number of points', o.u() == v.n)]
    T.append(Target('details::assertBounds', 'd_bounds', setup, pb, loops=[lb], expects=('ret', 'throw'), under=['details::assertBounds']))

    # local criterion of convexity
    def nx(v, i, d=1): return If(i + d >= v.n, i + d - v.n, i + d)
    def P(v, i): return [v.at(i), v.at(i, 8)]
    def turn(v, i): return CR(*(P(v, i) + P(v, nx(v, i)) + P(v, nx(v, i, 2))))
    def same(v, i): return And(v.at(i) == v.at(nx(v, i)), v.at(i, 8) == v.at(nx(v, i), 8))
    def up(v, i, j): return If(v.at(i) == v.at(j), v.at(i, 8) < v.at(j, 8), v.at(i) < v.at(j))
    def flip(v, i): return up(v, i, nx(v, i)) != up(v, nx(v, i), nx(v, i, 2))

    def defs(v, i):
        """definitions of the prefix functions at i, and their monotonicity (by induction) between i and the end"""
        return [OK(0), Not(AREA(0)), CNT(0) == 0, STRICT(0),
                OK(i + 1) == And(OK(i), Not(same(v, i)), turn(v, i) >= 0), AREA(i + 1) == Or(AREA(i), turn(v, i) != 0), CNT(i + 1) == CNT(i) + If(flip(v, i), 1, 0), CNT(i) >= 0, CNT(i) <= i,
                STRICT(i + 1) == And(STRICT(i), turn(v, i) != 0),
                Implies(And(0 <= i, i < v.n), And(Implies(OK(v.n), OK(i + 1)), Implies(STRICT(v.n), STRICT(i + 1)), Implies(AREA(i + 1), AREA(v.n)), CNT(v.n) >= CNT(i + 1))),
                (i + 1) % v.n == nx(v, i), (i + 2) % v.n == nx(v, i, 2)]

    def guarded(v, i): return [Implies(And(v.n >= 3, 0 <= i, i < v.n), And(*defs(v, i)))]

    def lem(L): return guarded(L.e.x['v'], L['i']) + [OK(0), Not(AREA(0)), CNT(0) == 0, STRICT(0)]

    def cinv(L):
        v, i = L.e.x['v'], L['i']
        r = [('position', And(0 <= i, i <= v.n, v.n >= 3)), ('all before are fine', OK(i))]
        r.append(('area so far', L['hasArea'] == AREA(i)))
        r.append(('changes so far', L['changes'] == CNT(i)))
        return r
    ISC, ISS, CCW = r'^(constexpr )?bool isConvex<__gnu', r'^(constexpr )?bool isStrictlyConvex<__gnu', r'^(constexpr )?bool isCCW<__gnu'
    lc = LoopSpec(ISC, 0, {'i': ('u64', 'i', 'j'), 'hasArea': ('bool', 'hasArea', 'area'), 'changes': ('u64', 'changes', 'flips')}, cinv, lem, name='edges', variant=lambda L: L.e.x['v'].n - L['i'])
    XM = [(C3, m_cross3), (C2, m_cross2), (AB, m_bounds)]
    outside = lambda v: Exists(k, And(0 <= k, k < v.n, Not(inb(v.at(k), v.at(k, 8)))))

    def local(v): return And(v.n >= 3, OK(v.n), AREA(v.n), CNT(v.n) == 2)

    def pc(x, o):
        v = x['v']
        if o.kind == 'throw': return [('only if a coordinate is too large', And(BoolVal(o.val == 'std::logic_error'), outside(v)))]
        if o.kind != 'ret': return None
        return [('exactly for convex polygons', o.b() == local(v))]
    T.append(Target('isConvex', 'd_convex', setup, pc, loops=[lc], models=XM, expects=('ret', 'throw'), under=['isConvex']))

    # strictly convex: convex and no three consecutive points on a line
    def m_convex(c):
        e, st = c.e, c.st
        e.contracts_used.add('isConvex')
        v = e.x['v']
        outs = m_bounds(c)
        return [(s, kd, local(v) if kd == 'ret' else val) for s, kd, val in outs]

    def sinv(L):
        v, i = L.e.x['v'], L['i']
        return [('position', And(0 <= i, i <= v.n, v.n >= 3)), ('strict so far', STRICT(i))]
    ls = LoopSpec(ISS, 0, {'i': ('u64', 'i', 'j')}, sinv, lem, name='strict', variant=lambda L: L.e.x['v'].n - L['i'])

    def ps(x, o):
        v = x['v']
        if o.kind == 'throw': return [('only if a coordinate is too large', And(BoolVal(o.val == 'std::logic_error'), outside(v)))]
        if o.kind != 'ret': return None
        return [('exactly for convex polygons without flat vertices', o.b() == And(local(v), STRICT(v.n)))]
    T.append(Target('isStrictlyConvex', 'd_strict', setup, ps, loops=[ls], models=[(ISC, m_convex)] + XM, expects=('ret', 'throw'), under=['isStrictlyConvex']))

    # isCCW: sign of the signed area, whatever happens in between
    W = 1 << 64

    def term(v, i): return CR2(*(P(v, i - 1) + P(v, i)))
    def base(v): return SUM(1) == CR2(*(P(v, v.n - 1) + P(v, 0)))

    def alem(L):
        v, i = L.e.x['v'], L['i']
        return [Implies(v.n >= 1, base(v)), Implies(i >= 1, SUM(i + 1) == SUM(i) + term(v, i))]

    def ainv(L):
        v, i = L.e.x['v'], L['i']
        return [('position', And(1 <= i, i <= v.n, v.n >= 2)), ('sum modulo 2^64', L['area'] == SUM(i) - W * L['g'])]

    def ginit(L): return If(SUM(1) < 0, IntVal(-1), IntVal(0))

    def gstep(H, B):
        v = H.e.x['v']
        t = H['area'] + term(v, H['i'])
        return H['g'] + If(t < 0, -1, If(t >= W, 1, 0))
    la = LoopSpec(CCW, 0, {'i': ('u64', 'i', 'j'), 'area': ('u64', 'area', 'sum', 'a')}, ainv, alem, name='area', variant=lambda L: L.e.x['v'].n - L['i'], ghosts={'g': (ginit, gstep)})

    def sa(x):
        setup(x)
        v = x['v']
        x.assume(And(-(1 << 63) <= SUM(v.n), SUM(v.n) < 1 << 63))
        x.assume(Implies(v.n >= 1, base(v)))

    def pa(x, o):
        v = x['v']
        if o.kind == 'throw': return [('only if a coordinate is too large', And(BoolVal(o.val == 'std::logic_error'), outside(v)))]
        if o.kind != 'ret': return None
        return [('sign of the signed area', o.b() == And(v.n >= 2, SUM(v.n) > 0))]
    T.append(Target('isCCW', 'd_ccw', sa, pa, loops=[la], models=XM, expects=('ret', 'throw'), under=['isCCW'], assumptions=['twice the signed area is below 2^63 (true for simple polygons)']))
    return T


def bounded_checks(repo, work, tier):
    """isSimple (a sweep line over a std::set with a geometric order) is outside of the verifier's reach: every polygon of the
    stated sizes is compared with the definition; the same polygons cross-check the convexity criterion against its definition"""
    bound = 'all polygons with up to 5 vertices on a 4x4 grid, 6 on 4x3, 7 on 3x3; every eighth of them also stretched to the coordinate bound'
    if tier == 'thorough': bound += '; 5 vertices on 5x5, 6 on 4x4, 7 on 4x3'
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    exe = os.path.join(work, 'c27b')
    t0 = time.time()
    r = subprocess.run(['g++', '-std=c++20', '-O2', '-w', '-I', os.path.join(repo, 'src'), '-I', os.path.join(root, 'finders'), os.path.join(root, 'finders', 'c27b.cpp'), '-o', exe], capture_output=True, text=True)
    if r.returncode:
        yield 'isSimple', False, 'does not compile: ' + r.stderr[:300], bound, 0, time.time() - t0
        return
    try:
        r = subprocess.run([exe, tier], capture_output=True, text=True, timeout=600)
        out = r.stdout.strip()
        if r.returncode == 0 and out.startswith('CASES'): yield 'isSimple', True, '', bound, int(out.split()[1]), time.time() - t0
        else: yield 'isSimple', False, out if out.startswith('FAIL') else 'FAIL crash (exit %d) %s' % (r.returncode, (out + r.stderr)[:300]), bound, 0, time.time() - t0
    except subprocess.TimeoutExpired: yield 'isSimple', False, 'FAIL does not terminate', bound, 0, time.time() - t0
