from spec import *
from rnd import *
from seqm import *
DRIVER = 'c14.cpp'
FINDER = 'c14.cpp'
BUDGET = 40
S = Function('prefix', IntSort(), IntSort())          # sums of the first i cycle lengths
NEXT = Function('next', IntSort(), IntSort())         # successor inside its segment, cyclically
A = z3.ArraySort(IntSort(), IntSort())
FREE = Function('nonneg', A, IntSort(), IntSort(), IntSort())      # number of k in [i, n) with a[k] >= 0
OPEN = Function('neg', A, IntSort(), IntSort(), IntSort())         # number of k in [i, n) with a[k] < 0


def targets():
    T = []
    i, j, k, y = Ints('i j k y')

    # ---- given cycle lengths
    def setc(x):
        x.out('res')
        c = x.vec('cycles')
        off = x.s64('off')
        m = c.n
        pos = forall(i, Implies(And(0 <= i, i < m), c.at(i) > 0))
        x.assume(S(0) == 0)
        x.assume(forall(i, Implies(And(0 <= i, i < m), S(i + 1) == S(i) + c.at(i)), [c.at(i)]))
        x.assume(Implies(pos, forall(i, Implies(And(0 <= i, i <= m), And(0 <= S(i), S(i) <= S(m))), [S(i)])))      # Lean: prefix_mono
        x.assume(Implies(pos, And(S(m) < 1 << 59, off + S(m) <= I64MAX)))

    def inv0(L):
        c, t = L.e.x['cycles'], L['cur']
        return [('positive so far', And(0 <= t, t <= c.n, forall(i, Implies(And(0 <= i, i < t), c.at(i) > 0), [c.at(i)])))]

    def inva(L):
        c, t = L.e.x['cycles'], L['first']
        return [('sum so far', And(0 <= t, t <= c.n, L['init'] == S(t)))]

    def lema(L):
        c, t = L.e.x['cycles'], L['first']
        return [Implies(And(0 <= t, t < c.n), And(S(t + 1) == S(t) + c.at(t), S(t + 1) <= S(c.n)))]

    def P(L): return L.st.g['perms'][0]

    def rel(L, r, upto):
        p = P(L)[0]
        return forall(k, Implies(And(0 <= k, k < upto), r.at(p[k]) == p[NEXT(k)] + L.e.x['off']), [p[k]])

    def inv1(L):
        r, t, c = L['res'], L['i'], L.e.x['cycles']
        return [('size', And(r.n == S(c.n), 0 <= t, t <= c.n, L['tmp'] == S(t))), ('cycles so far', rel(L, r, L['tmp']))]

    def seg(L, t, z):
        c = L.e.x['cycles']
        # definition of next, for the segment of cycle t, and the prefix sums
        return [Implies(And(0 <= t, t < c.n), And(S(t + 1) == S(t) + c.at(t), S(t + 1) <= S(c.n), S(t) >= 0, NEXT(S(t + 1) - 1) == S(t))), Implies(And(0 <= t, t < c.n, S(t) <= z, z < S(t + 1) - 1), NEXT(z) == z + 1)]

    def inv2(L):
        r, t, c, z = L['res'], L['i'], L.e.x['cycles'], L['j']
        return [('size', And(r.n == S(c.n), 0 <= t, t < c.n, L['tmp'] == S(t), S(t) <= z, z <= S(t) + c.at(t) - 1)), ('links so far', rel(L, r, z))]
    R = ('vec', 'res', 'result')
    loops = [LoopSpec(r'^Random::perm\(std::vector', 0, {'cur': ('cur', '__begin1', '__begin2', 'it', 'i')}, inv0, name='check', variant=lambda L: L.e.x['cycles'].n - L['cur']),
             LoopSpec(r'accumulate<', 0, {'first': ('cur', '__first', 'first'), 'init': ('s64', '__init', 'init')}, inva, lema, name='sum', variant=lambda L: L.e.x['cycles'].n - L['first']),
             LoopSpec(r'^Random::perm\(std::vector', 1, {'res': R, 'i': ('u64', 'i', 'k', 'c'), 'tmp': ('s64', 'tmp', 'start', 'begin')}, inv1, lambda L: seg(L, L['i'], L['tmp']), name='cycles', variant=lambda L: L.e.x['cycles'].n - L['i']),
             LoopSpec(r'^Random::perm\(std::vector', 2, {'res': R, 'i': ('u64', 'i', 'k', 'c'), 'tmp': ('s64', 'tmp', 'start', 'begin'), 'j': ('s64', 'j', 'l')}, inv2, lambda L: seg(L, L['i'], L['j']), name='links', variant=lambda L: S(L['i'] + 1) - L['j'])]

    def postc(x, o):
        c = x['cycles']
        pos = forall(i, Implies(And(0 <= i, i < c.n), c.at(i) > 0))
        if o.kind == 'throw': return [('only a non-positive length is rejected', And(Exists(i, And(0 <= i, i < c.n, c.at(i) <= 0)), BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        v = o.vec('res')
        if len(o.st.g.get('perms', ())) != 1: return [('one random arrangement', BoolVal(False))]
        p, q, n, of = o.st.g['perms'][0]
        n = S(c.n)
        return [('all lengths positive', pos), ('length is the sum of the cycle lengths', v.n == n), ('arrangement of all elements', And(of == 0, forall(k, Implies(And(0 <= k, k < n), And(0 <= p[k], p[k] < n, q(p[k]) == k))))),
                ('every element is mapped to its successor in its cycle', forall(k, Implies(And(0 <= k, k < n), v.at(p[k]) == p[NEXT(k)] + x['off'])))]
    T.append(Target('Random::perm(cycles, offset)', 'd_cycles', setc, postc, loops=loops, models=RND + SEQ + SHUF + PERM, expects=('ret', 'throw'), under=['Random::perm(cycles, offset)']))

    # ---- given fixed points
    def setf(x):
        x.out('res')
        n = x.s64('n')
        x.vec('fix')
        off = x.s64('off')
        x.assume(And(n < 1 << 59, off + n <= I64MAX))

    def state(r, t, n): return forall(y, Implies(And(0 <= y, y < n), Or(And(r(y) == y, t(y) == -1), And(r(y) == -1, t(y) == y))), [r(y)])
    def state2(r, t, n): return forall(y, Implies(And(0 <= y, y < n), Or(And(r(y) == y, t(y) == -1), And(r(y) == -1, t(y) == y))), [t(y)])

    def g0(L):
        r, t, c, f, n, off = L['res'], L['tmp'], L['cur'], L.e.x['fix'], L.e.x['n'], L.e.x['off']
        return [('sizes', And(n >= 0, r.n == n, t.n == n, 0 <= c, c <= f.n)), ('free or fixed', And(state(r.at, t.at, n), state2(r.at, t.at, n))),
                ('fixed so far', forall(i, Implies(And(0 <= i, i < c), And(off <= f.at(i), f.at(i) < off + n, r.at(f.at(i) - off) >= 0)), [f.at(i)]))]

    def base(L): return L.st.g['pre_places']['res']

    def count(L, idx, cur):
        t, r0, n = L['tmp'], base(L), L.e.x['n']
        ta, ra = t.arr(), r0.arr()
        # definition of the counts
        d = lambda F, a, z, c: And(F(a, z, n) >= 0, Implies(z >= n, F(a, z, n) == 0), Implies(And(0 <= z, z < n), F(a, z, n) == F(a, z + 1, n) + If(c, 1, 0)), F(a, z + 1, n) >= 0)
        return [d(FREE, ta, idx, ta[idx] >= 0), d(OPEN, ra, cur, ra[cur] < 0)]

    def common(L, filled):
        r, t, idx, c, W, n, off, x = L['res'], L['tmp'], L['i'], L['cur'], L['W'], L.e.x['n'], L.e.x['off'], L.e.x
        r0 = base(L)
        src = lambda z: And(0 <= W[z], W[z] < idx, t.at(W[z]) >= 0, r.at(z) == t.at(W[z]) + off)
        return [('sizes', And(r.n == n, t.n == n, 0 <= c, c <= n, 0 <= idx, idx <= n)), ('fixed places', forall(y, Implies(And(0 <= y, y < c, r0.at(y) >= 0), r.at(y) == r0.at(y) + off), [r.at(y)])),
                ('other places', forall(y, Implies(And(0 <= y, y < c, r0.at(y) < 0), src(y)), [[r.at(y)], [W[y]]])),
                ('sources distinct', forall([y, k], Implies(And(0 <= y, y < k, k < c, r0.at(y) < 0, r0.at(k) < 0), W[y] != W[k]), [[W[y], W[k]]])),
                ('places to come', forall(y, Implies(And(c + filled <= y, y < n), r.at(y) == r0.at(y)), [r.at(y)]))]

    class Q:
        def __init__(s, L, d): s.L, s.d, s.e, s.st = L, d, L.e, L.st
        def __getitem__(s, k): return s.d[k] if k in s.d else s.L[k]
        def __getattr__(s, k): return getattr(s.L, k)

    def init_places(L):
        """entry of the filling loop: as many free values as free places (Lean: compl_count, perm_count)"""
        st, t, r, n = L.st, L['tmp'], L['res'], L.e.x['n']
        return z3.K(IntSort(), IntVal(0))

    def g1(L):
        pre = L.st.g.get('pre_places')
        n = L.e.x['n']
        if pre is None or getattr(L, 'pre', L) is L:
            # entry: the counting facts
            r0, t = L['res'], L['tmp']
            L2 = Q(L, {'W': z3.K(IntSort(), IntVal(0))})
            L2.st = type('o', (), {'g': {'pre_places': {'res': r0}}})()
            facts = []
            sh = L.st.g.get('shuffled', ())
            if len(sh) == 1:
                p, q = sh[0]
                # pointwise: the unshuffled values are free exactly where the places are free
                facts.append(Implies(forall(y, Implies(And(0 <= y, y < n), (t.at(q(y)) >= 0) == (r0.at(y) < 0))), FREE(t.arr(), 0, n) == OPEN(r0.arr(), 0, n)))
            return common(L2, 0) + [('as many free values as free places', Implies(And(facts), FREE(t.arr(), L['i'], n) == OPEN(r0.arr(), L['cur'], n)))]
        return common(L, 0) + [('as many free values as free places', FREE(L['tmp'].arr(), L['i'], n) == OPEN(base(L).arr(), L['cur'], n))]

    def stepW(H, B): return Store(H['W'], H['cur'], B['i'] - 1)

    def g2(L):
        r, t, idx, c, n = L['res'], L['tmp'], L['i'], L['cur'], L.e.x['n']
        r0 = base(L)
        W = L.st.g['ghost_W']
        Wc = Store(W, c, idx - 1)
        L2 = Q(L, {'W': W})
        x = r.at(c)
        i0 = L.st.g['pre_next']['i'] if 'pre_next' in L.st.g and getattr(L, 'pre', L) is not L else idx
        return common(L2, 1)[:1] + [('place', c < n), ('others unchanged', forall(y, Implies(And(0 <= y, y < n, y != c), r.at(y) == L.old('res').at(y)), [r.at(y)])), ('position moves on', i0 <= idx),
                                    ('untouched place', Implies(idx == i0, And(x == r0.at(c)))),
                                    ('candidate', Implies(idx > i0, And(x == t.at(idx - 1), r0.at(c) < 0))), ('a free value is left', If(And(x < 0), FREE(t.arr(), idx, n) == OPEN(r0.arr(), c, n), FREE(t.arr(), idx, n) == OPEN(r0.arr(), c + 1, n)))]
    RT = {'res': R, 'tmp': ('vec', 'tmp', 'free', 'perm')}
    PF = r'^Random::perm\(long, std::vector'
    cur = ('cur', '__begin1', '__begin2', 'it')
    cur1 = ('cur', '__begin14', '__begin2', '__begin1', 'it')
    lf = [LoopSpec(PF, 0, {**RT, 'cur': cur}, g0, name='fix', variant=lambda L: L.e.x['fix'].n - L['cur']),
          LoopSpec(PF, 1, {**RT, 'cur': cur1, 'i': ('u64', 'i', 'k', 'pos')}, g1, lambda L: count(L, L['i'], L['cur']), name='places', variant=lambda L: L.e.x['n'] - L['cur'], ghosts={'W': (init_places, stepW)}),
          LoopSpec(PF, 2, {**RT, 'cur': cur1, 'i': ('u64', 'i', 'k', 'pos')}, g2, lambda L: count(L, L['i'], L['cur']), name='next', variant=lambda L: L.e.x['n'] - L['i'])]

    def postf(x, o):
        n, off, f = x['n'], x['off'], x['fix']
        if o.kind == 'throw': return [('only a negative count or a point outside is rejected', And(BoolVal(o.val == 'std::invalid_argument'), Or(n < 0, Exists(i, And(0 <= i, i < f.n, Or(f.at(i) < off, f.at(i) >= off + n))))))]
        if o.kind != 'ret': return None
        v = o.vec('res')
        W, r0 = o.st.g.get('ghost_W'), o.st.g['pre_places']['res']
        return [('length', v.n == n), ('in range', forall(y, Implies(And(0 <= y, y < n), And(off <= v.at(y), v.at(y) < off + n)))), ('distinct', forall([y, k], Implies(And(0 <= y, y < k, k < n), v.at(y) != v.at(k)))),
                ('points of the list are fixed', forall(i, Implies(And(0 <= i, i < f.n), v.at(f.at(i) - off) == f.at(i)))), ('all points in range', forall(i, Implies(And(0 <= i, i < f.n), And(off <= f.at(i), f.at(i) < off + n))))]
    T.append(Target('Random::perm(count, fix, offset)', 'd_fix', setf, postf, loops=lf, models=RND + SEQ + SHUF, expects=('ret', 'throw'), under=['Random::perm(count, fix, offset)']))
    return T


def extra_checks(repo, work, tier): yield from lean_checks('Seq.lean')


ASSUMPTIONS = ['precondition: offset + count (or the sum of the cycle lengths) does not overflow and fewer than 2^59 elements']
