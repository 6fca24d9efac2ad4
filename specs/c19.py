from spec import *
from rnd import *
from seqm import *
import z3
DRIVER = 'c19.cpp'
FINDER = 'c19.cpp'
BUDGET = 60
I = IntSort()
VP = 'std::vector<std::pair<long, long>, std::allocator<std::pair<long, long> > >'
CONG = Function('congruent', I, I, BoolSort())       # p divides u - v
ZERO = Function('divisible', I, BoolSort())          # p divides u
PRIME = Function('prime', I, BoolSort())
GX, GY = Function('on_parabola_x', I, I, BoolSort()), Function('on_parabola_y', I, I, BoolSort())
COL = Function('collinear', I, I, I, I, I, I, BoolSort())
K = 1 << 30
PREC = r'^Random::prime\(long, long\)'


def som(t): return z3.simplify(t, som=True)


def m_prime(c):
    """contract of Random::prime(lower, upper) (proved in C18)"""
    e, st = c.e, c.st
    e.contracts_used.add('Random::prime(lower, upper)')
    lo, up = e.S(st, c.args[0]), e.S(st, c.args[1])
    e.oblige(st, 'the range of the primes is not empty', lo < up, 'pre')
    s2 = st.fork()
    p = e.fint('prime')
    e.bounded(st, p, I64MIN, I64MAX)
    st.assume(And(lo <= p, p < up, PRIME(p), p >= 2))
    st.assume(And(ZERO(0)))
    st.g = dict(st.g)
    st.g['p'] = p
    return [(st, 'ret', IV(p, 64, 'S')), (s2, 'throw', 'std::domain_error')]


def mulfacts(e, st, x, y, t):
    """bounds of a product"""
    B = lambda z: And(-K <= z, z <= K)
    st.assume(Implies(And(B(x), B(y)), And(-K * K <= t, t <= K * K)))
    st.assume(Implies(And(0 <= x, x <= K, 0 <= y, y <= K), And(0 <= t, t <= K * K)))
    if x.eq(y): st.assume(t >= 0)


def remfacts(e, st, x, y):
    """a remainder modulo the prime: sign and class (lean/Points.lean: rem_class); classes of arguments are expanded to polynomials
    (congruences are preserved by sums, differences and products)"""
    p = st.g.get('p')
    if p is None or not y.eq(p): return None
    subs = list(st.g.get('rems', ()))
    h = som(z3.substitute(x, *subs)) if subs else som(x)
    r = e.fint('rem')
    st.assume(And(-p < r, r < p, Implies(x >= 0, r >= 0), Implies(x <= 0, r <= 0), (r == 0) == ZERO(h), CONG(r, h), CONG(r + p, h), CONG(r - p, h)))
    e.bounded(st, r, I64MIN, I64MAX)
    st.g = dict(st.g)
    st.g['rems'] = tuple(subs) + ((r, h),)
    return r


def targets():
    T = []
    i, j, k = Ints('i j k')

    def setup(x):
        x.out('res')
        n, dim = x.s64('n'), x.s64('dim')
        x.e.mulfacts, x.e.remfacts = mulfacts, remfacts
        x.assume(ZERO(0))

    def linv(L):
        p = L.st.g.get('p')
        return [('range', And(0 <= L['a'], L['a'] < p, 0 <= L['b'], L['b'] < p))]

    lr = LoopSpec(r'^.*Random::nonCollinearPoints<', 0, {'a': ('s64', 'rotA'), 'b': ('s64', 'rotB')}, linv, name='rotation')

    def pinv(L):
        r, xs, it, p = L['res'], L['xs'], L['it'], L.st.g['p']
        dim, n = L.e.x['dim'], L.e.x['n']
        a, b, c, dx, dy = params(L)
        return [('position', And(0 <= it, it <= xs.n, r.n == it, xs.n == n)),
                ('inside the square', forall(i, Implies(And(0 <= i, i < it), And(-dim < r.at(i), r.at(i) < dim, -dim < r.at(i, 8), r.at(i, 8) < dim)), [r.at(i), r.at(i, 8)])),
                ('on the curve', forall(i, Implies(And(0 <= i, i < it), And(GX(r.at(i) - dx, xs.at(i)), GY(r.at(i, 8) - dy, xs.at(i)))), [r.at(i), r.at(i, 8)]))]

    def params(L):
        if 'par' in L.st.g: return L.st.g['par'][2:]           # fixed when the loop is entered
        d = [q[2] for q in L.st.g['draws']]
        return d[-5:]

    def poly(t, A, B, a, b, c):
        f = a * t * t + b * t + c
        return som(t * A - f * B), som(t * B + f * A)

    def plem(L):
        r, xs, it = L['res'], L['xs'], L['it']
        a, b, c, dx, dy = params(L)
        A, B = L['A'], L['B']
        t = xs.at(it)
        px, py = poly(t, A, B, a, b, c)
        u, v = Ints('u v')
        L.st.g = dict(L.st.g)
        L.st.g['xs'] = xs.at
        L.st.g['par'] = (A, B, a, b, c, dx, dy)
        # definition of the curve at t
        return [forall(u, GX(u, t) == CONG(u, px), [GX(u, t), CONG(u, px)]), forall(u, GY(u, t) == CONG(u, py), [GY(u, t), CONG(u, py)])]
    lp = LoopSpec(r'^.*Random::nonCollinearPoints<', 1, {'A': ('s64', 'rotA'), 'B': ('s64', 'rotB'), 'res': ('vec', 'res', 'result', 'points'), 'xs': ('vec', 'xs'), 'it': ('cur', '__begin1', '__begin2', 'it', 'i', 'k', 'j')}, pinv, plem, name='points', variant=lambda L: L['xs'].n - L['it'])

    def post(x, o):
        n, dim = x['n'], x['dim']
        ok = And(n >= 0, n < dim, dim <= 0x1FFFFFFF)
        if o.kind == 'throw': return [('rejected exactly for bad arguments', (Not(ok) if o.val == 'std::invalid_argument' else And(ok, BoolVal(o.val == 'std::domain_error'))))]
        if o.kind != 'ret': return None
        r = o.vec('res')
        p = o.st.g['p']
        A, B, a, b, c, dx, dy = o.st.g['par']
        i0, j0, k0 = Ints('i0 j0 k0')
        pt = lambda z: [r.at(z), r.at(z, 8)]
        xs = o.st.g['xs']
        tt = [xs(z) for z in (i0, j0, k0)]
        # lean/Points.lean: parabola, residues_differ
        lemma = Implies(And(PRIME(p), Not(ZERO(som(A * A + B * B))), 0 < a, a < p, *[And(0 <= t, t < p) for t in tt], z3.Distinct(*tt),
                            *[And(GX(r.at(z) - dx, t), GY(r.at(z, 8) - dy, t)) for z, t in zip((i0, j0, k0), tt)]), Not(COL(*(pt(i0) + pt(j0) + pt(k0)))))
        return [('arguments valid', ok), ('n points', r.n == n),
                ('no three points on a line', Implies(lemma, Implies(And(0 <= i0, i0 < j0, j0 < k0, k0 < n), Not(COL(*(pt(i0) + pt(j0) + pt(k0))))))),
                ('coordinates in (-dim, dim)', forall(i, Implies(And(0 <= i, i < n), And(-dim < r.at(i), r.at(i) < dim, -dim < r.at(i, 8), r.at(i, 8) < dim))))]
    T.append(Target('Random::nonCollinearPoints', 'd_points', setup, post, loops=[lr, lp], models=[(PREC, m_prime)] + RND + DIST, expects=('ret', 'throw'), under=['Random::nonCollinearPoints', 'applyMod']))
    return T


ASSUMPTIONS = ['prime, integer and distinct are used through their contracts (C18, C10, C12)']


def extra_checks(repo, work, tier): yield from lean_checks('Points.lean')
