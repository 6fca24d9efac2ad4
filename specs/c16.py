from spec import *
from rnd import *
from seqm import *
DRIVER = 'c16.cpp'
FINDER = 'c16.cpp'
SUM = Function('sum', z3.ArraySort(IntSort(), IntSort()), IntSort(), IntSort())


def targets():
    T = []
    i, j = Ints('i j')

    def setup(three):
        def f(x):
            x.out('res')
            n, k = x.s64('n'), x.s64('k')
            m = x.s64('m') if three else IntVal(1)
            x.assume(And(n <= 1 << 61, k < 1 << 59))
            x.assume(Implies(And(n > 0, k > 0), (m - 1) * k >= -(1 << 61)))
            x.assume(Implies(And(k > 0), And(m - 1 >= -(1 << 61))))     # follows
            x.assume(Implies(And(m > 0, k > 0, k <= n / m), m * k <= n))     # Lean: div_mul_bound
            x.e.ghost.update(n=n, k=k, m=m)
        return f


    def inv(L):
        r, t, last = L['res'], L['i'], L['last']
        c, k, m = L.old('res'), L.e.ghost['k'], L.e.ghost['m']
        prev = lambda z: If(z == 0, 0, c.at(z - 1))
        return [('position', And(0 <= t, t <= k, r.n == k, c.n == k)), ('last cut', last == prev(t)),
                ('cuts increase', And(forall([i, j], Implies(And(0 <= i, i < j, j < k), c.at(i) < c.at(j)), [[c.at(i), c.at(j)]]), c.at(0) >= 1)),
                ('the last cut is the total', c.at(k - 1) == L.e.ghost['n'] - (m - 1) * k),
                ('parts so far', forall(i, Implies(And(0 <= i, i < t), r.at(i) == c.at(i) - prev(i) + m - 1), [r.at(i)])),
                ('cuts to come', forall(i, Implies(And(t <= i, i < k), r.at(i) == c.at(i)), [r.at(i)]))]
    lp = LoopSpec(r'^Random::partition\(', 0, {'res': ('vec', 'res', 'result', 'parts'), 'i': ('s64', 'i', 'j'), 'last': ('s64', 'last', 'prev')}, inv, name='differences', variant=lambda L: L.e.ghost['k'] - L['i'])

    def post(x, o):
        n, k, m = [x.e.ghost[z] for z in ('n', 'k', 'm')]
        ok = And(n > 0, k > 0, Or(m <= 0, k <= n / m))
        if o.kind == 'throw': return [('only impossible requests are rejected', And(Not(ok), BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        v, c = o.vec('res'), o.st.g['pre_differences']['res']
        lem = Implies(And(k > 0, v.at(0) == c.at(0) + (m - 1), forall(i, Implies(And(0 < i, i < k), v.at(i) == c.at(i) - c.at(i - 1) + (m - 1)))), SUM(v.arr(), k) == c.at(k - 1) + (m - 1) * k)     # Lean: telescope
        return [('request possible', ok), ('exactly k parts', v.n == k), ('every part at least min', forall(i, Implies(And(0 <= i, i < k), v.at(i) >= m))),
                ('parts are differences of the cuts', And(v.at(0) == c.at(0) + m - 1, forall(i, Implies(And(0 < i, i < k), v.at(i) == c.at(i) - c.at(i - 1) + m - 1)))),
                ('the parts add up to n', Implies(lem, SUM(v.arr(), k) == n))]
    T.append(Target('Random::partition(n,k,min)', 'd_partition', setup(True), post, loops=[lp], models=RND + INC, expects=('ret', 'throw'), under=['Random::partition(n,k,min)']))
    T.append(Target('Random::partition(n,k)', 'd_partition1', setup(False), post, loops=[lp], models=RND + INC, expects=('ret', 'throw'), under=['Random::partition(n,k)']))
    return T


def extra_checks(repo, work, tier): yield from lean_checks('Seq.lean')


ASSUMPTIONS = ['precondition: n <= 2^61 and (min - 1) * k >= -2^61']
