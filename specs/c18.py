from spec import *
from rnd import *
DRIVER = 'c18.cpp'
FINDER = 'c18.cpp'
PRIME = Function('prime', IntSort(), BoolSort())


def is_prime(c):
    c.e.contracts_used.add('isPrime')
    return PRIME(c.e.S(c.st, c.args[0]))


def targets():
    T = []

    def setup(two):
        def f(x):
            lo = x.s64('lo') if two else IntVal(0)
            up = x.s64('up')
            x.assume(up - lo <= I64MAX)
            x.e.ghost.update(lo=lo, up=up)
        return f

    def inv(L):
        lo, up = L.e.ghost['lo'], L.e.ghost['up']
        return [('range', And(lo < up, 0 <= L['i']))]
    lp = LoopSpec(r'^Random::prime\(', 0, {'i': ('s64', 'i', 'k', 'trial')}, inv, name='trials')

    def post(x, o):
        lo, up = x.e.ghost['lo'], x.e.ghost['up']
        if o.kind == 'throw' and o.val == 'std::invalid_argument': return [('rejected exactly for empty ranges', lo >= up)]
        if o.kind == 'throw': return [('not found is a domain error', And(lo < up, BoolVal(o.val == 'std::domain_error')))]
        if o.kind != 'ret': return None
        r = o.s()
        p = Int('p')
        d = o.st.g.get('draws', ())
        q = [('in range', And(lo <= r, r < up)), ('prime', And(PRIME(r), r >= 2))]
        if d:
            a, b, t = d[-1]
            q.append(('every odd number of the range can be drawn', And(Implies(r >= 3, r == 2 * t + 1), forall(p, Implies(And(lo <= p, p < up, p >= 3, p % 2 == 1), And(a <= (p - 1) / 2, (p - 1) / 2 < b))))))
            q.append(('two can be drawn', Implies(And(lo <= 2, 2 < up), And(a <= 0, 0 < b))))
        return q
    M = RND + [(r'^isPrime\(long\)', is_prime)]
    T.append(Target('Random::prime(lower,upper)', 'd_prime', setup(True), post, loops=[lp], models=M, expects=('ret', 'throw'), under=['Random::prime']))
    T.append(Target('Random::prime(upper)', 'd_prime1', setup(False), post, loops=[lp], models=M, expects=('ret', 'throw'), under=['Random::prime']))
    return T


ASSUMPTIONS = ['precondition: upper - lower does not overflow', 'isPrime is used through its contract (C23)']
