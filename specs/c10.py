from spec import *
from rnd import *
DRIVER = 'c10.cpp'
FINDER = 'c10.cpp'
BUDGET = 30
PC = Function('popcount64', IntSort(), IntSort())


def targets():
    T = []

    def lem(L):
        x, a, b = L['x'], L.e.ghost['a'], L.e.ghost['b']
        return facts(x, b - a)

    def facts(x, s):
        # Lean: neg_mod (2^64 - s and 2^64 agree modulo s), mul_high
        return [Implies(And(s > 0, s < W), And((W - s) % s == W % s, W % s < s, W % s >= 0)),
                Implies(And(0 <= x, x < W, s > 0), And(x * s >= 0, x * s <= (W - 1) * s, (x * s) / W < s))]

    def inv(L):
        a, b, x = L.e.ghost['a'], L.e.ghost['b'], L['x']
        s = b - a
        r = [('range', And(a < b, L['t'] == W % s, L['s'] == s)), ('x is the last draw', x == last_draw(L, L.st))]
        if getattr(L, 'head', None) is not None:
            x0 = L.head['x']
            r.append(('only draws in the biased part are rejected', (x0 * s) % W < W % s))
        return r
    lp = LoopSpec(r'^Random::integer\(long, long\)', 0, {'x': ('u64', 'x'), 't': ('u64', 't'), 's': ('u64', 's')}, inv, lem, name='reject')

    def s2(x):
        a, b = x.s64('a'), x.s64('b')
        x.e.ghost.update(a=a, b=b)

    def s1(x):
        b = x.s64('b')
        x.e.ghost.update(a=IntVal(0), b=b)

    def post(x, o):
        a, b = x.e.ghost['a'], x.e.ghost['b']
        if o.kind == 'throw': return [('only empty ranges are rejected', And(b <= a, BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        d = last_draw(x, o.st)
        s = b - a
        f = And(facts(d, s) + facts(x.e.ghost.get('dummy', d), s))
        return [('range valid', a < b),
                ('lower + floor(draw * size / 2^64)', Implies(f, o.s() == a + (d * s) / W)),
                ('accepted draw lies in the unbiased part', Implies(f, (d * s) % W >= W % s)),
                ('in range', Implies(f, And(a <= o.s(), o.s() < b)))]
    MOD = [(ENGINE, engine_model)]
    T.append(Target('Random::integer(lower,upper)', 'd_int', s2, post, loops=[lp], models=MOD, expects=('ret', 'throw'), under=['Random::integer(lower,upper)']))
    T.append(Target('Random::integer(upper)', 'd_int1', s1, post, loops=[lp], models=MOD, expects=('ret', 'throw'), under=['Random::integer(upper)']))

    def p0(x, o):
        if o.kind != 'ret': return None
        return [('the 64 random bits', o.u() == last_draw(x, o.st))]
    T.append(Target('Random::integer()', 'd_int0', lambda x: None, p0, models=MOD, under=['Random::integer()']))
    T.append(Target('Random::bit', 'd_bit', lambda x: None, lambda x, o: [('parity of 64 random bits', o.b() == (PC(last_draw(x, o.st)) % 2 == 1))] if o.kind == 'ret' else None, models=MOD, under=['Random::bit']))
    return T


def extra_checks(repo, work, tier): yield from lean_checks('Unbiased.lean')


ASSUMPTIONS = ['the random engine returns 64-bit values; their statistical quality is not the subject']
