from spec import *
from numth import *
DRIVER = 'c21.cpp'
FINDER = 'c21.cpp'
BUDGET = 30


def amod(x, m): return x % m     # SMT-LIB mod: euclidean, in [0,m) for m>0


def targets():
    T = []

    def s_apply(x):
        a, m = x.s64('x'), x.s64('m')
        x.assume(m > 0)
    T.append(Target('applyMod', 'd_applyMod', s_apply,
                    lambda x, o: [('result is the representative of x in [0,mod)', o.s() == x['x'] % x['m'])] if o.kind == 'ret' else None, under=['applyMod']))

    def s_mul(x): x.s64('a'), x.s64('b'), x.s64('m')

    def p_mul(x, o):
        m = x['m']
        if o.kind == 'throw': return [('throws only std::domain_error and only for mod <= 0', And(m <= 0, BoolVal(o.val == 'std::domain_error')))]
        if o.kind == 'ret': return [('mod positive', m > 0), ('lhs*rhs mod m', o.s() == ((x['a'] % m) * (x['b'] % m)) % m)]
    T.append(Target('mulMod', 'd_mulMod', s_mul, p_mul, expects=('ret', 'throw'), under=['mulMod', 'details::mulMod']))

    def s_mulU(x):
        a, b, m = x.u64('a'), x.u64('b'), x.u64('m')
        x.assume(m > 0)
    T.append(Target('details::mulMod', 'd_mulModU', s_mulU, lambda x, o: [('a*b mod m', o.u() == (x['a'] * x['b']) % x['m'])] if o.kind == 'ret' else None, under=['details::mulMod']))

    def s_powU(x):
        b, e, m = x.u64('base0'), x.u64('exp0'), x.u64('mod0')
        x.assume(And(m > 0, Implies(m <= 1 << 32, b < 1 << 32)))
        x.assume(pow_range(b, e, m))
        x.assume(P(b, e, m) == (1 * P(b, e, m)) % m)
        # Lean: mod_one'
        x.assume(((1 % m) * P(b, e, m)) % m == P(b, e, m))
        x.e.ghost['pow_b'], x.e.ghost['pow_e'] = b, e
    T.append(Target('details::powMod', 'd_powModU', s_powU, lambda x, o: [('base^exp mod m', o.u() == P(x['base0'], x['exp0'], x['mod0']))] if o.kind == 'ret' else None,
                    loops=[pow_loop(0, 'pow32'), pow_loop(1, 'pow64')], under=['details::powMod']))

    def s_pow(x):
        b, e, m = x.s64('b'), x.s64('e'), x.s64('m')

    def p_pow(x, o):
        b, e, m = x['b'], x['e'], x['m']
        if o.kind == 'throw': return [('throws only std::domain_error and only for mod <= 0 or exp < 0', And(Or(m <= 0, e < 0), BoolVal(o.val == 'std::domain_error')))]
        if o.kind == 'ret': return [('arguments in domain', And(m > 0, e >= 0)), ('base^exp mod m', o.s() == P(b % m, e, m))]
    T.append(Target('powMod', 'd_powMod', s_pow, p_pow, models=[(r'details::powMod\(', powmod_contract)], expects=('ret', 'throw'), under=['powMod']))
    return T


def extra_checks(repo, work, tier): yield from lean_checks('NumTh.lean')
