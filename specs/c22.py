from spec import *
DRIVER = 'c22.cpp'
FINDER = 'c22.cpp'
GCD = Function('gcd', IntSort(), IntSort(), IntSort())


def gcd_facts(a, b):
    """Lean: gcd_zero, gcd_rec, gcd_pos"""
    return [Implies(And(b >= 0, a == 0), GCD(a, b) == b), Implies(And(a > 0, b >= 0), GCD(a, b) == GCD(b % a, a)), Implies(And(a >= 0, b > 0), GCD(a, b) >= 1)]


def euclid_post(a, b, x, y, g):
    return [('g is the gcd', g == GCD(a, b)), ('Bezout identity', x * a + y * b == g), ('x bounded', And(x <= b, x >= -b)), ('y bounded', And(y <= If(a >= 1, a, 1), y >= -If(a >= 1, a, 1))),
            ('base case', Implies(a == 0, And(x == 0, y == 1)))]


def euclid_model(c):
    """contract of details::extendedEuclid; the first call of the target details::extendedEuclid itself is executed"""
    e, st = c.e, c.st
    if e.ghost.get('inline_first'):
        e.ghost['inline_first'] = False
        e.ghost['outer_a'] = e.S(st, c.args[0])
        return NotImplemented
    a, b = e.S(st, c.args[0]), e.S(st, c.args[1])
    e.ub(st, 'extendedEuclid precondition', And(a >= 0, b > 0))
    if 'outer_a' in e.ghost: e.ub(st, 'extendedEuclid recursion decreases', a < e.ghost['outer_a'])
    g, x, y = e.fint('g'), e.fint('x'), e.fint('y')
    for t in (g, x, y): e.bounded(st, t, I64MIN, I64MAX)
    for _, f in euclid_post(a, b, x, y, g): st.assume(f)
    for f in gcd_facts(a, b): st.assume(f)
    if 'n0' in e.ghost:   # Lean: bezout_inv
        n = e.ghost['n0']
        st.assume(Implies(And(a == n % b, x * a + y * b == 1), (n * (x % b)) % b == 1 % b))
    for p, t in ((c.args[2], x), (c.args[3], y)): e.store(st, p, IV(t, 64, 'S'), ('int', 64))
    e.contracts_used.add('details::extendedEuclid')
    return IV(g, 64, 'S')


def targets():
    T = []
    MOD = [(r'details::extendedEuclid\(', euclid_model)]

    def s_e(x):
        a, b = x.s64('a'), x.s64('b')
        x.raw('x', size=8, llty=('int', 64))
        x.raw('y', size=8, llty=('int', 64))
        x.assume(And(a >= 0, b > 0))
        for f in gcd_facts(a, b): x.assume(f)
        # b = (b / a) * a + b % a, and the product (b/a)*x1 stays within b because |x1| <= a
        x.e.ghost['inline_first'] = True

    def p_e(x, o):
        if o.kind != 'ret': return None
        a, b = x['a'], x['b']
        return euclid_post(a, b, x.e.S(o.st, o.mem('x', 0, ('int', 64))), x.e.S(o.st, o.mem('y', 0, ('int', 64))), o.s())
    T.append(Target('details::extendedEuclid', 'd_euclid', s_e, p_e, models=MOD, under=['details::extendedEuclid']))

    INVERTIBLE = Function('invertible', IntSort(), IntSort(), BoolSort())   # there is r with n*r = 1 (mod m)

    def s_m(x):
        n, m = x.s64('n'), x.s64('m')
        r = n % m
        # Lean: invertible_iff_gcd
        x.assume(Implies(m > 0, INVERTIBLE(n, m) == (GCD(r, m) == 1)))
        x.e.ghost['n0'] = n

    def p_m(x, o):
        n, m = x['n'], x['m']
        if o.kind == 'throw': return [('only a non positive modulus is rejected', And(m <= 0, BoolVal(o.val == 'std::domain_error')))]
        if o.kind != 'ret': return None
        r = o.s()
        return [('modulus positive', m > 0), ('-1 exactly if there is no inverse', (r == -1) == Not(INVERTIBLE(n, m))),
                ('reduced', Or(r == -1, And(0 <= r, r < m))), ('n * result = 1 (mod m)', Implies(r != -1, (n * r) % m == 1 % m))]
    T.append(Target('multInv', 'd_multInv', s_m, p_m, models=MOD, expects=('ret', 'throw'), under=['multInv', 'applyMod']))
    return T


def extra_checks(repo, work, tier): yield from lean_checks('Gcd.lean')
