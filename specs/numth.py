"""shared vocabulary of the number theory contracts (lemmas are proved in lean/Lemmas.lean)"""
from spec import *

# P(b,e,m) = b^e mod m  (m > 0, b,e >= 0)
P = Function('powmod', IntSort(), IntSort(), IntSort(), IntSort())


def pow_zero(b, m): return Implies(m > 0, P(b, 0, m) == 1 % m)


def pow_step(b, e, m):
    """Lean: powmod_step"""
    return Implies(And(m > 0, b >= 0, e > 0),
                   P(b, e, m) == If(e % 2 == 1, (b * P((b * b) % m, e / 2, m)) % m, P((b * b) % m, e / 2, m)))


def pow_range(b, e, m): return Implies(m > 0, And(P(b, e, m) >= 0, P(b, e, m) < m))


def mod_assoc(b, r, p, m):
    """Lean: mod_assoc"""
    return Implies(m > 0, And(((b * r) % m * p) % m == (r * ((b * p) % m)) % m, ((r * b) % m * p) % m == (r * ((b * p) % m)) % m))


def mod_one(r, m):
    """Lean: mod_one:  (r * (1 % m)) % m = r % m   and  ((1%m) * p) % m = p % m"""
    return Implies(m > 0, And((r * (1 % m)) % m == r % m))


def pow_loop(nth, name, fnre=r'details::powMod\('):
    def lem(L):
        b, r, e, m = L['base'], L['res'], L['exp'], L['mod']
        p2 = P((b * b) % m, e / 2, m)
        return [pow_step(b, e, m), pow_zero(b, m), mod_one(r, m), mod_assoc(b, r, p2, m), pow_range((b * b) % m, e / 2, m), pow_range(b, e, m)]

    def inv(L):
        b, r, e, m = L['base'], L['res'], L['exp'], L['mod']
        b0, e0 = L.e.ghost['pow_b'], L.e.ghost['pow_e']
        return [('res * base^exp', (r * P(b, e, m)) % m == P(b0, e0, m)), ('res reduced', And(r >= 0, r < m)),
                ('base small', And(b >= 0, Implies(m <= 1 << 32, b < 1 << 32), Or(b < m, b == b0)))]
    return LoopSpec(fnre, nth, {'base': ('u64', 'base', 'b', 'a'), 'res': ('u64', 'res', 'result', 'r'), 'exp': ('u64', 'exp', 'e'), 'mod': ('u64', 'mod', 'm')}, inv, lem,
                    variant=lambda L: L['exp'], name=name)


def powmod_contract(c):
    """contract of details::powMod used at call sites"""
    e, st = c.e, c.st
    b, x, m = [e.U(st, v) for v in c.args]
    e.ub(st, 'powMod precondition', And(m > 0, Implies(m <= 1 << 32, b < 1 << 32)))
    r = e.fint('powmod')
    e.bounded(st, r, 0, U64MAX)
    st.assume(And(r == P(b, x, m), r < m))
    e.contracts_used.add('details::powMod')
    return IV(r, 64, 'U')
