"""contracts of the random engine and of Random::integer"""
from spec import *
import models
ENGINE = r'^std::mersenne_twister_engine<.*>::operator\(\)\(\)'
W = 1 << 64


def engine_model(c):
    """the engine returns some 64-bit value; the last one is kept in its (opaque) state, so that specifications can refer to it"""
    e, st = c.e, c.st
    if e.bv: v = IV(z3.BitVec('draw!%d' % e.nfresh, 64), 64, 'V'); e.nfresh += 1
    else:
        t = e.fint('draw')
        e.bounded(st, t, 0, U64MAX)
        v = IV(t, 64, 'U')
    e.store(st, c.args[0], v, ('int', 64))
    return v


def last_draw(x, st):
    for oid in st.mem:
        if 'randomNumberGenerator' in oid: return x.e.U(st, x.e.load(st, CP(oid, 0), ('int', 64)))
    raise Unsupported('random engine not found')


INTEGER2 = r'^Random::integer\(long, long\)'
INTEGER1 = r'^Random::integer\(long\)'


def integer_outcomes(c, lo, up):
    """contract of Random::integer(lower, upper) (proved in C10): invalid_argument iff lower >= upper, otherwise lower <= result < upper"""
    e, st = c.e, c.st
    e.contracts_used.add('Random::integer(lower, upper)')
    ok = z3.simplify(lo < up)
    outs = []
    if e.feasible(st, Not(ok)):
        s2 = st.fork()
        s2.assume(Not(ok))
        outs.append((s2, 'throw', 'std::invalid_argument'))
    if not e.feasible(st, ok): return outs
    st.assume(ok)
    t = e.fint('rnd')
    st.assume(And(lo <= t, t < up))
    e.bounded(st, t, I64MIN, I64MAX)
    outs.append((st, 'ret', IV(t, 64, 'S')))
    st.g = dict(st.g)
    st.g['draws'] = st.g.get('draws', ()) + ((lo, up, t),)
    return outs


def integer2(c): return integer_outcomes(c, c.e.S(c.st, c.args[0]), c.e.S(c.st, c.args[1]))
def integer1(c): return integer_outcomes(c, IntVal(0), c.e.S(c.st, c.args[0]))


RND = [(ENGINE, engine_model), (INTEGER2, integer2), (INTEGER1, integer1)]
