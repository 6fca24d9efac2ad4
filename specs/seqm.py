"""contracts of sequence helpers of the library for their callers"""
from spec import *
import models


def ret_vec(c, comps):
    e = c.e
    e.wr_cont(c.st, c.args[0], e.types.mt(VECI), comps)


def range_outcomes(c, a, b, s):
    """contract of range(from, to, step) for a known step of 1 (proved in C26)"""
    e, st = c.e, c.st
    mt = e.types.mt(VECI)
    e.contracts_used.add('range(from, to, step)')
    comps = e.fresh_comps(st, mt, 'range')
    i = Int('i!range')
    st.assume(comps[0] == If(b > a, b - a, 0))
    st.assume(forall(i, Implies(And(0 <= i, i < comps[0]), Select(comps[1], i) == a + i), [Select(comps[1], i)]))
    ret_vec(c, comps)
    return None


def range3(c):
    e, st = c.e, c.st
    s = e.S(st, c.args[3])
    if not z3.is_int_value(z3.simplify(s)) or z3.simplify(s).as_long() != 1: return NotImplemented
    return range_outcomes(c, e.S(st, c.args[1]), e.S(st, c.args[2]), 1)


def range1(c): return range_outcomes(c, IntVal(0), c.e.S(c.st, c.args[1]), 1)


def shuffle_vec(c):
    """contract of Random::shuffle(container) (proved in C13): a permutation of the elements"""
    e, st = c.e, c.st
    mt = e.cont_mt(st, c.args[0])
    comps = e.rd_cont(st, c.args[0], mt)
    e.contracts_used.add('Random::shuffle(container)')
    new, p, q = models.permuted(e, st, comps, IntVal(0), comps[0], 'shuffled')
    e.wr_cont(st, c.args[0], mt, new)
    st.g = dict(st.g)
    st.g['shuffled'] = st.g.get('shuffled', ()) + ((p, q),)
    return None


SEQ = [(r'^range\(long, long, long\)', range3), (r'^range\(long\)', range1)]
SHUF = [(r'^void Random::shuffle<std::vector<long', shuffle_vec)]


def distinct_model(c):
    """contract of Random::distinct(count, lower, upper) (proved in C12)"""
    e, st = c.e, c.st
    mt = e.types.mt(VECI)
    n, lo, up = [e.S(st, a) for a in c.args[1:4]] if len(c.args) == 4 else [e.S(st, c.args[1]), IntVal(0), e.S(st, c.args[2])]
    e.contracts_used.add('Random::distinct(count, lower, upper)')
    e.ub(st, 'precondition of distinct: lower + count does not overflow', And(lo + n <= I64MAX, lo + n >= I64MIN))
    ok = And(n >= 0, lo + n <= up)
    outs = []
    if e.feasible(st, Not(ok)):
        s2 = st.fork()
        s2.assume(Not(ok))
        outs.append((s2, 'throw', 'std::invalid_argument'))
    if not e.feasible(st, ok): return outs
    st.assume(ok)
    comps = e.fresh_comps(st, mt, 'distinct')
    i, j = Ints('i!d j!d')
    v = lambda z: Select(comps[1], z)
    st.assume(comps[0] == n)
    st.assume(forall(i, Implies(And(0 <= i, i < n), And(lo <= v(i), v(i) < up)), [v(i)]))
    st.assume(forall([i, j], Implies(And(0 <= i, i < j, j < n), v(i) != v(j)), [[v(i), v(j)]]))
    ret_vec(c, comps)
    return outs + [(st, 'ret', None)]


DIST = [(r'^Random::distinct\(long, long, long\)', distinct_model), (r'^Random::distinct\(long, long\)', distinct_model)]


def increasing_model(c):
    """contract of Random::increasing(count, lower, upper) (proved in C15)"""
    e, st = c.e, c.st
    r = distinct_model(c)
    n = e.S(st, c.args[1])
    e.contracts_used.add('Random::increasing(count, lower, upper)')
    i, j = Ints('i!inc j!inc')
    for s, k, v in r:
        if k != 'ret': continue
        mt = e.types.mt(VECI)
        a = e.rd_cont(s, c.args[0], mt)[1]
        s.assume(forall([i, j], Implies(And(0 <= i, i < j, j < n), a[i] < a[j]), [[a[i], a[j]]]))
    return r


INC = [(r'^Random::increasing\(long, long, long\)', increasing_model)]


def perm_model(c):
    """contract of Random::perm(count, offset) (proved in C13)"""
    e, st = c.e, c.st
    mt = e.types.mt(VECI)
    n, off = e.S(st, c.args[1]), e.S(st, c.args[2])
    e.contracts_used.add('Random::perm(count, offset)')
    e.ub(st, 'precondition of perm: offset + count does not overflow', off + n <= I64MAX)
    outs = []
    if e.feasible(st, n < 0):
        s2 = st.fork()
        s2.assume(n < 0)
        outs.append((s2, 'throw', 'std::invalid_argument'))
    if not e.feasible(st, n >= 0): return outs
    st.assume(n >= 0)
    comps = e.fresh_comps(st, mt, 'perm')
    e.nfresh += 1
    q = Function('permpos!%d' % e.nfresh, IntSort(), IntSort())
    i = Int('i!perm')
    inr = lambda z: And(0 <= z, z < n)
    v = lambda z: Select(comps[1], z)
    st.assume(comps[0] == n)
    st.assume(forall(i, Implies(inr(i), And(off <= v(i), v(i) < off + n, q(v(i) - off) == i)), [v(i)]))
    st.assume(forall(i, Implies(inr(i), And(inr(q(i)), v(q(i)) == off + i)), [q(i)]))
    ret_vec(c, comps)
    st.g = dict(st.g)
    st.g['perms'] = st.g.get('perms', ()) + ((comps[1], q, n, off),)
    return outs + [(st, 'ret', None)]


PERM = [(r'^Random::perm\(long, long\)', perm_model)]
