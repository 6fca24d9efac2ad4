"""union-find: class invariant and contracts.  R is the ghost map to the representative, K a ghost height that grows towards the representative"""
from spec import *
AI = z3.ArraySort(IntSort(), IntSort())
i, j = Ints('i j')


def wf(u, R, K, T):
    n = u.n
    return [('array of parents', And(0 <= n, forall(i, Implies(And(0 <= i, i < n), And(Or(u.at(i) < 0, And(u.at(i) < n, K[i] < K[u.at(i)], R[i] == R[u.at(i)])), u.at(i) >= -1 - T)), [u.at(i)]))),
            ('representatives', forall(i, Implies(And(0 <= i, i < n), And(0 <= R[i], R[i] < n, u.at(R[i]) < 0, R[R[i]] == R[i], K[i] <= K[R[i]], K[i] >= 0)), [R[i]])),
            ('roots', forall(i, Implies(And(0 <= i, i < n), (u.at(i) < 0) == (R[i] == i)), [u.at(i)], ))]


def same_roots(u0, u):
    return And(u.n == u0.n, forall(i, Implies(And(0 <= i, i < u.n), And((u.at(i) < 0) == (u0.at(i) < 0), Implies(u.at(i) < 0, u.at(i) == u0.at(i)))), [u.at(i)]))


VI = VECI


def uf_get(st, p): return st.g['uf'][(p.obj, p.off)]
def uf_set(st, p, v):
    st.g = dict(st.g)
    st.g['uf'] = dict(st.g.get('uf', {}))
    st.g['uf'][(p.obj, p.off)] = v


def view(e, st, p):
    mt = e.types.mt(VI)
    return View(e, st, p, mt, e.rd_cont(st, p, mt))


def find_result(c, p, a, R, K, T):
    """assume the contract of findSet at a call"""
    e, st = c.e, c.st
    mt = e.types.mt(VI)
    u0 = view(e, st, p)
    e.ub(st, 'findSet precondition: element of the structure', And(0 <= a, a < u0.n))
    for n, f in wf(u0, R, K, T): e.oblige(st, 'findSet precondition: ' + n, f, 'pre')
    comps = (u0.n, e.fresh('parents', AI))
    e.wr_cont(st, p, mt, comps, {1})
    u = view(e, st, p)
    for n, f in wf(u, R, K, T): st.assume(f)
    st.assume(same_roots(u0, u))
    r = e.fint('root')
    st.assume(r == R[a])
    e.bounded(st, r, 0, 1 << 60)
    e.contracts_used.add('UnionFind::findSet')
    return IV(r, 64, 'S')


def m_find(c):
    e, st = c.e, c.st
    if e.ghost.get('inline_find'):
        e.ghost['inline_find'] = False
        return NotImplemented
    p = c.args[0]
    R, K, T = uf_get(st, p)
    a = e.S(st, c.args[1])
    if 'outer' in e.ghost:
        e.ub(st, 'findSet recursion comes closer to the representative', And(0 <= a, a < view(e, st, p).n, K[a] > K[e.ghost['outer']]))
    return find_result(c, p, a, R, K, T)


def joined(R, R2, a, b, s):
    """R2 is R with the classes of a and b joined, represented by s"""
    return And(Or(s == R[a], s == R[b]), forall(i, R2[i] == If(Or(R[i] == R[a], R[i] == R[b]), s, R[i]), [R2[i]]))


def m_union(c):
    """contract of unionSets (C28)"""
    e, st = c.e, c.st
    p = c.args[0]
    R, K, T = uf_get(st, p)
    mt = e.types.mt(VI)
    a, b = e.S(st, c.args[1]), e.S(st, c.args[2])
    u0 = view(e, st, p)
    e.ub(st, 'unionSets precondition: element of the structure', And(0 <= a, a < u0.n, 0 <= b, b < u0.n))
    for n, f in wf(u0, R, K, T): e.oblige(st, 'unionSets precondition: ' + n, f, 'pre')
    e.oblige(st, 'unionSets precondition: number of operations', T < 1 << 62, 'pre')
    e.wr_cont(st, p, mt, (u0.n, e.fresh('parents', AI)), {1})
    u = view(e, st, p)
    R2, K2, s = e.fresh('rep', AI), e.fresh('height', AI), e.fint('surv')
    for n, f in wf(u, R2, K2, T + 1): st.assume(f)
    st.assume(joined(R, R2, a, b, s))
    st.assume(u.n == u0.n)
    uf_set(st, p, (R2, K2, T + 1))
    e.contracts_used.add('UnionFind::unionSets')
    return z3.simplify(R[a] != R[b])


def m_connected(c):
    """contract of connected (C28)"""
    e, st = c.e, c.st
    p = c.args[0]
    R, K, T = uf_get(st, p)
    mt = e.types.mt(VI)
    a, b = e.S(st, c.args[1]), e.S(st, c.args[2])
    u0 = view(e, st, p)
    e.ub(st, 'connected precondition: element of the structure', And(0 <= a, a < u0.n, 0 <= b, b < u0.n))
    for n, f in wf(u0, R, K, T): e.oblige(st, 'connected precondition: ' + n, f, 'pre')
    e.wr_cont(st, p, mt, (u0.n, e.fresh('parents', AI)), {1})
    u = view(e, st, p)
    for n, f in wf(u, R, K, T): st.assume(f)
    st.assume(u.n == u0.n)
    e.contracts_used.add('UnionFind::connected')
    return z3.simplify(R[a] == R[b])


UF = [(r'^UnionFind::findSet\(', m_find), (r'^UnionFind::unionSets\(', m_union), (r'^UnionFind::connected\(', m_connected)]
