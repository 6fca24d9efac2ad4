from spec import *
from ufm import *
DRIVER = 'c28.cpp'
FINDER = 'c28.cpp'


def targets():
    T = []
    R, K, N = z3.Const('rep', AI), z3.Const('height', AI), Int('merges')

    def state(x):
        u = x.vec('u')
        x.assume(And(0 <= N, N < 1 << 62))
        for _, f in wf(u, R, K, N): x.assume(f)
        uf_set(x.st, x.ptrs['u'][0], (R, K, N))
        return u
    M = [(r'^UnionFind::findSet\(', m_find)]
    inr = lambda u, a: And(0 <= a, a < u.n)

    def s_ctor(x):
        x.out('u')
        x.s64('n')
        x.assume(And(0 <= x['n'], x['n'] < 1 << 58))
        x.assume(And(forall(i, R[i] == i, [R[i]]), forall(i, K[i] == 0, [K[i]]), N == 0))
    T.append(Target('UnionFind::UnionFind', 'd_ctor', s_ctor, lambda x, o: [('one class per element', o.vec('u').n == x['n'])] + [('initially alone: ' + n, f) for n, f in wf(o.vec('u'), R, K, N)] if o.kind == 'ret' else [('no memory', BoolVal(o.val == 'std::bad_alloc' or o.val == 'std::length_error'))], under=['UnionFind::UnionFind']))

    def s_find(x):
        u = state(x)
        a = x.s64('a')
        x.assume(inr(u, a))
        x.e.ghost['inline_find'] = True
        x.e.ghost['outer'] = a

    def p_find(x, o):
        if o.kind != 'ret': return None
        u = o.vec('u')
        return [('the representative of the class', o.s() == R[x['a']])] + [('kept: ' + n, f) for n, f in wf(u, R, K, N)] + [('no class is changed', same_roots(x['u'], u))]
    # an iterative search may replace the recursion
    def invf(L):
        u, c, x = L['u'], L['cur'], L.e.x
        return [('still in the class', And(0 <= c, c < u.n, R[c] == R[x['a']]))] + wf(u, R, K, N) + [('no class is changed', same_roots(x['u'], u))]
    lf = [LoopSpec(r'^UnionFind::findSet\b', 0, {'u': ('vec', 'u', 'unions'), 'cur': ('s64', 'root', 'r', 'n', 'cur', 'x', 'i')}, invf, name='walk', variant=lambda L: K[R[L.e.x['a']]] - K[L['cur']]),
          LoopSpec(r'^UnionFind::findSet\b', 1, {'u': ('vec', 'u', 'unions'), 'cur': ('s64', 'n', 'cur', 'x', 'i'), 'rt': ('s64', 'root', 'r', 'rep', 'res')}, lambda L: invf(L) + [('root found', L['rt'] == R[L.e.x['a']])], name='compress', variant=lambda L: K[R[L.e.x['a']]] - K[L['cur']])]
    T.append(Target('UnionFind::findSet', 'd_find', s_find, p_find, loops=lf, models=M, under=['UnionFind::findSet']))

    def s_two(x):
        u = state(x)
        x.assume(And(inr(u, x.s64('a')), inr(u, x.s64('b'))))

    def p_conn(x, o):
        if o.kind != 'ret': return None
        return [('connected exactly within a class', o.b() == (R[x['a']] == R[x['b']]))] + [('kept: ' + n, f) for n, f in wf(o.vec('u'), R, K, N)] + [('no class is changed', same_roots(x['u'], o.vec('u')))]
    T.append(Target('UnionFind::connected', 'd_conn', s_two, p_conn, models=M, under=['UnionFind::connected']))

    def p_union(x, o):
        if o.kind != 'ret': return None
        a, b, u = x['a'], x['b'], o.vec('u')
        ra, rb = R[a], R[b]
        s = If(u.at(ra) < 0, ra, rb)
        l = If(u.at(ra) < 0, rb, ra)
        R2, K2 = z3.Const('rep2', AI), z3.Const('height2', AI)
        w = And(forall(i, R2[i] == If(Or(R[i] == ra, R[i] == rb), s, R[i]), [R2[i]]), forall(i, K2[i] == K[i] + If(And(R[i] == s, ra != rb), K[l] + 1, 0), [K2[i]]))
        E = lambda p, q: R[p] == R[q]
        return [('true exactly if the classes were different', o.b() == (ra != rb)), ('size kept', u.n == x['u'].n)] + \
            [('merged: ' + n, Implies(w, f)) for n, f in wf(u, R2, K2, N + 1)] + \
            [('exactly these two classes are joined', Implies(w, forall([i, j], Implies(And(inr(u, i), inr(u, j)), (R2[i] == R2[j]) == Or(E(i, j), And(E(i, a), E(b, j)), And(E(i, b), E(a, j)))))))]
    T.append(Target('UnionFind::unionSets', 'd_union', s_two, p_union, models=M, under=['UnionFind::unionSets', 'UnionFind::linkSets']))
    return T


ASSUMPTIONS = ['fewer than 2^62 sets are joined']
