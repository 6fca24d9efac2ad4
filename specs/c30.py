from spec import *
from graphm import *
DRIVER = 'c30.cpp'
FINDER = 'c30.cpp'
FLAGS = ('-fno-access-control',)
INTS, VECS = ('offset', 'edges', 'root', 'rootCount'), {'adj': SETV, 'rev': SETV, 'uf': VECI}
OPS = Int('ops')
closed = z3.Bool('cycle_closed')          # ghost: some edge joined vertices that were connected already
CNT = z3.Const('roots_below', AI)         # ghost: number of vertices below v without incoming edges
vv, ww = Ints('some_v some_w')


def inv(g, cl=closed, cnt=CNT):
    N, A, sz = g.adj()
    off = g.i('offset')
    M, R, rs = g.sets('rev')
    U, K, T = g.uf('uf')
    rng = And(0 <= v, v < N, 0 <= w, w < N)
    vr = And(0 <= v, v < N)
    empty = lambda a: rs(a) == 0
    out = ginv(g)
    out += [('one set of incoming edges per vertex', And(M == N, g.vec('uf').n == N, T <= 4 * OPS)), ('incoming edges mirror the edges', forall([v, w], Implies(rng, A(v, w + off) == R(w, v + off)), [A(v, w + off), R(w, v + off)])),
            ('incoming edges come from vertices', forall([v, w], Implies(And(vr, R(v, w)), And(off <= w, w < off + N)), [R(v, w)])),
            ('in degrees', forall(v, Implies(vr, And(0 <= rs(v), rs(v) <= T_(g))), [rs(v)])),
            ('in degree zero means no incoming edge', forall([v, w], Implies(And(vr, R(v, w)), rs(v) > 0), [R(v, w)]))]
    out += [('components: ' + n, f) for n, f in wf(g.vec('uf'), U, K, T)]
    out += [('adjacent vertices are in the same component', forall([v, w], Implies(And(rng, A(v, w + off)), U[v] == U[w]), [A(v, w + off)]))]
    r = g.i('root')
    out += [('first vertex without incoming edges', And(0 <= r, r <= N, forall(v, Implies(And(0 <= v, v < r, Not(cl)), Not(empty(v))), [rs(v)]), Implies(r < N, And(Not(cl), empty(r))), Implies(cl, r == N))),
            ('vertices without incoming edges', And(cnt[0] == 0, forall(v, Implies(vr, cnt[v + 1] == cnt[v] + If(empty(v), 1, 0)), [rs(v)]), g.i('rootCount') == cnt[N], g.i('rootCount') <= N, g.i('rootCount') >= -OPS))]
    return out


SB = z3.ArraySort(IntSort(), z3.BoolSort())
SSB = z3.ArraySort(IntSort(), SB)
Card, Fin, Wit = z3.Function('card', SB, IntSort()), z3.Function('finite', SB, z3.BoolSort()), z3.Function('element', SB, IntSort())
S = z3.Const('S!', SB)
CARD = [z3.ForAll([S], Implies(Fin(S), And(Card(S) >= 0, Implies(Card(S) > 0, S[Wit(S)]))), patterns=[Card(S)]),
        z3.ForAll([S, w], Implies(And(Fin(S), S[w]), Card(S) > 0), patterns=[z3.MultiPattern(Fin(S), S[w])]),
        z3.ForAll([S, w], Implies(Fin(S), And(Fin(z3.Store(S, w, False)), Implies(S[w], Card(z3.Store(S, w, False)) == Card(S) - 1))), patterns=[z3.Store(S, w, False)])]
# the arguments about positions: at is a position of every element, see lean/Graph.lean


def fits(at, O, N): return Implies(forall(v, Implies(And(0 <= v, v < O.n), And(0 <= O.at(v), O.at(v) < N, at[O.at(v)] == v))), O.n <= N)


def covers(at, O, N):
    z = Int('left_out')
    return And(Implies(Not(And(0 <= z, z < N, Not(And(0 <= at[z], at[z] < O.n, O.at(at[z]) == z)))), And(forall(v, Implies(And(0 <= v, v < N), And(0 <= at[v], at[v] < O.n, O.at(at[v]) == v)), [at[v]]), N <= O.n)),
               Implies(And(O.n == N, forall(v, Implies(And(0 <= v, v < O.n), And(0 <= O.at(v), O.at(v) < N, at[O.at(v)] == v)))), forall(v, Implies(And(0 <= v, v < N), And(0 <= at[v], at[v] < N, O.at(at[v]) == v)), [at[v]])))


def targets():
    T = []

    def state(x):
        g = graph_arg(x, INTS, (), VECS)
        uf_set(x.st, CP(g.oid, offs(x.e, 'uf')), (z3.Const('rep.uf', AI), z3.Const('height.uf', AI), Int('merges.uf')))
        x.assume(And(0 <= OPS, OPS < 1 << 58))
        for n, f in inv(g): x.assume(f)
        x.env['g0'] = G(x.e, x.st.fork(), g.oid)
        return g

    def vert(x, g, a):
        N, off = g.adj()[0], g.i('offset')
        x.assume(And(off <= x[a], x[a] < off + N))

    def s_add(x):
        g = state(x)
        for a in 'ab':
            x.s64(a)
            vert(x, g, a)

    def view(L): return G(L.e, L.st, L.e.x['oid'])

    def p_add(x, o):
        if o.kind != 'ret': return None
        g, h = x['g0'], G(x.e, o.st, x['oid'])
        N, A, sz = g.adj()
        N2, A2, sz2 = h.adj()
        M, R, rs = g.sets('rev')
        M2, R2, rs2 = h.sets('rev')
        a, b, off = x['a'], x['b'], g.i('offset')
        a0, b0 = a - off, b - off
        U, U2 = g.uf('uf')[0], h.uf('uf')[0]
        vr = And(0 <= v, v < N)
        cl = Or(closed, U[a0] == U[b0])
        cnt = z3.Lambda([v], CNT[v] - If(And(v > b0, rs(b0) == 0), 1, 0))
        out = [('vertices kept', And(N2 == N, M2 == N, h.i('offset') == off)), ('exactly this edge is added', forall([v, w], Implies(vr, A2(v, w) == Or(A(v, w), And(v == a0, w == b))))),
               ('exactly this incoming edge is added', forall([v, w], Implies(vr, R2(v, w) == Or(R(v, w), And(v == b0, w == a))))),
               ('degrees count different neighbours', forall(v, Implies(vr, And(sz2(v) == sz(v) + If(And(v == a0, Not(A(a0, b))), 1, 0), rs2(v) == rs(v) + If(And(v == b0, Not(R(b0, a))), 1, 0))))), ('edges counted', h.i('edges') == g.i('edges') + 1),
               ('self loop reported', And(h.has_loop() == Or(g.has_loop(), a == b), Implies(a == b, Or(h.loop() == a, And(g.has_loop(), h.loop() == g.loop()))), Implies(And(g.has_loop(), a != b), h.loop() == g.loop()))),
               ('multi edge reported', And(h.has_multi() == Or(g.has_multi(), A(a0, b)), Implies(And(g.has_multi(), Not(A(a0, b))), And(h.multi()[0] == g.multi()[0], h.multi()[1] == g.multi()[1])),
                                           Implies(A(a0, b), Or(And(h.multi()[0] == a, h.multi()[1] == b), And(g.has_multi(), h.multi()[0] == g.multi()[0], h.multi()[1] == g.multi()[1]))))),
               ('components are joined exactly along the edge', forall([v, w], Implies(And(vr, 0 <= w, w < N), (U2[v] == U2[w]) == Or(U[v] == U[w], And(U[v] == U[a0], U[b0] == U[w]), And(U[v] == U[b0], U[a0] == U[w]))))),
               ('number of vertices without incoming edges', h.i('rootCount') == g.i('rootCount') - If(rs(b0) == 0, 1, 0))]
        n = Int('ops')
        return out + [('kept: ' + nm, z3.substitute(f, (n, n + 1))) for nm, f in inv(h, cl, cnt)]

    def inv_root(L):
        h, g = view(L), L.e.x['g0']
        N = g.adj()[0]
        rs = h.sets('rev')[2]
        r = h.i('root')
        M = h.sets('rev')[0]
        U = g.uf('uf')[0]
        cl = Or(closed, U[L.e.x['a'] - g.i('offset')] == U[L.e.x['b'] - g.i('offset')])
        return [('vertices below have incoming edges', And(M == N, 0 <= r, r <= N, Implies(Not(cl), forall(v, Implies(And(0 <= v, v < r), rs(v) > 0), [rs(v)])))), ('root is at the end if a cycle was closed', Implies(cl, r == N))]
    la = [LoopSpec(r'^DiGraph::addEdge\(', 0, {}, inv_root, name='next root', variant=lambda L: view(L).adj()[0] - view(L).i('root'))]
    T.append(Target('DiGraph::addEdge', 'd_add', s_add, p_add, loops=la, models=UF, under=['DiGraph::addEdge', 'details::BaseGraph::addEdge_']))

    def s_ctor(x):
        x.env['oid'] = x.e.new_obj(x.st, 'g', None, 600)
        x.args.append(CP(x['oid'], 0))
        x.ptrs['g'] = (CP(x['oid'], 0), None)
        l, r = x.s64('l'), x.s64('r')
        x.assume(And(l <= r, r - l < 1 << 58, l >= -(1 << 62), l <= 1 << 62, OPS == 0))

    def p_ctor(x, o):
        if o.kind != 'ret': return [('no memory', BoolVal(o.val in ('std::bad_alloc', 'std::length_error')))]
        R, K = z3.Const('rep.uf', AI), z3.Const('height.uf', AI)
        o.st.assume(And(forall(v, R[v] == v, [R[v]]), forall(v, K[v] == 0, [K[v]]), forall(v, CNT[v] == v, [CNT[v]]), Not(closed)))
        uf_set(o.st, CP(x['oid'], offs(x.e, 'uf')), (R, K, IntVal(0)))
        h = G(x.e, o.st, x['oid'])
        N, A, sz = h.adj()
        return [('the vertices l to r-1', And(N == x['r'] - x['l'], h.i('offset') == x['l'])), ('no edges', And(h.i('edges') == 0, forall([v, w], Implies(And(0 <= v, v < N), Not(A(v, w)))), forall(v, Implies(And(0 <= v, v < N), sz(v) == 0)))),
                ('no vertex has incoming edges', h.i('rootCount') == N), ('nothing seen yet', And(Not(h.has_loop()), Not(h.has_multi())))] + [('class invariant: ' + nm, f) for nm, f in inv(h)]
    T.append(Target('DiGraph::DiGraph', 'd_ctor', s_ctor, p_ctor, models=UF, under=['DiGraph::DiGraph', 'details::BaseGraph::BaseGraph']))

    def same(x, o):
        g, h = x['g0'], G(x.e, o.st, x['oid'])
        N, A, sz = g.adj()
        N2, A2, sz2 = h.adj()
        M, R, rs = g.sets('rev')
        M2, R2, rs2 = h.sets('rev')
        vr = And(0 <= v, v < N)
        return [('the graph is not changed', And(N2 == N, M2 == M, *[h.i(m) == g.i(m) for m in INTS],
                forall([v, w], Implies(vr, And(A2(v, w) == A(v, w), R2(v, w) == R(v, w)))), forall(v, Implies(vr, And(sz2(v) == sz(v), rs2(v) == rs(v)))), h.has_loop() == g.has_loop(), h.has_multi() == g.has_multi(), h.loop() == g.loop(), h.multi()[0] == g.multi()[0], h.multi()[1] == g.multi()[1]))]

    def query(name, fn, args, res, extra=None, loops=()):
        def s(x):
            g = state(x)
            for a in args:
                x.s64(a)
                if a in 'ab': vert(x, g, a)
            if extra: extra(x)
        T.append(Target(name, fn, s, lambda x, o: (res(x, o, x['g0']) + same(x, o)) if o.kind == 'ret' else None, models=UF, under=[name], loops=loops))
    I = lambda x, g, a: x[a] - g.i('offset')

    def isset(x, o, m, idx): return And(BoolVal(isinstance(o.val, EP) and o.val.par == CP(x['oid'], offs(x.e, m)) and o.val.off == 0), o.val.idx == idx if isinstance(o.val, EP) else False)
    raw = lambda *ns: (lambda x: [x.raw(n, size=8, llty=('int', 64)) for n in ns])
    cell = lambda x, o, n: x.e.S(o.st, o.mem(n, 0, ('int', 64)))
    query('DiGraph::nodeCount', 'd_nodes', '', lambda x, o, g: [('number of vertices', o.s() == g.adj()[0])])
    query('DiGraph::size', 'd_size', '', lambda x, o, g: [('number of vertices', o.u() == g.adj()[0])])
    query('DiGraph::edgeCount', 'd_edges', '', lambda x, o, g: [('number of added edges', o.s() == g.i('edges'))])
    query('DiGraph::outDegree', 'd_out', 'a', lambda x, o, g: [('number of different successors', o.s() == g.adj()[2](I(x, g, 'a')))])
    query('DiGraph::inDegree', 'd_in', 'a', lambda x, o, g: [('number of different predecessors', o.s() == g.sets('rev')[2](I(x, g, 'a')))])
    query('DiGraph::hasEdge', 'd_has', 'ab', lambda x, o, g: [('edge from a to b', o.b() == g.adj()[1](I(x, g, 'a'), x['b']))])
    query('DiGraph::hasReverse', 'd_rev', 'ab', lambda x, o, g: [('edge from b to a', o.b() == g.adj()[1](I(x, g, 'b'), x['a']))])
    query('DiGraph::hasSelfloop', 'd_loop', '', lambda x, o, g: [('a self loop if there was one', And(o.b() == g.has_loop(), Implies(o.b(), cell(x, o, 'v') == g.loop())))], raw('v'))
    query('DiGraph::hasMultiedge', 'd_multi', '', lambda x, o, g: [('a multi edge if there was one', And(o.b() == g.has_multi(), Implies(o.b(), And(cell(x, o, 'v') == g.multi()[0], cell(x, o, 'w') == g.multi()[1]))))], raw('v', 'w'))
    query('DiGraph::operator[]', 'd_adj', 'a', lambda x, o, g: [('the set of successors', isset(x, o, 'adj', I(x, g, 'a')))])
    query('DiGraph::inEdges', 'd_inE', 'a', lambda x, o, g: [('the set of predecessors', isset(x, o, 'rev', I(x, g, 'a')))])

    # a positive prefix count has a witness (lean/Graph.lean)
    def x_tree(x):
        raw('v')(x)
        g = x['g0']
        z, N = Int('some_root'), g.adj()[0]
        x.assume(Implies(CNT[N] > 0, And(0 <= z, z < N, g.sets('rev')[2](z) == 0)))
        x.assume(g.sets('rev')[2](z) == g.sets('rev')[2](z))

    def r_tree(x, o, g):
        N, off = g.adj()[0], g.i('offset')
        return [('a tree has one root, one edge less than vertices, and no cycle', o.b() == And(CNT[N] == 1, Not(closed), g.i('edges') == N - 1)), ('the root is the vertex without incoming edges', Implies(o.b(), And(off <= cell(x, o, 'v'), cell(x, o, 'v') < off + N, g.sets('rev')[2](cell(x, o, 'v') - off) == 0)))]
    query('DiGraph::isTree', 'd_tree', '', r_tree, x_tree)

    # topological order
    def x_dag(x):
        x.vec('out')
        for f in CARD: x.assume(f)
        g = x['g0']
        mt = x.e.types.mt(SETV)
        rev = x.e.rd_cont(x.st, CP(g.oid, offs(x.e, 'rev')), mt)
        x.env['rev'] = rev[1]
        x.assume(forall(v, Implies(And(0 <= v, v < g.adj()[0]), And(Fin(rev[1][v]), Card(rev[1][v]) == rev[2][v])), [rev[2][v]]))

    def common(L, O, Td, deg, W, at, visited, xi=None):
        g = L.e.x['g0']
        N, A, sz = g.adj()
        off = g.i('offset')
        M, R, rs = g.sets('rev')
        vr = And(0 <= v, v < N)
        done = lambda x_, v_: And(at[x_] >= 0, Or(x_ != xi, visited(v_ + off))) if xi is not None else at[x_] >= 0
        return [('one counter per vertex', deg.n == N), ('the order lists vertices', forall(v, Implies(And(0 <= v, v < O.n), And(0 <= O.at(v), O.at(v) < N, at[O.at(v)] == v)), [O.at(v)])),
                ('vertices to do', forall(v, Implies(And(0 <= v, v < Td.n), And(0 <= Td.at(v), Td.at(v) < N, at[Td.at(v)] == -2 - v)), [Td.at(v)])),
                ('positions', forall(v, Implies(vr, And(Implies(at[v] >= 0, And(at[v] < O.n, O.at(at[v]) == v)), Implies(at[v] <= -2, And(-2 - at[v] < Td.n, Td.at(-2 - at[v]) == v)))), [at[v]])),
                ('counted vertices are listed exactly at zero', forall(v, Implies(vr, (deg.at(v) == 0) == (at[v] != -1)), [deg.at(v), at[v]])),
                ('counters', forall(v, Implies(vr, And(deg.at(v) == Card(W[v]), Fin(W[v]), Card(W[v]) >= 0)), [deg.at(v), W[v]])),
                ('waiting for predecessors that are not in the order', forall([v, w], Implies(And(vr, 0 <= w, w < N), z3.Select(W[v], w + off) == And(R(v, w + off), Not(done(w, v)))), [z3.Select(W[v], w + off), R(v, w + off)])),
                ('waiting for vertices', forall([v, w], Implies(And(vr, z3.Select(W[v], w)), And(off <= w, w < off + N, R(v, w))), [z3.Select(W[v], w)])),
                ('the order is topological', forall([v, w], Implies(And(vr, 0 <= w, w < N, R(v, w + off), at[v] >= 0), And(0 <= at[w], at[w] < at[v])), [R(v, w + off)]))]

    def inv0(L):
        g = L.e.x['g0']
        rs = g.sets('rev')[2]
        N = g.adj()[0]
        i, Td, deg, at = L['i'], L['todo'], L['deg'], L['at']
        return [('range', And(0 <= i, i <= N, deg.n == N, L['order'].n == 0)), ('in degrees copied', forall(v, Implies(And(0 <= v, v < i), deg.at(v) == rs(v)), [deg.at(v)])),
                ('vertices to do', And(Td.n <= i, forall(v, Implies(And(0 <= v, v < Td.n), And(0 <= Td.at(v), Td.at(v) < i, at[Td.at(v)] == -2 - v)), [Td.at(v)]))),
                ('exactly the vertices without incoming edges', forall(v, And(Implies(And(0 <= v, v < i), (rs(v) == 0) == (at[v] != -1)), Implies(v >= i, at[v] == -1), at[v] <= -1, Implies(at[v] <= -2, And(-2 - at[v] < Td.n, Td.at(-2 - at[v]) == v))), [at[v]]))]
    step0 = lambda L, LB: If(LB['todo'].n > L['todo'].n, z3.Store(L['at'], L['i'], -2 - L['todo'].n), L['at'])
    no = lambda y: BoolVal(False)

    def inv1(L): return common(L, L['order'], L['todo'], L['deg'], L['W'], L['at'], no)

    def lem(L):
        N = L.e.x['g0'].adj()[0]
        return [fits(L['at'], L['order'], N)]

    def inv2(L):
        g = L.e.x['g0']
        it, O = L['it'], L['order']
        if not isinstance(it, NodeP): return [('position in the set of successors', BoolVal(False))]
        xi = O.at(O.n - 1)
        A = g.adj()[1]
        return [('position in the set of successors', And(O.n > 0, L['at'][xi] == O.n - 1, Implies(Not(it.end), A(xi, it.key))))] + common(L, O, L['todo'], L['deg'], L['W'], L['at'], lambda y: Or(it.end, y < it.key), xi)
    y2 = lambda L: L['it'].key - L.e.x['g0'].i('offset')
    stepW = lambda L, LB: z3.Store(L['W'], y2(L), z3.Store(L['W'][y2(L)], L['order'].at(L['order'].n - 1) + L.e.x['g0'].i('offset'), False))
    step2 = lambda L, LB: If(LB['todo'].n > L['todo'].n, z3.Store(L['at'], y2(L), -2 - L['todo'].n), L['at'])
    gh = lambda n: (lambda L: L.st.g['ghost_' + n])
    gh2 = lambda n: (lambda L, LB: LB.st.g['ghost_' + n])
    enter_at = lambda L: z3.Store(gh('at')(L), L['order'].at(L['order'].n - 1), L['order'].n - 1)

    def inv3(L):
        O, c, O0 = L['order'], L['cur'], L.old('order')
        off = L.e.x['g0'].i('offset')
        N = L.e.x['g0'].adj()[0]
        if L is L.pre: L.st.assume(covers(gh('at')(L), O, N))
        return [('shifted by the offset', And(0 <= c, c <= O.n, O.n == O0.n, forall(v, Implies(And(0 <= v, v < O.n), O.at(v) == O0.at(v) + If(v < c, off, 0)), [O.at(v)])))]
    roles = {'order': ('vec', 'order'), 'todo': ('vec', 'todo'), 'deg': ('vec', 'deg')}
    F = r'^DiGraph::isDAG\('
    ld = [LoopSpec(F, 0, dict(roles, i=('u64', 'i', 'v')), inv0, name='count', ghosts={'at': (lambda L: z3.K(IntSort(), IntVal(-1)), step0)}, variant=lambda L: L.e.x['g0'].adj()[0] - L['i']),
          LoopSpec(F, 1, roles, inv1, name='take', lemmas=lem, ghosts={'at': (gh('at'), gh2('at')), 'W': (lambda L: L.e.x['rev'], gh2('W'))}, variant=lambda L: L.e.x['g0'].adj()[0] - L['order'].n),
          LoopSpec(F, 2, dict(roles, it=('node', '__begin', 'it')), inv2, name='successors', ghosts={'at': (enter_at, step2), 'W': (gh('W'), stepW)},
                   variant=lambda L: If(L['it'].end, 0, L.e.x['g0'].i('offset') + L.e.x['g0'].adj()[0] - L['it'].key)),
          LoopSpec(F, 3, {'order': ('vec', 'order'), 'cur': ('cur', '__begin', 'i')}, inv3, name='shift', variant=lambda L: L['order'].n - L['cur'])]

    def r_dag(x, o, g):
        N, A, sz = g.adj()
        off = g.i('offset')
        R = g.sets('rev')[1]
        at = o.st.g['ghost_at']
        O = o.vec('out')
        vr = And(0 <= v, v < N)
        stuck = lambda a: at[a] < 0
        W = o.st.g['ghost_W']
        z = Int('left_out')
        u = Int('some_v')
        acyc = o.b()
        res = [('returned orders contain every vertex exactly once', Implies(acyc, And(O.n == N, forall(v, Implies(And(0 <= v, v < N), And(off <= O.at(v), O.at(v) < off + N, at[O.at(v) - off] == v))), forall(v, Implies(vr, And(0 <= at[v], at[v] < N, O.at(at[v]) == v + off)))))),
               ('edges lead forward in the returned order', Implies(acyc, forall([v, w], Implies(And(vr, 0 <= w, w < N, A(v, w + off)), at[v] < at[w])))),
               ('without an order some vertices are left', Implies(Not(acyc), And(0 <= z, z < N, stuck(z)))),
               ('every vertex that is left has a predecessor that is left', Implies(And(Not(acyc), 0 <= u, u < N, stuck(u)), And(A(Wit(W[u]) - off, u + off), off <= Wit(W[u]), Wit(W[u]) < off + N, stuck(Wit(W[u]) - off))))]
        return res
    query('DiGraph::isDAG', 'd_dag', '', r_dag, x_dag, ld)
    return T


def extra_checks(repo, work, tier): yield from lean_checks('Graph.lean')
