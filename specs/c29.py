from spec import *
from graphm import *
DRIVER = 'c29.cpp'
FINDER = 'c29.cpp'
FLAGS = ('-fno-access-control',)
INTS, BOOLS, VECS = ('offset', 'edges', 'components'), ('forest', 'bipartite'), {'adj': SETV, 'uf': VECI, 'buf': VECI}
OPS = Int('ops')


vv, ww = Ints('some_v some_w')


def cover(B, a, b):
    ev, od = (lambda a: B[2 * a]), (lambda a: B[2 * a + 1])
    return And((ev(a) == ev(b)) == (od(a) == od(b)), (ev(a) == od(b)) == (od(a) == ev(b)))


def inv(g, goal=False, wit=Int('odd_cycle')):
    """undirected graph: connectivity and the double cover used for bipartiteness"""
    N, A, sz = g.adj()
    off = g.i('offset')
    R, K, T = g.uf('uf')
    B, KB, TB = g.uf('buf')
    out = ginv(g) + [('symmetric', forall([v, w], Implies(And(0 <= v, v < N, 0 <= w, w < N), A(v, w + off) == A(w, v + off)), [A(v, w + off)]))]
    out += [('one union-find element per vertex', And(g.vec('uf').n == N, g.vec('buf').n == 2 * N, T <= 4 * OPS, TB <= 4 * OPS))]
    out += [('components: ' + n, f) for n, f in wf(g.vec('uf'), R, K, T)] + [('double cover: ' + n, f) for n, f in wf(g.vec('buf'), B, KB, TB)]
    out += [('adjacent vertices are in the same component', forall([v, w], Implies(And(0 <= v, v < N, 0 <= w, w < N, A(v, w + off)), R[v] == R[w]), [A(v, w + off)]))]
    rng = And(0 <= v, v < N, 0 <= w, w < N)
    ev, od = (lambda a: B[2 * a]), (lambda a: B[2 * a + 1])
    out += [('double cover is symmetric', Implies(And(0 <= vv, vv < N, 0 <= ww, ww < N), cover(B, vv, ww)) if goal else forall([v, w], Implies(rng, cover(B, v, w)))),
            ('adjacent vertices have opposite sides', forall([v, w], Implies(And(rng, A(v, w + off)), And(ev(v) == od(w), od(v) == ev(w))), [A(v, w + off)])),
            ('bipartite only if no vertex meets its copy', Implies(And(g.bo('bipartite'), 0 <= vv, vv < N), ev(vv) != od(vv)) if goal else Implies(g.bo('bipartite'), forall(v, Implies(And(0 <= v, v < N), ev(v) != od(v)), [B[2 * v]]))),
            ('not bipartite only if some vertex meets its copy', Implies(Not(g.bo('bipartite')), And(0 <= wit, wit < N, ev(wit) == od(wit)))),
            ('number of components', And(g.i('components') <= N, g.i('components') >= -4 * OPS))]
    return out


def targets():
    T = []

    def state(x):
        g = graph_arg(x, INTS, BOOLS, VECS)
        for m in ('uf', 'buf'): uf_set(x.st, CP(g.oid, offs(x.e, m)), (z3.Const('rep.' + m, AI), z3.Const('height.' + m, AI), Int('merges.' + m)))
        x.assume(And(0 <= OPS, OPS < 1 << 58))
        for n, f in inv(g): x.assume(f)
        x.env['g0'] = G(x.e, x.st.fork(), g.oid)
        return g

    def vert(x, g, a):
        N, off = g.adj()[0], g.i('offset')
        x.assume(And(off <= x[a], x[a] < off + N))

    def s_add(x):
        g = state(x)
        for a in 'ab':
            x.s64(a)
            vert(x, g, a)
        N, B = g.adj()[0], g.uf('buf')[0]
        P = [vv, ww, Int('odd_cycle'), x['a'] - g.i('offset'), x['b'] - g.i('offset')]
        for p in P:
            x.assume(Implies(And(g.bo('bipartite'), 0 <= p, p < N), B[2 * p] != B[2 * p + 1]))
            for q in P: x.assume(Implies(And(0 <= p, p < N, 0 <= q, q < N), cover(B, p, q)))

    def p_add(x, o):
        if o.kind != 'ret': return None
        g, h = x['g0'], G(x.e, o.st, x['oid'])
        N, A, sz = g.adj()
        N2, A2, sz2 = h.adj()
        a, b, off = x['a'], x['b'], g.i('offset')
        a0, b0 = a - off, b - off
        R, R2 = g.uf('uf')[0], h.uf('uf')[0]
        rng = And(0 <= v, v < N, 0 <= w, w < N)
        E = lambda p, q: R[p] == R[q]
        B, B2 = g.uf('buf')[0], h.uf('buf')[0]
        out = [('vertices kept', And(N2 == N, h.i('offset') == off)), ('exactly this edge is added, in both directions', forall([v, w], Implies(And(0 <= v, v < N), A2(v, w) == Or(A(v, w), And(v == a0, w == b), And(v == b0, w == a))))),
               ('degrees count different neighbours', forall(v, Implies(And(0 <= v, v < N), sz2(v) == sz(v) + If(Or(And(v == a0, Not(A(a0, b))), And(v == b0, Not(A(b0, a)))), 1, 0)))), ('edges counted', h.i('edges') == g.i('edges') + 1),
               ('self loop reported', And(h.has_loop() == Or(g.has_loop(), a == b), Implies(a == b, Or(h.loop() == a, And(g.has_loop(), h.loop() == g.loop()))), Implies(And(g.has_loop(), a != b), h.loop() == g.loop()))),
               ('multi edge reported', And(h.has_multi() == Or(g.has_multi(), A(a0, b)), Implies(And(g.has_multi(), Not(A(a0, b))), And(h.multi()[0] == g.multi()[0], h.multi()[1] == g.multi()[1])),
                                           Implies(A(a0, b), Or(And(h.multi()[0] == a, h.multi()[1] == b), And(h.multi()[0] == b, h.multi()[1] == a), And(g.has_multi(), h.multi()[0] == g.multi()[0], h.multi()[1] == g.multi()[1]))))),
               ('components are joined exactly along the edge', forall([v, w], Implies(rng, (R2[v] == R2[w]) == Or(E(v, w), And(E(v, a0), E(b0, w)), And(E(v, b0), E(a0, w)))))),
               ('number of components', h.i('components') == g.i('components') - If(E(a0, b0), 0, 1)), ('forest exactly while no edge closes a cycle', h.bo('forest') == And(g.bo('forest'), Not(E(a0, b0))))]
        n = Int('ops')
        return out + [('kept: ' + nm, z3.substitute(f, (n, n + 1))) for nm, f in inv(h, True, If(g.bo('bipartite'), a0, Int('odd_cycle')))]
    T.append(Target('Graph::addEdge', 'd_add', s_add, p_add, models=UF, under=['Graph::addEdge', 'details::BaseGraph::addEdge_']))

    # construction: no edges, every vertex is alone
    def s_ctor(x):
        x.env['oid'] = x.e.new_obj(x.st, 'g', None, 600)
        x.args.append(CP(x['oid'], 0))
        x.ptrs['g'] = (CP(x['oid'], 0), None)
        l, r = x.s64('l'), x.s64('r')
        x.assume(And(l <= r, r - l < 1 << 58, l >= -(1 << 62), l <= 1 << 62, OPS == 0))

    def p_ctor(x, o):
        if o.kind != 'ret': return [('no memory', BoolVal(o.val in ('std::bad_alloc', 'std::length_error')))]
        for m in ('uf', 'buf'):
            R, K = z3.Const('rep.' + m, AI), z3.Const('height.' + m, AI)
            o.st.assume(And(forall(v, R[v] == v, [R[v]]), forall(v, K[v] == 0, [K[v]])))
            uf_set(o.st, CP(x['oid'], offs(x.e, m)), (R, K, IntVal(0)))
        h = G(x.e, o.st, x['oid'])
        N, A, sz = h.adj()
        return [('the vertices l to r-1', And(N == x['r'] - x['l'], h.i('offset') == x['l'])), ('no edges', And(h.i('edges') == 0, forall([v, w], Implies(And(0 <= v, v < N), Not(A(v, w)))), forall(v, Implies(And(0 <= v, v < N), sz(v) == 0)))),
                ('every vertex is a component', h.i('components') == N), ('nothing seen yet', And(Not(h.has_loop()), Not(h.has_multi()), h.bo('forest'), h.bo('bipartite')))] + [('class invariant: ' + nm, f) for nm, f in inv(h, True)]
    T.append(Target('Graph::Graph', 'd_ctor', s_ctor, p_ctor, models=UF, under=['Graph::Graph', 'details::BaseGraph::BaseGraph']))

    # queries leave the graph as it is and report what the members say
    def same(x, o):
        g, h = x['g0'], G(x.e, o.st, x['oid'])
        N, A, sz = g.adj()
        N2, A2, sz2 = h.adj()
        R, R2 = g.uf('uf')[0], h.uf('uf')[0]
        return [('the graph is not changed', And(N2 == N, h.i('offset') == g.i('offset'), h.i('edges') == g.i('edges'), h.i('components') == g.i('components'), h.bo('forest') == g.bo('forest'), h.bo('bipartite') == g.bo('bipartite'),
                forall([v, w], Implies(And(0 <= v, v < N), A2(v, w) == A(v, w))), forall(v, Implies(And(0 <= v, v < N), sz2(v) == sz(v))), h.has_loop() == g.has_loop(), h.has_multi() == g.has_multi(), h.loop() == g.loop(), h.multi()[0] == g.multi()[0], h.multi()[1] == g.multi()[1], R2 == R))] + \
            [('kept: ' + nm, f) for nm, f in inv(h, True) if 'omponents' in nm or 'cover' in nm]

    def query(name, fn, args, res, extra=None):
        def s(x):
            g = state(x)
            for a in args:
                x.s64(a)
                if a in 'ab': vert(x, g, a)
            if extra: extra(x)
        T.append(Target(name, fn, s, lambda x, o: (res(x, o, x['g0']) + same(x, o)) if o.kind == 'ret' else None, models=UF, under=[name]))
    I = lambda x, g, a: x[a] - g.i('offset')
    comp = lambda g: g.i('components') <= 1
    query('Graph::isConnected', 'd_conn', '', lambda x, o, g: [('at most one component', o.b() == comp(g))])
    query('Graph::isForest', 'd_forest', '', lambda x, o, g: [('no edge closed a cycle', o.b() == g.bo('forest'))])
    query('Graph::isTree', 'd_tree', '', lambda x, o, g: [('connected forest', o.b() == And(comp(g), g.bo('forest')))])
    query('Graph::isBipartite', 'd_bip', '', lambda x, o, g: [('no vertex met its copy', o.b() == g.bo('bipartite'))])
    query('Graph::areConnected', 'd_are', 'ab', lambda x, o, g: [('same component', o.b() == (g.uf('uf')[0][I(x, g, 'a')] == g.uf('uf')[0][I(x, g, 'b')]))])
    query('Graph::nodeCount', 'd_nodes', '', lambda x, o, g: [('number of vertices', o.s() == g.adj()[0])])
    query('Graph::size', 'd_size', '', lambda x, o, g: [('number of vertices', o.u() == g.adj()[0])])
    query('Graph::edgeCount', 'd_edges', '', lambda x, o, g: [('number of added edges', o.s() == g.i('edges'))])
    query('Graph::degree', 'd_degree', 'a', lambda x, o, g: [('number of different neighbours', o.s() == g.adj()[2](I(x, g, 'a')))])
    query('Graph::hasEdge', 'd_has', 'ab', lambda x, o, g: [('adjacent', o.b() == g.adj()[1](I(x, g, 'a'), x['b']))])
    query('Graph::hasSelfloop', 'd_loop', '', lambda x, o, g: [('a self loop if there was one', And(o.b() == g.has_loop(), Implies(o.b(), x.e.S(o.st, o.mem('v', 0, ('int', 64))) == g.loop())))], lambda x: x.raw('v', size=8, llty=('int', 64)))
    query('Graph::hasMultiedge', 'd_multi', '', lambda x, o, g: [('a multi edge if there was one', And(o.b() == g.has_multi(), Implies(o.b(), And(x.e.S(o.st, o.mem('v', 0, ('int', 64))) == g.multi()[0], x.e.S(o.st, o.mem('w', 0, ('int', 64))) == g.multi()[1]))))], lambda x: [x.raw('v', size=8, llty=('int', 64)), x.raw('w', size=8, llty=('int', 64))])
    query('Graph::operator[]', 'd_adj', 'a', lambda x, o, g: [('the set of neighbours', And(BoolVal(isinstance(o.val, EP) and o.val.par == CP(x['oid'], offs(x.e, 'adj')) and o.val.off == 0), o.val.idx == I(x, g, 'a') if isinstance(o.val, EP) else False))])
    return T


def extra_checks(repo, work, tier): yield from lean_checks('Graph.lean')
