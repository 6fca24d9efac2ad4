from spec import *
from ggm import *
DRIVER = 'c31.cpp'
FINDER = 'c31.cpp'
LIM = 1 << 58


def targets():
    T = []

    def tgt(name, entry, setup, post, under, E, dir, loops=(), models=(), **kw):
        def s(x):
            types(x, E)
            setup(x)
        T.append(Target(name + (' (directed)' if dir else '') + (' (no data)' if E != 'long' else ''), entry, s, post, loops=list(loops), models=MODELS + list(models), under=['GraphType::' + under], **kw))

    def out(x, n):
        oid = x.e.new_obj(x.st, n, None, 8)
        x.args.append(CP(oid, 0))
        x.env[n] = CP(oid, 0)

    def rd(x, o, n):
        v = x.e.load(o.st, x[n], I64)
        return x.e.S(o.st, v) if hasattr(v, 'tag') else Int('unset_' + n)
    for dir in (False, True):
        for E in ('long', 'GraphDetail::NoData'):
            P = ('d' if dir else 'u') if E == 'long' else ('nd' if dir else 'nu')
            gs = lambda x, o, dir=dir, E=E: GS(x.e, o.st, x['g'].p, E, dir)
            p_, q_ = Ints('p q')

            def s_ab(x, dir=dir, E=E):
                x.env['g'] = graph(x, 'g', E, dir)
                x.s64('a'), x.s64('b')

            def unchanged(x, o, gs=gs):
                h, g = gs(x, o), x['g']
                return [('graph unchanged', And([u == t for u, t in zip(h.ac + h.ec + (h.lo,), g.ac + g.ec + (g.lo,))]))]

            def valid(x): return And(x['g'].node(x['a']), x['g'].node(x['b']))

            def p_has(x, o, unchanged=unchanged):
                if o.kind == 'throw': return [('only vertices outside are rejected', Not(valid(x)))]
                return [('vertices outside are rejected', valid(x)), ('edge exists', o.b() == x['g'].A(x['a'], x['b']))] + unchanged(x, o)
            if E == 'long': tgt('hasEdge', P + '_has', s_ab, p_has, 'hasEdge', E, dir, expects=('ret', 'throw'))

            def s_add(x, s_ab=s_ab, E=E):
                s_ab(x)
                x.assume(x['g'].m < LIM)
                if E == 'long':
                    oid = x.e.new_obj(x.st, 'data', None, 8)
                    t = Int('data')
                    x.e.typed(x.st, t, 64, 'S')
                    x.e.store(x.st, CP(oid, 0), IV(t, 64, 'S'), I64)
                    x.args.append(CP(oid, 0))
                    x.env['data'] = t
                for n in ('from', 'to') + (('rdata',) if E == 'long' else ()): out(x, n)

            def relation(x, o, h, f, dir=dir):
                """adjacency of h is f(p, q, adjacency before)"""
                g = x['g']
                return ('exactly the expected edges', forall([p_, q_], Implies(And(g.node(p_), g.node(q_)), h.A(p_, q_) == f(p_, q_, g.A(p_, q_)))))

            def p_add(x, o, dir=dir, E=E, gs=gs, relation=relation, unchanged=unchanged):
                g, a, b = x['g'], x['a'], x['b']
                ok = And(valid(x), a != b)
                if o.kind == 'throw': return [('only vertices outside and loops are rejected', Not(ok))] + unchanged(x, o)
                h = gs(x, o)
                new = lambda p, q: Or([And(p == a, q == b)] + ([] if dir else [And(p == b, q == a)]))
                r = [('vertices outside and loops are rejected', ok)] + h.inv() + [('vertices unchanged', And(h.n == g.n, h.lo == g.lo)), relation(x, o, h, lambda p, q, A: Or(A, new(p, q))), ('number of edges', h.m == g.m + If(g.A(a, b), 0, 1)),
                     ('degrees', forall(p_, Implies(g.node(p_), h.sz[p_ - g.lo] == g.sz[p_ - g.lo] + If(And(Or([p_ == a] + ([] if dir else [p_ == b])), Not(g.A(a, b))), 1, 0)))), ('returned edge', And(rd(x, o, 'from') == a, rd(x, o, 'to') == b))]
                r += [('contract: ' + nm, f) for nm, f in added(g, h, a, b, x['data'] if E == 'long' else None)]
                if E == 'long': r += [('data of the edges', forall([p_, q_], Implies(And(g.node(p_), g.node(q_), h.A(p_, q_)), h.D(p_, q_) == If(new(p_, q_), x['data'], g.D(p_, q_))))), ('returned data', rd(x, o, 'rdata') == x['data'])]
                return r
            tgt('addEdge', P + '_add', s_add, p_add, 'addEdge', E, dir, expects=('ret', 'throw'))

            def p_erase(x, o, dir=dir, E=E, gs=gs, relation=relation, unchanged=unchanged):
                g, a, b = x['g'], x['a'], x['b']
                if o.kind == 'throw': return [('only vertices outside are rejected', Not(valid(x)))] + unchanged(x, o)
                h = gs(x, o)
                gone = lambda p, q: Or([And(p == a, q == b)] + ([] if dir else [And(p == b, q == a)]))
                r = [('vertices outside are rejected', valid(x)), ('erased if it was there', o.b() == g.A(a, b))] + h.inv() + [('vertices unchanged', And(h.n == g.n, h.lo == g.lo)), relation(x, o, h, lambda p, q, A: And(A, Not(gone(p, q)))), ('number of edges', h.m == g.m - If(g.A(a, b), 1, 0)),
                     ('degrees', forall(p_, Implies(g.node(p_), h.sz[p_ - g.lo] == g.sz[p_ - g.lo] - If(And(Or([p_ == a] + ([] if dir else [p_ == b])), g.A(a, b)), 1, 0))))]
                if E == 'long': r += [('data of the edges', forall([p_, q_], Implies(And(g.node(p_), g.node(q_), h.A(p_, q_)), h.D(p_, q_) == g.D(p_, q_))))]
                return r
            tgt('eraseEdge', P + '_erase', s_ab, p_erase, 'eraseEdge', E, dir, expects=('ret', 'throw'))

    # ------------------------------------------------------------------ loops of the class
    def GTF(m): return r'GraphType<.*>::%s\(' % m
    CUR = ('cur', 'cur', '__begin', 'it', 'i')

    def G_(L, E, dir, p=None): return GS(L.e, L.st, p if p is not None else L['this'], E, dir)

    def cleared(g, c): return ('cleared so far', And(0 <= c, c <= g.n, forall(v_, Implies(And(0 <= v_, v_ < c), And(g.dom[v_] == EMPTY, g.sz[v_] == 0)), [g.dom[v_]], )))

    def lp_clear(m, E, dir): return LoopSpec(GTF(m), 0, {'this': ('ptr', 'this'), 'cur': CUR}, lambda L: [cleared(G_(L, E, dir), L['cur'])], name=m + ': clear', variant=lambda L: G_(L, E, dir).n - L['cur'])

    def lp_build(E, dir, hints=None):
        def enter(L):
            g = G_(L, E, dir)
            for nm, f in hints(L, g) if hints else []:
                L.e.oblige(L.st, 'buildAdj: ' + nm, f, 'lemma')
                L.st.assume(f)
            for nm, f in (('edges connect vertices', And(g.sane(), g.ends())), ('no edge twice', g.distinct())):
                L.e.oblige(L.st, 'buildAdj: ' + nm, f, 'lemma')
                L.st.assume(f)

        def inv(L):
            g = G_(L, E, dir)
            return [('position', And(0 <= L['cur'], L['cur'] <= g.m))] + g.entered(L['cur'])
        return LoopSpec(GTF('buildAdj'), 0, {'this': ('ptr', 'this'), 'cur': CUR}, inv, name='buildAdj', enter=enter, variant=lambda L: G_(L, E, dir).m - L['cur'])

    def same_edges(h, g): return And(h.m == g.m, forall(i_, Implies(And(0 <= i_, i_ < g.m), And(h.K[i_] == g.K[i_], h.T[i_] == g.T[i_], h.DT[i_] == g.DT[i_])), [h.K[i_]], ))

    for dir in (False, True):
        E = 'long'
        P = 'd' if dir else 'u'
        GSn = lambda x, o, n, dir=dir: GS(x.e, o.st, x[n] if isinstance(x[n], CP) else x[n].p, 'long', dir)
        p_, q_ = Ints('p q')
        nd = lambda g, p, q: And(g.node(p), g.node(q))

        def same_graph(h, g): return [('same vertices', And(h.n == g.n, h.lo == g.lo)), ('same edges', forall([p_, q_], Implies(nd(g, p_, q_), h.A(p_, q_) == g.A(p_, q_)))), ('same number of edges', h.m == g.m),
                                      ('same data', forall([p_, q_], Implies(And(nd(g, p_, q_), g.A(p_, q_)), h.D(p_, q_) == g.D(p_, q_))))]

        def kept(x, o, n='g', dir=dir, GSn=GSn):
            h, g = GSn(x, o, n), x[n]
            return [('graph unchanged', And([u == t for u, t in zip(h.ac + h.ec + (h.lo,), g.ac + g.ec + (g.lo,))]))]

        # constructors
        def s_ctor(x):
            x.env['r'] = fresh_graph(x, 'r')
            x.s64('l'), x.s64('u')
            x.assume(And(-(1 << 60) < x['l'], x['l'] < 1 << 60, -(1 << 60) < x['u'], x['u'] < 1 << 60, x['u'] - x['l'] < LIM))

        def p_ctor(x, o, GSn=GSn):
            if o.kind == 'throw': return [('only negative sizes are rejected', x['u'] < x['l'])]
            h = GSn(x, o, 'r')
            return [('negative sizes are rejected', x['l'] <= x['u'])] + h.inv() + [('vertices', And(h.n == x['u'] - x['l'], h.lo == x['l'])), ('no edges', And(h.m == 0, forall([p_, q_], Implies(nd(h, p_, q_), Not(h.A(p_, q_))))))]
        tgt('GraphType(from, to)', P + '_ctor', s_ctor, p_ctor, 'GraphType', E, dir, expects=('ret', 'throw'))

        def s_ctor1(x):
            x.env['r'] = fresh_graph(x, 'r')
            x.env['l'] = IntVal(0)
            x.s64('u')
            x.assume(And(-(1 << 60) < x['u'], x['u'] < LIM))
        tgt('GraphType(n)', P + '_ctor1', s_ctor1, p_ctor, 'GraphType', E, dir, expects=('ret', 'throw'))

        def s_copy(x, dir=dir):
            x.env['r'] = fresh_graph(x, 'r')
            x.env['g'] = graph(x, 'g', 'long', dir)

        def p_copy(x, o, GSn=GSn, kept=kept):
            if o.kind != 'ret': return None
            h = GSn(x, o, 'r')
            return h.inv() + same_graph(h, x['g']) + kept(x, o) + [('same degrees', forall(v_, Implies(And(0 <= v_, v_ < h.n), h.sz[v_] == x['g'].sz[v_])))]
        tgt('GraphType(copy)', P + '_copy', s_copy, p_copy, 'GraphType', E, dir, loops=[lp_build(E, dir)])

        def s_assign(x, dir=dir):
            x.env['r'] = graph(x, 'r', 'long', dir)
            x.env['g'] = graph(x, 'g', 'long', dir)
        tgt('operator=', P + '_assign', s_assign, p_copy, 'operator=', E, dir, loops=[lp_build(E, dir)])

        # parameters
        def getter(nm, en, val, arg=False, dir=dir, P=P, E=E, kept=kept):
            def s(x):
                x.env['g'] = graph(x, 'g', 'long', dir)
                if arg: x.s64('a')

            def p(x, o):
                ok = x['g'].node(x['a']) if arg else BoolVal(True)
                if o.kind == 'throw': return [('only vertices outside are rejected', Not(ok))]
                return [('vertices outside are rejected', ok), ('value', (o.u() if nm == 'size' else o.s()) == val(x['g'], x['a'] if arg else None))] + kept(x, o)
            tgt(nm, P + '_' + en, s, p, nm, E, dir, expects=('ret', 'throw') if arg else ('ret',))
        getter('size', 'size', lambda g, a: g.n)
        getter('nodeCount', 'nodes', lambda g, a: g.n)
        getter('edgeCount', 'edges', lambda g, a: g.m)
        getter('getMinId', 'minid', lambda g, a: g.lo)
        getter('getNextId', 'nextid', lambda g, a: g.lo + g.n)
        getter('degree', 'degree', lambda g, a: Card(g.dom[a - g.lo]), arg=True)

        # queries for edges
        def s_find(x, dir=dir):
            x.env['g'] = graph(x, 'g', 'long', dir)
            x.s64('a'), x.s64('b')
            for n in ('from', 'to', 'rdata'): out(x, n)

        def p_find(x, o, kept=kept):
            g, a, b = x['g'], x['a'], x['b']
            if o.kind == 'throw': return [('only vertices outside are rejected', Not(nd(g, a, b)))]
            return [('vertices outside are rejected', nd(g, a, b)), ('found if it exists', o.b() == g.A(a, b)), ('the edge with its data', Implies(o.b(), And(rd(x, o, 'from') == a, rd(x, o, 'to') == b, rd(x, o, 'rdata') == g.D(a, b))))] + kept(x, o)
        tgt('findEdge', P + '_find', s_find, p_find, 'findEdge', E, dir, expects=('ret', 'throw'))

        def s_byid(x, dir=dir):
            x.env['g'] = graph(x, 'g', 'long', dir)
            x.u64('id')
            for n in ('from', 'to', 'rdata'): out(x, n)

        def p_byid(x, o, kept=kept):
            g, i = x['g'], x['id']
            if o.kind == 'throw': return [('only ids outside are rejected', i >= g.m)]
            f, t = rd(x, o, 'from'), rd(x, o, 'to')
            return [('ids outside are rejected', i < g.m), ('an edge with its data', And(f == g.F(i), t == g.T[i], nd(g, f, t), g.A(f, t), g.at(f, t) == i, rd(x, o, 'rdata') == g.D(f, t)))] + kept(x, o)
        tgt('getEdgeById', P + '_byid', s_byid, p_byid, 'getEdgeById', E, dir, expects=('ret', 'throw'))

        # renaming
        def s_setmin(x, dir=dir, one=True):
            x.env['g'] = graph(x, 'g', 'long', dir)
            x.env['g_'] = x['g']
            if one: x.s64('id')
            else: x.env['id'] = IntVal(0)
            x.assume(And(-(1 << 61) < x['id'], x['id'] < 1 << 61))

        def inv_setmin(L, dir=dir):
            g, g0, x, c = G_(L, 'long', dir), L.e.x['g'], L.e.x, L['cur']
            dl = x['id'] - g0.lo
            return [('position', And(0 <= c, c <= g.m)), ('edges renamed so far', forall(i_, Implies(And(0 <= i_, i_ < g.m), And(g.T[i_] == g0.T[i_] + If(i_ < c, dl, 0), g.K[i_] == If(i_ < c, X(g0.F(i_) + dl, g0.T[i_] + dl), g0.K[i_]), g.DT[i_] == g0.DT[i_])), [[g.K[i_]], [g.T[i_]], [g0.K[i_]]]))]

        def p_setmin(x, o, GSn=GSn):
            if o.kind != 'ret': return None
            h, g = GSn(x, o, 'g'), x['g']
            dl = x['id'] - g.lo
            return h.inv() + [('vertices renamed', And(h.n == g.n, h.lo == x['id'])), ('edges renamed', forall([p_, q_], Implies(nd(g, p_, q_), h.A(p_ + dl, q_ + dl) == g.A(p_, q_)))), ('same number of edges', h.m == g.m),
                              ('same data', forall([p_, q_], Implies(And(nd(g, p_, q_), g.A(p_, q_)), h.D(p_ + dl, q_ + dl) == g.D(p_, q_))))]
        ls = [lp_clear('setMinId', E, dir), LoopSpec(GTF('setMinId'), 1, {'this': ('ptr', 'this'), 'cur': CUR}, inv_setmin, name='setMinId: rename', variant=lambda L, dir=dir: G_(L, 'long', dir).m - L['cur']), lp_build(E, dir)]
        tgt('setMinId', P + '_setmin', s_setmin, p_setmin, 'setMinId', E, dir, loops=ls)
        tgt('normalize', P + '_normalize', lambda x, s=s_setmin: s(x, one=False), p_setmin, 'normalize', E, dir, loops=ls)

        if dir:
            def s_rev(x):
                x.env['g'] = graph(x, 'g', 'long', True)

            def inv_rev(L):
                g, g0, c = G_(L, 'long', True), L.e.x['g'], L['cur']
                return [('position', And(0 <= c, c <= g.m)), ('edges reversed so far', forall(i_, Implies(And(0 <= i_, i_ < g.m), g.T[i_] == If(i_ < c, g0.F(i_), g0.T[i_])), [[g.T[i_]], [g.K[i_]]]))]

            def p_rev(x, o, GSn=GSn):
                if o.kind != 'ret': return None
                h, g = GSn(x, o, 'g'), x['g']
                return h.inv() + [('same vertices', And(h.n == g.n, h.lo == g.lo)), ('reversed edges', forall([p_, q_], Implies(nd(g, p_, q_), h.A(p_, q_) == g.A(q_, p_)))), ('same number of edges', h.m == g.m),
                                  ('same data', forall([p_, q_], Implies(And(nd(g, p_, q_), g.A(p_, q_)), h.D(q_, p_) == g.D(p_, q_))))]
            tgt('reverse', 'd_reverse', s_rev, p_rev, 'reverse', E, dir, loops=[lp_clear('reverse', E, dir), LoopSpec(GTF('reverse'), 1, {'this': ('ptr', 'this'), 'cur': CUR}, inv_rev, name='reverse: edges', variant=lambda L: G_(L, 'long', True).m - L['cur']), lp_build(E, dir)])
        # ------------------------------------------------------------------ operations that add edges (addEdge by its contract)
        ADD = [c_add]

        def both_sane(g): return And(g.n < 1 << 57, -(1 << 60) < g.lo, g.lo < 1 << 60, g.m < 1 << 57)

        def other(g, v, k): return X(k, v + g.lo)

        def s_two(x, dir=dir, same=False):
            g = x.env['g'] = graph(x, 'g', 'long', dir)
            o = x.env['o'] = g
            if same: x.args.append(g.p)
            else: o = x.env['o'] = graph(x, 'o', 'long', dir)
            x.assume(And(both_sane(g), both_sane(o), g.lo + g.n - o.lo < LIM, o.lo + o.n - g.lo < LIM))

        # combine
        def inv_grow(L, front, dir=dir):
            h, g, o = G_(L, 'long', dir), L.e.x['g'], L.e.x['o']
            d = g.lo - h.lo
            old = And(d <= v_, v_ < d + g.n)
            lo = If(g.lo < o.lo, g.lo, o.lo)
            return [('position', And(lo <= h.lo, h.lo <= g.lo) if front else And(h.lo == lo, h.n >= d + g.n, h.n <= If(d + g.n > o.lo - lo + o.n, d + g.n, o.lo - lo + o.n))), ('vertices so far', h.n == g.n + d if front else BoolVal(True)),
                    ('sets of the vertices so far', forall(v_, Implies(And(0 <= v_, v_ < h.n), And(h.dom[v_] == If(old, g.dom[v_ - d], EMPTY), h.sz[v_] == If(old, g.sz[v_ - d], 0))), [h.dom[v_]])),
                    ('edges of the vertices so far', forall(v_, Implies(And(d <= v_, v_ < d + g.n), h.val[v_] == g.val[v_ - d]), [h.val[v_]]))]

        def union(h, g, o, d, s, c):
            """h contains g (its vertices from d on) and the first c edges of o (its vertices from s on)"""
            ov = lambda v: And(s <= v, v < s + o.n)
            gv = lambda v: And(d <= v, v < d + g.n)
            fo = lambda v, k: And(ov(v), o.dom[v - s][k], o.val[v - s][k] < c)
            fg = lambda v, k: And(gv(v), g.dom[v - d][k])
            r = And(0 <= v_, v_ < h.n)
            return [('edges of both so far', forall([v_, k_], Implies(r, h.dom[v_][k_] == Or(fg(v_, k_), fo(v_, k_))), [h.dom[v_][k_]])),
                    ('data of both so far', forall([v_, k_], Implies(And(r, h.dom[v_][k_]), h.DT[h.val[v_][k_]] == If(fo(v_, k_), o.DT[o.val[v_ - s][k_]], g.DT[g.val[v_ - d][k_]])), [h.dom[v_][k_]]))]

        def inv_comb(L, dir=dir):
            h, g, o, c = G_(L, 'long', dir), L.e.x['g'], L.e.x['o'], L['cur']
            lo = If(g.lo < o.lo, g.lo, o.lo)
            up = If(g.lo + g.n > o.lo + o.n, g.lo + g.n, o.lo + o.n)
            return [('position', And(0 <= c, c <= o.m, h.lo == lo, h.n == up - lo, h.m <= g.m + c))] + h.inv() + union(h, g, o, g.lo - h.lo, o.lo - h.lo, c)
        lps_comb = [LoopSpec(GTF('combine'), 0, {'this': ('ptr', 'this')}, lambda L, f=inv_grow: f(L, True), name='combine: front', variant=lambda L, dir=dir: G_(L, 'long', dir).lo - L.e.x['o'].lo),
                    LoopSpec(GTF('combine'), 1, {'this': ('ptr', 'this')}, lambda L, f=inv_grow: f(L, False), name='combine: back', variant=lambda L, dir=dir: L.e.x['o'].lo + L.e.x['o'].n - G_(L, 'long', dir).lo - G_(L, 'long', dir).n),
                    LoopSpec(GTF('combine'), 2, {'this': ('ptr', 'this'), 'cur': CUR}, inv_comb, name='combine: edges', variant=lambda L: L.e.x['o'].m - L['cur'])]

        def p_comb(x, o, GSn=GSn, kept=kept):
            if o.kind != 'ret': return None
            h, g, q = GSn(x, o, 'g'), x['g'], x['o']
            lo = If(g.lo < q.lo, g.lo, q.lo)
            up = If(g.lo + g.n > q.lo + q.n, g.lo + g.n, q.lo + q.n)
            E = lambda t: And(nd(t, p_, q_), t.A(p_, q_))
            return h.inv() + kept(x, o, 'o') + [('vertices', And(h.lo == lo, h.n == up - lo)), ('edges of both', forall([p_, q_], Implies(nd(h, p_, q_), h.A(p_, q_) == Or(E(g), E(q))))),
                                                ('data of both', forall([p_, q_], Implies(E(h), h.D(p_, q_) == If(E(q), q.D(p_, q_), g.D(p_, q_)))))]
        tgt('combine', P + '_combine', s_two, p_comb, 'combine', E, dir, loops=lps_comb, models=ADD)
        tgt('combine(itself)', P + '_combine', lambda x, s=s_two: s(x, same=True), lambda x, o, f=same_graph, GSn=GSn: GSn(x, o, 'g').inv() + f(GSn(x, o, 'g'), x['g']) if o.kind == 'ret' else None, 'combine', E, dir)

        # append
        def inv_app(L, dir=dir):
            h, g, o, c = G_(L, 'long', dir), L.e.x['g'], L.e.x['o'], L['i']
            s = g.n
            ov = lambda v: And(s <= v, v < s + o.n)
            r = [('position', And(0 <= c, c <= o.m, h.lo == g.lo, h.n == g.n + o.n, h.m == g.m + c))] + h.inv()
            # other endpoint of the edge with key k at vertex v
            y = other(h, v_, k_)
            e_ = X(v_ - s + o.lo, y - h.lo - s + o.lo)
            fo = And(ov(v_), ov(y - h.lo), o.dom[v_ - s][e_], o.val[v_ - s][e_] < c)
            fg = And(0 <= v_, v_ < g.n, g.dom[v_][k_])
            r += [('edges of both so far', forall([v_, k_], Implies(And(0 <= v_, v_ < h.n, S64(k_)), h.dom[v_][k_] == Or(fg, fo)), [h.dom[v_][k_]])),
                  ('numbers of own edges', forall([v_, k_], Implies(And(0 <= v_, v_ < s, h.dom[v_][k_]), h.val[v_][k_] == g.val[v_][k_]), [h.dom[v_][k_]])),
                  ('numbers of appended edges', forall([v_, k_], Implies(And(s <= v_, v_ < h.n, h.dom[v_][k_]), h.val[v_][k_] == g.m + o.val[v_ - s][e_]), [h.dom[v_][k_]])),
                  ('appended data so far', forall(i_, Implies(And(g.m <= i_, i_ < g.m + c), h.DT[i_] == o.DT[i_ - g.m]), [h.DT[i_]])),
                  ('earlier edges stay', forall(i_, Implies(And(0 <= i_, i_ < g.m), And(h.K[i_] == g.K[i_], h.T[i_] == g.T[i_], h.DT[i_] == g.DT[i_])), [[h.K[i_]], [h.T[i_]]]))]
            return r

        def p_app(x, o, GSn=GSn, kept=kept, same=False):
            if o.kind != 'ret': return None
            h, g, q = GSn(x, o, 'g'), x['g'], x['o']
            dl = g.lo + g.n - q.lo
            return h.inv() + ([] if same else kept(x, o, 'o')) + [('vertices', And(h.lo == g.lo, h.n == g.n + q.n)), ('number of edges', h.m == g.m + q.m),
                ('own edges', forall([p_, q_], Implies(nd(g, p_, q_), h.A(p_, q_) == g.A(p_, q_)))), ('own data', forall([p_, q_], Implies(And(nd(g, p_, q_), g.A(p_, q_)), h.D(p_, q_) == g.D(p_, q_)))),
                ('appended edges', forall([p_, q_], Implies(nd(q, p_, q_), h.A(p_ + dl, q_ + dl) == q.A(p_, q_)))), ('numbers of appended edges', forall([p_, q_], Implies(And(nd(q, p_, q_), q.A(p_, q_)), h.at(p_ + dl, q_ + dl) == g.m + q.at(p_, q_)))), ('appended data, by number', forall(i_, Implies(And(0 <= i_, i_ < q.m), h.DT[g.m + i_] == q.DT[i_]))),
                ('no edges between', forall([p_, q_], Implies(And(nd(h, p_, q_), (p_ < g.lo + g.n) != (q_ < g.lo + g.n)), Not(h.A(p_, q_)))))]
        lps_app = [LoopSpec(GTF('append'), 0, {'this': ('ptr', 'this'), 'i': ('u64', 'i')}, inv_app, name='append: edges', variant=lambda L: L.e.x['o'].m - L['i'])]
        tgt('append', P + '_append', s_two, p_app, 'append', E, dir, loops=lps_app, models=ADD)
        tgt('append(itself)', P + '_append', lambda x, s=s_two: s(x, same=True), lambda x, o, f=p_app: f(x, o, same=True), 'append', E, dir, loops=lps_app, models=ADD)

        # range
        def s_range(x, dir=dir):
            x.env['r'] = fresh_graph(x, 'r')
            x.env['g'] = graph(x, 'g', 'long', dir)
            x.s64('a'), x.s64('b')
            x.assume(And(-(1 << 60) < x['a'], x['a'] < 1 << 60, -(1 << 60) < x['b'], x['b'] < 1 << 60, x['b'] - x['a'] < LIM, both_sane(x['g'])))

        def inv_range(L, dir=dir):
            h, g, c, a, b = G_(L, 'long', dir, L.e.x['r']), L.e.x['g'], L['cur'], L.e.x['a'], L.e.x['b']
            u = v_ + h.lo - g.lo
            y = other(h, v_, k_)
            f = And(0 <= u, u < g.n, g.dom[u][k_], g.val[u][k_] < c, a <= y, y < b)
            return [('position', And(0 <= c, c <= g.m, h.lo == a, h.n == b - a, h.m <= c))] + h.inv() + [
                ('edges inside so far', forall([v_, k_], Implies(And(0 <= v_, v_ < h.n), h.dom[v_][k_] == f), [h.dom[v_][k_]])),
                ('data so far', forall([v_, k_], Implies(And(0 <= v_, v_ < h.n, h.dom[v_][k_]), h.DT[h.val[v_][k_]] == g.DT[g.val[u][k_]]), [h.dom[v_][k_]]))]

        def p_range(x, o, GSn=GSn, kept=kept):
            g = x['g']
            if o.kind == 'throw': return [('only empty intervals are rejected', x['b'] < x['a'])]
            h = GSn(x, o, 'r')
            i = And(nd(g, p_, q_), g.A(p_, q_))
            return h.inv() + kept(x, o) + [('negative sizes are rejected', x['a'] <= x['b']), ('vertices', And(h.lo == x['a'], h.n == x['b'] - x['a'])), ('edges inside', forall([p_, q_], Implies(nd(h, p_, q_), h.A(p_, q_) == i))),
                                           ('data', forall([p_, q_], Implies(And(nd(h, p_, q_), i), h.D(p_, q_) == g.D(p_, q_))))]
        tgt('range', P + '_range', s_range, p_range, 'range', E, dir, loops=[LoopSpec(GTF('range'), 0, {'cur': ('cur', '__begin', 'it', 'i')}, inv_range, name='range: edges', variant=lambda L: L.e.x['g'].m - L['cur'])], models=ADD, expects=('ret', 'throw'))
        if dir:
            def s_und(x):
                x.env['r'] = fresh_graph(x, 'r')
                x.env['g'] = graph(x, 'g', 'long', True)
                x.assume(both_sane(x['g']))

            def inv_und(L):
                h, g, c = G_(L, 'long', False, L.e.x['r']), L.e.x['g'], L['cur']
                y = other(h, v_, k_) - h.lo
                f1 = And(g.dom[v_][k_], g.val[v_][k_] < c)
                f2 = And(0 <= y, y < g.n, g.dom[y][k_], g.val[y][k_] < c)
                D = h.DT[h.val[v_][k_]]
                return [('position', And(0 <= c, c <= g.m, h.lo == g.lo, h.n == g.n, h.m <= c))] + h.inv() + [
                    ('edges so far', forall([v_, k_], Implies(And(0 <= v_, v_ < h.n), h.dom[v_][k_] == Or(f1, f2)), [h.dom[v_][k_]])),
                    ('data so far', forall([v_, k_], Implies(And(0 <= v_, v_ < h.n, h.dom[v_][k_]), Or(And(f1, D == g.DT[g.val[v_][k_]]), And(f2, D == g.DT[g.val[y][k_]]))), [h.dom[v_][k_]]))]

            def p_und(x, o, kept=kept):
                if o.kind != 'ret': return None
                h, g = GS(x.e, o.st, x['r'], 'long', False), x['g']
                return h.inv() + kept(x, o) + [('same vertices', And(h.lo == g.lo, h.n == g.n)), ('edges without direction', forall([p_, q_], Implies(nd(h, p_, q_), h.A(p_, q_) == Or(g.A(p_, q_), g.A(q_, p_))))),
                                               ('data of one of the edges', forall([p_, q_], Implies(And(nd(h, p_, q_), h.A(p_, q_)), Or(And(g.A(p_, q_), h.D(p_, q_) == g.D(p_, q_)), And(g.A(q_, p_), h.D(p_, q_) == g.D(q_, p_))))))]
            tgt('undirected', 'd_undir', s_und, p_und, 'undirected', E, dir, loops=[LoopSpec(GTF('undirected'), 0, {'cur': ('cur', '__begin', 'it', 'i')}, inv_und, name='undirected: edges', variant=lambda L: L.e.x['g'].m - L['cur'])], models=ADD)
        # ------------------------------------------------------------------ operations that build the sets anew
        # subgraph
        def s_sub(x, dir=dir):
            x.env['r'] = fresh_graph(x, 'r')
            x.env['g'] = graph(x, 'g', 'long', dir)
            x.s64('m')
            x.assume(And(0 <= x['m'], both_sane(x['g'])))

        def inv_sub(L, dir=dir):
            h, g, c = G_(L, 'long', dir, L.e.x['r']), L.e.x['g'], L['cur']
            k, lo, up, arr = L.st.g['drawn']
            return [('position', And(0 <= c, c <= k, h.m == c, h.lo == g.lo, h.n == g.n)), ('copied so far', forall(i_, Implies(And(0 <= i_, i_ < c), And(h.K[i_] == g.K[arr[i_]], h.T[i_] == g.T[arr[i_]], h.DT[i_] == g.DT[arr[i_]])), [[h.K[i_]], [h.T[i_]]]))]

        def p_sub(x, o, GSn=GSn, kept=kept):
            if o.kind != 'ret': return None
            h, g = GSn(x, o, 'r'), x['g']
            i = And(nd(g, p_, q_), h.A(p_, q_))
            return h.inv() + kept(x, o) + [('same vertices', And(h.lo == g.lo, h.n == g.n)), ('number of edges', h.m == If(x['m'] < g.m, x['m'], g.m)), ('only edges of the graph', forall([p_, q_], Implies(i, g.A(p_, q_)))), ('same data', forall([p_, q_], Implies(i, h.D(p_, q_) == g.D(p_, q_))))]
        tgt('subgraph', P + '_sub', s_sub, p_sub, 'subgraph', E, dir, loops=[LoopSpec(GTF('subgraph'), 0, {'cur': ('cur', '__begin', 'it', 'i')}, inv_sub, name='subgraph: edges', variant=lambda L: L.st.g['drawn'][0] - L['cur']), lp_build(E, dir)], models=[(r'^Random::distinct\(', m_distinct)])
        tgt('copy', P + '_copyf', s_copy, p_copy, 'copy', E, dir, loops=[lp_build(E, dir)])

        # permutations
        def s_perme(x, dir=dir):
            x.env['g'] = graph(x, 'g', 'long', dir)
            x.assume(both_sane(x['g']))

        def flip(L, dir=dir, perm=None):
            h, g, c = G_(L, 'long', dir), L.e.x['g'], L['cur']
            sh = L.st.g.get('shuffled', ())
            if len(sh) != 1: return [('shuffled once', BoolVal(False))]
            pi, qi = sh[0]
            F, To, s = g.F(pi(i_)), g.T[pi(i_)], (lambda t: t)
            f = lambda t: perm(L, t) if perm else t
            done = And(h.K[i_] == X(f(F), f(To)), Or(h.T[i_] == f(To), BoolVal(not dir) if dir else h.T[i_] == f(F)))
            if dir: done = And(h.K[i_] == X(f(F), f(To)), h.T[i_] == f(To))
            todo = And(h.K[i_] == X(F, To), h.T[i_] == To)
            return [('position', And(0 <= c, c <= g.m, h.m == g.m)), ('edges so far', forall(i_, Implies(And(0 <= i_, i_ < g.m), And(If(i_ < c, done, todo), h.DT[i_] == g.DT[pi(i_)])), [[h.K[i_]], [h.T[i_]], [pi(i_)]]))]
        lf = lambda n, k, f: LoopSpec(GTF(n), k, {'this': ('ptr', 'this'), 'cur': CUR}, f, name=n + ': edges', variant=lambda L, dir=dir: G_(L, 'long', dir).m - L['cur'])
        RN = [(r'Random::shuffle<std::_Deque_iterator', m_shuffle), (r'^Random::bit\(\)', m_bit)]

        def p_perme(x, o, GSn=GSn):
            if o.kind != 'ret': return None
            h, g = GSn(x, o, 'g'), x['g']
            return h.inv() + same_graph(h, g)
        tgt('permutateEdges', P + '_perme', s_perme, p_perme, 'permutateEdges', E, dir, loops=[lp_clear('permutateEdges', E, dir)] + ([] if dir else [lf('permutateEdges', 1, flip)]) + [lp_build(E, dir)], models=RN)

        def s_perm(x, s_perme=s_perme):
            s_perme(x)
            x.vec('perm')
            x.assume(x['perm'].n == x['g'].n)

        def hints_perm(L, h, dir=dir):
            g, v = L.e.x['g'], L.e.x['perm']
            pi, qi = L.st.g['shuffled'][0]
            f = lambda t: v.at(t - g.lo)
            F, To = lambda i: f(g.F(pi(i))), lambda i: f(g.T[pi(i)])
            one = lambda i: And(h.F(i) == F(i), h.T[i] == To(i))
            two = lambda i: And(h.F(i) == To(i), h.T[i] == F(i))
            return [('no edge of the graph twice', g.distinct()), ('ends renamed', forall(i_, Implies(And(0 <= i_, i_ < h.m), one(i_) if dir else Or(one(i_), two(i_))), [[h.K[i_]], [h.T[i_]], [pi(i_)]])),
                    ('different vertices have different names', forall([i_, j_], Implies(And(0 <= i_, i_ < v.n, 0 <= j_, j_ < v.n, v.at(i_) == v.at(j_)), i_ == j_), [[v.at(i_), v.at(j_)]]))] + [
                    (nm, forall([i_, j_], Implies(And(0 <= i_, i_ < h.m, 0 <= j_, j_ < h.m, c), pi(i_) == pi(j_)), [[pi(i_), pi(j_)]])) for nm, c in
                    [('edges with the same ends are the same', And(g.F(pi(i_)) == g.F(pi(j_)), g.T[pi(i_)] == g.T[pi(j_)]))] + ([] if dir else [('edges with exchanged ends are the same', And(g.F(pi(i_)) == g.T[pi(j_)], g.T[pi(i_)] == g.F(pi(j_))))])] + [
                    ('edges with the same key and a common end have the same ends', forall([i_, j_], Implies(And(0 <= i_, i_ < h.m, 0 <= j_, j_ < h.m, h.K[i_] == h.K[j_], h.F(i_) == h.F(j_)), h.T[i_] == h.T[j_]), [[h.K[i_], h.K[j_]]]))]

        def pm(L, t): return L.e.x['perm'].at(t - L.e.x['g'].lo)

        def p_perm(x, o, GSn=GSn):
            v, g = x['perm'], x['g']
            ok = o.st.g.get('isperm')
            if ok is None: return [('arguments that are no permutation are rejected', BoolVal(False))]
            if o.kind == 'throw': return [('only other arguments are rejected', Not(ok))]
            h = GSn(x, o, 'g')
            f = lambda t: v.at(t - g.lo)
            return [('arguments that are no permutation are rejected', ok)] + h.inv() + [('same vertices', And(h.n == g.n, h.lo == g.lo)), ('same number of edges', h.m == g.m), ('renamed edges', forall([p_, q_], Implies(nd(g, p_, q_), h.A(f(p_), f(q_)) == g.A(p_, q_)))),
                ('same data', forall([p_, q_], Implies(And(nd(g, p_, q_), g.A(p_, q_)), h.D(f(p_), f(q_)) == g.D(p_, q_))))]
        tgt('permutate', P + '_perm', s_perm, p_perm, 'permutate', E, dir, loops=[lp_clear('permutate', E, dir), lf('permutate', 1, lambda L, flip=flip: flip(L, perm=pm)), lp_build(E, dir, hints_perm)], models=RN + [(r'isPerm<', m_isperm)], expects=('ret', 'throw'))
        # iteration
        def s_list(x, dir=dir, adj=False):
            x.env['g'] = graph(x, 'g', 'long', dir)
            x.assume(both_sane(x['g']))
            if adj: x.s64('v')
            for n in 'ftd':
                x.vec(n)
                x.assume(x[n].n == 0)

        def inv_list(L):
            g, c = L.e.x['g'], L['cur']
            f, t, d = L['f'], L['t'], L['d']
            return [('position', And(0 <= c, c <= g.m, f.n == c, t.n == c, d.n == c)), ('edges so far', forall(i_, Implies(And(0 <= i_, i_ < c), And(f.at(i_) == g.F(i_), t.at(i_) == g.T[i_], d.at(i_) == g.DT[i_])), [f.at(i_)], ))]

        def p_list(x, o, kept=kept):
            if o.kind != 'ret': return None
            g, f, t, d = x['g'], o.vec('f'), o.vec('t'), o.vec('d')
            r = And(0 <= i_, i_ < g.m)
            return kept(x, o) + [('as many as there are edges', And(f.n == g.m, t.n == g.m, d.n == g.m)), ('every edge by its id', forall(i_, Implies(r, And(f.at(i_) == g.F(i_), t.at(i_) == g.T[i_], d.at(i_) == g.DT[i_])))),
                                 ('edges with their data', forall(i_, Implies(r, And(nd(g, f.at(i_), t.at(i_)), g.A(f.at(i_), t.at(i_)), d.at(i_) == g.D(f.at(i_), t.at(i_))))))]
        OUT3 = {'f': ('vec', 'f'), 't': ('vec', 't'), 'd': ('vec', 'd')}
        tgt('getEdges', P + '_list', s_list, p_list, 'getEdges', E, dir, loops=[LoopSpec('^%s_list' % P, 0, dict(OUT3, cur=('cur', '__begin', 'it', 'i')), inv_list, name='getEdges: loop', variant=lambda L: L.e.x['g'].m - L['cur'])])

        def inv_adj(L):
            g, it, at = L.e.x['g'], L['it'], L['at']
            f, t, d = L['f'], L['t'], L['d']
            x = L.e.x['v'] - g.lo
            done = lambda k: And(g.dom[x][k], Or(it.end, k < it.key))
            key = X(L.e.x['v'], t.at(i_))
            return [('vertex', g.node(L.e.x['v'])), ('position', And(f.n == t.n, d.n == t.n, Implies(Not(it.end), g.dom[x][it.key]))), ('neighbours so far', forall(i_, Implies(And(0 <= i_, i_ < t.n), And(f.at(i_) == L.e.x['v'], S64(t.at(i_)), done(key), at[key] == i_, d.at(i_) == g.DT[g.val[x][key]])), [t.at(i_)])),
                    ('all neighbours so far', forall(k_, Implies(done(k_), And(0 <= at[k_], at[k_] < t.n, t.at(at[k_]) == X(k_, L.e.x['v']))), [g.dom[x][k_]]))]

        def p_adj(x, o, kept=kept):
            g, v = x['g'], x['v']
            if o.kind == 'throw': return [('only vertices outside are rejected', Not(g.node(v)))]
            f, t, d, at = o.vec('f'), o.vec('t'), o.vec('d'), o.st.g.get('ghost_at')
            if at is None: return [('loop over the neighbours', BoolVal(False))]
            r = And(0 <= i_, i_ < t.n)
            return kept(x, o) + [('vertices outside are rejected', g.node(v)), ('every entry is an edge of the vertex with its data', forall(i_, Implies(r, And(f.at(i_) == v, g.node(t.at(i_)), g.A(v, t.at(i_)), d.at(i_) == g.D(v, t.at(i_)))))),
                                 ('no neighbour twice', forall([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < t.n), t.at(i_) != t.at(j_)))), ('every neighbour', forall(p_, Implies(And(g.node(p_), g.A(v, p_)), And(0 <= at[X(v, p_)], at[X(v, p_)] < t.n, t.at(at[X(v, p_)]) == p_))))]
        tgt('operator[]', P + '_adj', lambda x, s=s_list: s(x, adj=True), p_adj, 'operator[]', E, dir, expects=('ret', 'throw'),
            loops=[LoopSpec('^%s_adj' % P, 0, dict(OUT3, it=('node', '__begin', 'it', 'i')), inv_adj, name='operator[]: loop', ghosts={'at': (lambda L: z3.K(IntSort(), IntVal(-1)), lambda H, B: Store(H['at'], H['it'].key, H['t'].n))})])
        if not dir:
            def s_dir(x):
                x.env['r'] = fresh_graph(x, 'r')
                x.env['g'] = graph(x, 'g', 'long', False)
                x.assume(both_sane(x['g']))

            def inv_dir(L):
                h, g, c = G_(L, 'long', True, L.e.x['r']), L.e.x['g'], L['cur']
                j = i_ / 2
                return [('position', And(0 <= c, c <= g.m, h.lo == g.lo, h.n == g.n, h.m == 2 * c)), ('both directions so far', forall(i_, Implies(And(0 <= i_, i_ < 2 * c), And(h.K[i_] == g.K[j], h.T[i_] == If(i_ % 2 == 0, g.T[j], g.F(j)), h.DT[i_] == g.DT[j])), [[h.K[i_]], [h.T[i_]]]))]

            def hints_dir(L, h):
                g = L.e.x['g']
                return [('no edge of the graph twice', g.distinct()), ('places of the edges', forall(i_, Implies(And(0 <= i_, i_ < g.m), And(h.K[2 * i_] == g.K[i_], h.T[2 * i_] == g.T[i_], h.K[2 * i_ + 1] == g.K[i_], h.T[2 * i_ + 1] == g.F(i_), h.DT[2 * i_] == g.DT[i_], h.DT[2 * i_ + 1] == g.DT[i_])), [g.K[i_]]))]

            def p_dir(x, o, kept=kept):
                if o.kind != 'ret': return None
                h, g = GS(x.e, o.st, x['r'], 'long', True), x['g']
                return h.inv() + kept(x, o) + [('same vertices', And(h.lo == g.lo, h.n == g.n)), ('number of edges', h.m == 2 * g.m), ('both directions', forall([p_, q_], Implies(nd(h, p_, q_), h.A(p_, q_) == g.A(p_, q_)))),
                                               ('same data', forall([p_, q_], Implies(And(nd(h, p_, q_), h.A(p_, q_)), h.D(p_, q_) == g.D(p_, q_))))]
            tgt('directed', 'u_dir', s_dir, p_dir, 'directed', E, dir, loops=[LoopSpec(r'GraphType<.*>::directed<', 0, {'cur': ('cur', '__begin', 'it', 'i')}, inv_dir, name='directed: edges', variant=lambda L: L.e.x['g'].m - L['cur']), lp_build(E, True, hints_dir)])
    return T
