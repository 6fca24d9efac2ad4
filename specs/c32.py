from spec import *
from gengraph import *
DRIVER = 'c32.cpp'
FINDER = 'c32.cpp'
BIG = 1 << 30
# name: (smallest arguments, specification(directed, args) -> number of vertices, relation on vertices, twice the number of edges)
EDGE = lambda *ps: lambda a, b: Or([And(*p(a, b)) for p in ps])
SPEC = {
    'independent': ([0], lambda d, n: (n, lambda a, b: BoolVal(False), 0)),
    'clique': ([0], lambda d, n: (n, lambda a, b: And(0 <= a, a < b, b < n), n * (n - 1))),
    'bipartite': ([0, 0], lambda d, n, m: (n + m, lambda a, b: And(0 <= a, a < n, n <= b, b < n + m), 2 * n * m)),
    'star': ([0], lambda d, n: (n + 1, lambda a, b: And(a == 0, 1 <= b, b <= n), 2 * n)),
    'path': ([0], lambda d, n: (n + 1, lambda a, b: And(0 <= a, a < n, b == a + 1), 2 * n)),
    'cycle': ([3], lambda d, n: (n, lambda a, b: And(0 <= a, a < n, b == If(a == n - 1, 0, a + 1)), 2 * n)),
    'wheel': ([3], lambda d, n: (n + 1, lambda a, b: Or(And(a == 0, 1 <= b, b <= n), And(1 <= a, a <= n, b == If(a == n, 1, a + 1))), 4 * n)),
    'lolly': ([0, 1], lambda d, p, c: (p + c, lambda a, b: Or(And(0 <= a, a < p, b == a + 1), And(p <= a, a < b, b < p + c)), 2 * p + c * (c - 1))),
    'broom': ([0, 0], lambda d, p, l: (p + l + 1, lambda a, b: Or(And(0 <= a, a < p, b == a + 1), And(a == p, p < b, b <= p + l)), 2 * p + 2 * l)),
}
DIRECTED = ('independent', 'clique', 'bipartite', 'star', 'path', 'cycle')


def both(f, dir): return f if dir else lambda a, b: Or(f(a, b), f(b, a))


def contract(nm):
    mins, spec = SPEC[nm]

    def m(c):
        """contract of another generator, proved by its own target"""
        e, st = c.e, c.st
        dir = bool(re.search(r'%s<[^<>]*, true>' % nm, c.dem))
        a = [e.S(st, t) for t in c.args[1:]]
        e.oblige(st, nm + ' precondition: sizes', And([And(l <= x, x < 2 * BIG) for l, x in zip(mins, a)]), 'pre')
        n, f, m2 = spec(dir, *a)
        m = e.fint('edges')
        st.assume(2 * m == m2)
        e.bounded(st, m, 0, 1 << 62)
        new(e, st, c.args[0], z3.simplify(z3.IntVal(n) if isinstance(n, int) else n), rel(e, st, nm, both(f, dir)), m, IntVal(0))
        e.contracts_used.add(nm)
    return (r'^GraphDetail::GraphType<.*> %s<|^Graph<.*> %s<|^(?:[^()]* )?%s<[^()]*>\((?:long(?:, )?)*\)$' % (nm, nm, nm), m)


def targets():
    T = []

    def out(x):
        oid = x.e.new_obj(x.st, 'out', None, 168)
        x.args.append(CP(oid, 0))
        x.env['oid'] = oid

    def view(e, st): return GV(e, st, CP(e.x['oid'], 0))
    def same(g, f): return forall([v, w], g.A(v, w) == f(v, w), [g.A(v, w)])

    # ------------------------------------------------------------------ loops that only add edges
    def loop(fn, nth, d, N, params, vs, inv, nm, up):
        """inv(params, loop variables) -> (conditions, relation, twice the number of edges)"""
        def I(L):
            g = view(L.e, L.st)
            a = [L[k] for k in params]
            cond, f, m2 = inv(a, [L[k] for k in vs])
            return [('bounds', cond), ('vertices', And(g.n == N(*a), g.lo == 0)), ('edges so far', same(g, both(f, d))), ('number of edges so far', 2 * g.m == m2)]
        roles = {k: ('s64', k) for k in params}
        roles.update({k: ('s64',) + tuple(al) for k, al in vs.items()})
        last = list(vs)[-1]
        return LoopSpec(fn, nth, roles, I, name=nm, variant=lambda L: up([L[k] for k in params], [L[k] for k in vs]) - L[last])
    rng = lambda lo, x, hi: And(lo <= x, x <= hi)
    LOOPS = {
        'clique': lambda d: [loop(r' clique<', 0, d, lambda n: n, ['n'], {'j': ('j', 'i')}, lambda a, v: (rng(0, v[0], a[0]), lambda p, q: And(0 <= p, p < q, q < v[0]), v[0] * (v[0] - 1)), 'larger vertex', lambda a, v: a[0]),
                             loop(r' clique<', 1, d, lambda n: n, ['n'], {'j': ('j',), 'i': ('i',)}, lambda a, v: (And(rng(0, v[1], v[0]), v[0] < a[0]), lambda p, q: Or(And(0 <= p, p < q, q < v[0]), And(0 <= p, p < v[1], q == v[0])), v[0] * (v[0] - 1) + 2 * v[1]), 'smaller vertex', lambda a, v: v[0])],
        'bipartite': lambda d: [loop(r' bipartite<', 0, d, lambda n, m: n + m, ['n', 'm'], {'i': ('i',)}, lambda a, v: (rng(0, v[0], a[0]), lambda p, q: And(0 <= p, p < v[0], a[0] <= q, q < a[0] + a[1]), 2 * v[0] * a[1]), 'first side', lambda a, v: a[0]),
                                loop(r' bipartite<', 1, d, lambda n, m: n + m, ['n', 'm'], {'i': ('i',), 'j': ('j',)}, lambda a, v: (And(rng(0, v[1], a[1]), 0 <= v[0], v[0] < a[0]), lambda p, q: And(a[0] <= q, Or(And(0 <= p, p < v[0], q < a[0] + a[1]), And(p == v[0], q < a[0] + v[1]))), 2 * v[0] * a[1] + 2 * v[1]), 'second side', lambda a, v: a[1])],
        'path': lambda d: [loop(r' path<', 0, d, lambda n: n + 1, ['edges'], {'i': ('i',)}, lambda a, v: (rng(0, v[0], a[0]), lambda p, q: And(0 <= p, p < v[0], q == p + 1), 2 * v[0]), 'edge', lambda a, v: a[0])],
    }
    for nm, (mins, spec) in SPEC.items():
        for d in (False, True):
            if d and nm not in DIRECTED: continue

            def setup(x, mins=mins, nm=nm):
                out(x)
                for k, lo in enumerate(mins):
                    t = x.s64('nmk'[k])
                    x.assume(And(lo <= t, t < BIG))

            def post(x, o, spec=spec, d=d, mins=mins):
                if o.kind != 'ret': return None
                g = view(x.e, o.st)
                n, f, m2 = spec(d, *[x['nmk'[k]] for k in range(len(mins))])
                return [('vertices', And(g.n == n, g.lo == 0)), ('exactly these edges', same(g, both(f, d))), ('number of edges', 2 * g.m == m2)]
            T.append(Target(nm + (' (directed)' if d else ''), 'd_' + nm + ('_d' if d else ''), setup, post, loops=LOOPS[nm](d) if nm in LOOPS else (), models=[contract(k) for k in SPEC if k != nm] + GEN, under=[nm]))

    # ------------------------------------------------------------------ random graphs: the numbers drawn are decoded by a bijection
    SI = z3.ArraySort(IntSort(), BoolSort())

    def ugraph(n, m, d): return 2 * n * m if d else n * m
    KINDS = {
        # name: (arguments, possible edges, relation of possible edges, number of an edge)
        'randomGraph': (['n'], lambda d, n: (n, n * (n - 1), 2 if not d else 1), lambda d, n: lambda a, b: And(0 <= a, a < n, 0 <= b, b < n, a != b if d else a < b),
                        lambda d, n: (lambda a, b: If(a == n - 1, b * n + b, a * n + b)) if d else (lambda a, b: If(2 * (a * n + b) < n * (n - 1), a * n + b, (n - 2 - a) * n + (n - 1 - b)))),
        'randomBipartite': (['n', 'm'], lambda d, n, m: (n + m, ugraph(n, m, d), 1), lambda d, n, m: lambda a, b: Or(And(0 <= a, a < n, n <= b, b < n + m), And(BoolVal(d), 0 <= b, b < n, n <= a, a < n + m)),
                            lambda d, n, m: lambda a, b: If(a < n, (b - n) * n + a, n * m + (a - n) * n + b) if d else (b - n) * n + a),
    }

    def m_distinct(c):
        """contract of Random::distinct(count, lower, upper) (C12)"""
        e, st = c.e, c.st
        k, lo, up = [e.S(st, t) for t in c.args[1:4]]
        mt = e.types.mt(VECI)
        e.oblige(st, 'distinct precondition: enough values', And(k >= 0, lo + k <= up), 'pre')
        arr = e.fresh('drawn', AI)
        e.wr_cont(st, c.args[0], mt, (k, arr), {0, 1})
        i, j = Ints('i j')
        st.assume(forall(i, Implies(And(0 <= i, i < k), And(lo <= arr[i], arr[i] < up)), [arr[i]]))
        st.assume(forall([i, j], Implies(And(0 <= i, i < j, j < k), arr[i] != arr[j]), [[arr[i], arr[j]]]))
        st.g = dict(st.g, drawn=(k, lo, up, arr))
        e.contracts_used.add('Random::distinct')

    CODE = Function('number_of_edge', IntSort(), IntSort(), IntSort())
    for nm, (ps, count, possible, code) in KINDS.items():
        for d in (False, True):
            def setup(x, ps=ps, count=count, d=d):
                out(x)
                for p in ps:
                    t = x.s64(p)
                    x.assume(And(1 <= t, t < BIG))
                k = x.s64('k')
                n, c, f = count(d, *[x[p] for p in ps])
                x.assume(And(0 <= k, f * k <= c))
                if f == 2: x.assume(c == 2 * Int('half'))          # n*(n-1) is even (lean/Graph.lean)

            def rel_of(x, S, ps=ps, possible=possible, code=code, d=d):
                a = [x[p] for p in ps]
                po, co = possible(d, *a), code(d, *a)
                return both(lambda p, q: And(po(p, q), S[CODE(p, q)]), d)

            def inv(L, ps=ps, count=count, rel_of=rel_of, d=d):
                g, x = view(L.e, L.st), L.e.x
                r, k, S = L['r'], L['cur'], L['S']
                n, _, _ = count(d, *[x[p] for p in ps])
                y, i = Ints('y i')
                dk, lo, up, arr = L.st.g['drawn']
                return [('position', And(0 <= k, k <= r.n)), ('vertices', And(g.n == n, g.lo == 0)), ('edges so far', same(g, rel_of(x, S))), ('number of edges so far', g.m == k),
                        ('later numbers are new', forall(i, Implies(And(k <= i, i < r.n), Not(S[r.at(i)])), [r.at(i)]))]
            def after(L, nm=nm, ps=ps, possible=possible, code=code, d=d):
                x, e, s = L.e.x, L.e, L.st
                if 'last_edge' not in s.g: return
                a = [x[p] for p in ps]
                po, co = possible(d, *a), code(d, *a)
                i, j = s.g['last_edge']
                lo, hi = (i, j) if d else (If(i < j, i, j), If(i < j, j, i))
                z = L.head['r'].at(L.head['cur'])
                p, q = Ints('p q')
                l1 = And(po(lo, hi), co(lo, hi) == z)
                e.oblige(s, 'edge: the edge has the number that was drawn', l1, 'lemma')
                n = a[0]
                eu = lambda a, b, c, d: Implies(And(0 <= b, b < n, 0 <= d, d < n, a * n + b == c * n + d), And(a == c, b == d))     # lean/Graph.lean: division_unique
                fl = lambda a, b: (n - 2 - a, n - 1 - b)
                inst = [eu(p, q, lo, hi), eu(*fl(p, q), lo, hi), eu(p, q, *fl(lo, hi)), eu(*fl(p, q), *fl(lo, hi))] if nm == 'randomGraph' else [eu(b_, a_, d_, c_) for a_, b_, c_, d_ in ((p, q - n, lo, hi - n), (q, p - n, hi, lo - n))]
                if nm == 'randomGraph' and d: inst += [eu(q, q, lo, hi), eu(p, q, hi, hi), eu(q, q, hi, hi)]
                e.oblige(s, 'edge: no other edge has this number', Implies(And(*inst, po(p, q), co(p, q) == z), And(p == lo, q == hi)), 'lemma')
                s.assume(And(po(lo, hi), CODE(lo, hi) == z))          # CODE is the function defined by code(...)
                s.assume(forall([v, w], Implies(And(po(v, w), CODE(v, w) == z), And(v == lo, w == hi)), [CODE(v, w)]))
            lp = LoopSpec(r' %s<' % nm, 0, {'cur': ('cur', '__begin1', '__begin2', 'it', 'i'), 'r': ('vec', 'edges')}, inv, name='edge', after=after, variant=lambda L: L['r'].n - L['cur'],
                          ghosts={'S': (lambda L: z3.K(IntSort(), BoolVal(False)), lambda H, L: Store(H['S'], H['r'].at(H['cur']), True))})

            def post(x, o, ps=ps, count=count, possible=possible, code=code, rel_of=rel_of, d=d):
                if o.kind != 'ret': return None
                g = view(x.e, o.st)
                a = [x[p] for p in ps]
                n, c, f = count(d, *a)
                S = o.st.g.get('ghost_S')
                if S is None or 'drawn' not in o.st.g: return [('the edges are drawn', BoolVal(False))]
                k, lo, up, arr = o.st.g['drawn']
                return [('vertices', And(g.n == n, g.lo == 0)), ('exactly the requested number of edges', g.m == x['k']), ('one edge is drawn per requested edge, among all possible edges', And(k == x['k'], lo == 0, f * up == c)),
                        ('exactly the edges that were drawn', same(g, rel_of(x, S))),
                        ('every possible edge has one of the numbers', (lambda p, q: Implies(possible(d, *a)(p, q), And(0 <= code(d, *a)(p, q), code(d, *a)(p, q) < up)))(*Ints('p q')))]
            T.append(Target(nm + (' (directed)' if d else ''), 'd_' + {'randomGraph': 'rgraph', 'randomBipartite': 'rbip'}[nm] + ('_d' if d else ''), setup, post, loops=[lp],
                            models=[(r'^Random::distinct\(', m_distinct)] + GEN, under=[nm]))

            # probability p: binomially many of the possible edges
            def setup_p(x, ps=ps):
                out(x)
                for p in ps:
                    t = x.s64(p)
                    x.assume(And(1 <= t, t < BIG))
                x.real('p')

            def m_binomial(c):
                """contract of Random::binomial(n, p): a value in [0, n]; n must not be negative"""
                e, st = c.e, c.st
                n = e.S(st, c.args[0])
                e.oblige(st, 'binomial precondition', n >= 0, 'pre')
                r = e.fint('successes')
                e.bounded(st, r, 0, 1 << 62)
                st.assume(r <= n)
                st.g = dict(st.g, binomial=st.g.get('binomial', ()) + ((n, c.args[1].t, r),))
                e.contracts_used.add('Random::binomial')
                return IV(r, 64, 'S')

            def m_self(c, nm=nm, d=d, ps=ps, count=count):
                """contract of the version with a number of edges"""
                e, st = c.e, c.st
                a = [e.S(st, t) for t in c.args[1:]]
                n, cnt, f = count(d, *a[:len(ps)])
                e.oblige(st, nm + ' precondition: number of edges', And(0 <= a[-1], f * a[-1] <= cnt), 'pre')
                new(e, st, c.args[0], n, e.fresh('random', SSB), a[-1], IntVal(0))
                st.g = dict(st.g, inner=(tuple(a), bool(re.search('true>', c.dem.split('(')[0].split(nm)[1]))))
                e.contracts_used.add(nm)

            def post_p(x, o, nm=nm, ps=ps, count=count, d=d):
                if o.kind != 'ret': return None
                b, inner = o.st.g.get('binomial', ()), o.st.g.get('inner')
                if len(b) != 1 or inner is None: return [('one binomial draw, then the version with this number of edges', BoolVal(False))]
                n, c, f = count(d, *[x[p] for p in ps])
                return [('one trial per possible edge', f * b[0][0] == c), ('success probability p', b[0][1] == x['p']), ('random graph of the same kind', BoolVal(inner[1] == d)), ('with as many edges as successes', And([u == t for u, t in zip(inner[0], [x[p] for p in ps] + [b[0][2]])]))]
            T.append(Target(nm + ', probability' + (' (directed)' if d else ''), 'd_' + {'randomGraph': 'rgraphp', 'randomBipartite': 'rbipp'}[nm] + ('_d' if d else ''), setup_p, post_p,
                            models=[(r' %s<.*\((long, )+long\)' % nm, m_self), (r'^Random::binomial\(long, long double\)', m_binomial)] + GEN, under=[nm]))

    # ------------------------------------------------------------------ grid: coordinates x in [0, n), y in [0, m)
    def s_grid(x):
        out(x)
        for k in 'nm':
            t = x.s64(k)
            x.assume(And(1 <= t, t < BIG))

    def p_grid(x, o):
        if o.kind != 'ret': return None
        g = view(x.e, o.st)
        n, m = x['n'], x['m']
        a, b, a2, b2 = Ints('x y x2 y2')
        rng = And(0 <= a, a < n, 0 <= b, b < m, 0 <= a2, a2 < n, 0 <= b2, b2 < m)
        near = lambda p, q: Or(p == q + 1, q == p + 1)
        return [('vertices', And(g.n == n * m, g.lo == 0)), ('no edges outside', forall([v, w], Implies(g.A(v, w), And(0 <= v, v < n * m, 0 <= w, w < n * m)))),
                ('exactly the neighbours in the grid are adjacent', Implies(And(rng, o.st.g['product'](a, b, a2, b2) if 'product' in o.st.g else BoolVal(True)), g.A(b * n + a, b2 * n + a2) == Or(And(a == a2, near(b, b2)), And(b == b2, near(a, a2))))),
                ('number of edges', g.m == (n - 1) * m + n * (m - 1))]
    T.append(Target('grid', 'd_grid', s_grid, p_grid, models=[contract(k) for k in SPEC] + GEN, under=['grid']))
    return T


def extra_checks(repo, work, tier): yield from lean_checks("Graph.lean")
