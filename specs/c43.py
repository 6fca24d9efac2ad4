from spec import *
import models
from gengraph import *
import gengraph, rnd, c32, c11
DRIVER = 'c43.cpp'
FINDER = 'c43.cpp'
BIG = 1 << 30
I = IntSort()
VECI = 'std::vector<long, std::allocator<long> >'
# Pruefer codes (lean/Pruefer.lean): the code as given, occurrences in code[k..], the vertex removed k-th and the time at which a vertex is removed
OCC = Function('occurrences_from', I, I, I)
REM = Function('removed_at', I, I)
POS = Function('time_of_removal', I, I)


def targets():
    T = []
    i, j, k = Ints('i j k')

    def out(x):
        oid = x.e.new_obj(x.st, 'out', None, 168)
        x.args.append(CP(oid, 0))
        x.env['oid'] = oid

    def view(e, st): return GV(e, st, CP(e.x['oid'], 0))
    def same(g, f): return forall([v, w], g.A(v, w) == f(v, w), [g.A(v, w)])

    # ------------------------------------------------------------------ pruefer
    def sp(x):
        out(x)
        c = x.vec('code', VECI)
        n = c.n + 2
        x.assume(c.n < BIG)
        x.assume(forall(i, Implies(And(0 <= i, i < c.n), And(0 <= c.at(i), c.at(i) < n)), [c.at(i)]))
        for vs, body, pat in axioms(c): x.assume(forall(vs, body, pat))

    def axioms(c):
        """lean/Pruefer.lean: pruefer_order"""
        n = c.n + 2
        inn = lambda t: And(0 <= t, t < n)
        return [([k, v], Implies(And(0 <= k, inn(v)), And(OCC(k, v) >= 0, OCC(k, v) <= OCC(0, v), OCC(0, v) <= c.n, Implies(k >= c.n, OCC(k, v) == 0))), [OCC(k, v)]),
                ([k, v], Implies(And(0 <= k, k < c.n, inn(v)), OCC(k, v) == OCC(k + 1, v) + If(c.at(k) == v, 1, 0)), [OCC(k, v)]),
                ([k], Implies(inn(k), And(inn(REM(k)), POS(REM(k)) == k, OCC(k, REM(k)) == 0)), [REM(k)]),
                ([v], Implies(inn(v), And(inn(POS(v)), REM(POS(v)) == v)), [POS(v)]),
                ([k, v], Implies(And(inn(k), 0 <= v, v < REM(k)), Or(POS(v) < k, OCC(k, v) > 0)), [[REM(k), OCC(k, v)]]),
                ([k, v], Implies(And(inn(v), POS(v) <= k, k < n), OCC(k, v) == 0), [[POS(v), OCC(k, v)]])]

    def ground(st, c, ks, vs):
        """instances of the axioms"""
        for _, body, _ in axioms(c):
            for kk in ks:
                for vv in vs: st.assume(z3.substitute(body, (k, kk), (v, vv)))

    def edges(c, kk):
        """the first kk removed vertices with their neighbours"""
        n = c.n + 2
        f = lambda a, b: And(0 <= a, a < n, POS(a) < kk, c.at(POS(a)) == b)
        return lambda a, b: Or(f(a, b), f(b, a))

    def cvec(L, cpp=VECI): return L.e.x['code']

    def inv0(L):
        c, cnt, q = L.e.x['code'], L['count'], L['it']
        g = view(L.e, L.st)
        return [('position', And(0 <= q, q <= c.n, cnt.n == c.n + 2)), ('counted so far', forall(v, Implies(And(0 <= v, v < c.n + 2), cnt.at(v) == OCC(0, v) - OCC(q, v)), [cnt.at(v)])),
                ('no edges yet', And(g.n == c.n + 2, g.lo == 0, g.m == 0, same(g, lambda a, b: BoolVal(False))))]

    def inst(L, q):
        c = L.e.x['code']
        return [Implies(And(0 <= q, q < c.n), And(OCC(q, c.at(q)) >= 1, OCC(q + 1, c.at(q)) >= 0, POS(c.at(q)) > q, REM(q) >= 0, OCC(q, REM(q)) == 0)), OCC(q + 1, 0) >= 0]

    def state(L, q):
        c, cnt = L.e.x['code'], L['count']
        n = c.n + 2
        cur, sk = L['current'], L['skip']
        return [('counts', And(cnt.n == n, forall(v, Implies(And(0 <= v, v < n), cnt.at(v) == OCC(q, v)), [cnt.at(v)]))),
                ('pointer', And(-1 <= cur, cur < n)),
                ('leaf below the pointer', Or(sk == -1, And(0 <= sk, sk < n, OCC(q, sk) == 0, POS(sk) >= q))),
                ('no other leaf below the pointer', forall(v, Implies(And(0 <= v, v <= cur), Or(POS(v) < q, OCC(q, v) > 0, v == sk)), [POS(v)])),
                ('nothing removed beyond the pointer', forall(v, Implies(And(cur < v, v < n), POS(v) >= q), [POS(v)]))]

    def inv1(L):
        c, q = L.e.x['code'], L['it']
        g = view(L.e, L.st)
        return [('position', And(0 <= q, q <= c.n))] + state(L, q) + [('vertices', And(g.n == c.n + 2, g.lo == 0)), ('edges', same(g, edges(c, q))), ('number of edges', g.m == q)]

    def inv2(L):
        c, cnt, cur = L.e.x['code'], L['count'], L['current']
        g = view(L.e, L.st)
        n = c.n + 2
        ground(L.st, c, [g.m, g.m + 1], [REM(g.m), REM(g.m + 1)])
        ahead = [And(cur <= REM(t), REM(t) < n, cnt.at(REM(t)) == 0) for t in (g.m, g.m + 1)]
        return [('pointer', And(0 <= L.pre['current'], L.pre['current'] <= cur)), ('no leaf in between', forall(v, Implies(And(L.pre['current'] <= v, v < cur), cnt.at(v) > 0), [cnt.at(v)])), ('a leaf follows', Or(*ahead))]
    lp0 = LoopSpec(r'pruefer<[^{]*$', 0, {'count': ('vec', 'count', 'deg', 'cnt'), 'it': ('cur', '__begin2', '__begin1', 'it', 'i')}, inv0, name='count', lemmas=lambda L: inst(L, L['it']), variant=lambda L: L.e.x['code'].n - L['it'])
    lp1 = LoopSpec(r'pruefer<[^{]*$', 1, {'count': ('vec', 'count', 'deg', 'cnt'), 'it': ('cur', '__begin2', '__begin1', 'it', 'i'), 'current': ('s64', 'current'), 'skip': ('s64', 'skip')}, inv1, name='decode', lemmas=lambda L: inst(L, L['it']),
                   variant=lambda L: L.e.x['code'].n - L['it'])
    lp2 = LoopSpec(r'pruefer<.*::\{lambda', 0, {'count': ('vec', 'count', 'deg', 'cnt'), 'current': ('s64', 'current')}, inv2, name='next leaf', variant=lambda L: L.e.x['code'].n + 2 - L['current'])

    def pp(x, o):
        if o.kind != 'ret': return [('no exception', BoolVal(False))]
        c = x['code']
        n = c.n + 2
        g = view(x.e, o.st)
        a, b = REM(c.n), REM(c.n + 1)
        f = edges(c, c.n)
        return [('vertices', And(g.n == n, g.lo == 0)), ('n - 1 edges', g.m == n - 1),
                ('a tree: each vertex but the last is joined with one removed later', forall(k, Implies(And(0 <= k, k < c.n), And(OCC(k, c.at(k)) > 0, POS(c.at(k)) > k)), [c.at(k)])),
                ('each vertex is joined with the entry of the code at which it is removed', same(g, lambda p, q: Or(f(p, q), And(p == a, q == b), And(p == b, q == a))))]

    def m_add(c):
        """the vertices joined are the right ones: shown before the edge is added"""
        e, st = c.e, c.st
        cv = e.x['code']
        m = GV(e, st, c.args[0]).m
        a, b = e.S(st, c.args[1]), e.S(st, c.args[2])
        ground(st, cv, [m, m + 1], [a, b, REM(m), REM(m + 1)])
        last = And(m == cv.n, Or(And(a == REM(m), b == REM(m + 1)), And(b == REM(m), a == REM(m + 1))))
        f = Or(And(m < cv.n, Or(And(b == REM(m), a == cv.at(m)), And(a == REM(m), b == cv.at(m)))), last)
        for nm, ff in (('A', Implies(m == cv.n, Or(a == REM(m), b == REM(m)))), ('the smallest leaf is removed', f)):
            e.oblige(st, nm, ff, 'assert')
            st.assume(ff)
        return gengraph.m_add(c)
    T.append(Target('pruefer', 'd_pruefer', sp, pp, loops=[lp0, lp1, lp2], models=GEN + [(gengraph.P + r'addEdge\(', m_add)], under=['pruefer']))

    # ------------------------------------------------------------------ randomTree
    def st_(x):
        out(x)
        n = x.s64('n')
        x.assume(And(0 <= n, n < BIG))

    def m_pruefer(c):
        """contract of pruefer (above): the tree of this code"""
        e, st = c.e, c.st
        mt = e.cont_mt(st, c.args[1]) or e.types.mt(VECI)
        cs = e.rd_cont(st, c.args[1], mt)
        e.oblige(st, 'pruefer precondition: vertices of the tree', And(cs[0] < BIG, forall(i, Implies(And(0 <= i, i < cs[0]), And(0 <= cs[1][i], cs[1][i] < cs[0] + 2)), [cs[1][i]])), 'pre')
        E = e.fresh('tree', SSB)
        new(e, st, c.args[0], z3.simplify(cs[0] + 2), E, z3.simplify(cs[0] + 1), IntVal(0))
        st.g = dict(st.g, pruefer=(cs[0], cs[1], E))
        e.contracts_used.add('pruefer')

    def inv_t(L):
        c, q, n = L['code'], L['it'], L.e.x['n']
        r = [('position', And(0 <= q, q <= c.n, c.n == n - 2)), ('entries so far', forall(i, Implies(And(0 <= i, i < q), And(0 <= c.at(i), c.at(i) < n, c.at(i) == L['src'][i])), [c.at(i)]))]
        d = L.st.g.get('draws', ())
        if L.head is None: r.append(('the first entry is drawn too', q == 0))
        if L.head is not None: r.append(('every entry is one uniform draw', And(d[0][0] == 0, d[0][1] == n) if len(d) == 1 else BoolVal(False)))
        return r

    def src(H, B):
        d = B.st.g.get('draws', ())
        return Store(H['src'], H['it'], d[0][2]) if len(d) == 1 else H['src']
    lt = LoopSpec(r'\brandomTree<', 0, {'code': ('vec', 'code'), 'it': ('cur', '__begin2', '__begin1', 'it', 'i')}, inv_t, name='code', variant=lambda L: L['code'].n - L['it'], ghosts={'src': (lambda L: z3.K(I, IntVal(0)), src)})

    def pt(x, o):
        if o.kind != 'ret': return [('no exception', BoolVal(False))]
        n, g, d = x['n'], view(x.e, o.st), o.st.g.get('pruefer')
        tree = And(d[0] == n - 2, g.n == n, g.lo == 0, g.m == n - 1, g.E == d[2], forall(i, Implies(And(0 <= i, i < n - 2), d[1][i] == o.st.g['ghost_src'][i]), [d[1][i]])) if d else BoolVal(False)
        return [('at most two vertices', Implies(n <= 2, And(g.n == n, g.lo == 0, same(g, lambda a, b: And(0 <= a, a < n, 0 <= b, b < n, a != b))))), ('the tree of a uniform code', Implies(n > 2, tree))]
    T.append(Target('randomTree', 'd_tree', st_, pt, loops=[lt], models=rnd.RND + [c32.contract('clique'), (r'pruefer<', m_pruefer)] + GEN, under=['randomTree']))

    # ------------------------------------------------------------------ recursive shapes
    SIZE = Function('size', I, I)
    BLK, OFF = Function('block', I, I), Function('position_in_block', I, I)

    def own(nm, f):
        """the recursive calls use the contract, the outer call is the one under proof"""
        def m(c):
            if not any(nm + "<" in (fr.fn.dem if isinstance(fr.fn.dem, str) else fr.fn.dem()) for fr in c.e.frames): return NotImplemented
            c.e.contracts_used.add(nm)
            return f(c)
        return (r'\b%s<' % nm, m)

    def s_ct(x):
        out(x)
        l, c = x.s64('level'), x.s64('children')
        x.assume(And(c >= 1, l >= 0, l < 1 << 20, c < BIG, SIZE(l) < BIG, SIZE(0) == 1, SIZE(1) == c + 1))
        S = SIZE(l - 1)
        x.assume(Implies(l >= 1, And(S >= 1, SIZE(l) == 1 + c * S, S <= c * S)))
        x.assume(forall(v, Implies(v >= 1, And(BLK(v) >= 0, 0 <= OFF(v), OFF(v) < S)), [BLK(v)]))
        x.assume(forall(v, Implies(v >= 1, And(BLK(v) >= 0, 0 <= OFF(v), OFF(v) < S)), [OFF(v)]))

    def ct_rec(c):
        e, st = c.e, c.st
        l, ch = e.S(st, c.args[1]), e.S(st, c.args[2])
        L0, C0 = e.x['level'], e.x['children']
        e.oblige(st, 'completeTree: the recursion ends', And(0 <= l, l < L0), 'variant')
        e.oblige(st, 'completeTree precondition: sizes', And(l == L0 - 1, ch == C0, SIZE(l) < BIG), 'pre')
        E = e.fresh('subtree', SSB)
        S = SIZE(L0 - 1)
        st.assume(forall([v, w], Implies(E[v][w], And(0 <= v, v < S, 0 <= w, w < S)), [E[v][w]]))
        if not isdir(c): st.assume(forall([v, w], E[v][w] == E[w][v], [E[v][w]]))
        st.g = dict(st.g, sub=E)
        new(e, st, c.args[0], S, E, z3.simplify(S - 1), IntVal(0))

    def m_append(c):
        """append(o): the vertices of o follow, with the same edges between them (C31)"""
        e, st = c.e, c.st
        g, h = GV(e, st, c.args[0]), GV(e, st, c.args[1])
        inn = lambda gg, a, b: And(0 <= a, a < gg.n, 0 <= b, b < gg.n)
        E = rel(e, st, 'appended', lambda a, b: Or(And(inn(g, a, b), g.A(a, b)), And(inn(h, a - g.n, b - g.n), h.A(a - g.n, b - g.n))))
        put(e, st, c.args[0], n=z3.simplify(g.n + h.n), E=E, m=z3.simplify(g.m + h.m))
        used(c, 'append')
        return c.args[0]

    def block(sub, n, d):
        f = lambda a, b: And(0 <= a, a < n, 0 <= b, b < n, b >= 1, Or(And(a == 0, OFF(b) == 0), And(a >= 1, BLK(a) == BLK(b), sub[OFF(a)][OFF(b)])))
        return f if d else lambda a, b: Or(f(a, b), f(b, a))

    def at_block(x, q):
        """positions in the q-th block and before (lean/Pruefer.lean: block_unique, block_before)"""
        S = SIZE(x['level'] - 1)
        return [forall(v, And(Implies(And(1 + q * S <= v, v < 1 + q * S + S), And(BLK(v) == q, OFF(v) == v - 1 - q * S)), Implies(And(1 <= v, v < 1 + q * S), BLK(v) < q)), [p]) for p in (BLK(v), OFF(v))]

    for d in (False, True):
        def inv_c(L, d=d):
            x = L.e.x
            q, g, S = L['i'], view(L.e, L.st), SIZE(x['level'] - 1)
            sub = L.st.g.get('sub')
            if sub is None: raise Unsupported('the subtree is not built before the loop')
            return [('bounds', And(0 <= q, q <= x['children'])), ('subtrees so far', And(g.n == 1 + q * S, g.m == q * S, g.lo == 0)), ('edges so far', same(g, block(sub, g.n, d)))]

        def lem_c(L):
            x = L.e.x
            S = SIZE(x['level'] - 1)
            return at_block(x, L['i']) + [L['i'] * S >= 0, Implies(L['i'] < x['children'], L['i'] * S + S <= x['children'] * S)]
        lc = LoopSpec(r'\bcompleteTree<', 0, {'i': ('s64', 'i')}, inv_c, lemmas=lem_c, name='subtrees', variant=lambda L: L.e.x['children'] - L['i'])

        def p_c(x, o, d=d):
            if o.kind != 'ret': return [('no exception', BoolVal(False))]
            g, l, c = view(x.e, o.st), x['level'], x['children']
            sub = o.st.g.get('sub')
            star = (lambda a, b: And(a == 0, 1 <= b, b <= c)) if d else (lambda a, b: Or(And(a == 0, 1 <= b, b <= c), And(b == 0, 1 <= a, a <= c)))
            return [('number of vertices', And(g.n == SIZE(l), g.lo == 0)), ('one edge less', g.m == SIZE(l) - 1), ('no level', Implies(l == 0, same(g, lambda a, b: BoolVal(False)))), ('one level', Implies(l == 1, same(g, star))),
                    ('the root and complete subtrees with consecutive vertices', Implies(l >= 2, same(g, block(sub, g.n, d)) if sub is not None else BoolVal(False)))]
        T.append(Target('completeTree' + (' (directed)' if d else ''), 'd_complete' + ('_d' if d else ''), s_ct, p_c, loops=[lc], models=GEN + [c32.contract('star'), (gengraph.P + r'append\(', m_append), own('completeTree', ct_rec)], under=['completeTree']))

    # hypercube
    def s_h(x):
        out(x)
        d = x.s64('dim')
        x.assume(And(d >= 0, SIZE(d) < BIG, SIZE(0) == 1, SIZE(1) == 2, Implies(d >= 2, And(SIZE(d) == 2 * SIZE(d - 1), SIZE(d - 1) >= 2))))

    def h_rec(c):
        e, st = c.e, c.st
        q = e.S(st, c.args[1])
        d0 = e.x['dim']
        e.oblige(st, 'hypercube: the recursion ends', And(0 <= q, q < d0), 'variant')
        e.oblige(st, 'hypercube precondition', q == d0 - 1, 'pre')
        E = e.fresh('cube', SSB)
        S = SIZE(d0 - 1)
        st.assume(forall([v, w], Implies(E[v][w], And(0 <= v, v < S, 0 <= w, w < S)), [E[v][w]]))
        m = e.fint('edges')
        e.bounded(st, m, 0, 1 << 60)
        st.g = dict(st.g, sub=E)
        new(e, st, c.args[0], S, E, m, IntVal(0))

    def p_h(x, o):
        if o.kind != 'ret': return [('no exception', BoolVal(False))]
        g, d = view(x.e, o.st), x['dim']
        sub, pr = o.st.g.get('sub'), o.st.g.get('product')
        r = [('number of vertices', And(g.n == SIZE(d), g.lo == 0)), ('dimension 0', Implies(d == 0, same(g, lambda a, b: BoolVal(False)))), ('dimension 1', Implies(d == 1, same(g, lambda a, b: And(0 <= a, a < 2, 0 <= b, b < 2, a != b))))]
        if sub is None: return r + [('small dimension', d < 2)]
        S = SIZE(d - 1)
        a, a2 = Ints('a a2')
        for y in (0, 1):
            for y2 in (0, 1):
                inst = pr(a, IntVal(y), a2, IntVal(y2)) if pr else BoolVal(True)
                r.append(('two cubes joined by the highest bit %d%d' % (y, y2), Implies(And(inst, 0 <= a, a < S, 0 <= a2, a2 < S), g.A(y * S + a, y2 * S + a2) == (sub[a][a2] if y == y2 else a == a2))))
        return r
    T.append(Target('hypercube', 'd_cube', s_h, p_h, models=GEN + [c32.contract('clique'), own('hypercube', h_rec)], under=['hypercube']))

    # ------------------------------------------------------------------ shapes defined by bits
    P2 = Function('power_of_two', I, I)
    ISP2 = Function('is_power_of_two', I, BoolSort())
    CONT = Function('contains_bits', I, I, BoolSort())        # (x | m) == x

    def bits(x):
        def bf(e, st, op, p, q, r):
            """specs/c43.py extra_checks: bits"""
            if op == 'or': st.assume((r == p) == CONT(p, q))
            if op == 'xor': st.assume(Implies(CONT(p, q), r == p - q))
            if op == 'and': st.assume((r == q) == CONT(p, q))
        x.e.bitfacts = bf
        def pw(e, st, y):
            while y.num_args() and y.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_ITE):        # conversions that keep the value
                t = y.arg(0) if y.decl().kind() == z3.Z3_OP_MOD else y.arg(2)
                if not e.prove(st, t == y): break
                y = t
            return P2(y)
        x.e.pow2fn = pw
        x.assume(And(P2(0) == 1, P2(30) == 1 << 30, P2(31) == 1 << 31))
        x.assume(forall(v, Implies(v >= 0, P2(v) > v), [P2(v)]))
        x.assume(forall([v, w], Implies(And(0 <= v, v < w), P2(v) < P2(w)), [[P2(v), P2(w)]]))
        x.assume(forall(v, Implies(ISP2(v), v >= 1), [ISP2(v)]))
        x.assume(ISP2(1))

    def both(f, d): return f if d else lambda a, b: Or(f(a, b), f(b, a))
    for d in (False, True):
        # rado
        def s_r(x):
            out(x)
            bits(x)
            n = x.s64('n')
            x.assume(And(0 <= n, n < BIG))

        def radoedges(full, row=None, upto=None):
            bit = lambda a, b: And(0 <= a, 0 <= b, P2(a) <= b, CONT(b, P2(a)))
            return lambda a, b: And(bit(a, b), Or(b < full, And(b == row, a < upto)) if row is not None else b < full)

        def inv_r0(L, d=d):
            g, n = view(L.e, L.st), L.e.x['n']
            return [('bounds', And(0 <= L['i'], L['i'] <= n)), ('vertices', And(g.n == n, g.lo == 0)), ('edges so far', same(g, both(radoedges(L['i']), d)))]

        def inv_r1(L, d=d):
            g, n = view(L.e, L.st), L.e.x['n']
            return [('bounds', And(0 <= L['i'], L['i'] < n, 0 <= L['j'], L['j'] <= 30)), ('vertices', And(g.n == n, g.lo == 0)), ('edges so far', same(g, both(radoedges(L['i'], L['i'], L['j']), d)))]
        lr = [LoopSpec(r'\brado<', 0, {'i': ('s64', 'i')}, inv_r0, name='vertices', variant=lambda L: L.e.x['n'] - L['i']),
              LoopSpec(r'\brado<', 1, {'i': ('s64', 'i'), 'j': ('s64', 'j')}, inv_r1, name='bits', variant=lambda L: 31 - L['j'])]

        def p_r(x, o, d=d):
            if o.kind != 'ret': return [('no exception', BoolVal(False))]
            g = view(x.e, o.st)
            return [('vertices', And(g.n == x['n'], g.lo == 0)), ('joined exactly if the bit is set', same(g, both(radoedges(x['n']), d)))]
        T.append(Target('rado' + (' (directed)' if d else ''), 'd_rado' + ('_d' if d else ''), s_r, p_r, loops=lr, models=GEN, under=['rado']))

        # boolean lattice
        def s_l(x):
            out(x)
            bits(x)
            l = x.s64('level')
            x.assume(And(0 <= l, l <= 30))

        def latedges(full, row=None, upto=None):
            f = lambda a, b: And(0 <= b, b < a, ISP2(a - b), CONT(a, a - b))
            return lambda a, b: And(f(a, b), Or(a < full, And(a == row, a - b < upto)) if row is not None else a < full)

        def inv_l0(L, d=d):
            g, n = view(L.e, L.st), P2(L.e.x['level'])
            return [('bounds', And(0 <= L['i'], L['i'] <= n)), ('vertices', And(g.n == n, g.lo == 0)), ('edges so far', same(g, both(latedges(L['i']), d)))]

        def inv_l1(L, d=d):
            g, n = view(L.e, L.st), P2(L.e.x['level'])
            return [('bounds', And(0 <= L['i'], L['i'] < n, 1 <= L['j'], L['j'] <= 2 * n, ISP2(L['j']))), ('vertices', And(g.n == n, g.lo == 0)), ('edges so far', same(g, both(latedges(L['i'], L['i'], L['j']), d)))]

        def lem_l(L):
            j = L['j']
            return [Implies(ISP2(j), And(ISP2(2 * j), forall(v, Implies(And(ISP2(v), j <= v, v < 2 * j), v == j), [ISP2(v)])))]
        ll = [LoopSpec(r'\bbooleanLattice<', 0, {'i': ('s64', 'i')}, inv_l0, name='vertices', variant=lambda L: P2(L.e.x['level']) - L['i']),
              LoopSpec(r'\bbooleanLattice<', 1, {'i': ('s64', 'i'), 'j': ('s64', 'j')}, inv_l1, lemmas=lem_l, name='bits', variant=lambda L: 2 * P2(L.e.x['level']) - L['j'])]

        def p_l(x, o, d=d):
            if o.kind != 'ret': return [('no exception', BoolVal(False))]
            g, n = view(x.e, o.st), P2(x['level'])
            return [('vertices', And(g.n == n, g.lo == 0)), ('joined exactly if one has exactly one bit less', same(g, both(latedges(n), d)))]
        T.append(Target('booleanLattice' + (' (directed)' if d else ''), 'd_lattice' + ('_d' if d else ''), s_l, p_l, loops=ll, models=GEN, under=['booleanLattice']))

    # ------------------------------------------------------------------ randomGrowingGraph
    def s_g(x):
        out(x)
        x.e.fpfacts = c11.facts
        n = x.s64('n')
        x.assume(And(0 <= n, n < BIG))
        x.real('p', c11.FP)

    def m_real2(c):
        """contract of Random::real(lower, upper) (C11)"""
        e, st = c.e, c.st
        l, u = c.args[0].t, c.args[1].t
        e.oblige(st, 'real precondition: a range', And(c11.fin(l), c11.fin(u), c11.lt(l, u)), 'pre')
        r = e.fresh('real', c11.FS)
        st.assume(And(c11.fin(r), c11.le(l, r), c11.lt(r, u)))
        e.contracts_used.add('Random::real(lower, upper)')
        st.g = dict(st.g, reals=st.g.get('reals', ()) + ((l, u, r),))
        return FV(r, c11.FP)

    def m_distinct(c):
        """contract of Random::distinct(count, lower, upper) (C12)"""
        e, st = c.e, c.st
        q, lo, up = [e.S(st, t) for t in c.args[1:4]]
        e.oblige(st, 'distinct precondition: enough values', And(q >= 0, lo + q <= up), 'pre')
        arr = e.fresh('drawn', AI)
        e.wr_cont(st, c.args[0], e.types.mt(VECI), (q, arr), {0, 1})
        inv = e.fresh('place', AI)
        st.assume(forall(i, Implies(And(0 <= i, i < q), And(lo <= arr[i], arr[i] < up, inv[arr[i]] == i)), [arr[i]]))
        st.g = dict(st.g, drawn=(q, lo, up, arr, inv))
        e.contracts_used.add('Random::distinct')

    def inv_g0(L):
        g, n = view(L.e, L.st), L.e.x['n']
        r = [('bounds', And(0 <= L['i'], L['i'] <= n)), ('vertices', And(g.n == n, g.lo == 0)), ('only the first vertices are joined', forall([v, w], Implies(g.A(v, w), And(0 <= v, v < L['i'], 0 <= w, w < L['i'], v != w)), [g.A(v, w)])), ('number of edges so far', g.m >= 0)]
        d = L.st.g.get('drawn')
        if L.head is not None and d is not None:
            h, hi = view(L.e, L.head.st), L.head['i']
            r.append(('the vertex is joined with exactly the drawn smaller vertices', And(d[1] == 0, d[2] == hi, g.m == h.m + d[0],
                      forall([v, w], g.A(v, w) == Or(h.A(v, w), And(v == hi, 0 <= w, w < hi, 0 <= d[4][w], d[4][w] < d[0], d[3][d[4][w]] == w), And(w == hi, 0 <= v, v < hi, 0 <= d[4][v], d[4][v] < d[0], d[3][d[4][v]] == v)), [g.A(v, w)]))))
        return r

    def inv_g1(L):
        g, x = view(L.e, L.st), L.e.x
        q, n, vi, arr, pl = L['it'], L.st.g['drawn'][0], L['i'], L.st.g['drawn'][3], L.st.g['drawn'][4]
        h = view(L.e, L.pre.st)
        new_ = lambda a, b: And(a == vi, 0 <= b, b < vi, 0 <= pl[b], pl[b] < q, arr[pl[b]] == b)
        return [('position', And(0 <= q, q <= n, 0 <= vi, vi < x['n'])), ('vertices', And(g.n == x['n'], g.lo == 0)), ('number of edges', g.m == h.m + q), ('edges so far', same(g, lambda a, b: Or(h.A(a, b), new_(a, b), new_(b, a))))]
    lg = [LoopSpec(r'\brandomGrowingGraph<', 0, {'i': ('s64', 'i')}, inv_g0, name='vertices', variant=lambda L: L.e.x['n'] - L['i']),
          LoopSpec(r'\brandomGrowingGraph<', 1, {'i': ('s64', 'i'), 'it': ('cur', '__begin2', '__begin1', 'it')}, inv_g1, name='neighbours', variant=lambda L: L.st.g['drawn'][0] - L['it'])]

    def p_g(x, o):
        bad = Not(And(c11.le(c11.ZERO, x['p']), c11.le(x['p'], c11.ONE)))
        if o.kind == 'throw': return [('only impossible probabilities are rejected', And(bad, BoolVal(o.val == 'std::domain_error')))]
        if o.kind != 'ret': return None
        g = view(x.e, o.st)
        return [('probability', Not(bad)), ('vertices', And(g.n == x['n'], g.lo == 0)), ('edges between vertices', forall([v, w], Implies(g.A(v, w), And(0 <= v, v < x['n'], 0 <= w, w < x['n'], v != w)), [g.A(v, w)]))]
    T.append(Target('randomGrowingGraph', 'd_growing', s_g, p_g, loops=lg, models=GEN + [(r'^Random::distinct\(', m_distinct), (r'^Random::real\(long double, long double\)', m_real2)], expects=('ret', 'throw'), under=['randomGrowingGraph']))
    return T


ASSUMPTIONS = ['the operations of GraphType enter by contract (C31), Random::integer too (C10)', 'lean/Pruefer.lean proves that the order of removal used as specification exists for every code']


def extra_checks(repo, work, tier): yield from lean_checks('Pruefer.lean')
