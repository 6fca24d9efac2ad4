"""contracts of the graph class of graph_gen.h, as the generators see it (proved for the class in C31): the graph at p has vertices lo .. lo+n-1 and
the relation A over indices (vertex - lo); A is symmetric for undirected graphs"""
from spec import *
from graphm import SETV
import re
SB = z3.ArraySort(IntSort(), BoolSort())
SSB = z3.ArraySort(IntSort(), SB)
AI = z3.ArraySort(IntSort(), IntSort())
v, w = Ints('v w')
OM, OLO = 80, 160
I64 = ('int', 64)


class GV:
    def __init__(s, e, st, p):
        s.e, s.st, s.p = e, st, p
        mt = e.types.mt(SETV)
        s.c = e.rd_cont(st, p, mt)
        s.n, s.E = s.c[0], s.c[1]
        s.m = e.S(st, e.load(st, e.padd_const(p, OM), I64))
        s.lo = e.S(st, e.load(st, e.padd_const(p, OLO), I64))

    def A(s, a, b): return z3.Select(z3.Select(s.E, a), b)


def put(e, st, p, n=None, E=None, m=None, lo=None):
    mt = e.types.mt(SETV)
    if n is not None or E is not None:
        c = e.rd_cont(st, p, mt) if n is None or E is None else None
        sz = e.fresh('sizes', AI)
        e.wr_cont(st, p, mt, (n if n is not None else c[0], E if E is not None else c[1], sz) + tuple(c[3:] if c else ()), {0, 1, 2})
    if m is not None: e.store(st, e.padd_const(p, OM), IV(m, 64, 'S'), I64)
    if lo is not None: e.store(st, e.padd_const(p, OLO), IV(lo, 64, 'S'), I64)


def new(e, st, p, n, E, m, lo):
    mt = e.types.mt(SETV)
    e.wr_cont(st, p, mt, (n, E, e.fresh('sizes', AI)), {0, 1, 2})
    put(e, st, p, m=m, lo=lo)


NOE = z3.K(IntSort(), z3.K(IntSort(), BoolVal(False)))


def isdir(c): return re.search(r'GraphType<.*, (true|false)>', c.dem).group(1) == 'true'


def used(c, n): c.e.contracts_used.add('GraphType::' + n)


def m_ctor(c):
    e, st = c.e, c.st
    a = [e.S(st, t) for t in c.args[1:]]
    lo, up = a if len(a) == 2 else (IntVal(0), a[0])
    e.oblige(st, 'GraphType precondition: number of vertices', And(lo <= up, up - lo < 1 << 62, lo >= -(1 << 62), lo <= 1 << 62), 'pre')
    new(e, st, c.args[0], z3.simplify(up - lo), NOE, IntVal(0), z3.simplify(lo))
    used(c, 'GraphType')


def m_copy(c):
    e, st = c.e, c.st
    g = GV(e, st, c.args[1])
    new(e, st, c.args[0], g.n, g.E, g.m, g.lo)
    used(c, 'GraphType(copy)')


def added(E, a, b, dir):
    E = Store(E, a, Store(E[a], b, True))
    return E if dir else Store(E, b, Store(E[b], a, True))


def m_add(c):
    """addEdge(from, to): both are vertices and different; an edge that exists already is kept"""
    if 'EdgeType' in c.dem: return NotImplemented
    e, st = c.e, c.st
    p = c.args[0]
    g = GV(e, st, p)
    a, b = e.S(st, c.args[1]), e.S(st, c.args[2])
    e.oblige(st, 'addEdge precondition: vertices of the graph', And(g.lo <= a, a < g.lo + g.n, g.lo <= b, b < g.lo + g.n), 'pre')
    e.oblige(st, 'addEdge precondition: no self loop', a != b, 'pre')
    x, y = z3.simplify(a - g.lo), z3.simplify(b - g.lo)
    st.g = dict(st.g, last_edge=(x, y))
    put(e, st, p, E=added(g.E, x, y, isdir(c)), m=g.m + If(g.A(x, y), 0, 1))
    used(c, 'addEdge')
    return [IV(a, 64, 'S'), IV(b, 64, 'S')]


def m_n(c):
    used(c, 'nodeCount')
    return IV(GV(c.e, c.st, c.args[0]).n, 64, 'S')


def m_m(c):
    used(c, 'edgeCount')
    return IV(GV(c.e, c.st, c.args[0]).m, 64, 'S')


def m_setmin(c):
    e, st = c.e, c.st
    put(e, st, c.args[0], lo=e.S(st, c.args[1]))
    used(c, 'setMinId')
    return c.args[0]


def rel(e, st, nm, f, pats=True):
    """a fresh relation with A(v, w) == f(v, w)"""
    E = e.fresh(nm, SSB)
    st.assume(forall([v, w], E[v][w] == f(v, w), [E[v][w]]))
    return E


def m_combine(c):
    """union of the vertex ranges and of the edges (the ranges overlap or touch)"""
    e, st = c.e, c.st
    p, q = c.args[:2]
    g, h = GV(e, st, p), GV(e, st, q)
    lo = If(g.lo < h.lo, g.lo, h.lo)
    up = If(g.lo + g.n > h.lo + h.n, g.lo + g.n, h.lo + h.n)
    E = rel(e, st, 'combined', lambda a, b: Or(g.A(a + lo - g.lo, b + lo - g.lo), h.A(a + lo - h.lo, b + lo - h.lo)))
    st.assume(And([forall([v, w], Implies(k.A(v, w), And(0 <= v, v < k.n, 0 <= w, w < k.n)), [k.A(v, w)]) for k in (g, h)]))
    m = e.fint('edges')
    e.bounded(st, m, 0, 1 << 62)
    disj = Not(z3.Exists([v, w], And(g.A(v, w), h.A(v + g.lo - h.lo, w + g.lo - h.lo))))
    st.assume(Implies(disj, m == g.m + h.m))
    put(e, st, p, n=z3.simplify(up - lo), E=E, m=m, lo=z3.simplify(lo))
    used(c, 'combine')
    return p


def m_cart(c):
    """cartesian product: vertex (b - o.lo) * n + (a - lo) for the pair (a, b)"""
    e, st = c.e, c.st
    r, p, q = c.args[:3]
    g, h = GV(e, st, p), GV(e, st, q)
    N = g.n * h.n
    e.oblige(st, 'cartesian precondition: number of vertices', And(0 <= N, N < 1 << 62), 'pre')
    E = e.fresh('product', SSB)
    x, y, x2, y2 = Ints('x y x2 y2')
    at = lambda a, b: b * g.n + a
    rng = And(0 <= x, x < g.n, 0 <= x2, x2 < g.n, 0 <= y, y < h.n, 0 <= y2, y2 < h.n)
    st.assume(forall([v, w], Implies(E[v][w], And(0 <= v, v < N, 0 <= w, w < N)), [E[v][w]]))
    body = Implies(rng, E[at(x, y)][at(x2, y2)] == Or(And(x == x2, h.A(y, y2)), And(y == y2, g.A(x, x2))))
    st.assume(forall([x, y, x2, y2], body))
    st.g = dict(st.g, product=lambda *t: z3.substitute(body, *zip((x, y, x2, y2), t)))      # instance of the contract
    m = e.fint('edges')
    e.bounded(st, m, 0, 1 << 62)
    st.assume(m == g.m * h.n + g.n * h.m)
    new(e, st, r, z3.simplify(N), E, m, IntVal(0))
    used(c, 'cartesian')


P = r'^GraphDetail::GraphType<.*, (?:true|false)>::'
GEN = [(P + r'GraphType\(long(, long)?\)', m_ctor), (P + r'GraphType\(GraphDetail::GraphType<.*const&\)', m_copy), (P + r'~GraphType\(', lambda c: None), (P + r'addEdge\(', m_add), (P + r'nodeCount\(', m_n), (P + r'size\(', m_n),
       (P + r'edgeCount\(', m_m), (P + r'setMinId\(', m_setmin), (P + r'combine\(', m_combine), (P + r'cartesian\(GraphDetail::GraphType<[^()]*\) const$', m_cart)]
