"""the representation of GraphDetail::GraphType: deque of sets of edge pointers (a partial map from key to edge number per vertex) and deque of edges (key, to, data);
keys come from ^, which enters as an uninterpreted commutative operation with X(X(a, b), b) == a"""
from spec import *
from vals import *
import models as MD
import re
X = Function('xor64', IntSort(), IntSort(), IntSort())
a_, b_, i_, j_, k_, v_, w_ = Ints('a b i j k v w')
S64 = lambda t: And(-(1 << 63) <= t, t < 1 << 63)
XOR = [forall([a_, b_], Implies(And(S64(a_), S64(b_)), And(X(a_, b_) == X(b_, a_), X(X(a_, b_), b_) == a_, X(X(a_, b_), a_) == b_, S64(X(a_, b_)))), [X(a_, b_)])]
SB = z3.ArraySort(IntSort(), BoolSort())
Card = Function('card', SB, IntSort())
S_ = z3.Const('S!', SB)
EMPTY = z3.K(IntSort(), BoolVal(False))
CARD = [Card(EMPTY) == 0, forall([S_, k_], Card(z3.Store(S_, k_, True)) == Card(S_) + If(S_[k_], 0, 1), [z3.Store(S_, k_, True)]), forall([S_, k_], Card(z3.Store(S_, k_, False)) == Card(S_) - If(S_[k_], 1, 0), [z3.Store(S_, k_, False)])]
I64 = ('int', 64)
OE, OMIN = 80, 160
SETT = AssocT(Shape(8, [Leaf(0, ('i', 64, 's'), 8)], 'key'), Shape(8, [Leaf(0, ('i', 64, 's'), 8)], 'edge number'), 48, 'set')
ADJT = VecT(Shape(48, [Leaf(0, ('m', SETT), 48)], 'set'), 80, 'deque')


def edge_shape(data): return Shape(24, [Leaf(0, ('i', 64, 's'), 8), Leaf(8, ('i', 64, 's'), 8), Leaf(16, data, 8 if data[0] == 'i' and data[1] == 64 else 1)], 'edge')


EDGET = {'long': VecT(edge_shape(('i', 64, 's')), 80, 'deque'), 'GraphDetail::NoData': VecT(edge_shape(('i', 8, 'u')), 80, 'deque')}


def dmt(cls):
    """model type of a deque class"""
    if cls.startswith('std::deque<std::set<'): return ADJT
    m = re.match(r'std::deque<GraphDetail::EdgeType<(long|GraphDetail::NoData)>', cls)
    return EDGET[m.group(1)] if m else None


def deque_guard(c):
    q, params, cls, meth, mta = MD.parse_dem(c.dem)
    mt = dmt(cls)
    if mt is None: return NotImplemented
    e, st, a = c.e, c.st, c.args
    e.types.custom[e.types.norm(cls)] = lambda: Shape(80, [Leaf(0, ('m', mt), 80)])
    if mt is not ADJT:
        n = re.match(r'std::deque<(GraphDetail::EdgeType<[^<>]*>)', cls).group(1)
        e.types.custom[n] = lambda: mt.elem
    if meth in ('begin', 'end', 'cbegin', 'cend'):
        comps = e.rd_cont(st, a[1], mt)
        e.store(st, a[0], EP(a[1], IntVal(0) if 'begin' in meth else comps[0], 0, mt), ('ptr',))
        for o in (8, 16, 24): e.store(st, e.padd_const(a[0], o), NULLP, ('ptr',))
        return None
    comps = None if meth in ('deque', '~deque') else list(e.rd_cont(st, a[0], mt))
    if meth == 'deque' and params and params[0] == 'unsigned long':
        n = e.idx(st, a[1])
        ok = n <= (1 << 62)
        res = []
        if not e.prove(st, ok):
            bad = st.fork()
            bad.assume(Not(ok))
            res.append((bad, 'throw', 'std::length_error'))
            st.assume(ok)
        e.wr_cont(st, a[0], mt, MD.fill_comps(e, mt, n, MD.zero_elem(e, mt.elem)))
        return [(st, 'ret', None)] + res
    if meth in ('emplace_front',) and mt is ADJT:
        new = [z3.simplify(comps[0] + 1)]
        for x, z in zip(comps[1:], MD.zero_elem(e, mt.elem)):
            y = e.fresh('front', x.sort())
            st.assume(forall(i_, y[i_] == If(i_ == 0, z, x[i_ - 1]), [y[i_]]))
            new.append(y)
        e.wr_cont(st, a[0], mt, new)
        return EP(a[0], IntVal(0), 0, mt)
    if meth == 'emplace_back' and mt is ADJT:
        e.wr_cont(st, a[0], mt, [z3.simplify(comps[0] + 1)] + [z3.Store(x, comps[0], z) for x, z in zip(comps[1:], MD.zero_elem(e, mt.elem))])
        return EP(a[0], comps[0], 0, mt)
    if meth in ('emplace_back', 'push_back') and len(a) == 4:
        vals = [e.S(st, e.load(st, a[1], I64)), e.S(st, e.load(st, a[2], I64)), data_at(e, st, a[3], mt)]
        e.wr_cont(st, a[0], mt, [z3.simplify(comps[0] + 1)] + [z3.Store(x, comps[0], z) for x, z in zip(comps[1:], vals)])
        return EP(a[0], comps[0], 0, mt)
    if meth in ('emplace_back', 'push_back') and len(a) == 2 and isinstance(a[1], EP) and a[1].mt is mt:
        src = e.rd_cont(st, a[1].par, mt)
        e.elem_bounds(st, a[1], src)
        e.wr_cont(st, a[0], mt, [z3.simplify(comps[0] + 1)] + [z3.Store(x, comps[0], y[a[1].idx]) for x, y in zip(comps[1:], src[1:])])
        return EP(a[0], comps[0], 0, mt)
    return MD.vec_method(c)


NULLP = NullP()


def data_at(e, st, p, mt):
    lf = mt.elem.leaves[2]
    v = e.load(st, p, ('int', lf.kind[1]))
    return e.scalar_to(st, lf.kind, v) if not isinstance(v, Undef) else IntVal(0)


def iter_inc(c):
    v = c.e.load(c.st, c.args[0], ('ptr',))
    if not isinstance(v, EP): return NotImplemented
    c.e.store(c.st, c.args[0], c.e.padd(c.st, v, c.e.const(1, 64), v.mt.elem.size), ('ptr',))
    return c.args[0]


def edges_of(e, st, s):
    """the edges container that belongs to the graph with the set at s"""
    if not (isinstance(s, EP) and isinstance(s.par, CP)): raise Unsupported('set of edges outside of a graph')
    p = CP(s.par.obj, s.par.off + OE)
    return p, e.cont_mt(st, p)


def edge_ptr(e, st, s, p):
    """number and key of the edge that p points to"""
    q, mt = edges_of(e, st, s)
    if not (isinstance(p, EP) and p.par == q and p.off == 0): raise Unsupported('pointer to something else than an edge of the graph: %r' % (p,))
    ed = e.rd_cont(st, q, mt)
    e.ub(st, 'edge pointer valid', And(0 <= p.idx, p.idx < ed[0]))
    return p.idx, ed[1][p.idx]


def m_set(c):
    """std::set of pointers to edges ordered by their key"""
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = MD.parse_dem(c.dem)
    if cls.startswith('std::deque<'): return deque_guard(c)
    if cls.startswith('std::_Deque_iterator<'): return iter_inc(c) if meth == 'operator++' and not params else NotImplemented
    if not cls.startswith('std::set<GraphDetail::EdgeType'): return NotImplemented
    meth = meth.split('<')[0]
    if meth in ('set', '~set'): return None if meth[0] == '~' else NotImplemented
    s = a[0]
    dom, sz, val = e.rd_cont(st, s, SETT)
    if meth == 'size': return e.from_idx(sz)
    if meth == 'empty': return z3.simplify(sz == 0)
    if meth == 'end': return NodeP(s, SETT, IntVal(0), BoolVal(True))
    if meth == 'clear':
        e.wr_cont(st, s, SETT, MD.empty_comps(e, SETT))
        return None
    ep, emt = edges_of(e, st, s)
    ed = e.rd_cont(st, ep, emt)
    e.oblige(st, 'set of edges: keys of the elements are unchanged since they were inserted', forall(k_, Implies(dom[k_], And(0 <= val[k_], val[k_] < ed[0], ed[1][val[k_]] == k_)), [dom[k_]]), 'pre')
    if meth in ('begin', 'cbegin'): return MD.node_after(e, st, s, SETT, (dom, sz, val), None)
    if meth in ('find', 'count', 'contains', 'lower_bound'):
        v = e.load(st, a[1], I64) if 'long const&' in params[0] else None
        k = e.S(st, v) if v is not None else edge_ptr(e, st, s, e.load(st, a[1], ('ptr',)))[1]
        if meth == 'find': return NodeP(s, SETT, k, z3.simplify(Not(dom[k])))
        if meth == 'lower_bound': return NotImplemented
        return e.b2i(dom[k], 64) if meth == 'count' else dom[k]
    if meth in ('emplace', 'insert'):
        i, k = edge_ptr(e, st, s, e.load(st, a[1], ('ptr',)))
        has = dom[k]
        e.wr_cont(st, s, SETT, (z3.Store(dom, k, True), z3.simplify(If(has, sz, sz + 1)), z3.Store(val, k, If(has, val[k], i))))
        return [NodeP(s, SETT, k, BoolVal(False)), z3.simplify(Not(has))]
    if meth == 'erase' and isinstance(a[1], Ptr) and not isinstance(a[1], NodeP) and '*' in params[0]:
        i, k = edge_ptr(e, st, s, e.load(st, a[1], ('ptr',)))
        has = dom[k]
        e.wr_cont(st, s, SETT, (z3.Store(dom, k, False), z3.simplify(If(has, sz - 1, sz)), val))
        return e.b2i(has, 64)
    if meth == 'erase' and isinstance(a[1], NodeP):
        n = a[1]
        e.ub(st, 'erased iterator points to an element', And(Not(n.end), dom[n.key]))
        e.wr_cont(st, s, SETT, (z3.Store(dom, n.key, False), z3.simplify(sz - 1), val))
        return MD.node_after(e, st, s, SETT, (z3.Store(dom, n.key, False), z3.simplify(sz - 1), val), n.key)
    return NotImplemented


def m_deref(c):
    """*it for an iterator into a set of edges: a reference to the pointer"""
    e, st = c.e, c.st
    n = e.load(st, c.args[0], ('ptr',))
    if not isinstance(n, NodeP) or n.mt is not SETT: return NotImplemented
    dom, sz, val = e.rd_cont(st, n.par, SETT)
    e.ub(st, 'iterator dereferenceable', And(Not(n.end), dom[n.key]))
    ep, emt = edges_of(e, st, n.par)
    oid = e.new_obj(st, 'ref', ('ptr',), 8)
    e.store(st, CP(oid, 0), EP(ep, val[n.key], 0, emt), ('ptr',))
    return CP(oid, 0)


def m_to_string(c):
    e, st = c.e, c.st
    mt = e.types.mt('std::string')
    n = e.fint('digits')
    e.bounded(st, n, 1, 20)
    e.wr_cont(st, c.args[0], mt, (n, e.fresh('number', z3.ArraySort(IntSort(), IntSort()))))


MODELS = [(r'^std::__cxx11::to_string\(', m_to_string),
          (r'std::deque<.*>::(deque|~deque|size|empty|begin|end|cbegin|cend|operator\[\]|at|front|back|push_back|emplace_back|emplace_front|pop_back|clear|resize|operator=)(<.*>)?\(', deque_guard),
          (r'std::_Deque_iterator<.*>::operator\+\+\(\)', iter_inc), (r'std::set<GraphDetail::EdgeType<.*>::\w+', m_set),
          (r'^std::_Rb_tree_(const_)?iterator<GraphDetail::EdgeType<[^<>]*>\*>::operator\*\(\) const', m_deref)]


class GS:
    """view of the graph at p"""

    def __init__(s, e, st, p, E, dir):
        s.e, s.st, s.p, s.E, s.dir = e, st, p, E, dir
        s.emt = EDGET[E]
        s.ac = e.rd_cont(st, p, ADJT)
        s.n, s.dom, s.sz, s.val = s.ac
        s.ec = e.rd_cont(st, e.padd_const(p, OE), s.emt)
        s.m, s.K, s.T, s.DT = s.ec
        s.lo = e.S(st, e.load(st, e.padd_const(p, OMIN), I64))

    def F(s, i): return X(s.K[i], s.T[i])
    def node(s, x): return And(s.lo <= x, x < s.lo + s.n)
    def A(s, x, y): return s.dom[x - s.lo][X(x, y)]
    def at(s, x, y): return s.val[x - s.lo][X(x, y)]
    def D(s, x, y): return s.DT[s.at(x, y)]

    def ends(s):
        """every edge connects two different vertices"""
        return forall(i_, Implies(And(0 <= i_, i_ < s.m), And(s.node(s.F(i_)), s.node(s.T[i_]), s.F(i_) != s.T[i_], S64(s.K[i_]), S64(s.T[i_]))), [s.K[i_]])

    def sane(s): return And(0 <= s.n, s.n < 1 << 58, -(1 << 61) < s.lo, s.lo < 1 << 61)

    def entered(s, c):
        """the first c edges are in the sets of their vertices, and nothing else is"""
        hit = lambda x: And(s.dom[x - s.lo][s.K[i_]], s.val[x - s.lo][s.K[i_]] == i_)
        own = lambda j: Or([s.F(j) == v_ + s.lo] + ([] if s.dir else [s.T[j] == v_ + s.lo]))
        o = [('edges are found at their vertices', forall(i_, Implies(And(0 <= i_, i_ < c), And([hit(s.F(i_))] + ([] if s.dir else [hit(s.T[i_])]))), [s.K[i_]])),
             ('sets contain edges of their vertex only', forall([v_, k_], Implies(And(0 <= v_, v_ < s.n, s.dom[v_][k_]), And(0 <= s.val[v_][k_], s.val[v_][k_] < c, s.K[s.val[v_][k_]] == k_, own(s.val[v_][k_]))), [s.dom[v_][k_]]))]
        return o + [('degrees count the edges of a vertex', forall(v_, Implies(And(0 <= v_, v_ < s.n), s.sz[v_] == Card(s.dom[v_])), [s.sz[v_]]))]

    def inv(s): return [('sizes', s.sane()), ('edges connect different vertices', s.ends())] + s.entered(s.m)

    def distinct(s, m=None):
        """no two edges are the same"""
        m = s.m if m is None else m
        same = lambda i, j: And(s.K[i] == s.K[j], Or([s.F(i) == s.F(j)] + ([] if s.dir else [s.F(i) == s.T[j]])))
        return forall([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < m), Not(same(i_, j_))), [[s.K[i_], s.K[j_]]])


def types(x, E):
    e = x.e
    e.xorfn = X
    for f in XOR + CARD: x.st.assume(f)


def graph(x, n, E, dir, inv=True):
    """argument: a graph satisfying the class invariant"""
    e, st = x.e, x.st
    oid = e.new_obj(st, n, None, 168)
    for off, mt in ((0, ADJT), (OE, EDGET[E])):
        comps = tuple(z3.Const('%s.%d.%d' % (n, off, k), s) for k, s in enumerate(e.comps(mt)))
        st.wobj(oid).ghost[off] = (mt, comps)
        e.cont_facts(st, mt, comps)
    t = Int(n + '.minId')
    e.typed(st, t, 64, 'S')
    e.store(st, CP(oid, OMIN), IV(t, 64, 'S'), I64)
    x.args.append(CP(oid, 0))
    g = GS(e, st, CP(oid, 0), E, dir)
    if inv:
        for _, f in g.inv(): x.assume(f)
    return g


def fresh_graph(x, n):
    """argument: memory for a graph"""
    oid = x.e.new_obj(x.st, n, None, 168)
    x.args.append(CP(oid, 0))
    return CP(oid, 0)


def added(g, h, a, b, data):
    """contract of addEdge(a, b, data): what it does to the sets and the edges"""
    k = X(a, b)
    x, y = a - g.lo, b - g.lo
    has = g.dom[x][k]
    at = Or([v_ == x] + ([] if g.dir else [v_ == y]))
    r = And(0 <= v_, v_ < g.n)
    o = [('sets of edges', forall([v_, k_], Implies(r, h.dom[v_][k_] == Or(g.dom[v_][k_], And(at, k_ == k))), [h.dom[v_][k_]])), ('number of edges', h.m == g.m + If(has, 0, 1)),
         ('numbers of the edges', forall([v_, k_], Implies(And(r, h.dom[v_][k_]), h.val[v_][k_] == If(g.dom[v_][k_], g.val[v_][k_], g.m)), [h.dom[v_][k_]])),
         ('earlier edges stay', forall(i_, Implies(And(0 <= i_, i_ < g.m), And(h.K[i_] == g.K[i_], h.T[i_] == g.T[i_])), [[h.K[i_]], [h.T[i_]]])), ('new edge', Implies(Not(has), And(h.K[g.m] == k, h.T[g.m] == b)))]
    if data is not None: o.append(('data of the edges by number', forall(i_, Implies(And(0 <= i_, i_ < h.m), h.DT[i_] == If(i_ == If(has, g.val[x][k], g.m), data, g.DT[i_])), [h.DT[i_]])))
    return o


def m_add(c):
    """contract of addEdge (proved by its own targets)"""
    e, st, a = c.e, c.st, c.args
    m = re.match(r'GraphDetail::GraphType<(.*), (true|false)>::addEdge\(long, long', c.dem)
    if not m or len(a) != 5: return NotImplemented
    dir, E, p = m.group(2) == 'true', m.group(1), a[1]
    g = GS(e, st, p, E, dir)
    x, y = e.S(st, a[2]), e.S(st, a[3])
    e.oblige(st, 'addEdge precondition: vertices of the graph', And(g.node(x), g.node(y)), 'pre')
    e.oblige(st, 'addEdge precondition: no self loop', x != y, 'pre')
    e.oblige(st, 'addEdge precondition: size', g.m < 1 << 58, 'pre')
    for n, f in g.inv(): e.oblige(st, 'addEdge precondition: ' + n, f, 'pre')
    d = data_at(e, st, a[4], g.emt)
    nm = e.fint('edges')
    e.wr_cont(st, p, ADJT, (g.n,) + tuple(e.fresh('adj%d' % k, t.sort()) for k, t in enumerate(g.ac[1:])))
    e.wr_cont(st, e.padd_const(p, OE), g.emt, (nm,) + tuple(e.fresh('edge%d' % k, t.sort()) for k, t in enumerate(g.ec[1:])))
    h = GS(e, st, p, E, dir)
    for n, f in h.inv() + added(g, h, x, y, d): st.assume(f)
    e.cont_facts(st, ADJT, h.ac), e.cont_facts(st, g.emt, h.ec)
    e.store(st, a[0], a[2], I64), e.store(st, e.padd_const(a[0], 8), a[3], I64)
    e.store(st, e.padd_const(a[0], 16), EP(e.padd_const(p, OE), h.at(x, y), 16, g.emt), ('ptr',))
    e.contracts_used.add('GraphType::addEdge')


c_add = (r'GraphType<.*>::addEdge\(long, long', m_add)


def m_distinct(c):
    """contract of Random::distinct(count, lower, upper) (C12)"""
    e, st = c.e, c.st
    k, lo, up = [e.S(st, t) for t in c.args[1:4]]
    e.oblige(st, 'distinct precondition: enough values', And(k >= 0, lo + k <= up), 'pre')
    arr = e.fresh('drawn', z3.ArraySort(IntSort(), IntSort()))
    e.wr_cont(st, c.args[0], e.types.mt(VECI), (k, arr), {0, 1})
    st.assume(forall(i_, Implies(And(0 <= i_, i_ < k), And(lo <= arr[i_], arr[i_] < up)), [arr[i_]]))
    st.assume(forall([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < k), arr[i_] != arr[j_]), [[arr[i_], arr[j_]]]))
    st.g = dict(st.g, drawn=(k, lo, up, arr))
    e.contracts_used.add('Random::distinct')


def m_shuffle(c):
    """contract of Random::shuffle(first, last) on a deque of edges (C13): a permutation of the elements"""
    e, st = c.e, c.st
    f, l = [e.load(st, p, ('ptr',)) for p in c.args[:2]]
    if not (isinstance(f, EP) and isinstance(l, EP) and f.par == l.par): return NotImplemented
    comps = e.rd_cont(st, f.par, f.mt)
    e.oblige(st, 'shuffle precondition: all edges', And(f.idx == 0, l.idx == comps[0]), 'pre')
    new, p, q = MD.permuted(e, st, comps, IntVal(0), comps[0], 'shuffled')
    e.wr_cont(st, f.par, f.mt, new)
    st.g = dict(st.g, shuffled=st.g.get('shuffled', ()) + ((p, q),))
    e.contracts_used.add('Random::shuffle')


def m_bit(c):
    """contract of Random::bit (C10): an arbitrary bit"""
    c.e.contracts_used.add('Random::bit')
    return c.e.fresh('bit', z3.BoolSort())


def m_isperm(c):
    """contract of isPerm(first, last, offset) (C24)"""
    e, st, a = c.e, c.st, c.args
    if len(a) != 4 or not (isinstance(a[1], EP) and isinstance(a[2], EP) and a[1].par == a[2].par): return NotImplemented
    comps = e.rd_cont(st, a[1].par, a[1].mt)
    lo = e.S(st, a[3])
    e.oblige(st, 'isPerm precondition: whole sequence', And(a[1].idx == 0, a[2].idx == comps[0]), 'pre')
    n, arr = comps[:2]
    r = e.fresh('isPerm', z3.BoolSort())
    inv = Function('place!%d' % e.nfresh, IntSort(), IntSort())
    e.nfresh += 1
    st.assume(Implies(r, And(forall(i_, Implies(And(0 <= i_, i_ < n), And(lo <= arr[i_], arr[i_] < lo + n, inv(arr[i_]) == i_)), [arr[i_]]),
                             forall(i_, Implies(And(lo <= i_, i_ < lo + n), And(0 <= inv(i_), inv(i_) < n, arr[inv(i_)] == i_)), [inv(i_)]))))
    st.g = dict(st.g, isperm=r)
    e.store(st, a[0], IV(If(r, IntVal(1), IntVal(0)), 8, 'U'), ('int', 8))
    h = e.fresh('reason', z3.BoolSort())
    e.store(st, e.padd_const(a[0], 16), IV(If(h, IntVal(1), IntVal(0)), 8, 'U'), ('int', 8))
    e.store(st, e.padd_const(a[0], 8), IV(e.fint('element'), 64, 'S'), I64)
    e.contracts_used.add('isPerm')
