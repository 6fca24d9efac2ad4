"""state of the graph classes of graph_val.h, addressed by the offsets the compiler assigns to the named members"""
from spec import *
from ufm import *
SETV = 'std::vector<std::set<long, std::less<long>, std::allocator<long> >, std::allocator<std::set<long, std::less<long>, std::allocator<long> > > >'
v, w = Ints('v w')


def offs(e, name):
    ty, init, ro = e.mod.glob('o_' + name)
    val = e.operand(sym.State(), {}, ty, init)
    return val.c


class G:
    """view of the graph object at object id oid in state st"""

    def __init__(s, e, st, oid):
        s.e, s.st, s.oid = e, st, oid

    def cell(s, m, d=0):
        x = s.e.load(s.st, CP(s.oid, offs(s.e, m) + d), ('int', 64))
        return s.e.S(s.st, x) if hasattr(x, 'tag') else Int('undefined')     # an empty optional has no value

    def i(s, m): return s.cell(m)
    def bo(s, m, d=0): return s.e.scalar_to(s.st, ('b',), s.e.load(s.st, CP(s.oid, offs(s.e, m) + d), ('int', 8)))

    def vec(s, m, cpp=VECI):
        mt = s.e.types.mt(cpp)
        p = CP(s.oid, offs(s.e, m))
        return View(s.e, s.st, p, mt, s.e.rd_cont(s.st, p, mt))

    def sets(s, m):
        """(n, membership, size): vector of sets"""
        mt = s.e.types.mt(SETV)
        c = s.e.rd_cont(s.st, CP(s.oid, offs(s.e, m)), mt)
        return c[0], (lambda a, b: z3.Select(z3.Select(c[1], a), b)), (lambda a: z3.Select(c[2], a))

    def adj(s): return s.sets('adj')
    def uf(s, m): return uf_get(s.st, CP(s.oid, offs(s.e, m)))
    def has_loop(s): return s.bo('selfloop', offs(s.e, 'loophas'))
    def loop(s): return s.i('selfloop')
    def has_multi(s): return s.bo('multiedge', offs(s.e, 'multihas'))

    def multi(s):
        return tuple(s.cell('multiedge', d) for d in (0, 8))


def graph_arg(x, ints, bools, vecs, optional=True, n='g'):
    e, st = x.e, x.st
    oid = e.new_obj(st, n, None, 600, lazy=True)

    def put_i(m, off=None):
        t = z3.Int('%s.%s%s' % (n, m, '' if off is None else off))
        e.typed(st, t, 64, 'S')
        e.store(st, CP(oid, offs(e, m) + (off or 0)), IV(t, 64, 'S'), ('int', 64))
    for m in ints: put_i(m)
    for m in bools: e.store(st, CP(oid, offs(e, m)), e.b2i(z3.Bool('%s.%s' % (n, m)), 8), ('int', 8))
    if optional:
        put_i('selfloop')
        put_i('multiedge'), put_i('multiedge', 8)
        e.store(st, CP(oid, offs(e, 'selfloop') + offs(e, 'loophas')), e.b2i(z3.Bool(n + '.hasloop'), 8), ('int', 8))
        e.store(st, CP(oid, offs(e, 'multiedge') + offs(e, 'multihas')), e.b2i(z3.Bool(n + '.hasmulti'), 8), ('int', 8))
    for m, cpp in vecs.items():
        mt = e.types.mt(cpp)
        comps = tuple(z3.Const('%s.%s.%d' % (n, m, k), s) for k, s in enumerate(e.comps(mt)))
        st.wobj(oid).ghost[offs(e, m)] = (mt, comps)
        e.cont_facts(st, mt, comps)
    x.args.append(CP(oid, 0))
    x.ptrs[n] = (CP(oid, 0), None)
    x.env['oid'] = oid
    return G(e, st, oid)


def ginv(g):
    """what the graph knows about the edges added so far; D is the adjacency by index (external names minus offset)"""
    N, A, sz = g.adj()
    off = g.i('offset')
    D = lambda a, b: A(a, b + off)
    out = [('names', And(0 <= N, N < 1 << 58, off >= -(1 << 62), off <= (1 << 62))), ('adjacent names are vertices', forall([v, w], Implies(And(0 <= v, v < N, A(v, w)), And(off <= w, w < off + N)), [A(v, w)])),
           ('number of edges', And(0 <= g.i('edges'), g.i('edges') <= T_(g))), ('degrees', forall(v, Implies(And(0 <= v, v < N), And(0 <= sz(v), sz(v) <= T_(g))), [sz(v)]))]
    out += [('self loop seen', If(g.has_loop(), And(off <= g.loop(), g.loop() < off + N, A(g.loop() - off, g.loop())), forall(v, Implies(And(0 <= v, v < N), Not(A(v, v + off))))))]
    mf, ms = g.multi()
    out += [('multi edge seen', Implies(g.has_multi(), And(off <= mf, mf < off + N, off <= ms, ms < off + N, A(mf - off, ms))))]
    return out


def T_(g): return 2 * Int("ops")     # number of edges added so far (ghost), twice as each may enter two sets
