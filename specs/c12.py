from spec import *
from rnd import *
DRIVER = 'c12.cpp'
FINDER = 'c12.cpp'
BUDGET = 40


def distinct_post(x, o, c, lo, up):
    i, j = Int('i'), Int('j')
    ok = And(c >= 0, lo + c <= up)
    if o.kind == 'throw': return [('only a negative count or a range that is too small is rejected', And(Not(ok), BoolVal(o.val == 'std::invalid_argument')))]
    if o.kind != 'ret': return None
    v = o.vec('res')
    return [('request valid', ok), ('exactly count elements', v.n == c),
            ('all in [lower, upper)', forall(i, Implies(And(0 <= i, i < v.n), And(lo <= v.at(i), v.at(i) < up)))),
            ('pairwise distinct', forall([i, j], Implies(And(0 <= i, i < j, j < v.n), v.at(i) != v.at(j))))]


def targets():
    T = []
    i, j, y, z = Ints('i j y z')

    def inv(L):
        r, u, k = L['res'], L['used'], L['i']
        c, lo, up = [L.e.ghost[n] for n in ('c', 'lo', 'up')]
        cur = lambda y: If(u.has(y), u.val(y), y)
        live = lambda y: And(lo <= y, y < up - k)
        q = [('bounds', And(0 <= k, k <= c, lo + c <= up, r.n == k)),
             ('results in range', forall(i, Implies(And(0 <= i, i < k), And(lo <= r.at(i), r.at(i) < up)), [r.at(i)])),
             ('results distinct', forall([i, j], Implies(And(0 <= i, i < j, j < k), r.at(i) != r.at(j)), [[r.at(i), r.at(j)]])),
             ('remaining values in range', forall(y, Implies(live(y), And(lo <= cur(y), cur(y) < up)), [u.has(y)])),
             ('remaining values distinct', forall([y, z], Implies(And(live(y), live(z), y != z), cur(y) != cur(z)), [[u.has(y), u.has(z)]])),
             ('remaining values unused', forall([i, y], Implies(And(0 <= i, i < k, live(y)), r.at(i) != cur(y)), [[r.at(i), u.has(y)]]))]
        d = L.st.g.get('draws', ())
        if getattr(L, 'head', None) is not None:
            k0 = L.head['i']
            q.append(('one uniform choice among exactly the remaining values', And(BoolVal(len(d) == 1), And(d[0][0] == lo, d[0][1] == up - k0)) if len(d) == 1 else BoolVal(False)))
        return q
    lp = LoopSpec(r'^Random::distinct\(', 0, {'res': ('vec', 'res', 'result', 'out'), 'used': ('cont', 'used'), 'i': ('s64', 'i', 'k', 'j')}, inv, name='draw', variant=lambda L: L.e.ghost['c'] - L['i'])

    def setup(x, three):
        x.out('res')
        c = x.s64('c')
        lo = x.s64('lo') if three else IntVal(0)
        up = x.s64('up')
        x.assume(c < 1 << 59)
        x.assume(And(lo + c <= I64MAX, lo + c >= I64MIN))   # precondition: lower + count does not overflow
        x.assume(up > I64MIN)
        x.e.ghost.update(c=c, lo=lo, up=up)
    g = lambda x: [x.e.ghost[n] for n in ('c', 'lo', 'up')]
    T.append(Target('Random::distinct(count,lower,upper)', 'd_distinct', lambda x: setup(x, True), lambda x, o: distinct_post(x, o, *g(x)), loops=[lp], models=RND, expects=('ret', 'throw'), under=['Random::distinct(count,lower,upper)']))
    T.append(Target('Random::distinct(count,upper)', 'd_distinct1', lambda x: setup(x, False), lambda x, o: distinct_post(x, o, *g(x)), loops=[lp], models=RND, expects=('ret', 'throw'), under=['Random::distinct(count,upper)']))
    return T


ASSUMPTIONS = ['precondition: lower + count does not overflow', 'Random::integer is used through its contract (C10)']
