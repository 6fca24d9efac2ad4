from spec import *
from rnd import *
from seqm import *
DRIVER = 'c15.cpp'
FINDER = 'c15.cpp'


def targets():
    T = []
    i, j = Ints('i j')

    def setup(three, dist):
        def f(x):
            x.out('res')
            c = x.s64('c')
            lo = x.s64('lo') if three else IntVal(0)
            up = x.s64('up')
            x.assume(c < 1 << 59)
            if dist: x.assume(And(lo + c <= I64MAX, lo + c >= I64MIN))
            else: x.assume(c >= 0)
            x.e.ghost.update(c=c, lo=lo, up=up)
        return f

    def inv(L):
        r, k = L['res'], L['cur']
        lo, up = L.e.ghost['lo'], L.e.ghost['up']
        q = [('size', And(r.n == L.e.ghost['c'], 0 <= k, k <= r.n)), ('filled in range', forall(i, Implies(And(0 <= i, i < k), And(lo <= r.at(i), r.at(i) < up)), [r.at(i)]))]
        d = L.st.g.get('draws', ())
        if getattr(L, 'head', None) is not None:
            q.append(('every element is one uniform choice', And(d[0][0] == lo, d[0][1] == up, r.at(L.head['cur']) == d[0][2]) if len(d) == 1 else BoolVal(False)))
        return q
    lp = LoopSpec(r'^Random::multiple\(', 0, {'res': ('vec', 'res', 'result', 'out'), 'cur': ('cur', '__begin2', '__begin1', 'it', 'i')}, inv, name='fill', variant=lambda L: L['res'].n - L['cur'])

    def mk(nm, en, three, dist, rel):
        def post(x, o):
            c, lo, up = [x.e.ghost[n] for n in ('c', 'lo', 'up')]
            bad = Or(c < 0, lo + c > up) if dist else And(c > 0, lo >= up)
            if o.kind == 'throw': return [('only impossible requests are rejected', And(bad, BoolVal(o.val == 'std::invalid_argument')))]
            if o.kind != 'ret': return None
            v = o.vec('res')
            r = [('request possible', Not(bad)), ('exactly count elements', v.n == c), ('all in [lower, upper)', forall(i, Implies(And(0 <= i, i < v.n), And(lo <= v.at(i), v.at(i) < up))))]
            if rel: r.append(('ordered as requested', forall([i, j], Implies(And(0 <= i, i < j, j < v.n), rel(v.at(i), v.at(j))))))
            return r
        T.append(Target('Random::' + nm, en, setup(three, dist), post, loops=[lp], models=RND + DIST, expects=('ret', 'throw'), under=['Random::' + nm]))
    for nm, dist, rel in (('multiple', False, None), ('increasing', True, lambda a, b: a < b), ('decreasing', True, lambda a, b: a > b), ('nonDecreasing', False, lambda a, b: a <= b), ('nonIncreasing', False, lambda a, b: a >= b)):
        mk(nm + '(count,lower,upper)', 'd_' + nm, True, dist, rel)
        mk(nm + '(count,upper)', 'd_%s1' % nm, False, dist, rel)
    return T
