from spec import *
import models
DRIVER = 'c25.cpp'
FINDER = 'c25.cpp'
PRED = Function('pred', IntSort(), IntSort(), BoolSort())


def has_of(o): return o.e.U(o.st, o.mem('has', 0, ('int', 8))) == 1


def val_of(o): return o.e.S(o.st, o.mem('val', 0, ('int', 64)))


def targets():
    T = []
    i, j = Int('i'), Int('j')

    def pred_model(c):
        c.e.contracts_used.add('the predicate argument (any function of its two arguments)')
        return PRED(c.e.S(c.st, c.args[0]), c.e.S(c.st, c.args[1]))

    def setup(x):
        x.vec('v')
        x.raw('has', size=1, llty=('int', 8))
        x.raw('val', size=8, llty=('int', 64))

    def mk(name, entry, viol, truewhenviol=False, lin=r'anyAdjacent<'):
        """viol(a, b): the neighbouring pair that decides"""
        def inv(L):
            v, f = L.e.x['v'], L['first']
            return [('bounds', And(0 <= f, f < v.n, L['i'] == f + 1)), ('no deciding pair before', forall(i, Implies(And(0 <= i, i < f), Not(viol(v.at(i), v.at(i + 1)))), [v.at(i)]))]
        lp = LoopSpec(lin, 0, {'first': ('cur', 'first', 'it'), 'i': ('s64', 'i', 'j', 'pos')}, inv, name='scan', variant=lambda L: L.e.x['v'].n - L['first'])

        def post(x, o):
            if o.kind != 'ret': return None
            v, r = x['v'], val_of(o)
            none = forall(i, Implies(And(0 <= i, i + 1 < v.n), Not(viol(v.at(i), v.at(i + 1)))))
            res = o.b() if truewhenviol else Not(o.b())
            return [('decided exactly by the neighbouring pairs', If(res, Exists(i, And(0 <= i, i + 1 < v.n, viol(v.at(i), v.at(i + 1)))), none)),
                    ('position reported exactly when there is a pair', has_of(o) == res),
                    ('the reported position is the second index of the first such pair', Implies(res, And(1 <= r, r < v.n, viol(v.at(r - 1), v.at(r)), forall(i, Implies(And(0 <= i, i < r - 1), Not(viol(v.at(i), v.at(i + 1))))))))]
        T.append(Target(name, entry, setup, post, loops=[lp], models=[(r'^x_pred$', pred_model)], under=[name]))
    mk('anyAdjacent', 'd_any', lambda a, b: PRED(a, b), True)
    mk('noneAdjacent', 'd_none', lambda a, b: PRED(a, b))
    mk('allAdjacent', 'd_all', lambda a, b: Not(PRED(a, b)))
    mk('areIncreasing', 'd_inc', lambda a, b: Not(a < b))
    mk('areNonDecreasing', 'd_ndec', lambda a, b: Not(a <= b))
    mk('areDecreasing', 'd_dec', lambda a, b: Not(a > b))
    mk('areNonIncreasing', 'd_ninc', lambda a, b: Not(a >= b))

    # areDistinct: a sorted copy has equal neighbours iff two elements are equal
    def sort_model(c):
        r = models.std_sort(c)
        c.e.ghost['sorted'] = c.e.rd_cont(c.st, c.args[0].par, c.args[0].mt)
        return r

    def dinv(L):
        s, f = L.e.ghost['sorted'], L['first']
        return [('bounds', And(0 <= f, f < s[0], L['i'] == f + 1)), ('neighbours before are different', forall(i, Implies(And(0 <= i, i < f), Not(s[1][i] == s[1][i + 1])), [s[1][i]]))]
    dl = LoopSpec(r'anyAdjacent<', 0, {'first': ('cur', 'first', 'it'), 'i': ('s64', 'i', 'j', 'pos')}, dinv, name='scan', variant=lambda L: L.e.ghost['sorted'][0] - L['first'])

    def dpost(x, o):
        if o.kind != 'ret': return None
        v, r = x['v'], val_of(o)
        pq = o.st.g.get('lastperm')
        hint = []
        dist = forall([i, j], Implies(And(0 <= i, i < j, j < v.n), v.at(i) != v.at(j)))
        if pq:
            p, q = pq
            s = x.e.ghost['sorted'][1]
            # the two conclusions through the permutation (p: sorted position -> source position, q: inverse)
            k = Int('ksk')
            hint = [('sorted copy strictly increases', Implies(o.b(), forall([i, j], Implies(And(0 <= i, i < j, j < v.n), s[i] < s[j]))))]
        return [('true only for pairwise distinct elements', Implies(o.b(), dist)), ('an element is reported exactly when false', has_of(o) == Not(o.b())),
                ('a reported element occurs twice', Implies(Not(o.b()), Exists([i, j], And(0 <= i, i < j, j < v.n, v.at(i) == r, v.at(j) == r))))]
    T.append(Target('areDistinct', 'd_dist', setup, dpost, loops=[dl], models=[(r'^void std::sort<', sort_model)], under=['areDistinct']))
    return T
