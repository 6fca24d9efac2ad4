from spec import *
from rnd import *
from seqm import *
DRIVER = 'c13.cpp'
FINDER = 'c13.cpp'


def targets():
    T = []
    i, j, k = Ints('i j k')

    def cur(L):
        p, mt = L.e.x.ptrs['v']
        return View(L.e, L.st, p, mt, L.e.rd_cont(L.st, p, mt))

    def inv(L):
        v, v0, p, q, n = cur(L), L.e.x['v'], L['p'], L['q'], L.e.x['v'].n
        inr = lambda z: And(0 <= z, z < n)
        r = [('size', v.n == n), ('position', And(L['i'] <= n - 1, L['i'] >= If(n > 0, 0, -1))),
             ('elements come from their sources', forall(k, Implies(inr(k), v.at(k) == v0.at(p[k])), [v.at(k)])),
             ('sources in range', forall(k, Implies(inr(k), And(inr(p[k]), q[p[k]] == k)), [p[k]])),
             ('every source used', forall(k, Implies(inr(k), And(inr(q[k]), p[q[k]] == k)), [q[k]])),
             ('rounds done', L['i'] + L['cnt'] == n - 1)]
        d = L.st.g.get('draws', ())
        if getattr(L, 'head', None) is not None:
            r.append(('the position is chosen uniformly among 0..i', And(d[0][0] == 0, d[0][1] == L.head['i'] + 1) if len(d) == 1 else BoolVal(False)))
        return r

    def ident(L): return Select(L.e.ghost['id'], 0) if False else L.e.ghost['id']

    def step(key):
        def f(H, B):
            d = B.st.g.get('draws', ())
            if len(d) != 1: return H[key]
            r, h = d[0][2], H['i']
            p, q = H['p'], H['q']
            if key == 'p': return Store(Store(p, h, p[r]), r, p[h])
            return Store(Store(q, p[h], r), p[r], h)
        return f
    lp = LoopSpec(r'^void Random::shuffle<__gnu_cxx', 0, {'i': ('s64', 'i', 'k', 'j')}, inv, name='swap', variant=lambda L: L['i'],
                  ghosts={'p': (ident, step('p')), 'q': (ident, step('q')), 'cnt': (lambda L: IntVal(0), lambda H, B: H['cnt'] + 1)})

    def setup(cpp):
        def f(x):
            x.vec('v', cpp)
            a = z3.Const('identity', z3.ArraySort(IntSort(), IntSort()))
            x.assume(forall(k, a[k] == k, [a[k]]))
            x.e.ghost['id'] = a
        return f

    def post(x, o):
        if o.kind != 'ret': return None
        v, v0 = o.vec('v'), x['v']
        g = o.st.g
        if 'ghost_p' not in g: return [('the loop was entered', BoolVal(False))]
        p, q = g['ghost_p'], g['ghost_q']
        n = v0.n
        inr = lambda z: And(0 <= z, z < n)
        return [('same length', v.n == n), ('a permutation of the input', And(forall(k, Implies(inr(k), And(v.at(k) == v0.at(p[k]), inr(p[k]), q[p[k]] == k))), forall(k, Implies(inr(k), And(inr(q[k]), p[q[k]] == k))))),
                ('a choice for every position but the first', g['ghost_cnt'] == If(n > 0, n - 1, 0))]
    T.append(Target('Random::shuffle(vector)', 'd_shuffle', setup(VECI), post, loops=[lp], models=RND, under=['Random::shuffle(container)']))
    T.append(Target('Random::shuffle(string)', 'd_shuffleS', setup(STRING), post, loops=[lp], models=RND, under=['Random::shuffle(container)']))

    def set2(x):
        for n in 'ab':
            x.raw(n, size=8, llty=('int', 64))
            p, _ = x.ptrs[n]
            t = Int('old_' + n)
            x.e.bounded(x.st, t, I64MIN, I64MAX)
            x.e.store(x.st, p, IV(t, 64, 'S'), ('int', 64))
            x.env[n] = t

    def post2(x, o):
        if o.kind != 'ret': return None
        a, b = [o.e.S(o.st, o.mem(n, 0, ('int', 64))) for n in 'ab']
        pc = Function('popcount64', IntSort(), IntSort())
        odd = pc(last_draw(x, o.st)) % 2 == 1
        return [('swapped exactly if the coin says so', And(a == If(odd, x['b'], x['a']), b == If(odd, x['a'], x['b'])))]
    T.append(Target('Random::shuffle(pair)', 'd_shuffle2', set2, post2, models=RND, under=['Random::shuffle(pair)']))

    def post3(x, o):
        v, v0 = o.vec('v'), x['v']
        if o.kind == 'throw': return [('only empty ranges are rejected', And(v0.n == 0, BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        r, n = o.s(), v0.n
        d = o.st.g.get('draws', ())
        return [('rotation chosen uniformly', And(d[0][0] == 0, d[0][1] == n, d[0][2] == r) if len(d) == 1 else BoolVal(False)), ('rotation in range', And(0 <= r, r < n, v.n == n)),
                ('rotated to the left', forall(i, Implies(And(0 <= i, i < n), v.at(i) == v0.at(If(i + r < n, i + r, i + r - n)))))]
    T.append(Target('Random::rotate', 'd_rotate', lambda x: x.vec('v'), post3, models=RND, expects=('ret', 'throw'), under=['Random::rotate']))

    def setp(off):
        def f(x):
            x.out('res')
            c = x.s64('c')
            o = x.s64('o') if off else IntVal(0)
            x.assume(And(c < 1 << 59, o + c <= I64MAX))
            x.e.ghost.update(o=o)
        return f

    def postp(x, o):
        c, of = x['c'], x.e.ghost['o']
        if o.kind == 'throw': return [('only a negative count is rejected', And(c < 0, BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        v = o.vec('res')
        s = o.st.g.get('shuffled', ())
        if len(s) != 1: return [('exactly one shuffle', BoolVal(False))]
        p, q = s[0]
        return [('count elements', v.n == c), ('in range', forall(i, Implies(And(0 <= i, i < c), And(of <= v.at(i), v.at(i) < of + c)))),
                ('pairwise distinct', forall([i, j], Implies(And(0 <= i, i < j, j < c), v.at(i) != v.at(j)))),
                ('every value occurs', forall(k, Implies(And(0 <= k, k < c), And(0 <= q(k), q(k) < c, v.at(q(k)) == of + k))))]
    T.append(Target('Random::perm(count,offset)', 'd_perm', setp(True), postp, models=RND + SEQ + SHUF, expects=('ret', 'throw'), under=['Random::perm(count,offset)']))
    T.append(Target('Random::perm(count)', 'd_perm0', setp(False), postp, models=RND + SEQ + SHUF, expects=('ret', 'throw'), under=['Random::perm(count)']))
    return T
