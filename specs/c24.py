from spec import *
DRIVER = 'c24.cpp'
FINDER = 'c24.cpp'
SAME = Bool_ = None
VEC = {64: VECI, 32: 'std::vector<int, std::allocator<int> >', 'U': 'std::vector<unsigned long, std::allocator<unsigned long> >'}


def val_of(o, w):
    v = o.mem('val', 0, ('int', 32 if w == 32 else 64))
    return o.e.U(o.st, v) if w == 'U' else o.e.S(o.st, v)


def has_of(o): return o.e.U(o.st, o.mem('has', 0, ('int', 8))) == 1


def targets():
    T = []
    i, j, k = Int('i'), Int('j'), Int('k')

    def mk(name, entry, w, withoff):
        def setup(x):
            x.vec('v', VEC[w])
            if withoff: off = {64: x.s64, 32: x.s32, 'U': x.u64}[w]('off')
            else: off = IntVal(0)
            x.e.ghost['off'] = off
            x.raw('has', size=1, llty=('int', 8))
            x.raw('val', size=8, llty=('int', 32 if w == 32 else 64))

        def inv(L):
            v, off = L.e.x['v'], L.e.ghost['off']
            s, f, pos = L['seen'], L['first'], L['pos']
            return [('bounds', And(0 <= f, f <= v.n, s.n == v.n)),
                    ('elements so far are marked', forall(i, Implies(And(0 <= i, i < f), And(v.at(i) >= off, v.at(i) < off + v.n, s.at(v.at(i) - off))), [v.at(i)])),
                    ('marks have a position', forall(k, Implies(And(0 <= k, k < s.n, s.at(k)), And(0 <= pos(k), pos(k) < f, v.at(pos(k)) == off + k)), [s.at(k)])),
                    ('elements so far are distinct', forall([i, j], Implies(And(0 <= i, i < j, j < f), v.at(i) != v.at(j)), [[v.at(i), v.at(j)]]))]
        W = {'pos': (lambda L: z3.K(IntSort(), IntVal(0)), lambda H, B: Store(H['pos'], H.e.x['v'].at(H['first']) - H.e.ghost['off'], H['first']))}

        def inv_(L):
            class Q:
                e = L.e
                def __getitem__(s, k): return (lambda a: (lambda z: Select(a, z)))(L['pos']) if k == 'pos' else L[k]
            return inv(Q())
        lp = LoopSpec(r'^auto isPerm<|isPerm<', 0, {'seen': ('cont', 'seen'), 'first': ('cur', 'first', 'it', 'cur')}, inv_, name='mark', variant=lambda L: L.e.x['v'].n - L['first'], ghosts=W)

        def post(x, o):
            if o.kind != 'ret': return None
            v, off = x['v'], x.e.ghost['off']
            inrange = lambda t: And(t >= off, t < off + v.n)
            bad = And([Not(o.b())])
            r = val_of(o, w)
            return [('true only for permutations of offset..offset+n-1', Implies(o.b(), And(forall(i, Implies(And(0 <= i, i < v.n), inrange(v.at(i)))), forall([i, j], Implies(And(0 <= i, i < j, j < v.n), v.at(i) != v.at(j)))))),
                    ('reason exactly when false', has_of(o) == Not(o.b())),
                    ('when false the reported element is out of range or occurs twice', Implies(Not(o.b()), And(Exists(i, And(0 <= i, i < v.n, v.at(i) == r)), Or(Not(inrange(r)), Exists([i, j], And(0 <= i, i < j, j < v.n, v.at(i) == r, v.at(j) == r))))))]
        T.append(Target(name, entry, setup, post, loops=[lp], under=[name]))
    mk('isPerm(sequence, offset)', 'd_perm', 64, True)
    mk('isPerm(sequence)', 'd_perm0', 64, False)
    mk('isPerm(sequence of int, offset)', 'd_perm32', 32, True)
    mk('isPerm(sequence of unsigned, offset)', 'd_permU', 'U', True)

    # two sequences: SAME(x, y, n) = "the first n elements of x are a rearrangement of those of y"
    A = z3.ArraySort(IntSort(), IntSort())
    SAME = Function('rearrangement', A, A, IntSort(), BoolSort())

    def sort_model(c):
        import models
        e, st, f, l = c.e, c.st, c.args[0], c.args[1]
        old = e.rd_cont(st, f.par, f.mt)
        models.std_sort(c)
        new = e.rd_cont(st, f.par, f.mt)
        st.g = dict(st.g)
        st.g['sorts'] = st.g.get('sorts', ()) + ((old, new, f.idx, l.idx),)
        return None

    def setup2(x):
        x.vec('v'), x.vec('w')
        x.raw('has', size=1, llty=('int', 8))
        x.raw('val', size=8, llty=('int', 64))

    def inv2(L):
        a, b, n = L['a'], L['b'], L['i']
        return [('equal so far', And(0 <= n, n <= a.n, a.n == b.n, forall(i, Implies(And(0 <= i, i < n), a.at(i) == b.at(i)), [a.at(i)])))]
    lp2 = LoopSpec(r'isPerm<', 0, {'a': ('vec', 'a'), 'b': ('vec', 'b'), 'i': ('u64', 'i', 'j', 'k')}, inv2, name='compare', variant=lambda L: L['a'].n - L['i'])

    def post2(x, o):
        if o.kind != 'ret': return None
        v, w = x['v'], x['w']
        st, r = o.st, o.e.S(o.st, o.mem('val', 0, ('int', 64)))
        so = st.g.get('sorts', ())
        same = Function('same', A, A, IntSort(), BoolSort())
        facts = []
        if len(so) == 2:
            (o1, n1, f1, l1), (o2, n2, f2, l2) = so
            # Lean: sorted_perm_iff  (o1 ~ n1 sorted, o2 ~ n2 sorted, equal length)
            facts.append(Implies(And(f1 == 0, f2 == 0, l1 == o1[0], l2 == o2[0], l1 == l2), same(o1[1], o2[1], l1) == forall(i, Implies(And(0 <= i, i < l1), n1[1][i] == n2[1][i]))))
            # std::vector(first, last) copies
            facts.append(Implies(And(o1[0] == v.n, o2[0] == w.n, forall(i, Implies(And(0 <= i, i < v.n), o1[1][i] == v.at(i))), forall(i, Implies(And(0 <= i, i < w.n), o2[1][i] == w.at(i)))),
                                 same(v.arr(), w.arr(), v.n) == same(o1[1], o2[1], l1)))
        return [('true exactly for rearrangements', Implies(And(facts), o.b() == And(v.n == w.n, same(v.arr(), w.arr(), v.n)))),
                ('no reason when true', Implies(o.b(), Not(has_of(o)))),
                ('when false and of equal length a reason is given', Implies(And(Not(o.b()), v.n == w.n), has_of(o))),
                ('a reported element is one of the first sequence', Implies(has_of(o), Exists(i, And(0 <= i, i < v.n, v.at(i) == r))))]
    T.append(Target('isPerm(sequence, sequence)', 'd_perm2', setup2, post2, loops=[lp2], models=[(r'^void std::sort<', sort_model)], under=['isPerm(sequence, sequence)']))
    return T


def extra_checks(repo, work, tier): yield from lean_checks('Sort.lean')
