from spec import *
from rnd import *
DRIVER = 'c17.cpp'
FINDER = 'c17.cpp'


def targets():
    T = []
    i, j = Ints('i j')

    # ---- string
    def al(x, c):
        a = x.env.get('a')
        return (a.at(c), a.n) if a is not None else (97 + c, IntVal(26))

    def inv(L):
        r, k, x = L['res'], L['cur'], L.e.x
        q = [('size', And(r.n == x['n'], 0 <= k, k <= r.n)), ('filled', forall(i, Implies(And(0 <= i, i < k), And(0 <= L['src'][i], L['src'][i] < al(x, 0)[1], r.at(i) == al(x, L['src'][i])[0])), [r.at(i)]))]
        d = L.st.g.get('draws', ())
        if getattr(L, 'head', None) is not None: q.append(('every character is one uniform choice', And(d[0][0] == 0, d[0][1] == al(x, 0)[1]) if len(d) == 1 else BoolVal(False)))
        return q

    def src(H, B):
        d = B.st.g.get('draws', ())
        return Store(H['src'], H['cur'], d[0][2]) if len(d) == 1 else H['src']
    lp = LoopSpec(r'^Random::string\b', 0, {'res': ('vec', 'res', 'result', 's'), 'cur': ('cur', '__begin2', '__begin1', 'it', 'i')}, inv, name='fill', variant=lambda L: L['res'].n - L['cur'], ghosts={'src': (lambda L: z3.K(IntSort(), IntVal(0)), src)})

    def post(x, o):
        ok = And(x['n'] >= 0, x['n'] <= 0xFFFFFFFF, al(x, 0)[1] > 0)
        if o.kind == 'throw': return [('only impossible requests are rejected', And(Not(ok), BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        v = o.vec('res')
        return [('request possible', ok), ('length', v.n == x['n']), ('all characters from the alphabet', forall(i, Implies(And(0 <= i, i < v.n), Exists(j, And(0 <= j, j < al(x, 0)[1], v.at(i) == al(x, j)[0])))))]

    def s2(x):
        x.out('res', STRING)
        x.s64('n')
        x.sv('a')

    def s1(x):
        x.out('res', STRING)
        x.s64('n')
    T.append(Target('Random::string(n, alphabet)', 'd_string', s2, post, loops=[lp], models=RND, expects=('ret', 'throw'), under=['Random::string']))
    T.append(Target('Random::string(n)', 'd_string1', s1, post, loops=[lp], models=RND, expects=('ret', 'throw'), under=['Random::string']))

    # ---- bracketSequence
    def sb(x):
        x.out('res', STRING)
        x.s64('n'), x.s8('op'), x.s8('cl')
        x.assume(x['op'] != x['cl'])

    def invb(L):
        r, k, d, b, x = L['res'], L['i'], L['diff'], L['bal'], L.e.x
        n = x['n']
        q = [('bounds', And(0 <= k, k <= 2 * n, r.n == 2 * n, n <= 0x7FFFFFFF)), ('balance bounds', And(0 <= d, d <= k, d <= 2 * n - k, (k + d) % 2 == 0)),
             ('balance of the prefixes', And(b[0] == 0, b[k] == d, forall(i, Implies(And(0 <= i, i < k), And(b[i + 1] == b[i] + If(r.at(i) == x['op'], 1, -1), b[i] >= 0)), [r.at(i)]))),
             ('only brackets', forall(i, Implies(And(0 <= i, i < 2 * n), Or(r.at(i) == x['op'], And(i < k, r.at(i) == x['cl']))), [r.at(i)]))]
        dr = L.st.g.get('draws', ())
        if getattr(L, 'head', None) is not None:
            H = L.head
            K, D = H['i'], H['diff']
            q.append(('opened with the probability of the completions', And(dr[0][1] == (2 * n - K) * (D + 1), dr[0][0] == 0, (r.at(K) == x['op']) == (dr[0][2] < (n - (K + D) / 2) * (D + 2))) if len(dr) == 1 else BoolVal(False)))
        return q

    def lemb(L):
        n, k, d = L.e.x['n'], L['i'], L['diff']
        a, b = 2 * n - k, d + 1
        N = 0x7FFFFFFF
        # Lean: amgm; monotone bounds of products of small numbers
        return [Implies(And(a >= 0, b >= 0, a <= 2 * N, b <= N + 1), And(a * b >= 0, a * b <= (2 * N) * (N + 1))), Implies(And(a >= 1, b >= 1), a * b >= 1), Implies(And(n - (k + d) / 2 >= 0, d >= 0, n <= N, d <= 2 * N), And((n - (k + d) / 2) * (d + 2) >= 0, (n - (k + d) / 2) * (d + 2) <= N * (2 * N + 2))), Implies(d == 0, a * b == a),
                Implies(d == a, And(n - (k + d) / 2 == 0, (n - (k + d) / 2) * (d + 2) == 0)), Implies(d == 0, (n - (k + d) / 2) * (d + 2) == (n - k / 2) * 2)]
    lb = LoopSpec(r'^Random::bracketSequence\b', 0, {'res': ('vec', 'res', 'result', 's'), 'i': ('s64', 'i', 'k', 'pos'), 'diff': ('s64', 'diff', 'depth')}, invb, lemb, name='brackets', variant=lambda L: 2 * L.e.x['n'] - L['i'],
                  ghosts={'bal': (lambda L: z3.K(IntSort(), IntVal(0)), lambda H, B: Store(H['bal'], H['i'] + 1, B['diff']))})

    def postb(x, o):
        n = x['n']
        ok = And(n >= 0, n <= 0x7FFFFFFF)
        if o.kind == 'throw': return [('only impossible requests are rejected', And(Not(ok), BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        v = o.vec('res')
        b = o.st.g.get('ghost_bal')
        if b is None: return [('loop entered', BoolVal(False))]
        return [('request possible', ok), ('length 2n', v.n == 2 * n), ('only brackets', forall(i, Implies(And(0 <= i, i < v.n), Or(v.at(i) == x['op'], v.at(i) == x['cl'])))),
                ('balanced: no prefix closes more than it opened, all closed at the end', And(b[0] == 0, b[2 * n] == 0, forall(i, Implies(And(0 <= i, i < v.n), And(b[i] >= 0, b[i + 1] == b[i] + If(v.at(i) == x['op'], 1, -1))))))]
    T.append(Target('Random::bracketSequence', 'd_bracket', sb, postb, loops=[lb], models=RND, expects=('ret', 'throw'), under=['Random::bracketSequence']))

    # ---- select
    def psel(ref):
        def f(x, o):
            v = x['v']
            if o.kind == 'throw': return [('only empty containers are rejected', And(v.n == 0, BoolVal(o.val == 'std::invalid_argument')))]
            if o.kind != 'ret': return None
            d = o.st.g.get('draws', ())
            if len(d) != 1: return [('exactly one choice', BoolVal(False))]
            if ref: sel = And(BoolVal(isinstance(o.val, EP) and o.val.par == x.ptrs['v'][0]), o.val.idx == d[0][2])
            else: sel = o.s() == v.at(d[0][2])
            return [('uniform over all positions', And(d[0][0] == 0, d[0][1] == v.n)), ('the chosen element', sel), ('position exists', And(0 <= d[0][2], d[0][2] < v.n))]
        return f
    T.append(Target('Random::select(const container)', 'd_select', lambda x: x.vec('v'), psel(False), models=RND, expects=('ret', 'throw'), under=['Random::select(container)']))
    T.append(Target('Random::select(container)', 'd_selectRef', lambda x: x.vec('v'), psel(True), models=RND, expects=('ret', 'throw'), under=['Random::select(container)']))
    PCF = Function('popcount64', IntSort(), IntSort())
    T.append(Target('Random::select(pair)', 'd_selectPair', lambda x: (x.s64('a'), x.s64('b')), lambda x, o: [('first exactly if the coin says so', o.s() == If(PCF(last_draw(x, o.st)) % 2 == 1, x['a'], x['b']))] if o.kind == 'ret' else None, models=RND, under=['Random::select(pair)']))
    return T


def extra_checks(repo, work, tier): yield from lean_checks('Seq.lean', 'Ballot.lean')


ASSUMPTIONS = ['precondition of bracketSequence: the two characters differ']
