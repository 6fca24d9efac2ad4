from spec import *
from numth import *
DRIVER = 'c23.cpp'
FINDER = 'c23.cpp'
BUDGET = 30
PRIME = Function('prime', IntSort(), BoolSort())
LPF = Function('lpf', IntSort(), IntSort())        # least prime factor of an odd composite
COF = Function('lpfcof', IntSort(), IntSort())     # m / lpf(m)
SEQ = Function('mrseq', IntSort(), IntSort(), IntSort())   # a^(d*2^k) mod n   for the n, d at hand
SMALL = [p for p in range(2, 400) if all(p % q for q in range(2, p))]
WIT = [2, 325, 9375, 28178, 450775, 9780504, 1795265022]


def prime_facts(n):
    """definition of primality on small numbers and for numbers with a small factor"""
    f = [Implies(n <= 1, Not(PRIME(n)))]
    for k in range(2, 200): f.append(Implies(n == k, PRIME(n) if k in SMALL else Not(PRIME(n))))
    for p in range(2, 140): f.append(Implies(And(n > p, n % p == 0), Not(PRIME(n))))
    return f


def targets():
    T = []

    # ------------------------------------------------------------------ isPrime
    d0, j0 = Int('d0'), Int('j0')     # n - 1 = d0 * 2^j0 with d0 odd

    def seqmodel(c):
        """contract of details::powMod, on which the sequence a^(d*2^k) mod n starts"""
        e, st = c.e, c.st
        n0 = e.ghost['n']
        b, x, m = [e.U(st, v) for v in c.args]
        r = powmod_contract(c)
        t = e.U(st, r)
        st.assume(Implies(And(x == d0, m == n0), t == SEQ(b, 0)))
        # b^(d*2^k) mod n (Lean: seq_step, seq_one, seq_zero)
        st.g = dict(st.g)
        st.g['base'] = b
        return r

    def MR(a, n):
        """n is 0 mod a, or a strong probable prime to base a"""
        k = Int('kmr')
        return Or(a % n == 0, SEQ(a, 0) == 1, Exists([k], And(0 <= k, k < j0, SEQ(a, k) == n - 1)))

    def s_is(x):
        n = x.s64('n')
        x.e.ghost['n'] = n
        facts = prime_facts(n)
        x.assume(Implies(And(n > 1, n % 2 == 1), And(j0 >= 1, d0 >= 1, d0 % 2 == 1)))
        # trusted: the seven bases decide primality below 2^64 (Sinclair); and Fermat's little theorem for a base with prime factors < 100
        facts.append(Implies(And(n > 131, n % 2 == 1), PRIME(n) == And([MR(a, n) for a in WIT])))
        # Fermat's little theorem for bases smaller than n
        facts.append(Implies(And(n > 131, PRIME(n)), And([Implies(b < n, P(b, n - 1, n) == 1) for b in range(2, 400)])))
        x.e.ghost['facts'] = facts

    # the loop  while (d % 2 == 0) { d /= 2; j++; }:  n - 1 = d * 2^j, stated with the unique decomposition d0, j0
    TWO = Function('odd_part', IntSort(), IntSort())
    V2 = Function('v2', IntSort(), IntSort())

    def two(d): return [Implies(d > 0, And(If(d % 2 == 0, And(TWO(d) == TWO(d / 2), V2(d) == V2(d / 2) + 1), And(TWO(d) == d, V2(d) == 0)), V2(d) >= 0, V2(d) < 64))]

    def s_is2(x):
        s_is(x)
        n = x['n']
        x.assume(Implies(n > 1, And(TWO(n - 1) == d0, V2(n - 1) == j0)))
        for f in two(n - 1): x.assume(f)

    def inv2(L): return [('odd part', And(L['d'] >= 1, TWO(L['d']) == d0, L['j'] >= 0, V2(L['d']) + L['j'] == j0))]
    lp2 = LoopSpec(r'isPrime\(', 1, {'d': ('u64', 'd'), 'j': ('u64', 'j')}, inv2, lambda L: two(L['d']), variant=lambda L: L['d'], name='split')

    def seqlem(L):
        e = L.e
        n = e.ghost['n']
        a = L.st.g.get('base')
        k = L['i']
        kk = Int('kseq')
        f = []
        if a is not None:
            f += [SEQ(a, k) == (SEQ(a, k - 1) * SEQ(a, k - 1)) % n,      # Lean: seq_step
                  forall([kk], Implies(And(kk >= k, SEQ(a, k) <= 1), SEQ(a, kk) == SEQ(a, k)), [SEQ(a, kk)]),    # Lean: seq_const
                  forall([kk], Implies(And(kk >= k - 1, SEQ(a, k - 1) <= 1), SEQ(a, kk) == SEQ(a, k - 1)), [SEQ(a, kk)])]
        return f

    def inv3(L):
        n = L.e.ghost['n']
        a = L.st.g.get('base')
        k = Int('kinv')
        if a is None: return [('base', BoolVal(False))]
        return [('v is the (i-1)-st square', And(L['v'] == SEQ(a, L['i'] - 1), L['i'] >= 1, L['v'] < n, L['v'] >= 0)), ('i', L['i'] <= j0),
                ('no -1 so far', forall([k], Implies(And(0 <= k, k < L['i']), SEQ(a, k) != n - 1), [SEQ(a, k)])), ('first is not 1', SEQ(a, 0) != 1), ('n', And(n > 131, n % 2 == 1))]
    lp3 = LoopSpec(r'isPrime\(', 3, {'v': ('u64', 'v'), 'i': ('u64', 'i', 'k', 'r')}, inv3, seqlem, variant=lambda L: j0 - L['i'], name='square')

    # range-for over the trial primes: unrolled, keeping only what the rest needs
    def inv0(L):
        n, k = L.e.ghost['n'], L.iteration
        return [('n exceeds the trial divisors', n > (SMALL[k - 1] if 0 < k <= 32 else I64MIN - 1))] + ([('n odd', n % 2 == 1)] if k else [])
    lp0 = LoopSpec(r'isPrime\(', 0, {}, inv0, name='trial', forget=True)

    # range-for over the witnesses: unrolled, keeping only that the previous bases did not witness compositeness
    def inv1(L):
        n, k = L.e.ghost['n'], L.iteration
        return [('bases %d..' % i, MR(WIT[i], n)) for i in range(min(k, 7))]
    lp1 = LoopSpec(r'isPrime\(', 2, {}, inv1, name='witnesses', forget=True)

    def p_is(x, o):
        if o.kind != 'ret': return None
        return [('true exactly for primes', Implies(And(x.e.ghost['facts']), o.b() == PRIME(x['n'])))]
    T.append(Target('isPrime', 'd_isPrime', s_is2, p_is, loops=[lp0, lp1, lp2, lp3], models=[(r'details::powMod\(', seqmodel)], under=['isPrime'], unroll=80))
    T += primes_targets()
    return T


def lpf_axioms():
    """least prime factor and cofactor of odd composites (Lean: lpf_props)"""
    m = Int('m!l')
    return [forall(m, Implies(And(m >= 3, m % 2 == 1, Not(PRIME(m))),
                              And(LPF(m) >= 3, LPF(m) % 2 == 1, PRIME(LPF(m)), LPF(m) < m)), [LPF(m)])]


def primes_targets():
    T = []
    m, q, p, c = Int('m'), Int('q'), Int('p'), Int('c')
    OC = lambda k: And(k >= 3, k % 2 == 1, Not(PRIME(k)))

    def bounds(L):
        lo, up, cnt = L['lower'], L['upper'], L['count']
        return lo, up, cnt, If(lo % 2 == 1, lo, lo + 1)

    def cntf(lo, up): return If(up - lo < 0x3FFFFFFF, up - lo, 0x3FFFFFFF)

    def frame(L):
        lo, up, cnt = L['lower'], L['upper'], L['count']
        return [('sizes', And(L['np'].n == (cnt + 1) / 2, L['seg'].n == (up - lo + 1) / 2)), ('bounds', And(lo >= 2, up >= 2, Or(up > lo, And(up == 2, lo == 2)), cnt == cntf(lo, up)))]

    # k = 2q+1 for notPrime, k = lo1+2q for the segment
    def sound_np(L): return ('small marks are composite', forall(q, Implies(And(q >= 1, q < L['np'].n, L['np'].at(q)), Not(PRIME(2 * q + 1))), [L['np'].at(q)]))

    def sound_seg(L):
        lo1 = bounds(L)[3]
        return ('segment marks are composite', forall(q, Implies(And(q >= 0, q < L['seg'].n, L['seg'].at(q)), Not(PRIME(lo1 + 2 * q))), [L['seg'].at(q)]))

    def done_np(L, cond):
        cnt = L['count']
        return ('small composites are marked', forall(m, Implies(And(OC(m), m < cnt, cond(m)), L['np'].at(m / 2)), [LPF(m)]))

    def done_seg(L, cond):
        lo, up = L['lower'], L['upper']
        return ('composites of the segment are marked', forall(m, Implies(And(OC(m), lo <= m, m < up, cond(m)), L['seg'].at((m - lo) / 2)), [LPF(m)]))

    roles = {'np': ('vec', 'notPrime'), 'seg': ('vec', 'notPrimeSegment'), 'lower': ('s64', 'lower'), 'upper': ('s64', 'upper'), 'count': ('s64', 'count')}

    # products are kept behind a function, so that the solver only sees the instances it needs (lemmas: Lean NumTh2)
    M = Function('mul', IntSort(), IntSort(), IntSort())
    AQ = Function('quot2', IntSort(), IntSort(), IntSort())     # lo / (2*i)

    def inv_o(L):
        i = L['i']
        return frame(L) + [('i odd', And(i >= 3, i % 2 == 1, Or(i < L['count'] + 2, i == 3))), sound_np(L), sound_seg(L), done_np(L, lambda m: LPF(m) < i), done_seg(L, lambda m: LPF(m) < i)]

    def lem_o(L):
        i, lo, cnt = L['i'], L['lower'], L['count']
        m = Int('m!sq')
        a = AQ(lo, i)
        B = 2 * M(i, a)
        return [Implies(And(i >= 3, i < 1 << 30), And(i * i <= 1 << 60, i * i >= 9)), M(i, i) == i * i,
                forall(m, Implies(And(OC(m), m < cnt * cnt, cnt >= 0), LPF(m) < cnt), [LPF(m)]),      # sq_lt
                Implies(And(i > 0, lo >= 0), And(lo % (2 * i) == lo - B, lo - B >= 0, lo - B < 2 * i, a >= 0)),
                Implies(a == 0, B == 0),
                # square_le: a composite is at least the square of its least prime factor
                forall(m, Implies(And(OC(m), i >= 3, LPF(m) == i), m >= M(i, i)), [LPF(m)]),
                M(i, 2 * a + 1) == B + i, M(i, 2 * a + 3) == B + 3 * i,
                # odd_multiple_lower
                forall(m, Implies(And(i >= 3, OC(m), LPF(m) == i, m >= lo, m >= B), And(m >= B + i, Or(m == B + i, m >= B + 3 * i))), [LPF(m)])]

    # ---- inner loop 1
    def inv_1(L):
        i, j, t = L['i'], L['j'], L['t']
        return frame(L) + [('j = i*t', And(t >= 3, t % 2 == 1, j == M(i, t), i >= 3)), ('i odd', And(i % 2 == 1, i < L['count'])), ('j odd', And(j % 2 == 1, j >= 9)), sound_np(L),
                           done_np(L, lambda m: Or(LPF(m) < i, And(LPF(m) == i, m < j)))]

    def next_lem(i, j, t):
        m = Int('m!l1')
        # composite, next_odd_multiple
        return [Implies(And(i >= 2, t >= 2), Not(PRIME(M(i, t)))), M(i, t + 2) == M(i, t) + 2 * i, Implies(And(i % 2 == 1, t % 2 == 1), M(i, t) % 2 == 1), Implies(And(i >= 3, t >= 3), M(i, t) >= 9),
                forall(m, Implies(And(OC(m), i >= 3, LPF(m) == i, j <= m, m < j + 2 * i, j == M(i, t), t % 2 == 1), m == j), [LPF(m)])]

    def lem_1(L):
        i, j, t = L['i'], L['j'], L['t']
        return next_lem(i, j, t) + [Implies(And(i >= 3, i < 1 << 30), And(i * i <= 1 << 60, i * i >= 9))]
    lp1 = LoopSpec(r'^primes\(long, long\)', 1, dict(roles, i=('s64', 'i'), j=('s64', 'j')), inv_1, lem_1, name='mark small', variant=lambda L: L['count'] + 2 * L['i'] - L['j'],
                   ghosts={'t': (lambda L: L['i'], lambda H, B: H['t'] + 2)})

    # ---- inner loop 2
    def inv_2(L):
        i, j, u = L['i'], L['j'], L['u']
        return frame(L) + [('j = i*u', And(u >= 2, u % 2 == 1, j == M(i, u), i >= 3)), ('i odd', And(i % 2 == 1, i < L['count'])), ('j odd', j % 2 == 1), ('j in range', And(j >= L['lower'], j >= 9)), sound_seg(L),
                           done_seg(L, lambda m: Or(LPF(m) < i, And(LPF(m) == i, m < j)))]

    def lem_2(L): return next_lem(L['i'], L['j'], L['u'])

    def u0(L):
        i, lo = L['i'], L['lower']
        a = AQ(lo, i)
        return If(L['j'] == i * i, i, If(L['j'] == 2 * M(i, a) + i, 2 * a + 1, 2 * a + 3))
    lp2 = LoopSpec(r'^primes\(long, long\)', 2, dict(roles, i=('s64', 'i'), j=('s64', 'j')), inv_2, lem_2, name='mark segment', variant=lambda L: L['upper'] + 2 * L['i'] - L['j'],
                   ghosts={'u': (u0, lambda H, B: H['u'] + 2)})
    lp0 = LoopSpec(r'^primes\(long, long\)', 0, dict(roles, i=('s64', 'i')), inv_o, lem_o, name='sieve', variant=lambda L: L['count'] + 2 - L['i'])

    # ---- collecting loop
    def coll(lo, up, r, w, i):
        return [('elements are primes of the range', forall(q, Implies(And(0 <= q, q < r.n), And(PRIME(r.at(q)), r.at(q) >= lo, r.at(q) < up, r.at(q) < i)), [r.at(q)])),
                ('strictly increasing', forall([q, c], Implies(And(0 <= q, q < c, c < r.n), r.at(q) < r.at(c)), [[r.at(q), r.at(c)]])),
                ('no prime is missing', forall(p, Implies(And(PRIME(p), lo <= p, p < up, p < i), And(0 <= Select(w, p), Select(w, p) < r.n, r.at(Select(w, p)) == p)), [Select(w, p)]))]

    def inv_c(L):
        lo, up, cnt, lo1 = bounds(L)
        i = L['i']
        return frame(L) + [('i odd', And(i % 2 == 1, i >= lo1, i >= 3, Or(i < up + 2, i == lo1))), sound_seg(L),
                           ('composites of the segment are marked', forall(m, Implies(And(OC(m), lo <= m, m < up, m < cnt * cnt), L['seg'].at((m - lo) / 2)), [LPF(m)]))] + coll(lo, up, L['res'], L['w'], i)

    def lem_c(L):
        i, lo, cnt = L['i'], L['lower'], L['count']
        return [Implies(And(OC(i)), LPF(i) * LPF(i) <= i), Implies(And(cnt >= 0, cnt <= 1 << 30), cnt * cnt <= 1 << 60), Implies(And(i > 2, i % 2 == 0), Not(PRIME(i))), Implies(And(i + 1 > 2, (i + 1) % 2 == 0), Not(PRIME(i + 1)))]

    def step_w(H, B): return If(B['res'].n > H['res'].n, Store(H['w'], H['i'], H['res'].n), H['w'])
    lpc = LoopSpec(r'^primes\(long, long\)', 3, dict(roles, res=('vec', 'res', 'result.ptr'), i=('s64', 'i')), inv_c, lem_c, name='collect', variant=lambda L: L['upper'] + 2 - L['i'],
                   ghosts={'w': (lambda L: z3.K(IntSort(), IntVal(0)), step_w)})

    def isprime_model(c):
        c.e.contracts_used.add('isPrime')
        return PRIME(c.e.S(c.st, c.args[0]))

    def setup(x, a, b):
        x.assume(And(b <= I64MAX - (1 << 32), b - a <= 1 << 59, a >= I64MIN + (1 << 32)))
        for f in lpf_axioms(): x.assume(f)
        n = Int('n!sm')
        x.assume(forall(n, Implies(n <= 1, Not(PRIME(n))), [PRIME(n)]))
        x.assume(forall(n, Implies(And(n > 2, n % 2 == 0), Not(PRIME(n))), [PRIME(n)]))
        x.assume(PRIME(IntVal(2)))
        # composites below count^2 have a least prime factor below count (Lean: sq_lt)
        cc = Int('c!sq')
        m = Int('m!sq')
        x.e.ghost['a'], x.e.ghost['b'] = a, b

    def s_p(x):
        x.out('res')
        setup(x, x.s64('a'), x.s64('b'))

    def s_p1(x):
        x.out('res')
        setup(x, IntVal(0), x.s64('b'))

    def p_p(x, o):
        a, b = x.e.ghost['a'], x.e.ghost['b']
        if o.kind == 'throw': return [('only empty ranges are rejected', And(b <= a, BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        r = o.vec('res')
        w = o.st.g['ghost_w']
        return [('range valid', a < b)] + coll(a, b, r, w, b)
    for nm, en, s in (('primes(lower,upper)', 'd_primes', s_p), ('primes(upper)', 'd_primes1', s_p1)):
        T.append(Target(nm, en, s, p_p, loops=[lp0, lp1, lp2, lpc], models=[(r'^isPrime\(', isprime_model)], expects=('ret', 'throw'), under=[nm]))
    return T


def extra_checks(repo, work, tier): yield from lean_checks('NumTh.lean', 'NumTh2.lean')
