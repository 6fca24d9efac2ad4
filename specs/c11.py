from spec import *
from rnd import *
DRIVER = 'c11.cpp'
FINDER = 'c11.cpp'
FLAGS = ('-ffp-contract=off',)
FP = 'x86_fp80'
FS = z3.FPSort(15, 64)
MAXZ = 200           # zero words in a row


def c_(v): return z3.FPVal(v, FS)


ZERO, ONE = c_(0.0), c_(1.0)
lt, le, nan, inf = z3.fpLT, z3.fpLEQ, z3.fpIsNaN, z3.fpIsInf


def fin(x): return Not(Or(nan(x), inf(x)))


def uf(name, *a, out=None):
    return Function('f_%s_%s' % (name, a[0].sort()), *([t.sort() for t in a] + [FS if out is None else out]))(*a)


# --------------------------------------------------------------------- facts about long double arithmetic (assumed, IEEE 754 / C standard)
def facts(e, st, op, args, r):
    if (args[0].sort() if op in ('f2i', 'llround') else r.sort()) != FS: return
    A = []
    reg = st.g.get('i2f', ())
    if op == 'i2f':          # |k| <= 2^64: exact, hence order preserving
        k, = args
        st.g = dict(st.g)
        st.g['i2f'] = reg + ((k, r),)
        A.append(And(fin(r), (k > 0) == lt(ZERO, r), (k < 0) == lt(r, ZERO), (k >= 1) == le(ONE, r), (k < 1 << 63) == lt(r, c_(2.0 ** 63)), (k < 1 << 64) == lt(r, c_(2.0 ** 64))))
        for j, q in reg:
            if not j.eq(k): A.append(And((j < k) == lt(q, r), (j <= k) == le(q, r)))
        for f, x, i in st.g.get('f2i', ()): A += conv(f, x, i, k, r)
    elif op in ('f2i', 'llround'):
        x, = args
        st.g = dict(st.g)
        st.g['f2i'] = st.g.get('f2i', ()) + ((op, x, r),)
        A.append(Implies(le(ZERO, x), r >= 0) if op == 'f2i' else Implies(And(le(ZERO, x), lt(x, c_(2.0 ** 63))), r >= 0))
        if op == 'f2i': A.append(Implies(And(le(ZERO, x), lt(x, c_(2.0 ** 64))), r <= U64MAX))
        for k, q in reg: A += conv(op, x, r, k, q)
    elif op == 'fmul':
        for a, b in (args, args[::-1]):
            A.append(Implies(And(fin(a), le(ZERO, a), le(ZERO, b), le(b, ONE)), And(le(ZERO, r), le(r, a))))
            A.append(Implies(And(fin(a), le(a, ZERO), le(ZERO, b), le(b, ONE)), And(le(a, r), le(r, ZERO))))
    elif op == 'fdiv':
        a, b = args
        ok = And(Not(nan(a)), Not(nan(b)), Not(And(inf(a), inf(b))), Not(And(z3.fpIsZero(a), z3.fpIsZero(b))))
        A += [Implies(ok, Not(nan(r))),
              Implies(And(ok, Or(And(le(a, ZERO), lt(ZERO, b)), And(le(ZERO, a), lt(b, ZERO)))), le(r, ZERO)),
              Implies(And(ok, Or(And(le(a, ZERO), lt(b, ZERO)), And(le(ZERO, a), lt(ZERO, b)))), le(ZERO, r)),
              # division by (plus or minus) zero: infinite
              Implies(And(ok, lt(a, ZERO), z3.fpIsZero(b), z3.fpIsNegative(b)), And(inf(r), lt(ZERO, r)))]
    elif op in ('fsub', 'fadd'):
        a, b = args
        for p, q in ((a, b), (b, a)) if op == 'fadd' else ((a, b),):
            A.append(Implies(And(fin(p), Not(nan(q))), Not(nan(r))))
            A.append(Implies(And(fin(p), le(q, ZERO)), le(p, r) if op == 'fsub' else le(r, p)))
            A.append(Implies(And(fin(p), le(ZERO, q)), le(r, p) if op == 'fsub' else le(p, r)))
    if op == 'fsub':
        H = c_(0.5)
        A.append(Implies(args[0] == ONE, And(Implies(le(H, args[1]), le(r, H)), Implies(le(args[1], H), le(H, r)), Implies(le(args[1], ONE), le(ZERO, r)))))
    for f in A: st.assume(f)


def conv(op, x, r, k, q):
    """x converted to the integer r, q the exact image of the integer k"""
    if op == 'f2i': return [Implies(And(le(ZERO, x), lt(x, q)), r < k), Implies(And(le(ZERO, x), le(x, q)), r <= k)]
    integral = x.decl().name().startswith('f_floor')
    return [Implies(And(le(ZERO, x), le(x, q), k <= I64MAX), r <= k)] + ([Implies(And(le(ZERO, x), lt(x, q), k <= I64MAX), r < k)] if integral else [])


def m_fun(name, ax=None):
    def f(c):
        if any(isinstance(v, Undef) for v in c.args): return Undef('fp undef')
        a = [v.t for v in c.args]
        r = uf(name, *a, out=a[0].sort())
        if r.sort() != FS: return FV(r, c.args[0].n)
        if ax is not None:
            for g in ax(r, *a): c.st.assume(g)
        return FV(r, c.args[0].n)
    return (r'^(std::)?%s[lf]?(\(|$)' % name, f)


def m_llround(c):
    v = c.args[0]
    r = uf('llround', v.t, out=IntSort())
    c.e.typed(c.st, r, 64, 'S')
    facts(c.e, c.st, 'llround', (v.t,), r)
    return IV(r, 64, 'S')


def unit(x): return And(lt(ZERO, x), lt(x, ONE))


FUN = [m_fun('log', lambda r, x: [Implies(unit(x), And(fin(r), lt(r, ZERO)))]),
       m_fun('log2', lambda r, x: [Implies(unit(x), And(fin(r), lt(r, ZERO)))]),
       m_fun('log1p', lambda r, x: [Implies(And(lt(c_(-1.0), x), le(x, ZERO)), And(fin(r), le(r, ZERO), (lt(x, ZERO)) == lt(r, ZERO), Implies(z3.fpIsZero(x), r == x)))]),
       m_fun('exp2', lambda r, x: [Implies(le(x, ZERO), And(le(ZERO, r), le(r, ONE)))]),
       m_fun('floor', lambda r, x: [Implies(Not(nan(x)), And(le(r, x), inf(r) == inf(x))), Implies(le(ZERO, x), le(ZERO, r))]),
       m_fun('sqrt'), m_fun('cos'), m_fun('sin'), m_fun('lgamma'), m_fun('round'),
       (r'^(std::)?llround[lf]?(\(|$)', m_llround)]


def m_real(c):
    """contract of Random::real() (proved below)"""
    e, st = c.e, c.st
    e.contracts_used.add('Random::real()')
    x = e.fresh('real', FS)
    st.assume(unit(x))
    return FV(x, FP)


REAL = [(r'^Random::real\(\)', m_real)]


# --------------------------------------------------------------------- real() itself, over bit vectors
def m_ldexp(c):
    x, k = c.args[0].t, c.args[1].t
    r = uf('ldexp', x, k)
    # x * 2^k is below 1 for x < 2^64, k <= -64 and does not underflow for x >= 2^63, k >= -16000
    c.st.assume(Implies(And(le(c_(2.0 ** 63), x), lt(x, c_(2.0 ** 64)), k >= -16000, k <= -64), And(lt(ZERO, r), lt(r, ONE))))
    c.st.g = dict(c.st.g)
    c.st.g['ldexp'] = c.st.g.get('ldexp', ()) + ((x, k, r),)
    return FV(r, FP)


def m_engine(c):
    v = engine_model(c)
    st = c.st
    st.g = dict(st.g)
    st.g['draws'] = st.g.get('draws', ()) + (v.t,)
    if 'ghost_k' in st.g: st.assume(z3.ULT(st.g['ghost_k'], MAXZ))
    return v


def ctz(x):
    r = z3.BitVecVal(64, 32)
    for i in range(63, -1, -1): r = If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, 32), r)
    return r


def targets():
    T = []

    def inv(L):
        k = L['k']
        r = [('64 per word of zeros', And(z3.ULE(k, MAXZ), L['exponent'] == -64 - 64 * k))]
        if L['x'] is not None and z3.is_bv(L['x']): r.append(('the last word', L['x'] == last(L, L.st)))
        return r

    def last(x, st):
        for oid in st.mem:
            if 'randomNumberGenerator' in oid: return x.e.load(st, CP(oid, 0), ('int', 64)).t

    def stepk(H, B):
        return H['k'] + 1
    lp = LoopSpec(r'^Random::real\(\)', 0, {'exponent': ('s32', 'exponent', 'e', 'exp'), 'x': ('u64?', 'x', 'word', 'bits', 'draw')}, inv, name='words',
                  ghosts={'k': (lambda L: z3.BitVecVal(0, 32), stepk)})

    def pr(x, o):
        if o.kind != 'ret': return None
        r = o.f()
        k = o.st.g['ghost_k']
        ds = o.st.g['draws']
        m, w = ds[0], last(x, o.st)
        want = uf('ldexp', z3.fpUnsignedToFP(z3.RNE(), m | z3.BitVecVal(1 << 63, 64), FS), -64 - 64 * k - ctz(w))
        return [('in (0, 1)', unit(r)), ('the last word has a one', w != 0), ('mantissa of 64 bits and a geometrically distributed exponent', r == want)]
    T.append(Target('Random::real()', 'd_real', lambda x: None, pr, loops=[lp], models=[(ENGINE, m_engine), (r'^(std::)?(ldexp|scalbn?)[lf]?(\(|$)', m_ldexp)], mode='bv', under=['Random::real()']))

    def target(name, entry, spec, dom, arg, post, loops=(), models=REAL + FUN, pre=None, unroll=None):
        """spec: parameters, e.g. 'i:l i:u r:p'; dom, arg: when domain_error / invalid_argument is due"""
        def setup(x):
            x.e.fpfacts = facts
            for a in spec.split():
                k, n = a.split(':')
                if k == 'r': x.real(n, FP)
                else: x.s64(n)
            if pre is not None: x.assume(pre(x))

        def p(x, o):
            D, A = dom(x), arg(x)
            D, A = [BoolVal(f) if isinstance(f, bool) else f for f in (D, A)]
            if o.kind == 'throw':
                if o.val == 'std::domain_error': return [('domain_error only for arguments outside of the domain', D)]
                if o.val == 'std::invalid_argument': return [('invalid_argument only for empty ranges', A)]
                return None
            if o.kind != 'ret': return None
            return [('invalid arguments are rejected', Not(Or(D, A)))] + post(x, o)
        T.append(Target(name, entry, setup, p, loops=list(loops), models=list(models), under=[name], unroll=unroll,
                        expects=('ret', 'throw')))

    F = False

    def rng(x, o): return [('in [lower, upper)', And(le(x['l'], o.f()), lt(o.f(), x['u'])))]
    def rngi(x, o): return [('in [lower, upper)', And(x['l'] <= o.s(), o.s() < x['u']))]
    def free(fn): return LoopSpec(fn, 0, {}, lambda L: [], name='draw')
    N = 'Random::'
    R1, R2 = r'^Random::real\(long double\)', r'^Random::real\(long double, long double\)'
    target(N + 'real(upper)', 'd_real1', 'r:u', lambda x: Not(fin(x['u'])), lambda x: Not(lt(ZERO, x['u'])), lambda x, o: [('in [0, upper)', And(le(ZERO, o.f()), lt(o.f(), x['u'])))], [free(R1)])
    target(N + 'real(lower, upper)', 'd_real2', 'r:l r:u', lambda x: Or(Not(fin(x['l'])), Not(fin(x['u']))), lambda x: Not(lt(x['l'], x['u'])), rng, [free(R2)])
    nneg = lambda t: Not(le(ZERO, t))
    target(N + 'normal(mean, stddev)', 'd_normal2', 'r:m r:s', lambda x: nneg(x['s']), lambda x: F, lambda x, o: [])
    target(N + 'normal(lower, upper, mean, stddev)', 'd_normal4', 'r:l r:u r:m r:s', lambda x: Or(nan(x['l']), nan(x['u']), nneg(x['s'])), lambda x: Not(lt(x['l'], x['u'])), rng,
           [free(r'^Random::normal\(long double, long double, long double, long double\)')])
    npos = lambda t: Not(lt(ZERO, t))
    target(N + 'exponential(lambda)', 'd_exp1', 'r:p', lambda x: npos(x['p']), lambda x: F, lambda x, o: [('not negative', le(ZERO, o.f()))])
    target(N + 'exponential(lower, upper, lambda)', 'd_exp3', 'r:l r:u r:p', lambda x: Or(Not(fin(x['l'])), nan(x['u']), npos(x['p'])), lambda x: Not(lt(x['l'], x['u'])), rng,
           [free(r'^Random::exponential\(long double, long double, long double\)')])
    n01 = lambda t: Not(And(le(ZERO, t), lt(t, ONE)))
    target(N + 'geometric(p)', 'd_geo1', 'r:p', lambda x: n01(x['p']), lambda x: F, lambda x, o: [('not negative if it fits into an integer', Implies(And(*[And(fin(a), lt(a, c_(2.0 ** 63))) for f, a, r in o.st.g.get('f2i', ())]), o.s() >= 0))], pre=lambda x: Not(z3.fpIsZero(x['p'])))
    target(N + 'geometric(lower, upper, p)', 'd_geo3', 'i:l i:u r:p', lambda x: n01(x['p']), lambda x: x['l'] >= x['u'], rngi, [free(r'^Random::geometric\(long, long, long double\)')], pre=lambda x: Not(z3.fpIsZero(x['p'])))
    # binomial: geometric method and BTRS
    B2, B4 = r'^Random::binomial\(long, long double\)', r'^Random::binomial\(long, long, long, long double\)'

    def binv(L):
        return [('successes so far', And(0 <= L['res'], L['res'] <= L['y'], L['y'] <= L['n'])), ('logarithm', And(fin(L['lg']), lt(L['lg'], ZERO)))]
    geo = LoopSpec(B2, 0, {'res': ('s64', 'res'), 'y': ('s64', 'y'), 'n': ('s64', 'n'), 'lg': ('real', 'lg')}, binv, name='geometric method')
    btrs = LoopSpec(B2, 1, {}, lambda L: [], name='BTRS')
    n01c = lambda t: Not(And(le(ZERO, t), le(t, ONE)))
    target(N + 'binomial(n, p)', 'd_bin2', 'i:n r:p', lambda x: Or(x['n'] < 0, n01c(x['p'])), lambda x: F, lambda x, o: [('in [0, n]', And(0 <= o.s(), o.s() <= x['n']))], [geo, btrs], pre=lambda x: x['n'] < I64MAX)

    def m_bin(c):
        e, st = c.e, c.st
        e.contracts_used.add('Random::binomial(n, p)')
        n, p = e.S(st, c.args[0]), c.args[1].t
        bad = Or(n < 0, n01c(p))
        outs = []
        if e.feasible(st, bad):
            s2 = st.fork()
            s2.assume(bad)
            outs.append((s2, 'throw', 'std::domain_error'))
        if not e.feasible(st, Not(bad)): return outs
        st.assume(Not(bad))
        t = e.fint('binomial')
        e.bounded(st, t, I64MIN, I64MAX)
        st.assume(And(0 <= t, t <= n))
        outs.append((st, 'ret', IV(t, 64, 'S')))
        return outs
    target(N + 'binomial(lower, upper, n, p)', 'd_bin4', 'i:l i:u i:n r:p', lambda x: Or(x['n'] < 0, n01c(x['p'])), lambda x: x['l'] >= x['u'],
           lambda x, o: rngi(x, o) + [('in [0, n]', And(0 <= o.s(), o.s() <= x['n']))], [free(B4)], models=[(B2, m_bin)], pre=lambda x: x['n'] < I64MAX)
    # order statistics
    MX = REAL + FUN + RND

    def mx(x, o):
        l, u, n = x.e.ghost['l'], x.e.ghost['u'], x['n']
        r = o.s()
        ds = o.st.g.get('draws', ())
        post = [('in [lower, upper)', And(l <= r, r < u))]
        post.append(('maximum of n draws from [lower, upper)', Implies(n < 5, And(len(ds) == n, *[And(a == l, b == u, t <= r) for a, b, t in ds], Or([t == r for a, b, t in ds])))))
        return post

    def both(name, e3, e2, post, nbad, pre=None, models=MX, unroll=6):
        def g(spec):
            def f(x):
                x.e.ghost.update(l=x['l'] if 'i:l' in spec else IntVal(0), u=x['u'])
                return BoolVal(True) if pre is None else pre(x)
            return f
        for e, sp, sig in ((e3, 'i:l i:u i:n', '(lower, upper, n)'), (e2, 'i:u i:n', '(upper, n)')):
            target(N + name + sig, e, sp, lambda x: F, lambda x: Or(nbad(x['n']), x.e.ghost['l'] >= x.e.ghost['u']), post, models=models, pre=g(sp), unroll=unroll)
    both('maximum', 'd_max3', 'd_max2', mx, lambda n: n <= 0)

    def m_max(c):
        """contract of Random::maximum(lower, upper, n) (proved above)"""
        e, st = c.e, c.st
        e.contracts_used.add('Random::maximum(lower, upper, n)')
        a = [e.S(st, v) for v in c.args]
        l, u, n = a if len(a) == 3 else [IntVal(0)] + a
        bad = Or(l >= u, n <= 0)
        outs = []
        if e.feasible(st, bad):
            s2 = st.fork()
            s2.assume(bad)
            outs.append((s2, 'throw', 'std::invalid_argument'))
        if not e.feasible(st, Not(bad)): return outs
        st.assume(Not(bad))
        t = e.fint('maximum')
        e.bounded(st, t, I64MIN, I64MAX)
        st.assume(And(l <= t, t < u))
        st.g = dict(st.g)
        st.g['maxima'] = st.g.get('maxima', ()) + ((l, u, n, t),)
        outs.append((st, 'ret', IV(t, 64, 'S')))
        return outs
    MM = [(r'^Random::maximum\(', m_max)] + MX

    def rg(x, o): return [('in [lower, upper)', And(x.e.ghost['l'] <= o.s(), o.s() < x.e.ghost['u']))]
    both('minimum', 'd_min3', 'd_min2', rg, lambda n: n <= 0, models=MM)
    both('minmax', 'd_mm3', 'd_mm2', rg, lambda n: n == 0, models=MM, pre=lambda x: x['n'] > I64MIN)

    # discrete: the index whose prefix sums enclose the draw
    for en, ws in (('d_disc1', (7,)), ('d_disc3', (1, 2, 3)), ('d_disc5', (0, 5, 0, 2, 0)), ('d_disc0', (0, 0))):
        def post(x, o, ws=ws):
            if o.kind == 'throw': return [('only without any weight', BoolVal(sum(ws) == 0 and o.val == 'std::invalid_argument'))]
            if o.kind != 'ret': return None
            [(a, b, t)] = o.st.g['draws']
            pre = [sum(ws[:i]) for i in range(len(ws) + 1)]
            return [('one draw from [0, sum of the weights)', And(a == 0, b == pre[-1])),
                    ('index i with sum of the weights before i <= draw < sum up to i', Or([And(o.s() == i, pre[i] <= t, t < pre[i + 1]) for i in range(len(ws))]))]
        T.append(Target('Random::discrete<%s>' % ', '.join(map(str, ws)), en, lambda x: None, post, models=RND, under=['Random::discrete<...>'], expects=('throw',) if sum(ws) == 0 else ('ret',), unroll=8))
    return T
