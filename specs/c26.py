from spec import *
DRIVER = 'c26.cpp'
FINDER = 'c26.cpp'
MAXC = 1 << 59
PC = Function('popcount64', IntSort(), IntSort())


def targets():
    T = []
    i = Int('i')

    def s_range(x):
        a, b, s = x.s64('a'), x.s64('b'), x.s64('s')
        x.assume(s != I64MIN)
        d, w = If(b > a, b - a, a - b), If(s > 0, s, -s)
        x.assume(Implies(s != 0, d <= MAXC * w))

    def count(a, b, s):
        return If(s > 0, If(b > a, (b - a + s - 1) / s, 0), If(b < a, (a - b - s - 1) / (-s), 0))

    def p_range(x, o):
        a, b, s = x.e.ghost['a'], x.e.ghost['b'], x.e.ghost['s']
        if o.kind == 'throw': return [('only step 0 is rejected, with domain_error', And(s == 0, BoolVal(o.val == 'std::domain_error')))]
        if o.kind != 'ret': return None
        v = o.vec('res')
        return [('step not 0', s != 0),
                ('as many elements as there are multiples of step before to', v.n == count(a, b, s)),
                ('element i is from + i*step', forall(i, Implies(And(0 <= i, i < v.n), v.at(i) == a + i * s)))]

    def inv(L):
        r = L['res']
        a, s = L.e.ghost['a'], L.e.ghost['s']
        k = L['i']
        return [('prefix', forall(i, Implies(And(0 <= i, i < k), r.at(i) == a + i * s), [r.at(i)])), ('size', r.n == L.old('res').n), ('k', And(k >= 1, k <= r.n))]

    def lem(L):
        a, b, s = L.e.ghost['a'], L.e.ghost['b'], L.e.ghost['s']
        k, n = L['i'], L['res'].n
        return [Implies(And(s > 0, k < n), k * s <= (n - 1) * s), Implies(And(s < 0, k < n), k * s >= (n - 1) * s), k * s == (k - 1) * s + s]

    def g(x, a, b, s): x.e.ghost.update(a=a, b=b, s=s)

    def set3(x):
        x.out('res')
        s_range(x)
        g(x, x['a'], x['b'], x['s'])

    def set1(x):
        x.out('res')
        b = x.s64('b')
        x.assume(b <= MAXC)
        g(x, IntVal(0), b, IntVal(1))
    lp = LoopSpec(r'^range\(', 0, {'res': ('vec', 'res', 'result', 'out'), 'i': ('u64', 'i', 'k', 'j')}, inv, lem, name='fill')
    T.append(Target('range(from,to,step)', 'd_range', set3, p_range, loops=[lp], expects=('ret', 'throw'), under=['range(from,to,step)']))
    T.append(Target('range(upper)', 'd_range1', set1, p_range, loops=[lp], under=['range(upper)']))

    def tinv(L):
        r, k = L['res'], L['i']
        a = L.e.ghost['a']
        return [('prefix', forall(i, Implies(And(0 <= i, i < k), r.at(i) == PC(a + i) % 2), [r.at(i)])), ('size', r.n == L.old('res').n)]
    tlp = LoopSpec(r'^thueMorse\(', 0, {'res': ('vec', 'res', 'result', 'out'), 'i': ('u64', 'i', 'k', 'j')}, tinv, name='fill')

    def p_tm(x, o):
        a, b = x.e.ghost['a'], x.e.ghost['b']
        bad = Or(b <= a, a < 0)
        if o.kind == 'throw': return [('only empty or negative ranges are rejected', And(bad, BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind != 'ret': return None
        v = o.vec('res')
        return [('range valid', Not(bad)), ('length', v.n == b - a), ('bit i is the parity of the one bits of lower+i', forall(i, Implies(And(0 <= i, i < v.n), v.at(i) == PC(a + i) % 2)))]

    def tset(x):
        x.out('res')
        a, b = x.s64('a'), x.s64('b')
        x.assume(b - a <= MAXC)
        g(x, a, b, None)

    def tset1(x):
        x.out('res')
        b = x.s64('b')
        x.assume(b <= MAXC)
        g(x, IntVal(0), b, None)
    T.append(Target('thueMorse(lower,upper)', 'd_tm', tset, p_tm, loops=[tlp], expects=('ret', 'throw'), under=['thueMorse(lower,upper)']))
    T.append(Target('thueMorse(upper)', 'd_tm1', tset1, p_tm, loops=[tlp], expects=('ret', 'throw'), under=['thueMorse(upper)']))
    return T


ASSUMPTIONS = ['range(): the step is not the smallest 64-bit integer', 'at most 2^59 elements are requested']
