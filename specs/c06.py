from parsem import *
import c05
DRIVER = 'c06.cpp'
FINDER = 'c06.cpp'
BUDGET = 30


def SEQ(n, a, m, b, cs):
    i = Int('i!seq')
    return And(n == m, forall(i, Implies(And(0 <= i, i < n), If(cs, a[i] == b[i], fold(a[i]) == fold(b[i])))))


def targets():
    T = []
    i, j = Ints('i j')
    M = PM + [(r'^details::floatEqual\(', c05.m_feq)]
    tol = lambda x: x.assume(And([z3.fpLEQ(z3.FPVal(0, FP80), x[k]) for k in ('absT', 'relT')]))
    B = ('absT', 'relT')
    blank = lambda c: Or(c == 32, And(9 <= c, c <= 13))

    def setup(kind):
        def f(x):
            if kind == 's': x.sv('exp')
            base(x)
            arg_setup(x, B)
            if kind == 's': pass
            elif kind == 'r': x.real('exp')
            else: x.s64('exp')
            tol(x)
        return f

    def istok(x): return And(x['exp'].n > 0, forall(i, Implies(And(0 <= i, i < x['exp'].n), Not(blank(x['exp'].at(i))))))

    def mk(nm, en, kind, same):
        def post(x, o):
            p = x['in.pos']
            if o.kind == 'throw' and kind == 's': return [('only an expected text that is no token throws', And(Not(istok(x)), BoolVal(o.val == 'std::invalid_argument')))]
            ok = And(TOKOK(p), same(x, TOKN(p), TOKC(p)))
            if o.kind == 'exit': return [('rejected only when different', Not(ok)), ('exits with the verdict of the stream', x.e.S(o.st, o.val) == x['code'])]
            if o.kind != 'ret': return None
            s = the_stream(x, o.st)
            return [('accepted only when equal', ok), ('exactly the token is consumed', s.pos == TOKE(p)), inv_ok(x, o.st)] + ([('expected text is a token', istok(x))] if kind == 's' else [])
        lps = []
        if kind == 's':
            def inv_t(L):
                s, k = L.e.x['exp'], L['cur']
                return [('prefix has no white space', And(0 <= k, k <= s.n, forall(j, Implies(And(0 <= j, j < k), Not(blank(s.at(j)))), [s.at(j)])))]
            lps.append(LoopSpec(r'details::isToken', 0, {'cur': ('cur', '__begin1', '__begin2', 'it', 'i')}, inv_t, name='token', variant=lambda L: L.e.x['exp'].n - L['cur']))

            def inv_e(L):
                x, k = L.e.x, L['i']
                p, s = x['in.pos'], x['exp']
                eq = lambda c, d: If(x['cs'], c == d, fold(c) == fold(d))
                return [('prefix equal', And(0 <= k, k <= TOKN(p), k <= s.n, forall(j, Implies(And(0 <= j, j < k), eq(TOKC(p)[j], s.at(j))), [s.at(j)])))]
            lps.append(LoopSpec(r'details::stringEqual', 0, {'i': ('u64', 'i')}, inv_e, name='compare', variant=lambda L: L.e.x['exp'].n - L['i']))
        T.append(Target('InputStream::' + nm, en, setup(kind), post, loops=lps, models=M, expects=('ret', 'exit') + (('throw',) if kind == 's' else ()), under=['InputStream::' + nm]))
    mk('expectString', 'd_str', 's', lambda x, n, a: SEQ(n, a, x['exp'].n, x['exp'].arr(), x['cs']))
    mk('expectInt', 'd_int', 'i', lambda x, n, a: And(LANG('INT')(n, a), fits(DECV(a, 0, n)), DECV(a, 0, n) == x['exp']))
    mk('expectReal', 'd_real', 'r', lambda x, n, a: And(LANG('REAL')(n, a), c05.rfit(n, a), c05.FEQ(c05.rval(n, a), x['exp'], x['absT'], x['relT'])))
    return T


ASSUMPTIONS = ['precondition: tolerances are not negative', 'std::regex_match decides membership in the language of the pattern', 'std::from_chars accepts a whole decimal number exactly when it is representable']
