from parsem import *
DRIVER = 'c05.cpp'
FINDER = 'c05.cpp'
BUDGET = 30
FEQ = Function('floatEqual', FP80, FP80, FP80, FP80, BoolSort())


def m_feq(c):
    """details::floatEqual: a predicate of its arguments (proved in C07), rejecting negative tolerances"""
    e, st = c.e, c.st
    e.contracts_used.add('details::floatEqual')
    g, x, a, r = [v.t for v in c.args]
    Z = z3.FPVal(0, FP80)
    bad = Not(And(z3.fpLEQ(Z, a), z3.fpLEQ(Z, r)))
    outs = []
    if e.feasible(st, bad):
        s2 = st.fork()
        s2.assume(bad)
        outs.append((s2, 'throw', 'std::domain_error'))
    st.assume(Not(bad))
    return [(st, 'ret', FEQ(g, x, a, r))] + outs


def sg(a): return If(a[0] == 43, 1, 0)
def rfit(n, a): return RFIT(a, sg(a), n)
def rval(n, a): return RV(a, sg(a), n)
def inside(v, lo, up): return And(z3.fpLEQ(lo, v), z3.fpLT(v, up))


def decimals_ok(n, a, mn, mx):
    i, j = Ints('i!d j!d')
    return And(Implies(forall(i, Implies(And(0 <= i, i < n), a[i] != 46)), And(mn <= 0, 0 < mx)),
               forall(i, Implies(And(0 <= i, i < n, a[i] == 46, forall(j, Implies(And(0 <= j, j < i), a[j] != 46))), And(mn <= n - i - 1, n - i - 1 < mx))))


def targets():
    T = []
    M = PM + [(r'^details::floatEqual\(', m_feq)]
    tol = lambda x: x.assume(And([z3.fpLEQ(z3.FPVal(0, FP80), x[k]) for k in ('absT', 'relT')]))
    v = lambda p: rval(TOKN(p), TOKC(p))
    ok = lambda x, p: And(LANG('REAL')(TOKN(p), TOKC(p)), rfit(TOKN(p), TOKC(p)))
    okr = lambda x, p: And(ok(x, p), Or(FEQ(v(p), x['rlo'], x['absT'], x['relT']), FEQ(v(p), x['rup'], x['absT'], x['relT']), inside(v(p), x['rlo'], x['rup'])))
    oks = lambda x, p: And(LANG('STRICT')(TOKN(p), TOKC(p)), rfit(TOKN(p), TOKC(p)), decimals_ok(TOKN(p), TOKC(p), x['mn'], x['mx']), inside(v(p), x['rlo'], x['rup']))
    lg = lambda x, p: (x['rlo'], x['rup'], v(p))
    res = lambda x, p, o: [('the value of the token is returned', o.f() == v(p))]
    B = ('absT', 'relT')
    for nm, en, a, c, l in (('real()', 'd_real', (), ok, None), ('real(lower, upper)', 'd_range', ('rlo', 'rup'), okr, None), ('real(lower, upper, constraint)', 'd_rangeC', ('rlo', 'rup', 'con'), okr, lg),
                            ('realStrict(lower, upper, min, max)', 'd_strict', ('rlo', 'rup', 'mn', 'mx'), oks, None), ('realStrict(lower, upper, min, max, constraint)', 'd_strictC', ('rlo', 'rup', 'mn', 'mx', 'con'), oks, lg)):
        T.append(single('InputStream::' + nm, en, B + a, c, res, l, sret=False, models=M, pre=tol))
    VR = 'std::vector<long double, std::allocator<long double> >'
    vals = lambda x, p, r, j: r.at(j) == v(p)
    for nm, en, a, c, l in (('reals(', 'd_n', (), ok, None), ('reals(lower, upper, ', 'd_nRange', ('rlo', 'rup'), okr, None), ('reals(lower, upper, constraint, ', 'd_nRangeC', ('rlo', 'rup', 'con'), okr, lg),
                            ('realsStrict(lower, upper, min, max, ', 'd_nStrict', ('rlo', 'rup', 'mn', 'mx'), oks, None), ('realsStrict(lower, upper, min, max, constraint, ', 'd_nStrictC', ('rlo', 'rup', 'mn', 'mx', 'con'), oks, lg)):
        T.append(many('InputStream::%scount, separator)' % nm, en, B + a + ('n', 'sep'), c, vals, r'InputStream::reals(Strict)?<', l, models=M, cpp=VR, pre=tol))

    def set_is(x):
        x.vec('s', STRING)
        x.raw('has', size=1, llty=('int', 8))
        x.raw('val', size=16, llty=('fp', 'x86_fp80'))

    def post_is(x, o):
        if o.kind != 'ret': return None
        s = x['s']
        i = And(LANG('REAL')(s.n, s.arr()), rfit(s.n, s.arr()))
        has = o.e.U(o.st, o.mem('has', 0, ('int', 8))) == 1
        return [('true exactly for reals that are representable', o.b() == i), ('a value is reported exactly for those', has == i), ('the value is reported', Implies(i, o.mem('val', 0, ('fp', 'x86_fp80')).t == rval(s.n, s.arr())))]
    T.append(Target('isReal', 'd_isReal', set_is, post_is, models=M, under=['isReal']))

    def set_p(x):
        x.sv('s')
        x.raw('val', size=16, llty=('fp', 'x86_fp80'))

    def post_p(x, o):
        if o.kind != 'ret': return None
        s = x['s']
        d = And(s.n > 0, RS(s.arr(), sg(s.arr()), s.n))
        return [('a whole number with optional sign is accepted exactly when representable', Implies(d, o.b() == rfit(s.n, s.arr()))), ('its value is stored', Implies(And(d, o.b()), o.mem('val', 0, ('fp', 'x86_fp80')).t == rval(s.n, s.arr())))]
    T.append(Target('details::parse<Real>', 'd_parse', set_p, post_p, models=M, under=['details::parse']))
    return T


ASSUMPTIONS = ['preconditions: tolerances are not negative, count is not negative', 'std::regex_match decides membership in the language of the pattern', 'std::from_chars accepts a whole decimal number exactly when it is representable', 'rounding of the decimal value is that of std::from_chars']
