from parsem import *
DRIVER = 'c04.cpp'
FINDER = 'c04.cpp'
BUDGET = 30


def is_int(n, a): return And(LANG('INT')(n, a), fits(DECV(a, 0, n)))
def val_of(n, a): return DECV(a, 0, n)


def targets():
    T = []
    v = lambda p: val_of(TOKN(p), TOKC(p))
    ok = lambda x, p: is_int(TOKN(p), TOKC(p))
    okr = lambda x, p: And(ok(x, p), x['lo'] <= v(p), v(p) < x['up'])
    lg = lambda x, p: (x['lo'], x['up'], v(p))
    res = lambda x, p, o: [('the decimal value is returned', o.s() == v(p))]
    for nm, en, a, c, l in (('', 'd_int', (), ok, None), ('lower, upper', 'd_range', ('lo', 'up'), okr, None), ('lower, upper, constraint', 'd_rangeC', ('lo', 'up', 'con'), okr, lg)):
        T.append(single('InputStream::integer(%s)' % nm, en, a, c, res, l, sret=False, models=PM))
    vals = lambda x, p, r, j: r.at(j) == v(p)
    for nm, en, a, c, l in (('', 'd_n', (), ok, None), ('lower, upper, ', 'd_nRange', ('lo', 'up'), okr, None), ('lower, upper, constraint, ', 'd_nRangeC', ('lo', 'up', 'con'), okr, lg)):
        T.append(many('InputStream::integers(%scount, separator)' % nm, en, a + ('n', 'sep'), c, vals, r'InputStream::integers<', l, models=PM))

    def set_is(x):
        x.vec('s', STRING)
        x.raw('has', size=1, llty=('int', 8))
        x.raw('val', size=8, llty=('int', 64))

    def post_is(x, o):
        if o.kind != 'ret': return None
        s = x['s']
        i = is_int(s.n, s.arr())
        has = o.e.U(o.st, o.mem('has', 0, ('int', 8))) == 1
        return [('true exactly for integers that are representable', o.b() == i), ('a value is reported exactly for those', has == i), ('the decimal value is reported', Implies(i, o.e.S(o.st, o.mem('val', 0, ('int', 64))) == val_of(s.n, s.arr())))]
    T.append(Target('isInteger', 'd_isInteger', set_is, post_is, models=PM, under=['isInteger']))

    def set_p(x):
        x.sv('s')
        x.raw('val', size=8, llty=('int', 64))

    def post_p(x, o):
        if o.kind != 'ret': return None
        s = x['s']
        d = And(s.n > 0, DECS(s.arr(), 0, s.n), s.at(0) != 43)
        return [('a whole decimal number is accepted exactly when representable', Implies(d, o.b() == fits(DECV(s.arr(), 0, s.n)))), ('its value is stored', Implies(And(d, o.b()), o.e.S(o.st, o.mem('val', 0, ('int', 64))) == DECV(s.arr(), 0, s.n))),
                ('a number after a plus sign', Implies(And(s.n > 1, s.at(0) == 43, DECS(s.arr(), 1, s.n)), o.b() == fits(DECV(s.arr(), 1, s.n))))]
    T.append(Target('details::parse<Integer>', 'd_parse', set_p, post_p, models=PM, under=['details::parse']))
    return T


ASSUMPTIONS = ['precondition: count is not negative', 'std::regex_match decides membership in the language of the pattern', 'std::from_chars accepts a whole decimal number exactly when it is representable']
