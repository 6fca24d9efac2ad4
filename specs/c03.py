from isx import *
DRIVER = 'c03.cpp'
FINDER = 'c03.cpp'
BUDGET = 30


def targets():
    T = []
    VS = 'std::vector<%s, std::allocator<%s> >' % (STRING, STRING)
    yes = lambda x, p: BoolVal(True)
    ln = lambda x, p: And(x['lo'] <= TOKN(p), TOKN(p) < x['up'])
    re = lambda x, p: MATCH(x.ptrs['re'][0].obj)(TOKN(p), TOKC(p))
    rl = lambda x, p: And(ln(x, p), re(x, p))
    lg = lambda x, p: (x['lo'], x['up'], TOKN(p))
    i = Int('i')

    def val(x, p, o):
        v = o.vec('res')
        return [('the token is returned', And(v.n == TOKN(p), forall(i, Implies(And(0 <= i, i < v.n), v.at(i) == TOKC(p)[i]))))]
    for nm, en, a, c, l in (('lower, upper', 'd_len', ('lo', 'up'), ln, None), ('lower, upper, constraint', 'd_lenC', ('lo', 'up', 'con'), ln, lg), ('pattern', 'd_re', ('re',), re, None),
                            ('pattern, lower, upper', 'd_reLen', ('re', 'lo', 'up'), rl, None), ('pattern, lower, upper, constraint', 'd_reLenC', ('re', 'lo', 'up', 'con'), rl, lg)):
        T.append(single('InputStream::string(%s)' % nm, en, a, c, val, l))

    def vals(x, p, v, j):
        s = v.at(j)
        return And(s.n == TOKN(p), s.arr() == TOKC(p))
    FN = r'InputStream::strings<'
    for nm, en, a, c, l in (('', 'd_n', (), yes, None), ('lower, upper, ', 'd_nLen', ('lo', 'up'), ln, None), ('lower, upper, constraint, ', 'd_nLenC', ('lo', 'up', 'con'), ln, lg), ('pattern, ', 'd_nRe', ('re',), re, None),
                            ('pattern, lower, upper, ', 'd_nReLen', ('re', 'lo', 'up'), rl, None), ('pattern, lower, upper, constraint, ', 'd_nReLenC', ('re', 'lo', 'up', 'con'), rl, lg)):
        T.append(many('InputStream::strings(%scount, separator)' % nm, en, a + ('n', 'sep'), c, vals, FN, l, cpp=VS))
    return T


ASSUMPTIONS = ['precondition: count is not negative', 'regular expression matching is a predicate of the pattern and the token']
