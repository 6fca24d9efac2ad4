from spec import *
DRIVER = 'c08.cpp'
FINDER = 'c08.cpp'


def lower(c): return And(c >= 97, c <= 122)
def upper(c): return And(c >= 65, c <= 90)
def letter(c): return Or(lower(c), upper(c))
def digit(c): return And(c >= 48, c <= 57)
def vowel(c): return Or([c == ord(x) for x in 'aeiouAEIOU'])
def conso(c): return And(letter(c), Not(vowel(c)))
def lo(c): return If(upper(c), c + 32, c)
def up(c): return If(lower(c), c - 32, c)


def has_of(o): return o.e.U(o.st, o.mem('has', 0, ('int', 8))) == 1


def targets():
    T = []
    i = Int('i')
    for nm, f in (('isLower', lower), ('isUpper', upper), ('isLetter', letter), ('isDigit', digit), ('isVowel', vowel), ('isConsonant', conso)):
        T.append(Target(nm + '(char)', 'd_' + nm, lambda x: x.s8('c'), lambda x, o, f=f: [('exact set of characters', o.b() == f(x['c']))] if o.kind == 'ret' else None, under=[nm + '(char)']))
    for nm, en, f in (('toLower', 'd_toLower', lo), ('toUpper', 'd_toUpper', up), ('toDefaultCase', 'd_toDefault', lo)):
        T.append(Target(nm + '(char)', en, lambda x: x.s8('c'), lambda x, o, f=f: [('case map', o.s() == f(x['c']))] if o.kind == 'ret' else None, under=[nm + '(char)']))
        def inv(L, f=f):
            s0, s, k = L.e.x['s'], L['s'], L['cur']
            return [('prefix mapped, rest untouched', And(s.n == s0.n, 0 <= k, k <= s.n, forall(i, Implies(And(0 <= i, i < s.n), s.at(i) == If(i < k, f(s0.at(i)), s0.at(i))), [s.at(i)])))]
        lp = LoopSpec(r'^to(Lower|Upper|DefaultCase)\(std', 0, {'s': ('vec', 's'), 'cur': ('cur', '__begin1', '__begin2', 'it', 'i')}, inv, name='map', variant=lambda L: L['s'].n - L['cur'])
        T.append(Target(nm + '(string)', en + 'S', lambda x: x.vec('s', STRING),
                        lambda x, o, f=f: [('every character mapped', And(o.vec('s').n == x['s'].n, forall(i, Implies(And(0 <= i, i < x['s'].n), o.vec('s').at(i) == f(x['s'].at(i))))))] if o.kind == 'ret' else None,
                        loops=[lp], under=[nm + '(string)']))
    for nm, f in (('isLower', lower), ('isUpper', upper), ('isLetter', letter), ('isDigit', digit), ('isVowel', vowel), ('isConsonant', conso)):
        def set_(x, nm=nm):
            x.sv('s')
            if nm != 'isLower':
                x.raw('has', size=1, llty=('int', 8))
                x.raw('val', size=1, llty=('int', 8))

        def inv(L, f=f):
            s, k = L.e.x['s'], L['cur']
            return [('prefix', And(0 <= k, k <= s.n, forall(i, Implies(And(0 <= i, i < k), f(s.at(i))), [s.at(i)])))]
        lp = LoopSpec(r'(^|[ >])%s\(std' % nm, 0, {'cur': ('cur', '__begin1', '__begin2', 'it', 'i')}, inv, name='all', variant=lambda L: L.e.x['s'].n - L['cur'])

        def post(x, o, f=f, nm=nm):
            if o.kind != 'ret': return None
            s = x['s']
            r = [('true exactly if every character is in the set', o.b() == forall(i, Implies(And(0 <= i, i < s.n), f(s.at(i)))))]
            if nm != 'isLower':
                v = o.e.S(o.st, o.mem('val', 0, ('int', 8)))
                r += [('character reported exactly when false', has_of(o) == Not(o.b())), ('the first bad character is reported', Implies(Not(o.b()), Exists(i, And(0 <= i, i < s.n, s.at(i) == v, Not(f(v)), forall(Int('j'), Implies(And(0 <= Int('j'), Int('j') < i), f(s.at(Int('j')))))))))]
            return r
        T.append(Target(nm + '(string)', 'd_%sS' % nm, set_, post, loops=[lp], under=[nm + '(string)']))

    # stringEqual
    def s_eq(x):
        x.sv('a'), x.sv('b')
        x.bool('cs')
        x.raw('has', size=1, llty=('int', 8))
        x.raw('val', size=8, llty=('int', 64))

    def same(x, k): return If(x['cs'], x['a'].at(k) == x['b'].at(k), lo(x['a'].at(k)) == lo(x['b'].at(k)))

    def inv_eq(L):
        x, k = L.e.x, L['i']
        return [('equal so far', And(0 <= k, k <= x['a'].n, k <= x['b'].n, forall(i, Implies(And(0 <= i, i < k), same(x, i)), [x['a'].at(i)])))]
    lpe = LoopSpec(r'details::stringEqual\(', 0, {'i': ('u64', 'i', 'k', 'pos')}, inv_eq, name='compare', variant=lambda L: L.e.x['a'].n - L['i'])

    def p_eq(x, o):
        if o.kind != 'ret': return None
        a, b = x['a'], x['b']
        v = o.e.U(o.st, o.mem('val', 0, ('int', 64)))
        j = Int('j')
        return [('true exactly for equal strings (up to case if asked)', o.b() == And(a.n == b.n, forall(i, Implies(And(0 <= i, i < a.n), same(x, i))))), ('position reported exactly when false', has_of(o) == Not(o.b())),
                ('the first difference is reported', Implies(Not(o.b()), And(0 <= v, v <= a.n, v <= b.n, forall(i, Implies(And(0 <= i, i < v), same(x, i))), Or(v == a.n, v == b.n, Not(same(x, v))))))]
    for en, nm in (('d_stringEqual', 'details::stringEqual'), ('d_stringEqual2', 'stringEqual')):
        T.append(Target(nm, en, s_eq, p_eq, loops=[lpe], under=[nm]))

    # isToken
    def tok(c): return And([c != ord(z) for z in ' \n\r\t\f\v'])

    def inv_t(L):
        s, k = L.e.x['s'], L['cur']
        return [('prefix', And(0 <= k, k <= s.n, s.n > 0, forall(i, Implies(And(0 <= i, i < k), tok(s.at(i))), [s.at(i)])))]
    lpt = LoopSpec(r'details::isToken\(', 0, {'cur': ('cur', '__begin1', '__begin2', 'it', 'i')}, inv_t, name='all', variant=lambda L: L.e.x['s'].n - L['cur'])
    T.append(Target('details::isToken', 'd_isToken', lambda x: x.sv('s'), lambda x, o: [('non-empty and free of white space', o.b() == And(x['s'].n > 0, forall(i, Implies(And(0 <= i, i < x['s'].n), tok(x['s'].at(i))))))] if o.kind == 'ret' else None, loops=[lpt], under=['details::isToken']))
    return T
