"""regular expressions with a known pattern, and std::from_chars: contracts over uninterpreted predicates of the characters"""
from isx import *
import rx
STRIP_BODY = r'([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?'
INT_PAT = r'0|-?[1-9][0-9]*'                                    # what doc/validate.md promises for integers
REAL_PAT = r'[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)([eE][+-]?[0-9]+)?'  # for reals
STRICT_PAT = r'-?(0|[1-9][0-9]*)(\.[0-9]*)?'                     # for strict reals
FC_INT, FC_REAL = r'-?[0-9]+', '-?' + STRIP_BODY                # from_chars: whole range is one number
LANGS = {'INT': INT_PAT, 'REAL': REAL_PAT, 'STRICT': STRICT_PAT}


def LANG(n): return Function('language ' + n, IntSort(), AII, BoolSort())


DECS = Function('decimal', AII, IntSort(), IntSort(), BoolSort())           # characters [b, e) are a decimal integer
DECV = Function('decimal_value', AII, IntSort(), IntSort(), IntSort())
FP80 = z3.FPSort(15, 64)
RS = Function('floating', AII, IntSort(), IntSort(), BoolSort())
RFIT = Function('representable', AII, IntSort(), IntSort(), BoolSort())
RV = Function('floating_value', AII, IntSort(), IntSort(), FP80)


def fits(v): return And(-(1 << 63) <= v, v < 1 << 63)


def cstring(mod, g):
    """constant character array of a global"""
    t = mod.globals.get(g, '')
    m = re.search(r'constant \[\d+ x i8\] c"((?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*)"', t)
    if m:
        b = re.sub(r'\\(\\|[0-9A-Fa-f]{2})', lambda k: '\\' if k.group(1) == '\\' else chr(int(k.group(1), 16)), m.group(1))
        return b.split('\0')[0]
    return None


def pattern_of(mod, name):
    """pattern and flags with which a global regular expression is initialised in the current source"""
    pat = re.compile(r'basic_regex\w*\(ptr[^@]*@"?%s"?, ptr[^@%%]*@([\w.$"]+), i32[^0-9]*(\d+)\)' % re.escape(name))
    hits = []
    for fn in mod.funcs.values():
        for ln in fn.lines:
            if name in ln and 'basic_regex' in ln:
                m = pat.search(ln)
                if m: hits.append((cstring(mod, m.group(1).strip('"')), int(m.group(2))))
    return hits[0] if len(hits) == 1 else None


KNOWN = {}


def language(mod, name):
    """name of the specified language that the pattern describes exactly (decided on the automata), with the facts that hold for every word"""
    key = (id(mod), name)
    if key not in KNOWN:
        r = pattern_of(mod, name)
        if r is None or r[0] is None or r[1] & ~(2 | 4 | 16): KNOWN[key] = None
        else:
            try: KNOWN[key] = next((k for k, p in LANGS.items() if rx.equal(p, r[0])), None)
            except (rx.BadPattern, ValueError, IndexError): KNOWN[key] = None
    return KNOWN[key]


def word_facts(k, n, a):
    """consequences of membership in a specified language; every one is an inclusion of regular languages, checked here"""
    p, r = LANGS[k], []
    D = rx.dfa(p)
    if not D.acc[0]: r.append(n >= 1)
    noplus = rx.product_search(D, rx.dfa(r'\+([^a]|a)*'), lambda x, y: x and y) is None
    if noplus: r.append(a[0] != 43)
    for P, f in ((FC_INT, DECS), (FC_REAL, RS)):
        d = rx.dfa(P)
        if noplus:
            if rx.sub_dfa(D, d): r.append(f(a, 0, n))
        elif rx.product_search(D, rx.dfa(P + r'|\+([^a]|a)*'), lambda x, y: x and not y) is None and rx.sub_dfa(rx.strip(p, 43), d):
            r.append(f(a, If(a[0] == 43, 1, 0), n))
    return r


def m_match2(c):
    e, st = c.e, c.st
    r = c.args[1]
    k = None
    if isinstance(r, CP) and r.off == 0 and r.obj.startswith('@'):
        g = r.obj[1:]
        k = language(e.mod, g)
    if k is None: return m_match(c)
    n, a = e.rd_cont(st, c.args[0], e.types.mt(STRING))
    f = c.args[2] if len(c.args) > 2 else None
    if f is not None and not (isinstance(f, IV) and f.c == 0): raise Unsupported('match flags')
    t = LANG(k)(n, a)
    e.contracts_used.add('the pattern of %s describes the specified language %s (decided on automata)' % (e.mod.dem(g), k))
    st.assume(Implies(t, And(word_facts(k, n, a))))
    return t


def m_from_chars(real):
    def f(c):
        e, st = c.e, c.st
        b, t = c.args[0], c.args[1]
        if not (isinstance(b, EP) and isinstance(t, EP) and b.par == t.par and b.off == 0 and t.off == 0): raise Unsupported('from_chars on %r, %r' % (b, t))
        o = c.args[3]
        if not (isinstance(o, IV) and o.c == (3 if real else 10)): raise Unsupported('format of from_chars')
        n, a = e.rd_cont(st, b.par, b.mt)
        e.ub(st, 'range of from_chars', And(0 <= b.idx, b.idx <= t.idx, t.idx <= n))
        whole = (RS if real else DECS)(a, b.idx, t.idx)
        ok = RFIT(a, b.idx, t.idx) if real else fits(DECV(a, b.idx, t.idx))
        p, ec = e.fint('fc'), e.fint('ec')
        st.assume(And(b.idx <= p, p <= t.idx, Implies(whole, And(p == t.idx, ec == If(ok, 0, 34))), Implies(p == t.idx, Or(whole, b.idx == t.idx, ec != 0)), Or(ec == 0, ec == 22, ec == 34)))
        if real:
            ty = ('fp', 'x86_fp80')
            old = e.load(st, c.args[2], ty)
            v = z3.If(And(whole, ok), RV(a, b.idx, t.idx), z3.If(ec == 0, e.fresh('fcv', FP80), old.t))
            e.store(st, c.args[2], FV(v, 'x86_fp80'), ty)
        else:
            old = e.S(st, e.load(st, c.args[2], ('int', 64)))
            v = e.fint('fcv')
            st.assume(And(fits(v), Implies(And(whole, ok), v == DECV(a, b.idx, t.idx)), Implies(ec != 0, v == old)))
            e.store(st, c.args[2], IV(v, 64, 'S'), ('int', 64))
        return [EP(b.par, p, 0, b.mt), IV(ec, 32, 'S')]
    return f


PARSE = [(r'^bool std::regex_match<std::char_traits<char>, std::allocator<char>', m_match2), (r'std::from_chars<long', m_from_chars(False)), (r'^std::from_chars\(char const\*, char const\*, long double&', m_from_chars(True)),
         (r'std::from_chars_result.*std::from_chars<long>', m_from_chars(False))]
PM = SM + PARSE      # later entries take precedence
