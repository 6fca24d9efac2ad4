"""callers of InputStream::string() and of the separators, through their contracts (proved in C02): what is read is a function of the position"""
from spec import *
from iom import *
AII = z3.ArraySort(IntSort(), IntSort())
TOKOK = Function('token_ok', IntSort(), BoolSort())
TOKN = Function('token_length', IntSort(), IntSort())
TOKC = Function('token_chars', IntSort(), AII)
TOKE = Function('token_end', IntSort(), IntSort())


def MATCH(name): return Function('match ' + name, IntSort(), AII, BoolSort())
def token_fact(p): return Implies(TOKOK(p), And(TOKN(p) >= 1, p < TOKE(p), TOKE(p) <= LEN))


def set_pos(s, q):
    s.pos = q
    b = s.e.fresh('eof', BoolSort())
    s.st.assume(Implies(b, q == LEN))
    s.setf(EOFB, b)
    s.setf(FAILB, BoolVal(False))


def verdict(e, st, cond, rest):
    """cond: accepted; rest(st) -> value"""
    outs = []
    if e.feasible(st, Not(cond)):
        s2 = st.fork()
        s2.assume(Not(cond))
        outs.append((s2, 'exit', IV(Int('code'), 32, 'S')))
    if e.feasible(st, cond):
        st.assume(cond)
        outs.insert(0, (st, 'ret', rest(st)))
    return outs


def m_string(c):
    e, st = c.e, c.st
    e.contracts_used.add('InputStream::string()')
    s = the_stream(e.x, st)
    p = s.pos
    st.assume(token_fact(p))

    def rest(st):
        s = the_stream(e.x, st)
        e.wr_cont(st, c.args[0], e.types.mt(STRING), (TOKN(p), TOKC(p)))
        set_pos(s, TOKE(p))
        i = Int('i!tc')
        st.assume(And(TOKN(p) <= 1 << 59, ForAll([i], And(-128 <= TOKC(p)[i], TOKC(p)[i] <= 127), patterns=[TOKC(p)[i]])))
        return None
    return verdict(e, st, TOKOK(p), rest)


def sep_ok(ch, p): return Implies(z3.Bool('ss'), And(p < LEN, Select(INP, p) == ch))
def sep_next(p): return If(z3.Bool('ss'), p + 1, p)


def m_sep(ch):
    def f(c):
        e, st = c.e, c.st
        e.contracts_used.add('InputStream::space()' if ch == 32 else 'InputStream::newline()')
        p = the_stream(e.x, st).pos
        return verdict(e, st, sep_ok(ch, p), lambda st: set_pos(the_stream(e.x, st), sep_next(p)))
    return f


def m_match(c):
    e, st = c.e, c.st
    n, a = e.rd_cont(st, c.args[0], e.types.mt(STRING))
    r = c.args[1]
    if not isinstance(r, CP) or r.off != 0: raise Unsupported('regular expression %r' % (r,))
    f = c.args[2] if len(c.args) > 2 else None
    if f is not None and not (isinstance(f, IV) and f.c == 0): raise Unsupported('match flags')
    return MATCH(r.obj)(n, a)


def m_log(kind):
    def f(c):
        e, st = c.e, c.st
        e.contracts_used.add('Constraint::log')
        if kind == 'real': v = (c.args[1].t, c.args[2].t, c.args[3].t)
        else: v = (e.S(st, c.args[1]), e.S(st, c.args[2]), e.rd_cont(st, c.args[3], e.types.mt(STRING))[0] if kind == 'str' else e.S(st, c.args[3]))
        if c.args[0] != e.x.ptrs['con'][0]: raise Unsupported('another constraint')
        st.g['logged'] = st.g.get('logged', ()) + (v,)
        return None
    return f


STRM = [(r'^InputStream::string\[abi:cxx11\]\(\)|^InputStream::string\(\)', m_string), (r'^InputStream::space\(\)', m_sep(32)), (r'^InputStream::newline\(\)', m_sep(10)),
        (r'^InputStream::fail\(\)', fail_contract(lambda c: IV(Int('code'), 32, 'S'))),
        (r'^bool std::regex_match<std::char_traits<char>, std::allocator<char>', m_match),
        (r'^void Constraint::log<std::__cxx11::basic_string', m_log('str')), (r'^void Constraint::log<long,', m_log('int')), (r'^void Constraint::log<long double', m_log('real'))]
SM = STRM + IO


def base(x):
    istream(x)
    x.bool('ss'), x.bool('cs')
    ostr(x)
    x.s32('code')


def arg_setup(x, args):
    for a in args:
        if a == 're': x.raw('re', size=32)
        elif a == 'con': x.raw('con', size=160)
        elif a == 'sep': x.s8('sep')
        elif a in ('rlo', 'rup', 'absT', 'relT'): x.real(a)
        else: x.s64(a)


def inv_ok(x, st):
    s = the_stream(x, st)
    return ('flags only at the end of the input', And(Implies(Or(s.flag(EOFB), s.flag(FAILB)), s.pos == LEN), 0 <= s.pos, s.pos <= LEN))


def single(name, entry, args, cond, value, log=None, sret=True, models=SM, pre=None, more=None):
    """read one element: accepted iff cond(x, p); value(x, p, o) -> [(name, formula)] of the result; log(x, p): the logged triple"""
    def setup(x):
        if sret: x.out('res', STRING)
        base(x)
        arg_setup(x, args)
        if pre: pre(x)

    def post(x, o):
        p = x['in.pos']
        ok = And(TOKOK(p), cond(x, p))
        if o.kind == 'exit': return [('rejected only when required', Not(ok)), ('exits with the verdict of the stream', x.e.S(o.st, o.val) == x['code'])]
        if o.kind != 'ret': return None
        s = the_stream(x, o.st)
        r = [('accepted only when allowed', ok), ('exactly the token is consumed', s.pos == TOKE(p)), inv_ok(x, o.st)] + value(x, p, o)
        lg = o.st.g.get('logged', ())
        if log:
            e = log(x, p)
            r.append(('the constraint sees the bounds and the value', And([a == b for a, b in zip(lg[0], e)]) if len(lg) == 1 else BoolVal(False)))
        else: r.append(('nothing is logged', BoolVal(not lg)))
        return r + (more(x, p, o) if more else [])
    return Target(name, entry, setup, post, models=models, expects=('ret', 'exit'), under=[name])


def many(name, entry, args, cond, value, fnrx, log=None, cpp=None, models=SM, pre=None, N='n'):
    """read n elements with separators"""
    cpp = cpp or VECI
    i, j = Ints('i j')

    def setup(x):
        x.out('res', cpp)
        base(x)
        arg_setup(x, args)
        x.assume(And(0 <= x[N], x[N] < 1 << 59))
        if pre: pre(x)

    def elem(x, p): return And(TOKOK(p), cond(x, p))
    def nxt(x, W, j): return If(j + 1 < x[N], sep_next(TOKE(W[j])), TOKE(W[j]))
    def okat(x, W, j): return And(elem(x, W[j]), Implies(j + 1 < x[N], sep_ok(x['sep'], TOKE(W[j]))))
    def seq(x, W, i): return And(W[0] == x['in.pos'], forall(j, Implies(And(0 <= j, j < i), And(okat(x, W, j), W[j + 1] == nxt(x, W, j))), [W[j]]))

    def inv(L):
        x, r, k, W = L.e.x, L['res'], L['i'], L['W']
        s = the_stream(x, L.st)
        q = [('separator', Or(x['sep'] == 32, x['sep'] == 10)), ('count', And(0 <= k, k <= x[N], r.n == x[N])), ('elements so far', And(W[0] == x['in.pos'], W[k] == s.pos)), ('read one after the other', forall(j, Implies(And(0 <= j, j < k), And(okat(x, W, j), W[j + 1] == nxt(x, W, j))), [W[j]])),
             ('results so far', forall(j, Implies(And(0 <= j, j < k), value(x, W[j], r, j)), [W[j]])), inv_ok(x, L.st)]
        lg = L.st.g.get('logged', ())
        if log and L.head is not None:
            e = log(x, W[L.head['i']])
            q.append(('the constraint sees the bounds and the value', And([a == b for a, b in zip(lg[0], e)]) if len(lg) == 1 else BoolVal(False)))
        elif L.head is not None: q.append(('nothing is logged', BoolVal(not lg)))
        return q
    lp = LoopSpec(fnrx, 0, {'res': ('vec', 'res', 'result', 'out'), 'i': ('u64', 'i', 'k', 'j')}, inv, name='read', variant=lambda L: L.e.x[N] - L['i'],
                  ghosts={'W': (lambda L: Store(z3.K(IntSort(), IntVal(0)), 0, L.e.x['in.pos']), lambda H, B: Store(H['W'], H['i'] + 1, the_stream(B.e.x, B.st).pos))})

    def post(x, o):
        if o.kind == 'throw': return [('only an invalid separator throws', And(x['sep'] != 32, x['sep'] != 10, BoolVal(o.val == 'std::invalid_argument')))]
        if o.kind == 'exit':
            H, W = o.st.g.get('head_read'), o.st.g.get('ghost_W')
            r = [('exits with the verdict of the stream', x.e.S(o.st, o.val) == x['code'])]
            if H is None: return r + [('rejected only inside the reading loop', BoolVal(False))]
            k = H['i']
            return r + [('rejected only when an element or separator is wrong', And(0 <= k, k < x[N], Not(okat(x, W, k)))), ('everything before was accepted', seq(x, W, k))]
        if o.kind != 'ret': return None
        v, W = o.vec('res'), o.st.g['ghost_W']
        s = the_stream(x, o.st)
        return [('separator valid', Or(x['sep'] == 32, x['sep'] == 10)), ('exactly n elements', v.n == x[N]), ('elements are read one after the other, with one separator in between and none at the end', seq(x, W, x[N])), ('nothing else is consumed', s.pos == W[x[N]]),
                ('the results are the elements in order', forall(j, Implies(And(0 <= j, j < v.n), value(x, W[j], v, j))))]
    return Target(name, entry, setup, post, loops=[lp], models=models, expects=('ret', 'exit', 'throw'), under=[name])
