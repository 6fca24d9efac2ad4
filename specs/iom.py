"""contracts of the C++ streams: an input stream is a sequence of characters, a position and the eof/fail/skipws flags"""
from spec import *
import models, re
POS, EOFB, FAILB, SKIP = 400, 408, 409, 410
INP = z3.Const('input', z3.ArraySort(IntSort(), IntSort()))     # characters as signed char
LEN = Int('input.n')


def uns(c): return If(c < 0, c + 256, c)
def space(c): return Or(c == 32, And(9 <= c, c <= 13))           # ctype<char> and isspace of the "C" locale
def graph(c): return And(33 <= c, c <= 126)
def fold(c): return If(And(65 <= c, c <= 90), c + 32, c)


def istream(x, n='in'):
    """istream argument in a state that satisfies the stream invariant (eof/fail only at the end of the input)"""
    e, st = x.e, x.st
    vt = e.new_obj(st, 'vtable.' + n, None, 64)
    e.store(st, CP(vt, 0), e.const(16, 64), ('int', 64))
    oid = e.new_obj(st, n, None, 600, lazy=True)
    p = CP(oid, 0)
    e.store(st, p, CP(vt, 24), ('ptr',))
    t = z3.Int(n + '.pos')
    st.assume(And(0 <= t, t <= LEN, LEN < 1 << 59))
    e.store(st, CP(oid, POS), IV(t, 64, 'S'), ('int', 64))
    for k, off in (('eof', EOFB), ('fail', FAILB)):
        b = z3.Bool('%s.%s' % (n, k))
        st.assume(Implies(b, t == LEN))
        e.store(st, CP(oid, off), e.b2i(b, 8), ('int', 8))
    e.store(st, CP(oid, SKIP), e.b2i(z3.Bool(n + '.skipws'), 8), ('int', 8))
    x.args.append(p)
    x.ptrs[n] = (p, None)
    x.env[n] = p
    x.env[n + '.pos'] = t
    i = Int('i!inp')
    st.assume(ForAll([i], And(-128 <= Select(INP, i), Select(INP, i) <= 127), patterns=[Select(INP, i)]))
    return p


class IS:
    """view of a stream object"""

    def __init__(s, e, st, p):
        if not isinstance(p, CP): raise Unsupported('stream pointer %r' % (p,))
        if p.off == 16: p = CP(p.obj, 0)        # virtual base
        s.e, s.st, s.o = e, st, p.obj
        if CP(p.obj, 0) != p or st.mem.get(p.obj) is None or POS not in st.mem[p.obj].cells: raise Unsupported('not a modelled input stream')

    @property
    def pos(s): return s.e.S(s.st, s.e.load(s.st, CP(s.o, POS), ('int', 64)))
    @pos.setter
    def pos(s, t):
        s.e.store(s.st, CP(s.o, POS), IV(z3.simplify(t), 64, 'S'), ('int', 64))

    def flag(s, off): return s.e.scalar_to(s.st, ('b',), s.e.load(s.st, CP(s.o, off), ('int', 8)))
    def setf(s, off, b): s.e.store(s.st, CP(s.o, off), s.e.b2i(z3.simplify(b), 8), ('int', 8))
    def good(s): return Not(Or(s.flag(EOFB), s.flag(FAILB)))
    def at_end(s): return s.pos >= LEN


def the_stream(x, st, n='in'): return IS(x.e, st, x.ptrs[n][0])


def m_peek(c):
    e, st = c.e, c.st
    s = IS(e, st, c.args[0])
    g, end, p = s.good(), s.at_end(), s.pos
    r = e.fint('peek')
    st.assume(r == If(And(g, Not(end)), uns(Select(INP, p)), -1))
    st.assume(And(-1 <= r, r <= 255))
    s.setf(FAILB, Or(s.flag(FAILB), Not(g)))
    s.setf(EOFB, Or(s.flag(EOFB), And(g, end)))
    return IV(r, 32, 'S')


def m_get(c):
    e, st = c.e, c.st
    s = IS(e, st, c.args[0])
    g, end, p = s.good(), s.at_end(), s.pos
    ok = And(g, Not(end))
    r = e.fint('get')
    st.assume(r == If(ok, uns(Select(INP, p)), -1))
    st.assume(And(-1 <= r, r <= 255))
    s.setf(FAILB, Not(ok))
    s.setf(EOFB, Or(s.flag(EOFB), And(g, end)))
    s.pos = If(ok, p + 1, p)
    return IV(r, 32, 'S')


def m_getc(c):
    """get(char&)"""
    e, st = c.e, c.st
    s = IS(e, st, c.args[0])
    g, end, p = s.good(), s.at_end(), s.pos
    ok = And(g, Not(end))
    old = e.load(st, c.args[1], ('int', 8))
    t = e.fint('getc')
    st.assume(Implies(ok, t == Select(INP, p)))
    st.assume(And(-128 <= t, t <= 127))
    e.store(st, c.args[1], IV(t, 8, 'S'), ('int', 8))
    s.setf(FAILB, Not(ok))
    s.setf(EOFB, Or(s.flag(EOFB), And(g, end)))
    s.pos = If(ok, p + 1, p)
    return c.args[0]


def skip(e, st, s, cond):
    """position after the white space at the current position (if cond)"""
    p = s.pos
    q = e.fint('ws')
    i = Int('i!ws')
    st.assume(And(p <= q, q <= LEN, ForAll([i], Implies(And(p <= i, i < q), space(Select(INP, i))), patterns=[Select(INP, i)])))
    st.assume(If(cond, Implies(q < LEN, Not(space(Select(INP, q)))), q == p))
    s.pos = q
    return q


def m_manip(c):
    e, st = c.e, c.st
    s = IS(e, st, c.args[0])
    f = c.args[1]
    nm = e.mod.dem(f.name) if isinstance(f, FnP) else ''
    if re.search(r'std::noskipws', nm): s.setf(SKIP, BoolVal(False)); return c.args[0]
    if re.search(r'std::skipws', nm): s.setf(SKIP, BoolVal(True)); return c.args[0]
    if re.search(r'\bstd::ws<', nm) or re.search(r'std::basic_istream<.*>& std::ws<', nm):
        g = s.good()
        q = skip(e, st, s, g)
        s.setf(EOFB, Or(s.flag(EOFB), And(g, q >= LEN)))
        s.setf(FAILB, Or(s.flag(FAILB), Not(g)))
        return c.args[0]
    raise Unsupported('stream manipulator %s' % nm)


def m_extract(c):
    """operator>>(istream&, std::string&)"""
    e, st = c.e, c.st
    s = IS(e, st, c.args[0])
    g = s.good()
    T = e.types.mt(STRING)
    b = skip(e, st, s, And(g, s.flag(SKIP)))
    ok = And(g, b < LEN)
    old = e.rd_cont(st, c.args[1], T)
    q = e.fint('tok')
    i = Int('i!tok')
    st.assume(And(b <= q, q <= LEN, ForAll([i], Implies(And(b <= i, i < q), Not(space(Select(INP, i)))), patterns=[Select(INP, i)])))
    st.assume(If(ok, Implies(q < LEN, space(Select(INP, q))), q == b))
    a = e.fresh('tok', z3.ArraySort(IntSort(), IntSort()))
    st.assume(ForAll([i], Implies(And(0 <= i, i < q - b), Select(a, i) == Select(INP, i + b)), patterns=[Select(a, i)]))
    e.wr_cont(st, c.args[1], T, (z3.simplify(If(ok, q - b, old[0])), If(ok, a, old[1])))
    s.pos = q
    s.setf(EOFB, Or(s.flag(EOFB), And(g, q >= LEN)))
    s.setf(FAILB, Or(s.flag(FAILB), Not(g), q == b))
    return c.args[0]


def m_exit(c): return [(c.st, 'exit', c.args[0])]


def m_bool(c):
    """basic_ios::operator bool: no failure"""
    return Not(IS(c.e, c.st, c.args[0]).flag(FAILB))


def seekable(c): return c.e.x.env.get('seekable', BoolVal(True))


def m_clear(c):
    s = IS(c.e, c.st, c.args[0])
    f = c.e.S(c.st, c.args[1])
    if not z3.is_int_value(z3.simplify(f)): raise Unsupported('clear with a symbolic state')
    f = z3.simplify(f).as_long()
    s.setf(EOFB, BoolVal(bool(f & 2)))
    s.setf(FAILB, BoolVal(bool(f & 5)))
    return None


def m_tellg(c):
    """the sentry fails on a stream that is not good; -1 then, and when the buffer cannot be positioned"""
    e, st = c.e, c.st
    s = IS(e, st, c.args[0])
    ok = s.good()
    s.setf(FAILB, Or(s.flag(FAILB), Not(ok)))
    r = e.fint('tellg')
    st.assume(r == If(And(ok, seekable(c)), s.pos, -1))
    e.bounded(st, r, -1, 1 << 59)
    return [IV(r, 64, 'S'), IV(z3.IntVal(0), 64, 'B')]


def m_seekg(c):
    e, st = c.e, c.st
    s = IS(e, st, c.args[0])
    k = e.S(st, c.args[1])
    ok = And(Not(s.flag(FAILB)), seekable(c), 0 <= k, k <= LEN)
    s.setf(EOFB, BoolVal(False))
    s.pos = If(ok, k, s.pos)
    s.setf(FAILB, Not(ok))
    return c.args[0]


def ostr(x, n='out'):
    """OutputStream argument with an underlying stream"""
    e, st = x.e, x.st
    os = e.new_obj(st, 'os.' + n, None, 300, lazy=True)
    oid = e.new_obj(st, n, e.mod.named('class.OutputStream'), None, lazy=True)
    e.store(st, CP(oid, 8), CP(os, 0), ('ptr',))
    e.store(st, CP(oid, 0), NullP(), ('ptr',)) if 'NullP' in globals() else None
    x.args.append(CP(oid, 0))
    x.ptrs[n] = (CP(oid, 0), None)
    return CP(oid, 0)


def m_put(c): return c.args[0]


def fail_contract(code):
    def f(c):
        c.e.contracts_used.add('InputStream::fail')
        return [(c.st, 'exit', code(c))]
    return f


def m_default_case(c):
    """toDefaultCase(std::string&): every upper case letter is replaced by its lower case letter (contract proved in C08)"""
    e, st = c.e, c.st
    e.contracts_used.add('toDefaultCase')
    T = e.types.mt(STRING)
    n, a = e.rd_cont(st, c.args[0], T)
    b = e.fresh('folded', a.sort())
    i = Int('i!fold')
    st.assume(ForAll([i], Implies(And(0 <= i, i < n), Select(b, i) == fold(Select(a, i))), patterns=[Select(b, i)]))
    e.wr_cont(st, c.args[0], T, (n, b))
    return None


def m_ctype(pred):
    def f(c):
        v = c.e.S(c.st, c.args[0])
        t = c.e.fint('ctype')
        c.e.ub(c.st, 'argument of a character classification', And(-1 <= v, v <= 255))
        c.st.assume((t != 0) == pred(v))
        c.e.bounded(c.st, t, -(1 << 31), (1 << 31) - 1)
        return IV(t, 32, 'S')
    return f


def between(a, b): return lambda c: And(ord(a) <= c, c <= ord(b))
up_, lo_, di_ = between('A', 'Z'), between('a', 'z'), between('0', '9')
CTYPE = {'isgraph': graph, 'isspace': space, 'isupper': up_, 'islower': lo_, 'isdigit': di_, 'isalpha': lambda c: Or(up_(c), lo_(c)), 'isalnum': lambda c: Or(up_(c), lo_(c), di_(c)),
         'isprint': lambda c: And(32 <= c, c <= 126), 'iscntrl': lambda c: And(0 <= c, Or(c < 32, c == 127)), 'isblank': lambda c: Or(c == 32, c == 9), 'ispunct': lambda c: And(graph(c), Not(Or(up_(c), lo_(c), di_(c))))}


IST = r'^std::(?:basic_istream|istream)\b.*?'
OSINS = [(r'^std::basic_ostream<char, std::char_traits<char> >& std::operator<< <.*>\(std::basic_ostream<', m_put), (r'^std::basic_ostream<char, std::char_traits<char> >& std::operator<<', m_put),
         (r'^std::(basic_)?ostream(<.*>)?::operator<<\(', m_put), (r'^std::basic_ostream<.*>& std::(endl|flush)<', m_put), (r'^std::operator<<\(std::basic_ostream<', m_put)]
ISM = [(r'^std::basic_ios<.*>::clear\(', m_clear), (IST + r'::tellg\(\)', m_tellg), (IST + r'::seekg\(std::fpos', m_seekg), (IST + r'::peek\(\)', m_peek), (IST + r'::get\(\)', m_get), (IST + r'::get\(char&\)', m_getc), (IST + r'::operator>>\(std::.*\(\*\)\(std::', m_manip),
       (r'^std::basic_istream<.*>& std::operator>><char|^std::basic_istream<char, std::char_traits<char> >& std::operator>> <char', m_extract), (r'^std::basic_istream<.*>& std::ws<', m_manip),
       (r'^exit$|^quick_exit$|^_exit$|^std::exit', m_exit), (r'^std::basic_ios<.*>::operator bool\(\) const', m_bool), (r'^toDefaultCase\(std::', m_default_case)]
IO = ISM + OSINS + [('^%s$' % k, m_ctype(f)) for k, f in CTYPE.items()]
