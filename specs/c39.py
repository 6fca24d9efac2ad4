from spec import *
import models, z3
from vals import *
import c09
DRIVER = 'c39.cpp'
FINDER = 'c39.cpp'
I = IntSort()
I64, I8, PTR = ('int', 64), ('int', 8), ('ptr',)
FP = 'x86_fp80'
PIECES = 'std::vector<std::pair<long, long>, std::allocator<std::pair<long, long> > >'
VI, VR, VS = 'std::vector<long, std::allocator<long> >', 'std::vector<long double, std::allocator<long double> >', c09.VECS
CHAR, INT, REALK, TEXTK = 0, 1, 2, 3


def rid(e, t): return Function('text_of_real', e.fsort(FP), I)(t)


def sink(e, st, p):
    mt = e.types.mt(PIECES)
    return mt, e.rd_cont(st, p, mt)


def put(c, kind, t):
    """one more piece of output"""
    e, st = c.e, c.st
    p = c.args[0]
    mt, cs = sink(e, st, p)
    e.wr_cont(st, p, mt, [z3.simplify(cs[0] + 1), z3.Store(cs[1], cs[0], z3.IntVal(kind)), z3.Store(cs[2], cs[0], t)])
    return p


def m_char(c): return put(c, CHAR, c.e.S(c.st, c.args[1]))
def m_long(c): return put(c, INT, c.e.S(c.st, c.args[1]))
def m_real(c): return put(c, REALK, rid(c.e, c.args[1].t))
def m_text(c): return put(c, TEXTK, c09.geth(c09_call(c), c.args[1]))


class c09_call:
    def __init__(self, c): self.e, self.st = c.e, c.st


def m_view(c):
    """a view of at most one character"""
    e, st = c.e, c.st
    n = z3.simplify(e.S(st, c.args[1]))
    if not z3.is_int_value(n) or n.as_long() > 1: raise Unsupported('view of unknown length is written')
    if n.as_long() == 0: return c.args[0]
    return put(c, CHAR, e.S(st, e.load(st, c.args[2], I8)))


OS = r'std::basic_ostream<char, std::char_traits<char> ?>'
OUT = [(r'^%s& std::operator<< <.*>\(%s&, char\)' % (OS, OS), m_char), (r'^%s::operator<<\(long\)' % OS, m_long), (r'^%s::operator<<\(long double\)' % OS, m_real),
       (r'^%s& std::operator<< <char, std::char_traits<char>, std::allocator<char> ?>\(' % OS, m_text), (r'^%s& std::operator<< <char, std::char_traits<char> ?>\(%s&, std::basic_string_view' % (OS, OS), m_view)]


def targets():
    T = []
    i = Int('i')

    def os_(x):
        e, st = x.e, x.st
        mt = e.types.mt(PIECES)
        oid = e.new_obj(st, 'sink', None, 272)
        comps = tuple(z3.Const('sink.%d' % k, s) for k, s in enumerate(e.comps(mt)))
        st.wobj(oid).ghost[0] = (mt, comps)
        e.cont_facts(st, mt, comps)
        p = x.raw('os', size=16, lazy=False)
        e.store(st, p, NULL, PTR)
        e.store(st, CP(p.obj, 8), CP(oid, 0), PTR)
        x.env['sink'] = View(e, st, CP(oid, 0), mt, comps)
        x.env['sinkp'] = CP(oid, 0)
        x.assume(comps[0] < 1 << 50)

    def after(x, st):
        p = x['sinkp']
        mt, cs = sink(x.e, st, p)
        return View(x.e, st, p, mt, cs)

    def old(x, s):
        b = x['sink']
        return forall(i, Implies(And(0 <= i, i < b.n), And(s.at(i) == b.at(i), s.at(i, 8) == b.at(i, 8))), [s.at(i)])

    def val(x, kind, v, k):
        t = v.at(k)
        return rid(x.e, t) if kind == REALK else t

    def written(x, s, v, kind, a, k, sep):
        """the elements a .. a + k of v, with separators"""
        b = x['sink'].n
        withs = sep != 0
        pos = lambda j: If(withs, b + 2 * j, b + j)
        return [('length', s.n == b + If(k == 0, 0, If(withs, 2 * k - 1, k))), ('written before', old(x, s)),
                ('the elements in order', forall(i, Implies(And(0 <= i, i < k), And(s.at(pos(i)) == kind, s.at(pos(i), 8) == val(x, kind, v, a + i))))),
                ('one separator between neighbours', Implies(withs, forall(i, Implies(And(1 <= i, i < k), And(s.at(b + 2 * i - 1) == CHAR, s.at(b + 2 * i - 1, 8) == sep)))))]

    def loop(kind):
        def inv(L):
            e, st = L.e, L.st
            x = e.x
            a, b = x.env['from'](x), x.env['to'](x)
            k = L['it'] - a
            return [('position', And(0 <= k, k <= b - a))] + written(x, after(x, st), x['v'], kind, a, k, x.env['sepv'])
        return LoopSpec(r'OutputStream& OutputStream::join<', 0, {'it': ('cur', 'it', 'first', 'cur')}, inv, name='elements', variant=lambda L: L.e.x.env['to'](L.e.x) - L['it'])

    def setup(cpp, ab, sep):
        def f(x):
            if cpp == VS: c09.handles(x)
            os_(x)
            v = x.vec('v', cpp)
            x.assume(v.n < 1 << 50)
            if cpp == VS: x.assume(forall(i, And(0 <= v.at(i), v.at(i) < c09.H), [v.at(i)]))
            x.env['from'], x.env['to'] = lambda x: IntVal(0), lambda x: x['v'].n
            if ab:
                a, b = x.s64('a'), x.s64('b')
                x.assume(And(0 <= a, a <= b, b <= v.n))
                x.env['from'], x.env['to'] = lambda x: x['a'], lambda x: x['b']
            x.env['sepv'] = x.s8('sep') if sep else IntVal(32)
        return f

    def post(kind):
        def f(x, o):
            if o.kind != 'ret': return [('no exception', BoolVal(False))]
            a, b = x.env['from'](x), x.env['to'](x)
            return written(x, after(x, o.st), x['v'], kind, a, b - a, x.env['sepv'])
        return f
    for nm, en, cpp, kind, ab, sep, u in (('join(first, last, separator)', 'd_range', VI, INT, True, True, 'OutputStream::join'), ('join of strings', 'd_strings', VS, TEXTK, False, True, 'OutputStream::join'),
                                          ('join of reals', 'd_reals', VR, REALK, False, True, 'OutputStream::join'), ('<< vector', 'd_vec', VI, INT, False, False, 'OutputStream::operator<<'),
                                          ('<< join(first, last, separator)', 'd_jrange', VI, INT, True, True, 'join(first, last)'), ('<< join(container, separator)', 'd_jvec', VI, INT, False, True, 'join(container)'),
                                          ('<< join(container)', 'd_jdef', VI, INT, False, False, 'join(container)')):
        T.append(Target(nm, en, setup(cpp, ab, sep), post(kind), loops=[loop(kind)], models=OUT, under=[u, 'details::TempWriter'] if '<< join' in nm else [u]))

    # fixed numbers of elements
    def s_fix(spec, sep):
        def f(x):
            os_(x)
            for n, k in spec: {INT: x.s64, REALK: x.real, CHAR: x.s8}[k](n)
            if sep: x.s8('sep')
        return f

    def exact(x, st, pieces):
        """pieces: (condition, kind, term)"""
        s, b = after(x, st), x['sink'].n
        r = [('written before', old(x, s))]
        n = b
        for c, kind, t in pieces:
            r.append(('piece', Implies(c, And(s.at(n) == kind, s.at(n, 8) == t))))
            n = n + If(c, 1, 0)
        return r + [('nothing else', s.n == n)]

    def p_fix(spec, sep, between=True):
        def f(x, o):
            if o.kind != 'ret': return [('no exception', BoolVal(False))]
            sp = x['sep'] if sep else IntVal(32)
            pcs = []
            for j, (n, k) in enumerate(spec):
                if j and between: pcs.append((sp != 0 if sep else BoolVal(True), CHAR, sp))
                pcs.append((BoolVal(True), k, rid(o.e, x[n]) if k == REALK else x[n]))
            return exact(x, o.st, pcs)
        return f
    A, B, C = ('a', INT), ('b', REALK), ('c', INT)
    for nm, en, spec, sep, bt, u in (('<< pair', 'd_pair', (A, B), False, True, 'OutputStream::operator<<(pair)'), ('<< tuple', 'd_tuple', (A, B, ('c', CHAR), ('d', INT)), False, True, 'OutputStream::operator<<(tuple)'),
                                     ('join of a tuple', 'd_tuplesep', (A, B, C), True, True, 'OutputStream::join(tuple)'), ('<< nested pair', 'd_nested', (A, ('b', INT), C), False, True, 'OutputStream::operator<<(pair)'),
                                     ('<< scalars', 'd_single', (A, ('c', CHAR), ('r', REALK)), False, False, 'OutputStream::operator<<'),
                                     ('<< join(tuple, separator)', 'd_jtuple', (A, B, C), True, True, 'join(tuple)'), ('<< join(pair)', 'd_jpair', (A, B), False, True, 'join(tuple)')):
        T.append(Target(nm, en, s_fix(spec, sep), p_fix(spec, sep, bt), models=OUT, under=[u]))
    T.append(Target('<< array', 'd_array', s_fix((A, ('b', INT), C), False), p_fix((A, ('b', INT), C), False), models=OUT, unroll=5, under=['OutputStream::operator<<']))
    return T


ASSUMPTIONS = ['writing a character, an integer, a real or a string to a std::ostream appends its text (one piece of output each); texts of numbers are not interpreted']
