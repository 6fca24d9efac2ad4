from spec import *
from iom import *
DRIVER = 'c02.cpp'
FINDER = 'c02.cpp'


def stream_setup(x):
    istream(x)
    x.bool('ss'), x.bool('cs')
    ostr(x)
    x.s32('code')


def stream_inv(x, st):
    s = the_stream(x, st)
    return [('flags only at the end of the input', And(Implies(Or(s.flag(EOFB), s.flag(FAILB)), s.pos == LEN), 0 <= s.pos, s.pos <= LEN))]


def targets():
    T = []
    i = Int('i')
    FAIL = [(r'^InputStream::fail\(\)', fail_contract(lambda c: IV(z3.Int('code'), 32, 'S')))]

    def ws_from(a, b): return forall(i, Implies(And(a <= i, i < b), space(Select(INP, i))))
    def rest_ws(p): return forall(i, Implies(And(p <= i, i < LEN), space(Select(INP, i))))

    def post(accept, after):
        def f(x, o):
            s = the_stream(x, o.st)
            p = x['in.pos']
            if o.kind == 'exit': return [('rejected only when required', Not(accept(x, p))), ('exits with the verdict of the stream', x.e.S(o.st, o.val) == x['code'])]
            if o.kind != 'ret': return None
            return [('accepted only when allowed', accept(x, p))] + [(n, g) for n, g in after(x, o, p, s)] + stream_inv(x, o.st)
        return f
    strict = lambda x: x['ss']
    # the rest of the input, as far as the stream looks at it
    end = lambda x, p: If(x['ss'], p == LEN, rest_ws(p))
    M = FAIL + IO
    T.append(Target('InputStream::eof', 'd_eof', stream_setup, post(end, lambda x, o, p, s: [('everything is consumed', s.pos == LEN)]), models=M, expects=('ret', 'exit'), under=['InputStream::eof']))
    T.append(Target('InputStream::noteof', 'd_noteof', stream_setup, post(lambda x, p: Not(end(x, p)), lambda x, o, p, s: [('at most white space is skipped', And(p <= s.pos, ws_from(p, s.pos), Implies(x['ss'], s.pos == p)))]), models=M, expects=('ret', 'exit'), under=['InputStream::noteof']))
    for nm, ch in (('space', 32), ('newline', 10)):
        T.append(Target('InputStream::' + nm, 'd_' + nm, stream_setup, post(lambda x, p, ch=ch: Implies(x['ss'], And(p < LEN, Select(INP, p) == ch)), lambda x, o, p, s: [('exactly this character is consumed, nothing when white space is ignored', s.pos == If(x['ss'], p + 1, p))]),
                        models=M, expects=('ret', 'exit'), under=['InputStream::' + nm]))

    def sets(x):
        x.out('res', STRING)
        stream_setup(x)

    def posts(x, o):
        s = the_stream(x, o.st)
        p = x['in.pos']
        ok = If(x['ss'], And(p < LEN, graph(Select(INP, p))), Not(rest_ws(p)))
        if o.kind == 'exit': return [('rejected only when required', Not(ok)), ('exits with the verdict of the stream', x.e.S(o.st, o.val) == x['code'])]
        if o.kind != 'ret': return None
        v = o.vec('res')
        q = s.pos
        b = q - v.n
        c = Select(INP, b + i)
        return [('accepted only when allowed', ok), ('the token is what was consumed after white space', And(v.n >= 1, p <= b, ws_from(p, b), Implies(x['ss'], b == p))),
                ('no white space inside the token', forall(i, Implies(And(0 <= i, i < v.n), Not(space(c))))), ('the token is maximal', Implies(q < LEN, space(Select(INP, q)))),
                ('the characters of the input, in lower case unless case sensitive', forall(i, Implies(And(0 <= i, i < v.n), v.at(i) == If(x['cs'], c, fold(c)))))] + stream_inv(x, o.st)
    T.append(Target('InputStream::string', 'd_string', sets, posts, models=M, expects=('ret', 'exit'), under=['InputStream::string']))
    return T


ASSUMPTIONS = ['the standard streams are used in the "C" locale; the underlying buffer delivers a finite character sequence']
