from spec import *
from iom import *
DRIVER = 'c01.cpp'
FINDER = 'c01.cpp'


def targets():
    T = []
    only = lambda x, o: [('ends the program with exactly the exit code of the verdict', x.e.S(o.st, o.val) == x['code'])] if o.kind == 'exit' else None

    def sos(x):
        os = x.e.new_obj(x.st, 'stream', None, 300, lazy=True)
        x.args.append(CP(os, 0))
        x.s32('code')

    def sout(x):
        ostr(x)
        x.s32('code')
    T.append(Target('Verdict::exit', 'd_exit', lambda x: x.s32('code'), only, models=IO, expects=('exit',), under=['Verdicts::Verdict::exit']))
    T.append(Target('ostream << Verdict', 'd_os', sos, only, models=IO, expects=('exit',), under=['Verdicts::operator<<']))
    T.append(Target('OutputStream << Verdict', 'd_out', sout, only, models=IO, expects=('exit',), under=['OutputStream::operator<<']))
    for nm, en, v in (('AC', 'd_ac', 42), ('WA', 'd_wa', 43), ('PE', 'd_pe', 43), ('FAIL', 'd_fl', 1)):
        T.append(Target('verdict ' + nm, en, lambda x: None, lambda x, o, v=v: [('exit code', o.s() == v)] if o.kind == 'ret' else None))

    # ---- the failing read: find the position, print the context, exit
    def setup(x):
        istream(x)
        x.bool('ss'), x.bool('cs')
        ostr(x)
        x.s32('code')
        x.env['seekable'] = z3.Bool('seekable')

    def inv(L):
        x = L.e.x
        s = the_stream(x, L.st)
        l, r, b, ln, o = L['l'], L['r'], L['buf'], L['line'], L['orig']
        return [('position', And(0 <= s.pos, s.pos <= LEN, Implies(Or(s.flag(EOFB), s.flag(FAILB)), s.pos == LEN))), ('target position', And(0 <= o, o <= LEN)),
                ('marks', And(0 <= l, Or(l == r, And(l < r, r <= b.n, s.good(), s.pos >= o)))), ('size of the excerpt', And(0 <= b.n, b.n <= s.pos + If(s.flag(FAILB), 1, 0))), ('line counter', And(1 <= ln, ln <= s.pos + 1))]
    lp = LoopSpec(r'^InputStream::fail\b', 0, {'l': ('u64', 'l'), 'r': ('u64', 'r'), 'buf': ('vec', 'buffer'), 'line': ('s64', 'line'), 'orig': ('s64', 'originalPos', 'originalPos._M_off')}, inv, name='scan',
                  variant=lambda L: LEN - the_stream(L.e.x, L.st).pos + If(the_stream(L.e.x, L.st).flag(FAILB), 0, 1))

    def inv2(L):
        x = L.e.x
        s = the_stream(x, L.st)
        b, o = L['buf'], L.old('buf')
        return [('position', And(0 <= s.pos, s.pos <= LEN, Implies(Or(s.flag(EOFB), s.flag(FAILB)), s.pos == LEN))), ('only grows', And(b.n >= o.n, b.n <= o.n + s.pos))]
    l2 = LoopSpec(r'^InputStream::fail\b', 1, {'buf': ('vec', 'buffer')}, inv2, name='extend', variant=lambda L: LEN - the_stream(L.e.x, L.st).pos)
    T.append(Target('InputStream::fail', 'd_fail', setup, only, loops=[lp, l2], models=IO, expects=('exit',), under=['InputStream::fail']))
    return T


ASSUMPTIONS = ['the standard streams are used in the "C" locale; the underlying buffer delivers a finite character sequence and either supports or rejects positioning']
