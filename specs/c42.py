from spec import *
import envm
from envm import *
DRIVER = 'c42.cpp'
FINDER = 'c42.cpp'
FLAGS = ('-fno-access-control',)
FINDER_FLAGS = ['-fno-access-control']
R80 = ('fp', FP)
MM = envm.FILES + envm.M


def targets():
    T = []

    def setup(x):
        start(x)
        x.st.g['parsed'] = 2
        x.raw('r', size=96)
        x.bool('done')
        x.real('a'); x.real('b')
        x.assume(And(0 <= z3.Int('number in in arg 3/.pass'), z3.Int('number in in arg 3/.pass') < I64MAX))

    def post(x, o):
        e, st = o.e, o.st
        ex, P = z3.Bool('exists arg 3/.pass'), z3.Int('number in in arg 3/.pass')
        odd = And(ex, (P + 1) % 2 == 1)
        prev = lambda k: opens('in arg 3/.state%d' % k)
        nxt = lambda k: opens('out arg 3/.state%d' % k)
        bad = Or(Not(x['done']), missing(3), And(odd, Not(And(prev(0), nxt(1)))), And(Not(odd), Or(And(ex, Not(prev(1))), Not(nxt(0)))))
        if o.kind == 'throw': return [('an exception only before init or for unusable files', bad)]
        if o.kind != 'ret': return None
        g = lambda off: o.mem('r', off, I64)
        b = lambda off: (lambda v: v if z3.is_bool(v) else e.scalar_to(st, ('b',), v))(o.mem('r', off, I8))
        nm = lambda v: NAMES[v.c] if v.c is not None and v.c < len(NAMES) else '?'
        r = [('unusable files are rejected', Not(bad)), ('number of the pass', e.S(st, g(0)) == If(ex, P + 1, 0))]
        n = nm(g(16))
        r += [('next state is kept in .state0 in even passes and in .state1 in odd ones', And(BoolVal(n in ('out arg 3/.state0', 'out arg 3/.state1')), odd == BoolVal(n.endswith('1')))),
              ('only the old file of the next state is removed', BoolVal(all(k == (n[4:], False) for k in st.g.get('removed', ())))),
              ('output for the next pass is collected', And(e.S(st, g(24)) == 1, b(80)))]
        w = st.g.get(('written', 'arg 3/.pass'))
        r += [('the number of the pass is stored', BoolVal(w is not None and len(w) == 1) if w is None or len(w) != 1 else w[0] == If(ex, P + 1, 0))]
        pv = nm(g(8))
        r += [('previous state is read from the second pass on', And(ex == BoolVal(pv.startswith('in ')), Implies(ex, BoolVal(pv == 'in arg 3/.state%d' % (0 if n.endswith('1') else 1)))))]
        if pv.startswith('in '):
            r += [('previous state: mode and verdict', And(Not(b(32)), b(33), b(34), b(35), e.S(st, o.mem('r', 36, ('int', 32))) == 1)), ('previous state: tolerances', And(o.mem('r', 48, R80).t == x['a'], o.mem('r', 64, R80).t == x['b']))]
        return r
    T.append(Target('Multipass::init', 'd_init', setup, post, models=MM, under=['Multipass::init', 'InputStream::InputStream', 'OutputStream::OutputStream'], expects=('ret', 'throw')))

    for en in ('d_next', 'd_next_os'):
        def s_next(x, en=en):
            start(x)
            x.st.g['parsed'] = 2
            if en == 'd_next_os': x.raw('os', size=300)

        def p_next(x, o):
            if o.kind == 'throw': return [('only without argument or file', Or(missing(3), Not(opens('out arg 3/nextpass.in'))))]
            w = o.st.g.get(('written', 'arg 3/nextpass.in'))
            if w is None or len(w) != 1 or not isinstance(w[0], tuple): ok = BoolVal(False)
            else: ok = And(w[0][0] == Int('buffer.0'), w[0][1] == z3.Const('buffer.1', w[0][1].sort()))
            return [('NEXT ends the program', BoolVal(o.kind == 'exit')), ('exit code 42', o.e.S(o.st, o.val) == 42 if o.kind == 'exit' else BoolVal(False)), ('nextpass.in holds exactly what was written for the next pass', ok)]
        T.append(Target('Multipass::NEXT' + ('(ostream&)' if en != 'd_next' else ''), en, s_next, p_next, models=MM, under=['Multipass::NEXT'], expects=('exit', 'throw')))
    return T
