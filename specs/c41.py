from spec import *
import envm
from envm import *
DRIVER = 'c41.cpp'
FINDER = 'c41.cpp'
FLAGS = ('-fno-access-control',)
FINDER_FLAGS = ['-fno-access-control']
R80 = ('fp', FP)
TOL, ATOL, RTOL, SPC, CAS, SEED, CFILE = 'float_tolerance', 'float_absolute_tolerance', 'float_relative_tolerance', 'space_change_sensitive', 'case_sensitive', 'command --seed', 'command --constraints_file'


def targets():
    T = []

    def set_(x):
        start(x)
        x.raw('s', size=48)
        e, st = x.e, x.st
        for n, off in (('abs', 0), ('rel', 16)):
            x.env[n] = z3.Const('user ' + n, e.fsort(FP))
            e.store(st, CP(x.ptrs['s'][0].obj, off), FV(x.env[n], FP), R80)
        for n, off in (('space', 32), ('cas', 33)):
            x.env[n] = z3.Bool('user ' + n)
            e.store(st, CP(x.ptrs['s'][0].obj, off), e.b2i(x.env[n], 8), I8)

    def main_args(x):
        n = x._int('argc', 32, 'S')
        x.raw('argv', size=None)

    def bool_at(o, n, off):
        v = o.mem(n, off, I8)
        return v if z3.is_bool(v) else o.e.scalar_to(o.st, ('b',), v)

    def settings(x, o, sens):
        e = x.e
        v = {}
        for n, own in (('abs', ATOL), ('rel', RTOL)):
            v[n] = If(hasval(own), realval(e, own), If(hasval(TOL), realval(e, TOL), x[n]))
        v['space'] = Or(BoolVal(sens), x['space'], has(SPC))
        v['cas'] = Or(BoolVal(sens), x['cas'], has(CAS))
        return v

    def common(x, o, sens, cons, nargs, files):
        e, st = x.e, x.st
        bad = [And(hasval(n), malformed(n)) for n in (TOL, ATOL, RTOL, SEED)] + [And(has(SEED), Not(hasval(SEED)))] + [missing(k) for k in nargs] + [Not(opens(f)) for f in files]
        if cons: bad.append(And(has(CFILE), Not(hasval(CFILE))))
        if o.kind == 'throw': return [('an exception only for unusable arguments or files', Or(bad)), ('kind of exception', BoolVal(o.val in ('std::invalid_argument', 'std::out_of_range', 'std::runtime_error')))]
        if o.kind != 'ret': return None
        v = settings(x, o, sens)
        r = [('init is recorded', bool_at(o, 's', 34)), ('tolerances', And(o.mem('s', 0, R80).t == v['abs'], o.mem('s', 16, R80).t == v['rel'])), ('space sensitivity', bool_at(o, 's', 32) == v['space']), ('case sensitivity', bool_at(o, 's', 33) == v['cas'])]
        s = o.st.g.get('seed', ())
        w = z3.Int('integer value of ' + SEED)
        r += [('the random engine is seeded with the value of --seed, if given', And(has(SEED), s[0] % (1 << 64) == w % (1 << 64)) if len(s) == 1 else And(Not(has(SEED)), BoolVal(not s))),
              ('constraints go to the given file', has(CFILE) == BoolVal(o.st.g.get('logger') == 2)) if cons else ('no constraints', BoolVal('logger' not in o.st.g))]
        r += [('unusable arguments or files are rejected', Not(Or(bad)))]
        return r

    def ins(x, o, n, what, file, space, cas, verdict):
        v = settings(x, o, x.env['sens'])
        sp, cs = (v['space'] if space else BoolVal(False)), v['cas']
        e, st = o.e, o.st
        f = o.mem(n, 0, I64)
        return [(what + ': source', BoolVal(f.c is not None and NAMES[f.c] == file)), (what + ': space sensitivity', And(bool_at(o, n, 8) == sp, bool_at(o, n, 16) == Not(sp))), (what + ': case sensitivity', bool_at(o, n, 9) == cs),
                (what + ': messages go to the jury', bool_at(o, n, 10)), (what + ': verdict', e.S(st, o.mem(n, 12, ('int', 32))) == verdict), (what + ': tolerances', And(o.mem(n, 32, R80).t == v['abs'], o.mem(n, 48, R80).t == v['rel']))]

    def outs(o, n, what, file):
        f = o.mem(n, 0, I64)
        return [(what + ': target and format', BoolVal(f.c is not None and 0 <= f.c < len(NAMES) and NAMES[f.c] == file))]

    DIR = 'arg 3'
    KINDS = {'InputValidator': ('d_input', True, True, [], [('testIn', 'stdin', True, 43)], [('juryOut', 'stdout')]),
             'AnswerValidator': ('d_answer', True, True, [1], [('testIn', 'in arg 1', False, 1), ('ans', 'stdin', True, 43)], [('juryOut', 'stdout')]),
             'OutputValidator': ('d_output', False, True, [1, 2, 3], [('testIn', 'in arg 1', False, 1), ('juryAns', 'in arg 2', False, 1), ('teamAns', 'stdin', True, 43)], [('juryOut', 'out arg 3/judgemessage.txt'), ('teamOut', 'out arg 3/teammessage.txt')]),
             'Interactor': ('d_interactor', False, False, [1, 3], [('testIn', 'in arg 1', False, 1), ('fromTeam', 'stdin', True, 43)], [('juryOut', 'out arg 3/judgemessage.txt'), ('teamOut', 'out arg 3/teammessage.txt'), ('toTeam', 'stdout')]),
             'Generator': ('d_generator', False, False, [], [], [('juryOut', 'stderr'), ('testOut', 'stdout')])}
    for nm, (en, sens, cons, nargs, I, O_) in KINDS.items():
        def setup(x, I=I, O_=O_, sens=sens):
            set_(x)
            x.env['sens'] = sens
            for k in I: x.raw(k[0], size=64)
            for k in O_: x.raw(k[0], size=8)
            main_args(x)

        def post(x, o, sens=sens, cons=cons, nargs=nargs, I=I, O_=O_):
            r = common(x, o, sens, cons, nargs, [k[1] for k in I + O_ if ' ' in k[1]])
            if o.kind != 'ret': return r
            for n, f, sp, ver in I: r += ins(x, o, n, n, f, sp, None, ver)
            for n, f in O_: r += outs(o, n, n, f)
            return r
        T.append(Target(nm + '::init', en, setup, post, models=envm.M, under=[nm + '::init', 'ValidateBase::details::init', 'InputStream::InputStream', 'OutputStream::OutputStream', 'initConstraints'], expects=('ret', 'throw')))
    T.append(Target('init twice', 'd_twice', lambda x: (set_(x), main_args(x)), lambda x, o: [('a second init is rejected', BoolVal(o.kind == 'throw' and o.val == 'std::logic_error'))], models=envm.M, under=['ValidateBase::details::init', 'details::initialized'], expects=('throw',)))
    T.append(Target('details::initialized', 'd_initialized', start, lambda x, o: [('reports exactly whether it was set before', o.b())] if o.kind == 'ret' else None, under=['details::initialized']))

    def s_set(real):
        def f(x):
            set_(x)
            x.real('v') if real else x.bool('v')
            x.bool('second'); x.bool('after')
        return f

    def p_set(real):
        def f(x, o):
            if o.kind == 'throw': return [('only after init', And(x['after'], BoolVal(o.val == 'std::logic_error')))]
            if o.kind != 'ret': return None
            v, s = x['v'], x['second']
            ab, rl, sp, cs = x['abs'], x['rel'], x['space'], x['cas']
            if real: ab, rl = If(s, ab, v), If(s, v, rl)
            else: sp, cs = If(s, sp, v), If(s, v, cs)
            return [('not after init', Not(x['after'])), ('exactly this setting changes', And(o.mem('s', 0, R80).t == ab, o.mem('s', 16, R80).t == rl, bool_at(o, 's', 32) == sp, bool_at(o, 's', 33) == cs))]
        return f
    for real in (True, False):
        T.append(Target('change of a %s setting' % ('real' if real else 'Boolean'), 'd_real' if real else 'd_bool', s_set(real), p_set(real), models=envm.M, under=['SettingBase::operator='], expects=('ret', 'throw')))
    return T
