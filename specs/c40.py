from spec import *
import rx
DRIVER = 'c40.cpp'
FINDER = 'c40.cpp'
FLAGS = ('-fno-access-control',)
FINDER_FLAGS = ['-fno-access-control']
FP = 'x86_fp80'


def FE(e):
    s = e.fsort(FP)
    return Function('floatEqual', s, s, s, s, BoolSort())


def m_eq(c):
    """contract of details::floatEqual (C07): a predicate of its four arguments"""
    e = c.e
    return FE(e)(*[v.t for v in c.args])


M = [(r'details::floatEqual\(', m_eq)]


def targets():
    T = []
    I64, BY = ('int', 64), ('int', 8)

    def fields(x, real, init):
        e, st = x.e, x.st
        w = 16 if real else 8
        oid = e.new_obj(st, 's', None, 96 if real else 40, lazy=True)
        offs = dict(hadMin=0, hadMax=1, **{n: (16 if real else 8) + w * i for i, n in enumerate(('min', 'max', 'lower', 'upper'))})
        x.env['offs'] = offs
        for n in ('hadMin', 'hadMax'):
            b = z3.Bool(n)
            x.env[n] = b
            if init: e.store(st, CP(oid, offs[n]), e.b2i(b, 8), BY)
        for n in ('min', 'max', 'lower', 'upper'):
            if real:
                t = z3.Const('s_' + n, e.fsort(FP))
                v, ty = FV(t, FP), ('fp', FP)
            else:
                v = e.fresh_iv(st, 's_' + n, 64, 'S')
                t, ty = v.t, I64
            x.env['s_' + n] = t
            if init: e.store(st, CP(oid, offs[n]), v, ty)
        x.args.append(CP(oid, 0))
        x.ptrs['s'] = (CP(oid, 0), None)

    def got(o, real):
        e, st = o.e, o.st
        r = {}
        for n, off in o.x['offs'].items():
            v = o.mem('s', off, BY if n[:3] == 'had' else (('fp', FP) if real else I64))
            r[n] = (e.scalar_to(st, ('b',), v) if not z3.is_bool(v) else v) if n[:3] == 'had' else v.t if real else e.S(st, v)
        return r

    def limits(x, kind):
        lo, up = (x.real('lo'), x.real('up')) if kind == 'real' else (x.s64('lo'), x.s64('up'))
        if kind != 'real': x.assume(up > I64MIN)
        if kind == 'cont': return lo, up, x.vec('v').n
        return lo, up, x.real('v') if kind == 'real' else x.s64('v')

    def expected(x, o, kind, first):
        real = kind == 'real'
        lo, up = x['lo'], x['up']
        v = x['v'].n if kind == 'cont' else x['v']
        if real:
            isl, isu = [o.e.scalar_to(o.st, ('b',), o.mem('s', 80 + k, BY)) for k in range(2)]      # computed by the driver with the default tolerances
            mn, mx = lambda a, b: If(z3.fpLT(b, a), b, a), lambda a, b: If(z3.fpLT(a, b), b, a)
        else:
            up = up - 1
            isl, isu = v == lo, v == up
            mn, mx = lambda a, b: If(b < a, b, a), lambda a, b: If(a < b, b, a)
        if first: return dict(hadMin=isl, hadMax=isu, min=v, max=v, lower=lo, upper=up)
        return dict(hadMin=Or(x['hadMin'], isl), hadMax=Or(x['hadMax'], isu), min=mn(x['s_min'], v), max=mx(x['s_max'], v), lower=mn(x['s_lower'], lo), upper=mx(x['s_upper'], up))
    def ordered(a, b, kind): return Or(z3.fpLEQ(a, b), And(z3.fpIsNaN(a), z3.fpIsNaN(b))) if kind == 'real' else a <= b
    txt = dict(hadMin='whether the lower bound was attained', hadMax='whether the upper bound was attained', min='smallest value', max='largest value', lower='smallest lower bound', upper='largest upper bound')

    for kind in ('int', 'real', 'cont'):
        for first in (True, False):
            def setup(x, kind=kind, first=first):
                fields(x, kind == 'real', not first)
                limits(x, kind)
                if not first: x.assume(ordered(x['s_min'], x['s_max'], kind))

            def post(x, o, kind=kind, first=first):
                if o.kind != 'ret': return None
                g, w = got(o, kind == 'real'), expected(x, o, kind, first)
                r = [('type and kind of the bounds', o.u() == (2 if kind == 'real' else 1))] + [(txt[n], g[n] == w[n]) for n in txt]
                return r + [('the smallest value is not above the largest', ordered(g['min'], g['max'], kind))]
            T.append(Target('Constraint::log (%s, %s entry)' % (kind, 'first' if first else 'further'), 'd_%s_%s' % (kind, 'first' if first else 'next'), setup, post, models=M, under=['Constraint::log', 'Constraint::update', 'Bounds::update', 'Bounds::Bounds']))
    for a, b in (('int', 'real'), ('int', 'cont'), ('cont', 'int'), ('cont', 'cont'), ('real', 'int')):
        def setup(x, a=a, b=b):
            fields(x, a == 'real', True)
            limits(x, b)
        T.append(Target('Constraint::log (%s after %s)' % (b, a), 'd_%s_%s' % (a, b), setup, lambda x, o: [('an entry of another type is rejected', BoolVal(o.kind == 'throw' and o.val == 'std::logic_error'))], models=M, expects=('throw',), under=['Constraint::update']))
    return T
