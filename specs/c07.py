from spec import *
DRIVER = 'c07.cpp'
FINDER = 'c07.cpp'


def targets():
    T = []

    def setup(x):
        for n in 'gear': x.real(n)

    def equal(x):
        e = x.e
        g, ex, a, r = [FV(x[n], 'x86_fp80') for n in 'gear']
        d = e.fbin(x.st, 'fsub', g, ex, 'x86_fp80')
        q = e.fbin(x.st, 'fdiv', d, ex, 'x86_fp80')
        fin = lambda f: Not(Or(z3.fpIsNaN(f.t), z3.fpIsInf(f.t)))
        return If(And(fin(g), fin(ex)), Or(z3.fpLEQ(z3.fpAbs(d.t), a.t), z3.fpLEQ(z3.fpAbs(q.t), r.t)),
                  Or(And(z3.fpIsNaN(g.t), z3.fpIsNaN(ex.t)), And(z3.fpIsInf(g.t), z3.fpIsInf(ex.t), g.t == ex.t)))

    def mk(nm, en, spec):
        def post(x, o):
            okt = And([z3.fpLEQ(z3.FPVal(0, x.e.fsort('x86_fp80')), x[n]) for n in 'ar'])
            if o.kind == 'throw': return [('only negative or NaN tolerances are rejected', And(Not(okt), BoolVal(o.val == 'std::domain_error')))]
            if o.kind != 'ret': return None
            return [('equal up to absolute or relative tolerance', Implies(okt, o.b() == spec(x)))] + ([('tolerances valid', okt)] if nm.endswith('Equal') else [])
        T.append(Target(nm, en, setup, post, expects=('ret', 'throw'), under=[nm]))
    mk('details::floatEqual', 'd_eq', equal)
    mk('floatEqual', 'd_eq2', equal)
    mk('floatLess', 'd_less', lambda x: Or(z3.fpLEQ(x['g'], x['e']), equal(x)))
    mk('floatGreater', 'd_greater', lambda x: Or(z3.fpGEQ(x['g'], x['e']), equal(x)))
    return T
