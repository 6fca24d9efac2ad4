from spec import *
DRIVER = 'c38.cpp'
FINDER = 'c38.cpp'
FINDER_FLAGS = ['-Wno-invalid-constexpr']
FP = 'x86_fp80'
I8 = ('int', 8)


def m_llround(c):
    """assumed contract: a function of the argument (the nearest integer, halves away from zero)"""
    v = c.args[0]
    F = Function('llround_' + v.n, c.e.fsort(v.n), IntSort())
    c.e.typed(c.st, F(v.t), 64, 'S')
    return IV(F(v.t), 64, 'S')


M = [(r'^(std::)?llround[lf]?(\(|$)', m_llround)]


def clampf(t): return If(t < 0, 0, If(t > 255, 255, t))


def targets():
    T = []
    for drv, p, N in (('c38.cpp', 'd_', 4), ('c38s.cpp', 's_', 3)):
        png = N == 4
        ch = 'rgba'[:N]

        def add(name, entry, args, posts, expects=('ret',), under=(), drv=drv, p=p, N=N, ch=ch, both=False, ret=None, pre=None, png=png):
            """args: string of 'a','b' colours, 'f' real, 'd' double, 'i' size_t, 'v' u8, 'w' u32, 'n' int, 'l' long long; posts(x, o, C) list of N channel terms"""
            def setup(x):
                if ret is None: x.raw('q', size=16)
                for k in args:
                    if k in 'ab':
                        for c in ch: x.u8(k + c)
                    elif k == 'f': x.real('f')
                    elif k == 'd': x.real('d', 'double')
                    elif k == 'i': x.u64('i')
                    elif k == 'v': x.u8('v')
                    elif k == 'w': x.u32('w')
                    elif k == 'n': x.s32('n')
                    elif k == 'l': x.s64('l')

            def post(x, o):
                e, st = o.e, o.st
                if o.kind in ('throw', 'abort'): return [(o.kind + ' only as documented', pre(x, o) if pre else BoolVal(False))]
                if o.kind != 'ret': return None
                r = [('no other result', Not(pre(x, o)))] if pre else []
                want = posts(x, o)
                if ret == 'b': return r + [('result', o.b() == want)]
                if ret == 'u': return r + [('result', o.e.U(st, o.val) == want)]
                r += [('channel ' + c, e.U(st, o.mem('q', k, I8)) == want[k]) for k, c in enumerate(ch)]
                if both: r += [('returned reference, channel ' + c, e.U(st, o.mem('q', 4 + k, I8)) == want[k]) for k, c in enumerate(ch)]
                return r
            T.append(Target(('png ' if png else 'svg ') + name, p + entry, setup, post, models=M, driver=drv, under=list(under), expects=expects))
        byte = lambda w, k: (w / (1 << k)) % 256
        chan = lambda x, k: [x[k + c] for c in ch]
        tail = [IntVal(255)] if png else []
        add('Color(rgb)', 'rgb', 'w', lambda x, o, tail=tail: [byte(x['w'], k) for k in (16, 8, 0)] + tail, under=['Color::Color(uint32_t)'])
        add('Color()', 'none', '', lambda x, o, tail=tail: [IntVal(0)] * 3 + tail)
        add('Color(r, g, b)', 'three', 'a', lambda x, o, tail=tail: [x['a' + c] for c in 'rgb'] + tail, under=['Color::Color(r, g, b)'])
        if png:
            add('Color(rgb, a)', 'rgba', 'wv', lambda x, o: [byte(x['w'], k) for k in (16, 8, 0)] + [x['v']])
            add('Color(r, g, b, a)', 'four', 'a', lambda x, o: [x['a' + c] for c in 'rgba'])
        else: add('Color(gray)', 'gray', 'v', lambda x, o: [x['v']] * 3)
        oob = lambda x, o, N=N: x['i'] >= N
        def sel(x, o, N=N, ch=ch):
            t = x['a' + ch[N - 1]]
            for k in range(N - 2, -1, -1): t = If(x['i'] == k, x['a' + ch[k]], t)
            return t
        for n, en in (('[] reference', 'get'), ('[] const', 'getc'), ('[] temporary', 'getr')):
            add('Color::operator' + n, en, 'ai', sel, ret='u', pre=oob, expects=('ret', 'throw'), under=['Color::operator[]'])
        add('Color::operator[] assigned', 'set', 'aiv', lambda x, o, ch=ch: [If(x['i'] == k, x['v'], x['a' + c]) for k, c in enumerate(ch)], pre=oob, expects=('ret', 'throw'))
        eq = lambda x, ch=ch: And([x['a' + c] == x['b' + c] for c in ch])
        add('==', 'eq', 'ab', lambda x, o, eq=eq: eq(x), ret='b', under=['Color::operator=='])
        add('!=', 'ne', 'ab', lambda x, o, eq=eq: Not(eq(x)), ret='b', under=['Color::operator!='])
        plus = lambda x, o, ch=ch: [clampf(x['a' + c] + x['b' + c]) for c in ch]
        minus = lambda x, o, ch=ch: [clampf(x['a' + c] - x['b' + c]) for c in ch]
        add('+', 'add', 'ab', plus, under=['operator+(Color, Color)'])
        add('-', 'sub', 'ab', minus, under=['operator-(Color, Color)'])
        add('+=', 'addto', 'ab', plus, both=True, under=['operator+=(Color&, Color)'])
        add('-=', 'subto', 'ab', minus, both=True, under=['operator-=(Color&, Color)'])

        def scale(o, t, f, name=FP):
            e = o.e
            prod = e.fbin(o.st, 'fmul', e.i2f(o.st, 'sitofp', IV(t, 32, 'S'), FP), f, FP)
            return clampf(Function('llround_' + FP, e.fsort(FP), IntSort())(prod.t))
        mul = lambda x, o, ch=ch: [scale(o, x['a' + c], FV(x['f'], FP)) for c in ch]
        add('* real', 'mul', 'af', mul, under=['operator*(Color, Real)'])
        add('real *', 'lmul', 'af', mul, under=['operator*(Real, Color)'])
        add('*=', 'multo', 'af', mul, both=True, under=['operator*=(Color&, Real)'])

        def lerp(x, o, ch=ch):
            one = o.e.i2f(o.st, 'sitofp', o.e.const(1, 32), FP)
            g = o.e.fbin(o.st, 'fsub', one, FV(x['f'], FP), FP)
            return [clampf(scale(o, x['a' + c], FV(x['f'], FP)) + scale(o, x['b' + c], g)) for c in ch]
        add('lerp', 'lerp', 'abf', lerp, pre=lambda x, o: Not(And(z3.fpLEQ(z3.FPVal(0, o.e.fsort(FP)), x['f']), z3.fpLEQ(x['f'], z3.FPVal(1, o.e.fsort(FP))))), expects=('ret', 'abort'), under=['lerp'])
        for t, k, n in (('double', 'd', 'clampd'),):
            add('clamp_color(double)', n, k, lambda x, o: clampf(Function('llround_double', o.e.fsort('double'), IntSort())(x['d'])), ret='u', under=['clamp_color'])
        add('clamp_color(int)', 'clampi', 'n', lambda x, o: clampf(x['n']), ret='u', under=['clamp_color'])
        add('clamp_color(long long)', 'clampll', 'l', lambda x, o: clampf(x['l']), ret='u', under=['clamp_color'])
        if png:
            def blend(x, o):
                aL = (x['ba'] * 0 + x['aa'] * (255 - x['ba'])) / 255
                aR = x['ba'] + aL
                mix = [(x['b' + c] * x['ba'] + x['a' + c] * aL) / aR for c in 'rgb'] + [aR]
                return [If(x['ba'] == 255, x['b' + c], If(x['ba'] == 0, x['a' + c], m)) for c, m in zip('rgba', mix)]
            add('blend', 'blend', 'ab', blend, under=['blend'])
            add('combine<ASSIGN>', 'cassign', 'ab', lambda x, o: [x['b' + c] for c in 'rgba'], under=['details::combine'])
            add('combine<BLEND>', 'cblend', 'ab', blend, under=['details::combine'])
            add('combine<ADD>', 'cadd', 'ab', plus)
            add('combine<SUBTRACT>', 'csub', 'ab', minus)
    return T
