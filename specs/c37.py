from spec import *
DRIVER = 'c37.cpp'
FINDER = 'c37.cpp'
FLAGS = ('-fno-access-control',)
FINDER_FLAGS = ['-fno-access-control', '-Wno-invalid-constexpr']
I8, I64 = ('int', 8), ('int', 64)
VC = 'std::vector<Color, std::allocator<Color> >'
VVC = 'std::vector<%s, std::allocator<%s > >' % (VC, VC)
OFF = 40
MAXD = 1 << 30
AI = z3.ArraySort(IntSort(), IntSort())
AB = z3.ArraySort(IntSort(), BoolSort())
AAI, AAB = z3.ArraySort(IntSort(), AI), z3.ArraySort(IntSort(), AB)
yy, xx, ii = Ints('yy xx ii')
W, H = Ints('width height')
CH = 'rgba'
NAMES = ('ASSIGN', 'BLEND', 'ADD', 'SUBTRACT')


def F(k): return Function('combine_' + CH[k], *([IntSort()] * 9))


def m_combine(c):
    """contract of details::combine (C38): a function of the two colours"""
    e, st = c.e, c.st
    a, b = [[e.U(st, e.load(st, e.padd_const(p, k), I8)) for k in range(4)] for p in c.args[:2]]
    parts, t = {}, IntVal(0)
    for k in range(4):
        v = F(k)(*(a + b))
        e.typed(st, v, 8, 'U')
        parts[k] = (1, IV(v, 8, 'U'), I8)
        t = t + v * (1 << 8 * k)
    return IV(t, 32, 'U', parts=parts)


M = [(r'details::combine<', m_combine)]


class Px:
    def __init__(s, e, st, oid):
        mt = e.types.mt(VVC)
        s.c = e.rd_cont(st, CP(oid, OFF), mt)
        s.n, s.len = s.c[0], s.c[1]

    def raw(s, k, y, x): return Select(Select(s.c[2 + k], y), x)

    def at(s, k, y, x):
        v = s.raw(k, y, x)
        return If(v < 0, v + 256, v)       # bytes are stored by their signed value

    def col(s, y, x): return [s.at(k, y, x) for k in range(4)]
    def shape(s): return [('rows are kept', s.n == H), ('lengths of rows are kept', forall(yy, Implies(And(0 <= yy, yy < H), s.len[yy] == W), [s.len[yy]]))]


def image(x, empty=False):
    """an image as clear() leaves it: H rows of W pixels"""
    e, st = x.e, x.st
    oid = e.new_obj(st, 'p', None, 64, lazy=True)
    mt = e.types.mt(VVC)
    comps = tuple(z3.Const('p.%d' % k, s) for k, s in enumerate(e.comps(mt)))
    st.wobj(oid).ghost[OFF] = (mt, comps)
    e.cont_facts(st, mt, comps)
    x.args.append(CP(oid, 0))
    x.ptrs['p'] = (CP(oid, 0), None)
    x.env['oid'] = oid
    p = Px(e, st, oid)
    if not empty:
        x.assume(And(0 < H, H <= MAXD, 0 < W, W <= MAXD))
        for n, f in p.shape(): x.assume(f)
    x.env['old'] = p
    return p


def point(x, n):
    for a, lim in (('x', W), ('y', H)):
        x.s64(n + a)
        x.assume(And(0 <= x[n + a], x[n + a] < lim))


def colour(x, n):
    x.raw(n, size=4)
    x.env[n] = [x.e.U(x.st, x.e.load(x.st, x.e.padd_const(x.ptrs[n][0], k), I8)) for k in range(4)]


def img(L_or_o):
    x = L_or_o.e.x if hasattr(L_or_o, 'e') else None
    return Px(L_or_o.e, L_or_o.st, x['oid'])


def rng(y, x): return And(0 <= y, y < H, 0 <= x, x < W)


def pixels(p, want):
    """want(k, y, x): channel k of the pixel"""
    return [('channel %s of every pixel' % CH[k], forall([yy, xx], Implies(rng(yy, xx), p.at(k, yy, xx) == want(k, yy, xx)), [p.raw(k, yy, xx)])) for k in range(4)]


def mn(a, b): return If(a < b, a, b)
def mx(a, b): return If(a < b, b, a)


def targets():
    T = []

    def rect_want(x, done):
        old = x['old']
        y0, y1, x0, x1 = mn(x['ay'], x['by']), mx(x['ay'], x['by']), mn(x['ax'], x['bx']), mx(x['ax'], x['bx'])

        def want(k, y, c):
            o = old.col(y, c)
            edge = Or(y == x['ay'], y == x['by'], c == x['ax'], c == x['bx'])
            new = If(edge, F(k)(*(o + x['border'])), F(k)(*(o + x['fill'])))
            return If(And(y0 <= y, y <= y1, x0 <= c, c <= x1, done(y, c)), new, old.at(k, y, c))
        return want

    def inv_rows(L):
        x, p, y = L.e.x, img(L), L['y']
        return p.shape() + [('row in range', And(mn(x['ay'], x['by']) <= y, y <= mx(x['ay'], x['by']) + 1))] + pixels(p, rect_want(x, lambda a, b: a < y))

    def inv_cols(L):
        x, p, y, c = L.e.x, img(L), L['y'], L['x']
        return p.shape() + [('row in range', And(mn(x['ay'], x['by']) <= y, y <= mx(x['ay'], x['by']))), ('column in range', And(mn(x['ax'], x['bx']) <= c, c <= mx(x['ax'], x['bx']) + 1))] \
            + pixels(p, rect_want(x, lambda a, b: Or(a < y, And(a == y, b < c))))

    loops_rect = [LoopSpec(r'PNG::fillRectangle<', 0, {'y': ('s64', 'y')}, inv_rows, name='rows', variant=lambda L: mx(L.e.x['ay'], L.e.x['by']) + 1 - L['y']),
                  LoopSpec(r'PNG::fillRectangle<', 1, {'y': ('s64', 'y'), 'x': ('s64', 'x')}, inv_cols, name='columns', variant=lambda L: mx(L.e.x['ax'], L.e.x['bx']) + 1 - L['x'])]

    for two in (True, False):
        def s_rect(x, two=two):
            image(x)
            point(x, 'a'); point(x, 'b')
            if two: colour(x, 'border')
            colour(x, 'fill')
            if not two: x.env['border'] = x['fill']

        def p_rect(x, o):
            if o.kind != 'ret': return None
            p = img(o)
            return p.shape() + pixels(p, rect_want(x, lambda a, b: BoolVal(True)))
        for m in range(4):
            T.append(Target('fillRectangle<%s>%s' % (NAMES[m], '' if two else ' (one colour)'), ('rect%d' if two else 'rect1%d') % m, s_rect, p_rect, loops=loops_rect, models=M, under=['PNG::fillRectangle']))

    # ---- lines
    NEAR = Function('nearest', IntSort(), IntSort(), BoolSort())
    ROW = Function('row', AI, IntSort(), IntSort())
    for flat in (True, False):
        U, V = ('x', 'y') if flat else ('y', 'x')      # major and minor axis

        def geo(x, U=U, V=V):
            d = lambda s: If(x['b' + s] >= x['a' + s], x['b' + s] - x['a' + s], x['a' + s] - x['b' + s])
            return d(U), d(V)

        def steps(x, s, v): return If(x['b' + s] >= x['a' + s], v - x['a' + s], x['a' + s] - v)

        def nearest(x, u, v, geo=geo):
            """v is u * minor / major rounded to the nearest integer, halves up"""
            n, m = geo(x)
            return Or(n == 0, And(-n < 2 * (v * n - u * m), 2 * (v * n - u * m) <= n))

        def line_want(x, R, last, U=U, V=V):
            old = x['old']

            def want(k, y, c):
                u, v = (c, y) if U == 'x' else (y, c)
                t = steps(x, U, u)
                on = And(0 <= t, t <= last, steps(x, V, v) == R[t])
                return If(on, F(k)(*(old.col(y, c) + x['fill'])), old.at(k, y, c))
            return want

        def cur(L, U=U, V=V):
            x = L.e.x
            return steps(x, U, L['c' + U]), steps(x, V, L['c' + V])

        def dev(L, flat=flat, geo=geo):
            """error = dx - dy + ky*dx - kx*dy"""
            n, m = geo(L.e.x)
            dx, dy = (n, m) if flat else (m, n)
            d = L['error'] - dx + dy
            return d if flat else -d       # v * major - u * minor

        def inv_line(L, geo=geo, cur=cur, dev=dev, line_want=line_want):
            x, p = L.e.x, img(L)
            (n, m), (u, v), d, R = geo(x), cur(L), dev(L), L['R']
            return p.shape() + [('on the way', And(0 <= u, u <= n, 0 <= v, v <= m)), ('the error is the deviation from the line', d == v * n - u * m), ('the deviation is at most a half', Or(n == 0, And(-n < 2 * d, 2 * d <= n))),
                                ('position is recorded', R[u] == v), ('starts at the first point', R[0] == 0),
                                ('nearest pixel in each step', forall(ii, Implies(And(0 <= ii, ii <= u), And(NEAR(ii, R[ii]), 0 <= R[ii], R[ii] <= m)), [R[ii]]))] + pixels(p, line_want(x, R, u))

        def lem_line(L, geo=geo, cur=cur):
            (n, m), (u, v) = geo(L.e.x), cur(L)
            P = lambda a, b: a * b
            return [Implies(v >= m + 1, P(n, v - m) >= n), Implies(v <= m - 1, P(n, v - m) <= -n), Implies(u + 1 <= n, P(m, n - u) >= m)]

        def init_R(L, cur=cur):
            u, v = cur(L)
            return Store(z3.K(IntSort(), IntVal(0)), u, v)

        def step_R(L, LB, cur=cur):
            u, v = cur(LB)
            return Store(L['R'], u, v)

        def define(L, cur=cur, nearest=nearest):
            u, v = cur(L)
            L.st.assume(NEAR(u, v) == nearest(L.e.x, u, v))

        def s_line(x, flat=flat):
            image(x)
            point(x, 'a'); point(x, 'b')
            colour(x, 'fill')
            d = lambda s: If(x['b' + s] >= x['a' + s], x['b' + s] - x['a' + s], x['a' + s] - x['b' + s])
            x.assume(d('x') >= d('y') if flat else d('x') < d('y'))
            x.assume(NEAR(0, 0))       # instance of the definition

        def p_line(x, o, geo=geo, line_want=line_want):
            if o.kind != 'ret': return None
            p, R = img(o), o.st.g['ghost_R']
            n, m = geo(x)
            return p.shape() + [('one pixel, nearest to the line, in every step', forall(ii, Implies(And(0 <= ii, ii <= n), And(NEAR(ii, R[ii]), 0 <= R[ii], R[ii] <= m)), [R[ii]])), ('from the first to the last point', And(R[0] == 0, R[n] == m))] + pixels(p, line_want(x, R, n))
        for k in range(4):
            T.append(Target('drawLine<%s> (%s)' % (NAMES[k], 'flat' if flat else 'steep'), 'line%d' % k, s_line, p_line, models=M, under=['PNG::drawLine'],
                            loops=[LoopSpec(r'PNG::drawLine<', 0, {'cx': ('s64', 'c'), 'cy': ('s64', 'c@8'), 'error': ('s64', 'error')}, inv_line, lemmas=lem_line, name='line', enter=define, after=define, ghosts={'R': (init_R, step_R)},
                                            variant=lambda L, geo=geo, cur=cur: sum(geo(L.e.x)) - sum(cur(L)))]))

    # ---- flood fill
    REACH = Function('reach', IntSort(), IntSort(), BoolSort())
    NB = ((0, 1), (0, -1), (1, 0), (-1, 0))

    def C0(x): return x['old'].col(x['ay'], x['ax'])
    def isold(x, y, c): return And([x['old'].at(k, y, c) == C0(x)[k] for k in range(4)])
    def get(A, y, c): return Select(Select(A, y), c)
    def put(A, y, c, v): return Store(A, y, Store(Select(A, y), c, v))
    def handled(x, C, y, c): return Implies(And(rng(y, c), isold(x, y, c)), get(C, y, c))
    def closed(x, C, y, c): return And([handled(x, C, y + dy, c + dx) for dx, dy in NB])

    def dirs(e, st):
        for g in list(e.mod.globals):
            if 'DIRECTIONS' in g:
                oid = e.global_obj(st, g)
                return [tuple(z3.simplify(e.S(st, e.load_cell(st, oid, 16 * j + o, 8, I64))).as_long() for o in (0, 8)) for j in range((st.mem[oid].size or 64) // 16)]
        return list(NB)

    def want_flood(x, C):
        return lambda k, y, c: If(get(C, y, c), F(k)(*(C0(x) + x['fill'])), x['old'].at(k, y, c))

    def base(L):
        x, p, todo, C, P = L.e.x, img(L), L['todo'], L['C'], L['P']
        tx, ty = todo.arr(0), todo.arr(8)
        return p.shape() + pixels(p, want_flood(x, C)) + [
            ('the first pixel is filled', get(C, x['ay'], x['ax'])),
            ('only pixels of the old colour are filled', forall([yy, xx], Implies(get(C, yy, xx), And(rng(yy, xx), isold(x, yy, xx))), [get(C, yy, xx)])),
            ('only connected pixels are filled', forall([yy, xx], Implies(get(C, yy, xx), REACH(yy, xx)), [get(C, yy, xx)])),
            ('waiting pixels are filled', forall(ii, Implies(And(0 <= ii, ii < todo.n), get(C, ty[ii], tx[ii])), [ty[ii], tx[ii]])),
            ('positions of waiting pixels', forall([yy, xx], Implies(get(P, yy, xx) >= 0, And(get(P, yy, xx) < todo.n, ty[get(P, yy, xx)] == yy, tx[get(P, yy, xx)] == xx)), [get(P, yy, xx)]))]

    def inv_todo(L):
        x, C, P = L.e.x, L['C'], L['P']
        return base(L) + [('a filled pixel waits or its neighbours are filled', forall([yy, xx], Implies(And(get(C, yy, xx), get(P, yy, xx) < 0), closed(x, C, yy, xx)), [get(C, yy, xx)]))]

    def inv_dirs(L):
        x, C, P, k = L.e.x, L['C'], L['P'], L['cur']
        py, px = L['py'], L['px']
        D = dirs(L.e, L.st)
        return base(L) + [('direction in range', And(0 <= k, k <= len(D))), ('the current pixel is filled', And(get(C, py, px), get(P, py, px) < 0)),
                          ('a filled pixel waits or its neighbours are filled', forall([yy, xx], Implies(And(get(C, yy, xx), get(P, yy, xx) < 0, Not(And(yy == py, xx == px))), closed(x, C, yy, xx)), [get(C, yy, xx)])),
                          ('earlier directions are handled', And([Implies(j < k, handled(x, C, py + dy, px + dx)) for j, (dx, dy) in enumerate(D)]))]

    def lem_dirs(L):
        x, py, px = L.e.x, L['py'], L['px']
        return [Implies(And(REACH(py, px), rng(py + dy, px + dx), isold(x, py + dy, px + dx)), REACH(py + dy, px + dx)) for dx, dy in NB]

    def grown(L, LB): return If(LB['todo'].n == L['todo'].n + 1, BoolVal(True), BoolVal(False))

    def last(LB, off): return LB['todo'].arr(off)[LB['todo'].n - 1]

    def step_C(L, LB): return If(grown(L, LB), put(L['C'], last(LB, 8), last(LB, 0), BoolVal(True)), L['C'])
    def step_P(L, LB): return If(grown(L, LB), put(L['P'], last(LB, 8), last(LB, 0), LB['todo'].n - 1), L['P'])
    NONE_I, NONE_B = z3.K(IntSort(), z3.K(IntSort(), IntVal(-1))), z3.K(IntSort(), z3.K(IntSort(), BoolVal(False)))
    loops_flood = [LoopSpec(r'PNG::floodFill<', 0, {'todo': ('vec', 'todo')}, inv_todo, name='waiting pixels',
                            ghosts={'C': (lambda L: put(NONE_B, L.e.x['ay'], L.e.x['ax'], BoolVal(True)), lambda L, LB: LB.st.g['ghost_C']), 'P': (lambda L: put(NONE_I, L.e.x['ay'], L.e.x['ax'], IntVal(0)), lambda L, LB: LB.st.g['ghost_P'])}),
                   LoopSpec(r'PNG::floodFill<', 1, {'todo': ('vec', 'todo'), 'px': ('s64', 'p@0', 'p'), 'py': ('s64', 'p@8'), 'cur': ('cur', '__begin', 'i', 'k', 'd')}, inv_dirs, lemmas=lem_dirs, name='directions',
                            ghosts={'C': (lambda L: L.st.g['ghost_C'], step_C), 'P': (lambda L: put(L.st.g['ghost_P'], L['py'], L['px'], IntVal(-1)), step_P)}, variant=lambda L: 4 - L['cur'])]

    def s_flood(x):
        image(x)
        point(x, 'a')
        colour(x, 'fill')
        x.assume(REACH(x['ay'], x['ax']))

    def p_flood(x, o):
        if o.kind != 'ret': return None
        p, g = img(o), o.st.g
        N = [F(k)(*(C0(x) + x['fill'])) for k in range(4)]
        if 'ghost_C' not in g: return p.shape() + [('nothing to do only for the same colour', And([N[k] == C0(x)[k] for k in range(4)]))] + pixels(p, lambda k, y, c: x['old'].at(k, y, c))
        C = g['ghost_C']
        return p.shape() + pixels(p, want_flood(x, C)) + [
            ('the first pixel is filled', get(C, x['ay'], x['ax'])),
            ('only connected pixels of the old colour are filled', forall([yy, xx], Implies(get(C, yy, xx), And(REACH(yy, xx), isold(x, yy, xx))), [get(C, yy, xx)])),
            ('all neighbours of the old colour are filled', forall([yy, xx], Implies(And(rng(yy, xx), get(C, yy, xx)), closed(x, C, yy, xx)), [get(C, yy, xx)]))]
    for k in range(4): T.append(Target('floodFill<%s>' % NAMES[k], 'flood%d' % k, s_flood, p_flood, loops=loops_flood, models=M, under=['PNG::floodFill']))

    # ---- the image itself
    for en, given in (('d_clear', True), ('d_clear0', False)):
        def s_clear(x, given=given):
            image(x, empty=True)
            x.s64('w'); x.s64('h')
            if given: colour(x, 'fill')
            x.assume(And(0 <= x['w'], 0 <= x['h'], x['h'] <= MAXD))

        def p_clear(x, o, given=given):
            if o.kind == 'abort': return [('only wider images are rejected', x['w'] > 16383)]
            if o.kind != 'ret': return None
            p, f = img(o), x['fill'] if given else [IntVal(0)] * 4
            return [('images that do not fit are rejected', x['w'] <= 16383), ('number of rows', p.n == x['h']), ('lengths of rows', forall(yy, Implies(And(0 <= yy, yy < x['h']), p.len[yy] == x['w']), [p.len[yy]]))] \
                + [('channel %s of every pixel' % CH[k], forall([yy, xx], Implies(And(0 <= yy, yy < x['h'], 0 <= xx, xx < x['w']), p.at(k, yy, xx) == f[k]), [p.raw(k, yy, xx)])) for k in range(4)]
        T.append(Target('clear' + ('' if given else ' (transparent)'), en, s_clear, p_clear, models=M, under=['PNG::clear'], expects=('ret', 'abort')))
    for n in ('width', 'height'):
        def s_dim(x): image(x, empty=True)

        def p_dim(x, o, n=n):
            p = x['old']
            return [(n, o.s() == (p.n if n == 'height' else If(p.n == 0, 0, p.len[0])))] if o.kind == 'ret' else None
        T.append(Target(n, 'd_' + n, s_dim, p_dim, models=M, under=['PNG::' + n]))

    def s_get(x):
        image(x)
        point(x, '')
        colour(x, 'c')
    T.append(Target('operator() (read)', 'd_get', s_get, lambda x, o: [('channel ' + CH[k], o.e.U(o.st, o.mem('c', k, I8)) == x['old'].at(k, x['y'], x['x'])) for k in range(4)] if o.kind == 'ret' else None, models=M, under=['PNG::operator() const']))
    T.append(Target('operator() (write)', 'd_set', s_get, lambda x, o: img(o).shape() + pixels(img(o), lambda k, a, b: If(And(a == x['y'], b == x['x']), x['c'][k], x['old'].at(k, a, b))) if o.kind == 'ret' else None, models=M, under=['PNG::operator()']))

    def m_writer(c):
        c.e.contracts_used.add('details::PNGWriter::PNGWriter (C36)')
        c.st.g['writers'] = c.st.g.get('writers', ()) + ((c.args[0].obj, c.args[1] == CP(c.e.x['oid'], 0)),)

    def m_writes(c):
        c.e.contracts_used.add('details::PNGWriter::write (C36)')
        c.st.g['images'] = c.st.g.get('images', ()) + ((c.args[0].obj, c.args[1] == CP(c.e.x['oid'], OFF)),)
    MW = [(r'details::PNGWriter::PNGWriter\(', m_writer), (r'details::PNGWriter::write\(', m_writes), (r'details::PNGWriter::~PNGWriter\(', lambda c: None)]
    for n, en in (('write', 'd_write'), ('destructor', 'd_destroy')):
        def s_write(x):
            image(x, empty=True)
            b = z3.Bool('has file name')
            x.env['named'] = b
            x.e.store(x.st, CP(x['oid'], 32), x.e.b2i(b, 8), I8)

        def p_write(x, o):
            if o.kind != 'ret': return None
            p, ws, im = x['old'], o.st.g.get('writers', ()), o.st.g.get('images', ())
            go = And(x['named'], p.n > 0, p.len[0] != 0)
            if not ws and not im: return [('an image with file name and pixels is written', Not(go))]
            return [('exactly this image is written to its file once', BoolVal(len(ws) == 1 and len(im) == 1 and ws[0][1] and im[0][1] and ws[0][0] == im[0][0])), ('only an image with file name and pixels is written', go)]
        T.append(Target(n, en, s_write, p_write, models=MW + M, under=['PNG::write' if n == 'write' else 'PNG::~PNG']))
    return T
