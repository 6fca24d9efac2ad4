from spec import *
import models
from vals import *
DRIVER = 'c09.cpp'
FINDER = 'c09.cpp'
FLAGS = ('-fno-access-control',)
FINDER_FLAGS = ['-fno-access-control']
I = IntSort()
SV = 'std::basic_string_view<char, std::char_traits<char> >'
STR = models.STR
VECS = 'std::vector<%s, std::allocator<%s > >' % (STR, STR)
MAPC = 'std::map<%s, std::pair<long, long>, std::less<%s >, std::allocator<std::pair<%s const, std::pair<long, long> > > >' % (SV, SV, SV)
MAPT = 'std::map<%s, long, std::less<%s >, std::allocator<std::pair<%s const, long> > >' % (SV, SV, SV)
I64, PTR = ('int', 64), ('ptr',)
# Texts are handles: equal texts have equal handles, 0 is the empty text.
ARG = Function('argument', I, I)                     # handle of argv[i]
CMD = Function('starts_with_command_prefix', I, BoolSort())
TOKEN = Function('is_token', I, BoolSort())
PARSES = Function('parses_as_integer', I, BoolSort())
VALUE = Function('integer_of', I, I)
RPARSES = Function('parses_as_real', I, BoolSort())
H = 1 << 60


class TextP(Ptr):
    """pointer to the characters of a text (only its handle is known)"""
    __slots__ = ('h',)

    def __init__(self, h): self.h = h

    def __repr__(self): return 'text(%s)' % self.h

    def __eq__(self, o): return isinstance(o, TextP) and z3.eq(self.h, o.h)

    def __hash__(self): return 7


def handles(x):
    """std::string and std::string_view become handles for this target"""
    e = x.e
    sh = lambda n, s: (lambda: models.Shape(n, [Leaf(0, ('i', 64, True), n)], s))
    e.types.custom[STR] = lambda: models.Shape(32, [Leaf(0, ('i', 64, True), 8)], STR)
    e.types.custom[SV] = lambda: models.Shape(16, [Leaf(0, ('i', 64, True), 8)], SV)
    e.ptrhook = lambda st, v: TextP(e.S(st, v))
    x.assume(Not(CMD(0)))


def hptr(e, st):
    """every view carries the pointer of EMPTY_COMMAND (pointers of views are never looked at: their accessors are refused)"""
    for n in e.mod.globals:
        if 'EMPTY_COMMAND' in n: return e.load(st, CP(e.global_obj(st, n), 8), PTR)
    raise Unsupported('EMPTY_COMMAND not found')


def geth(c, p): return c.e.S(c.st, c.e.load(c.st, p, I64))
def puth(c, p, t): c.e.store(c.st, p, IV(t, 64, 'S'), I64)


def m_ctor_c(c):
    p = c.args[1]
    if not isinstance(p, TextP): raise Unsupported('string from %r' % (p,))
    puth(c, c.args[0], p.h)


def m_copy(c):
    puth(c, c.args[0], c.args[1].h if isinstance(c.args[1], TextP) else geth(c, c.args[1]))
    return c.args[0] if 'operator=' in c.dem else None


def m_empty(c): puth(c, c.args[0], IntVal(0))
def m_view(c): return [IV(geth(c, c.args[0]), 64, 'S'), hptr(c.e, c.st)]
def m_refuse(c):
    if 'judgeAssert' in c.e.frames[-1].fn.name: return NotImplemented           # messages are literal texts
    raise Unsupported(c.dem[:150] + ': the characters of a text are accessed outside of isCommand, isToken and parse')


def m_iscmd(c):
    c.e.contracts_used.add('CommandParser::isCommand')
    return CMD(c.e.S(c.st, c.args[0]))


def m_istoken(c):
    c.e.contracts_used.add('details::isToken')
    return TOKEN(c.e.S(c.st, c.args[0]))


def m_emplace(c):
    """std::map::emplace(key, value): inserts unless the key is present"""
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = models.parse_dem(c.dem)
    p = a[0]
    mt = e.cont_mt(st, p) or e.types.mt(cls)
    cs = e.rd_cont(st, p, mt)
    k = geth(c, a[1])
    n = len(mt.val.leaves)
    if n == 2: vals = [e.S(st, e.load(st, e.padd_const(a[2], 8 * j), I64)) for j in range(2)]
    elif len(params) > 1 and params[1].startswith('int'): vals = [e.S(st, e.load(st, a[2], ('int', 32)))]
    else: vals = [e.S(st, e.load(st, a[2], I64))]
    has = z3.Select(cs[0], k)
    new = [z3.Store(cs[0], k, z3.BoolVal(True)), If(has, cs[1], cs[1] + 1)]
    for w, v in zip(cs[2:], vals): new.append(z3.Store(w, k, If(has, z3.Select(w, k), v)))
    e.wr_cont(st, p, mt, new)
    return [NodeP(p, mt, k, z3.BoolVal(False)), z3.simplify(z3.Not(has))]


def m_parse(kind):
    def f(c):
        e, st = c.e, c.st
        e.contracts_used.add('details::parse')
        h = e.S(st, c.args[0])
        if kind == 's':
            e.store(st, c.args[2], IV(h, 64, 'S'), I64)
            return BoolVal(True)
        if kind == 'i':
            v = e.fint('parsed')
            e.bounded(st, v, I64MIN, I64MAX)
            st.assume(Implies(PARSES(h), v == VALUE(h)))
            e.store(st, c.args[2], IV(v, 64, 'S'), I64)
            return PARSES(h)
        v = e.fresh('parsed', e.fsort('x86_fp80'))
        st.assume(Implies(RPARSES(h), v == realval(e, h)))
        e.store(st, c.args[2], FV(v, 'x86_fp80'), ('fp', 'x86_fp80'))
        return RPARSES(h)
    return f


def realval(e, h): return Function('real_of', I, e.fsort('x86_fp80'))(h)


SN = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
# later entries have priority
TEXT = [(r'^std::basic_string_view<char, std::char_traits<char> ?>::(?!basic_string_view)', m_refuse), (r'^%s::' % SN, m_refuse), (r'std::operator(==|!=|<|>|<=|>=|<=>)[^(]*\((std::__cxx11::basic_string|std::basic_string_view|char const\*)', m_refuse),
        (r'^%s::(basic_string|operator=)(<.*>)?\(' % SN, m_copy),
        (r'^%s::basic_string(<.*>)?\(char const\*, std::allocator' % SN, m_ctor_c),
        (r'^%s::(basic_string\(\)|clear\()' % SN, m_empty),
        (r'^%s::~basic_string' % SN, lambda c: None),
        (r'^%s::operator std::basic_string_view' % SN, m_view),
        (r'CommandParser::isCommand\(', m_iscmd),
        (r'\bdetails::isToken\(', m_istoken),
        (r'^std::pair<.*std::map<std::basic_string_view<.*::emplace<', m_emplace),
        (r'\bdetails::parse<long>\(', m_parse('i')), (r'\bdetails::parse<long double>\(', m_parse('r')), (r'\bdetails::parse<std::__cxx11', m_parse('s'))]


def m_grow(c): raise Unsupported('the arguments are moved while views of them exist')


VECN = r'std::vector<%s, std::allocator<%s ?> ?>' % (SN, SN)


def targets():
    T = []
    i, j, h = Ints('i j h')

    # isCommand on real characters
    def s0(x): x.vec('s', STR)

    def p0(x, o):
        s = x['s']
        return [('longer than the prefix, which it starts with', o.b() == And(s.n > 2, s.at(0) == 45, s.at(1) == 45))] if o.kind == 'ret' else None
    T.append(Target('CommandParser::isCommand', 'd_isCommand', s0, p0, under=['CommandParser::isCommand']))

    # ------------------------------------------------------------ the parser
    def view(x, st, p, off, cpp):
        mt = x.e.types.mt(cpp)
        q = x.e.padd_const(p, off)
        return View(x.e, st, q, mt, x.e.rd_cont(st, q, x.e.cont_mt(st, q) or mt))

    def parser(x, fresh):
        p = x.raw('p', size=120, lazy=False)
        if fresh: return
        o = x.st.wobj(p.obj)
        for off, cpp, n in ((0, VECS, 'raw'), (24, MAPC, 'commands'), (72, MAPT, 'tokens')):
            mt = x.e.types.mt(cpp)
            comps = tuple(z3.Const('%s.%d' % (n, k), s) for k, s in enumerate(x.e.comps(mt)))
            o.ghost[off] = (mt, comps)
            x.e.cont_facts(x.st, mt, comps)
            x.env[n] = View(x.e, x.st, CP(p.obj, off), mt, comps)

    def s1(x):
        handles(x)
        parser(x, True)
        n = x.s32('argc')
        e = x.e
        mt = e.types.mt('std::vector<long, std::allocator<long> >')
        oid = e.new_obj(x.st, 'argv', None, mt.bytes)
        comps = (n, z3.Const('argv.0', z3.ArraySort(I, I)))
        x.st.wobj(oid).ghost[0] = (mt, comps)
        x.args.append(EP(CP(oid, 0), IntVal(0), 0, mt))
        x.assume(n >= 0)
        x.assume(forall(i, And(Select(comps[1], i) == ARG(i), ARG(i) >= 0, ARG(i) < H), [Select(comps[1], i)]))
        x.assume(forall(i, And(ARG(i) >= 0, ARG(i) < H), [ARG(i)]))

    def inv(L):
        e, st = L.e, L.st
        n = L.e.x['argc']
        q = e.x.ptrs['p'][0]
        raw, cm, tk = view(e.x, st, q, 0, VECS), view(e.x, st, q, 24, MAPC), view(e.x, st, q, 72, MAPT)
        k, fi, co, cmd = L['i'], L['first'], L['count'], L['command']
        r = [('position', And(0 <= k, k <= n, raw.n == n, 0 <= fi, fi <= k, co == k - fi)),
             ('current command', Or(And(fi == 0, cmd == 0), And(fi >= 1, cmd == ARG(fi - 1), CMD(ARG(fi - 1))))),
             ('no command since', forall(i, Implies(And(fi <= i, i < k), Not(CMD(ARG(i)))), [ARG(i)])),
             ('arguments stored', forall(i, Implies(And(0 <= i, i < k), raw.at(i) == ARG(i)), [raw.at(i)])),
             ('leading parameters are recorded', cm.has(0) == (fi >= 1))]
        r += parsed(cm, tk, k, fi)
        return r

    def parsed(cm, tk, k, fi):
        """what the maps say about the first k arguments, of which the commands before fi - 1 are recorded"""
        f, c = (lambda h: cm.val(h, 0)), (lambda h: cm.val(h, 8))
        return [('commands of the arguments are recorded', forall(i, Implies(And(0 <= i, i < fi - 1, CMD(ARG(i))), And(cm.has(ARG(i)), f(ARG(i)) == i + 1)), [ARG(i)])),
                ('recorded commands are arguments', forall(h, Implies(cm.has(h), And(0 <= f(h), c(h) >= 0, Or(And(h == 0, f(h) == 0, f(h) + c(h) < fi), And(f(h) >= 1, f(h) < fi, CMD(h), ARG(f(h) - 1) == h, f(h) + c(h) < fi)),
                                                                                      CMD(ARG(f(h) + c(h))))), [cm.has(h)])),
                ('parameters of a recorded command', forall([h, i], Implies(And(cm.has(h), f(h) <= i, i < f(h) + c(h)), Not(CMD(ARG(i)))), [[cm.has(h), ARG(i)]])),
                ('tokens of the arguments are recorded', forall(i, Implies(And(0 <= i, i < k), And(tk.has(ARG(i)), tk.val(ARG(i)) <= i + 1)), [ARG(i)])),
                ('recorded tokens are arguments', forall(h, Implies(tk.has(h), And(1 <= tk.val(h), tk.val(h) <= k, ARG(tk.val(h) - 1) == h)), [tk.has(h)]))]
    lp = LoopSpec(r'^CommandParser::CommandParser\(int', 0, {'i': ('int', 'i', 'k'), 'first': ('s64', 'first'), 'count': ('s64', 'count'), 'command': ('s64', 'command')}, inv, name='arguments', variant=lambda L: L.e.x['argc'] - L['i'])

    def p1(x, o):
        n = x['argc']
        e, st = o.e, o.st
        dup = Exists([i, j], And(0 <= i, i < j, j < n, CMD(ARG(i)), ARG(i) == ARG(j)))
        if o.kind == 'throw': return [('only duplicate commands are rejected', And(BoolVal(o.val == 'std::invalid_argument'), dup))]
        if o.kind != 'ret': return None
        q = x.ptrs['p'][0]
        raw, cm, tk = view(x, st, q, 0, VECS), view(x, st, q, 24, MAPC), view(x, st, q, 72, MAPT)
        return [('no duplicate commands', Not(dup))] + post_parsed(raw, cm, tk, n)

    def post_parsed(raw, cm, tk, n):
        f, c = (lambda h: cm.val(h, 0)), (lambda h: cm.val(h, 8))
        return [('all arguments stored', And(raw.n == n, forall(i, Implies(And(0 <= i, i < n), raw.at(i) == ARG(i)), [raw.at(i)]))),
                ('the parameters before the first command', And(cm.has(0), f(0) == 0)),
                ('every command is found at its place', forall(i, Implies(And(0 <= i, i < n, CMD(ARG(i))), And(cm.has(ARG(i)), f(ARG(i)) == i + 1)), [ARG(i)])),
                ('only commands are found', forall(h, Implies(And(cm.has(h), h != 0), And(CMD(h), 1 <= f(h), f(h) <= n, ARG(f(h) - 1) == h)), [cm.has(h)])),
                ('parameters go to the next command or the end', forall(h, Implies(cm.has(h), And(c(h) >= 0, f(h) + c(h) <= n, Or(f(h) + c(h) == n, CMD(ARG(f(h) + c(h)))))), [cm.has(h)])),
                ('parameters are no commands', forall([h, i], Implies(And(cm.has(h), f(h) <= i, i < f(h) + c(h)), Not(CMD(ARG(i)))), [[cm.has(h), ARG(i)]])),
                ('every token is found at its first place', forall(i, Implies(And(0 <= i, i < n), And(tk.has(ARG(i)), tk.val(ARG(i)) <= i + 1)), [ARG(i)])),
                ('only arguments are tokens', forall(h, Implies(tk.has(h), And(1 <= tk.val(h), tk.val(h) <= n, ARG(tk.val(h) - 1) == h)), [tk.has(h)]))]
    GROW = [(r'^%s::(push_back|emplace_back|resize|reserve|insert|emplace|erase|clear|shrink_to_fit|pop_back)' % VECN, m_grow)]
    T.append(Target('CommandParser::CommandParser', 'd_parse', s1, p1, loops=[lp], models=TEXT + GROW, expects=('ret', 'throw'), under=['CommandParser::CommandParser', 'CommandParser::addCommand']))

    # ------------------------------------------------------------ look-ups
    def text(x, n):
        t = x._int(n, 64, 'S')
        x.assume(And(0 <= t, t < H))
        x.args.append(hptr(x.e, x.st))

    def s_get(kind):
        def f(x):
            handles(x)
            x.raw('r', size=40, lazy=False)
            parser(x, False)
            raw, cm, tk = x['raw'], x['commands'], x['tokens']
            n = raw.n
            x.assume(forall(i, And(0 <= raw.at(i), raw.at(i) < H), [raw.at(i)]))
            # established by the constructor
            x.assume(forall(h, Implies(cm.has(h), And(0 <= cm.val(h, 0), cm.val(h, 8) >= 0, cm.val(h, 0) + cm.val(h, 8) <= n)), [cm.has(h)]))
            x.assume(forall(h, Implies(tk.has(h), And(1 <= tk.val(h), tk.val(h) <= n)), [tk.has(h)]))
            if kind == 'index': x.s64('t')
            elif kind != 'all': text(x, 's')
        return f

    def result(x, o, found, first, count, raw):
        e, st = o.e, o.st
        b = lambda off: o.e.scalar_to(st, ('b',), o.mem('r', off, ('int', 8)))
        return [('exists', b(16) == found), ('parameters', And(e.S(st, o.mem('r', 8, I64)) == If(found, count, 0), Implies(found, e.S(st, o.mem('r', 0, I64)) == first))),
                ('the value is the first parameter', And(b(17) == And(found, count > 0), Implies(b(17), e.S(st, o.mem('r', 24, I64)) == raw.at(first))))]

    def p_get(kind):
        def f(x, o):
            raw, m = x['raw'], x['commands' if kind == 'get' else 'tokens']
            if kind == 'index':
                t = x['t']
                ok = And(0 <= t, t < raw.n)
                if o.kind == 'throw': return [('only outside of the arguments', And(Not(ok), BoolVal(o.val == 'std::out_of_range')))]
                return [('inside', ok), ('this argument', o.e.S(o.st, o.mem('r', 8, I64)) == raw.at(t))] if o.kind == 'ret' else None
            if kind == 'all': return result(x, o, BoolVal(True), IntVal(0), raw.n, raw) if o.kind == 'ret' else None
            s = x['s']
            if o.kind == 'throw': return [('only texts that are no token', And(Not(TOKEN(s)), BoolVal(o.val == 'std::invalid_argument')))]
            if o.kind != 'ret': return None
            fi, co = (m.val(s, 0), m.val(s, 8)) if kind == 'get' else (m.val(s), raw.n - m.val(s))
            return [('a token', TOKEN(s))] + result(x, o, m.has(s), fi, co, raw)
        return f
    for kind, en, nm in (('get', 'd_get', 'CommandParser::operator[](command)'), ('raw', 'd_getRaw', 'CommandParser::getRaw(command)'), ('all', 'd_getAll', 'CommandParser::getRaw()'), ('index', 'd_index', 'CommandParser::operator[](index)')):
        T.append(Target(nm, en, s_get(kind), p_get(kind), models=TEXT, expects=('ret',) if kind == 'all' else ('ret', 'throw'), under=[nm.split('(')[0], 'Command::Command', 'Command::exists', 'Command::parameterCount']))

    # ------------------------------------------------------------ parameters
    def command(x):
        raw = x.vec('raw', VECS)
        fi, co = x.s64('first'), x.s64('count')
        x.assume(And(0 <= fi, 0 <= co, fi + co <= raw.n, raw.n < 1 << 31))
        x.assume(forall(i, And(0 <= raw.at(i), raw.at(i) < H), [raw.at(i)]))
        return raw, fi, co

    def s_param(x):
        handles(x)
        x.raw('r', size=24, lazy=False)
        command(x)
        x.s64('i')

    def p_param(x, o):
        if o.kind != 'ret': return [('no exception', BoolVal(False))]
        k = x['i']
        ok = And(0 <= k, k < x['count'])
        return [('exists exactly inside of the parameters', o.e.scalar_to(o.st, ('b',), o.mem('r', 0, ('int', 8))) == ok), ('this parameter', Implies(ok, o.e.S(o.st, o.mem('r', 8, I64)) == x['raw'].at(x['first'] + k)))]
    T.append(Target('Command::operator[]', 'd_param', s_param, p_param, models=TEXT, under=['Command::operator[]', 'Parameter::exists']))

    def s_as(out, default):
        def f(x):
            handles(x)
            if out: x.raw('res', size=32, lazy=False); puth2(x, x.ptrs['res'][0])
            q = x.raw('q', size=24, lazy=False)
            hh, has = z3.Int('token'), z3.Bool('has token')
            x.env.update(h=hh, has=has)
            x.assume(And(0 <= hh, hh < H))
            x.e.store(x.st, q, IV(hh, 64, 'S'), I64)
            x.e.store(x.st, CP(q.obj, 8), hptr(x.e, x.st), PTR)
            x.e.store(x.st, CP(q.obj, 16), x.e.b2i(has, 8), ('int', 8))
            if default == 's': text(x, 'd')
            if default == 'i': x.s64('d')
            if default == 'r': x.real('d')
        return f

    def puth2(x, p): x.e.store(x.st, p, IV(IntVal(0), 64, 'S'), I64)

    def p_as(kind, default):
        def f(x, o):
            hh, has = x['h'], x['has']
            ok = {'s': BoolVal(True), 'i': PARSES(hh), 'r': RPARSES(hh)}[kind]
            if o.kind == 'throw':
                miss = BoolVal(False) if default else Not(has)
                return [('only missing or unreadable values', And(Implies(BoolVal(o.val == 'std::bad_optional_access'), miss), Implies(BoolVal(o.val == 'std::invalid_argument'), And(has, Not(ok))), BoolVal(o.val in ('std::bad_optional_access', 'std::invalid_argument'))))]
            if o.kind != 'ret': return None
            r = o.e.S(o.st, o.mem('res', 0, I64)) if kind == 's' else o.s() if kind == 'i' else o.val.t
            v = {'s': lambda: hh, 'i': lambda: VALUE(hh), 'r': lambda: realval(o.e, hh)}[kind]()
            return [('the value, or the default only if there is none', And(Implies(has, And(ok, r == v)), Implies(Not(has), r == x['d'] if default else BoolVal(False))))]
        return f
    for kind, nm in (('s', 'String'), ('i', 'Integer'), ('r', 'Real')):
        for d in (False, True):
            ex = ('ret',) if d and kind == 's' else ('ret', 'throw')
            T.append(Target('Parameter::as%s%s' % (nm, '(default)' if d else '()'), 'd_as%s%s' % (nm, 'D' if d else ''), s_as(kind == 's', kind if d else None), p_as(kind, d), models=TEXT, expects=ex, under=['ParameterBase::as' + nm, 'ParameterBase::parse']))

    # ------------------------------------------------------------ lists of parameters
    ETY = {'i': 'std::vector<long, std::allocator<long> >', 'r': 'std::vector<long double, std::allocator<long double> >', 's': VECS}

    def value(e, kind, t): return VALUE(t) if kind == 'i' else realval(e, t) if kind == 'r' else t
    def good(kind, t): return PARSES(t) if kind == 'i' else RPARSES(t) if kind == 'r' else BoolVal(True)

    def s_list(kind):
        def f(x):
            handles(x)
            x.out('res', ETY[kind])
            command(x)
        return f

    def done(e, kind, r, raw, fi, k):
        q = forall(i, Implies(And(0 <= i, i < k), And(good(kind, raw.at(fi + i)), r.at(i) == value(e, kind, raw.at(fi + i)))), [r.at(i)])
        return [('values so far', q), ('readable so far', forall(i, Implies(And(fi <= i, i < fi + k), good(kind, raw.at(i))), [raw.at(i)]))]

    def linv(kind):
        def f(L):
            e, st = L.e, L.st
            x = e.x
            mt = x.ptrs['res'][1]
            p = [CP(q, 0) for q, ob in st.mem.items() if 0 in ob.ghost and repr(ob.ghost[0][0]) == repr(mt) and q != x.ptrs['raw'][0].obj]
            if len(p) != 1: raise Unsupported('result list not found')
            r = View(e, st, p[0], mt, e.rd_cont(st, p[0], e.cont_mt(st, p[0]) or mt))
            k = L['it'] - x['first']
            return [('position', And(0 <= k, k <= x['count'], r.n == k))] + done(e, kind, r, x['raw'], x['first'], k)
        return f

    def p_list(kind):
        def f(x, o):
            raw, fi, co = x['raw'], x['first'], x['count']
            if o.kind == 'throw': return [('only if a value is unreadable', And(BoolVal(o.val == 'std::invalid_argument'), Exists(i, And(fi <= i, i < fi + co, Not(good(kind, raw.at(i)))))))]
            if o.kind != 'ret': return None
            r = o.vec('res')
            return [('one value per parameter', r.n == co)] + [('all parameters: ' + a, b) for a, b in done(o.e, kind, r, raw, fi, co)]
        return f
    for kind, en, nm in (('i', 'd_ints', 'asIntegers'), ('r', 'd_reals', 'asReals'), ('s', 'd_strings', 'asStrings')):
        ll = LoopSpec(r'std::transform<|Command::as<', 0, {'it': ('cur', '__first', 'it', 'i')}, linv(kind), name='values', variant=lambda L: L.e.x['first'] + L.e.x['count'] - L['it'])
        T.append(Target('Command::%s()' % nm, en, s_list(kind), p_list(kind), loops=[ll], models=TEXT, expects=('ret',) if kind == 's' else ('ret', 'throw'), under=['Command::' + nm, 'Command::as']))

    def s_tup(kind, n):
        def f(x):
            handles(x)
            for k in range(n):
                x.raw('abc'[k], size=32 if kind == 's' else 16, lazy=False)
                if kind == 's': puth2(x, x.ptrs['abc'[k]][0])
            command(x)
        return f

    def p_tup(kind, n):
        def f(x, o):
            raw, fi, co = x['raw'], x['first'], x['count']
            ok = And(co >= n, *[good(kind, raw.at(fi + k)) for k in range(n)])
            if o.kind == 'throw': return [('only too few or unreadable parameters', And(Not(ok), BoolVal(o.val == 'std::invalid_argument')))]
            if o.kind != 'ret': return None
            vals = [o.e.S(o.st, o.mem('abc'[k], 0, I64)) if kind in 'is' else o.mem('abc'[k], 0, ('fp', 'x86_fp80')).t for k in range(n)]
            return [('enough readable parameters', ok)] + [('value %d' % k, vals[k] == value(o.e, kind, raw.at(fi + k))) for k in range(n)]
        return f
    for kind, en, nm, n in (('i', 'd_two', 'asIntegers<2>', 2), ('r', 'd_three', 'asReals<3>', 3), ('s', 'd_twos', 'asStrings<2>', 2)):
        T.append(Target('Command::%s()' % nm, en, s_tup(kind, n), p_tup(kind, n), models=TEXT, expects=('ret', 'throw'), under=['Command::asTuple', 'Command::as']))
    return T


ASSUMPTIONS = ['texts are abstracted to handles (equal texts, equal handles); their characters are only accessed by isCommand (proved on characters), isToken (C08) and parse (C04)',
               'the storage of the arguments is not moved while views of it exist (operations that could move it are refused in the constructor)', 'addresses of views are not interpreted']
