"""contracts of the process environment: the command line (CommandParser, C09), paths, files and standard streams.
The content of the command line enters as free values: whether a name occurs, whether it has a value, the value; files may fail to open."""
from spec import *
import re
NAMES = []          # interned texts of paths
I64, I8, PTR = ('int', 64), ('int', 8), ('ptr',)
FP = 'x86_fp80'


def intern(s):
    if s not in NAMES: NAMES.append(s)
    return NAMES.index(s)


def has(n): return z3.Bool('has ' + n)
def hasval(n): return z3.Bool('has value of ' + n)
def malformed(n): return z3.Bool('malformed value of ' + n)
def realval(e, n): return z3.Const('real value of ' + n, e.fsort(FP))
def intval(n): return z3.Int('integer value of ' + n)
def missing(k): return z3.Bool('no argument %d' % k)
def opens(f): return z3.Bool('opens ' + f)


def text(e, st, p, n=None):
    """constant characters"""
    if not isinstance(p, CP): raise Unsupported('text at %r' % (p,))
    if p.obj.startswith('arg '): return p.obj.split('#')[0]
    r, k = '', 0
    while n is None or k < n:
        v = e.load_cell(st, p.obj, p.off + k, 1, I8)
        if not isinstance(v, IV) or v.c is None: raise Unsupported('text that is not constant')
        if n is None and v.c == 0: break
        r += chr(v.c % 256)
        k += 1
    return r


def svtext(e, st, ln, p):
    if isinstance(p, CP) and p.obj.startswith('arg '): return p.obj.split('#')[0]
    n = z3.simplify(e.S(st, ln))
    if not z3.is_int_value(n): raise Unsupported('text of symbolic length')
    if n.as_long() == 0: return ''
    return text(e, st, p, n.as_long())


def start(x):
    """global variables with a constant initialiser hold it"""
    e, st = x.e, x.st
    for name in list(e.mod.globals):
        if not re.search(r'nitialized|ValidateBase|Validator|Interactor|Multipass|Generator|ConstraintsBase', name): continue
        oid = e.global_obj(st, name)
        o = st.mem[oid]
        if not o.lazy: continue
        ty, init, ro = e.mod.glob(name)
        if init is None: continue
        o.lazy, o.zero = False, True
        e.init_cells(st, o, 0, ty, init)


def only_parsed(c, k):
    p = c.args[k]
    if not (isinstance(p, CP) and 'arguments' in p.obj): raise Unsupported('a command line parser other than ValidateBase::arguments')
    c.e.ub(c.st, 'command line parsed before it is read', BoolVal(c.st.g.get('parsed') == 2))


def m_parse(c):
    c.e.contracts_used.add('CommandParser::CommandParser')
    n, v = c.args[1], c.args[2]
    c.e.ub(c.st, 'the arguments of main are parsed', And(c.e.S(c.st, n) == Int('argc'), BoolVal(isinstance(v, CP) and v.obj.startswith('argv'))))
    c.st.g['parsed'] = 1
    return None


def m_assign_parser(c):
    if c.st.g.get('parsed') == 1 and isinstance(c.args[0], CP) and 'arguments' in c.args[0].obj: c.st.g['parsed'] = 2
    return c.args[0]


def m_arg(c):
    """operator[](Integer)"""
    only_parsed(c, 0)
    e, st = c.e, c.st
    k = z3.simplify(e.S(st, c.args[-1]))
    if not z3.is_int_value(k): raise Unsupported('argument of symbolic number')
    k = k.as_long()
    o = next((o for o in st.mem if o.startswith('arg %d#' % k)), None) or e.new_obj(st, 'arg %d' % k, None, 1, lazy=True)
    t = st.fork()
    t.assume(missing(k))
    st.assume(Not(missing(k)))
    n = Int('length of arg %d' % k)
    st.assume(n >= 0)
    return [(st, 'ret', [IV(n, 64, 'B'), CP(o, 0)]), (t, 'throw', 'std::out_of_range')]


def m_command(raw):
    def f(c):
        only_parsed(c, 1)
        e, st = c.e, c.st
        n = svtext(e, st, c.args[-2], c.args[-1])
        if not raw: n = 'command ' + n
        st.assume(Implies(hasval(n), has(n)))
        e.store(st, c.args[0], e.const(intern(n), 64), I64)
        return None
    return f


def name_of(c, p):
    v = c.e.load(c.st, p, I64)
    if v.c is None: raise Unsupported('unknown object')
    return NAMES[v.c]


def m_exists(c): return has(name_of(c, c.args[0]))


def value(c, n, v, default):
    """outcomes of asReal / asInteger"""
    e, st = c.e, c.st
    bad = st.fork()
    bad.assume(And(hasval(n), malformed(n)) if default is not None else Or(Not(hasval(n)), malformed(n)))
    if default is None:
        st.assume(And(hasval(n), Not(malformed(n))))
        return [(st, 'ret', v), (bad, 'throw', 'std::invalid_argument')]
    st.assume(Not(And(hasval(n), malformed(n))))
    if isinstance(v, FV): r = FV(If(hasval(n), v.t, default.t), FP)
    else: r = IV(If(hasval(n), v.t, e.S(st, default)), 64, 'S')
    return [(st, 'ret', r), (bad, 'throw', 'std::invalid_argument')]


def m_real(c):
    n = name_of(c, c.args[0])
    return value(c, n, FV(realval(c.e, n), FP), c.args[1] if len(c.args) > 1 else None)


def m_integer(c):
    n = name_of(c, c.args[0])
    v = intval(n)
    c.e.bounded(c.st, v, I64MIN, I64MAX)
    return value(c, n, IV(v, 64, 'S'), c.args[1] if len(c.args) > 1 else None)


def m_string(c):
    n = name_of(c, c.args[1])
    e, st = c.e, c.st
    bad = st.fork()
    bad.assume(Not(hasval(n)))
    st.assume(hasval(n))
    T = e.types.mt(STRING)
    comps = tuple(z3.Const('value of %s.%d' % (n, k), s) for k, s in enumerate(e.comps(T)))
    e.wr_cont(st, c.args[0], T, comps)
    e.cont_facts(st, T, comps)
    return [(st, 'ret', None), (bad, 'throw', 'std::invalid_argument')]


def m_seed(c):
    c.st.g['seed'] = c.st.g.get('seed', ()) + (c.e.S(c.st, c.args[0]),)
    return None


def m_logger(c):
    c.st.g['logger'] = 1
    p = c.args[2]
    ok = isinstance(p, EP) and z3.eq(z3.simplify(p.idx), IntVal(0))
    c.e.ub(c.st, 'constraints are written to the given file', And(c.e.S(c.st, c.args[1]) == z3.Const('value of command --constraints_file.0', IntSort()), BoolVal(ok)))
    return None


def m_assign_logger(c):
    if c.st.g.get('logger') == 1 and isinstance(c.args[0], CP) and 'constraint' in c.args[0].obj: c.st.g['logger'] = 2
    return c.args[0]


# ---------------------------------------------------------------- paths
def m_path(c):
    """path(Source const&)"""
    e, st, p = c.e, c.st, c.args[1]
    src = c.dem.split('path::path<')[1]
    if src.startswith('std::basic_string_view'): n = svtext(e, st, e.load(st, p, I64), e.load(st, e.padd_const(p, 8), PTR))
    elif src.startswith('std::__cxx11::basic_string'): n = const_string(e, st, p)
    else: n = text(e, st, p)
    e.store(st, c.args[0], e.const(intern(n), 64), I64)
    return None


def const_string(e, st, p):
    mt = e.cont_mt(st, p)
    n, a = e.rd_cont(st, p, mt)
    n = z3.simplify(n)
    if not z3.is_int_value(n): raise Unsupported('string that is not constant')
    r = ''
    for i in range(n.as_long()):
        ch = e.fint('chr')
        v = next((k for k in range(32, 127) if e.qcheck(st, Select(a, i) != k) == 'unsat'), None)
        if v is None: raise Unsupported('string that is not constant')
        r += chr(v)
    return r


def m_div(c):
    a, b = [name_of(c, p) for p in c.args[1:3]]
    c.e.store(c.st, c.args[0], c.e.const(intern(b if b.startswith('/') else a + '/' + b), 64), I64)
    return None


def m_copy_path(c):
    c.e.store(c.st, c.args[0], c.e.load(c.st, c.args[1], I64), I64)
    return None


def m_pathstr(c):
    e, st = c.e, c.st
    T = e.types.mt(STRING)
    comps = tuple(e.fresh('path', s) for s in e.comps(T))
    e.wr_cont(st, c.args[0], T, comps)
    e.cont_facts(st, T, comps)
    st.assume(comps[0] <= 4096)
    return None


# ---------------------------------------------------------------- streams
def file_obj(e, st, n, key):
    vt = e.new_obj(st, 'vtable.file', None, 64)
    e.store(st, CP(vt, 0), e.const(16, 64), I64)
    o = e.new_obj(st, n, None, 600, lazy=True)
    e.store(st, CP(o, 0), CP(vt, 24), PTR)
    st.g[('file', o)] = key
    return CP(o, 0)


OUTMODES = {16 | a | b | c for a in (0, 2) for b in (0, 32) for c in (0, 4)}      # out, all of them truncate


def m_make(c):
    e, st = c.e, c.st
    n = name_of(c, c.args[1])
    if 'basic_ofstream' in c.dem.split('(')[0].split('make_unique')[1][:60]:
        m = e.S(st, e.load(st, c.args[2], ('int', 32))) if len(c.args) > 2 else IntVal(16)
        m = z3.simplify(m)
        if not z3.is_int_value(m) or m.as_long() not in OUTMODES: n += ' (mode %s)' % m
        n = 'out ' + n
    else: n = 'in ' + n
    e.store(st, c.args[0], file_obj(e, st, 'file', n), PTR)
    return None


def m_local_file(c):
    """std::ifstream / std::ofstream opened by path"""
    e, st, p = c.e, c.st, c.args[0]
    n = name_of(c, c.args[1])
    if 'basic_ofstream' in c.dem.split('(')[0].split('::')[1]:
        m = z3.simplify(e.S(st, c.args[2])) if len(c.args) > 2 else IntVal(16)
        if not z3.is_int_value(m) or m.as_long() not in OUTMODES: n += ' (mode %s)' % m
        n = 'out ' + n
    else: n = 'in ' + n
    if p.off: raise Unsupported('file inside of another object')
    vt = e.new_obj(st, 'vtable.file', None, 64)
    e.store(st, CP(vt, 0), e.const(16, 64), I64)
    e.store(st, p, CP(vt, 24), PTR)
    st.g[('file', p.obj)] = n
    st.g[('data', p.obj)] = ()
    st.g['opened'] = st.g.get('opened', ()) + (n,)
    return None


def m_close_file(c):
    """destructor / close / flush: what was written reaches the file"""
    st, o = c.st, c.args[0].obj
    n = st.g.get(('file', o))
    if n and n.startswith('out '): st.g[('written', n[4:])] = st.g.get(('data', o), ())
    return c.args[0]


def m_endl(c):
    o = c.args[0].obj
    c.st.g[('data', o)] = c.st.g.get(('data', o), ()) + ('\n',)
    return m_close_file(c)


def m_omanip(c):
    nm = c.e.mod.dem(c.args[1].name) if isinstance(c.args[1], FnP) else ''
    if 'std::endl<' in nm: return m_endl(c)
    if 'std::flush<' in nm: return m_close_file(c)
    raise Unsupported('stream manipulator %s' % nm)


def m_write_int(c):
    o = c.args[0].obj
    c.st.g[('data', o)] = c.st.g.get(('data', o), ()) + (c.e.S(c.st, c.args[1]),)
    return c.args[0]


def m_write_string(c):
    e, st, o = c.e, c.st, c.args[0].obj
    st.g[('data', o)] = st.g.get(('data', o), ()) + (tuple(e.rd_cont(st, c.args[1], e.types.mt(STRING))),)
    return c.args[0]


def m_read_int(c):
    """istream >> Integer: the number in the file"""
    e, st = c.e, c.st
    v = z3.Int('number in ' + key_of_stream(st, c.args[0]))
    e.store(st, c.args[1], IV(v, 64, 'S'), I64)
    return c.args[0]


def m_exists_file(c): return z3.Bool('exists ' + name_of(c, c.args[0]))


def m_remove(c):
    n = name_of(c, c.args[0])
    c.st.g['removed'] = c.st.g.get('removed', ()) + ((n, any(isinstance(k, tuple) and k[0] == 'file' and v in ('in ' + n, 'out ' + n) for k, v in c.st.g.items())),)
    return z3.Bool('exists ' + n)


def m_str(c):
    """ostringstream::str()"""
    e, st = c.e, c.st
    T = e.types.mt(STRING)
    if 'nextpassBuffer' not in c.args[1].obj: raise Unsupported('another string stream')
    comps = tuple(z3.Const('buffer.%d' % k, s) for k, s in enumerate(e.comps(T)))
    e.wr_cont(st, c.args[0], T, comps)
    e.cont_facts(st, T, comps)
    return None


def m_exit_code(c): return [(c.st, 'exit', c.args[0])]


FILES = [(r'^std::basic_ostream<.*>::operator<<\(std::basic_ostream<char, std::char_traits<char> >& \(\*\)', m_omanip), (r'^std::basic_[io]fstream<.*>::basic_[io]fstream<std::filesystem', m_local_file), (r'^std::basic_[io]fstream<.*>::(~basic_[io]fstream|close)\(', m_close_file), (r'^std::basic_ostream<.*>::flush\(\)|^std::basic_ostream<.*>& std::flush<', m_close_file), (r'^std::basic_ostream<.*>& std::endl<', m_endl),
         (r'^std::basic_ostream<.*>::operator<<\(long\)', m_write_int), (r'^std::basic_ostream<.*>& std::operator<< <char, std::char_traits<char>, std::allocator<char> ?>\(', m_write_string), (r'^std::basic_istream<.*>::operator>>\(long&\)', m_read_int),
         (r'^std::filesystem::exists\(', m_exists_file), (r'^std::filesystem::remove\(std::filesystem::__cxx11::path const&\)', m_remove), (r'basic_ostringstream<.*>::str\(\)', m_str), (r'^exit$|^quick_exit$|^_exit$|^std::exit', m_exit_code)]


def key_of_stream(st, p):
    if isinstance(p, NullP): return 'none'
    if not isinstance(p, CP): raise Unsupported('stream %r' % (p,))
    for g, k in (('@_ZSt3cin', 'stdin'), ('@_ZSt4cout', 'stdout'), ('@_ZSt4cerr', 'stderr')):
        if p.obj == g: return k
    return st.g.get(('file', p.obj), 'unknown')


def m_good(c): return opens(key_of_stream(c.st, c.args[0]))


def m_manip(c):
    f = c.args[1]
    nm = c.e.mod.dem(f.name) if isinstance(f, FnP) else ''
    m = re.search(r'std::(noskipws|skipws|boolalpha|noboolalpha|fixed|scientific|defaultfloat)\b', nm)
    if not m: raise Unsupported('stream manipulator %s' % nm)
    k, v = {'noskipws': ('skip', 0), 'skipws': ('skip', 1), 'boolalpha': ('boolalpha', 1), 'noboolalpha': ('boolalpha', 0), 'fixed': ('float', 'fixed')}.get(m.group(1), ('float', m.group(1)))
    c.st.g[(k, c.args[0].obj)] = v
    return c.args[0]


def m_precision(c):
    v = z3.simplify(c.e.S(c.st, c.args[1]))
    c.st.g[('precision', c.args[0].obj)] = v.as_long() if z3.is_int_value(v) else None
    return c.args[0]


def g_file(c): return c.e.const(intern(key_of_stream(c.st, c.args[0])), 64)
def g_skip(c):
    v = c.st.g.get(('skip', c.args[0].obj))
    return BoolVal(bool(v)) if v is not None else z3.Bool('skipws is not set')
def g_format(c):
    o = c.args[0].obj
    return BoolVal([c.st.g.get((k, o)) for k in ('boolalpha', 'float', 'precision')] == [1, 'fixed', 6])


def noop(c): return c.args[0] if c.args else None


M = [(r'^ghost_file$', g_file), (r'^ghost_skip$', g_skip), (r'^ghost_format$', g_format),
     (r'^CommandParser::CommandParser\(int, char\*\*\)', m_parse), (r'^CommandParser::~CommandParser', noop), (r'^CommandParser::operator=\(CommandParser&&\)', m_assign_parser),
     (r'^CommandParser::operator\[\]\(long\) const', m_arg), (r'^CommandParser::operator\[\]\(std::basic_string_view', m_command(False)), (r'^CommandParser::getRaw\(std::basic_string_view', m_command(True)),
     (r'^Command::(exists\(\)|operator bool\(\)) const', m_exists), (r'^Command::~Command', noop),
     (r'^ParameterBase::asReal\(', m_real), (r'^ParameterBase::asInteger\(', m_integer), (r'^ParameterBase::asString(\[abi:cxx11\])?\(\) const', m_string),
     (r'^Random::seed\(unsigned long', m_seed), (r'^ConstraintsLogger::ConstraintsLogger\(std::basic_string_view', m_logger), (r'^ConstraintsLogger::~ConstraintsLogger', noop), (r'^ConstraintsLogger::operator=\(ConstraintsLogger&&\)', m_assign_logger),
     (r'^std::filesystem::__cxx11::path::path<', m_path), (r'^std::filesystem::__cxx11::path::~path', noop), (r'^std::filesystem::__cxx11::operator/\(', m_div), (r'^std::filesystem::__cxx11::path::path\(std::filesystem::__cxx11::path (const&|&&)\)', m_copy_path),
     (r'^std::filesystem::__cxx11::path::string(\[abi:cxx11\])?\(\) const', m_pathstr),
     (r'make_unique<std::basic_[io]fstream', m_make), (r'default_delete<std::basic_[io]fstream<.*>::operator\(\)', noop), (r'^std::basic_ios<.*>::good\(\) const', m_good),
     (r'^std::basic_[io]stream<.*>::operator(>>|<<)\(std::ios_base& \(\*\)\(std::ios_base&\)\)', m_manip), (r'std::operator<< <.*>\(.*std::_Setprecision\)', m_precision)]
