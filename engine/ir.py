"""LLVM IR (text, clang 18, opaque pointers) reader.

Only the functions that are reached are parsed.  Types are interned tuples:
  ('int',w) ('fp',name) ('ptr',) ('void',) ('arr',n,T) ('vec',n,T) ('st',name,fields,packed) ('label',) ('meta',) ('fn',)
Operands are tuples:
  ('reg',name) ('int',v) ('fp',text) ('null',) ('undef',) ('zero',) ('glob',name) ('cgep',...) ('agg',[(ty,op)..]) ('str',bytes) ('bool',b) ('meta',txt)
"""
import re, subprocess, bisect

class IRError(Exception):
    pass

_tok = re.compile(r'''\s*(?:
  (?P<cstr>c"(?:[^"\\]|\\.)*") |
  (?P<str>"(?:[^"\\]|\\.)*") |
  (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*)) |
  (?P<attr>\#[0-9]+) |
  (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9a-fA-F]+|-?[0-9]+) |
  (?P<id>[a-zA-Z_][-a-zA-Z$._0-9]*) |
  (?P<p>\.\.\.|[=,(){}\[\]<>*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = _tok.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise IRError('tokenize: ' + s[pos:pos + 60])
        pos = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


def unq(name):
    # %"a b" -> a b ; %a -> a
    if len(name) > 1 and name[1] == '"':
        return name[2:-1]
    return name[1:]


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'extra', 'line', 'text')

    def __init__(self, op, res=None, ty=None, args=None, extra=None, line=None, text=None):
        self.op, self.res, self.ty, self.args, self.extra, self.line, self.text = op, res, ty, args, extra, line, text

    def __repr__(self):
        return '%s = %s' % (self.res, self.text)


class Func:
    def __init__(self, mod, name, lines):
        self.mod, self.name, self.lines = mod, name, lines
        self.parsed = False

    @property
    def dem(self):
        return self.mod.dem(self.name)

    def parse(self):
        if not self.parsed:
            self.parsed = True
            Parser(self.mod).func(self)
        return self


class Module:
    def __init__(self, path, ptrsize=8):
        self.path = path
        self.ptrsize = ptrsize
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.types_txt = {}
        self.types = {}
        self.meta = {}
        self._dem = {}
        self._sz = {}
        self.sub = {}
        cur = None
        with open(path) as f:
            for ln in f:
                if cur is not None:
                    if ln.startswith('}'):
                        fn = Func(self, cur[0], cur[1])
                        self.funcs[cur[0]] = fn
                        cur = None
                    else:
                        cur[1].append(ln.rstrip('\n'))
                    continue
                c = ln[:1]
                if c == 'd':
                    if ln.startswith('define'):
                        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                        nm = unq('@' + m.group(1))
                        cur = (nm, [ln.rstrip('\n')])
                    elif ln.startswith('declare'):
                        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                        self.decls[unq('@' + m.group(1))] = ln
                elif c == '%':
                    m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                    if m:
                        self.types_txt[unq(m.group(1))] = m.group(2)
                elif c == '@':
                    m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                    self.globals[unq(m.group(1))] = m.group(2)
                elif c == '!':
                    m = re.match(r'!(\d+) = (.*)$', ln)
                    if m:
                        self.meta[int(m.group(1))] = m.group(2)
        self.pglobals = {}
        self._demangle_all()

    # -- names -------------------------------------------------------------
    def _demangle_all(self):
        names = list(self.funcs) + list(self.decls) + list(self.globals)
        p = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
        out = p.stdout.split('\n')
        for a, b in zip(names, out):
            self._dem[a] = b
        # mangling extensions that GNU c++filt does not know
        left = [a for a in names if a.startswith('_Z') and self._dem[a] == a]
        if left:
            q = subprocess.run(['llvm-cxxfilt'], input='\n'.join(left) + '\n', capture_output=True, text=True)
            for a, b in zip(left, q.stdout.split('\n')):
                if '<' in b:
                    h, _, t = b.partition('<')
                    while '>>' in t: t = t.replace('>>', '> >')
                    b = h + '<' + t
                self._dem[a] = b

    def dem(self, n):
        return self._dem.get(n, n)

    def find(self, rx):
        r = re.compile(rx)
        return [n for n in self.funcs if r.search(self.dem(n))]

    # -- types -------------------------------------------------------------
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            txt = self.types_txt.get(name)
            if txt is None or txt == 'opaque':
                t = ('st', name, None, False)
            else:
                ps = Parser(self)
                ps.set(txt)
                t0 = ps.type()
                t = ('st', name, t0[2], t0[3])
            self.types[name] = t
        return t

    def align(self, t):
        k = t[0]
        if k == 'int':
            w = t[1]
            if w <= 8: return 1
            if w <= 16: return 2
            if w <= 32: return 4
            if w <= 64: return 8 if self.ptrsize == 8 else 4
            return 16
        if k == 'ptr': return self.ptrsize
        if k == 'fp':
            if t[1] == 'float': return 4
            if t[1] == 'double': return 8 if self.ptrsize == 8 else 4
            if t[1] == 'x86_fp80': return 16 if self.ptrsize == 8 else 4
        if k in ('arr',): return self.align(t[2])
        if k == 'vec': return self.size(t)
        if k == 'st':
            if t[3]: return 1
            return max([self.align(f) for f in t[2]] or [1])
        raise IRError('align %r' % (t,))

    def size(self, t):
        k = t[0]
        if k == 'int':
            w = t[1]
            for b in (8, 16, 32, 64, 128):
                if w <= b: return b // 8
            return (w + 7) // 8
        if k == 'ptr': return self.ptrsize
        if k == 'fp':
            return {'float': 4, 'double': 8, 'x86_fp80': 16 if self.ptrsize == 8 else 12}[t[1]]
        if k in ('arr', 'vec'): return t[1] * self.size(t[2])
        if k == 'st':
            key = t[1] if t[1] else None
            if key and key in self._sz: return self._sz[key][0]
            s, _ = self.layout(t)
            return s
        raise IRError('size %r' % (t,))

    def layout(self, t):
        key = t[1]
        if key and key in self._sz: return self._sz[key]
        off = 0
        offs = []
        al = 1
        if t[2] is None:
            return (0, [])
        for f in t[2]:
            a = 1 if t[3] else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + al - 1) // al * al
        if key: self._sz[key] = (off, offs)
        return (off, offs)

    # -- globals -----------------------------------------------------------
    def glob(self, name):
        """returns (type, init operand or None, const?)"""
        g = self.pglobals.get(name)
        if g is None:
            txt = self.globals[name]
            ps = Parser(self)
            ps.set(re.sub(r', comdat(\(\$[^)]*\))?', '', txt))
            isconst = False
            ext = False
            while True:
                k, v = ps.peek()
                if v in ('global', 'constant'):
                    isconst = v == 'constant'
                    ps.next()
                    break
                if v in ('external', 'extern_weak'):
                    ext = True
                if v == 'alias':
                    self.pglobals[name] = g = (None, None, False)
                    return g
                ps.next()
                if v in ('thread_local', 'addrspace') and ps.peek()[1] == '(':
                    ps.skip_parens()
            ty = ps.type()
            init = None
            if not ext and ps.peek()[1] not in (',', None):
                init = ps.operand(ty)
            g = self.pglobals[name] = (ty, init, isconst)
        return g

    def loc(self, n):
        """metadata id -> 'file:line' """
        m = self.meta.get(n)
        if not m: return None
        l = re.search(r'line: (\d+)', m)
        s = re.search(r'scope: !(\d+)', m)
        f = None
        k = 0
        while s and k < 20:
            k += 1
            mm = self.meta.get(int(s.group(1)), '')
            ff = re.search(r'file: !(\d+)', mm)
            if ff:
                f = re.search(r'filename: "([^"]*)"', self.meta.get(int(ff.group(1)), ''))
                break
            s = re.search(r'scope: !(\d+)', mm)
        return '%s:%s' % (f.group(1) if f else '?', l.group(1) if l else '?')


ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned', 'immarg',
         'dead_on_unwind', 'writable', 'nofree', 'readnone', 'allocptr', 'allocalign', 'swiftself', 'nest', 'noreturn', 'nounwind'}
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref', 'preallocated', 'inalloca', 'memory', 'range', 'initializes', 'captures', 'nofpclass'}
FM = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


class Parser:
    def __init__(self, mod):
        self.mod = mod

    def set(self, txt):
        self.t = tokenize(txt)
        self.i = 0

    def peek(self, k=0):
        if self.i + k < len(self.t): return self.t[self.i + k]
        return (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] not in ('str', 'cstr'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %s got %r at %r' % (v, self.peek(), self.t[max(0, self.i - 8):self.i + 3]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            _, v = self.next()
            if v == '(': d += 1
            elif v == ')': d -= 1

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = ('ptr',)
                if self.accept('addrspace'): self.skip_parens()
            elif re.match(r'i\d+$', v): t = ('int', int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'): t = ('fp', v)
            elif v == 'void': t = ('void',)
            elif v == 'label': t = ('label',)
            elif v == 'metadata': t = ('meta',)
            elif v == 'token': t = ('token',)
            else: raise IRError('type? %s' % v)
        elif k == 'loc':
            t = self.mod.named(unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            t = ('st', None, tuple(fs), False)
        elif v == '<':
            if self.accept('{'):
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'): break
                        self.expect(',')
                self.expect('>')
                t = ('st', None, tuple(fs), True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise IRError('type? %r in %r' % (v, self.t[max(0, self.i - 6):self.i + 3]))
        # function type
        if self.peek()[1] == '(' and self.peek()[0] == 'p':
            save = self.i
            try:
                self.next()
                if not self.accept(')'):
                    while True:
                        if self.accept('...'): pass
                        else: self.type()
                        if self.accept(')'): break
                        self.expect(',')
                t = ('fn', t)
            except IRError:
                self.i = save
        return t

    def operand(self, ty):
        k, v = self.next()
        if k == 'loc': return ('reg', unq(v))
        if k == 'glob': return ('glob', unq(v))
        if k == 'num':
            if ty[0] == 'fp': return ('fp', v)
            return ('int', int(v))
        if k == 'cstr':
            return ('str', self.cbytes(v[2:-1]))
        if k == 'id':
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v in ('true', 'false'): return ('bool', v == 'true')
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'): self.next()
                self.expect('(')
                bt = self.type()
                args = []
                while self.accept(','):
                    self.accept('inrange')
                    t = self.type()
                    args.append((t, self.operand(t)))
                self.expect(')')
                return ('cgep', bt, args)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                o = self.operand(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, o, t2)
            if v in ('sub', 'add', 'mul', 'xor', 'shl', 'icmp'):
                while self.peek()[1] in ('nuw', 'nsw', 'eq', 'ne'): self.next()
                self.expect('(')
                t = self.type()
                a = self.operand(t)
                self.expect(',')
                t2 = self.type()
                b = self.operand(t2)
                self.expect(')')
                return ('cbin', v, t, a, b)
            raise IRError('operand? %s' % v)
        if v == '{' or v == '[' or v == '<':
            if v == '<' and self.peek()[1] == '{':
                self.next(); end = '}'
            else:
                end = {'{': '}', '[': ']', '<': '>'}[v]
            xs = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    xs.append((t, self.operand(t)))
                    if self.accept(end): break
                    self.expect(',')
            if v == '<' and end == '}': self.expect('>')
            return ('agg', xs)
        if k == 'meta':
            return ('meta', v)
        raise IRError('operand? %r' % ((k, v),))

    @staticmethod
    def cbytes(s):
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92); i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return bytes(out)

    def attrs(self):
        a = {}
        while True:
            k, v = self.peek()
            if k == 'id' and v in PATTRS:
                self.next()
                if v == 'align':
                    if self.peek()[1] == '(': self.skip_parens()
                    else: self.next()
                elif self.peek()[1] == '(':
                    if v in ('sret', 'byval'):
                        self.next()
                        a[v] = self.type()
                        self.expect(')')
                    else: self.skip_parens()
            elif k == 'id' and v in ATTRS:
                self.next(); a[v] = True
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.accept('='): self.next()
            else:
                return a

    def typed(self):
        t = self.type()
        self.attrs()
        return (t, self.operand(t))

    def func(self, fn):
        hdr = fn.lines[0]
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr)
        self.set(hdr[:m.start()])
        # skip linkage etc. find return type = last type before name
        toks = self.t
        self.i = 1
        a = None
        while self.i < len(toks):
            save = self.i
            k, v = self.peek()
            if (k == 'id' and (v in ('void', 'ptr', 'float', 'double', 'x86_fp80') or re.match(r'i\d+$', v))) or k == 'loc' or v in ('{', '[', '<'):
                a = self.type()
            elif k == 'id' and v in PATTRS:
                self.attrs()
            else:
                self.next()
        fn.rty = a
        rest = hdr[m.end() - 1:]
        d = 0
        for j, ch in enumerate(rest):
            if ch == '(': d += 1
            elif ch == ')':
                d -= 1
                if d == 0: break
        self.set(rest[:j + 1])
        self.expect('(')
        fn.params = []
        if not self.accept(')'):
            while True:
                if self.accept('...'):
                    self.expect(')'); break
                t = self.type()
                at = self.attrs()
                k, v = self.peek()
                if k == 'loc':
                    nm = unq(v); self.next()
                else:
                    nm = str(len(fn.params))
                fn.params.append((t, nm, at))
                if self.accept(')'): break
                self.expect(',')
        fn.unnamed = None
        blocks = {}
        order = []
        cur = None
        lines = fn.lines[1:]
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'((?:"[^"]*")|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                cur = []
                blocks[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                # unnamed entry block: number = count of params
                nm = str(len([p for p in fn.params]))
                cur = []
                blocks[nm] = cur
                order.append(nm)
            # multi-line constructs
            if s.startswith('switch') or ' switch ' in s:
                while ']' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            elif (' invoke ' in s or s.startswith('invoke')) and 'unwind label' not in s:
                s += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in s:
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            cur.append(self.instr(s))
        fn.blocks, fn.order, fn.entry = blocks, order, order[0]

    def instr(self, s):
        line = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            line = int(m.group(1))
            s = s[:m.start()]
        s2 = re.sub(r'(, ![a-zA-Z.]+ !\d+)+$', '', s)
        self.set(s2)
        res = None
        if self.peek()[0] == 'loc' and self.peek(1)[1] == '=':
            res = unq(self.next()[1]); self.next()
        while self.peek()[1] in ('tail', 'musttail', 'notail'): self.next()
        op = self.next()[1]
        I = Instr(op, res, line=line, text=s2)
        f = getattr(self, 'i_' + op, None)
        if f: f(I)
        elif op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while self.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or self.peek()[1] in FM: fl.add(self.next()[1])
            I.ty = self.type()
            a = self.operand(I.ty)
            self.expect(',')
            b = self.operand(I.ty)
            I.args = (a, b); I.extra = fl; I.op = 'bin'
            I.extra = (op, fl)
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while self.peek()[1] in ('nneg', 'nuw', 'nsw'): self.next()
            t = self.type()
            a = self.operand(t)
            self.expect('to')
            I.ty = self.type()
            I.args = (t, a); I.extra = op; I.op = 'cast'
        else:
            raise IRError('instr ' + s)
        return I

    def i_ret(self, I):
        t = self.type()
        I.ty = t
        I.args = None if t[0] == 'void' else self.operand(t)

    def i_alloca(self, I):
        self.accept('inalloca')
        I.ty = self.type()
        I.args = None
        if self.accept(','):
            if self.peek()[1] != 'align':
                I.args = self.typed()

    def i_load(self, I):
        self.accept('atomic'); self.accept('volatile')
        I.ty = self.type()
        self.expect(',')
        I.args = self.typed()

    def i_store(self, I):
        self.accept('atomic'); self.accept('volatile')
        v = self.typed()
        self.expect(',')
        p = self.typed()
        I.args = (v, p)

    def i_getelementptr(self, I):
        while self.peek()[1] in ('inbounds', 'nuw', 'nusw'): self.next()
        I.ty = self.type()
        xs = []
        while self.accept(','):
            self.accept('inrange')
            t = self.type()
            xs.append((t, self.operand(t)))
        I.args = xs

    def i_icmp(self, I):
        self.accept('samesign')
        p = self.next()[1]
        t = self.type()
        a = self.operand(t)
        self.expect(',')
        b = self.operand(t)
        I.extra = p; I.ty = t; I.args = (a, b)

    def i_fcmp(self, I):
        while self.peek()[1] in FM: self.next()
        self.i_icmp(I)

    def i_fneg(self, I):
        while self.peek()[1] in FM: self.next()
        I.ty = self.type()
        I.args = self.operand(I.ty)

    def i_freeze(self, I):
        I.args = self.typed(); I.ty = I.args[0]

    def i_br(self, I):
        if self.accept('label'):
            I.args = (unq(self.next()[1]),)
        else:
            self.type()
            c = self.operand(('int', 1))
            self.expect(','); self.expect('label')
            a = unq(self.next()[1])
            self.expect(','); self.expect('label')
            b = unq(self.next()[1])
            I.args = (c, a, b)

    def i_switch(self, I):
        t = self.type()
        v = self.operand(t)
        self.expect(','); self.expect('label')
        d = unq(self.next()[1])
        self.expect('[')
        cs = []
        while not self.accept(']'):
            tt = self.type()
            o = self.operand(tt)
            self.expect(','); self.expect('label')
            cs.append((o, unq(self.next()[1])))
        I.ty = t; I.args = (v, d, cs)

    def i_unreachable(self, I):
        pass

    def i_phi(self, I):
        while self.peek()[1] in FM: self.next()
        I.ty = self.type()
        xs = []
        while True:
            self.expect('[')
            o = self.operand(I.ty)
            self.expect(',')
            b = unq(self.next()[1])
            self.expect(']')
            xs.append((o, b))
            if not self.accept(','): break
        I.args = xs

    def i_select(self, I):
        while self.peek()[1] in FM: self.next()
        c = self.typed(); self.expect(',')
        a = self.typed(); self.expect(',')
        b = self.typed()
        I.ty = a[0]; I.args = (c, a, b)

    def call(self, I):
        while self.peek()[1] in FM or self.peek()[1] in ('fastcc', 'coldcc', 'ccc'): self.next()
        self.attrs()
        t = self.type()
        if t[0] == 'fn': t = t[1]
        I.ty = t
        k, v = self.peek()
        if k == 'id' and v == 'asm':
            raise IRError('inline asm')
        callee = self.operand(('ptr',))
        self.expect('(')
        args = []
        if not self.accept(')'):
            while True:
                at = self.type()
                a2 = self.attrs()
                if at[0] == 'meta':
                    # skip metadata operand
                    d = 0
                    while True:
                        k, v = self.peek()
                        if d == 0 and v in (',', ')'): break
                        if v in ('(',): d += 1
                        if v in (')',): d -= 1
                        self.next()
                    args.append((at, ('meta', ''), a2))
                else:
                    args.append((at, self.operand(at), a2))
                if self.accept(')'): break
                self.expect(',')
        I.args = (callee, args)

    def i_call(self, I):
        self.call(I)
        I.extra = None

    def i_invoke(self, I):
        self.call(I)
        self.attrs()
        self.expect('to'); self.expect('label')
        a = unq(self.next()[1])
        self.expect('unwind'); self.expect('label')
        b = unq(self.next()[1])
        I.extra = (a, b)
        I.op = 'call'

    def i_landingpad(self, I):
        I.ty = self.type()
        cl = []
        while self.peek()[1] in ('cleanup', 'catch', 'filter'):
            v = self.next()[1]
            if v == 'cleanup': cl.append(('cleanup', None))
            else:
                t = self.type()
                cl.append((v, self.operand(t)))
        I.extra = cl

    def i_resume(self, I):
        I.args = self.typed()

    def i_extractvalue(self, I):
        a = self.typed()
        ix = []
        while self.accept(','): ix.append(int(self.next()[1]))
        I.args = (a, ix)

    def i_insertvalue(self, I):
        a = self.typed()
        self.expect(',')
        b = self.typed()
        ix = []
        while self.accept(','): ix.append(int(self.next()[1]))
        I.ty = a[0]
        I.args = (a, b, ix)

    def i_extractelement(self, I):
        a = self.typed(); self.expect(','); b = self.typed()
        I.args = (a, b)

    def i_fence(self, I):
        pass

    def i_atomicrmw(self, I):
        I.text = 'atomicrmw'

    def i_cmpxchg(self, I):
        I.text = 'cmpxchg'
