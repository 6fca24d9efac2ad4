"""Assumed contracts of the C++ runtime and standard library, keyed by demangled name.

Every function here is an assumption (trusted base); which of them a run actually used is counted and reported.
"""
import re
import z3
from vals import *
from sym import View


# ---------------------------------------------------------------- C++ type names
def split_args(s):
    out, d, cur = [], 0, ''
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in '<([{': d += 1
        elif ch in ')]}': d -= 1
        elif ch == '>' and (i == 0 or s[i - 1] != '-'): d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else: cur += ch
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out


def targs(ty):
    """template arguments of 'X<a, b>' (outermost)"""
    i = ty.index('<')
    j = ty.rindex('>')
    return split_args(ty[i + 1:j])


def parse_dem(dem):
    """demangled function -> (qualified name, params list, class, method, method template args)"""
    s = dem
    s = re.sub(r'\[abi:[^\]]*\]', '', s)
    s = re.sub(r' \[clone.*$', '', s)
    # strip trailing qualifiers
    while True:
        m = re.search(r'( const| volatile|&|&&| &| &&| noexcept)$', s)
        if m and s.endswith(m.group(0)): s = s[:-len(m.group(0))]
        else: break
    if not s.endswith(')'): return (s, [], '', s, [])
    d = 0
    i = len(s) - 1
    while i >= 0:
        if s[i] == ')': d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0: break
        i -= 1
    params = split_args(s[i + 1:-1])
    head = s[:i]
    # operator names containing < > or spaces
    mo = re.search(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|<|>|->\*|->|\(\)|\[\]| new\[\]| delete\[\]| new| delete|[-+*/%^&|~!=]=?|&&|\|\||,|==|!=|\+\+|--)(<.*>)?$', head)
    conv = None
    if mo:
        pre, op = head[:mo.start()], head[mo.start():]
    else:
        mc = re.search(r'operator [^()]*$', head)
        if mc and not re.search(r'[>)]$', head[:mc.start()].strip() or 'x'):
            pre, op = head[:mc.start()], head[mc.start():]
        else: pre, op = head, ''
    # qualified name: last depth-0 token
    d = 0
    k = len(pre) - 1
    while k >= 0:
        ch = pre[k]
        if ch in '>)]}':
            if not (ch == '>' and k and pre[k - 1] == '-'): d += 1
        elif ch in '<([{': d -= 1
        elif ch == ' ' and d == 0: break
        k -= 1
    q = pre[k + 1:] + op
    # split class::method
    d = 0
    k = len(q) - len(op) - 1 if op else len(q) - 1
    mt = []
    meth = None
    base = q if not op else q[:len(q) - len(op)]
    cls = ''
    if op:
        cls = base[:-2] if base.endswith('::') else base
        meth = op
    else:
        while k >= 0:
            ch = q[k]
            if ch in '>)]}': d += 1
            elif ch in '<([{': d -= 1
            elif ch == ':' and d == 0:
                cls = q[:k - 1]
                meth = q[k + 1:]
                break
            k -= 1
        if meth is None: meth = q
    if meth.endswith('>') and not meth.startswith('operator'):
        i = meth.index('<')
        mt = split_args(meth[i + 1:-1])
        meth = meth[:i]
    return (q, params, cls, meth, mt)


INT_T = {'long': (64, 's'), 'unsigned long': (64, 'u'), 'int': (32, 's'), 'unsigned int': (32, 'u'), 'short': (16, 's'),
         'unsigned short': (16, 'u'), 'char': (8, 's'), 'signed char': (8, 's'), 'unsigned char': (8, 'u'),
         'long long': (64, 's'), 'unsigned long long': (64, 'u'), 'std::size_t': (64, 'u')}


class Types:
    def __init__(self, eng):
        self.e = eng
        self.cache = {}
        self.custom = {}

    def norm(self, t):
        t = re.sub(r'\[abi:[^\]]*\]', '', t.strip())
        t = re.sub(r'\s*(const\s*)?(&&|&)$', '', t)
        t = re.sub(r'\bconst$', '', t).strip()
        if t.startswith('const '): t = t[6:]
        if t in ('std::string',): t = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
        return t

    def shape(self, t):
        t = self.norm(t)
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._shape(t)
        return r

    def mt(self, t):
        sh = self.shape(t)
        if len(sh.leaves) == 1 and sh.leaves[0].kind[0] == 'm': return sh.leaves[0].kind[1]
        return None

    def _shape(self, t):
        ps = self.e.mod.ptrsize
        if t in self.custom: return self.custom[t]()
        if t in INT_T:
            w, s = INT_T[t]
            if t in ('long', 'unsigned long') and ps == 4: w = 32
            return Shape(w // 8, [Leaf(0, ('i', w, s), w // 8)], t)
        if t == 'bool': return Shape(1, [Leaf(0, ('b',), 1)], t)
        if t == 'double': return Shape(8, [Leaf(0, ('f', 'double'), 8)], t)
        if t == 'float': return Shape(4, [Leaf(0, ('f', 'float'), 4)], t)
        if t == 'long double':
            n = 16 if ps == 8 else 12
            return Shape(n, [Leaf(0, ('f', 'x86_fp80'), n)], t)
        if t.endswith('*'): return Shape(ps, [Leaf(0, ('p',), ps)], t)
        m = re.match(r'(std::vector|std::__cxx11::basic_string|std::basic_string|std::pair|std::array|std::tuple|std::complex|std::set|std::map|std::deque|std::queue|std::multiset)<', t)
        if m:
            k = m.group(1)
            a = targs(t)
            if k == 'std::vector':
                if a[0] == 'bool': mt = VecT(self.shape('bool'), 40, 'vector<bool>')
                else: mt = VecT(self.shape(a[0]), 3 * ps, 'vector')
            elif k.endswith('basic_string'): mt = VecT(self.shape(a[0]), 32, 'string')
            elif k == 'std::deque': mt = VecT(self.shape(a[0]), 80, 'deque')
            elif k == 'std::queue': mt = VecT(self.shape(a[0]), 80, 'queue')
            elif k == 'std::set': mt = AssocT(self.shape(a[0]), None, 48, 'set')
            elif k == 'std::map': mt = AssocT(self.shape(a[0]), self.shape(a[1]), 48, 'map')
            elif k == 'std::pair': return self.struct(t, a)
            elif k == 'std::tuple': return self.struct(t, list(reversed(a)))
            elif k == 'std::complex': return self.struct(t, [a[0], a[0]])
            elif k == 'std::array':
                n = int(re.match(r'\d+', a[1]).group(0))
                return self.struct(t, [a[0]] * n)
            else: raise Unsupported('type ' + t)
            return Shape(mt.bytes, [Leaf(0, ('m', mt), mt.bytes)], t)
        # class known to LLVM
        for pre in ('struct.', 'class.'):
            n = pre + t
            if n in self.e.mod.types_txt:
                return self.from_llvm(self.e.mod.named(n), t)
        raise Unsupported('unknown C++ type ' + t)

    def align(self, sh):
        a = 1
        for lf in sh.leaves:
            k = lf.kind
            x = k[1].align if k[0] == 'm' else (16 if k == ('f', 'x86_fp80') and self.e.mod.ptrsize == 8 else min(lf.size, 8))
            a = max(a, x)
        return a

    def struct(self, t, fields):
        off = 0
        al = 1
        leaves = []
        for f in fields:
            sh = self.shape(f)
            a = self.align(sh)
            al = max(al, a)
            off = (off + a - 1) // a * a
            for lf in sh.leaves: leaves.append(Leaf(off + lf.off, lf.kind, lf.size))
            off += sh.size
        off = (off + al - 1) // al * al
        return Shape(off, leaves, t)

    def from_llvm(self, ty, name, signs=None):
        leaves = []

        def walk(t, off):
            if t[0] == 'st':
                if t[1] and re.match(r'class\.std::(vector|__cxx11::basic_string|map|set|deque)', t[1]):
                    raise Unsupported('container inside ' + name)
                _, offs = self.e.mod.layout(t)
                for f, o in zip(t[2], offs): walk(f, off + o)
            elif t[0] == 'arr':
                es = self.e.mod.size(t[2])
                for i in range(t[1]): walk(t[2], off + i * es)
            elif t[0] == 'int': leaves.append(Leaf(off, ('i', t[1], 's'), self.e.mod.size(t)))
            elif t[0] == 'fp': leaves.append(Leaf(off, ('f', t[1]), self.e.mod.size(t)))
            elif t[0] == 'ptr': leaves.append(Leaf(off, ('p',), self.e.mod.ptrsize))
        walk(ty, 0)
        return Shape(self.e.mod.size(ty), leaves, name)


# ---------------------------------------------------------------- element transfer
def get_elem(e, st, p, sh):
    out = []
    for lf in sh.leaves:
        q = e.padd_const(p, lf.off)
        if lf.kind[0] == 'm':
            out += list(e.rd_cont(st, q, lf.kind[1]))
        else:
            v = e.load(st, q, e.kind_ty(lf.kind))
            out.append(e.scalar_to(st, lf.kind, v))
    return out


def put_elem(e, st, p, sh, comps):
    k = 0
    for lf in sh.leaves:
        q = e.padd_const(p, lf.off)
        if lf.kind[0] == 'm':
            n = len(e.comps(lf.kind[1]))
            e.wr_cont(st, q, lf.kind[1], comps[k:k + n])
            k += n
        else:
            e.store(st, q, e.scalar_from(st, lf.kind, comps[k]), e.kind_ty(lf.kind))
            k += 1


def zero_elem(e, sh):
    out = []
    for lf in sh.leaves:
        if lf.kind[0] == 'm': out += list(empty_comps(e, lf.kind[1]))
        elif lf.kind[0] == 'i': out.append(z3.BitVecVal(0, lf.kind[1]) if e.bv else z3.IntVal(0))
        elif lf.kind[0] == 'b': out.append(z3.BoolVal(False))
        elif lf.kind[0] == 'f': out.append(z3.FPVal(0.0, e.fsort(lf.kind[1])))
        else: out.append(z3.IntVal(0))
    return out


def default_of(s):
    if s == z3.IntSort(): return z3.IntVal(0)
    if s == z3.BoolSort(): return z3.BoolVal(False)
    if isinstance(s, z3.ArraySortRef): return z3.K(s.domain(), default_of(s.range()))
    if isinstance(s, z3.BitVecSortRef): return z3.BitVecVal(0, s)
    if isinstance(s, z3.FPSortRef): return z3.FPVal(0.0, s)
    return z3.Const('default_%s' % s, s)


def I(e, k):
    return z3.BitVecVal(k, 64) if e.bv else z3.IntVal(k)


def empty_comps(e, mt):
    cs = e.comps(mt)
    if isinstance(mt, VecT):
        return tuple([I(e, 0)] + [default_of(s) for s in cs[1:]])
    if isinstance(mt, AssocT):
        return tuple([z3.K(cs[0].domain(), z3.BoolVal(False)), I(e, 0)] + [default_of(s) for s in cs[2:]])
    return tuple(default_of(s) for s in cs)


def fill_comps(e, mt, n, elem):
    cs = e.comps(mt)
    return tuple([n] + [z3.K(s.domain(), x) for s, x in zip(cs[1:], elem)])


def lt(e, a, b):
    return z3.ULT(a, b) if e.bv else a < b


def le(e, a, b):
    return z3.ULE(a, b) if e.bv else a <= b


def in_rng(e, i, lo, hi):
    return z3.And(le(e, lo, i), lt(e, i, hi))


def copy_range(e, st, mt, src_mt, src, lo, n, srccont):
    """contents of a fresh container of n elements copied from src[lo..lo+n)"""
    cs = e.comps(mt)
    out = [n]
    zero = z3.is_int_value(lo) and lo.as_long() == 0
    for s, x in zip(cs[1:], srccont[1:]):
        if zero: out.append(x)
        else:
            a = e.fresh('sub', s)
            i = z3.Const('i!sub', s.domain())
            st.assume(z3.ForAll([i], z3.Implies(in_rng(e, i, I(e, 0), n), z3.Select(a, i) == z3.Select(x, i + lo)), patterns=[z3.Select(a, i)]))
            out.append(a)
    return out


# ---------------------------------------------------------------- vector
def this_cont(c, T=None):
    """(ptr, mt, comps) of the container that is argument 0"""
    e, st = c.e, c.st
    p = c.args[0]
    mt = e.cont_mt(st, p)
    if mt is None:
        q, params, cls, meth, mta = parse_dem(c.dem)
        mt = e.types.mt(cls)
    return p, mt, e.rd_cont(st, p, mt)


def conv_scalar(e, st, kind, v):
    """value of another integer/float width to a component term of kind"""
    if kind[0] == 'i' and isinstance(v, IV) and v.w != kind[1]:
        raise Unsupported('implicit width conversion in emplace')
    return e.scalar_to(st, kind, v)


def build_from_args(c, sh, ptrs, types):
    """emplace: element of shape sh from constructor arguments passed by reference"""
    e, st = c.e, c.st
    if not ptrs: return zero_elem(e, sh)
    if len(ptrs) == 1:
        t = e.types.norm(types[0]) if types else sh.name
        try: psh = e.types.shape(t)
        except Unsupported: psh = None
        if psh is not None and psh.name == sh.name: return get_elem(e, st, ptrs[0], sh)
        if len(sh.leaves) == 1 and psh is not None and len(psh.leaves) == 1:
            k1, k2 = psh.leaves[0].kind, sh.leaves[0].kind
            v = e.load(st, ptrs[0], e.kind_ty(k1))
            return [convert_kind(e, st, v, k1, k2)]
        if psh is None and t.startswith('%s' % sh.name): return get_elem(e, st, ptrs[0], sh)
    if len(ptrs) == len(sh.leaves) and all(lf.kind[0] != 'm' for lf in sh.leaves):
        leaves = list(sh.leaves)
        if sh.name.startswith('std::tuple'): leaves = list(reversed(leaves))
        out = {}
        for lf, p, t in zip(leaves, ptrs, types):
            k1 = e.types.shape(t).leaves[0].kind
            v = e.load(st, p, e.kind_ty(k1))
            out[lf.off] = convert_kind(e, st, v, k1, lf.kind)
        return [out[lf.off] for lf in sh.leaves]
    # a user type: run its constructor
    for n, f in e.mod.funcs.items():
        d = e.mod.dem(n)
        if d.startswith(sh.name + '::' + sh.name.split('::')[-1].split('<')[0] + '(') and len(f.parse().params) == len(ptrs) + 1:
            o = e.new_obj(st, 'emplaced', None, sh.size)
            av = [CP(o, 0)]
            for (t, nm, at), p, ty in zip(f.params[1:], ptrs, types):
                if t[0] == 'ptr': av.append(p)
                else: av.append(e.load(st, p, t))
            outs = e.call_name(st, n, av)
            if len(outs) != 1 or outs[0][1] != 'ret': raise Unsupported('forking constructor')
            c.st = outs[0][0]
            return get_elem(e, c.st, CP(o, 0), sh)
    raise Unsupported('emplace of %s from %s' % (sh.name, types))


def convert_kind(e, st, v, k1, k2):
    if k1 == k2: return e.scalar_to(st, k2, v)
    if k1[0] == 'i' and k2[0] == 'i':
        if k1[1] < k2[1]: v = e.cast(st, 'sext' if k1[2] == 's' else 'zext', v, None, ('int', k2[1]))
        elif k1[1] > k2[1]: v = e.cast(st, 'trunc', v, None, ('int', k2[1]))
        return e.scalar_to(st, k2, v)
    if k1[0] == 'b' and k2[0] == 'i':
        return e.scalar_to(st, k2, e.cast(st, 'zext', v, None, ('int', k2[1])) if k2[1] > 8 else v)
    if k1[0] == 'i' and k2[0] == 'b': return z3.Not(e.icmp(st, 'eq', v, e.const(0, v.w), ('int', v.w)))
    if k1[0] == 'i' and k2[0] == 'f': return e.scalar_to(st, k2, e.i2f(st, 'sitofp' if k1[2] == 's' else 'uitofp', v, k2[1]))
    if k1[0] == 'f' and k2[0] == 'f': return e.scalar_to(st, k2, e.f2f(st, 'fpext', v, k2[1]))
    raise Unsupported('conversion %r %r' % (k1, k2))


def vec_method(c):
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = parse_dem(c.dem)
    cname = cls.split('<')[0].split('::')[-1]
    T = e.types.mt(cls)
    if T is None: raise Unsupported('vector type ' + cls)
    sh = T.elem
    if meth == cname:    # constructors
        ps = [re.sub(r'\s*const&$|&&$|&$', '', p) for p in params]
        ps = [p for p in ps if not p.startswith('std::allocator') and 'allocator<' not in p.split('<')[0]]
        if not ps or (len(ps) == 1 and 'allocator_type' in ps[0]):
            e.wr_cont(st, a[0], T, empty_comps(e, T))
            return None
        p0 = params[0]
        if e.types.norm(p0) == e.types.norm(cls) or (p0.rstrip('&').strip().endswith('const') and e.types.norm(p0) == e.types.norm(cls)):
            src = e.rd_cont(st, a[1], T)
            e.wr_cont(st, a[0], T, src)
            if p0.endswith('&&'): e.wr_cont(st, a[1], T, empty_comps(e, T))
            return None
        if p0.startswith('std::initializer_list'):
            # {ptr, n} passed by value
            return vec_from_ptr_range(c, T, a[1], e.idx(st, a[2]))
        if p0 in ('unsigned long', 'unsigned int') or p0.endswith('size_type'):
            n = e.idx(st, a[1])
            fillv = len(params) > 1 and not params[1].startswith('std::allocator')
            byval = T.kind == 'string' and len(params) > 1 and params[1] == 'char'
            elem = zero_elem(e, sh) if byval or not fillv else get_elem(e, st, a[2], sh)
            maxn = {8: (1 << 63) // 8}.get(sh.size, (1 << 63) // max(1, sh.size))
            # length_error / bad_alloc for absurd sizes
            if T.kind == 'string' and len(params) > 1 and params[1] == 'char':
                elem = [e.scalar_to(st, sh.leaves[0].kind, a[2])]
                outs = []
            res = []
            ok = le(e, n, I(e, e.MAXN))
            if not e.prove(st, ok):
                bad = st.fork()
                bad.assume(z3.Not(ok))
                res.append((bad, 'throw', 'std::bad_alloc'))
                st.assume(ok)
            e.wr_cont(st, a[0], T, fill_comps(e, T, n, elem))
            return [(st, 'ret', None)] + res
        if mta or len(a) >= 3:
            if isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
                return vec_from_iters(c, T, a[1], a[2])
        raise Unsupported('constructor ' + c.dem[:200])
    if meth.startswith('~'): return None
    p = a[0]
    mt = e.cont_mt(st, p) or T
    comps = e.rd_cont(st, p, mt)
    n = comps[0]
    if meth in ('size', 'length'): return e.from_idx(n)
    if meth == 'empty': return z3.simplify(n == 0)
    if meth in ('begin', 'cbegin', 'data', 'c_str'): return EP(p, I(e, 0), 0, mt)
    if meth in ('end', 'cend'): return EP(p, n, 0, mt)
    if meth in ('rbegin', 'crbegin', 'rend', 'crend'):
        # reverse_iterator is returned through sret
        raise Unsupported(meth)
    if meth == 'operator[]':
        i = e.idx(st, a[1])
        strict = lt(e, i, n)
        if mt.kind == 'string': strict = le(e, i, n)
        e.ub(st, 'index within %s' % mt.kind, strict)
        return EP(p, z3.simplify(i), 0, mt)
    if meth == 'at':
        i = e.idx(st, a[1])
        bad = st.fork()
        bad.assume(z3.Not(lt(e, i, n)))
        res = [(bad, 'throw', 'std::out_of_range')] if e.feasible(bad, z3.BoolVal(True)) and e.qcheck(bad, z3.BoolVal(True)) != 'unsat' else []
        st.assume(lt(e, i, n))
        return [(st, 'ret', EP(p, z3.simplify(i), 0, mt))] + res
    if meth == 'front':
        e.ub(st, 'front of non-empty %s' % mt.kind, n != 0)
        return EP(p, I(e, 0), 0, mt)
    if meth == 'back':
        e.ub(st, 'back of non-empty %s' % mt.kind, n != 0)
        return EP(p, z3.simplify(n - 1), 0, mt)
    if meth in ('push_back', 'emplace_back'):
        if meth == 'push_back':
            if isinstance(a[1], Ptr): elem = get_elem(e, st, a[1], sh)
            elif z3.is_expr(a[1]): elem = [a[1]]
            else: elem = [e.scalar_to(st, sh.leaves[0].kind, a[1])]
        else:
            elem = build_from_args(c, sh, a[1:], [re.sub(r'&&$', '', x) for x in params])
            st = c.st
        comps = e.rd_cont(st, p, mt)
        new = [z3.simplify(n + 1)] + [z3.Store(x, n, v) for x, v in zip(comps[1:], elem)]
        e.wr_cont(st, p, mt, new)
        if not e.bv: st.assume(new[0] <= e.MAXN)
        return [(st, 'ret', EP(p, n, 0, mt))]
    if meth == 'pop_back':
        e.ub(st, 'pop_back of non-empty %s' % mt.kind, n != 0)
        e.wr_cont(st, p, mt, [z3.simplify(n - 1)] + list(comps[1:]))
        return None
    if meth == 'clear':
        e.wr_cont(st, p, mt, [I(e, 0)] + list(comps[1:]))
        return None
    if meth in ('reserve', 'shrink_to_fit'): return None
    if meth in ('resize', 'assign') and not (meth == 'assign' and mt.kind == 'string'):
        if isinstance(a[1], Ptr) or len(a) > 3: raise Unsupported(c.dem[:100])
        m = e.idx(st, a[1])
        elem = get_elem(e, st, a[2], sh) if len(a) > 2 and isinstance(a[2], Ptr) else (zero_elem(e, sh) if len(a) <= 2 else [e.scalar_to(st, sh.leaves[0].kind, a[2])])
        if meth == 'assign':
            e.wr_cont(st, p, mt, fill_comps(e, mt, m, elem))
            return None
        st.assume(le(e, m, I(e, e.MAXN)))
        new = [m]
        for x, v in zip(comps[1:], elem):
            b = e.fresh('resized', x.sort())
            i = z3.Const('i!rs', x.sort().domain())
            st.assume(z3.ForAll([i], z3.Select(b, i) == z3.If(lt(e, i, n), z3.Select(x, i), v), patterns=[z3.Select(b, i)]))
            new.append(b)
        e.wr_cont(st, p, mt, new)
        return None
    if meth == 'swap':
        q2 = a[1]
        c2 = e.rd_cont(st, q2, mt)
        e.wr_cont(st, p, mt, c2)
        e.wr_cont(st, q2, mt, comps)
        return None
    if meth == 'operator=':
        if isinstance(a[1], Ptr):
            src_mt = e.cont_mt(st, a[1])
            if src_mt is not None and isinstance(src_mt, VecT):
                src = e.rd_cont(st, a[1], src_mt)
                e.wr_cont(st, p, mt, src)
                if params and params[0].endswith('&&') and a[1] != p: e.wr_cont(st, a[1], src_mt, empty_comps(e, src_mt))
                return p
    if meth in ('emplace', 'insert') and isinstance(a[1], EP) and a[1].par == p:
        # only insertion at end is modelled
        ptrs = a[2:]
        at_end = e.prove(st, a[1].idx == n)
        if at_end and len(ptrs) == 1 and meth == 'emplace' or (at_end and len(ptrs) == 1 and isinstance(ptrs[0], Ptr)):
            elem = build_from_args(c, sh, ptrs, [re.sub(r'&&$', '', x) for x in params[1:]])
            st = c.st
            new = [z3.simplify(n + 1)] + [z3.Store(x, n, v) for x, v in zip(comps[1:], elem)]
            e.wr_cont(st, p, mt, new)
            if not e.bv: st.assume(new[0] <= e.MAXN)
            return [(st, 'ret', EP(p, n, 0, mt))]
        raise Unsupported('insert ' + c.dem[:100])
    return NotImplemented


def vec_from_iters(c, T, first, last):
    e, st, a = c.e, c.st, c.args
    if isinstance(first, EP) and isinstance(last, EP) and first.par == last.par and first.off == 0 and first.mt.elem.size == T.elem.size:
        n = z3.simplify(last.idx - first.idx)
        e.ub(st, 'valid iterator range', le(e, first.idx, last.idx))
        src = e.rd_cont(st, first.par, first.mt)
        e.wr_cont(st, a[0], T, copy_range(e, st, T, first.mt, first.par, first.idx, n, src))
        return None
    if isinstance(first, (CP, AP)):
        if isinstance(first, CP) and isinstance(last, CP):
            k = (last.off - first.off) // T.elem.size
            return vec_from_ptr_range(c, T, first, I(e, k))
    raise Unsupported('range construction from %r %r' % (first, last))


def vec_from_ptr_range(c, T, p, n):
    e, st, a = c.e, c.st, c.args
    n = z3.simplify(n)
    if isinstance(p, EP):
        src = e.rd_cont(st, p.par, p.mt)
        e.ub(st, 'valid source range', z3.And(le(e, I(e, 0), p.idx), le(e, p.idx + n, src[0])))
        e.wr_cont(st, a[0], T, copy_range(e, st, T, p.mt, p.par, p.idx, n, src))
        return None
    if not (z3.is_int_value(n) or z3.is_bv_value(n)): raise Unsupported('initializer list of symbolic size')
    comps = list(empty_comps(e, T))
    k = n.as_long()
    for j in range(k):
        el = get_elem(e, st, e.padd_const(p, j * T.elem.size), T.elem)
        comps = [comps[0]] + [z3.Store(x, I(e, j), v) for x, v in zip(comps[1:], el)]
    comps[0] = I(e, k)
    e.wr_cont(st, a[0], T, comps)
    return None


# ---------------------------------------------------------------- std::string extras
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def str_ctor_cstr(c):
    """std::string(const char*, alloc)"""
    e, st, a = c.e, c.st, c.args
    T = e.types.mt(STR)
    p = a[1]
    if isinstance(p, CP):
        o = st.mem[p.obj]
        k = 0
        while True:
            v = e.load_cell(st, p.obj, p.off + k, 1, ('int', 8))
            if not isinstance(v, IV) or v.c is None: raise Unsupported('non-constant c string')
            if v.c == 0: break
            k += 1
        return vec_from_ptr_range(c, T, p, I(e, k))
    raise Unsupported('string from ' + repr(p))


def cstr_piece(e, st, p):
    """(length, characters) of a constant null terminated string"""
    if not isinstance(p, CP): raise Unsupported('c string %r' % (p,))
    x, k = z3.K(z3.IntSort(), z3.IntVal(0)), 0
    while True:
        v = e.load_cell(st, p.obj, p.off + k, 1, ('int', 8))
        if not isinstance(v, IV) or v.c is None: raise Unsupported('non-constant c string')
        if v.c == 0: return z3.IntVal(k), (lambda i, x=x: z3.Select(x, i))
        x = z3.Store(x, k, (v.c + 128) % 256 - 128)
        k += 1


def sv_piece(e, st, ptr, n):
    n = z3.simplify(n)
    if isinstance(ptr, EP):
        src = e.rd_cont(st, ptr.par, ptr.mt)
        e.ub(st, 'valid source range', z3.And(0 <= ptr.idx, ptr.idx + n <= src[0]))
        return n, (lambda i: z3.Select(src[1], i + ptr.idx))
    if isinstance(ptr, NullP) or (z3.is_int_value(n) and n.as_long() == 0): return z3.IntVal(0), (lambda i: z3.IntVal(0))
    if isinstance(ptr, CP) and z3.is_int_value(n):
        x = z3.K(z3.IntSort(), z3.IntVal(0))
        for k in range(n.as_long()):
            x = z3.Store(x, k, e.S(st, e.load_cell(st, ptr.obj, ptr.off + k, 1, ('int', 8))))
        return n, (lambda i: z3.Select(x, i))
    raise Unsupported('characters at %r' % (ptr,))


def str_piece(c, params, args):
    """characters described by the arguments of append, +=, +, assign; (piece, number of LLVM arguments used)"""
    e, st = c.e, c.st
    t = params[0]
    T = e.types.mt(STR)
    if 'basic_string_view' in t and t.endswith('&'):
        ptr = e.load(st, e.padd_const(args[0], e.mod.ptrsize), ('ptr',))
        return sv_piece(e, st, ptr, e.idx(st, e.load(st, args[0], ('int', 8 * e.mod.ptrsize))))
    if 'basic_string_view' in t: return sv_piece(e, st, args[1], e.idx(st, args[0]))
    if 'basic_string<' in t:
        n, x = e.rd_cont(st, args[0], T)
        return n, (lambda i: z3.Select(x, i))
    if t == 'char const*':
        if len(params) > 1: return sv_piece(e, st, args[0], e.idx(st, args[1]))
        return cstr_piece(e, st, args[0])
    if t == 'unsigned long' and len(params) > 1 and params[1] == 'char':
        v = e.S(st, args[1])
        return e.idx(st, args[0]), (lambda i: v)
    if t == 'char':
        v = e.S(st, args[0])
        return z3.IntVal(1), (lambda i: v)
    raise Unsupported('string argument ' + t)


def str_concat(c, A, B):
    """[(outcome state, components of the concatenation)] and the length_error outcomes"""
    e, st = c.e, c.st
    n = z3.simplify(A[0] + B[0])
    x = e.fresh('cat', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    i = z3.Int('i!cat')
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(x, i) == z3.If(i < A[0], A[1](i), B[1](i - A[0]))), patterns=[z3.Select(x, i)]))
    return n, x


def str_guard(c, n):
    """std::length_error for absurd sizes; returns the exceptional outcomes"""
    e, st = c.e, c.st
    ok = n <= e.MAXN
    if e.prove(st, ok): return []
    bad = st.fork()
    bad.assume(z3.Not(ok))
    st.assume(ok)
    return [(bad, 'throw', 'std::length_error')]


def str_plus(c):
    """operator+ of strings, C strings and characters"""
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = parse_dem(c.dem)
    T = e.types.mt(STR)
    params = params[-2:]
    A, B = str_piece(c, [params[0]], [a[1]]), str_piece(c, [params[1]], [a[2]])
    n, x = str_concat(c, A, B)
    r = str_guard(c, n)
    e.wr_cont(st, a[0], T, (n, x))
    for p, t in ((a[1], params[0]), (a[2], params[1])):
        if t.endswith('&&'):
            e.fresh('moved', z3.IntSort())
            e.wr_cont(st, p, T, e.fresh_comps(st, T, 'moved'))
    return r + [(st, 'ret', None)]


def str_equal(c):
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = parse_dem(c.dem)
    params = params[-2:]
    k = 2 if 'basic_string_view' in params[0] and not params[0].endswith('&') else 1
    A, B = str_piece(c, [params[0]], a[:k]), str_piece(c, [params[1]], a[k:])
    r = e.fresh('streq', z3.BoolSort())
    i = z3.Int('i!eq')
    w = e.fint('diff')
    if z3.is_int_value(B[0]) and B[0].as_long() <= 40:
        st.assume(r == z3.And([A[0] == B[0]] + [A[1](z3.IntVal(j)) == z3.simplify(B[1](z3.IntVal(j))) for j in range(B[0].as_long())]))
    else:
        st.assume(z3.Implies(r, z3.And(A[0] == B[0], z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < A[0]), A[1](i) == B[1](i))))))
        st.assume(z3.Implies(z3.Not(r), z3.Or(A[0] != B[0], z3.And(0 <= w, w < A[0], A[1](w) != B[1](w)))))
    return z3.Not(r) if meth.startswith('operator!=') else r


def str_method(c):
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = parse_dem(c.dem)
    T = e.types.mt(STR)
    if meth in ('append', 'operator+=', 'assign', 'operator=') and params and not e.bv and (params[0] != 'char' or meth != 'operator+=') and not params[0].endswith('&&') and not mta or meth in ('append', 'operator+=', 'assign', 'operator=') and mta and 'basic_string_view' in mta[0]:
        B = str_piece(c, params if not mta else ['std::basic_string_view&'], a[1:])
        if meth in ('assign', 'operator='): A = (z3.IntVal(0), lambda i: z3.IntVal(0))
        else:
            n0, x0 = e.rd_cont(st, a[0], T)
            A = (n0, lambda i: z3.Select(x0, i))
        n, x = str_concat(c, A, B)
        r = str_guard(c, n)
        e.wr_cont(st, a[0], T, (n, x))
        return r + [(st, 'ret', a[0])]
    if meth == 'substr' and not e.bv:
        n, x = e.rd_cont(st, a[1], T)
        pos, cnt = e.idx(st, a[2]), e.U(st, a[3])
        r = []
        if not e.prove(st, pos <= n):
            bad = st.fork()
            bad.assume(pos > n)
            st.assume(pos <= n)
            r.append((bad, 'throw', 'std::out_of_range'))
        m = e.fint('sublen')
        e.bounded(st, m, 0, e.MAXN)
        st.assume(m == z3.If(cnt < n - pos, cnt, n - pos))
        y = e.fresh('sub', x.sort())
        i = z3.Int('i!substr')
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Select(y, i) == z3.Select(x, i + pos)), patterns=[z3.Select(y, i)]))
        e.wr_cont(st, a[0], T, (m, y))
        return r + [(st, 'ret', None)]
    if meth == 'basic_string':
        if params and params[0] == 'char const*' and len(params) == 2:
            return str_ctor_cstr(c)
        if params and params[0] == 'char const*' and len(params) == 3:
            return vec_from_ptr_range(c, T, a[1], e.idx(st, a[2]))
        if mta and mta[0].startswith('std::basic_string_view'):
            sv = a[1]
            ptr = e.load(st, e.padd_const(sv, e.mod.ptrsize), ('ptr',))
            n = e.idx(st, e.load(st, sv, ('int', 8 * e.mod.ptrsize)))
            return vec_from_ptr_range(c, T, ptr, n)
    if meth.startswith('operator std::basic_string_view'):
        comps = e.rd_cont(st, a[0], T)
        return [e.from_idx(comps[0]), EP(a[0], I(e, 0), 0, T)]
    if meth in ('operator+=', 'push_back') and params and params[0] == 'char':
        comps = e.rd_cont(st, a[0], T)
        v = e.scalar_to(st, T.elem.leaves[0].kind, a[1])
        e.wr_cont(st, a[0], T, [z3.simplify(comps[0] + 1), z3.Store(comps[1], comps[0], v)])
        return a[0]
    if meth == 'find' and params and params[0] == 'char' and len(params) == 2:
        comps = e.rd_cont(st, a[0], T)
        v = e.scalar_to(st, T.elem.leaves[0].kind, a[1])
        pos = e.idx(st, a[2])
        r = e.fresh('find', e.ISort)
        found = e.fresh('found', z3.BoolSort())
        j = z3.Const('j!find', e.ISort)
        st.assume(z3.Implies(found, z3.And(in_rng(e, r, pos, comps[0]), z3.Select(comps[1], r) == v)))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(in_rng(e, j, pos, comps[0]), z3.Or(z3.Not(found), lt(e, j, r))), z3.Select(comps[1], j) != v), patterns=[z3.Select(comps[1], j)]))
        npos = z3.BitVecVal(-1, 64) if e.bv else z3.IntVal((1 << 64) - 1)
        t = e.fresh('pos', e.ISort)
        st.assume(t == z3.If(found, r, npos))
        if not e.bv: e.bounded(st, t, 0, (1 << 64) - 1)
        return IV(t, 64, 'V' if e.bv else 'U')
    r = vec_method(c)
    return r


# ---------------------------------------------------------------- vector<bool> references
def bitref_bool(c):
    e, st = c.e, c.st
    p = e.load(st, c.args[0], ('ptr',))
    v = e.load(st, p, ('int', 8))
    return e.cast(st, 'trunc', v, None, ('int', 1))


def bitref_assign(c):
    e, st = c.e, c.st
    p = e.load(st, c.args[0], ('ptr',))
    v = c.args[1]
    if isinstance(v, Ptr):   # operator=(const _Bit_reference&)
        q = e.load(st, v, ('ptr',))
        v = e.cast(st, 'trunc', e.load(st, q, ('int', 8)), None, ('int', 1))
    e.store(st, p, e.b2i(v, 8), ('int', 8))
    return c.args[0]


def vb_method(c):
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = parse_dem(c.dem)
    T = e.types.mt('std::vector<bool, std::allocator<bool> >')
    if meth == 'operator[]':
        comps = e.rd_cont(st, a[0], T)
        i = e.idx(st, a[1])
        e.ub(st, 'index within vector<bool>', lt(e, i, comps[0]))
        if ' const' in c.dem[c.dem.rindex(')'):]:
            return z3.Select(comps[1], i)
        return [EP(a[0], z3.simplify(i), 0, T), e.const(0, 64)]
    if meth in ('begin', 'end', 'cbegin', 'cend'): raise Unsupported('vector<bool> iterators')
    return vec_method(c)


# ---------------------------------------------------------------- runtime
def cxa_throw(c):
    t = c.args[1]
    name = t.obj if isinstance(t, CP) else repr(t)
    if name.startswith('@'): name = c.e.mod.dem(name[1:])
    name = name.replace('typeinfo for ', '')
    if name == 'int':
        v = c.e.load(c.st, c.args[0], ('int', 32))
        c.st.g['thrown_int'] = v
    return [(c.st, 'throw', name)]


def alloc_exc(c):
    return CP(c.e.new_obj(c.st, 'exception', lazy=False), 0)


def noop(c):
    return None


def ret0(c):
    return c.args[0]


def memcpy(c):
    e, st = c.e, c.st
    n = c.args[2]
    if n.c is None: raise Unsupported('memcpy of symbolic size')
    e.memcpy(st, c.args[0], c.args[1], n.c)
    return c.args[0]


def memset(c):
    e, st = c.e, c.st
    n = c.args[2]
    v = c.args[1]
    if n.c is None or v.c is None: raise Unsupported('memset of symbolic size')
    p = c.args[0]
    # choose cell sizes from the object type
    if not isinstance(p, CP): raise Unsupported('memset of elements')
    o = st.mem[p.obj]
    leaves = []

    def walk(t, off):
        if t[0] == 'st':
            for f, x in zip(t[2], e.mod.layout(t)[1]): walk(f, off + x)
        elif t[0] == 'arr':
            es = e.mod.size(t[2])
            for i in range(t[1]): walk(t[2], off + i * es)
        else: leaves.append((off, t))
    if o.ty is not None: walk(o.ty, 0)
    else: leaves = [(p.off + i, ('int', 8)) for i in range(n.c)]
    for off, t in leaves:
        if p.off <= off < p.off + n.c:
            if v.c == 0: e.store(st, CP(p.obj, off), e.zero_of(t), t)
            elif t[0] == 'int':
                k = e.mod.size(t)
                x = 0
                for _ in range(k): x = x << 8 | (v.c & 255)
                e.store(st, CP(p.obj, off), e.const(x, t[1]), t)
            else: raise Unsupported('memset')
    return p


def strlen(c):
    e, st = c.e, c.st
    p = c.args[0]
    if isinstance(p, CP):
        k = 0
        while True:
            v = e.load_cell(st, p.obj, p.off + k, 1, ('int', 8))
            if not isinstance(v, IV) or v.c is None: raise Unsupported('strlen of symbolic data')
            if v.c == 0: return e.const(k, 64)
            k += 1
    if isinstance(p, EP):
        # c_str(): at least no embedded NUL assumption is made; unknown length not above size
        n = e.rd_cont(st, p.par, p.mt)[0]
        r = e.fint('strlen')
        e.bounded(st, r, 0, e.MAXN)
        st.assume(r <= n - p.idx)
        return IV(r, 64, 'B')
    raise Unsupported('strlen')


def exit_(c):
    return [(c.st, 'exit', c.args[0])]


def fabs_(c):
    return FV(z3.simplify(z3.fpAbs(c.args[0].t)), c.args[0].n)


def is_fpclass(c):
    e, st = c.e, c.st
    x = c.args[0].t
    m = c.args[1].c
    bits = [(3, z3.fpIsNaN(x)), ]
    parts = []
    # sNaN 1, qNaN 2, -inf 4, -normal 8, -subnormal 16, -zero 32, +zero 64, +subnormal 128, +normal 256, +inf 512
    if m & 3: parts.append(z3.fpIsNaN(x))
    neg = z3.fpIsNegative(x)
    for b, f in ((4, z3.And(z3.fpIsInf(x), neg)), (8, z3.And(z3.fpIsNormal(x), neg)), (16, z3.And(z3.fpIsSubnormal(x), neg)), (32, z3.And(z3.fpIsZero(x), neg)),
                 (64, z3.And(z3.fpIsZero(x), z3.Not(neg))), (128, z3.And(z3.fpIsSubnormal(x), z3.Not(neg))), (256, z3.And(z3.fpIsNormal(x), z3.Not(neg))), (512, z3.And(z3.fpIsInf(x), z3.Not(neg)))):
        if m & b: parts.append(f)
    if m == 0x1F8: return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
    if m == 0x204: return z3.fpIsInf(x)
    return z3.Or(parts)


def signbit80(c):
    return z3.fpIsNegative(c.args[0].t)


def umulo(c):
    raise Unsupported('overflow intrinsic')


def bitset_count(c):
    """std::bitset<N>::count(): number of one bits (abstract: popcount function)"""
    return NotImplemented


def count_zeros(c, trailing):
    e, st, v = c.e, c.st, c.args[0]
    w = v.w
    if not e.bv: raise Unsupported('count of zeros outside of bit vector mode')
    if not (z3.is_expr(c.args[1]) and z3.is_false(z3.simplify(c.args[1]))): e.ub(st, 'argument of count zeros is not zero', v.t != 0)
    r = z3.BitVecVal(w, w)
    for i in (range(w - 1, -1, -1) if trailing else range(w)):
        r = z3.If(z3.Extract(i, i, v.t) == 1, z3.BitVecVal(i if trailing else w - 1 - i, w), r)
    return IV(r, w, 'V')


def popcount(c):
    e, st = c.e, c.st
    v = c.args[0]
    w = v.w
    if v.c is not None: return e.const(bin(v.c % (1 << w)).count('1'), w)
    if e.bv:
        s = z3.BitVecVal(0, w)
        for i in range(w): s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, v.t))
        return IV(s, w, 'V')
    F = z3.Function('popcount%d' % w, z3.IntSort(), z3.IntSort())
    r = F(e.U(st, v))
    e.bounded(st, r, 0, w)
    return IV(r, w, 'B')


def minmax_int(kind):
    def f(c):
        e, st = c.e, c.st
        a, b = c.args
        signed = kind[0] == 's'
        p = e.icmp(st, ('s' if signed else 'u') + ('lt' if kind.endswith('min') else 'gt'), a, b, ('int', a.w))
        return e.ite(st, p, a, b)
    return f


def abs_(c):
    e, st = c.e, c.st
    v = c.args[0]
    if e.bv:
        e.ub(st, 'abs representable', v.t != (1 << (v.w - 1)))
        return IV(z3.If(v.t < 0, -v.t, v.t), v.w, 'V')
    x = e.S(st, v)
    e.ub(st, 'abs representable', x != -(1 << (v.w - 1)))
    return IV(z3.If(x < 0, -x, x), v.w, 'B')


def fshl(c):
    e = c.e
    a, b, s = c.args
    if e.bv and s.c is not None:
        k = s.c % a.w
        r = z3.simplify(z3.Extract(2 * a.w - 1 - k, a.w - k, z3.Concat(a.t, b.t)))
        return IV(r, a.w, 'V', c=r.as_long() if z3.is_bv_value(r) else None)
    raise Unsupported('fshl')


def bswap(c):
    e = c.e
    v = c.args[0]
    if e.bv:
        bs = [z3.Extract(8 * i + 7, 8 * i, v.t) for i in range(v.w // 8)]
        r = z3.simplify(z3.Concat(*bs))
        return IV(r, v.w, 'V', c=r.as_long() if z3.is_bv_value(r) else None)
    raise Unsupported('bswap')


# ---------------------------------------------------------------- std::map / std::set  (scalar keys)
def key_of(c, p, mt):
    e, st = c.e, c.st
    lf = mt.key.leaves[0]
    v = e.load(st, p, e.kind_ty(lf.kind))
    return e.scalar_to(st, lf.kind, v)


def mk_node(e, st, p, mt, key, found):
    return NodeP(p, mt, key, z3.simplify(z3.Not(found)))


def assoc_method(c):
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = parse_dem(c.dem)
    T = e.types.mt(cls)
    base = cls.split('<')[0].split('::')[-1]
    if meth == base:
        if not params:
            e.wr_cont(st, a[0], T, empty_comps(e, T))
            return None
        if e.types.norm(params[0]) == e.types.norm(cls):
            src = e.rd_cont(st, a[1], T)
            e.wr_cont(st, a[0], T, src)
            if params[0].endswith('&&'): e.wr_cont(st, a[1], T, empty_comps(e, T))
            return None
        raise Unsupported('ctor ' + c.dem[:120])
    if meth.startswith('~'): return None
    p = a[0]
    mt = e.cont_mt(st, p) or T
    cs = e.rd_cont(st, p, mt)
    if meth == 'size': return e.from_idx(cs[1])
    if meth == 'empty': return z3.simplify(cs[1] == 0)
    if meth == 'clear':
        e.wr_cont(st, p, mt, empty_comps(e, mt))
        return None
    if meth == 'end': return NodeP(p, mt, default_of(e.keysort(mt)), z3.BoolVal(True))
    if meth in ('begin', 'cbegin') and cs[0].sort().domain() == IntS: return node_after(e, st, p, mt, cs, None)
    if meth == 'find':
        k = key_of(c, a[1], mt)
        return NodeP(p, mt, k, z3.simplify(z3.Not(z3.Select(cs[0], k))))
    if meth in ('count', 'contains'):
        k = key_of(c, a[1], mt)
        b = z3.simplify(z3.Select(cs[0], k))
        return e.b2i(b, 64) if meth == 'count' else b

    def inserted(k, vals):
        has = z3.Select(cs[0], k)
        new = [z3.Store(cs[0], k, z3.BoolVal(True)), z3.simplify(z3.If(has, cs[1], cs[1] + 1))]
        for x, v in zip(cs[2:], vals): new.append(z3.Store(x, k, z3.If(has, z3.Select(x, k), v)))
        return has, new
    if meth == 'operator[]':
        k = key_of(c, a[1], mt)
        has, new = inserted(k, zero_elem(e, mt.val))
        e.wr_cont(st, p, mt, new)
        return NodeP(p, mt, k, z3.BoolVal(False), e.valoff(mt))
    if meth == 'insert' and len(a) == 2 and mt.val is None:
        k = key_of(c, a[1], mt)
        has, new = inserted(k, [])
        e.wr_cont(st, p, mt, new)
        return [NodeP(p, mt, k, z3.BoolVal(False)), z3.simplify(z3.Not(has))]
    if meth in ('emplace', 'try_emplace') and (mt.val is None and len(a) == 2):
        k = key_of(c, a[1], mt)
        has, new = inserted(k, [])
        e.wr_cont(st, p, mt, new)
        return [NodeP(p, mt, k, z3.BoolVal(False)), z3.simplify(z3.Not(has))]
    if meth == 'erase' and isinstance(a[1], CP) or (meth == 'erase' and isinstance(a[1], EP)):
        k = key_of(c, a[1], mt)
        has = z3.Select(cs[0], k)
        new = [z3.Store(cs[0], k, z3.BoolVal(False)), z3.simplify(z3.If(has, cs[1] - 1, cs[1]))] + list(cs[2:])
        e.wr_cont(st, p, mt, new)
        return e.b2i(has, 64)
    return NotImplemented


IntS = z3.IntSort()


def node_after(e, st, p, mt, cs, k):
    """position of the smallest key (greater than k): std::set and std::map of integers in their default order"""
    n, end, x = e.fint('key'), e.fresh('end', z3.BoolSort()), z3.Int('x!key')
    e.typed(st, n, 64, 'S')
    after = (lambda t: z3.BoolVal(True)) if k is None else (lambda t: t > k)

    def forall(f):
        try: return z3.ForAll([x], f, patterns=[z3.Select(cs[0], x)])
        except z3.Z3Exception: return z3.ForAll([x], f)
    st.assume(z3.Implies(end, forall(z3.Implies(after(x), z3.Not(z3.Select(cs[0], x))))))
    st.assume(z3.Implies(z3.Not(end), z3.And(z3.Select(cs[0], n), after(n), forall(z3.Implies(z3.And(after(x), x < n), z3.Not(z3.Select(cs[0], x)))))))
    if k is None: st.assume(end == (cs[1] == 0))
    return NodeP(p, mt, n, end)


def rb_iter_inc(c):
    """++it and it++ on iterators of std::set and std::map"""
    e, st, a = c.e, c.st, c.args
    post = '(int)' in c.dem
    it = a[0] if not post or len(a) < 3 else a[1]
    v = e.load(st, it, ('ptr',))
    if not isinstance(v, NodeP): return NotImplemented
    e.ub(st, 'no increment of the end iterator', z3.Not(v.end))
    cs = e.rd_cont(st, v.par, v.mt)
    if cs[0].sort().domain() != IntS: return NotImplemented
    e.store(st, it, node_after(e, st, v.par, v.mt, cs, v.key), ('ptr',))
    return v if post else it


def rb_iter_deref(c):
    """_Rb_tree_iterator::operator-> / operator*"""
    return c.e.load(c.st, c.args[0], ('ptr',))


# ---------------------------------------------------------------- algorithms
def std_swap(c):
    """std::swap<T>(T&, T&): exchange of two objects (also across container elements)"""
    e, st, a = c.e, c.st, c.args
    q, params, cls, meth, mta = parse_dem(c.dem)
    t = params[0]
    sh = e.types.shape(t)
    x, y = get_elem(e, st, a[0], sh), get_elem(e, st, a[1], sh)
    put_elem(e, st, a[0], sh, y)
    put_elem(e, st, a[1], sh, x)
    return None


def permuted(e, st, comps, lo, hi, base='sorted'):
    """fresh contents that are a permutation of comps on [lo,hi), identical outside; returns (newcomps, p, q)"""
    p = z3.Function('perm!%d' % e.nfresh, e.ISort, e.ISort)
    e.nfresh += 1
    q = z3.Function('perminv!%d' % e.nfresh, e.ISort, e.ISort)
    e.nfresh += 1
    i = z3.Const('i!perm', e.ISort)
    new = [comps[0]]
    pats = []
    inr = in_rng(e, i, lo, hi)
    for x in comps[1:]:
        b = e.fresh(base, x.sort())
        new.append(b)
        st.assume(z3.ForAll([i], z3.Implies(inr, z3.Select(b, i) == z3.Select(x, p(i))), patterns=[z3.Select(b, i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.Not(inr), z3.Select(b, i) == z3.Select(x, i)), patterns=[z3.Select(b, i)]))
        st.assume(z3.ForAll([i], z3.Implies(inr, z3.Select(x, i) == z3.Select(b, q(i))), patterns=[z3.Select(x, i)]))
    st.assume(z3.ForAll([i], z3.Implies(inr, z3.And(in_rng(e, p(i), lo, hi), q(p(i)) == i)), patterns=[p(i)]))
    st.assume(z3.ForAll([i], z3.Implies(inr, z3.And(in_rng(e, q(i), lo, hi), p(q(i)) == i)), patterns=[q(i)]))
    return new, p, q


def std_sort(c):
    """std::sort(first,last[,cmp]) : sorted permutation (scalar elements; default order, std::less, std::greater)"""
    e, st, a = c.e, c.st, c.args
    f, l = a[0], a[1]
    if not (isinstance(f, EP) and isinstance(l, EP) and f.par == l.par): raise Unsupported('sort of %r' % (f,))
    dem = c.dem
    kindlf = f.mt.elem.leaves
    cmpf = e.sort_orders.get('default')
    gt = 'std::greater' in dem
    e.ub(st, 'valid sort range', z3.And(le(e, f.idx, l.idx)))
    comps = e.rd_cont(st, f.par, f.mt)
    new, p, q = permuted(e, st, comps, f.idx, l.idx)
    i, j = z3.Ints('i!s j!s')
    if len(a) > 2 and 'lambda' in dem or (len(kindlf) > 1):
        rel = e.sort_orders.get('rel')
        if rel is None: raise Unsupported('sort with comparator ' + dem[:200])
        r = rel(e, [z3.Select(b, i) for b in new[1:]], [z3.Select(b, j) for b in new[1:]])
    elif kindlf[0].kind[0] == 'f':
        r = z3.Not(z3.fpLT(z3.Select(new[1], j), z3.Select(new[1], i)))
    else:
        r = z3.Select(new[1], i) >= z3.Select(new[1], j) if gt else z3.Select(new[1], i) <= z3.Select(new[1], j)
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(f.idx <= i, i < j, j < l.idx), r), patterns=[z3.MultiPattern(z3.Select(new[1], i), z3.Select(new[1], j))]))
    e.wr_cont(st, f.par, f.mt, new)
    st.g = dict(st.g)
    st.g['lastperm'] = (p, q)
    return None


def std_rotate(c):
    """std::rotate(first, middle, last): element k of the result is element (k + middle - first) modulo the length"""
    e, st, (f, m, l) = c.e, c.st, c.args[:3]
    if not all(isinstance(z, EP) and z.par == f.par for z in (f, m, l)): raise Unsupported('rotate of %r' % (f,))
    e.ub(st, 'valid rotate range', z3.And(le(e, f.idx, m.idx), le(e, m.idx, l.idx)))
    comps = e.rd_cont(st, f.par, f.mt)
    new = [comps[0]]
    i = z3.Const('i!rot', e.ISort)
    d = m.idx - f.idx
    for x in comps[1:]:
        b = e.fresh('rotated', x.sort())
        new.append(b)
        st.assume(z3.ForAll([i], z3.Select(b, i) == z3.Select(x, z3.If(z3.And(f.idx <= i, i < l.idx), z3.If(i + d < l.idx, i + d, i + d - (l.idx - f.idx)), i)), patterns=[z3.Select(b, i)]))
    e.wr_cont(st, f.par, f.mt, new)
    return EP(f.par, z3.simplify(f.idx + (l.idx - m.idx)), f.off, f.mt)


def install(e):
    e.types = Types(e)
    e.sort_orders = {}
    M = e.model
    SB = r'(^|[ *&])'
    M(r'^__cxa_allocate_exception$', alloc_exc)
    M(r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > std::operator\+ ?<char', str_plus)
    M(r'^(bool )?std::operator[!=]=<? ?<?char, std::char_traits<char>.*>\((std::__cxx11::basic_string<|std::basic_string_view<|char const\*)', str_equal)
    M(r'^__cxa_throw$', cxa_throw)
    M(r'^__cxa_(free_exception|guard_abort|guard_release|end_catch)$', noop)
    M(r'^__cxa_begin_catch$', ret0)
    M(r'^__clang_call_terminate$', lambda c: [(c.st, 'abort', 'terminate')])
    M(r'^__assert_fail$', lambda c: [(c.st, 'abort', 'assert')])
    M(r'^std::(terminate|abort)\(\)$|^abort$', lambda c: [(c.st, 'abort', 'terminate')])
    M(r'^std::(invalid_argument|domain_error|logic_error|runtime_error|out_of_range|range_error|length_error)::\1\(', noop)
    M(r'^std::__throw_(\w+)', lambda c: [(c.st, 'throw', 'std::' + re.match(r'^std::__throw_(\w+?)(_fmt)?\(', c.dem).group(1))])
    M(r'^std::__glibcxx_assert_fail|^std::__is_constant_evaluated', lambda c: z3.BoolVal(False))
    M(r'^std::is_constant_evaluated', lambda c: z3.BoolVal(False))
    M(r'^llvm\.is\.constant', lambda c: z3.BoolVal(False))
    M(r'^llvm\.(dbg|lifetime|assume|invariant|donothing|experimental\.noalias)', noop)
    M(r'^llvm\.expect', ret0)
    M(r'^llvm\.memcpy|^llvm\.memmove|^memcpy$|^memmove$', memcpy)
    M(r'^llvm\.memset|^memset$', memset)
    M(r'^strlen$', strlen)
    M(r'^(exit|_exit|_Exit|quick_exit)$|^std::exit\(', exit_)
    M(r'^llvm\.fabs', fabs_)
    M(r'^llvm\.is\.fpclass', is_fpclass)
    M(r'^llvm\.ctpop', popcount)
    M(r'^llvm\.cttz', lambda c: count_zeros(c, True))
    M(r'^llvm\.ctlz', lambda c: count_zeros(c, False))
    M(r'^llvm\.(smin|smax|umin|umax)', lambda c: minmax_int(re.match(r'llvm\.(\w+)', c.name).group(1))(c))
    M(r'^llvm\.abs|^(std::)?(abs|labs|llabs)(\((long|int|long long)\))?$', abs_)
    M(r'^llvm\.fshl', fshl)
    M(r'^llvm\.bswap', bswap)
    M(r'^std::allocator<.*>::~?allocator\(', noop)
    M(r'^std::__new_allocator<.*>::~?__new_allocator', noop)
    M(r'^std::ios_base::Init::', noop)
    M(r'^std::_Bit_reference::operator bool\(\) const', bitref_bool)
    M(r'^std::_Bit_reference::operator=\(', bitref_assign)
    M(r'(^|[ *&])std::vector<bool, std::allocator<bool>\s*>::', vb_method)
    M(r'^(void |decltype\(auto\) |auto |[\w:<>, &*]* )?std::vector<.*>::(vector|~vector|size|empty|begin|end|cbegin|cend|data|operator\[\]|at|front|back|push_back|emplace_back|emplace|insert|pop_back|clear|reserve|resize|assign|swap|operator=)(<.*>)?\(', vec_guard)
    M(r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::', str_method)
    M(r'^(std::map|std::set)<.*>::', assoc_guard)
    M(r'^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\((int)?\)', rb_iter_inc)
    M(r'^std::_Rb_tree_(const_)?iterator<.*>::(operator->|operator\*)\(\) const', rb_iter_deref)
    M(r'std::enable_if<.*>::type std::swap<(long|int|unsigned long|char|unsigned char|double|long double|bool)>\(', std_swap)
    M(r'^void std::sort<', std_sort)
    M(r'std::(_V2::)?rotate<', std_rotate)


def vec_guard(c):
    q, params, cls, meth, mta = parse_dem(c.dem)
    if not cls.startswith('std::vector<'): return NotImplemented
    return vec_method(c)


def assoc_guard(c):
    q, params, cls, meth, mta = parse_dem(c.dem)
    if not re.match(r'std::(map|set)<', cls): return NotImplemented
    return assoc_method(c)
