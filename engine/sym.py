"""Symbolic execution of LLVM IR into verification conditions.

One target = one entry function.  Callees are either replaced by a contract/model (registered by demangled name) or
executed from their real IR.  Loops are unrolled while they are concretely bounded, or cut at their header with an
invariant (havoc of everything the body can write, found by a fix-point over dry runs of the body).
"""
import re, sys, time
import z3
from vals import *
from ir import IRError

sys.setrecursionlimit(100000)


class Obj:
    __slots__ = ('name', 'cells', 'ghost', 'lazy', 'zero', 'ty', 'size', 'ro', 'uid')

    def __init__(self, name, ty=None, size=None, lazy=False, zero=False, ro=False):
        self.name, self.ty, self.size, self.lazy, self.zero, self.ro = name, ty, size, lazy, zero, ro
        self.cells = {}
        self.ghost = {}

    def copy(self):
        o = Obj(self.name, self.ty, self.size, self.lazy, self.zero, self.ro)
        o.cells = dict(self.cells)
        o.ghost = dict(self.ghost)
        return o


class State:
    __slots__ = ('mem', 'own', 'pc', 'g', 'trace')

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.pc = []
        self.g = {}
        self.trace = []

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc = list(self.pc)
        s.g = dict(self.g)
        s.trace = list(self.trace)
        return s

    def obj(self, oid):
        return self.mem[oid]

    def wobj(self, oid):
        if oid not in self.own:
            self.mem[oid] = self.mem[oid].copy()
            self.own.add(oid)
        return self.mem[oid]

    def assume(self, f):
        if z3.is_true(f): return
        self.pc.append(f)


class Frame:
    __slots__ = ('fn', 'allocas', 'id', 'obs')

    def __init__(self, fn, fid):
        self.fn, self.id = fn, fid
        self.allocas = {}


class Obl:
    """one proof obligation"""
    __slots__ = ('name', 'pc', 'goal', 'loc', 'status', 'model', 'time', 'backend', 'kind', 'target', 'ground')

    def __init__(self, name, pc, goal, loc, kind, target):
        self.name, self.pc, self.goal, self.loc, self.kind, self.target = name, pc, goal, loc, kind, target
        self.status, self.model, self.time, self.backend = None, None, 0, None


class LoopSpec:
    def __init__(self, fn, nth=0, roles=None, inv=None, lemmas=None, variant=None, name=None, exit=None, after=None, unroll=None, enter=None, forget=False, ghosts=None):
        self.ghosts = ghosts or {}  # ghost variables: name -> (init(L0), step(head, back))
        self.forget = forget      # concretely bounded loop: unrolled, but only the invariant is kept of each iteration's path condition
        self.fn, self.nth, self.roles, self.inv, self.lemmas, self.variant = fn, nth, roles or {}, inv, lemmas, variant
        self.name = name or 'loop'
        self.enter = enter
        self.after = after


def is_bit(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)) and t.arg(1).as_long() == 1 and t.arg(2).as_long() == 0


def has_quant(f, _c={}):
    k = f.get_id()
    r = _c.get(k)
    if r is not None and r[1].eq(f): return r[0]
    todo = [f]
    seen = set()
    res = False
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    _c[k] = (res, f)
    return res


class Stop(Exception):
    pass


class Engine:
    def __init__(self, mod, mode='int', fpmode='uf'):
        self.xorfn = None
        self.mod = mod
        self.bv = mode == 'bv'
        self.ptrhook = None          # hook(st, value): pointer for an integer cell that is read as a pointer
        self.remfacts = None         # hook(e, st, x, y): result term of a remainder with instantiated facts, or None
        self.bitfacts = None         # hook(e, st, op, x, y, result): facts about a bit operation
        self.pow2fn = None           # hook(e, st, y): term for 1 << y
        self.mulfacts = None         # hook(e, st, x, y, product): instantiated facts about a product
        self.fpfacts = None          # hook: instantiated facts about floating-point operations (set by a specification)
        self.ISort = z3.BitVecSort(64) if self.bv else z3.IntSort()
        self.models = []
        self.model_cache = {}
        self.obls = []
        self.dry = 0
        self.wlog = None
        self.frames = []
        self.nfresh = 0
        self.nobj = 0
        self.vr = {}
        self.keep = []
        self.loops = []
        self.loop_info = {}
        self.loop_mod = {}
        self.loop_bind = {}
        self.loop_count = 0
        self.qs = z3.Solver()
        self.qs.set('timeout', 400)
        self.qstack = []
        self.qcache = {}
        self.maxunroll = 80
        self.target = None
        self.used_models = {}
        self.inlined = {}
        self.contracts_used = set()
        self.steps = 0
        self.maxsteps = 3000000
        self.symshape = {}
        self.deadline = None
        self.ghost = {}
        self.merge = True
        self.curline = None
        self.fpexact = fpmode == 'exact'
        self.invcut = {}
        self.shapes = {}
        self.unroll_over = {}
        self.returns = []
        self.exc_types = {}
        self.qtime = 0
        self.globdefs = {}
        self.name_tables = False
        self.tabdefs = {}
        self.nosigned = True

    # ------------------------------------------------------------------ naming
    def fresh(self, base, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (base, self.nfresh), sort)

    def fint(self, base='v'):
        return self.fresh(base, z3.IntSort())

    def fresh_iv(self, st, base, w, tag='S'):
        if self.bv:
            return IV(self.fresh(base, z3.BitVecSort(w)), w, 'V')
        t = self.fint(base)
        self.typed(st, t, w, tag)
        return IV(t, w, tag)

    def rng_of(self, w, tag):
        if tag == 'S': return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if tag == 'U': return (0, (1 << w) - 1)
        return (0, (1 << (w - 1)) - 1)

    def typed(self, st, t, w, tag):
        lo, hi = self.rng_of(w, tag)
        self.vr[t.get_id()] = (lo, hi)
        self.keep.append(t)
        st.assume(t >= lo)
        st.assume(t <= hi)

    def bounded(self, st, t, lo, hi):
        self.vr[t.get_id()] = (lo, hi)
        self.keep.append(t)
        st.assume(t >= lo)
        st.assume(t <= hi)

    def new_obj(self, st, name, ty=None, size=None, **kw):
        self.nobj += 1
        oid = '%s#%d' % (name, self.nobj)
        st.mem[oid] = Obj(name, ty, size, **kw)
        st.own.add(oid)
        return oid

    # ------------------------------------------------------------------ quick solver
    def _sync(self, pc):
        facts = [f for f in pc if not has_quant(f)]
        k = 0
        n = min(len(facts), len(self.qstack))
        while k < n and (facts[k] is self.qstack[k] or facts[k].eq(self.qstack[k])): k += 1
        if len(self.qstack) > k:
            self.qs.pop(len(self.qstack) - k)
            del self.qstack[k:]
        for f in facts[k:]:
            self.qs.push()
            self.qs.add(f)
            self.qstack.append(f)

    def qcheck(self, st, f):
        """sat check of pc and f, quantifier-free part: 'unsat','sat','unknown'"""
        t0 = time.time()
        self._sync(st.pc)
        self.qs.push()
        self.qs.add(f)
        r = self.qs.check()
        self.qs.pop()
        self.qtime += time.time() - t0
        return str(r)

    def interval(self, t, d=0):
        """cheap bounds of an Int term (None = unbounded)"""
        k = t.get_id()
        r = self.vr.get(k)
        if r is not None: return r
        if z3.is_int_value(t):
            v = t.as_long()
            return (v, v)
        if d > 12: return (None, None)
        kd = t.decl().kind() if z3.is_app(t) else None
        ch = t.children()
        res = (None, None)
        if kd == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in ch:
                a, b = self.interval(c, d + 1)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            res = (lo, hi)
        elif kd == z3.Z3_OP_SUB:
            lo, hi = self.interval(ch[0], d + 1)
            for c in ch[1:]:
                a, b = self.interval(c, d + 1)
                lo = None if lo is None or b is None else lo - b
                hi = None if hi is None or a is None else hi - a
            res = (lo, hi)
        elif kd == z3.Z3_OP_MUL:
            lo, hi = 1, 1
            for c in ch:
                a, b = self.interval(c, d + 1)
                if None in (lo, hi, a, b):
                    lo = hi = None
                    break
                p = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(p), max(p)
            res = (lo, hi)
        elif kd == z3.Z3_OP_ITE:
            a = self.interval(ch[1], d + 1)
            b = self.interval(ch[2], d + 1)
            res = (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
        elif kd in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV) and len(ch) == 2:
            a = self.interval(ch[0], d + 1)
            b = self.interval(ch[1], d + 1)
            if None not in a and b[0] is not None and b[0] > 0 and a[0] >= 0:
                res = (0 if b[1] is None else a[0] // b[1], a[1] // b[0])
        elif kd == z3.Z3_OP_MOD:
            a = self.interval(ch[0], d + 1)
            b = self.interval(ch[1], d + 1)
            if b[0] is not None and b[1] is not None and b[0] > 0:
                res = (0, b[1] - 1)
        return res

    def prove(self, st, f):
        """is pc => f cheaply provable?"""
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        key = (f.get_id(), len(st.pc), st.pc[-1].get_id() if st.pc else 0)
        r = self.qcache.get(key)
        if r is not None: return r[0]
        res = self.qcheck(st, z3.Not(f)) == 'unsat'
        self.qcache[key] = (res, f, list(st.pc[-1:]))
        return res

    def in_range(self, st, t, lo, hi):
        a, b = self.interval(t)
        okl = lo is None or (a is not None and a >= lo)
        okh = hi is None or (b is not None and b <= hi)
        if okl and okh: return True
        if a is not None and hi is not None and a > hi: return False
        if b is not None and lo is not None and b < lo: return False
        if not okl and not self.prove(st, t >= lo): return False
        if not okh:
            if self.prove(st, t <= hi): return True
            # products: bound each factor separately (linear queries)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and len(t.children()) == 2 and hi is not None:
                x, y = t.children()
                for ka in (32, 31, 16, 33, 63, 30):
                    kb = hi.bit_length() - ka
                    if kb <= 0: continue
                    if self.prove(st, z3.And(x >= 0, x < (1 << ka), y >= 0, y < (1 << kb))): return True
            return False
        return True

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind='post'):
        if self.dry: return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        self.obls.append(Obl(name, list(st.pc), goal, self.mod.loc(self.curline) if self.curline else None, kind, self.target))

    def ub(self, st, name, cond):
        """undefined behaviour must not happen: obligation, then assumed"""
        if isinstance(cond, bool): cond = z3.BoolVal(cond)
        c = z3.simplify(cond)
        if z3.is_true(c): return
        loc = self.mod.loc(self.curline) if self.curline else None
        short = (loc or '?').split('/')[-1]
        self.oblige(st, '%s@%s' % (name, short), cond, 'safety')
        st.assume(cond)

    # ------------------------------------------------------------------ integer domain
    def const(self, v, w):
        if self.bv:
            v &= (1 << w) - 1
            return IV(z3.BitVecVal(v, w), w, 'V', c=v)
        m = 1 << w
        u = v % m
        if u < m >> 1: return IV(z3.IntVal(u), w, 'B', c=u)
        return IV(z3.IntVal(u - m), w, 'S', c=u - m)

    def boolv(self, b):
        if isinstance(b, bool): b = z3.BoolVal(b)
        return b

    def S(self, st, v):
        """signed mathematical value"""
        if isinstance(v, PDiff): v = self.pd2iv(v)
        if self.bv:
            if v.c is not None:
                c = v.c
                return z3.IntVal(c if c < 1 << (v.w - 1) else c - (1 << v.w))
            return z3.BV2Int(v.t, True)
        if v.tag in ('S', 'B'): return v.t
        h = 1 << (v.w - 1)
        if v.c is not None: return z3.IntVal(v.c - (1 << v.w) if v.c >= h else v.c)
        if self.in_range(st, v.t, None, h - 1):
            return v.t
        return z3.If(v.t >= h, v.t - (1 << v.w), v.t)

    def U(self, st, v):
        if isinstance(v, PDiff): v = self.pd2iv(v)
        if self.bv:
            if v.c is not None: return z3.IntVal(v.c)
            return z3.BV2Int(v.t)
        if v.tag in ('U', 'B'): return v.t
        if v.c is not None: return z3.IntVal(v.c % (1 << v.w))
        if self.in_range(st, v.t, 0, None):
            return v.t
        return z3.If(v.t < 0, v.t + (1 << v.w), v.t)

    def mkU(self, st, t, w):
        """wrap a mathematical value known to be in [0, 2^w)"""
        if z3.is_int_value(t): return self.const(t.as_long(), w)
        if self.in_range(st, t, None, (1 << (w - 1)) - 1) if self.interval(t)[1] is not None else False:
            return IV(t, w, 'B')
        return IV(t, w, 'U')

    def idx(self, st, v):
        """a size_t/ptrdiff value as container index term"""
        if self.bv: return v.t if v.w == 64 else z3.ZeroExt(64 - v.w, v.t)
        return self.U(st, v)

    def from_idx(self, t, w=64):
        if self.bv: return IV(t, w, 'V')
        if z3.is_int_value(t): return self.const(t.as_long(), w)
        return IV(t, w, 'B')

    def binop(self, st, op, fl, a, b, w):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return Undef('op on undef')
        if isinstance(a, PInt) or isinstance(b, PInt) or isinstance(a, PDiff) or isinstance(b, PDiff):
            return self.ptrarith(st, op, a, b, w)
        if z3.is_expr(a):  # i1
            if op == 'xor': return z3.simplify(z3.Xor(a, b))
            if op == 'and': return z3.simplify(z3.And(a, b))
            if op == 'or': return z3.simplify(z3.Or(a, b))
            raise Unsupported('i1 ' + op)
        if self.bv: return self.bvbin(st, op, fl, a, b, w)
        if a.c is not None and b.c is not None:
            r = self.cfold(st, op, fl, a, b, w)
            if r is not None: return r
        M = 1 << w
        H = M >> 1
        if op in ('add', 'sub', 'mul'):
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
            if 'nsw' in fl:
                x, y = self.S(st, a), self.S(st, b)
                t = z3.simplify(f(x, y)) if op != 'mul' else f(x, y)
                if op == 'mul' and self.mulfacts: self.mulfacts(self, st, x, y, t)
                if not self.in_range(st, t, -H, H - 1):
                    self.ub(st, 'no signed overflow', z3.And(t >= -H, t <= H - 1))
                return IV(t, w, 'S') if not z3.is_int_value(t) else self.const(t.as_long(), w)
            ua = a.tag in 'UB'
            ub = b.tag in 'UB'
            sa = a.tag in 'SB'
            sb = b.tag in 'SB'
            if ua and ub:
                t = f(a.t, b.t)
                if self.in_range(st, t, 0, M - 1):
                    return IV(t, w, 'U')
            if sa and sb:
                t = f(a.t, b.t)
                if self.in_range(st, t, -H, H - 1): return IV(t, w, 'S')
            x, y = self.U(st, a), self.U(st, b)
            t = f(x, y)
            if op == 'add':
                if self.in_range(st, t, 0, M - 1): return IV(t, w, 'U')
                return IV(z3.If(t >= M, t - M, t), w, 'U')
            if op == 'sub':
                if self.in_range(st, t, 0, None): return IV(t, w, 'U')
                return IV(z3.If(t < 0, t + M, t), w, 'U')
            if self.in_range(st, t, 0, M - 1): return IV(t, w, 'U')
            r = t % M
            return IV(r, w, 'U')
        if op in ('udiv', 'urem'):
            x, y = self.U(st, a), self.U(st, b)
            self.ub(st, 'no division by zero', y != 0)
            return self.divmod(st, x, y, op == 'udiv', w, 'U' if a.tag == 'U' else 'B')
        if op in ('sdiv', 'srem'):
            x, y = self.S(st, a), self.S(st, b)
            self.ub(st, 'no division by zero', y != 0)
            if not (b.c is not None and b.c > 0):
                self.ub(st, 'no division overflow', z3.Or(x != -H, y != -1))
            if op == 'srem' and self.remfacts:
                r = self.remfacts(self, st, x, y)
                if r is not None: return IV(r, w, 'S')
            ypos = (b.c is not None and b.c > 0) or self.prove(st, y > 0)
            xpos = self.in_range(st, x, 0, None)
            if ypos and xpos: return self.divmod(st, x, y, op == 'sdiv', w, 'B')
            if ypos:
                q, m = x / y, x % y
                self.divfacts(st, x, y)
                up = z3.And(x < 0, m != 0)
                if op == 'sdiv': return IV(z3.If(up, q + 1, q), w, 'S')
                return IV(z3.If(up, m - y, m), w, 'S')
            ay = z3.If(y > 0, y, -y)
            q, m = x / ay, x % ay
            self.divfacts(st, x, ay)
            up = z3.And(x < 0, m != 0)
            if op == 'sdiv':
                tq = z3.If(up, q + 1, q)
                return IV(z3.If(y > 0, tq, -tq), w, 'S')
            return IV(z3.If(up, m - ay, m), w, 'S')
        if op == 'shl' and b.c is not None:
            k = b.c
            self.ub(st, 'shift in range', 0 <= k < w)
            return self.binop(st, 'mul', fl, a, self.const(1 << k, w), w)
        if op == 'shl' and a.c is not None:
            y = self.U(st, b)
            self.ub(st, 'shift in range', y < w)
            if self.pow2fn is not None and a.c == 1 and self.prove(st, y <= w - 2):
                t = self.pow2fn(self, st, y)
                st.assume(z3.And(t >= 1, t <= H // 2))
                return IV(t, w, 'S')
            t = z3.IntVal(0)
            for k in range(w):
                t = z3.If(y == k, z3.IntVal(a.c * (1 << k) if w <= 64 else 0), t)
            if 'nsw' in fl:
                self.ub(st, 'no signed overflow', z3.And(t >= -H, t <= H - 1))
                return IV(t, w, 'S')
            return IV(t % M, w, 'U')
        if op == 'lshr' and b.c is not None:
            x = self.U(st, a)
            return IV(x / z3.IntVal(1 << b.c), w, 'B' if b.c > 0 else 'U')
        if op == 'ashr' and b.c is not None:
            x = self.S(st, a)
            return IV(x / z3.IntVal(1 << b.c), w, 'S')  # z3 div floors for positive divisor
        if op in ('and', 'or', 'xor') and is_bit(a.t) and is_bit(b.t):
            p, q = a.t.arg(0), b.t.arg(0)
            c = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](p, q)
            return self.b2i(z3.simplify(c), w)
        if op == 'and':
            for p, q in ((a, b), (b, a)):
                if q.c is not None:
                    m = q.c % M
                    if m == 0: return self.const(0, w)
                    if m == M - 1: return p
                    if m & (m + 1) == 0:
                        pt = self.U(st, p) if p.tag == 'U' else p.t   # mod 2^k agrees for both readings
                        return IV(pt % z3.IntVal(m + 1), w, 'B')
                    # ~(2^k-1)
                    inv = M - 1 - m
                    if inv & (inv + 1) == 0:
                        if p.tag in 'SB': return IV(p.t - p.t % z3.IntVal(inv + 1), w, 'S')
                        return IV(p.t - p.t % z3.IntVal(inv + 1), w, 'U')
                    # single bit
                    if m & (m - 1) == 0:
                        pt = p.t
                        return IV(((pt / z3.IntVal(m)) % 2) * m, w, 'B' if m < H else 'U')
        if op == 'or':
            for p, q in ((a, b), (b, a)):
                if q.c is not None:
                    if q.c == 0: return p
                    if q.c == 1:
                        return IV(z3.If(p.t % 2 == 1, p.t, p.t + 1), w, p.tag)
                    m = q.c % M
                    if m & (m - 1) == 0:
                        pt = self.U(st, p)
                        return IV(z3.If((pt / z3.IntVal(m)) % 2 == 1, pt, pt + m), w, 'U')
            for p, q in ((a, b), (b, a)):      # (x<<k) | y with y < 2^k
                if z3.is_app_of(p.t, z3.Z3_OP_MUL):
                    m = [c.as_long() for c in p.t.children() if z3.is_int_value(c)]
                    k = (m[0] & -m[0]) if len(m) == 1 and m[0] > 0 else 1
                    if k > 1 and p.tag in 'UB' and self.in_range(st, q.t, 0, k - 1): return IV(p.t + q.t, w, 'U')
        if op == 'xor':
            for p, q in ((a, b), (b, a)):
                if q.c is not None and q.c % M == M - 1:   # ~x
                    if p.tag in 'SB': return IV(-p.t - 1, w, 'S')
                    return IV((M - 1) - p.t, w, 'U')
                if q.c == 0: return p
                if q.c == 1: return IV(z3.If(p.t % 2 == 0, p.t + 1, p.t - 1), w, p.tag)
            if self.xorfn is not None and w == 64:       # an uninterpreted group operation on 64-bit values
                r = self.xorfn(self.S(st, a), self.S(st, b))
                self.typed(st, r, 64, 'S')
                self.keep.append(r)
                return IV(r, 64, 'S')
        x, y = self.U(st, a), self.U(st, b)
        F = z3.Function('bit_%s_%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = F(x, y)
        st.assume(z3.And(r >= 0, r < M))
        self.vr[r.get_id()] = (0, M - 1)
        self.keep.append(r)
        if op == 'and': st.assume(z3.And(r <= x, r <= y))
        if op == 'or': st.assume(z3.And(r >= x, r >= y, r <= x + y))
        if self.bitfacts: self.bitfacts(self, st, op, x, y, r)
        return IV(r, w, 'U')

    def divfacts(self, st, x, y):
        if z3.is_int_value(y): return
        st.assume(z3.And(x % y >= 0, x % y < y, x == (x / y) * y + x % y))

    def divmod(self, st, x, y, quot, w, tag):
        t = x / y if quot else x % y
        if not z3.is_int_value(y):
            st.assume(z3.And(t >= 0, t <= x) if quot else z3.And(t >= 0, t < y, t <= x))
        return IV(t, w, tag)

    def cfold(self, st, op, fl, a, b, w):
        M = 1 << w
        ua, ub = a.c % M, b.c % M
        sa = ua - M if ua >= M >> 1 else ua
        sb = ub - M if ub >= M >> 1 else ub
        if op in ('add', 'sub', 'mul'):
            r = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
            if 'nsw' in fl and not -(M >> 1) <= r < M >> 1:
                self.ub(st, 'no signed overflow', False)
            return self.const(r, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and ub == 0:
            self.ub(st, 'no division by zero', False)
            return self.const(0, w)
        if op == 'udiv': return self.const(ua // ub, w)
        if op == 'urem': return self.const(ua % ub, w)
        if op == 'sdiv':
            q = abs(sa) // abs(sb)
            return self.const(q if (sa < 0) == (sb < 0) else -q, w)
        if op == 'srem':
            q = abs(sa) % abs(sb)
            return self.const(q if sa >= 0 else -q, w)
        if op in ('shl', 'lshr', 'ashr'):
            self.ub(st, 'shift in range', ub < w)
            if ub >= w: return self.const(0, w)
            if op == 'shl': return self.const(ua << ub, w)
            if op == 'lshr': return self.const(ua >> ub, w)
            return self.const(sa >> ub, w)
        return self.const({'and': ua & ub, 'or': ua | ub, 'xor': ua ^ ub}[op], w)

    def bvbin(self, st, op, fl, a, b, w):
        x, y = a.t, b.t
        if a.c is not None and b.c is not None:
            r = self.cfold(st, op, fl, a, b, w)
            if r is not None: return r
        if op == 'add':
            if 'nsw' in fl and self.nosigned:
                self.ub(st, 'no signed overflow', z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
            r = x + y
        elif op == 'sub':
            if 'nsw' in fl and self.nosigned:
                self.ub(st, 'no signed overflow', z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
            r = x - y
        elif op == 'mul':
            if 'nsw' in fl and self.nosigned:
                self.ub(st, 'no signed overflow', z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
            r = x * y
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op in ('shl', 'lshr', 'ashr'):
            self.ub(st, 'shift in range', z3.ULT(y, w))
            r = {'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b.c is None: self.ub(st, 'no division by zero', y != 0)
            elif b.c % (1 << w) == 0: self.ub(st, 'no division by zero', False)
            if op[0] == 's' and b.c is not None and self.bvmax(x) < 1 << w - 1 and self.bvmax(y) < 1 << w - 1: op = 'u' + op[1:]
            if op == 'udiv': r = z3.UDiv(x, y)
            elif op == 'urem': r = z3.URem(x, y)
            elif op == 'sdiv': r = x / y
            else: r = z3.SRem(x, y)
        else:
            raise Unsupported('bv ' + op)
        r = z3.simplify(r)
        return IV(r, w, 'V', c=r.as_long() if z3.is_bv_value(r) else None)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh('undefcmp', z3.BoolSort())
        if ty[0] == 'ptr' or isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            return self.ptrcmp(st, pred, a, b)
        if z3.is_expr(a):
            if pred == 'eq': return z3.simplify(a == b)
            if pred == 'ne': return z3.simplify(a != b)
            x = z3.If(a, 1, 0) if pred[0] == 'u' else z3.If(a, -1, 0)
            y = z3.If(b, 1, 0) if pred[0] == 'u' else z3.If(b, -1, 0)
            return {'t': lambda: x < y, 'e': lambda: x <= y}[pred[2]]() if pred[1] == 'l' else ({'t': lambda: x > y, 'e': lambda: x >= y}[pred[2]]())
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            a, b = self.pd2iv(a), self.pd2iv(b)
        if isinstance(a, FV) and isinstance(b, IV) and b.c == 0 and pred in ('slt', 'sge'):
            # sign bit of the representation (unknown for NaN)
            neg = z3.If(z3.fpIsNaN(a.t), self.fresh('nansign', z3.BoolSort()), z3.fpIsNegative(a.t))
            return neg if pred == 'slt' else z3.Not(neg)
        if isinstance(a, FV) or isinstance(b, FV): raise Unsupported('integer comparison of a real')
        # comparisons of a widened bool with a constant
        for p, q in ((a, b), (b, a)):
            if p.b is not None and q.c is not None and pred in ('eq', 'ne'):
                r = p.b if q.c == 1 else (z3.Not(p.b) if q.c == 0 else z3.BoolVal(False))
                return z3.simplify(r if pred == 'eq' else z3.Not(r))
        if self.bv:
            x, y = a.t, b.t
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
            return z3.simplify(r)
        if pred in ('eq', 'ne'):
            if (a.tag in 'SB' and b.tag in 'SB') or (a.tag in 'UB' and b.tag in 'UB'):
                x, y = a.t, b.t
            else:
                x, y = self.U(st, a), self.U(st, b)
            return z3.simplify(x == y if pred == 'eq' else x != y)
        g = self.U if pred[0] == 'u' else self.S
        x, y = g(st, a), g(st, b)
        return z3.simplify({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[pred[1:]]())

    def b2i(self, b, w):
        if z3.is_true(b): return self.const(1, w)
        if z3.is_false(b): return self.const(0, w)
        if self.bv:
            return IV(z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w, 'V', b=b)
        t = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        return IV(t, w, 'B', b=b)

    def cast(self, st, op, v, t1, t2):
        if isinstance(v, Undef): return v
        if op in ('zext', 'sext'):
            w = t2[1]
            if z3.is_expr(v):
                r = self.b2i(v, w)
                if op == 'sext':
                    if z3.is_true(v): return self.const(-1, w)
                    if z3.is_false(v): return r
                    if self.bv: return IV(z3.If(v, z3.BitVecVal(-1, w), z3.BitVecVal(0, w)), w, 'V')
                    return IV(z3.If(v, z3.IntVal(-1), z3.IntVal(0)), w, 'S')
                return r
            if isinstance(v, (PDiff, PInt)): return v
            if v.c is not None and not self.bv:
                return self.const(v.c % (1 << v.w) if op == 'zext' else (v.c if v.tag != 'U' else v.c - (1 << v.w if v.c >= 1 << (v.w - 1) else 0)), w)
            if self.bv:
                k = w - v.w
                if v.c is not None:
                    c = v.c
                    if op == 'sext' and c >= 1 << (v.w - 1): c -= 1 << v.w
                    return self.const(c, w)
                r = z3.ZeroExt(k, v.t) if op == 'zext' else z3.SignExt(k, v.t)
                return IV(r, w, 'V', b=v.b if op == 'zext' else None)
            if op == 'zext': return IV(self.U(st, v), w, 'B', b=v.b)
            return IV(self.S(st, v), w, 'S', b=v.b if v.tag == 'B' else None)
        if op == 'trunc':
            w = t2[1]
            if isinstance(v, PDiff): v = self.pd2iv(v)
            if w == 1:
                if v.b is not None: return v.b
                if v.c is not None: return z3.BoolVal(bool(v.c & 1))
                if self.bv: return z3.simplify(z3.Extract(0, 0, v.t) == 1)
                return z3.simplify(v.t % 2 == 1)
            if self.bv:
                r = z3.simplify(z3.Extract(w - 1, 0, v.t))
                return IV(r, w, 'V', c=r.as_long() if z3.is_bv_value(r) else None, b=v.b)
            if v.c is not None: return self.const(v.c, w)
            if v.tag in 'UB' and self.in_range(st, v.t, 0, (1 << w) - 1): return IV(v.t, w, 'U', b=v.b)
            if v.tag in 'SB' and self.in_range(st, v.t, -(1 << (w - 1)), (1 << (w - 1)) - 1): return IV(v.t, w, 'S')
            return IV(v.t % z3.IntVal(1 << w), w, 'U')
        if op == 'ptrtoint':
            return PInt(v, t2[1])
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, IV) and v.c == 0: return NULL
            raise Unsupported('inttoptr')
        if op == 'bitcast': return v
        if op in ('sitofp', 'uitofp'):
            return self.i2f(st, op, v, t2[1])
        if op in ('fptosi', 'fptoui'):
            return self.f2i(st, op, v, t2[1])
        if op in ('fpext', 'fptrunc'):
            return self.f2f(st, op, v, t2[1])
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------------ floats
    FS = {'x86_fp80': (15, 64), 'double': (11, 53), 'float': (8, 24)}

    def fsort(self, n):
        return z3.FPSort(*self.FS[n])

    def fconst(self, txt, n):
        e, s = self.FS[n]
        if txt.startswith('0xK'):
            v = int(txt[3:], 16)
            sign = v >> 79
            ex = (v >> 64) & 0x7fff
            mant = v & ((1 << 64) - 1)
            return FV(z3.fpFP(z3.BitVecVal(sign, 1), z3.BitVecVal(ex, 15), z3.BitVecVal(mant & ((1 << 63) - 1), 63)), n)
        if txt.startswith('0x'):
            v = int(txt[2:], 16)
            d = z3.fpFP(z3.BitVecVal(v >> 63, 1), z3.BitVecVal((v >> 52) & 0x7ff, 11), z3.BitVecVal(v & ((1 << 52) - 1), 52))
            if n == 'float': d = z3.simplify(z3.fpToFP(z3.RNE(), d, self.fsort(n)))
            return FV(z3.simplify(d), n)
        return FV(z3.FPVal(float(txt), self.fsort(n)), n)

    def fuf(self, name, n, *args, out=None):
        F = z3.Function('f_%s_%s' % (name, n), *([a.sort() for a in args] + [out or self.fsort(n)]))
        return F(*args)

    def fbin(self, st, op, a, b, n):
        if isinstance(a, Undef) or isinstance(b, Undef): return Undef('fp undef')
        if self.fpexact:
            rm = z3.RNE()
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a.t, b.t)
            return FV(r, n)
        if op in ('fadd', 'fmul') and a.t.sexpr() > b.t.sexpr(): a, b = b, a      # commutative
        r = self.fuf(op, n, a.t, b.t)
        if self.fpfacts: self.fpfacts(self, st, op, (a.t, b.t), r)
        return FV(r, n)

    def fcmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return self.fresh('undefcmp', z3.BoolSort())
        x, y = a.t, b.t
        if pred in ('true', 'false'): return z3.BoolVal(pred == 'true')
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord': return z3.Not(un)
        if pred == 'uno': return un
        base = {'eq': z3.fpEQ, 'ne': lambda p, q: z3.And(z3.Not(z3.fpEQ(p, q)), z3.Not(un)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]](x, y)
        return z3.simplify(base if pred[0] == 'o' else z3.Or(base, un))

    def i2f(self, st, op, v, n):
        if z3.is_expr(v): v = self.b2i(v, 8)
        if v.c is not None:
            c = v.c
            if op == 'sitofp':
                c %= 1 << v.w
                if c >= 1 << (v.w - 1): c -= 1 << v.w
            else: c %= 1 << v.w
            return FV(z3.simplify(z3.fpRealToFP(z3.RNE(), z3.RealVal(c), self.fsort(n))), n)
        if self.bv:
            return FV(z3.fpSignedToFP(z3.RNE(), v.t, self.fsort(n)) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), v.t, self.fsort(n)), n)
        t = self.S(st, v) if op == 'sitofp' else self.U(st, v)
        F = z3.Function('i2f_%s' % n, z3.IntSort(), self.fsort(n))
        if self.fpfacts: self.fpfacts(self, st, 'i2f', (t,), F(t))
        return FV(F(t), n)

    def f2i(self, st, op, v, w):
        if self.bv:
            return IV((z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), v.t, z3.BitVecSort(w)), w, 'V')
        F = z3.Function('f2i_%s' % v.n, self.fsort(v.n), z3.IntSort())
        r = F(v.t)
        if self.fpfacts: self.fpfacts(self, st, 'f2i', (v.t,), r)
        lo, hi = self.rng_of(w, 'S' if op == 'fptosi' else 'U')
        self.ub(st, 'float to integer conversion in range', z3.And(r >= lo, r <= hi))
        return IV(r, w, 'S' if op == 'fptosi' else 'U')

    def f2f(self, st, op, v, n):
        if z3.is_fp_value(v.t) or self.fpexact or op == 'fpext':
            return FV(z3.simplify(z3.fpToFP(z3.RNE(), v.t, self.fsort(n))), n)
        F = z3.Function('f2f_%s_%s' % (v.n, n), self.fsort(v.n), self.fsort(n))
        return FV(F(v.t), n)

    # ------------------------------------------------------------------ pointers
    def pd2iv(self, v):
        if isinstance(v, PDiff):
            t = v.n * v.size + v.off
            return IV(t, v.w, 'S' if not self.bv else 'V')
        if isinstance(v, PInt): raise Unsupported('pointer as integer')
        return v

    def ptrarith(self, st, op, a, b, w):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            p, q = a.p, b.p
            if p == q:
                return self.const(0, w)
            if isinstance(p, EP) and isinstance(q, EP):
                if p.par == q.par:
                    d = z3.simplify(p.idx - q.idx)
                    return PDiff(d, p.mt.elem.size, p.off - q.off, w)
            if isinstance(p, CP) and isinstance(q, CP) and p.obj == q.obj:
                return self.const(p.off - q.off, w)
            if isinstance(p, (AP, CP)) and isinstance(q, (AP, CP)) and p.obj == q.obj:
                A = p if isinstance(p, AP) else q
                def lin(x):
                    if isinstance(x, AP): return (x.idx, x.base + x.off)
                    return (z3.IntVal(0) if not self.bv else z3.BitVecVal(0, 64), x.off)
                (i1, o1), (i2, o2) = lin(p), lin(q)
                do = o1 - o2
                if do % A.stride == 0:
                    return PDiff(z3.simplify(i1 - i2 + do // A.stride), A.stride, 0, w)
            raise Unsupported('pointer difference %r %r' % (p, q))
        if op in ('sdiv',) and isinstance(a, PDiff) and isinstance(b, IV) and b.c is not None:
            if a.size % b.c == 0 and a.off % b.c == 0:
                k = a.size // b.c
                t = z3.simplify(a.n * k + a.off // b.c)
                return IV(t, w, 'V' if self.bv else 'S', c=None) if not z3.is_int_value(t) else self.const(t.as_long(), w)
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            return self.binop(st, op, {'nsw'}, self.pd2iv(a), self.pd2iv(b), w)
        raise Unsupported('pointer arithmetic ' + op)

    def ptrcmp(self, st, pred, a, b):
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, IV) and a.c == 0: a = NULL
        if isinstance(b, IV) and b.c == 0: b = NULL
        if isinstance(a, NodeP) or isinstance(b, NodeP):
            r = self.nodecmp(st, a, b)
            return z3.simplify(r if pred == 'eq' else z3.Not(r))
        if isinstance(a, NullP) or isinstance(b, NullP):
            eq = isinstance(a, NullP) and isinstance(b, NullP)
            other = b if isinstance(a, NullP) else a
            if isinstance(other, EP) and not eq:
                # data() of an empty vector may be null: unknown unless size > 0
                comps = self.rd_cont(st, other.par, other.mt)
                if not self.prove(st, comps[0] > 0 if not self.bv else comps[0] != 0):
                    f = self.fresh('isnull', z3.BoolSort())
                    return f if pred == 'eq' else z3.Not(f)
            if pred == 'eq': return z3.BoolVal(eq)
            if pred == 'ne': return z3.BoolVal(not eq)
            raise Unsupported('null compare ' + pred)
        if isinstance(a, EP) and isinstance(b, EP) and a.par == b.par:
            x, y = a.idx, b.idx
            if pred in ('eq', 'ne') and a.off != b.off:
                return z3.BoolVal(pred == 'ne')
            if self.bv:
                return z3.simplify({'eq': x == y, 'ne': x != y, 'ult': z3.ULT(x, y), 'ule': z3.ULE(x, y), 'ugt': z3.UGT(x, y), 'uge': z3.UGE(x, y)}[pred])
            return z3.simplify({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
        if isinstance(a, CP) and isinstance(b, CP) and a.obj == b.obj:
            x, y = a.off, b.off
            return z3.BoolVal({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
        if isinstance(a, (AP, CP)) and isinstance(b, (AP, CP)) and a.obj == b.obj:
            def lin(x):
                if isinstance(x, AP): return x.idx * x.stride + (x.base + x.off)
                return z3.IntVal(x.off) if not self.bv else z3.BitVecVal(x.off, 64)
            x, y = lin(a), lin(b)
            if self.bv and pred not in ('eq', 'ne'): raise Unsupported('AP order in bv')
            return z3.simplify({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
        if pred in ('eq', 'ne'):
            # different objects
            ra, rb = self.root(a), self.root(b)
            if ra != rb:
                return z3.BoolVal(pred == 'ne')
            if type(a) is not type(b):
                return z3.BoolVal(pred == 'ne')
            if isinstance(a, EP) and isinstance(b, EP):
                if isinstance(a.par, EP) and isinstance(b.par, EP) and a.par.par == b.par.par and a.off == b.off and a.par.off == b.par.off:
                    e = z3.And(a.idx == b.idx, a.par.idx == b.par.idx)
                    return z3.simplify(e if pred == 'eq' else z3.Not(e))
            if a == b: return z3.BoolVal(pred == 'eq')
        raise Unsupported('pointer compare %s %r %r' % (pred, a, b))

    def root(self, p):
        while isinstance(p, (EP, NodeP)): p = p.par
        if isinstance(p, (CP, AP)): return p.obj
        return p

    def nodecmp(self, st, a, b):
        if isinstance(a, NodeP) and isinstance(b, NodeP) and isinstance(a.par, EP) and isinstance(b.par, EP) and a.par.par == b.par.par and a.par.off == b.par.off:
            if not z3.eq(a.par.idx, b.par.idx): self.ub(st, 'compared iterators belong to the same container', a.par.idx == b.par.idx)
        elif not (isinstance(a, NodeP) and isinstance(b, NodeP) and a.par == b.par):
            raise Unsupported('iterator compare %r %r' % (a, b))
        return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))

    def padd(self, st, p, n, sz):
        """pointer + n*sz bytes; n is IV"""
        if isinstance(p, Undef): raise Unsupported('arithmetic on %r' % p)
        if sz == 0: return p
        if n.c is not None:
            c = n.c % (1 << n.w)
            if c >= 1 << (n.w - 1): c -= 1 << n.w
            if c == 0: return p
            return self.padd_const(p, c * sz)
        if isinstance(p, EP):
            es = p.mt.elem.size
            t = n.t if self.bv else self.S(st, n)
            if sz % es == 0:
                return EP(p.par, z3.simplify(p.idx + t * (sz // es)), p.off, p.mt)
            # raw array inside an element is not supported
            raise Unsupported('gep stride %d in element of %d' % (sz, es))
        if isinstance(p, CP):
            o = None
            t = n.t if self.bv else self.S(st, n)
            if self.bv and n.w != 64: t = z3.SignExt(64 - n.w, t)
            return AP(p.obj, p.off, t, sz, None, 0)
        if isinstance(p, AP):
            t = n.t if self.bv else self.S(st, n)
            if self.bv and n.w != 64: t = z3.SignExt(64 - n.w, t)
            if sz == p.stride:
                return AP(p.obj, p.base, z3.simplify(p.idx + t), sz, p.n, p.off)
            if p.stride % sz == 0:
                q = p.stride // sz
                return AP(p.obj, p.base, z3.simplify((p.idx << q.bit_length() - 1 if self.bv and q & q - 1 == 0 else p.idx * q) + t), sz, None, p.off)
            raise Unsupported('gep stride %d over %d' % (sz, p.stride))
        if isinstance(p, NullP): raise Unsupported('arithmetic on null')
        raise Unsupported('gep on %r' % (p,))

    def padd_const(self, p, c):
        if c == 0: return p
        if isinstance(p, CP): return CP(p.obj, p.off + c)
        if isinstance(p, EP):
            es = p.mt.elem.size
            o = p.off + c
            k, o = divmod(o, es)
            return EP(p.par, z3.simplify(p.idx + k) if k else p.idx, o, p.mt)
        if isinstance(p, AP):
            o = p.off + c
            k, o = divmod(o, p.stride)
            return AP(p.obj, p.base, z3.simplify(p.idx + k) if k else p.idx, p.stride, p.n, o)
        if isinstance(p, NodeP):
            return NodeP(p.par, p.mt, p.key, p.end, p.off + c)
        if isinstance(p, NullP): return p
        raise Unsupported('gep const on %r' % (p,))

    def gep(self, st, bt, p, idxs):
        first = True
        ty = bt
        for (it, iv) in idxs:
            if first:
                first = False
                p = self.padd(st, p, iv, self.mod.size(ty)) if not (iv.c == 0) else p
                continue
            if ty[0] == 'st':
                k = iv.c
                _, offs = self.mod.layout(ty)
                p = self.padd_const(p, offs[k])
                ty = ty[2][k]
            elif ty[0] in ('arr', 'vec'):
                es = self.mod.size(ty[2])
                if iv.c is not None:
                    p = self.padd_const(p, iv.c * es)
                else:
                    n = ty[1]
                    if isinstance(p, CP):
                        p = self.padd(st, p, iv, es)
                        if isinstance(p, AP): p = AP(p.obj, p.base, p.idx, p.stride, n, p.off)
                    else:
                        p = self.padd(st, p, iv, es)
                ty = ty[2]
            else:
                raise Unsupported('gep into %r' % (ty,))
        return p

    # ------------------------------------------------------------------ shapes and containers
    def sort_of(self, kind):
        if kind[0] == 'i': return z3.BitVecSort(kind[1]) if self.bv else z3.IntSort()
        if kind[0] == 'b': return z3.BoolSort()
        if kind[0] == 'f': return self.fsort(kind[1])
        if kind[0] == 'p': return z3.IntSort()
        if kind[0] == 'u': return kind[1]
        raise Unsupported('sort of %r' % (kind,))

    def comps(self, mt):
        """flattened component sorts of a model container"""
        r = getattr(mt, '_comps', None)
        if r is not None and mt._bv == self.bv: return r
        if isinstance(mt, VecT):
            r = [self.ISort]
            for lf in mt.elem.leaves:
                r += [z3.ArraySort(self.ISort, s) for s in self.leaf_sorts(lf)]
        elif isinstance(mt, AssocT):
            ks = self.keysort(mt)
            r = [z3.ArraySort(ks, z3.BoolSort()), self.ISort]
            if mt.val:
                for lf in mt.val.leaves:
                    r += [z3.ArraySort(ks, s) for s in self.leaf_sorts(lf)]
        else:
            r = list(mt.sorts)
        mt._comps = r
        mt._bv = self.bv
        return r

    def keysort(self, mt):
        ls = []
        for lf in mt.key.leaves: ls += self.leaf_sorts(lf)
        if len(ls) != 1: raise Unsupported('composite map key')
        return ls[0]

    def leaf_sorts(self, lf):
        if lf.kind[0] == 'm': return self.comps(lf.kind[1])
        return [self.sort_of(lf.kind)]

    def leaf_range(self, mt, off):
        """component range [a,b) of the leaf at byte offset off, and its kind"""
        if isinstance(mt, VecT): k, sh = 1, mt.elem
        else: k, sh = 2, mt.val
        for lf in sh.leaves:
            n = len(self.leaf_sorts(lf))
            if lf.off == off: return k, k + n, lf
            k += n
        return None

    def rd_cont(self, st, p, mt):
        if isinstance(p, CP):
            o = st.mem[p.obj]
            g = o.ghost.get(p.off)
            if g is None:
                if o.lazy:
                    comps = tuple(z3.Const('%s@%d.%d' % (o.name, p.off, k), s) for k, s in enumerate(self.comps(mt)))
                    st.wobj(p.obj).ghost[p.off] = (mt, comps)
                    self.cont_facts(st, mt, comps)
                    return comps
                raise Unsupported('no container of type %r at %r' % (mt, p))
            return g[1]
        if isinstance(p, EP):
            pc = self.rd_cont(st, p.par, p.mt)
            r = self.leaf_range(p.mt, p.off)
            if r is None: raise Unsupported('no leaf at %d in %r' % (p.off, p.mt))
            return tuple(z3.Select(x, p.idx) for x in pc[r[0]:r[1]])
        if isinstance(p, NodeP):
            pc = self.rd_cont(st, p.par, p.mt)
            voff = p.off - self.valoff(p.mt)
            r = self.leaf_range(p.mt, voff)
            if r is None: raise Unsupported('node leaf')
            return tuple(z3.Select(x, p.key) for x in pc[r[0]:r[1]])
        raise Unsupported('container at %r' % (p,))

    def valoff(self, mt):
        a = 8
        return (mt.key.size + 7) // 8 * 8 if mt.val and mt.val.size >= 8 else mt.key.size

    def cont_mt(self, st, p):
        """model type of the container at p, or None"""
        if isinstance(p, CP):
            o = st.mem.get(p.obj)
            g = o.ghost.get(p.off) if o else None
            return g[0] if g else None
        if isinstance(p, EP):
            r = self.leaf_range(p.mt, p.off)
            if r and r[2].kind[0] == 'm': return r[2].kind[1]
        if isinstance(p, NodeP) and p.mt.val:
            r = self.leaf_range(p.mt, p.off - self.valoff(p.mt))
            if r and r[2].kind[0] == 'm': return r[2].kind[1]
        return None

    def wr_cont(self, st, p, mt, comps, changed=None):
        """changed: set of component numbers that differ (for the write log)"""
        comps = tuple(comps)
        if isinstance(p, CP):
            o = st.wobj(p.obj)
            if o.ro: raise Unsupported('write to read-only ' + o.name)
            old = o.ghost.get(p.off)
            if self.wlog is not None:
                for k in range(len(comps)):
                    if old is None or changed is None or k in changed:
                        if old is None or not comps[k].eq(old[1][k]):
                            self.wlog.add((p.obj, p.off, 'g', k))
            o.ghost[p.off] = (mt, comps)
            return
        if isinstance(p, EP):
            pc = list(self.rd_cont(st, p.par, p.mt))
            a, b, lf = self.leaf_range(p.mt, p.off)
            for k in range(a, b):
                pc[k] = z3.Store(pc[k], p.idx, comps[k - a])
            self.wr_cont(st, p.par, p.mt, pc, set(range(a, b)))
            return
        if isinstance(p, NodeP):
            pc = list(self.rd_cont(st, p.par, p.mt))
            a, b, lf = self.leaf_range(p.mt, p.off - self.valoff(p.mt))
            for k in range(a, b):
                pc[k] = z3.Store(pc[k], p.key, comps[k - a])
            self.wr_cont(st, p.par, p.mt, pc, set(range(a, b)))
            return
        raise Unsupported('container write at %r' % (p,))

    MAXN = 1 << 60

    def cont_facts(self, st, mt, comps):
        """size of a container is between 0 and max_size"""
        if isinstance(mt, VecT):
            n = comps[0]
            if self.bv: st.assume(z3.ULE(n, z3.BitVecVal(self.MAXN, 64)))
            else: self.bounded(st, n, 0, self.MAXN)
        elif isinstance(mt, AssocT):
            n = comps[1]
            if not self.bv: self.bounded(st, n, 0, self.MAXN)

    def fresh_comps(self, st, mt, base):
        comps = tuple(self.fresh('%s.%d' % (base, k), s) for k, s in enumerate(self.comps(mt)))
        self.cont_facts(st, mt, comps)
        return comps

    def scalar_from(self, st, kind, t):
        """z3 component term -> value"""
        if kind[0] == 'i':
            if self.bv:
                t = z3.simplify(t)
                return IV(t, kind[1], 'V', c=t.as_long() if z3.is_bv_value(t) else None)
            if z3.is_int_value(t): return self.const(t.as_long(), kind[1])
            tag = 'S' if kind[2] == 's' else 'U'
            if t.get_id() not in self.vr:
                ts = z3.simplify(t)
                if z3.is_int_value(ts): return self.const(ts.as_long(), kind[1])
                self.typed(st, t, kind[1], tag)
            else:
                lo, hi = self.rng_of(kind[1], tag)
                st.assume(t >= lo); st.assume(t <= hi)
            return IV(t, kind[1], tag)
        if kind[0] == 'b': return self.b2i(z3.simplify(t), 8)
        if kind[0] == 'f': return FV(t, kind[1])
        raise Unsupported('scalar of kind %r' % (kind,))

    def scalar_to(self, st, kind, v):
        if kind[0] == 'i':
            if isinstance(v, PDiff): v = self.pd2iv(v)
            if isinstance(v, Undef): return self.fresh('undef', self.sort_of(kind))
            if self.bv: return v.t
            return self.S(st, v) if kind[2] == 's' else self.U(st, v)
        if kind[0] == 'b':
            if z3.is_expr(v): return v
            if v.b is not None: return v.b
            if v.c is not None: return z3.BoolVal(v.c != 0)
            return v.t != 0
        if kind[0] == 'f': return v.t
        raise Unsupported('scalar to %r' % (kind,))

    # ------------------------------------------------------------------ memory
    def global_obj(self, st, name):
        oid = '@' + name
        if oid not in st.mem:
            if name not in self.mod.globals: raise Unsupported('global ' + name)
            ty, init, ro = self.mod.glob(name)
            o = Obj(oid, ty, self.mod.size(ty) if ty else None)
            if init is None: o.lazy = True
            elif ro or name.startswith('.str'):
                o.zero = True
                self.init_cells(st, o, 0, ty, init)
                o.ro = True
            else:
                o.lazy = True
            st.mem[oid] = o
        return oid

    def init_cells(self, st, o, off, ty, init):
        k = init[0]
        if k == 'zero' or k == 'undef': return
        if k == 'agg':
            if ty[0] == 'st':
                _, offs = self.mod.layout(ty)
                for (t, v), d in zip(init[1], offs): self.init_cells(st, o, off + d, t, v)
            else:
                es = self.mod.size(ty[2])
                for i, (t, v) in enumerate(init[1]): self.init_cells(st, o, off + i * es, t, v)
            return
        if k == 'str':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (1, self.const(b, 8), ('int', 8))
            return
        o.cells[off] = (self.mod.size(ty), self.operand(st, {}, ty, init), ty)

    def zero_of(self, ty):
        if ty[0] == 'int': return self.const(0, ty[1]) if ty[1] > 1 else z3.BoolVal(False)
        if ty[0] == 'ptr': return NULL
        if ty[0] == 'fp': return FV(z3.FPVal(0.0, self.fsort(ty[1])), ty[1])
        raise Unsupported('zero of %r' % (ty,))

    def load(self, st, p, ty):
        if ty[0] == 'st':
            _, offs = self.mod.layout(ty)
            return [self.load(st, self.padd_const(p, o), f) for f, o in zip(ty[2], offs)]
        if ty[0] in ('arr', 'vec'):
            es = self.mod.size(ty[2])
            return [self.load(st, self.padd_const(p, es * i), ty[2]) for i in range(ty[1])]
        if isinstance(p, Undef): raise Unsupported('load through %r' % p)
        if isinstance(p, NullP):
            self.ub(st, 'no null dereference', False)
            return self.fresh_of(st, 'nullload', ty)
        sz = self.mod.size(ty)
        if isinstance(p, CP): return self.load_cell(st, p.obj, p.off, sz, ty)
        if isinstance(p, EP): return self.load_elem(st, p, sz, ty)
        if isinstance(p, AP): return self.load_ap(st, p, sz, ty)
        if isinstance(p, NodeP): return self.load_node(st, p, sz, ty)
        raise Unsupported('load %r' % (p,))

    def fresh_of(self, st, base, ty, tag=None):
        if ty[0] == 'int':
            if ty[1] == 1: return self.fresh(base, z3.BoolSort())
            return self.fresh_iv(st, base, ty[1], tag or 'S')
        if ty[0] == 'fp': return FV(self.fresh(base, self.fsort(ty[1])), ty[1])
        return Undef(base)

    def conv(self, st, v, ty):
        """value read at type ty"""
        if isinstance(v, Undef): return v
        if ty[0] == 'ptr':
            if isinstance(v, PInt): return v.p
            if isinstance(v, IV) and v.c == 0: return NULL
            if isinstance(v, Ptr): return v
            if self.ptrhook and isinstance(v, IV): return self.ptrhook(st, v)
        elif ty[0] == 'int':
            if isinstance(v, Ptr): return PInt(v, ty[1])
            if ty[1] == 1 and isinstance(v, IV): return self.cast(st, 'trunc', v, ('int', v.w), ty)
            if z3.is_expr(v) and ty[1] > 1: return self.b2i(v, ty[1])
            if isinstance(v, (IV, PInt, PDiff)) or z3.is_expr(v): return v
        elif ty[0] == 'fp':
            if isinstance(v, FV) and v.n == ty[1]: return v
        raise Unsupported('value %r read as %r' % (v, ty))

    def load_cell(self, st, oid, off, sz, ty):
        o = st.mem.get(oid)
        if o is None: raise Unsupported('dangling object ' + oid)
        c = o.cells.get(off)
        if o.size is not None and not (0 <= off and off + sz <= o.size):
            self.ub(st, 'in-bounds access of ' + o.name.strip('@'), False)
            return self.fresh_of(st, 'oob', ty)
        if c is not None:
            if c[0] == sz: return self.conv(st, c[1], ty)
            if c[0] > sz and ty[0] == 'int' and isinstance(c[1], IV):
                return self.cast(st, 'trunc', c[1], None, ty)
            if c[0] < sz and ty[0] == 'int':
                # assemble from smaller cells
                v = None
                k = off
                while k < off + sz:
                    d = o.cells.get(k)
                    if d is None or not isinstance(d[1], IV): break
                    part = self.cast(st, 'zext', d[1], None, ty)
                    if k > off: part = self.binop(st, 'shl', set(), part, self.const(8 * (k - off), ty[1]), ty[1])
                    v = part if v is None else (self.binop(st, 'or', set(), v, part, ty[1]) if self.bv else self.binop(st, 'add', set(), v, part, ty[1]))
                    k += d[0]
                else:
                    return v if self.bv or k != off + sz else IV(v.t, v.w, v.tag, v.c, v.b, {k - off: o.cells[k] for k in range(off, off + sz) if k in o.cells})
                parts = {k - off: o.cells[k] for k in range(off, off + sz) if k in o.cells and k + o.cells[k][0] <= off + sz and not isinstance(o.cells[k][1], Undef)}
                return Bundle(parts) if parts else Undef('partially initialised')
        # inside a larger cell?
        for d in range(1, 16):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d and isinstance(c[1], IV) and ty[0] == 'int':
                    t = self.binop(st, 'lshr', set(), c[1], self.const(8 * d, c[1].w), c[1].w)
                    return self.cast(st, 'trunc', t, None, ty) if ty[1] < c[1].w else t
                break
        if off in o.ghost and o.ghost[off][0].bytes >= sz:
            raise Unsupported('raw read of container %r' % (o.ghost[off][0],))
        if o.zero: return self.zero_of(ty)
        if o.lazy:
            nm = '%s@%d' % (o.name, off)
            if ty[0] == 'ptr':
                nid = 'deref(%s)' % nm
                if nid not in st.mem:
                    st.mem[nid] = Obj(nid, lazy=True)
                v = CP(nid, 0)
            elif ty[0] == 'int':
                if ty[1] == 1: v = z3.Const(nm, z3.BoolSort())
                elif self.bv: v = IV(z3.Const(nm, z3.BitVecSort(ty[1])), ty[1], 'V')
                else:
                    t = z3.Int(nm)
                    self.typed(st, t, ty[1], 'S')
                    v = IV(t, ty[1], 'S')
            else:
                v = FV(z3.Const(nm, self.fsort(ty[1])), ty[1])
            st.wobj(oid).cells[off] = (sz, v, ty)
            return v
        return Undef('%s+%d' % (o.name, off))

    def leaf_at(self, p):
        r = self.leaf_range(p.mt, p.off)
        if r is None: raise Unsupported('no element leaf at offset %d of %r' % (p.off, p.mt))
        return r

    def load_elem(self, st, p, sz, ty):
        comps = self.rd_cont(st, p.par, p.mt)
        self.elem_bounds(st, p, comps)
        r = self.leaf_range(p.mt, p.off)
        if r is None or r[2].kind[0] == 'm' or r[2].size != sz:
            if r is not None and r[2].kind[0] != 'm' and r[2].size < sz and ty[0] == 'int':
                # coerced struct: assemble
                v = None
                k = 0
                parts = {}
                while k < sz:
                    rr = self.leaf_range(p.mt, p.off + k)
                    if rr is None: raise Unsupported('coerced read')
                    d = self.scalar_from(st, rr[2].kind, z3.Select(comps[rr[0]], p.idx))
                    if isinstance(d, IV): parts[k] = (rr[2].size, d, ('int', d.w))
                    part = self.cast(st, 'zext', d, None, ty)
                    if k: part = self.binop(st, 'shl', set(), part, self.const(8 * k, ty[1]), ty[1])
                    v = part if v is None else self.binop(st, 'or' if self.bv else 'add', set(), v, part, ty[1])
                    k += rr[2].size
                if not self.bv and k == sz and sum(c[0] for c in parts.values()) == sz: v = IV(v.t, v.w, v.tag, v.c, v.b, parts)
                return v
            raise Unsupported('read of %r at offset %d size %d' % (p.mt, p.off, sz))
        return self.conv(st, self.scalar_from(st, r[2].kind, z3.Select(comps[r[0]], p.idx)), ty)

    def elem_bounds(self, st, p, comps):
        n = comps[0]
        if self.bv: ok = z3.ULT(p.idx, n)
        else: ok = z3.And(p.idx >= 0, p.idx < n)
        self.ub(st, 'element access within %s bounds' % p.mt.kind, ok)

    def store_elem(self, st, p, v, sz):
        comps = list(self.rd_cont(st, p.par, p.mt))
        self.elem_bounds(st, p, comps)
        r = self.leaf_range(p.mt, p.off)
        if r is None or r[2].kind[0] == 'm' or r[2].size != sz:
            if r is not None and r[2].kind[0] == 'i' and r[2].size < sz and isinstance(v, IV):
                k = 0
                while k < sz:
                    rr = self.leaf_range(p.mt, p.off + k)
                    if rr is None: raise Unsupported('coerced write')
                    if v.parts and k in v.parts and v.parts[k][0] == rr[2].size:
                        self.store_elem(st, EP(p.par, p.idx, p.off + k, p.mt), v.parts[k][1], rr[2].size)
                        k += rr[2].size
                        continue
                    part = v if k == 0 else self.binop(st, 'lshr', set(), v, self.const(8 * k, v.w), v.w)
                    part = self.cast(st, 'trunc', part, None, ('int', 8 * rr[2].size))
                    self.store_elem(st, EP(p.par, p.idx, p.off + k, p.mt), part, rr[2].size)
                    k += rr[2].size
                return
            raise Unsupported('write of %r at offset %d size %d' % (p.mt, p.off, sz))
        comps[r[0]] = z3.Store(comps[r[0]], p.idx, self.scalar_to(st, r[2].kind, v))
        self.wr_cont(st, p.par, p.mt, comps, {r[0]})

    def load_ap(self, st, p, sz, ty):
        o = st.mem[p.obj]
        n = p.n
        if n is None:
            if o.size is None: raise Unsupported('AP without bound')
            n = (o.size - p.base) // p.stride
        isc = z3.is_int_value(p.idx) or z3.is_bv_value(p.idx)
        if isc:
            k = p.idx.as_long() if z3.is_int_value(p.idx) else p.idx.as_signed_long()
            return self.load_cell(st, p.obj, p.base + k * p.stride + p.off, sz, ty)
        lo = -(p.base // p.stride) if not self.bv else 0
        if o.size is not None and lo:
            n = (o.size - p.base) // p.stride
        if self.bv:
            if self.bvmax(p.idx) >= n: self.ub(st, 'array index in bounds', z3.ULT(p.idx, n))
        else: self.ub(st, 'array index in bounds', z3.And(p.idx >= lo, p.idx < n))
        # constant table: one array constant
        if ty[0] == 'int':
            key = (p.obj, p.base, p.stride, p.off, sz, lo, n)
            vals = [self.load_cell(st, p.obj, p.base + k * p.stride + p.off, sz, ty) for k in range(lo, n)]
            if o.ro and all(v.c is not None for v in vals):
                return self.table(st, key, vals, lo, p.idx, ty[1])
            if any(isinstance(v, Undef) for v in vals): raise Unsupported('array with uninitialised entries')
            if self.bv:
                t = vals[-1].t
                for k in range(len(vals) - 2, -1, -1): t = z3.If(p.idx == lo + k, vals[k].t, t)
                return IV(t, ty[1], 'V')
            tag = 'S' if all(v.tag in 'SB' for v in vals) else 'U'
            g = self.S if tag == 'S' else self.U
            t = g(st, vals[-1])
            for k in range(len(vals) - 2, -1, -1): t = z3.If(p.idx == lo + k, g(st, vals[k]), t)
            return IV(t, ty[1], tag)
        vals = [self.load_cell(st, p.obj, p.base + k * p.stride + p.off, sz, ty) for k in range(lo, n)]
        if ty[0] == 'fp':
            t = vals[-1].t
            for k in range(len(vals) - 2, -1, -1): t = z3.If(p.idx == lo + k, vals[k].t, t)
            return FV(t, ty[1])
        raise Unsupported('array read of %r' % (ty,))

    def bvmax(self, t):
        """structural upper bound of an unsigned bit vector term"""
        k = t.decl().kind()
        if z3.is_bv_value(t): return t.as_long()
        if k == z3.Z3_OP_ZERO_EXT: return self.bvmax(t.arg(0))
        if k == z3.Z3_OP_CONCAT:
            r = 0
            for a in t.children(): r = r << a.size() | self.bvmax(a)
            return r
        if k == z3.Z3_OP_BAND: return min(self.bvmax(a) for a in t.children())
        return (1 << t.size()) - 1

    def table(self, st, key, vals, lo, idx, w):
        if self.bv and self.name_tables:
            v = z3.FreshConst(z3.BitVecSort(w), 'tab')
            self.tabdefs[v.get_id()] = (v, tuple(x.c % (1 << w) for x in vals), idx)
            return IV(v, w, 'V')
        t = self.globdefs.get(key)
        if t is None:
            if self.bv:
                t = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, w))
                for k, v in enumerate(vals): t = z3.Store(t, z3.BitVecVal(lo + k, 64), v.t)
            else:
                t = z3.K(z3.IntSort(), z3.IntVal(0))
                for k, v in enumerate(vals): t = z3.Store(t, z3.IntVal(lo + k), v.t)
            self.globdefs[key] = t
        r = z3.Select(t, idx)
        if self.bv: return IV(r, w, 'V')
        cs = [v.t.as_long() for v in vals]
        self.bounded(st, r, min(cs), max(cs))
        return IV(r, w, 'S')

    def load_node(self, st, p, sz, ty):
        comps = self.rd_cont(st, p.par, p.mt)
        self.ub(st, 'iterator dereferenceable', z3.And(z3.Not(p.end), z3.Select(comps[0], p.key)))
        kl = p.mt.key.leaves[0]
        if p.off == kl.off: return self.conv(st, self.scalar_from(st, kl.kind, p.key), ty)
        if p.mt.val is None: raise Unsupported('node offset')
        r = self.leaf_range(p.mt, p.off - self.valoff(p.mt))
        if r is None or r[2].kind[0] == 'm': raise Unsupported('node leaf')
        return self.conv(st, self.scalar_from(st, r[2].kind, z3.Select(comps[r[0]], p.key)), ty)

    def store_node(self, st, p, v, sz):
        comps = list(self.rd_cont(st, p.par, p.mt))
        self.ub(st, 'iterator dereferenceable', z3.And(z3.Not(p.end), z3.Select(comps[0], p.key)))
        r = self.leaf_range(p.mt, p.off - self.valoff(p.mt))
        comps[r[0]] = z3.Store(comps[r[0]], p.key, self.scalar_to(st, r[2].kind, v))
        self.wr_cont(st, p.par, p.mt, comps, {r[0]})

    def store(self, st, p, v, ty):
        if isinstance(v, list):
            if ty[0] == 'st':
                _, offs = self.mod.layout(ty)
                for x, f, o in zip(v, ty[2], offs): self.store(st, self.padd_const(p, o), x, f)
            else:
                es = self.mod.size(ty[2])
                for i, x in enumerate(v): self.store(st, self.padd_const(p, i * es), x, ty[2])
            return
        if isinstance(p, Undef): raise Unsupported('store through %r' % p)
        if isinstance(p, NullP):
            self.ub(st, 'no null dereference', False)
            return
        sz = self.mod.size(ty)
        if ty[0] == 'int' and ty[1] == 1: v = self.b2i(v, 8)
        if isinstance(p, CP): return self.store_cell(st, p.obj, p.off, v, sz, ty)
        if isinstance(p, EP): return self.store_elem(st, p, v, sz)
        if isinstance(p, NodeP): return self.store_node(st, p, v, sz)
        if isinstance(p, AP): return self.store_ap(st, p, v, sz, ty)
        raise Unsupported('store %r' % (p,))

    def store_ap(self, st, p, v, sz, ty):
        o = st.mem[p.obj]
        if z3.is_int_value(p.idx) or z3.is_bv_value(p.idx):
            k = p.idx.as_long() if z3.is_int_value(p.idx) else p.idx.as_signed_long()
            return self.store_cell(st, p.obj, p.base + k * p.stride + p.off, v, sz, ty)
        n = p.n
        if n is None: n = (o.size - p.base) // p.stride
        lo = 0
        if self.bv: self.ub(st, 'array index in bounds', z3.ULT(p.idx, n))
        else: self.ub(st, 'array index in bounds', z3.And(p.idx >= lo, p.idx < n))
        if n > 64: raise Unsupported('symbolic store into array of %d' % n)
        for k in range(n):
            old = self.load_cell(st, p.obj, p.base + k * p.stride + p.off, sz, ty)
            c = p.idx == k
            if isinstance(old, Undef): old = self.fresh_of(st, 'undef', ty)
            nv = self.ite(st, c, v, old)
            if nv is None: raise Unsupported('array store merge')
            self.store_cell(st, p.obj, p.base + k * p.stride + p.off, nv, sz, ty)

    def ite(self, st, c, a, b):
        """merge two values, None if impossible"""
        if a is b: return a
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if isinstance(a, IV) and isinstance(b, IV) and a.w == b.w:
            if a.c is not None and a.c == b.c and a.tag == b.tag: return a
            bb = None
            if a.b is not None and b.b is not None: bb = z3.If(c, a.b, b.b)
            elif a.b is not None and b.c in (0, 1): bb = z3.If(c, a.b, z3.BoolVal(b.c == 1))
            elif b.b is not None and a.c in (0, 1): bb = z3.If(c, z3.BoolVal(a.c == 1), b.b)
            elif a.w == 8 and a.c in (0, 1) and b.c in (0, 1): bb = z3.If(c, z3.BoolVal(a.c == 1), z3.BoolVal(b.c == 1))
            if self.bv: return IV(z3.If(c, a.t, b.t), a.w, 'V', b=bb)
            tags = {a.tag, b.tag}
            if tags <= {'S', 'B'}: tag = 'B' if tags == {'B'} else 'S'
            elif tags <= {'U', 'B'}: tag = 'U'
            else:
                return IV(z3.If(c, self.U(st, a), self.U(st, b)), a.w, 'U')
            if a.t.eq(b.t): return IV(a.t, a.w, tag, b=bb)
            return IV(z3.If(c, a.t, b.t), a.w, tag, b=bb)
        if isinstance(a, FV) and isinstance(b, FV) and a.n == b.n:
            return a if a.t.eq(b.t) else FV(z3.If(c, a.t, b.t), a.n)
        if z3.is_expr(a) and z3.is_expr(b): return z3.simplify(z3.If(c, a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if type(a) is type(b) and not isinstance(a, NodeP) and a == b: return a
            if isinstance(a, EP) and isinstance(b, EP) and a.par == b.par and a.off == b.off:
                return EP(a.par, z3.If(c, a.idx, b.idx), a.off, a.mt)
            return None
        if isinstance(a, Bundle) and isinstance(b, Bundle):
            parts = {}
            for k in set(a.parts) | set(b.parts):
                x, y = a.parts.get(k), b.parts.get(k)
                if x is None or y is None: parts[k] = x or y; continue
                if x[0] != y[0]: return None
                r = self.ite(st, c, x[1], y[1])
                if r is None: return None
                parts[k] = (x[0], r, x[2])
            return Bundle(parts)
        if isinstance(a, Undef) and isinstance(b, Undef): return a
        if isinstance(a, Undef): return b      # reading an indeterminate value is undefined anyway
        if isinstance(b, Undef): return a
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            r = [self.ite(st, c, x, y) for x, y in zip(a, b)]
            return None if any(x is None for x in r) else r
        if isinstance(a, PInt) and isinstance(b, PInt) and a.p == b.p: return a
        return None

    def store_cell(self, st, oid, off, v, sz, ty):
        o = st.wobj(oid)
        if o.ro: raise Unsupported('write to read-only ' + o.name)
        if o.size is not None and not (0 <= off and off + sz <= o.size):
            self.ub(st, 'in-bounds access of ' + o.name, False)
            return
        if self.wlog is not None: self.wlog.add((oid, off, 'c', sz))
        c = o.cells.get(off)
        if c is None or c[0] != sz:
            for k in range(off - 15, off + sz):
                d = o.cells.get(k)
                if d is None: continue
                if k + d[0] <= off: continue
                if k < off or k + d[0] > off + sz:
                    # partial overlap: split integers
                    if isinstance(d[1], IV):
                        del o.cells[k]
                        if k < off:
                            o.cells[k] = (off - k, self.cast(st, 'trunc', d[1], None, ('int', 8 * (off - k))), ('int', 8 * (off - k)))
                        e = k + d[0] - (off + sz)
                        if e > 0:
                            t = self.binop(st, 'lshr', set(), d[1], self.const(8 * (off + sz - k), d[1].w), d[1].w)
                            o.cells[off + sz] = (e, self.cast(st, 'trunc', t, None, ('int', 8 * e)), ('int', 8 * e))
                    else:
                        raise Unsupported('partial overwrite')
                else:
                    del o.cells[k]
        o.cells[off] = (sz, v, ty)
        if isinstance(v, Bundle):
            del o.cells[off]
            for k, cell in v.parts.items(): o.cells[off + k] = cell
        elif isinstance(v, IV) and v.parts and 8 * sz == v.w:
            del o.cells[off]
            for k, cell in v.parts.items(): o.cells[off + k] = cell
        if off in o.ghost: del o.ghost[off]

    def memcpy(self, st, d, s, n):
        """copy n bytes (concrete)"""
        if n == 0: return
        if isinstance(s, AP) and (z3.is_int_value(s.idx) or z3.is_bv_value(s.idx)):
            s = CP(s.obj, s.base + s.idx.as_long() * s.stride + s.off)
        if isinstance(d, AP) and (z3.is_int_value(d.idx) or z3.is_bv_value(d.idx)):
            d = CP(d.obj, d.base + d.idx.as_long() * d.stride + d.off)
        if isinstance(s, CP):
            o = st.mem[s.obj]
            items = [(k - s.off, c) for k, c in o.cells.items() if s.off <= k < s.off + n]
            gh = [(k - s.off, c) for k, c in o.ghost.items() if s.off <= k < s.off + n]
            if (o.zero or o.lazy) and not gh:
                items = self.raw_items(st, s, n, d)
            if isinstance(d, CP):
                w = st.wobj(d.obj)
                for k in [k for k in w.cells if d.off <= k < d.off + n]:
                    del w.cells[k]
                for k in [k for k in w.ghost if d.off <= k < d.off + n]: del w.ghost[k]
            for k, c in sorted(items, key=lambda x: x[0]): self.store(st, self.padd_const(d, k), c[1], c[2])
            for k, c in gh: self.wr_cont(st, self.padd_const(d, k), c[0], c[1])
            return
        if isinstance(s, EP):
            for lf in s.mt.elem.leaves:
                if s.off <= lf.off < s.off + n:
                    src = EP(s.par, s.idx, lf.off, s.mt)
                    dst = self.padd_const(d, lf.off - s.off)
                    if lf.kind[0] == 'm':
                        self.wr_cont(st, dst, lf.kind[1], self.rd_cont(st, src, lf.kind[1]))
                    else:
                        ty = self.kind_ty(lf.kind)
                        self.store(st, dst, self.load(st, src, ty), ty)
            return
        if isinstance(s, NodeP):
            for base, sh in ((0, s.mt.key), (self.valoff(s.mt), s.mt.val)):
                if sh is None: continue
                for lf in sh.leaves:
                    if s.off <= base + lf.off < s.off + n:
                        ty = self.kind_ty(lf.kind)
                        src = NodeP(s.par, s.mt, s.key, s.end, base + lf.off)
                        self.store(st, self.padd_const(d, base + lf.off - s.off), self.load(st, src, ty), ty)
            return
        if isinstance(s, AP):
            # struct sized element of a raw array
            o = st.mem[s.obj]
            offs = sorted({(k - s.base) % s.stride: c for k, c in o.cells.items() if k >= s.base}.items())
            for k, c in offs:
                if s.off <= k < s.off + n:
                    src = AP(s.obj, s.base, s.idx, s.stride, s.n, k)
                    self.store(st, self.padd_const(d, k - s.off), self.load(st, src, c[2]), c[2])
            return
        raise Unsupported('memcpy from %r' % (s,))

    def raw_items(self, st, s, n, d):
        o = st.mem[s.obj]
        items = []
        ty = o.ty
        leaves = []

        def walk(t, off):
            if t[0] == 'st':
                _, offs = self.mod.layout(t)
                for f, x in zip(t[2], offs): walk(f, off + x)
            elif t[0] == 'arr':
                es = self.mod.size(t[2])
                for i in range(t[1]): walk(t[2], off + i * es)
            else:
                leaves.append((off, t))
        if ty is None:
            items = [(k - s.off, c) for k, c in o.cells.items() if s.off <= k < s.off + n]
            if not items: raise Unsupported('memcpy from untyped lazy object ' + o.name)
            return items
        walk(ty, 0)
        for off, t in leaves:
            if s.off <= off < s.off + n:
                v = self.load_cell(st, s.obj, off, self.mod.size(t), t)
                items.append((off - s.off, (self.mod.size(t), v, t)))
        return items

    def kind_ty(self, kind):
        if kind[0] == 'i': return ('int', kind[1])
        if kind[0] == 'b': return ('int', 8)
        if kind[0] == 'f': return ('fp', kind[1])
        if kind[0] == 'p': return ('ptr',)
        raise Unsupported('kind %r' % (kind,))

    # ------------------------------------------------------------------ operands
    def operand(self, st, regs, ty, o):
        k = o[0]
        if k == 'reg':
            return regs[o[1]]
        if k == 'int':
            if ty[1] == 1: return z3.BoolVal(bool(o[1] & 1))
            return self.const(o[1], ty[1])
        if k == 'bool': return z3.BoolVal(o[1])
        if k == 'fp': return self.fconst(o[1], ty[1])
        if k == 'null': return NULL
        if k == 'undef':
            if ty[0] == 'st': return [Undef() for _ in ty[2]]
            return Undef()
        if k == 'zero':
            if ty[0] == 'st': return [self.operand(st, regs, f, o) for f in ty[2]]
            if ty[0] in ('arr', 'vec'): return [self.operand(st, regs, ty[2], o) for _ in range(ty[1])]
            return self.zero_of(ty)
        if k == 'glob':
            n = o[1]
            if n in self.mod.funcs or n in self.mod.decls: return FnP(n)
            return CP(self.global_obj(st, n), 0)
        if k == 'cgep':
            xs = o[2]
            p = self.operand(st, regs, xs[0][0], xs[0][1])
            return self.gep(st, o[1], p, [(t, self.operand(st, regs, t, v)) for t, v in xs[1:]])
        if k == 'ccast':
            return self.cast(st, o[1], self.operand(st, regs, o[2], o[3]), o[2], o[4])
        if k == 'agg':
            return [self.operand(st, regs, t, v) for t, v in o[1]]
        if k == 'str':
            return [self.const(b, 8) for b in o[1]]
        if k == 'meta': return None
        raise Unsupported('operand %r' % (o,))

    # ------------------------------------------------------------------ control flow
    def cfg(self, fn):
        c = getattr(fn, '_cfg', None)
        if c: return c
        fn.parse()
        succ = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == 'br': s = list(t.args[1:]) if len(t.args) == 3 else [t.args[0]]
            elif t.op == 'switch': s = [t.args[1]] + [x[1] for x in t.args[2]]
            elif t.op == 'call' and t.extra: s = list(t.extra)
            else: s = []
            succ[b] = s
        # dfs back edges
        color = {}
        back = []
        stack = [(fn.entry, iter(succ[fn.entry]))]
        color[fn.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1: back.append((b, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                stack.pop()
        pred = {}
        for b, ss in succ.items():
            for s in ss: pred.setdefault(s, []).append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x in body: continue
                body.add(x)
                todo.extend(pred.get(x, []))
        c = fn._cfg = (succ, loops, set(back))
        return c

    def call_fn(self, st, fn, args, line=None):
        """execute a defined function from its IR: list of (state, kind, value)"""
        if len(self.frames) > 60: raise Unsupported('inlining too deep / unguarded recursion in ' + fn.dem)
        fn.parse()
        self.inlined[fn.name] = self.inlined.get(fn.name, 0) + 1
        self.nobj += 1
        fr = Frame(fn, self.nobj)
        self.frames.append(fr)
        try:
            regs = {}
            for (t, nm, at), a in zip(fn.params, args): regs[nm] = a
            n0 = len(st.pc)
            allocas = {}
            work = [(st, regs, fn.entry, None, (), allocas)]
            res = []
            while work:
                item = work.pop()
                self.run_path(fr, item, work, res, None)
        finally:
            self.frames.pop()
        outs = [(s, k, v) for s, k, v in res]
        if len(outs) > 1 and self.merge: outs = self.merge_outs(outs, n0)
        for s, k, v in outs:
            self.drop_frame(s, fr)
        return outs

    def drop_frame(self, st, fr):
        pref = '#f%d.' % fr.id
        dead = [k for k in st.mem if pref in k]
        for k in dead: del st.mem[k]

    def merge_outs(self, outs, n0):
        rets = [o for o in outs if o[1] == 'ret']
        rest = [o for o in outs if o[1] != 'ret']
        acc = []
        for o in rets:
            for i, p in enumerate(acc):
                m = self.try_merge(p, o, n0)
                if m is not None:
                    acc[i] = m
                    break
            else:
                acc.append(o)
        return acc + rest

    def try_merge(self, A, B, n0):
        s1, _, v1 = A
        s2, _, v2 = B
        if s1.g != s2.g: return None
        k = n0
        n = min(len(s1.pc), len(s2.pc))
        while k < n and (s1.pc[k] is s2.pc[k] or s1.pc[k].eq(s2.pc[k])): k += 1
        t1, t2 = s1.pc[k:], s2.pc[k:]
        if any(has_quant(f) for f in t1) or any(has_quant(f) for f in t2): return None
        if len(t1) + len(t2) > 60: return None
        c1, c2 = z3.And(t1) if t1 else z3.BoolVal(True), z3.And(t2) if t2 else z3.BoolVal(True)
        # discriminator: first differing condition
        d = t1[0] if t1 else c1
        if not t1 or not t2: return None
        if not z3.simplify(z3.Not(d)).eq(z3.simplify(t2[0])):
            d = c1
            # need disjointness for ite to be exact in branch 2: c1 and c2 cannot both hold
            if self.qcheck_under(s1.pc[:k], z3.And(c1, c2)) != 'unsat': return None
        m = s1.fork()
        m.pc = s1.pc[:k] + [z3.Or(c1, c2)]
        if (v1 is None) != (v2 is None): return None
        v = None
        if v1 is not None:
            v = self.ite(m, d, v1, v2)
            if v is None: return None
            if isinstance(v1, Undef) != isinstance(v2, Undef): return None
        cur = '#f%d.' % self.nobj
        ndiff = 0
        for oid in set(s1.mem) | set(s2.mem):
            o1, o2 = s1.mem.get(oid), s2.mem.get(oid)
            if o1 is o2: continue
            if o1 is None or o2 is None:
                m.mem[oid] = o1 or o2
                continue
            if o1.lazy != o2.lazy: return None
            oo = o1.copy()
            for off in set(o1.cells) | set(o2.cells):
                a, b = o1.cells.get(off), o2.cells.get(off)
                if a is b: continue
                if a is None or b is None:
                    if o1.lazy or o1.zero: return None
                    oo.cells[off] = a or b
                    continue
                if a[0] != b[0]: return None
                if a[1] is b[1]: continue
                r = self.ite(m, d, a[1], b[1])
                if r is None:
                    if '#f' in oid:   # local of a finished or inner frame
                        r = Undef('merged')
                        if not any(oid.startswith('#f%d.' % f.id) or ('#f%d.' % f.id) in oid for f in self.frames):
                            oo.cells[off] = (a[0], r, a[2])
                            continue
                    return None
                ndiff += 1
                oo.cells[off] = (a[0], r, a[2])
            for off in set(o1.ghost) | set(o2.ghost):
                a, b = o1.ghost.get(off), o2.ghost.get(off)
                if a is b: continue
                if a is None or b is None:
                    oo.ghost[off] = a or b
                    continue
                if a[0] is not b[0] and repr(a[0]) != repr(b[0]): return None
                cs = []
                for x, y in zip(a[1], b[1]):
                    if x.eq(y): cs.append(x)
                    elif z3.is_array(x): return None
                    else: cs.append(z3.If(d, x, y))
                oo.ghost[off] = (a[0], tuple(cs))
            m.mem[oid] = oo
        if ndiff > 12: return None
        return (m, 'ret', v)

    def qcheck_under(self, pc, f):
        st = State()
        st.pc = list(pc)
        return self.qcheck(st, f)

    def run_path(self, fr, item, work, res, scope):
        """run one path until it ends; pushes forks on work.  scope: (header, body, sink) while exploring one loop body"""
        st, regs, blk, prev, active, allocas = item
        fn = fr.fn
        succ, loops, back = self.cfg(fn)
        while True:
            self.steps += 1
            if self.steps > self.maxsteps: raise Unsupported('step limit')
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of symbolic execution')
            # leaving loops
            if active:
                active = tuple(a for a in active if blk in loops[a[0]])
            if blk in loops:
                act = [a for a in active if a[0] == blk]
                r = self.at_header(fr, st, regs, blk, prev, act, active, allocas, work, res)
                if r is None: return
                st, regs, active = r
            fr.allocas = allocas
            ins = fn.blocks[blk]
            # phis first
            i = 0
            if ins and ins[0].op == 'phi':
                news = {}
                while ins[i].op == 'phi':
                    for o, b in ins[i].args:
                        if b == prev:
                            news[ins[i].res] = self.operand(st, regs, ins[i].ty, o)
                            break
                    else:
                        raise Unsupported('phi')
                    i += 1
                regs = dict(regs)
                regs.update(news)
            nxt = self.run_block(fr, st, regs, blk, prev, active, allocas, work, res, ins, i)
            if nxt is None: return
            st, regs, prev, blk, allocas = nxt

    def run_block(self, fr, st, regs, blk, prev, active, allocas, work, res, ins, i):
        n = len(ins)
        while i < n:
            I = ins[i]
            i += 1
            op = I.op
            if I.line: self.curline = I.line
            if op == 'load':
                regs[I.res] = self.load(st, self.operand(st, regs, *I.args), I.ty)
            elif op == 'store':
                (vt, vo), (pt, po) = I.args
                self.store(st, self.operand(st, regs, pt, po), self.operand(st, regs, vt, vo), vt)
            elif op == 'alloca':
                nm = '%s#f%d.' % (I.res, fr.id)
                cnt = 1
                if I.args:
                    cv = self.operand(st, regs, *I.args)
                    if cv.c is None: raise Unsupported('variable alloca')
                    cnt = cv.c
                oid = nm
                st.mem[oid] = Obj(I.res, I.ty, self.mod.size(I.ty) * cnt)
                st.own.add(oid)
                regs[I.res] = CP(oid, 0)
                allocas[I.res] = oid
            elif op == 'getelementptr':
                xs = I.args
                p = self.operand(st, regs, *xs[0])
                regs[I.res] = self.gep(st, I.ty, p, [(t, self.operand(st, regs, t, v)) for t, v in xs[1:]])
            elif op == 'bin':
                o, fl = I.extra
                a = self.operand(st, regs, I.ty, I.args[0])
                b = self.operand(st, regs, I.ty, I.args[1])
                if I.ty[0] == 'fp': regs[I.res] = self.fbin(st, o, a, b, I.ty[1])
                elif I.ty[0] == 'vec': raise Unsupported('vector op')
                else: regs[I.res] = self.binop(st, o, fl, a, b, I.ty[1])
            elif op == 'icmp':
                regs[I.res] = self.icmp(st, I.extra, self.operand(st, regs, I.ty, I.args[0]), self.operand(st, regs, I.ty, I.args[1]), I.ty)
            elif op == 'fcmp':
                regs[I.res] = self.fcmp(st, I.extra, self.operand(st, regs, I.ty, I.args[0]), self.operand(st, regs, I.ty, I.args[1]))
            elif op == 'fneg':
                a = self.operand(st, regs, I.ty, I.args)
                regs[I.res] = FV(z3.simplify(z3.fpNeg(a.t)), a.n)
            elif op == 'cast':
                regs[I.res] = self.cast(st, I.extra, self.operand(st, regs, *I.args), I.args[0], I.ty)
            elif op == 'select':
                c = self.operand(st, regs, *I.args[0])
                a = self.operand(st, regs, *I.args[1])
                b = self.operand(st, regs, *I.args[2])
                v = self.ite(st, c, a, b)
                if v is None:
                    s2 = st.fork()
                    r2 = dict(regs)
                    if self.feasible(s2, z3.Not(c)):
                        s2.assume(z3.Not(c))
                        r2[I.res] = b
                        nx = self.run_block(fr, s2, r2, blk, prev, active, dict(allocas), work, res, ins, i)
                        if nx: work.append((nx[0], nx[1], nx[3], nx[2], active, nx[4]))
                    st.assume(c)
                    v = a
                regs[I.res] = v
            elif op == 'freeze':
                regs[I.res] = self.operand(st, regs, *I.args)
            elif op == 'extractvalue':
                v = self.operand(st, regs, *I.args[0])
                for k in I.args[1]:
                    if isinstance(v, Undef): break
                    v = v[k]
                regs[I.res] = v
            elif op == 'insertvalue':
                v = self.operand(st, regs, *I.args[0])
                e = self.operand(st, regs, *I.args[1])
                regs[I.res] = self.insertv(v, e, I.args[2], I.ty)
            elif op == 'call':
                outs = self.do_call(fr, st, regs, I)
                first = None
                for (s, kind, val) in outs:
                    if kind == 'ret':
                        r2 = regs if len(outs) == 1 else dict(regs)
                        if I.res is not None: r2[I.res] = val
                        if I.extra:
                            cont = (s, r2, I.extra[0], blk, active, dict(allocas) if len(outs) > 1 else allocas)
                        else:
                            cont = (s, r2, i)
                        if first is None: first = cont
                        elif I.extra: work.append(cont)
                        else:
                            nx = self.run_block(fr, s, r2, blk, prev, active, dict(allocas), work, res, ins, i)
                            if nx: work.append((nx[0], nx[1], nx[3], nx[2], active, nx[4]))
                    elif kind == 'throw':
                        self.do_throw(fr, s, regs, I, blk, active, allocas, work, res, val)
                    else:
                        res.append((s, kind, val))
                if first is None: return None
                if I.extra:
                    s, r2, b, pv, ac, al = first
                    return (s, r2, pv, b, al)
                st, regs, _ = first
            elif op == 'br':
                if len(I.args) == 1: return (st, regs, blk, I.args[0], allocas)
                c = self.operand(st, regs, ('int', 1), I.args[0])
                return self.branch(fr, st, regs, blk, active, allocas, work, [(c, I.args[1]), (None, I.args[2])])
            elif op == 'switch':
                v = self.operand(st, regs, I.ty, I.args[0])
                d, cs = I.args[1], I.args[2]
                alts = []
                for o, b in cs:
                    alts.append((self.icmp(st, 'eq', v, self.operand(st, regs, I.ty, o), I.ty), b))
                alts.append((None, d))
                return self.branch(fr, st, regs, blk, active, allocas, work, alts)
            elif op == 'ret':
                v = None if I.args is None else self.operand(st, regs, I.ty, I.args)
                res.append((st, 'ret', v))
                return None
            elif op == 'unreachable':
                self.oblige(st, 'unreachable code not reached', False, 'safety')
                return None
            elif op == 'landingpad':
                regs[I.res] = [Undef('exn'), Undef('sel')]
                raise Unsupported('landingpad reached')
            elif op == 'resume':
                raise Unsupported('resume')
            else:
                raise Unsupported('instruction ' + op)
        raise Unsupported('block without terminator')

    def insertv(self, v, e, ix, ty):
        v = list(v) if isinstance(v, list) else [Undef() for _ in ty[2]]
        if len(ix) == 1: v[ix[0]] = e
        else: v[ix[0]] = self.insertv(v[ix[0]], e, ix[1:], ty[2][ix[0]])
        return v

    def feasible(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.qcheck(st, c) != 'unsat'

    def branch(self, fr, st, regs, blk, active, allocas, work, alts):
        neg = []
        outs = []
        for c, b in alts:
            cc = z3.And(neg) if c is None else (z3.And(neg + [c]) if neg else c)
            if c is None and not neg: cc = z3.BoolVal(True)
            cc = z3.simplify(cc)
            if self.feasible(st, cc): outs.append((cc, b))
            if c is not None:
                neg.append(z3.Not(c))
                if z3.is_true(z3.simplify(c)): break
        if not outs:
            return None
        for cc, b in outs[1:]:
            s2 = st.fork()
            s2.assume(cc)
            work.append((s2, dict(regs), b, blk, active, dict(allocas)))
        cc, b = outs[0]
        st.assume(cc)
        return (st, regs, blk, b, allocas)

    def do_throw(self, fr, st, regs, I, blk, active, allocas, work, res, val):
        """propagate an exception: caught here only if the unwind destination has a matching catch clause"""
        if not I.extra:
            res.append((st, 'throw', val))
            return
        ub = I.extra[1]
        lp = fr.fn.blocks[ub][0]
        k = 0
        while lp.op == 'phi':
            k += 1
            lp = fr.fn.blocks[ub][k]
        catches = [c for c in lp.extra if c[0] == 'catch']
        for c in catches:
            if c[1][0] == 'null':   # catch (...)
                r2 = dict(regs)
                self.enter_catch(fr, st, r2, ub, blk, active, dict(allocas), work, res, val, lp, 0)
                return
            raise Unsupported('typed catch clause')
        res.append((st, 'throw', val))

    def enter_catch(self, fr, st, regs, ub, blk, active, allocas, work, res, val, lp, sel):
        ins = fr.fn.blocks[ub]
        i = ins.index(lp)
        exn = self.new_obj(st, 'exn', lazy=True)
        st.g['exn'] = val
        regs[lp.res] = [CP(exn, 0), self.const(1, 32)]
        nx = self.run_block(fr, st, regs, ub, blk, active, allocas, work, res, ins, i + 1)
        if nx: work.append((nx[0], nx[1], nx[3], nx[2], active, nx[4]))

    # ------------------------------------------------------------------ loops
    def at_header(self, fr, st, regs, blk, prev, act, active, allocas, work, res):
        key = (fr.fn.name, blk)
        fr.allocas = allocas
        if act and act[0][1] == 'cut':
            # back edge: invariant must be re-established
            act[0][2](st, regs)
            return None
        spec = self.spec_for(fr, key, st)
        if spec is None:
            # unroll
            cnt = act[0][2] + 1 if act else 0
            lim = self.unroll_over.get(key, self.maxunroll)
            if cnt > lim:
                raise Unsupported('loop without invariant: %s %s (more than %d iterations)' % (fr.fn.dem[:80], blk, lim))
            active = tuple(a for a in active if a[0] != blk) + ((blk, 'unroll', cnt),)
            return (st, regs, active)
        if spec.forget:
            old = [a for a in act if a[1] == 'forget']
            n, pc0, mem0, seen = (old[0][2][0] + 1,) + old[0][2][1:] if old else (0, list(st.pc), dict(st.mem), {})
            if n > self.maxunroll: raise Unsupported('loop %s: more than %d iterations' % (spec.name, self.maxunroll))
            L = LoopCtx(self, st, spec, list(self.frames), None, allocas)
            L.loc = self.resolve_roles(L, spec, st, list(self.frames), allocas, key)
            L.snap = L.values(st)
            L.iteration = n
            fs = spec.inv(L)
            for nm, f in fs: self.oblige(st, '%s: %s in iteration %d' % (spec.name, nm, n), f, 'inv-step')
            st.pc = list(pc0) + [f for _, f in fs]
            # variables of the body (not initialised when the loop was entered) are dead at the header; objects of the body are gone
            for oid in list(st.mem):
                if oid not in mem0: del st.mem[oid]
            for oid in fr.allocas.values():
                o = mem0.get(oid)
                if o is not None and not o.ghost and all(isinstance(c[1], Undef) for c in o.cells.values()):
                    st.mem[oid] = o
                    st.own.discard(oid)
            fp = (n, tuple((oid, tuple(sorted((off, repr(c)) for off, c in o.cells.items())), tuple(sorted((off, tuple(x.get_id() for x in g[1])) for off, g in o.ghost.items())))
                           for oid, o in sorted(st.mem.items(), key=lambda t: str(t[0])) if o is not mem0[oid]))
            if fp in seen: return None      # the same state was already explored from here
            seen[fp] = dict(st.mem)
            active = tuple(a for a in active if a[0] != blk) + ((blk, 'forget', (n, pc0, mem0, seen)),)
            return (st, regs, active)
        return self.cut(fr, st, regs, blk, prev, active, allocas, work, res, spec, key)

    def spec_for(self, fr, key, st):
        if key in self.loop_bind: return self.loop_bind[key]
        dem = fr.fn.dem
        heads = [b for b in fr.fn.order if b in self.cfg(fr.fn)[1]]
        nth = heads.index(key[1])
        for sp in self.loops:
            if sp.fn is not None and re.search(sp.fn, dem) and sp.nth == nth:
                self.loop_bind[key] = sp
                return sp
        return None

    def cut(self, fr, st, regs, blk, prev, active, allocas, work, res, spec, key):
        succ, loops, back = self.cfg(fr.fn)
        body = loops[blk]
        frames = list(self.frames)
        L0 = LoopCtx(self, st, spec, frames, None, allocas)
        roles = self.resolve_roles(L0, spec, st, frames, allocas, key)
        L0.loc = roles
        L0.snap = L0.values(st)
        for g, (init, step) in spec.ghosts.items(): L0.snap[g] = init(L0)
        if spec.enter: spec.enter(L0)
        nm = '%s/%s' % (spec.name, 'inv')
        self.loop_count += 1
        for (n, f) in spec.inv(L0):
            self.oblige(st, '%s %s holds on entry' % (nm, n), f, 'inv-entry')
        # ---- write set by fix-point of dry runs
        mkey = key + (tuple(f.id for f in frames),)
        mod = dict(self.loop_mod.get(key, {})) if False else {}
        for it in range(12):
            h, hl = self.havoc(st, mod, spec, roles, frames, allocas, L0)
            log = set()
            save = self.wlog
            self.wlog = log
            self.dry += 1
            shape_bad = []
            try:
                sub = []
                sink = []
                act2 = tuple(a for a in active if a[0] != blk) + ((blk, 'cut', lambda s, r: shape_bad.extend(self.shape_check(s, h, mod))),)
                self.explore(fr, h.fork(), dict(regs), blk, prev, act2, dict(allocas), body)
            finally:
                self.wlog = save
                self.dry -= 1
            new = {}
            for w in log:
                oid, off, k, x = w
                if oid not in st.mem: continue
                if w not in mod: new[w] = 'havoc'
            for w in shape_bad:
                if mod.get(w) != 'undef': new[w] = 'undef'
            if not new: break
            mod.update(new)
        else:
            raise Unsupported('write set of loop does not stabilise')
        if save is not None:
            save.update(mod.keys())
        # ---- real run
        h, L = self.havoc(st, mod, spec, roles, frames, allocas, L0)
        v0 = spec.variant(L) if spec.variant else None
        h0 = h.fork()

        def backedge(s, r):
            LB = LoopCtx(self, s, spec, frames, roles, allocas)
            LB.pre = L0
            LB.head = L
            LB.snap = LB.values(s)
            for g, (init, step) in spec.ghosts.items(): LB.snap[g] = step(L, LB)
            bad = self.shape_check(s, h0, mod)
            if bad: raise Unsupported('pointer variable changes shape in loop: %r' % (bad,))
            if spec.after: spec.after(LB)
            for (n, f) in spec.inv(LB):
                self.oblige(s, '%s %s preserved' % (nm, n), f, 'inv-step')
            if v0 is not None:
                v1 = spec.variant(LB)
                self.oblige(s, '%s variant decreases' % nm, z3.And(v1 < v0, v0 >= 0), 'variant')
        active = tuple(a for a in active if a[0] != blk) + ((blk, 'cut', backedge),)
        return (h, dict(regs), active)

    def explore(self, fr, st, regs, blk, prev, active, allocas, body):
        """dry run of the loop body: paths stop at the back edge or when they leave the loop"""
        work = [(st, regs, blk, prev, active, allocas)]
        res = []
        first = True
        fn = fr.fn
        succ, loops, back = self.cfg(fn)
        while work:
            item = work.pop()
            s, r, b, p, ac, al = item
            # run one block at a time so that exits can be seen
            while True:
                self.steps += 1
                if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of symbolic execution')
                if b not in body: break
                ac = tuple(a for a in ac if b in loops[a[0]])
                if b == blk and not first:
                    for a in ac:
                        if a[0] == blk: a[2](s, r)
                    break
                if b in loops and not (b == blk and first):
                    q = self.at_header(fr, s, r, b, p, [a for a in ac if a[0] == b], ac, al, work, res)
                    if q is None: break
                    s, r, ac = q
                first = False
                fr.allocas = al
                ins = fn.blocks[b]
                i = 0
                if ins and ins[0].op == 'phi':
                    news = {}
                    while ins[i].op == 'phi':
                        for o, pb in ins[i].args:
                            if pb == p:
                                news[ins[i].res] = self.operand(s, r, ins[i].ty, o)
                        i += 1
                    r = dict(r)
                    r.update(news)
                nx = self.run_block(fr, s, r, b, p, ac, al, work, res, ins, i)
                if nx is None: break
                s, r, p, b, al = nx

    def shape_check(self, s, h, mod):
        bad = []
        for w, how in mod.items():
            if w[2] != 'c' or how == 'undef': continue
            a = h.mem[w[0]].cells.get(w[1])
            b = s.mem[w[0]].cells.get(w[1]) if w[0] in s.mem else None
            if a is None or b is None: continue
            if isinstance(a[1], Ptr):
                x, y = a[1], b[1]
                if isinstance(x, EP) and isinstance(y, EP) and x.par == y.par and x.off == y.off: continue
                if isinstance(x, NodeP) and isinstance(y, NodeP) and x.off == y.off:
                    if x.par == y.par: continue
                    if isinstance(x.par, EP) and isinstance(y.par, EP) and x.par.par == y.par.par and x.par.off == y.par.off:
                        self.ub(s, 'iterator stays in the same container', x.par.idx == y.par.idx)
                        continue
                if isinstance(x, AP) and isinstance(y, AP) and (x.obj, x.base, x.stride, x.off) == (y.obj, y.base, y.stride, y.off): continue
                bad.append(w)
        return bad

    def havoc(self, st, mod, spec, roles, frames, allocas, L0):
        h = st.fork()
        hints = {}
        for rn, loc in roles.items():
            if isinstance(loc, tuple) and loc[0] == 'int' and isinstance(loc[1], CP):
                hints[(loc[1].obj, loc[1].off)] = loc[2]
        for w, how in sorted(mod.items(), key=lambda x: str(x[0])):
            oid, off, k, x = w
            if oid not in h.mem: continue
            o = h.wobj(oid)
            base = 'h_%s' % o.name.replace('@', '')
            if k == 'g':
                g = o.ghost.get(off)
                if g is None: continue
                comps = list(g[1])
                comps[x] = self.fresh('%s.%d' % (base, x), comps[x].sort())
                o.ghost[off] = (g[0], tuple(comps))
                if (isinstance(g[0], VecT) and x == 0) or (isinstance(g[0], AssocT) and x == 1): self.cont_facts(h, g[0], comps)
            else:
                c = o.cells.get(off)
                if c is None:
                    if o.lazy or o.zero:
                        ty = {1: ('int', 8), 2: ('int', 16), 4: ('int', 32), 8: ('int', 64)}.get(x)
                        if ty:
                            o.cells[off] = (x, self.fresh_of(h, base, ty), ty)
                    continue
                v = c[1]
                if how == 'undef':
                    nv = Undef('loop-carried ' + o.name)
                elif isinstance(v, IV):
                    tag = hints.get((oid, off)) or (v.tag if v.tag in ('U', 'V') else 'S')
                    if v.b is not None and v.w == 8 or (v.w == 8 and v.c in (0, 1) and o.ty == ('int', 8) and self.is_boolcell(o)):
                        nv = self.b2i(self.fresh(base, z3.BoolSort()), 8)
                    else:
                        nv = self.fresh_iv(h, base, v.w, tag)
                elif z3.is_expr(v): nv = self.fresh(base, z3.BoolSort())
                elif isinstance(v, FV): nv = FV(self.fresh(base, self.fsort(v.n)), v.n)
                elif isinstance(v, EP): nv = EP(v.par, self.fresh(base, self.ISort), v.off, v.mt)
                elif isinstance(v, AP): nv = AP(v.obj, v.base, self.fresh(base, self.ISort), v.stride, v.n, v.off)
                elif isinstance(v, CP) and self.rawarr(h, v):
                    st_, n_ = self.rawarr(h, v)
                    nv = AP(v.obj, v.off, self.fresh(base, self.ISort), st_, None, 0)
                elif isinstance(v, NodeP):
                    nv = NodeP(v.par, v.mt, self.fresh(base + '_key', v.key.sort()), self.fresh(base + '_end', z3.BoolSort()), v.off)
                elif isinstance(v, (Ptr, PInt, PDiff)): nv = Undef('loop-carried ' + o.name)
                elif isinstance(v, Undef):
                    nv = v
                else: raise Unsupported('havoc %r' % (v,))
                o.cells[off] = (c[0], nv, c[2])
        L = LoopCtx(self, h, spec, frames, roles, allocas)
        L.pre = L0
        L.snap = L.values(h)
        h.g = dict(h.g)
        h.g['pre_' + spec.name] = L0.snap
        h.g['head_' + spec.name] = L.snap
        for g in spec.ghosts:
            L.snap[g] = self.fresh('ghost_' + g, L0.snap[g].sort())
            h.g['ghost_' + g] = L.snap[g]
        for (n, f) in spec.inv(L): h.assume(f)
        if spec.lemmas:
            for f in spec.lemmas(L): h.assume(f)
        return h, L

    def is_boolcell(self, o):
        return True

    def rawarr(self, st, v):
        o = st.mem.get(v.obj)
        if o is None or o.ty is None: return None
        t = o.ty
        while t[0] == 'st' and t[2]: t = t[2][0]
        if t[0] == 'arr': return (self.mod.size(t[2]), t[1])
        return None

    # roles ------------------------------------------------------------
    def role_at(self, st, kind, p):
        """is location p (a pointer) usable for a role of this kind?  returns a role location"""
        if kind in ('vec', 'cont'):
            if self.cont_mt(st, p) is not None: return ('vec', p)
            return None
        if isinstance(p, CP):
            o = st.mem.get(p.obj)
            if o is None: return None
            c = o.cells.get(p.off)
            if c is None: return None
            v = c[1]
            if kind == 'cur':
                if isinstance(v, (EP, AP, CP)): return ('cur', p)
                if isinstance(v, IV) and v.w in (32, 64): return ('int', p, 'S')
                return None
            if kind == 'node': return ('ptr', p) if isinstance(v, NodeP) else None
            if kind == 'ptr':
                return ('ptr', p) if isinstance(v, Ptr) else None
            if kind[0] in 'su' and kind[1:].isdigit():
                if isinstance(v, IV) and v.w == int(kind[1:]): return ('int', p, 'S' if kind[0] == 's' else 'U')
                return None
            if kind == 'int':
                if isinstance(v, IV): return ('int', p, 'S')
                return None
            if kind == 'bool':
                return ('bool', p) if isinstance(v, IV) and v.w == 8 else None
            if kind == 'real':
                return ('real', p) if isinstance(v, FV) else None
        elif isinstance(p, EP):
            r = self.leaf_range(p.mt, p.off)
            if r and kind[0] in 'su' and r[2].kind[0] == 'i': return ('int', p, 'S' if kind[0] == 's' else 'U')
        return None

    def body_names(self, key):
        c = self.__dict__.setdefault('bodynames', {})
        if key not in c:
            fn = self.mod.funcs[key[0]]
            fn.parse()
            ns = set()
            for b in self.cfg(fn)[1][key[1]]:
                for I in fn.blocks[b]: ns.update(re.findall(r'%([\w.$-]+)', I.text or ''))
            c[key] = ns
        return c[key]

    def encl_names(self, key):
        """names mentioned in the loop body, then in the enclosing loops from the inside out"""
        fn = self.mod.funcs[key[0]]
        fn.parse()
        L = self.cfg(fn)[1]
        hs = sorted([h for h in L if h == key[1] or key[1] in L[h]], key=lambda h: len(L[h]))
        return [self.body_names((key[0], h)) for h in hs]

    def role_named(self, st, frames, kind, name, key=None):
        off = 0
        if '@' in name:
            name, o = name.split('@')
            off = int(o)
        for f in reversed(frames):
            # same source name in sibling scopes (j, j47, ...): prefer the variable the loop body mentions
            rx = re.compile(re.escape(name) + r'(\.addr)?\d*$')
            cands = [n for n in f.allocas if rx.match(n)]
            encl = self.encl_names(key) if key is not None and f is frames[-1] and f.fn.name == key[0] else []
            def rank(n):
                for i, u in enumerate(encl):
                    if n in u: return i
                return len(encl)
            cands.sort(key=lambda n: (rank(n), n != name, n != name + '.addr', n))
            for cand in cands:
                oid = f.allocas.get(cand)
                if oid is None: continue
                p = CP(oid, off)
                r = self.role_at(st, kind, p)
                if r: return r
                c = st.mem[oid].cells.get(0) if oid in st.mem else None
                if c is not None and isinstance(c[1], Ptr):
                    q = c[1]
                    if off: q = self.padd_const(q, off)
                    r = self.role_at(st, kind, q)
                    if r: return r
        return None

    def role_cands(self, st, frames, kind):
        out = []
        for f in reversed(frames):
            for nm, oid in f.allocas.items():
                if oid not in st.mem: continue
                o = st.mem[oid]
                for off in set(list(o.cells)[:6]) | set(o.ghost) | {0}:
                    r = self.role_at(st, kind, CP(oid, off))
                    if r: out.append((nm, r))
                c = o.cells.get(0)
                if c is not None and isinstance(c[1], Ptr) and not isinstance(c[1], NullP):
                    r = self.role_at(st, kind, c[1])
                    if r: out.append(('*' + nm, r))
        seen = []
        res = []
        for nm, r in out:
            if not any(r == q for q in seen):
                seen.append(r)
                res.append((nm, r))
        return res

    def resolve_roles(self, L0, spec, st, frames, allocas, key):
        roles = {}
        missing = []
        bound = self.invcut.get(key)
        for rn, rk in spec.roles.items():
            names = [rn]
            kind = rk
            if isinstance(rk, tuple): kind, names = rk[0], list(rk[1:])
            r = None
            for n in names:
                r = self.role_named(st, frames, kind, n, key)
                if r: break
            if r is None: missing.append((rn, kind))
            else: roles[rn] = r
        if missing:
            roles = self.search_roles(L0, spec, st, frames, roles, missing)
        return roles

    def search_roles(self, L0, spec, st, frames, roles, missing):
        import itertools
        cands = []
        for rn, kind in missing:
            opt = kind.endswith('?') if isinstance(kind, str) else False
            cs = [c for c in self.role_cands(st, frames, kind.rstrip('?')) if not any(c[1] == r for r in roles.values())]
            if not cs and not opt: raise Unsupported('loop role %r of %s not found' % (rn, spec.name))
            cands.append(cs[:8] + ([(None, None)] if opt else []))
        n = 0
        best = None
        for combo in itertools.product(*cands):
            locs = [c[1] for c in combo]
            if any(a is not None and a == b for i, a in enumerate(locs) for b in locs[:i]): continue
            n += 1
            if n > 200: break
            rr = dict(roles)
            for (rn, _), c in zip(missing, combo): rr[rn] = c[1]
            L = LoopCtx(self, st, spec, frames, rr, L0.allocas)
            try:
                L.snap = L.values(st)
                for g, (init, step) in spec.ghosts.items(): L.snap[g] = init(L)
                fs = [f for _, f in spec.inv(L)]
            except (Unsupported, z3.Z3Exception, KeyError):
                continue
            # the invariant must hold on entry for the right assignment: never take one the solver refutes, prefer one it
            # proves; the entry obligation of the loop is discharged separately either way
            unknown = 0
            for f in fs:
                s = z3.Solver()
                s.set('timeout', 500)
                s.add(st.pc)
                s.add(z3.Not(f))
                r = s.check()
                if r == z3.unsat: continue
                if r == z3.sat: unknown = None; break
                unknown += 1
            if unknown == 0: return rr
            if unknown is not None and (best is None or unknown < best[0]): best = (unknown, rr)
        if best is not None: return best[1]
        raise Unsupported('no assignment of loop variables to roles %s makes the invariant of %s hold on entry' % ([m[0] for m in missing], spec.name))

    # ------------------------------------------------------------------ calls
    def do_call(self, fr, st, regs, I):
        callee, args = I.args
        if callee[0] == 'glob': name = callee[1]
        else:
            f = self.operand(st, regs, ('ptr',), callee)
            if isinstance(f, FnP): name = f.name
            else: raise Unsupported('indirect call through %r' % (f,))
        av = [self.operand(st, regs, t, o) for t, o, _ in args]
        # byval aggregates are copied by the caller
        for k, (t, o, at) in enumerate(args):
            if at.get('byval'):
                ty = at['byval']
                oid = self.new_obj(st, 'byval#f%d.' % fr.id, ty, self.mod.size(ty))
                self.memcpy(st, CP(oid, 0), av[k], self.mod.size(ty))
                av[k] = CP(oid, 0)
        return self.call_name(st, name, av, I)

    def call_name(self, st, name, av, I=None):
        line = self.curline
        m = self.model_for(name)
        if m is not None:
            self.used_models[name] = self.used_models.get(name, 0) + 1
            call = Call(self, st, name, av, I)
            r = m(call)
            if r is NotImplemented: pass
            else:
                self.curline = line
                if isinstance(r, list) and (not r or (isinstance(r[0], tuple) and isinstance(r[0][0], State))): return r
                return [(call.st, 'ret', r)]
        fn = self.mod.funcs.get(name)
        if fn is None: raise Unsupported('call of undefined function %s' % self.mod.dem(name))
        outs = self.call_fn(st, fn, av)
        self.curline = line
        return outs

    def model_for(self, name):
        if name in self.model_cache: return self.model_cache[name]
        dem = self.mod.dem(name)
        m = None
        for rx, f in self.models:
            if rx.search(dem):
                m = f
                break
        self.model_cache[name] = m
        return m

    def model(self, rx, f):
        self.models.append((re.compile(rx), f))


class Call:
    def __init__(self, eng, st, name, args, I):
        self.e, self.st, self.name, self.args, self.I = eng, st, name, args, I

    @property
    def dem(self):
        return self.e.mod.dem(self.name)

    def throw(self, ty, cond=None):
        return (self.st, 'throw', ty)


class LoopCtx:
    """view of the program state at a loop header, by roles"""

    def __init__(self, eng, st, spec, frames, loc, allocas):
        self.e, self.st, self.spec, self.frames, self.loc, self.allocas = eng, st, spec, frames, loc, allocas
        self.pre = self
        self.head = None
        self.snap = None

    def values(self, st):
        out = {}
        for rn, loc in (self.loc or {}).items():
            out[rn] = self.value(st, loc)
        return out

    def value(self, st, loc):
        e = self.e
        if loc is None: return None
        k = loc[0]
        if k == 'vec':
            mt = e.cont_mt(st, loc[1])
            return View(e, st, loc[1], mt, e.rd_cont(st, loc[1], mt))
        if k == 'int':
            w = None
            if isinstance(loc[1], CP): v = st.mem[loc[1].obj].cells[loc[1].off][1]
            else:
                r = e.leaf_range(loc[1].mt, loc[1].off)
                v = e.scalar_from(st, r[2].kind, z3.Select(e.rd_cont(st, loc[1].par, loc[1].mt)[r[0]], loc[1].idx))
            if isinstance(v, Undef): return None
            if isinstance(v, PDiff): v = e.pd2iv(v)
            if e.bv: return v.t
            return e.S(st, v) if loc[2] == 'S' else e.U(st, v)
        if k == 'cur':
            v = st.mem[loc[1].obj].cells[loc[1].off][1]
            if isinstance(v, EP): return v.idx
            if isinstance(v, AP): return v.idx
            if isinstance(v, CP): 
                ra = e.rawarr(st, v)
                return z3.IntVal(0)
            return None
        if k == 'bool':
            v = st.mem[loc[1].obj].cells[loc[1].off][1]
            return e.scalar_to(st, ('b',), v)
        if k == 'real':
            v = st.mem[loc[1].obj].cells[loc[1].off][1]
            return v.t
        if k == 'ptr':
            return st.mem[loc[1].obj].cells[loc[1].off][1]
        raise Unsupported('role value')

    def __getitem__(self, k):
        return self.snap[k]

    def old(self, k):
        return self.pre.snap[k]


class View:
    """a container value: n, and element access by leaf offset"""

    def __init__(self, eng, st, p, mt, comps):
        self.e, self.st, self.p, self.mt, self.comps = eng, st, p, mt, comps

    @property
    def n(self):
        return self.comps[0] if isinstance(self.mt, VecT) else self.comps[1]

    def arr(self, off=0):
        r = self.e.leaf_range(self.mt, off)
        return self.comps[r[0]]

    def at(self, i, off=0):
        r = self.e.leaf_range(self.mt, off)
        lf = r[2]
        if lf.kind[0] == 'm':
            return View(self.e, self.st, None, lf.kind[1], tuple(z3.Select(c, i) for c in self.comps[r[0]:r[1]]))
        return z3.Select(self.comps[r[0]], i)

    @property
    def dom(self):
        return self.comps[0]

    def has(self, k):
        return z3.Select(self.comps[0], k)

    def val(self, k, off=0):
        r = self.e.leaf_range(self.mt, off)
        return z3.Select(self.comps[r[0]], k)
