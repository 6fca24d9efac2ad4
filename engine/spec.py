"""Specification API: a Target is one function under contract (a driver entry that calls the real code)."""
import z3
import ir, sym, models
from vals import *
from sym import LoopSpec, View, Engine, LoopCtx, Unsupported
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Ints, Int, IntVal, BoolVal, Select, Store, Function, IntSort, BoolSort

I64MIN, I64MAX, U64MAX = -(1 << 63), (1 << 63) - 1, (1 << 64) - 1
STRING = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
VECI = 'std::vector<long, std::allocator<long> >'


def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    if pats:
        ps = []
        for p in pats:
            ps.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
        try: return ForAll(vs, body, patterns=ps)
        except z3.Z3Exception: pass      # e.g. an ite-array inside the pattern
    return ForAll(vs, body)


z3.set_param('warning', False)


class X:
    """set-up and outcome context of one target"""

    def __init__(self, e, st):
        self.e, self.st = e, st
        self.args = []
        self.env = {}
        self.ptrs = {}

    def __getitem__(self, k): return self.env[k]

    def _int(self, name, w, tag):
        if self.e.bv:
            t = z3.BitVec(name, w)
            v = IV(t, w, 'V')
        else:
            t = z3.Int(name)
            self.e.typed(self.st, t, w, tag)
            v = IV(t, w, tag)
        self.args.append(v)
        self.env[name] = t
        return t

    def s64(self, n): return self._int(n, 64, 'S')
    def u64(self, n): return self._int(n, 64, 'U')
    def s32(self, n): return self._int(n, 32, 'S')
    def u32(self, n): return self._int(n, 32, 'U')
    def u8(self, n): return self._int(n, 8, 'U')
    def s8(self, n): return self._int(n, 8, 'S')
    def const(self, v, w=64): self.args.append(self.e.const(v, w))

    def bool(self, n):
        b = z3.Bool(n)
        self.args.append(b)
        self.env[n] = b
        return b

    def real(self, n, t='x86_fp80'):
        f = z3.Const(n, self.e.fsort(t))
        self.args.append(FV(f, t))
        self.env[n] = f
        return f

    def vec(self, n, cpp=VECI):
        """container argument passed by reference"""
        e, st = self.e, self.st
        mt = e.types.mt(cpp)
        oid = e.new_obj(st, n, None, mt.bytes)
        comps = tuple(z3.Const('%s.%d' % (n, k), s) for k, s in enumerate(e.comps(mt)))
        st.wobj(oid).ghost[0] = (mt, comps)
        e.cont_facts(st, mt, comps)
        p = CP(oid, 0)
        self.args.append(p)
        self.ptrs[n] = (p, mt)
        v = View(e, st, p, mt, comps)
        self.env[n] = v
        return v

    def out(self, n, cpp=VECI):
        """sret container"""
        mt = self.e.types.mt(cpp)
        oid = self.e.new_obj(self.st, n, None, mt.bytes)
        p = CP(oid, 0)
        self.args.append(p)
        self.ptrs[n] = (p, mt)

    def raw(self, n, cpp=None, size=None, lazy=True, llty=None):
        """raw object (struct) passed by pointer"""
        ty = llty
        if cpp is not None: ty = self.e.mod.named(cpp)
        oid = self.e.new_obj(self.st, n, ty, size if size is not None else (self.e.mod.size(ty) if ty else None), lazy=lazy)
        p = CP(oid, 0)
        self.args.append(p)
        self.ptrs[n] = (p, None)
        return p

    def sv(self, n):
        """string_view argument (length, pointer)"""
        e, st = self.e, self.st
        mt = e.types.mt(STRING)
        oid = e.new_obj(st, n, None, mt.bytes)
        comps = tuple(z3.Const('%s.%d' % (n, k), s) for k, s in enumerate(e.comps(mt)))
        st.wobj(oid).ghost[0] = (mt, comps)
        e.cont_facts(st, mt, comps)
        p = CP(oid, 0)
        self.args += [e.from_idx(comps[0]), EP(p, models.I(e, 0), 0, mt)]
        self.ptrs[n] = (p, mt)
        v = View(e, st, p, mt, comps)
        self.env[n] = v
        return v

    def assume(self, f): self.st.assume(f)


class O:
    """one outcome of the call"""

    def __init__(self, x, st, kind, val):
        self.x, self.e, self.st, self.kind, self.val = x, x.e, st, kind, val

    def s(self): return self.e.S(self.st, self.val) if not self.e.bv else self.val.t
    def u(self): return self.e.U(self.st, self.val) if not self.e.bv else self.val.t
    def b(self):
        v = self.val
        if z3.is_expr(v): return v
        return self.e.scalar_to(self.st, ('b',), v)
    def f(self): return self.val.t

    def vec(self, n):
        p, mt = self.x.ptrs[n]
        mt = self.e.cont_mt(self.st, p) or mt
        return View(self.e, self.st, p, mt, self.e.rd_cont(self.st, p, mt))

    def mem(self, n, off, ty):
        p, _ = self.x.ptrs[n]
        return self.e.load(self.st, self.e.padd_const(p, off), ty)


class Target:
    """entry: driver function; setup(x) declares arguments and preconditions; post(x, o) -> [(name, formula)] for every outcome;
    expects: outcome kinds at least one path of which must be reachable (vacuity canary)"""

    def __init__(self, name, entry, setup, post, loops=(), models=(), mode='int', fp='uf', expects=('ret',), under=(), unroll=None,
                 assumptions=(), config=None, tl=None, lemmas=(), driver=None, flags=None, only=None):
        self.name, self.entry, self.setup, self.post, self.loops, self.models, self.mode, self.fp = name, entry, setup, post, list(loops), list(models), mode, fp
        self.expects, self.under, self.unroll, self.assumptions = expects, list(under), unroll, list(assumptions)
        self.config = config
        self.tl = tl
        self.lemmas = list(lemmas)
        self.driver = driver
        self.flags = flags


def run_target(mod, t, deadline=None):
    """symbolically execute one target: returns (engine, obligations, canaries)"""
    import time
    e = Engine(mod, t.mode, t.fp)
    e.target = t.name
    if deadline: e.deadline = time.time() + deadline
    models.install(e)
    for rx, f in t.models: e.models.insert(0, (__import__('re').compile(rx), f))
    e.loops = list(t.loops)
    if t.unroll: e.maxunroll = t.unroll
    if t.config: t.config(e)
    st = sym.State()
    x = X(e, st)
    t.setup(x)
    e.x = x
    fn = mod.funcs.get(t.entry)
    if fn is None: raise Unsupported('driver entry %s not found' % t.entry)
    # locals of the driver frame
    outs = e.call_name(st, t.entry, list(x.args))
    canaries = []
    for s, kind, val in outs:
        o = O(x, s, kind, val)
        canaries.append((kind, list(s.pc)))
        r = t.post(x, o)
        if r is None: r = [('%s outcome allowed' % kind, BoolVal(False))]
        for nm, f in r:
            e.curline = None
            e.oblige(s, '%s: %s' % (kind, nm), f, 'post')
    return e, e.obls, canaries


def lean_checks(*files):
    """extra obligations: the Lean files accept (no errors, no sorry); the lemmas assumed by the specs are proved there"""
    import subprocess, time, os
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean')
    for f in files:
        t0 = time.time()
        try:
            r = subprocess.run(['lean', os.path.join(root, f)], capture_output=True, text=True, timeout=300)
            out = r.stdout + r.stderr
            ok = r.returncode == 0 and 'sorry' not in out
        except subprocess.TimeoutExpired: ok, out = False, 'lean timed out'
        yield 'lean/%s' % f, ok, out[:500], 'lean 4', time.time() - t0
