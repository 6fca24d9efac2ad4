from spec import *
import gf2
DRIVER = 'c33.cpp'
FINDER = 'c33.cpp'
PI = [0x3243F6a8885a308d, 0x313198a2e0370734, 0x4a4093822299f31d, 0x0082efa98ec4e6c8]
C = lambda v: z3.BitVecVal(v, 64)


def rotl(x, k): return (x << k) | z3.LShR(x, 64 - k)


def step(s):
    """xoshiro256** 1.0 (Blackman, Vigna): output and next state"""
    out = rotl(s[1] * 5, 7) * 9
    t = s[1] << 17
    a, b, c, d = s
    c = c ^ a
    d = d ^ b
    b = b ^ c
    a = a ^ d
    c = c ^ t
    d = rotl(d, 45)
    return out, [a, b, c, d]


def jump_matrix():
    s = [z3.BitVec('x%d' % i, 64) for i in range(4)]
    cols = {x.get_id(): 64 * i for i, x in enumerate(s)}
    cols['one'] = 256
    cache = {}
    m = [r for t in step(s)[1] for r in gf2.matrix(t, cols, cache)]
    return gf2.power2(m, 128)


def targets():
    T = []

    def state(x, n='r'):
        oid = x.e.new_obj(x.st, n, None, 32, lazy=True)
        s = []
        for i in range(4):
            v = x.e.fresh_iv(x.st, 's%d' % i, 64, 'V')
            x.e.store(x.st, CP(oid, 8 * i), v, ('int', 64))
            s.append(v.t)
        x.args.append(CP(oid, 0))
        x.ptrs[n] = (CP(oid, 0), None)
        x.env['s'] = s
        return s
    after = lambda o, n='r': [o.mem(n, 8 * i, ('int', 64)).t for i in range(4)]
    eq = lambda a, b: And(*[p == q for p, q in zip(a, b)])
    def p_next(x, o):
        if o.kind != 'ret': return None
        out, s = step(x['s'])
        return [('output of xoshiro256**', o.val.t == out)] + [('next state, word %d' % i, p == q) for i, (p, q) in enumerate(zip(after(o), s))]
    T.append(Target('Xoshiro256ss::operator()', 'd_next', lambda x: state(x), p_next, mode='bv', under=['Xoshiro256ss::operator()', 'Xoshiro256ss::rotateLeft']))

    def jumped(new, start, var):
        """new is start advanced by 2^128 steps: both are linear in the bits of the variables"""
        cols = {}
        n = 0
        for t in var:
            cols[t.get_id()] = n
            n += t.size()
        cols['one'] = n
        cache = {}
        J = jump_matrix()
        out = []
        try:
            a = [r for t in new for r in gf2.matrix(z3.simplify(t) if False else t, cols, cache)]
            b = [r for t in start for r in gf2.matrix(t, cols, cache)]
            want = gf2.mul(J, b)
        except gf2.NotLinear as ex:
            return [('the state is advanced by 2^128 steps (not linear: %s)' % str(ex)[:60], BoolVal(False))]
        return [('word %d of the state is advanced by 2^128 steps' % i, BoolVal(a[64 * i:64 * i + 64] == want[64 * i:64 * i + 64])) for i in range(4)]

    T.append(Target('Xoshiro256ss::jump', 'd_jump', lambda x: state(x), lambda x, o: jumped(after(o), x['s'], x['s']) if o.kind == 'ret' else None, mode='bv', unroll=300, under=['Xoshiro256ss::jump']))

    def s_seed(x):
        x.raw('r', size=32, llty=('arr', 4, ('int', 64)), lazy=False)
        x.u64('seed')
    T.append(Target('Xoshiro256ss::Xoshiro256ss(seed)', 'd_seed', s_seed, lambda x, o: jumped(after(o), [C(p) ^ x['seed'] for p in PI], [x['seed']]) if o.kind == 'ret' else None, mode='bv', unroll=300, under=['Xoshiro256ss::Xoshiro256ss']))

    def s_array(x):
        x.raw('r', size=32, llty=('arr', 4, ('int', 64)), lazy=False)
        state(x, 'a')
    T.append(Target('Xoshiro256ss::Xoshiro256ss(array)', 'd_array', s_array, lambda x, o: [('the given state', eq(after(o), x['s'])), ('the argument is not changed', eq(after(o, 'a'), x['s']))] if o.kind == 'ret' else None, mode='bv', under=['Xoshiro256ss::Xoshiro256ss']))
    for n, f, v in (('min', 'd_min', 0), ('max', 'd_max', (1 << 64) - 1)):
        T.append(Target('Xoshiro256ss::' + n, f, lambda x: None, lambda x, o, v=v: [('bound of the outputs', o.val.t == C(v))] if o.kind == 'ret' else None, mode='bv', under=['Xoshiro256ss::' + n]))
    return T
