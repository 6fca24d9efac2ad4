from spec import *
DRIVER = 'c35.cpp'
FINDER = 'c35.cpp'
FLAGS = ('-fno-access-control',)
BV = lambda n: z3.BitVecSort(n)
RK = [Function('RK%d' % i, BV(256), BV(8)) for i in range(240)]
PI = [0x3243F6a8885a308d, 0x313198a2e0370734, 0x4a4093822299f31d, 0x0082efa98ec4e6c8, 0x9452821e638d0137, 0x7be5466cf34e90c6]
PIB = [p >> (56 - 8 * k) & 255 for p in PI for k in range(8)]


def cat(bs): return z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0]


def rd(e, st, p, n, off=0):
    return [e.load(st, e.padd_const(p, off + i), ('int', 8)).t for i in range(n)]


def m_aes(c):
    """contract of AES::operator(): the block cipher of C34, a function of the round keys and the block; nothing is written"""
    e, st = c.e, c.st
    ks, b = cat(rd(e, st, c.args[0], 240)), cat(rd(e, st, c.args[1], 16))
    r = [z3.FreshConst(BV(8), 'cipher') for _ in range(16)]
    st.g = dict(st.g, aes=st.g.get('aes', ()) + ((ks, b, r),))
    return [e_iv(cat(r[8 * k:8 * k + 8])) for k in range(2)]


def e_iv(t): return IV(z3.simplify(t), 64, 'V')


def m_ctor(c):
    """contract of AES::AES(key): the round keys of C34, a function of the key"""
    e, st = c.e, c.st
    k = cat(rd(e, st, c.args[1], 32))
    for i in range(240): e.store(st, e.padd_const(c.args[0], i), IV(RK[i](k), 8, 'V'), ('int', 8))


M = [(r'AES::operator\(\)\(', m_aes), (r'AES::AES\(', m_ctor)]


def targets():
    T = []

    def arr(x, name, n):
        oid = x.e.new_obj(x.st, name, None, n, lazy=True)
        s = []
        for i in range(n):
            v = x.e.fresh_iv(x.st, '%s%d' % (name, i), 8, 'V')
            x.e.store(x.st, CP(oid, i), v, ('int', 8))
            s.append(v.t)
        x.args.append(CP(oid, 0))
        x.ptrs[name] = (CP(oid, 0), None)
        x.env[name] = s
    byt = lambda o, n, off, k: [o.mem(n, off + i, ('int', 8)).t for i in range(k)]
    eqs = lambda a, b: And(*[p == q for p, q in zip(a, b)])

    def p_next(x, o):
        if o.kind != 'ret': return None
        s = x['r']
        ks, cnt = cat(s[:240]), cat(s[240:])
        calls = o.st.g.get('aes', ())
        if len(calls) != 1: return [('one block is encrypted', BoolVal(False))]
        k, b, out = calls[0]
        return [('the block that is encrypted is the counter', b == cnt + 1), ('it is encrypted with the key of the generator', k == ks), ('the counter is incremented by one modulo 2^128', cat(byt(o, 'r', 240, 16)) == cnt + 1), ('the key is not changed', eqs(byt(o, 'r', 0, 240), s[:240])),
                ('output: exclusive or of the two halves of the encrypted counter', o.val.t == cat(out[:8]) ^ cat(out[8:]))]
    T.append(Target('AES_RNG::operator()', 'd_next', lambda x: arr(x, 'r', 256), p_next, mode='bv', unroll=64, models=M, under=['AES_RNG::operator()']))

    def p_seed(x, o):
        if o.kind != 'ret': return None
        key, iv = [z3.BitVecVal(b, 8) for b in PIB[:32]], [z3.BitVecVal(b, 8) for b in PIB[32:]]
        return [('round keys of the fixed key', eqs(byt(o, 'r', 0, 240), [f(cat(key)) for f in RK])), ('counter: fixed value with the seed in its lower half', cat(byt(o, 'r', 240, 16)) == cat(iv) ^ z3.ZeroExt(64, x['seed']))]

    def s_seed(x):
        x.raw('r', size=256, lazy=False)
        x.u64('seed')
    T.append(Target('AES_RNG::AES_RNG(seed)', 'd_seed', s_seed, p_seed, mode='bv', unroll=64, models=M, under=['AES_RNG::AES_RNG']))

    def s_pair(x):
        x.raw('r', size=256, lazy=False)
        arr(x, 'k', 32)
        arr(x, 'v', 16)
    T.append(Target('AES_RNG::AES_RNG(key, iv)', 'd_pair', s_pair, lambda x, o: [('round keys of the given key', eqs(byt(o, 'r', 0, 240), [f(cat(x['k'])) for f in RK])), ('the given counter', eqs(byt(o, 'r', 240, 16), x['v'])),
             ('the arguments are not changed', eqs(byt(o, 'k', 0, 32) + byt(o, 'v', 0, 16), x['k'] + x['v']))] if o.kind == 'ret' else None, mode='bv', unroll=64, models=M, under=['AES_RNG::AES_RNG']))
    for n, f, v in (('min', 'd_min', 0), ('max', 'd_max', (1 << 64) - 1)):
        T.append(Target('AES_RNG::' + n, f, lambda x: None, lambda x, o, v=v: [('bound of the outputs', o.val.t == z3.BitVecVal(v, 64))] if o.kind == 'ret' else None, mode='bv', under=['AES_RNG::' + n]))
    return T
