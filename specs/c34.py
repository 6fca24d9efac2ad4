from spec import *
import gf2
DRIVER = 'c34.cpp'
FINDER = 'c34.cpp'
FLAGS = ('-fno-access-control',)


def gmul(a, b):
    """product in GF(2^8) modulo x^8 + x^4 + x^3 + x + 1"""
    r = 0
    while b:
        if b & 1: r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def inv(a):
    r = a
    for _ in range(6): r = gmul(gmul(r, r), a)
    return gmul(r, r)           # a^254


def sbox(a):
    b = inv(a)
    r = 0x63
    for k in range(5): r ^= (b << k | b >> (8 - k)) & 255
    return r


SB = tuple(sbox(a) for a in range(256))


class Canon:
    """canonical forms: 8 masks over the columns; a table applied to a canonical form is a block of 8 columns"""

    def __init__(self, tabdefs):
        self.tabdefs, self.cols, self.cache, self.keys, self.n = tabdefs, {'one': 0}, {}, {}, 1

    def var(self, t):
        self.cols[t.get_id()] = self.n
        self.n += t.size()

    def block(self, key):
        if key not in self.keys:
            self.keys[key] = self.n
            self.n += 8
        return [1 << (self.keys[key] + i) for i in range(8)]

    def apply(self, tab, arg):
        """table of 256 bytes applied to 8 masks"""
        lin = [tab[1 << i] ^ tab[0] for i in range(8)]
        aff = all(tab[x] == tab[0] ^ xor(lin[i] for i in range(8) if x >> i & 1) for x in range(256))
        if not aff: return self.block((tab, tuple(arg)))
        return [xor(arg[i] for i in range(8) if lin[i] >> b & 1) ^ (tab[0] >> b & 1) for b in range(8)]

    def term(self, t):
        """masks of a term; variables that name the result of a table look-up are replaced by their definition"""
        todo = [t]
        while todo:
            u = todo[-1]
            pend = [d for d in self.deps(u) if d.get_id() not in self.cache]
            if pend:
                todo += pend
                continue
            todo.pop()
            if u.get_id() in self.tabdefs:
                vals, idx = self.tabdefs[u.get_id()][1:]
                rows = gf2.matrix(idx, self.cols, self.cache)
                if len(vals) < 256 or any(rows[8:]): raise gf2.NotLinear('table index')
                self.cache[u.get_id()] = self.apply(vals[:256], rows[:8])
            else: gf2.matrix(u, self.cols, self.cache)
        return self.cache[t.get_id()]

    def deps(self, t):
        d = self.tabdefs.get(t.get_id())
        seen, out, st = set(), [], [d[2] if d else t]
        while st:
            x = st.pop()
            if x.get_id() in seen or x.get_id() in self.cache: continue
            seen.add(x.get_id())
            if x.get_id() in self.tabdefs and not x.eq(t): out.append(x)
            else: st += x.children()
        return out


def xor(ms):
    r = 0
    for m in ms: r ^= m
    return r


def vx(*vs): return [xor(c) for c in zip(*vs)]


def cst(v): return [v >> i & 1 for i in range(8)]


X2 = tuple(gmul(2, a) for a in range(256))


def cipher(C, blk, keys):
    """FIPS-197, AES-256: 14 rounds; byte r + 4c of the block is s[r][c]"""
    s = [vx(blk[i], keys[i]) for i in range(16)]
    for rnd in range(1, 15):
        s = [C.apply(SB, b) for b in s]
        s = [s[r + 4 * ((c + r) % 4)] for c in range(4) for r in range(4)]
        if rnd < 14:
            m = [C.apply(X2, b) for b in s]
            t = []
            for c in range(4):
                for r in range(4):
                    i = lambda k: 4 * c + (r + k) % 4
                    t.append(vx(m[i(0)], m[i(1)], s[i(1)], s[i(2)], s[i(3)]))
            s = t
        s = [vx(s[i], keys[16 * rnd + i]) for i in range(16)]
    return s


def expand(C, key):
    """FIPS-197 key expansion for Nk = 8"""
    w = [key[4 * i:4 * i + 4] for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = w[i - 1]
        if i % 8 == 0:
            t = [C.apply(SB, b) for b in t[1:] + t[:1]]
            t[0] = vx(t[0], cst(rc))
            rc = gmul(rc, 2)
        elif i % 8 == 4: t = [C.apply(SB, b) for b in t]
        w.append([vx(a, b) for a, b in zip(w[i - 8], t)])
    return [b for x in w for b in x]


def selftest():
    """the specification itself reproduces the known answer of FIPS-197, appendix C.3"""
    class K(Canon):
        def apply(self, tab, arg): return cst(tab[sum((m & 1) << i for i, m in enumerate(arg))])
    C = K({})
    ks = expand(C, [cst(i) for i in range(32)])
    out = cipher(C, [cst(17 * i) for i in range(16)], ks)
    assert bytes(sum((m & 1) << i for i, m in enumerate(b)) for b in out).hex() == '8ea2b7ca516745bfeafc49904b496089'


def targets():
    selftest()
    T = []

    def arr(x, name, n):
        oid = x.e.new_obj(x.st, name, None, n, lazy=True)
        s = []
        for i in range(n):
            v = x.e.fresh_iv(x.st, '%s%d' % (name, i), 8, 'V')
            x.e.store(x.st, CP(oid, i), v, ('int', 8))
            s.append(v.t)
        x.args.append(CP(oid, 0))
        x.ptrs[name] = (CP(oid, 0), None)
        x.env[name] = s

    def compare(x, got, var, want):
        C = Canon(x.e.tabdefs)
        for t in var: C.var(t)
        w = want(C)
        out = []
        for i, (g, v) in enumerate(zip(got, w)):
            try: out.append(('byte %d' % i, BoolVal(C.term(g) == v)))
            except gf2.NotLinear as ex: out.append(('byte %d (operation outside the decided fragment: %s)' % (i, str(ex)[:60]), BoolVal(False)))
        return out

    def s_key(x):
        x.e.name_tables = True
        x.raw('r', size=240, lazy=False)
        arr(x, 'k', 32)

    def p_key(x, o):
        if o.kind != 'ret': return None
        got = [o.mem('r', i, ('int', 8)).t for i in range(240)]
        return [('round key ' + n, f) for n, f in compare(x, got, x['k'], lambda C: expand(C, [C.term(t) for t in x['k']]))] + [('the key is not changed', BoolVal(all(o.mem('k', i, ('int', 8)).t.eq(x['k'][i]) for i in range(32))))]
    T.append(Target('AES::AES(key)', 'd_key', s_key, p_key, mode='bv', unroll=300, under=['AES::AES', 'AES::subWord', 'AES::rotWord', 'AES::xorWord', 'AES::copy']))

    def s_enc(x):
        x.e.name_tables = True
        x.raw('out', size=16, lazy=False)
        arr(x, 'a', 240)
        arr(x, 'in', 16)

    def p_enc(x, o):
        if o.kind != 'ret': return None
        got = [o.mem('out', i, ('int', 8)).t for i in range(16)]
        same = all(o.mem(n, i, ('int', 8)).t.eq(x[n][i]) for n in ('a', 'in') for i in range(len(x[n])))
        return [('cipher text ' + n, f) for n, f in compare(x, got, x['a'] + x['in'], lambda C: cipher(C, [C.term(t) for t in x['in']], [C.term(t) for t in x['a']]))] + [('round keys and plain text are not changed', BoolVal(same))]
    T.append(Target('AES::operator()', 'd_enc', s_enc, p_enc, mode='bv', unroll=300, under=['AES::operator()', 'AES::subBytes', 'AES::shiftRow', 'AES::shiftRows', 'AES::mixColumns', 'AES::addRoundKey']))
    return T
