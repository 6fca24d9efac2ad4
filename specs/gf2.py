"""exact linear algebra over GF(2): the matrix of a bit vector term over given variables (every operation must be linear)"""
import z3


class NotLinear(Exception): pass


def matrix(t, cols, cache):
    """list of integers, one per bit of t (lowest first): bit mask over the columns, plus bit `one` for the constant"""
    k = t.get_id()
    if k in cache: return cache[k]
    n = t.size()
    d = t.decl().kind()
    if k in cols: r = [1 << (cols[k] + i) for i in range(n)]
    elif z3.is_bv_value(t):
        v = t.as_long()
        r = [(v >> i & 1) << cols['one'] for i in range(n)]
    else:
        a = [matrix(c, cols, cache) for c in t.children()]
        z = [0] * n

        def const(i):
            c = t.arg(i)
            if not z3.is_bv_value(c): raise NotLinear(str(t.decl()))
            return c.as_long()
        one = 1 << cols['one']
        if d == z3.Z3_OP_BXOR:
            r = z
            for x in a: r = [p ^ q for p, q in zip(r, x)]
        elif d == z3.Z3_OP_BNOT: r = [p ^ one for p in a[0]]
        elif d == z3.Z3_OP_BSHL:
            s = const(1)
            r = ([0] * min(s, n) + a[0])[:n]
        elif d == z3.Z3_OP_BLSHR:
            s = const(1)
            r = (a[0][s:] + [0] * n)[:n]
        elif d in (z3.Z3_OP_BOR, z3.Z3_OP_BADD):
            r = z
            for x in a:
                if any(p and q for p, q in zip(r, x)): raise NotLinear('overlapping ' + str(t.decl()))
                r = [p ^ q for p, q in zip(r, x)]
        elif d == z3.Z3_OP_BAND:
            m = [i for i in range(len(a)) if z3.is_bv_value(t.arg(i))]
            if len(a) != 2 or not m: raise NotLinear('and')
            v = t.arg(m[0]).as_long()
            r = [p if v >> i & 1 else 0 for i, p in enumerate(a[1 - m[0]])]
        elif d == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            r = a[0][lo:hi + 1]
        elif d == z3.Z3_OP_CONCAT:
            r = []
            for x in reversed(a): r = r + x
        elif d == z3.Z3_OP_ZERO_EXT: r = a[0] + [0] * (n - len(a[0]))
        elif d == z3.Z3_OP_ROTATE_LEFT:
            s = t.params()[0] % n
            r = a[0][n - s:] + a[0][:n - s]
        elif d == z3.Z3_OP_ROTATE_RIGHT:
            s = t.params()[0] % n
            r = a[0][s:] + a[0][:s]
        else: raise NotLinear(str(t.decl()))
    cache[k] = r
    return r


def mul(a, b):
    """rows of a as masks over the rows of b"""
    out = []
    for m in a:
        r = 0
        while m:
            l = m & -m
            r ^= b[l.bit_length() - 1]
            m ^= l
        out.append(r)
    return out


def power2(a, k):
    for _ in range(k): a = mul(a, a)
    return a
