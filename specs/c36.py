from spec import *
DRIVER = 'c36.cpp'
FINDER = 'c36.cpp'
FLAGS = ('-fno-access-control',)
FINDER_FLAGS = ['-fno-access-control', '-Wno-invalid-constexpr']
I8, I32, I64 = ('int', 8), ('int', 32), ('int', 64)
VC = 'std::vector<Color, std::allocator<Color> >'
VVC = 'std::vector<%s, std::allocator<%s > >' % (VC, VC)
FF = 0xFFFFFFFF
AI = z3.ArraySort(IntSort(), IntSort())
OUT = z3.Const('file', AI)                        # the bytes of the file (prophecy: writing byte number i fixes OUT[i])
STEP = Function('crc_step', IntSort(), IntSort(), IntSort())
CR = Function('crc', IntSort(), IntSort(), IntSort())        # CR(s, i): register after the bytes s .. i-1
BASE = Function('start_of_row', IntSort(), IntSort())
AD, BD = Function('adler_a', IntSort(), IntSort(), IntSort()), Function('adler_b', IntSort(), IntSort(), IntSort())
PIX, ROWOK = Function('pixel_ok', IntSort(), IntSort(), BoolSort()), Function('row_ok', IntSort(), BoolSort())
w, h = Ints('width colors.0')          # h is the number of rows
ii = Int('ii')


def member(x, oid, n):
    [(st, kind, p)] = x.e.call_name(x.st, n, [CP(oid, 0)])
    return p


def pos(e, st): return e.S(st, e.load(st, CP(e.x_file, 0), I64))


def m_u8(c):
    """contract of writeU8 (proved over bit vectors below): one byte is appended and the register makes one step of CRC-32"""
    e, st = c.e, c.st
    e.contracts_used.add('details::PNGWriter::writeU8')
    P, pc = pos(e, st), e.padd_const(c.args[0], e.x['offs']['c'])
    v, cr = e.U(st, c.args[1]), e.U(st, e.load(st, pc, I32))
    if z3.is_int_value(z3.simplify(cr)) and z3.simplify(cr).as_long() == FF:
        st.g['start'] = P
        st.assume(CR(P, P) == FF)
    st.assume(OUT[P] == v)
    n = STEP(cr, v)
    st.assume(And(0 <= n, n <= FF))
    if 'start' in st.g:
        s = st.g['start']
        st.assume(CR(s, P + 1) == STEP(CR(s, P), OUT[P]))
    e.store(st, pc, IV(n, 32, 'U'), I32)
    e.store(st, CP(e.x_file, 0), IV(z3.simplify(P + 1), 64, 'S'), I64)
    return None


def be32(i, v):
    """v in four bytes, the most significant first"""
    if isinstance(v, int): v = IntVal(v)
    return And([OUT[i + k] == (v / (1 << 8 * (3 - k))) % 256 for k in range(4)] + [0 <= v, v <= FF])


def targets():
    T = []

    # ---- one byte
    def s_u8(x):
        oid = x.e.new_obj(x.st, 'w', None, 528, lazy=True)
        x.args.append(CP(oid, 0))
        x.ptrs['w'] = (CP(oid, 0), None)
        x.env['oid'] = oid
        x.env['pc'], x.env['os'] = member(x, oid, 'd_c'), member(x, oid, 'd_os')
        x.u8('x')
        x.env['c0'] = x.e.load(x.st, x['pc'], I32).t

    def m_put(c):
        e, st = c.e, c.st
        st.g['put'] = st.g.get('put', ()) + ((c.args[0] == e.x['os'], c.args[1].t),)
        return c.args[0]

    def p_u8(x, o):
        if o.kind != 'ret': return None
        e, st = o.e, o.st
        t = x['c0'] ^ z3.ZeroExt(24, x['x'])
        for k in range(8): t = z3.If(z3.Extract(0, 0, t) == 1, z3.LShR(t, 1) ^ z3.BitVecVal(0xEDB88320, 32), z3.LShR(t, 1))
        p = st.g.get('put', ())
        ok = len(p) == 1 and p[0][0]
        low = z3.Extract(3, 0, x['c0'] ^ z3.ZeroExt(24, x['x']))
        return [('register makes one step of CRC-32 (lowest bits %d)' % v, z3.Implies(low == v, e.load(st, x['pc'], I32).t == t)) for v in range(16)] + [('one byte is written', BoolVal(ok)), ('the byte is the argument', z3.Extract(7, 0, p[0][1]) == x['x'] if ok else BoolVal(False))]
    T.append(Target('writeU8', 'd_u8', s_u8, p_u8, models=[(r'operator<< ?<std::char_traits<char> ?>\(.*unsigned char\)|basic_ostream<char.*>::put\(', m_put)], mode='bv', under=['details::PNGWriter::writeU8']))

    # ---- the file
    def s_write(x):
        e, st = x.e, x.st
        oid = e.new_obj(st, 'w', None, 528, lazy=True)
        x.args.append(CP(oid, 0))
        x.env['oid'] = oid
        e.x = x
        x.env['ptr'] = {n: member(x, oid, 'd_' + n) for n in 'abc'}
        x.env['offs'] = {n: p.off for n, p in x['ptr'].items()}
        e.x_file = e.new_obj(st, 'position', None, 8)
        e.store(st, CP(e.x_file, 0), e.const(0, 64), I64)
        x.env['img'] = x.vec('colors', VVC)
        c = x['img'].comps
        x.assume(And(c[1][0] == w, 1 <= h, h < 1 << 31, 1 <= w, w <= 16383, 6 + h * (4 * w + 6) < 1 << 31))
        x.assume(forall(ii, Implies(And(0 <= ii, ii < h), c[1][ii] == w), [c[1][ii]]))
        x.assume(And(BASE(0) == 43, AD(0, 0) == 1, BD(0, 0) == 0))

    def px(x, r, c, k):
        v = Select(Select(x['img'].comps[2 + k], h - 1 - r), c)
        return If(v < 0, v + 256, v)

    def reg(L, n): return L.e.U(L.st, L.e.load(L.st, L.e.x['ptr'][n], I32))

    def common(L, r, m):
        s = L.st.g.get('start', IntVal(-1))
        return [('checksum (a)', And(reg(L, 'a') == AD(r, m), 0 <= AD(r, m), AD(r, m) < 65521)), ('checksum (b)', And(reg(L, 'b') == BD(r, m), 0 <= BD(r, m), BD(r, m) < 65521)), ('CRC', reg(L, 'c') == CR(s, pos(L.e, L.st)))]

    def adler(r, m, byte):
        """definition: the checksum before and after byte m of row r (the filter byte 0, then the pixels)"""
        return And(AD(r, m + 1) == (AD(r, m) + byte) % 65521, BD(r, m + 1) == (BD(r, m) + AD(r, m + 1)) % 65521)

    def inv_rows(L):
        y = L['y']
        return [('row in range', And(0 <= y, y <= h)), ('position', pos(L.e, L.st) == BASE(y)), ('rows have equal size', BASE(y) == 43 + y * (4 * w + 6))] + common(L, y, IntVal(0)) + [('rows so far', forall(ii, Implies(And(0 <= ii, ii < y), ROWOK(ii)), [ROWOK(ii)]))]

    def lem_rows(L):
        y = L['y']
        return [BASE(y + 1) == BASE(y) + 4 * w + 6, adler(y, IntVal(0), IntVal(0)), AD(y + 1, 0) == AD(y, 4 * w + 1), BD(y + 1, 0) == BD(y, 4 * w + 1), (y + 1) * (4 * w + 6) == y * (4 * w + 6) + 4 * w + 6]

    def rowdef(x, r):
        """row r of the data: a stored block that holds the filter byte 0 and the pixels"""
        b, n = BASE(r), 4 * w + 1
        return And(OUT[b] == If(r + 1 == h, 1, 0), OUT[b + 1] == n % 256, OUT[b + 2] == n / 256, OUT[b + 3] == 255 - n % 256, OUT[b + 4] == 255 - n / 256, OUT[b + 5] == 0,
                   forall(ii, Implies(And(0 <= ii, ii < w), PIX(r, ii)), [PIX(r, ii)]))

    def after_rows(L):
        y = L.head['y']
        L.st.assume(ROWOK(y) == rowdef(L.e.x, y))

    def inv_pix(L):
        y, c = L['y'], L['cur']
        return [('column in range', And(0 <= c, c <= w, 0 <= y, y < h)), ('position', pos(L.e, L.st) == BASE(y) + 6 + 4 * c)] + common(L, y, 4 * c + 1) + [('pixels so far', forall(ii, Implies(And(0 <= ii, ii < c), PIX(y, ii)), [PIX(y, ii)]))]

    def lem_pix(L):
        y, c = L['y'], L['cur']
        return [adler(y, 4 * c + 1 + k, px(L.e.x, y, c, k)) for k in range(4)]

    def after_pix(L):
        y, c = L.head['y'], L.head['cur']
        L.st.assume(PIX(y, c) == And([OUT[BASE(y) + 6 + 4 * c + k] == px(L.e.x, y, c, k) for k in range(4)]))

    def p_write(x, o):
        if o.kind != 'ret': return None
        end, Z = pos(o.e, o.st), BASE(h)
        lit = lambda i, s: And([OUT[i + k] == b for k, b in enumerate(s)])
        return [('signature', lit(0, b'\x89PNG\r\n\x1a\n')), ('IHDR chunk of 13 bytes', And(be32(8, 13), lit(12, b'IHDR'))), ('width', be32(16, w)), ('height', be32(20, h)), ('8 bits, RGBA, no interlacing', lit(24, bytes([8, 6, 0, 0, 0]))), ('CRC of IHDR', be32(29, FF - CR(12, 29))),
                ('length of the data', And(be32(33, 6 + h * (4 * w + 6)), lit(37, b'IDAT'))), ('zlib header', lit(41, b'\x78\x01')), ('rows', And(Z == 43 + h * (4 * w + 6), forall(ii, Implies(And(0 <= ii, ii < h), ROWOK(ii)), [ROWOK(ii)]))),
                ('Adler-32 of the data', be32(Z, BD(h, 0) * 65536 + AD(h, 0))), ('CRC of IDAT', be32(Z + 4, FF - CR(37, Z + 4))), ('IEND chunk without data', And(be32(Z + 8, 0), lit(Z + 12, b'IEND'))), ('CRC of IEND', be32(Z + 16, FF - CR(Z + 12, Z + 16))), ('nothing follows', end == Z + 20)]
    T.append(Target('write', 'd_write', s_write, p_write, models=[(r'PNGWriter::writeU8\(', m_u8)], under=['details::PNGWriter::write', 'details::PNGWriter::writeU16L', 'details::PNGWriter::writeU32', 'details::PNGWriter::writeU8Adler', 'details::PNGWriter::beginChunk', 'details::PNGWriter::endChunk'],
                    loops=[LoopSpec(r'PNGWriter::write\(', 0, {'y': ('u64', 'y', 'i', 'row')}, inv_rows, lemmas=lem_rows, after=after_rows, name='rows', variant=lambda L: h - L['y']),
                           LoopSpec(r'PNGWriter::write\(', 1, {'y': ('u64', 'y', 'i', 'row'), 'cur': ('cur', '__begin', 'x', 'j')}, inv_pix, lemmas=lem_pix, after=after_pix, name='pixels', variant=lambda L: w - L['cur'])]))
    return T
