"""Values of the symbolic executor: machine integers (as mathematical integers or bit-vectors), floats, pointers."""
import z3


class Unsupported(Exception):
    """the engine cannot translate something: the obligation is undecided, never silently passed"""


class IV:
    """a machine integer of width w.  Int mode: t is a z3 Int, tag says which reading it is exact for:
    'S' t in [-2^(w-1), 2^(w-1)), 'U' t in [0,2^w), 'B' both (t in [0,2^(w-1))).   BV mode: t is a BitVec, tag 'V'."""
    __slots__ = ('t', 'w', 'tag', 'c', 'b', 'parts')

    def __init__(self, t, w, tag, c=None, b=None, parts=None):
        self.t, self.w, self.tag, self.c, self.b, self.parts = t, w, tag, c, b, parts     # parts: offset -> cell, for a small struct passed as an integer

    def __repr__(self):
        return 'i%d%s:%s' % (self.w, self.tag, self.c if self.c is not None else self.t)


class FV:
    __slots__ = ('t', 'n')

    def __init__(self, t, n):
        self.t, self.n = t, n

    def __repr__(self):
        return 'F:%s' % self.t


class Ptr:
    __slots__ = ()


class NullP(Ptr):
    __slots__ = ()

    def __repr__(self): return 'null'

    def __eq__(self, o): return isinstance(o, NullP)

    def __hash__(self): return 1


NULL = NullP()


class CP(Ptr):
    """pointer to byte off of object obj"""
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self): return '&%s+%d' % (self.obj, self.off)

    def __eq__(self, o): return isinstance(o, CP) and o.obj == self.obj and o.off == self.off

    def __hash__(self): return hash((self.obj, self.off))


class EP(Ptr):
    """pointer to byte off of element idx of the model container that lives at pointer par"""
    __slots__ = ('par', 'idx', 'off', 'mt')

    def __init__(self, par, idx, off, mt):
        self.par, self.idx, self.off, self.mt = par, idx, off, mt

    def __repr__(self): return '&%r[%s]+%d' % (self.par, self.idx, self.off)

    def __eq__(self, o):
        return isinstance(o, EP) and o.par == self.par and o.off == self.off and z3.eq(o.idx, self.idx)

    def __hash__(self): return hash((self.par, self.off))


class AP(Ptr):
    """pointer into a raw array with symbolic index: obj bytes [base + idx*stride + off], 0<=idx<n"""
    __slots__ = ('obj', 'base', 'idx', 'stride', 'n', 'off')

    def __init__(self, obj, base, idx, stride, n, off):
        self.obj, self.base, self.idx, self.stride, self.n, self.off = obj, base, idx, stride, n, off

    def __repr__(self): return '&%s[%d+%s*%d]+%d' % (self.obj, self.base, self.idx, self.stride, self.off)

    def __eq__(self, o):
        return isinstance(o, AP) and (o.obj, o.base, o.stride, o.off) == (self.obj, self.base, self.stride, self.off) and z3.eq(o.idx, self.idx)

    def __hash__(self): return hash((self.obj, self.base))


class FnP(Ptr):
    __slots__ = ('name',)

    def __init__(self, name): self.name = name

    def __repr__(self): return '@' + self.name

    def __eq__(self, o): return isinstance(o, FnP) and o.name == self.name

    def __hash__(self): return hash(self.name)


class NodeP(Ptr):
    """abstract position inside an associative container at par: kind 'end' or a key (list of terms)"""
    __slots__ = ('par', 'mt', 'key', 'end', 'off')

    def __init__(self, par, mt, key, end, off=0):
        self.par, self.mt, self.key, self.end, self.off = par, mt, key, end, off

    def __repr__(self): return 'node(%r,%s,end=%s)' % (self.par, self.key, self.end)


class PInt:
    """pointer turned into an integer (only differences are meaningful)"""
    __slots__ = ('p', 'w')

    def __init__(self, p, w): self.p, self.w = p, w


class PDiff:
    """byte difference of two pointers into the same sequence: elems*size + off"""
    __slots__ = ('n', 'size', 'off', 'w')

    def __init__(self, n, size, off, w): self.n, self.size, self.off, self.w = n, size, off, w


class Undef:
    __slots__ = ('why',)

    def __init__(self, why='uninitialised'): self.why = why

    def __repr__(self): return 'undef(%s)' % self.why


class Bundle(Undef):
    """several initialised cells (with padding between them) read or written as one integer"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.why = 'bundle'
        self.parts = parts      # {relative offset: (size, value, type)}


# ---------------------------------------------------------------- shapes
class MT:
    """model type of a container"""
    pass


class Leaf:
    __slots__ = ('off', 'kind', 'size')

    def __init__(self, off, kind, size):
        self.off, self.kind, self.size = off, kind, size


class Shape:
    """byte layout of an element type: leaves are scalars or nested model containers"""

    def __init__(self, size, leaves, name=''):
        self.size, self.leaves, self.name = size, leaves, name

    def __repr__(self): return 'Shape(%s)' % self.name


class VecT(MT):
    """contiguous sequence (vector, string, array, deque): comps = n, then one lifted comp per element leaf comp"""

    def __init__(self, elem, bytes_=24, kind='vector', align=8):
        self.elem, self.bytes, self.kind, self.align = elem, bytes_, kind, align

    def __repr__(self): return 'VecT(%s,%r)' % (self.kind, self.elem)


class AssocT(MT):
    """std::set / std::map over a key shape with one scalar leaf: comps = dom (Array Key Bool), n, then lifted value comps"""

    def __init__(self, key, val, bytes_=48, kind='map'):
        self.key, self.val, self.bytes, self.kind = key, val, bytes_, kind
        self.align = 8

    def __repr__(self): return 'AssocT(%s)' % self.kind


class OpaqueT(MT):
    """object whose content is a tuple of z3 terms managed only by models"""

    def __init__(self, name, sorts, bytes_):
        self.name, self.sorts, self.bytes = name, sorts, bytes_
        self.align = 8
