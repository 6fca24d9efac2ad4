"""regular languages: ECMAScript patterns (the subset used here) -> DFA over bytes; inclusion and equivalence"""
import functools
BYTES = frozenset(range(256))
DIGIT = frozenset(range(48, 58))
WORD = DIGIT | frozenset(range(65, 91)) | frozenset(range(97, 123)) | {95}
SPACE = frozenset([32, 9, 10, 11, 12, 13])


class BadPattern(Exception): pass


def parse(p):
    """AST: ('e',) ('c', set) ('.', a, b) ('|', a, b) ('*', a)"""
    pos = 0

    def peek(): return p[pos] if pos < len(p) else None

    def cat(a, b): return b if a == ('e',) else a if b == ('e',) else ('.', a, b)

    def alt():
        nonlocal pos
        r = seq()
        while peek() == '|':
            pos += 1
            r = ('|', r, seq())
        return r

    def seq():
        r = ('e',)
        while peek() is not None and peek() not in '|)': r = cat(r, post())
        return r

    def post():
        nonlocal pos
        a = atom()
        while peek() is not None and peek() in '*+?{':
            c = peek()
            pos += 1
            if c == '*': a = ('*', a)
            elif c == '+': a = cat(a, ('*', a))
            elif c == '?': a = ('|', ('e',), a)
            else:
                q = p.index('}', pos)
                t = p[pos:q]
                pos = q + 1
                lo, _, hi = t.partition(',')
                lo = int(lo)
                r = ('e',)
                for _i in range(lo): r = cat(r, a)
                if ',' not in t: pass
                elif hi == '': r = cat(r, ('*', a))
                else:
                    o = ('e',)
                    for _i in range(int(hi) - lo): o = ('|', ('e',), cat(a, o))
                    r = cat(r, o)
                a = r
            if peek() == '?': pos += 1      # lazy: the same language
        return a

    def esc(c):
        if c == 'd': return DIGIT
        if c == 'D': return BYTES - DIGIT
        if c == 'w': return WORD
        if c == 'W': return BYTES - WORD
        if c == 's': return SPACE
        if c == 'S': return BYTES - SPACE
        if c in 'nrtfv': return frozenset([ord({'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'v': '\v'}[c])])
        if c.isalnum(): raise BadPattern('escape \\' + c)
        return frozenset([ord(c)])

    def atom():
        nonlocal pos
        c = peek()
        pos += 1
        if c == '(':
            if p[pos:pos + 2] == '?:': pos += 2
            elif peek() == '?': raise BadPattern('look-ahead')
            r = alt()
            if peek() != ')': raise BadPattern('parenthesis')
            pos += 1
            return r
        if c == '[': return ('c', cls())
        if c == '.': return ('c', BYTES - {10, 13})
        if c == '\\':
            pos += 1
            return ('c', esc(p[pos - 1]))
        if c in '*+?{^$': raise BadPattern('unexpected ' + c)
        return ('c', frozenset([ord(c)]))

    def cls():
        nonlocal pos
        neg = peek() == '^'
        if neg: pos += 1
        s = frozenset()
        while peek() != ']':
            if peek() is None or p[pos:pos + 2] in ('[:', '[.', '[='): raise BadPattern('class')
            if peek() == '\\':
                pos += 2
                a = esc(p[pos - 1])
            else:
                a = frozenset([ord(peek())])
                pos += 1
            if peek() == '-' and p[pos + 1:pos + 2] not in (']', ''):
                pos += 1
                if len(a) != 1 or peek() == '\\': raise BadPattern('range')
                a = frozenset(range(min(a), ord(peek()) + 1))
                pos += 1
            s |= a
        pos += 1
        return BYTES - s if neg else s
    r = alt()
    if pos != len(p): raise BadPattern('at %d' % pos)
    return r


class DFA:
    """complete: trans[state][byte], state 0 initial"""

    def __init__(s, trans, acc): s.trans, s.acc = trans, acc

    def run(s, w):
        q = 0
        for b in w: q = s.trans[q][b]
        return s.acc[q]


@functools.lru_cache(None)
def dfa(pat):
    ast = parse(pat)
    eps, chars = {}, {}
    cnt = [0]

    def new():
        cnt[0] += 1
        return cnt[0]

    def build(a, i, o):
        if a[0] == 'e': eps.setdefault(i, set()).add(o)
        elif a[0] == 'c': chars.setdefault(i, []).append((a[1], o))
        elif a[0] == '.':
            m = new()
            build(a[1], i, m)
            build(a[2], m, o)
        elif a[0] == '|':
            build(a[1], i, o) if False else None
            for x in a[1:]:
                i2, o2 = new(), new()
                eps.setdefault(i, set()).add(i2)
                eps.setdefault(o2, set()).add(o)
                build(x, i2, o2)
        else:
            m, m2 = new(), new()
            eps.setdefault(i, set()).update((m, o))
            eps.setdefault(m2, set()).update((m, o))
            build(a[1], m, m2)
    i0, o0 = new(), new()
    build(ast, i0, o0)

    def close(S):
        S, w = set(S), list(S)
        while w:
            for t in eps.get(w.pop(), ()):
                if t not in S: S.add(t), w.append(t)
        return frozenset(S)
    ids, trans, acc = {}, [], []
    todo = [close([i0])]
    ids[todo[0]] = 0
    while len(trans) < len(todo):
        S = todo[len(trans)]
        row = []
        for b in range(256):
            T = close([t for s in S for cs, t in chars.get(s, ()) if b in cs])
            if T not in ids:
                ids[T] = len(todo)
                todo.append(T)
            row.append(ids[T])
        trans.append(row)
        acc.append(o0 in S)
    return DFA(trans, acc)


def product_search(A, B, bad):
    """a word after which bad(acc A, acc B) holds, or None"""
    seen = {(0, 0): b''}
    todo = [(0, 0)]
    for p in todo:
        if bad(A.acc[p[0]], B.acc[p[1]]): return seen[p]
        for b in range(256):
            q = (A.trans[p[0]][b], B.trans[p[1]][b])
            if q not in seen:
                seen[q] = seen[p] + bytes([b])
                todo.append(q)
    return None


def equal(p, q): return product_search(dfa(p), dfa(q), lambda a, b: a != b) is None
def subset(p, q): return product_search(dfa(p), dfa(q), lambda a, b: a and not b) is None


def strip(p, c):
    """{w : c w in L(p)} as a DFA"""
    D = dfa(p)
    s = D.trans[0][c]
    perm = [s] + [i for i in range(len(D.trans)) if i != s]
    inv = {v: k for k, v in enumerate(perm)}
    return DFA([[inv[t] for t in D.trans[i]] for i in perm], [D.acc[i] for i in perm])


def sub_dfa(A, B): return product_search(A, B, lambda a, b: a and not b) is None
