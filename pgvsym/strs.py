"""Byte strings of concrete length whose bytes may be symbolic."""
import z3
from .core import And, Or, Not, is_sym, conc_bool, Ite, Unsupported


class Str:
    """Immutable byte string; b is a tuple of ints and 8-bit z3 terms."""
    __slots__ = ('b', '_h')

    def __init__(self, b):
        self.b = b if isinstance(b, tuple) else tuple(b)

    def __len__(self):
        return len(self.b)

    def conc(self):
        for x in self.b:
            if not isinstance(x, int):
                return None
        return bytes(self.b)

    def __repr__(self):
        c = self.conc()
        return 'Str(%r)' % (c if c is not None else list(self.b),)


class OStr:
    """Opaque string (formatted text): only structural identity is known."""
    __slots__ = ('fmt', 'args')

    def __init__(self, fmt, args=()):
        self.fmt, self.args = fmt, tuple(args)

    def __repr__(self):
        return 'OStr(%r,%r)' % (self.fmt, self.args)


def lift(s):
    if isinstance(s, (Str, OStr)):
        return s
    if isinstance(s, str):
        s = s.encode()
    return Str(tuple(s))


def beq(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return x == y


def eq(a, b):
    if isinstance(a, OStr) or isinstance(b, OStr):
        if a is b:
            return True
        if isinstance(a, OStr) and isinstance(b, OStr) and a.fmt == b.fmt and len(a.args) == 0 == len(b.args):
            return True
        if isinstance(a, Str) and len(a) == 0 or isinstance(b, Str) and len(b) == 0:
            return False
        raise Unsupported('comparison of formatted text')
    if len(a.b) != len(b.b):
        return False
    return And([beq(x, y) for x, y in zip(a.b, b.b)])


def bv8(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def lt(a, b):
    """a < b lexicographically."""
    if len(b.b) == 0:
        return False
    r = len(a.b) < len(b.b)
    for x, y in reversed(list(zip(a.b, b.b))):
        if isinstance(x, int) and isinstance(y, int):
            if x < y:
                r = True
            elif x > y:
                r = False
        else:
            r = Or(z3.ULT(bv8(x), bv8(y)), And(bv8(x) == bv8(y), r))
    return r


def at(a, i, pat):
    return And([beq(x, y) for x, y in zip(a.b[i:i + len(pat.b)], pat.b)])


def has_prefix(a, p):
    return len(a.b) >= len(p.b) and at(a, 0, p)


def has_suffix(a, p):
    return len(a.b) >= len(p.b) and at(a, len(a.b) - len(p.b), p)


def contains(a, p):
    return Or([at(a, i, p) for i in range(0, len(a.b) - len(p.b) + 1)])


def index(ctx, a, p, start=0):
    """Forks over the position of the first occurrence."""
    for i in range(start, len(a.b) - len(p.b) + 1):
        if ctx.decide(at(a, i, p)):
            return i
    return -1


def last_index(ctx, a, p):
    for i in range(len(a.b) - len(p.b), -1, -1):
        if ctx.decide(at(a, i, p)):
            return i
    return -1


def rng(x, lo, hi):
    if isinstance(x, int):
        return lo <= x <= hi
    if lo == 0:
        return z3.ULE(x, hi)
    if hi == 255:
        return z3.UGE(x, lo)
    return z3.And(z3.UGE(x, lo), z3.ULE(x, hi))


def is_cont(x):
    return rng(x, 0x80, 0xBF)


def rune_count(s, w=64):
    """Number of code points of valid UTF-8, as an int or a BV."""
    n = 0
    t = None
    for x in s.b:
        c = Not(is_cont(x))
        cc = conc_bool(c)
        if cc is not None:
            n += int(cc)
        else:
            u = z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            t = u if t is None else t + u
    return n if t is None else t + n


def valid_utf8(bs):
    """Formula: the bytes are well-formed UTF-8 (Unicode table 3-7)."""
    n = len(bs)
    ok = [None] * (n + 1)
    ok[n] = True

    def R(i, lo, hi):
        return rng(bs[i], lo, hi)
    for i in range(n - 1, -1, -1):
        alts = [And(R(i, 0, 0x7F), ok[i + 1])]
        if i + 2 <= n:
            alts.append(And(R(i, 0xC2, 0xDF), R(i + 1, 0x80, 0xBF), ok[i + 2]))
        if i + 3 <= n:
            c3 = And(R(i + 2, 0x80, 0xBF), ok[i + 3])
            alts.append(And(R(i, 0xE0, 0xE0), R(i + 1, 0xA0, 0xBF), c3))
            alts.append(And(Or(R(i, 0xE1, 0xEC), R(i, 0xEE, 0xEF)), R(i + 1, 0x80, 0xBF), c3))
            alts.append(And(R(i, 0xED, 0xED), R(i + 1, 0x80, 0x9F), c3))
        if i + 4 <= n:
            c4 = And(R(i + 2, 0x80, 0xBF), R(i + 3, 0x80, 0xBF), ok[i + 4])
            alts.append(And(R(i, 0xF0, 0xF0), R(i + 1, 0x90, 0xBF), c4))
            alts.append(And(R(i, 0xF1, 0xF3), R(i + 1, 0x80, 0xBF), c4))
            alts.append(And(R(i, 0xF4, 0xF4), R(i + 1, 0x80, 0x8F), c4))
        ok[i] = Or(alts)
    return ok[0]


def z32(x):
    return x if isinstance(x, int) else z3.ZeroExt(24, x)


def decode_rune(ctx, bs, i):
    """(rune, width) at byte i; forks on the width. Bytes not forming a valid
    sequence decode to U+FFFD, width 1."""
    b0 = bs[i]
    if ctx.decide(rng(b0, 0, 0x7F)):
        return z32(b0), 1
    n = len(bs)

    def c(k):
        return And(i + k < n, is_cont(bs[i + k]) if i + k < n else False)

    def v(k, mask):
        x = bs[i + k]
        return (x & mask) if isinstance(x, int) else (z3.ZeroExt(24, x) & mask)
    if ctx.decide(And(rng(b0, 0xC2, 0xDF), c(1))):
        return (v(0, 0x1F) * 64) | v(1, 0x3F), 2
    if ctx.decide(And(rng(b0, 0xE0, 0xEF), c(1), c(2))):
        b1 = bs[i + 1]
        good = And(Not(And(beq(b0, 0xE0), rng(b1, 0x80, 0x9F))), Not(And(beq(b0, 0xED), rng(b1, 0xA0, 0xBF))))
        if ctx.decide(good):
            return (v(0, 0xF) * 4096) | (v(1, 0x3F) * 64) | v(2, 0x3F), 3
        return 0xFFFD, 1
    if ctx.decide(And(rng(b0, 0xF0, 0xF4), c(1), c(2), c(3))):
        b1 = bs[i + 1]
        good = And(Not(And(beq(b0, 0xF0), rng(b1, 0x80, 0x8F))), Not(And(beq(b0, 0xF4), rng(b1, 0x90, 0xBF))))
        if ctx.decide(good):
            return (v(0, 7) * 262144) | (v(1, 0x3F) * 4096) | (v(2, 0x3F) * 64) | v(3, 0x3F), 4
    return 0xFFFD, 1


def encode_rune(ctx, r):
    """UTF-8 bytes of a rune (BV32 or int)."""
    if isinstance(r, int):
        if r > 0x10FFFF or 0xD800 <= r <= 0xDFFF or r < 0:
            r = 0xFFFD
        return tuple(chr(r).encode())

    def ex(hi, lo):
        return z3.Extract(hi, lo, r)

    if ctx.decide(z3.ULE(r, 0x7F)):
        return (ex(7, 0),)
    if ctx.decide(z3.ULE(r, 0x7FF)):
        return (z3.Concat(z3.BitVecVal(6, 3), ex(10, 6)), z3.Concat(z3.BitVecVal(2, 2), ex(5, 0)))
    bad = Or(z3.UGT(r, 0x10FFFF), And(z3.UGE(r, 0xD800), z3.ULE(r, 0xDFFF)))
    if ctx.decide(bad):
        return tuple('\ufffd'.encode())
    if ctx.decide(z3.ULE(r, 0xFFFF)):
        return (z3.Concat(z3.BitVecVal(14, 4), ex(15, 12)), z3.Concat(z3.BitVecVal(2, 2), ex(11, 6)),
                z3.Concat(z3.BitVecVal(2, 2), ex(5, 0)))
    return (z3.Concat(z3.BitVecVal(30, 5), ex(20, 18)), z3.Concat(z3.BitVecVal(2, 2), ex(17, 12)),
            z3.Concat(z3.BitVecVal(2, 2), ex(11, 6)), z3.Concat(z3.BitVecVal(2, 2), ex(5, 0)))


# ---- regular expressions -------------------------------------------------
# prog: {"start": n, "inst": [[op, out, arg, runes], ...]} as Go's regexp/syntax
OP_ALT, OP_ALTMATCH, OP_CAPTURE, OP_EMPTY, OP_MATCH, OP_FAIL, OP_NOP, OP_RUNE, OP_RUNE1, OP_RUNEANY, OP_RUNEANYNL = range(11)


def runes_of(ctx, s):
    out, i = [], 0
    while i < len(s.b):
        r, w = decode_rune(ctx, s.b, i)
        out.append(r)
        i += w
    return out


def rune_in(r, inst):
    op, _, arg, runes = inst
    if op == OP_RUNEANY:
        return True
    if op == OP_RUNEANYNL:
        return Not(r == 10)
    if len(runes) == 1:
        c = runes[0]
        alts = [r == c]
        if arg & 1:   # fold case
            for o in fold_orbit(c):
                alts.append(r == o)
        return Or(alts)
    alts = []
    for i in range(0, len(runes) - 1, 2):
        lo, hi = runes[i], runes[i + 1]
        if isinstance(r, int):
            alts.append(lo <= r <= hi)
        elif lo == hi:
            alts.append(r == lo)
        else:
            alts.append(z3.And(z3.UGE(r, lo), z3.ULE(r, hi)))
    return Or(alts)


def fold_orbit(c):
    out = set()
    ch = chr(c)
    for x in (ch.lower(), ch.upper()):
        if len(x) == 1:
            out.add(ord(x))
    if ch in 'kK':
        out.add(0x212A)
    if ch in 'sS':
        out.add(0x17F)
    out.discard(c)
    return out


def is_word(r):
    if isinstance(r, int):
        return chr(r) in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
    return Or(And(z3.UGE(r, 97), z3.ULE(r, 122)), And(z3.UGE(r, 65), z3.ULE(r, 90)), And(z3.UGE(r, 48), z3.ULE(r, 57)), r == 95)


def rune_steps(bs, i):
    """[(width, rune term, condition)] for the rune starting at byte i."""
    b0 = bs[i]
    n = len(bs)
    out = []
    asc = rng(b0, 0, 0x7F)
    if conc_bool(asc) is not False:
        out.append((1, z32(b0), asc))
        if conc_bool(asc) is True:
            return out
    good = [asc]

    def v(k, mask):
        x = bs[i + k]
        return (x & mask) if isinstance(x, int) else (z3.ZeroExt(24, x) & mask)
    if i + 2 <= n:
        c = And(rng(b0, 0xC2, 0xDF), is_cont(bs[i + 1]))
        if conc_bool(c) is not False:
            out.append((2, (v(0, 0x1F) * 64) | v(1, 0x3F), c))
            good.append(c)
    if i + 3 <= n:
        b1 = bs[i + 1]
        c = And(rng(b0, 0xE0, 0xEF), is_cont(b1), is_cont(bs[i + 2]),
                Not(And(beq(b0, 0xE0), rng(b1, 0x80, 0x9F))), Not(And(beq(b0, 0xED), rng(b1, 0xA0, 0xBF))))
        if conc_bool(c) is not False:
            out.append((3, (v(0, 0xF) * 4096) | (v(1, 0x3F) * 64) | v(2, 0x3F), c))
            good.append(c)
    if i + 4 <= n:
        b1 = bs[i + 1]
        c = And(rng(b0, 0xF0, 0xF4), is_cont(b1), is_cont(bs[i + 2]), is_cont(bs[i + 3]),
                Not(And(beq(b0, 0xF0), rng(b1, 0x80, 0x8F))), Not(And(beq(b0, 0xF4), rng(b1, 0x90, 0xBF))))
        if conc_bool(c) is not False:
            out.append((4, (v(0, 7) * 262144) | (v(1, 0x3F) * 4096) | (v(2, 0x3F) * 64) | v(3, 0x3F), c))
            good.append(c)
    bad = Not(Or(good))
    if conc_bool(bad) is not False:
        out.append((1, 0xFFFD, bad))
    return out


def match(prog, bs, anchored=False, full=False):
    """Boolean term: the program matches the byte sequence (unanchored search
    unless anchored; full = the match must also end at the end). No forking:
    the automaton is run over all byte positions at once."""
    inst = prog['inst']
    n = len(bs)

    def empty_ok(flags, i):
        conds = []
        prev = bs[i - 1] if i > 0 else None
        nxt = bs[i] if i < n else None
        if flags & 1:
            conds.append(True if i == 0 else beq(prev, 10))
        if flags & 2:
            conds.append(True if i == n else beq(nxt, 10))
        if flags & 4:
            conds.append(i == 0)
        if flags & 8:
            conds.append(i == n)
        if flags & 64:      # Python's $: the end, or before a final newline
            conds.append(True if i == n else beq(nxt, 10) if i == n - 1 else False)
        if flags & 48:
            a = is_word(prev) if prev is not None else False
            b = is_word(nxt) if nxt is not None else False
            w = Not(_iff(a, b))
            if flags & 16:
                conds.append(w)
            if flags & 32:
                conds.append(Not(w))
        return And(conds)

    matched = []
    states = [dict() for _ in range(n + 1)]

    def add(i, pc, cond, seen):
        if conc_bool(cond) is False or pc in seen:
            return
        op, out, arg, _ = inst[pc]
        seen = seen | {pc}
        if op in (OP_ALT, OP_ALTMATCH):
            add(i, out, cond, seen)
            add(i, arg, cond, seen)
        elif op in (OP_CAPTURE, OP_NOP):
            add(i, out, cond, seen)
        elif op == OP_EMPTY:
            add(i, out, And(cond, empty_ok(arg, i)), seen)
        elif op == OP_MATCH:
            if not full or i == n:
                matched.append(cond)
        elif op == OP_FAIL:
            return
        else:
            states[i].setdefault(pc, []).append(cond)

    starts = [i == 0 for i in range(n + 1)]      # rune boundaries reachable from 0
    starts = [True] + [False] * n
    steps = []
    for i in range(n):
        st = rune_steps(bs, i) if not prog.get('bytewise') else [(1, z32(bs[i]), True)]
        steps.append(st)
        if conc_bool(starts[i]) is False:
            continue
        for w, r, c in st:
            starts[i + w] = Or(starts[i + w], And(starts[i], c))
    for i in range(n + 1):
        if i == 0:
            add(0, prog['start'], True, frozenset())
        elif not anchored:
            add(i, prog['start'], starts[i], frozenset())
        if i == n:
            break
        for pc, conds in states[i].items():
            c = Or(conds)
            for w, r, wc in steps[i]:
                ri = rune_in(r, inst[pc])
                if conc_bool(ri) is False:
                    continue
                add(i + w, inst[pc][1], And(c, wc, ri), frozenset())
    return Or(matched)


def _iff(a, b):
    from .core import Iff
    return Iff(a, b)
