"""Python regular expressions as programs for strs.match, from the parse tree
of Python's own compiler. Character sets are tabulated with the re module."""
import functools
import re
import sys
import warnings

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        from re import _parser as sre_parse, _constants as C
    except ImportError:
        import sre_parse
        import sre_constants as C

from .core import Unsupported
from .strs import OP_ALT, OP_EMPTY, OP_MATCH, OP_FAIL, OP_NOP, OP_RUNE

ALL = None


def everything():
    global ALL
    if ALL is None:
        ALL = ''.join(map(chr, range(0xD800))) + ''.join(map(chr, range(0xE000, 0x110000)))
    return ALL


@functools.lru_cache(None)
def ranges(cls, flags, isbytes):
    """The characters a one-character pattern matches, as [lo, hi, lo, hi...]."""
    out = []
    if isbytes:
        cs = [m.start() for m in re.compile(cls.encode('latin1'), flags).finditer(bytes(range(256)))]
    else:
        cs = [ord(x) for x in re.compile(cls, flags).findall(everything())]
    for c in cs:
        if out and out[-1] == c - 1:
            out[-1] = c
        else:
            out += [c, c]
    return out


def esc(c):
    return '\\x%02x' % c if c < 256 else '\\u%04x' % c if c < 65536 else '\\U%08x' % c


CAT = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_SPACE: r'\S',
       C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}


class Comp:
    def __init__(self, isbytes):
        self.inst, self.isbytes = [], isbytes

    def emit(self, op, out=0, arg=0, runes=()):
        self.inst.append([op, out, arg, list(runes)])
        if len(self.inst) > 4000:
            raise Unsupported('large pattern')
        return len(self.inst) - 1

    def chars(self, cls, flags, k):
        r = ranges(cls, flags & (re.I | re.A | re.S), self.isbytes)
        if not r:
            return self.emit(OP_FAIL)
        return self.emit(OP_RUNE, k, 0, r)

    def seq(self, items, flags, k):
        for op, av in reversed(list(items)):
            k = self.one(op, av, flags, k)
        return k

    def one(self, op, av, fl, k):
        if op is C.LITERAL:
            return self.chars(esc(av), fl, k)
        if op is C.NOT_LITERAL:
            return self.chars('[^%s]' % esc(av), fl, k)
        if op is C.ANY:
            return self.chars('.', fl, k)
        if op is C.IN:
            t = ''
            for o, v in av:
                t += '^' if o is C.NEGATE else esc(v) if o is C.LITERAL else '%s-%s' % (esc(v[0]), esc(v[1])) if o is C.RANGE else CAT[v]
            return self.chars('[%s]' % t, fl, k)
        if op is C.BRANCH:
            alts = [self.seq(x, fl, k) for x in av[1]]
            r = alts[-1]
            for x in reversed(alts[:-1]):
                r = self.emit(OP_ALT, x, r)
            return r
        if op is C.SUBPATTERN:
            _, add, rem, p = av
            return self.seq(p, (fl | add) & ~rem, k)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            if hi is C.MAXREPEAT or hi == sys.maxsize:
                if min(p.getwidth()) == 0 and lo:
                    raise Unsupported('repetition of an empty match')
                loop = self.emit(OP_ALT, 0, k)
                self.inst[loop][1] = self.seq(p, fl, loop)
                r = loop
            else:
                r = k
                for _ in range(hi - lo):
                    r = self.emit(OP_ALT, self.seq(p, fl, r), k)
            for _ in range(lo):
                r = self.seq(p, fl, r)
            return r
        if op is C.AT:
            m = bool(fl & re.M)
            flag = {C.AT_BEGINNING: 1 if m else 4, C.AT_BEGINNING_STRING: 4, C.AT_END: 2 if m else 64, C.AT_END_STRING: 8}.get(av)
            if flag is None:
                if not (self.isbytes or fl & re.A):
                    raise Unsupported('word boundary in a text pattern')
                flag = {C.AT_BOUNDARY: 16, C.AT_NON_BOUNDARY: 32}[av]
            return self.emit(OP_EMPTY, k, flag)
        raise Unsupported('pattern construct %s' % op)


@functools.lru_cache(None)
def program(pat, flags=0):
    t = sre_parse.parse(pat, flags)
    c = Comp(isinstance(pat, bytes))
    m = c.emit(OP_MATCH)
    st = c.seq(t, t.state.flags, m)
    return {'inst': c.inst, 'start': st, 'bytewise': isinstance(pat, bytes)}
