"""Symbolic interpreter of Python source: the functions validator.py generates
and the helpers they call, over abstract messages."""
import ast
import re

import z3

from . import strs
from .core import And, Or, Not, Iff, Ite, is_sym, conc_bool, tobool, Unsupported
from .strs import Str, beq
from .amsg import AMsg, SIGNED, WIDTH
from .desc import pydefault
from .gointrin import TW

F64 = z3.Float64()
RNE = z3.RNE()


class PyExc(Exception):
    """A raised Python exception: class object and arguments."""
    def __init__(self, cls, args=()):
        self.cls, self.xargs = cls, tuple(args)

    def name(self):
        return self.cls.__name__ if isinstance(self.cls, type) else self.cls.name

    def __str__(self):
        return self.name()


def throw(cls, *args):
    raise PyExc(cls, args)


class PStr:
    """Text or bytes with symbolic content; text is held as UTF-8."""
    __slots__ = ('s', 'text')

    def __init__(self, s, text=True):
        self.s, self.text = s, text


class OText:
    """Formatted text nobody looks into."""


class PSet:
    def __init__(self, items=()):
        self.items = list(items)


class PMap:
    def __init__(self, items):
        self.items = items


class PMsg:
    """A message; m is None for the default instance of an absent field."""
    def __init__(self, md, m):
        self.md, self.m = md, m


class PDesc:
    def __init__(self, md):
        self.md = md


class Attr:
    def __init__(self, **k):
        self.__dict__.update(k)


class PRuntimeText:
    """The function text generated for a message type."""
    def __init__(self, full):
        self.full = full


class PClass:
    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns

    def mro(self):
        out = [self]
        for b in self.bases:
            out += b.mro() if isinstance(b, PClass) else [c for c in b.__mro__]
        return out

    def find(self, n):
        for c in self.mro():
            if isinstance(c, PClass) and n in c.ns:
                return c.ns[n]


class PInst:
    def __init__(self, cls):
        self.cls, self.d = cls, {}


class PFunc:
    def __init__(self, node, glob, name):
        self.node, self.glob, self.name = node, glob, name


class PBound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj


_CLASS = {}


def in_class(r, w, n):
    """The character r of w UTF-8 bytes answers true to str.<n>."""
    if (n, w) not in _CLASS:
        lo, hi = {1: (0, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}[w]
        f = {'lower': lambda c: c.islower(), 'upper': lambda c: c.isupper() or c.istitle()}.get(n) or (lambda c: getattr(c, n)())
        out, start = [], None
        for c in range(lo, hi + 2):
            y = c <= hi and not 0xd800 <= c < 0xe000 and f(chr(c))
            if y and start is None:
                start = c
            elif not y and start is not None:
                out.append((start, c - 1))
                start = None
        _CLASS[n, w] = out
    if not is_sym(r):
        return any(a <= r <= b for a, b in _CLASS[n, w])
    return Or([r == a if a == b else z3.And(z3.UGE(r, a), z3.ULE(r, b)) for a, b in _CLASS[n, w]])


class PCached:
    """functools.lru_cache around a function."""
    def __init__(self, f):
        self.f = f


class Native:
    def __init__(self, path):
        self.path = path


class Meth:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Hash:
    def __init__(self, v):
        self.v = v


class Now:
    """time.time() times a power of ten."""
    def __init__(self, scale):
        self.scale = scale


class Regex:
    def __init__(self, pat, flags=0):
        self.pat, self.flags = pat, flags


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


BUILTIN_EXC = {n: getattr(__builtins__, n, None) if not isinstance(__builtins__, dict) else __builtins__.get(n) for n in (
    'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'NameError', 'LookupError', 'RuntimeError',
    'BaseException', 'OverflowError', 'ZeroDivisionError', 'ArithmeticError', 'StopIteration', 'UnicodeError', 'UnicodeDecodeError',
    'UnicodeEncodeError', 'AssertionError', 'NotImplementedError', 'OSError', 'ImportError', 'SyntaxError')}
BUILTINS = ('len', 'str', 'all', 'any', 'set', 'range', 'enumerate', 'isinstance', 'round', 'int', 'float', 'list', 'tuple', 'dict', 'sorted',
            'min', 'max', 'abs', 'repr', 'ord', 'chr', 'bool', 'bytes', 'getattr', 'hasattr', 'hash', 'zip', 'locals', 'globals', 'exec',
            'print', 'sum', 'reversed', 'frozenset', 'type', 'map', 'filter', 'object', 'compile', 'eval', 'divmod', 'callable', 'iter', 'next')
NUMERIC = (int, float, bool)


def isnum(v):
    return isinstance(v, (int, float)) or is_sym(v)


def isstr(v):
    return isinstance(v, (str, PStr)) and (not isinstance(v, PStr) or v.text)


def isbytes(v):
    return isinstance(v, bytes) or isinstance(v, PStr) and not v.text


def S(v):
    """The Str of any text or bytes value."""
    if isinstance(v, PStr):
        return v.s
    return Str(tuple(v.encode('utf8', 'surrogateescape') if isinstance(v, str) else v))


def conc_text(v):
    if isinstance(v, (str, bytes)):
        return v
    if isinstance(v, PStr):
        c = v.s.conc()
        if c is not None:
            return c.decode('utf8', 'surrogateescape') if v.text else c
    return None


def fold(v):
    """Collapses constant symbolic values."""
    if isinstance(v, PStr):
        c = conc_text(v)
        return v if c is None else c
    if is_sym(v) and z3.is_bool(v):
        c = conc_bool(v)
        return v if c is None else c
    return v


def I(v):
    """An integer value as a TW-bit vector."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        if abs(v) >= 1 << (TW - 2):
            raise Unsupported('huge integer')
        return z3.BitVecVal(v, TW)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, TW), z3.BitVecVal(0, TW))
    return v


def isint(v):
    return isinstance(v, int) or is_sym(v) and (z3.is_bool(v) or z3.is_bv(v))


def isfloat(v):
    return isinstance(v, float) or is_sym(v) and z3.is_fp(v)


def F(v):
    if isinstance(v, (float, bool)):
        return z3.FPVal(float(v), F64)
    if isinstance(v, int):
        if float(v) != v:
            raise Unsupported('inexact integer in floating-point comparison')
        return z3.FPVal(float(v), F64)
    if z3.is_fp(v):
        return v
    return z3.fpSignedToFP(RNE, I(v), F64)


def num_cmp(op, a, b):
    if isint(a) and isint(b):
        if isinstance(a, int) and isinstance(b, int):
            return {'==': a == b, '<': a < b, '<=': a <= b}[op]
        if op == '==' and not isinstance(a, int) and not isinstance(b, int) and z3.is_bool(a) and z3.is_bool(b):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and is_sym(y) and z3.is_bool(y) and op == '==':
                return y if x == 1 else Not(y) if x == 0 else False
        # integers outside every field's range compare by sign
        for x, sw in ((a, False), (b, True)):
            if isinstance(x, int) and abs(x) >= 1 << (TW - 3):
                if op == '==':
                    return False
                return (x < 0) != sw
        x, y = I(a), I(b)
        return x == y if op == '==' else x < y if op == '<' else x <= y
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {'==': a == b, '<': a < b, '<=': a <= b}[op]
    # an integer variable against a floating-point constant: exact
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isint(x) and is_sym(x) and isinstance(y, float):
            import math
            if y != y:
                return False
            if math.isinf(y):
                return False if op == '==' else (y > 0) != sw
            fl = math.floor(y)
            if fl == y:
                return num_cmp(op, fl, x) if sw else num_cmp(op, x, fl)
            if op == '==':
                return False
            return Not(num_cmp('<=', x, fl)) if sw else num_cmp('<=', x, fl)
    if isint(a) and is_sym(a) and not z3.is_bool(a) or isint(b) and is_sym(b) and not z3.is_bool(b):
        raise Unsupported('integer variable against floating-point variable')
    x, y = F(a), F(b)
    return z3.fpEQ(x, y) if op == '==' else z3.fpLT(x, y) if op == '<' else z3.fpLEQ(x, y)


class Py:
    """One execution: module globals from validator.py, texts = {full: source
    of the generated function}."""

    def __init__(self, mod, ctx, pool, hooks):
        self.ctx, self.pool, self.hooks = ctx, pool, hooks
        self.env = {}
        self.steps = 0
        self.depth = 0
        self.caches = {}
        self.mod = mod
        self.glob = {}
        self.functions = set()
        for n in mod.body:
            self.define(n)

    def define(self, n):
        g = self.glob
        if isinstance(n, ast.Import):
            for a in n.names:
                g[a.asname or a.name.split('.')[0]] = Native(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                g[a.asname or a.name] = Native('%s.%s' % (n.module, a.name))
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Assign, ast.AnnAssign, ast.If, ast.Try)):
            try:
                self.stmt(n, Frame(self, self.glob, self.glob))
            except (Unsupported, PyExc):
                pass

    # ---- messages ------------------------------------------------------
    def default(self, f):
        return pydefault(self.pool, f)

    def wrap(self, f, v):
        t = f.type
        if t == 'message':
            return PMsg(self.pool.messages[f.type_name], v)
        if t in WIDTH:
            if isinstance(v, int):
                return v
            return z3.SignExt(TW - WIDTH[t], v) if t in SIGNED else z3.ZeroExt(TW - WIDTH[t], v)
        if t == 'float':
            return z3.fpFPToFP(RNE, v, F64)
        if t in ('string', 'bytes'):
            return PStr(v, t == 'string')
        return v

    def read(self, p, n):
        f = next((f for f in p.md.fields if f.name == n), None)
        if f is None:
            throw(AttributeError, n)
        v = p.m.f.get(n) if p.m is not None else None
        kv = self.pool.map_kv(f)
        if kv:
            return PMap([(self.wrap(kv[0], k), self.wrap(kv[1], x)) for k, x in v or []])
        if f.repeated:
            return [self.wrap(f, x) for x in v or []]
        if f.type == 'message':
            return self.wrap(f, v)
        if v is None:
            return self.default(f)
        return self.wrap(f, v)

    def hasfield(self, p, n):
        f = next((f for f in p.md.fields if f.name == n), None)
        if f is None:
            o = next((o for o in p.md.oneofs if o.name == n), None)
            if o is None:
                throw(ValueError, 'no field')
            return p.m is not None and p.m.sel.get(n) is not None
        if f.repeated:
            throw(ValueError, 'no presence')
        if f.oneof is not None:
            return p.m is not None and p.m.sel.get(p.md.oneofs[f.oneof].name) == n
        if f.type == 'message':
            return p.m is not None and p.m.f.get(n) is not None
        if f.presence:
            return p.m is not None and n not in p.m.unset
        throw(ValueError, 'no presence')

    # ---- values --------------------------------------------------------
    def truth(self, v):
        """The truth value as a boolean or a term, without forking."""
        v = fold(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, list, tuple, dict)):
            return bool(v)
        if is_sym(v):
            if z3.is_bool(v):
                return v
            if z3.is_fp(v):
                return z3.Not(z3.fpIsZero(v))
            return v != 0
        if isinstance(v, PStr):
            return len(v.s) > 0
        if isinstance(v, (PSet, PMap)):
            return bool(v.items)
        if isinstance(v, range):
            return len(v) > 0
        return True

    def test(self, v):
        return self.ctx.decide(self.truth(v))

    def eq(self, a, b):
        a, b = fold(a), fold(b)
        if a is b and not isfloat(a):
            return True
        if isnum(a) and isnum(b):
            return num_cmp('==', a, b)
        if isstr(a) and isstr(b) or isbytes(a) and isbytes(b):
            if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
                return a == b
            return strs.eq(S(a), S(b))
        if isinstance(a, OText) or isinstance(b, OText):
            raise Unsupported('comparison of formatted text')
        for k in ((list,), (tuple,)):
            if isinstance(a, k) and isinstance(b, k):
                return len(a) == len(b) and And([True] + [self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Hash) and isinstance(b, Hash):
            return self.eq(a.v, b.v)
        if isinstance(a, PInst):
            f = a.cls.find('__eq__')
            if f:
                return self.truth(self.call(f, [a, b]))
            return a is b
        if isinstance(b, PInst) and b.cls.find('__eq__'):
            return self.truth(self.call(b.cls.find('__eq__'), [b, a]))
        if isinstance(a, Now) or isinstance(b, Now):
            raise Unsupported('clock value comparison')
        if isinstance(a, PMsg) and isinstance(b, PMsg):
            raise Unsupported('message equality')
        if isinstance(a, (PSet, PMap)) or isinstance(b, (PSet, PMap)):
            raise Unsupported('container equality')
        if isinstance(a, dict) and isinstance(b, dict):
            return a == b
        if isinstance(a, PClass) or isinstance(b, PClass):
            return a is b
        return False

    def less(self, op, a, b):
        a, b = fold(a), fold(b)
        if isnum(a) and isnum(b):
            return num_cmp(op, a, b)
        if isstr(a) and isstr(b) or isbytes(a) and isbytes(b):
            if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
                return a < b if op == '<' else a <= b
            return strs.lt(S(a), S(b)) if op == '<' else Not(strs.lt(S(b), S(a)))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b):
            r = len(a) < len(b) if op == '<' else len(a) <= len(b)
            for x, y in reversed(list(zip(a, b))):
                r = Or(self.less('<', x, y), And(self.eq(x, y), r))
            return r
        if isinstance(a, (Now, OText)) or isinstance(b, (Now, OText)):
            raise Unsupported('comparison of %s' % type(a).__name__)
        throw(TypeError, 'unorderable')

    def contains(self, c, x):
        c, x = fold(c), fold(x)
        if isinstance(c, (list, tuple)):
            return Or([False] + [self.eq(x, y) for y in c])
        if isinstance(c, PSet):
            self.hashable(x)
            return Or([False] + [self.eq(x, y) for y in c.items])
        if isinstance(c, (set, frozenset)):
            return Or([False] + [self.eq(x, y) for y in c])
        if isinstance(c, PMap):
            return Or([False] + [self.eq(x, k) for k, _ in c.items])
        if isinstance(c, dict):
            return Or([False] + [self.eq(x, k) for k in c])
        if isstr(c):
            if not isstr(x):
                throw(TypeError, 'in <string> requires string')
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return self.substr(S(c), S(x))
        if isbytes(c):
            if isint(x):
                return Or([False] + [num_cmp('==', z3.ZeroExt(TW - 8, strs.bv8(y)), x) for y in S(c).b])
            if not isbytes(x):
                throw(TypeError, 'a bytes-like object is required')
            return self.substr(S(c), S(x))
        if isinstance(c, range):
            raise Unsupported('in range')
        throw(TypeError, 'argument is not iterable')

    def substr(self, a, p):
        return strs.contains(a, p)

    def hashable(self, v):
        if isinstance(v, (PMsg, list, PSet, PMap, dict)):
            throw(TypeError, 'unhashable type')

    def compare(self, op, a, b):
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            a, b = fold(a), fold(b)
            if a is None or b is None:
                r = a is b
            elif isinstance(a, bool) or isinstance(b, bool):
                r = isinstance(a, bool) and isinstance(b, bool) and a is b
                if is_sym(a) and z3.is_bool(a) or is_sym(b) and z3.is_bool(b):
                    r = Iff(a, b)
            else:
                r = a is b
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(a, b))
        if isinstance(op, ast.Lt):
            return self.less('<', a, b)
        if isinstance(op, ast.LtE):
            return self.less('<=', a, b)
        if isinstance(op, ast.Gt):
            return self.less('<', b, a)
        if isinstance(op, ast.GtE):
            return self.less('<=', b, a)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(b, a))
        raise Unsupported('comparison')

    def runes(self, v):
        """Text as one-character values."""
        if isinstance(v, str):
            return list(v)
        out, i, bs = [], 0, v.s.b
        while i < len(bs):
            _, w = strs.decode_rune(self.ctx, bs, i)
            out.append(fold(PStr(Str(bs[i:i + w]))))
            i += w
        return out

    def iterate(self, v):
        v = fold(v)
        if isinstance(v, (list, tuple, range, str, set, frozenset)):
            return list(v)
        if isinstance(v, (dict,)):
            return list(v)
        if isinstance(v, PSet):
            return list(v.items)
        if isinstance(v, PMap):
            return [k for k, _ in v.items]
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, PStr):
            if v.text:
                return self.runes(v)
            return [x if isinstance(x, int) else z3.ZeroExt(TW - 8, x) for x in v.s.b]
        throw(TypeError, 'not iterable')

    def length(self, v):
        v = fold(v)
        if isinstance(v, (list, tuple, range, str, bytes, dict, set, frozenset)):
            return len(v)
        if isinstance(v, (PSet, PMap)):
            return len(v.items)
        if isinstance(v, PStr):
            if not v.text:
                return len(v.s)
            n = strs.rune_count(v.s)
            if isinstance(n, int):
                return n
            return z3.ZeroExt(TW - n.size(), n)
        throw(TypeError, 'object has no len()')

    def index(self, v, i):
        v = fold(v)
        if isinstance(v, PMap):
            for k, x in v.items:
                if k is i or self.ctx.decide(self.eq(k, i)):
                    return x
            raise Unsupported('map access creates an entry')
        if isinstance(v, dict):
            for k, x in v.items():
                if self.ctx.decide(self.eq(k, i)):
                    return x
            throw(KeyError, 'key')
        if isinstance(i, slice):
            if isinstance(v, PStr):
                if not v.text:
                    return fold(PStr(Str(v.s.b[i]), False))
                if self.ascii(v):
                    return fold(PStr(Str(v.s.b[i])))
                rs = self.runes(v)[i]
                return fold(PStr(Str(tuple(b for r in rs for b in S(r).b))))
            if isinstance(v, (str, bytes, list, tuple)):
                return v[i]
            raise Unsupported('slice')
        if not isinstance(i, int):
            if isinstance(v, (list, tuple, str, bytes, PStr)) and not isint(i):
                throw(TypeError, 'indices must be integers')
            raise Unsupported('symbolic index')
        xs = self.iterate(v) if isinstance(v, PStr) else v
        if not isinstance(xs, (list, tuple, str, bytes)):
            throw(TypeError, 'not subscriptable')
        if not -len(xs) <= i < len(xs):
            throw(IndexError, 'index out of range')
        return xs[i]

    def ascii(self, v):
        return all(isinstance(b, int) and b < 128 for b in v.s.b)

    # ---- arithmetic ------------------------------------------------------
    def binop(self, op, a, b):
        a, b = fold(a), fold(b)
        conc = (int, float, str, bytes, tuple, list)
        if isinstance(a, conc) and isinstance(b, conc) and not (isinstance(a, str) and isinstance(op, ast.Mod)):
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                 ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b,
                 ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitXor: lambda: a ^ b}.get(type(op))
            try:
                return f()
            except Exception as e:
                raise PyExc(type(e))
        if isinstance(op, ast.Mod) and (isstr(a) or isinstance(a, OText)):
            return OText()
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PRuntimeText) and isinstance(y, str) and isinstance(op, ast.Add):
                return x if not y.strip() else OText()
        if isinstance(a, (OText, PRuntimeText)) or isinstance(b, (OText, PRuntimeText)):
            return OText()
        if isinstance(op, ast.Add) and (isstr(a) and isstr(b) or isbytes(a) and isbytes(b)):
            return PStr(Str(S(a).b + S(b).b), isstr(a))
        if isinstance(a, Now) or isinstance(b, Now):
            x, y = (a, b) if isinstance(a, Now) else (b, a)
            if isinstance(op, ast.Mult) and isinstance(y, (int, float)):
                return Now(x.scale * y)
            raise Unsupported('arithmetic on the clock')
        if not (isnum(a) and isnum(b)):
            throw(TypeError, 'unsupported operand types')
        if isint(a) and isint(b):
            x, y = I(a), I(b)
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult) and (isinstance(a, int) or isinstance(b, int)):
                return x * y
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, int) and b > 0:
                r = z3.SRem(x, y)
                r = z3.If(r < 0, r + y, r)
                return r if isinstance(op, ast.Mod) else (x - r) / y
            raise Unsupported('integer %s' % type(op).__name__)
        x, y = F(a), F(b)
        if isinstance(op, ast.Add):
            return z3.fpAdd(RNE, x, y)
        if isinstance(op, ast.Sub):
            return z3.fpSub(RNE, x, y)
        if isinstance(op, ast.Mult):
            return z3.fpMul(RNE, x, y)
        if isinstance(op, ast.Div):
            return z3.fpDiv(RNE, x, y)
        raise Unsupported('float %s' % type(op).__name__)

    # ---- calls -----------------------------------------------------------
    def call(self, f, args, kw=None):
        kw = kw or {}
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('step limit')
        if isinstance(f, PBound):
            return self.call(f.f, [f.obj] + list(args), kw)
        if isinstance(f, PFunc):
            return self.func(f, args, kw)
        if isinstance(f, PCached):
            ent = self.caches.setdefault(id(f), [])
            if kw:
                raise Unsupported('cached call with keywords')
            hs = [self.hash(a) for a in args]
            for a2, h2, r in ent:
                same = True
                for x, hx, y, hy in zip(args, hs, a2, h2):
                    if not (x is y or self.ctx.decide(self.eq(hx, hy)) and self.ctx.decide(self.eq(y, x))):
                        same = False
                        break
                if same and len(a2) == len(args):
                    return r
            r = self.call(f.f, args)
            ent.append((args, hs, r))
            return r
        if isinstance(f, PClass):
            if any(c in (BaseException,) for c in f.mro() if isinstance(c, type)):
                o = PInst(f)
                o.d['args'] = tuple(args)
                return o
            o = PInst(f)
            init = f.find('__init__')
            if init:
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, list(args), kw)
        if isinstance(f, Native):
            return self.native(f.path, list(args), kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            o = PInst(PClass(f.__name__, [f], {}))
            o.d['args'] = tuple(args)
            o.exc = f
            return o
        throw(TypeError, 'not callable')

    def func(self, f, args, kw):
        n = f.node
        if f.name in self.hooks['renders']:
            if args and isinstance(args[0], PInst):
                d = args[0].d.get('DESCRIPTOR')
            elif args and isinstance(args[0], PMsg):
                d = PDesc(args[0].md)
            else:
                raise Unsupported('template rendered for %s' % f.name)
            if not isinstance(d, PDesc) or len(args) != 1:
                raise Unsupported('template rendered for %s' % f.name)
            return PRuntimeText(d.md.full)
        self.functions.add(f.name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        a = n.args
        loc = {}
        fr = Frame(self, f.glob, loc)
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            throw(TypeError, 'too many arguments')
        loc.update(zip(names, args))
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(names):])
        for k, v in kw.items():
            loc[k] = v
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in loc:
                loc[x] = self.ev(d, Frame(self, f.glob, f.glob))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc and d is not None:
                loc[x.arg] = self.ev(d, Frame(self, f.glob, f.glob))
        if any(x not in loc for x in names):
            throw(TypeError, 'missing argument')
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, fr)
            self.block(n.body, fr)
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def hash(self, v):
        v = fold(v)
        if isinstance(v, PInst):
            f = v.cls.find('__hash__')
            if f:
                return self.call(f, [v])
            return Hash(v)
        self.hashable(v)
        return Hash(v)

    def exec_text(self, t, glob, loc):
        if isinstance(t, PRuntimeText):
            src = self.hooks['texts'].get(t.full)
            if src is None:
                raise Unsupported('no text for %s' % t.full)
            if src[0] != 1:
                throw(RuntimeError, src[1])
            tree = self.hooks['parse'](t.full, src[1])
            if isinstance(tree, str):
                throw(SyntaxError, tree)
            self.functions.add('generate_validate[%s]' % t.full)
        elif isinstance(t, str):
            tree = ast.parse(t)
        else:
            raise Unsupported('exec of %s' % type(t).__name__)
        fr = Frame(self, glob, loc)
        for n in tree.body:
            self.stmt(n, fr)

    def native(self, p, a, kw):
        h = NATIVE.get(p)
        if h is None:
            raise Unsupported('call of %s' % p)
        return h(self, a, kw)

    def getattr(self, o, n):
        o = fold(o)
        if isinstance(o, PMsg):
            if n == 'DESCRIPTOR':
                return PDesc(o.md)
            if n in ('HasField', 'WhichOneof', 'ListFields', 'ByteSize', 'SerializeToString'):
                return Meth(o, n)
            return self.read(o, n)
        if isinstance(o, PDesc):
            md = o.md
            if n == 'full_name':
                return md.full[1:]
            if n == 'name':
                return md.name
            if n == 'fields':
                return [Attr(name=f.name, number=f.number) for f in md.fields]
            if n == 'fields_by_name':
                return {f.name: Attr(name=f.name, number=f.number) for f in md.fields}
            if n == 'oneofs_by_name':
                return {x.name: Attr(name=x.name) for x in md.oneofs}
            if n == 'file':
                return Attr(name=md.file.name, package=md.file.package)
            raise Unsupported('descriptor attribute %s' % n)
        if isinstance(o, Attr):
            if n in o.__dict__:
                return o.__dict__[n]
            raise Unsupported('attribute %s' % n)
        if isinstance(o, PInst):
            if n in o.d:
                return o.d[n]
            f = o.cls.find(n)
            if f is not None:
                return PBound(f, o)
            throw(AttributeError, n)
        if isinstance(o, Native):
            return Native(o.path + '.' + n)
        if isinstance(o, PClass):
            f = o.find(n)
            if f is not None:
                return f
            raise Unsupported('class attribute %s' % n)
        if isinstance(o, (str, bytes, PStr, list, PSet, PMap, dict, tuple, OText, Regex)):
            return Meth(o, n)
        if isinstance(o, Url):
            return o.attr(self, n)
        if o is None or isnum(o):
            throw(AttributeError, n)
        raise Unsupported('attribute %s of %s' % (n, type(o).__name__))

    def method(self, o, n, a, kw):
        o = fold(o)
        if isinstance(o, PMsg):
            if n == 'HasField':
                return self.hasfield(o, conc_text(a[0]))
            if n == 'WhichOneof':
                return o.m.sel.get(conc_text(a[0])) if o.m is not None else None
            raise Unsupported('message method %s' % n)
        if isinstance(o, Regex):
            return self.regex(n, o.pat, a[0], o.flags)
        if isinstance(o, PSet):
            if n == 'add':
                self.hashable(a[0])
                o.items.append(a[0])
                return None
            raise Unsupported('set method %s' % n)
        if isinstance(o, PMap):
            if n == 'keys':
                return [k for k, _ in o.items]
            if n == 'values':
                return [v for _, v in o.items]
            if n == 'items':
                return list(o.items)
            raise Unsupported('map method %s' % n)
        if isinstance(o, dict):
            if n == 'get':
                for k, x in o.items():
                    if self.ctx.decide(self.eq(k, a[0])):
                        return x
                return a[1] if len(a) > 1 else None
            if n in ('keys', 'values'):
                return list(getattr(o, n)())
            if n == 'items':
                return [(k, v) for k, v in o.items()]
            raise Unsupported('dict method %s' % n)
        if isinstance(o, list):
            if n == 'append':
                o.append(a[0])
                return None
            if n == 'count':
                r = 0
                for x in o:
                    r = self.binop(ast.Add(), r, self.eq(x, a[0]))
                return r
            raise Unsupported('list method %s' % n)
        if isinstance(o, OText):
            return OText()
        if isinstance(o, (str, bytes)) and all(isinstance(x, (str, bytes, int, tuple, type(None))) for x in map(fold, a)) and not kw:
            try:
                return getattr(o, n)(*[fold(x) for x in a])
            except AttributeError:
                throw(AttributeError, n)
            except Exception as e:
                raise PyExc(type(e))
        if isinstance(o, (str, bytes, PStr)):
            return self.strmeth(o, n, [fold(x) for x in a], kw)
        throw(AttributeError, n)

    def strmeth(self, o, n, a, kw):
        s, text = S(o), isstr(o)
        sub = lambda i, j: fold(PStr(Str(s.b[i:j]), text))
        if n in ('startswith', 'endswith'):
            ps = a[0] if isinstance(a[0], tuple) else (a[0],)
            for p in ps:
                if (isstr(p) if text else isbytes(p)) is False:
                    throw(TypeError, n)
            if len(a) > 1:
                raise Unsupported('startswith with bounds')
            return Or([False] + [(strs.has_prefix if n == 'startswith' else strs.has_suffix)(s, S(p)) for p in ps])
        if n == 'encode' and text:
            enc = a[0] if a else kw.get('encoding', 'utf-8')
            if str(enc).lower().replace('-', '').replace('_', '') != 'utf8':
                raise Unsupported('encoding %s' % enc)
            return PStr(s, False)
        if n == 'format':
            return OText()
        if n == 'isascii':
            return And([True] + [strs.rng(x, 0, 127) for x in s.b])
        if n in ('split', 'partition', 'rpartition', 'rsplit', 'find', 'index', 'count', 'replace', 'rfind'):
            sep = conc_text(a[0]) if a else None
            if sep is None or len(sep) == 0:
                raise Unsupported(n)
            sb = S(sep)
            if len(sb) != 1 and n not in ('split', 'find', 'index', 'partition'):
                raise Unsupported(n)
            if text and any(b >= 128 for b in sb.b) and n in ('find', 'index', 'rfind'):
                raise Unsupported(n)
            maxs = a[1] if len(a) > 1 else kw.get('maxsplit', -1)
            hits, i = [], 0
            limit = maxs if n == 'split' and maxs >= 0 else 1 if n in ('partition', 'find', 'index') else 1 << 30
            while i + len(sb) <= len(s.b) and len(hits) < limit:
                if self.ctx.decide(strs.at(s, i, sb)):
                    hits.append(i)
                    i += len(sb)
                else:
                    i += 1
            if n == 'split':
                out, p = [], 0
                for h in hits:
                    out.append(sub(p, h))
                    p = h + len(sb)
                return out + [sub(p, None)]
            if n == 'rsplit':
                if maxs >= 0:
                    hits = hits[len(hits) - min(maxs, len(hits)):]
                out, p = [], 0
                for h in hits:
                    out.append(sub(p, h))
                    p = h + len(sb)
                return out + [sub(p, None)]
            if n == 'partition':
                return (sub(0, hits[0]), sep, sub(hits[0] + len(sb), None)) if hits else (o, type(sep)(), type(sep)())
            if n == 'rpartition':
                return (sub(0, hits[-1]), sep, sub(hits[-1] + len(sb), None)) if hits else (type(sep)(), type(sep)(), o)
            if n == 'count':
                return len(hits)
            if n in ('find', 'index', 'rfind'):
                if not hits:
                    if n == 'index':
                        throw(ValueError, 'substring not found')
                    return -1
                h = hits[0] if n != 'rfind' else hits[-1]
                return h if not text else self.length(PStr(Str(s.b[:h])))
            new = S(a[1]).b
            out, p = (), 0
            for h in hits:
                out += s.b[p:h] + new
                p = h + len(sb)
            return fold(PStr(Str(out + s.b[p:]), text))
        if n in ('strip', 'rstrip', 'lstrip') and a and conc_text(a[0]) is not None:
            cs = S(a[0]).b
            if any(c >= 128 for c in cs):
                raise Unsupported(n)
            i, j = 0, len(s.b)
            if n != 'lstrip':
                while j > i and self.ctx.decide(Or([beq(s.b[j - 1], c) for c in cs])):
                    j -= 1
            if n != 'rstrip':
                while i < j and self.ctx.decide(Or([beq(s.b[i], c) for c in cs])):
                    i += 1
            return sub(i, j)
        if n == 'isascii':
            return And([strs.rng(x, 0, 127) for x in s.b])
        if n in ('isalnum', 'isalpha', 'isdigit', 'islower', 'isupper', 'isnumeric', 'isdecimal', 'isspace', 'isprintable'):
            if len(s.b) == 0:
                return n == 'isprintable'
            cased = n in ('islower', 'isupper')
            if not text:
                if cased:
                    raise Unsupported(n)
                t = [c for c in range(128) if getattr(bytes([c]), n)()]
                return And([Or([beq(x, c) for c in t]) for x in s.b])
            i, al, an = 0, True, False
            while i < len(s.b):
                r, w = strs.decode_rune(self.ctx, s.b, i)
                i += w
                if cased:
                    # no character of the other case or in title case, and one of this case
                    al = And(al, Not(in_class(r, w, 'upper' if n == 'islower' else 'lower')))
                    an = Or(an, in_class(r, w, n[2:]))
                else:
                    al = And(al, in_class(r, w, n))
            return And(al, an) if cased else al
        if n in ('lower', 'upper'):
            out = []
            for x in s.b:
                if not self.ctx.decide(strs.rng(x, 0, 127)):
                    raise Unsupported('%s of non-ASCII text' % n)
                if isinstance(x, int):
                    out.append(ord(getattr(chr(x), n)()))
                else:
                    up = z3.And(z3.UGE(x, 65), z3.ULE(x, 90)) if n == 'lower' else z3.And(z3.UGE(x, 97), z3.ULE(x, 122))
                    out.append(z3.If(up, x ^ 32, x))
            return fold(PStr(Str(tuple(out)), text))
        if n in ('join',):
            raise Unsupported('join')
        if hasattr('' if text else b'', n):
            raise Unsupported('%s method %s' % ('str' if text else 'bytes', n))
        throw(AttributeError, n)

    def regex(self, kind, pat, text, flags=0):
        pat, text = fold(pat), fold(text)
        if conc_text(pat) is None:
            raise Unsupported('symbolic pattern')
        pat = conc_text(pat)
        if not (isinstance(text, (str, bytes, PStr))):
            throw(TypeError, 'expected string or bytes-like object')
        if isinstance(pat, str) != isstr(text):
            throw(TypeError, 'cannot use a string pattern on a bytes-like object')
        from . import pyre
        try:
            prog = pyre.program(pat, flags)
        except re.error as e:
            raise PyExc(re.error)
        r = strs.match(prog, S(text).b, anchored=kind in ('match', 'fullmatch'), full=kind == 'fullmatch')
        if kind not in ('search', 'match', 'fullmatch'):
            raise Unsupported('re.%s' % kind)
        return Attr(match=True) if self.ctx.decide(r) else None

    # ---- statements --------------------------------------------------------
    def block(self, body, fr):
        for n in body:
            self.stmt(n, fr)

    def stmt(self, n, fr):
        self.steps += 1
        t = type(n)
        if t is ast.Expr:
            if isinstance(n.value, ast.Constant):
                return
            self.ev(n.value, fr)
        elif t is ast.If:
            self.block(n.body if self.ctx.decide(self.cond(n.test, fr)) else n.orelse, fr)
        elif t is ast.Return:
            raise _Ret(self.ev(n.value, fr) if n.value else None)
        elif t is ast.Raise:
            if n.exc is None:
                if fr.exc is None:
                    throw(RuntimeError, 'no active exception')
                raise fr.exc
            self.throw_value(self.ev(n.exc, fr))
        elif t is ast.Assign:
            v = self.ev(n.value, fr)
            for x in n.targets:
                self.assign(x, v, fr)
        elif t is ast.AnnAssign:
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, fr), fr)
        elif t is ast.AugAssign:
            if isinstance(n.target, ast.Name):
                cur = fr.get(n.target.id)
            else:
                cur = self.ev(ast.copy_location(type(n.target)(**{**dict(ast.iter_fields(n.target)), 'ctx': ast.Load()}), n.target), fr)
            v = self.ev(n.value, fr)
            if isinstance(cur, PRuntimeText) or isinstance(v, PRuntimeText):
                v = OText()
            elif isinstance(cur, str) and isinstance(v, OText):
                pass
            else:
                v = self.binop(n.op, cur, v)
            self.assign(n.target, v, fr)
        elif t is ast.For:
            broke = False
            for x in self.iterate(self.ev(n.iter, fr)):
                self.assign(n.target, x, fr)
                try:
                    self.block(n.body, fr)
                except _Brk:
                    broke = True
                    break
                except _Cont:
                    continue
            if not broke:
                self.block(n.orelse, fr)
        elif t is ast.While:
            k = 0
            broke = False
            while self.ctx.decide(self.cond(n.test, fr)):
                k += 1
                if k > 400:
                    raise Unsupported('loop bound')
                try:
                    self.block(n.body, fr)
                except _Brk:
                    broke = True
                    break
                except _Cont:
                    continue
            if not broke:
                self.block(n.orelse, fr)
        elif t is ast.Try:
            try:
                self.attempt(n, fr)
            finally:
                import sys
                e = sys.exc_info()[1]
                if n.finalbody and (e is None or isinstance(e, (PyExc, _Ret, _Brk, _Cont))):
                    self.block(n.finalbody, fr)
        elif t is ast.FunctionDef:
            v = PFunc(n, fr.glob, n.name)
            for d in reversed(n.decorator_list):
                dn = self.ev(d.func, fr) if isinstance(d, ast.Call) else self.ev(d, fr)
                if isinstance(dn, Native) and dn.path in ('functools.lru_cache', 'functools.cache'):
                    v = PCached(v)
                else:
                    raise Unsupported('decorator')
            fr.set(n.name, v)
        elif t is ast.ClassDef:
            ns = {}
            sub = Frame(self, fr.glob, ns)
            self.block(n.body, sub)
            fr.set(n.name, PClass(n.name, [self.cls(self.ev(b, fr)) for b in n.bases] or [object], ns))
        elif t is ast.Global:
            fr.globals.update(n.names)
        elif t in (ast.Pass, ast.Nonlocal):
            pass
        elif t is ast.Break:
            raise _Brk()
        elif t is ast.Continue:
            raise _Cont()
        elif t is ast.Import or t is ast.ImportFrom:
            for a in n.names:
                p = a.name if t is ast.Import else '%s.%s' % (n.module, a.name)
                fr.set(a.asname or a.name.split('.')[0], Native(p))
        elif t is ast.Assert:
            if not self.test(self.ev(n.test, fr)):
                throw(AssertionError)
        elif t is ast.Delete:
            raise Unsupported('del')
        else:
            raise Unsupported('statement %s' % t.__name__)

    def cls(self, v):
        if isinstance(v, Native):
            return object
        return v

    def throw_value(self, v):
        if isinstance(v, PInst):
            raise PyExc(getattr(v, 'exc', None) or v.cls, v.d.get('args', ()))
        if isinstance(v, PClass) or isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v)
        if isinstance(v, Native):
            raise PyExc(Exception)
        throw(TypeError, 'exceptions must derive from BaseException')

    def matches(self, e, h, fr):
        if h.type is None:
            return True
        c = self.ev(h.type, fr)
        for k in c if isinstance(c, tuple) else (c,):
            mro = e.cls.mro() if isinstance(e.cls, PClass) else list(e.cls.__mro__)
            if k in mro:
                return True
            if isinstance(k, Native):
                if k.path in ('re.error', 'struct.error'):
                    if re.error in mro and k.path == 're.error':
                        return True
                    continue
                if k.path == 'ipaddress.AddressValueError' and ValueError in mro:
                    raise Unsupported('AddressValueError')
                raise Unsupported('except %s' % k.path)
        return False

    def attempt(self, n, fr):
        depth = self.depth
        try:
            self.block(n.body, fr)
        except PyExc as e:
            self.depth = depth
            for h in n.handlers:
                if self.matches(e, h, fr):
                    if h.name:
                        o = PInst(e.cls if isinstance(e.cls, PClass) else PClass(e.cls.__name__, [e.cls], {}))
                        o.d['args'] = e.xargs
                        if not isinstance(e.cls, PClass):
                            o.exc = e.cls
                        fr.set(h.name, o)
                    old, fr.exc = fr.exc, e
                    self.block(h.body, fr)
                    fr.exc = old
                    return
            raise
        self.block(n.orelse, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.iterate(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            if len(xs) != len(t.elts):
                throw(ValueError, 'unpack')
            for a, b in zip(t.elts, xs):
                self.assign(a, b, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if not isinstance(o, PInst):
                raise Unsupported('attribute assignment')
            o.d[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = fold(self.ev(t.slice, fr))
            if isinstance(o, dict) and isinstance(k, (str, int, bytes)):
                o[k] = v
            elif isinstance(o, list) and isinstance(k, int):
                o[k] = v
            else:
                raise Unsupported('item assignment')
        else:
            raise Unsupported('assignment target')

    # ---- expressions -----------------------------------------------------
    def pure(self, n):
        """Evaluation can neither raise nor have an effect nor fork."""
        if isinstance(n, ast.Compare):
            return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.In, ast.NotIn)) for o in n.ops) and all(
                self.simple(x) for x in [n.left] + n.comparators)
        if isinstance(n, ast.BoolOp):
            return all(self.pure(x) for x in n.values)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.pure(n.operand)
        return False

    def simple(self, n):
        if isinstance(n, (ast.Constant,)):
            return True
        if isinstance(n, ast.Name):
            return True
        if isinstance(n, (ast.List, ast.Tuple)):
            return all(self.simple(x) for x in n.elts)
        if isinstance(n, ast.Attribute):
            return self.simple(n.value)
        if isinstance(n, ast.UnaryOp):
            return self.simple(n.operand)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            return self.simple(n.left) and self.simple(n.right)
        return False

    def cond(self, n, fr):
        """A condition as a boolean term, joining pure operands."""
        if isinstance(n, ast.BoolOp) and self.pure(n):
            try:
                vs = [self.cond(x, fr) for x in n.values]
                return (And if isinstance(n.op, ast.And) else Or)(vs)
            except PyExc:
                pass
        if isinstance(n, ast.BoolOp):
            for i, x in enumerate(n.values):
                c = self.cond(x, fr)
                if i == len(n.values) - 1:
                    return c
                if self.ctx.decide(c) == isinstance(n.op, ast.Or):
                    return isinstance(n.op, ast.Or)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return Not(self.cond(n.operand, fr))
        return self.truth(self.ev(n, fr))

    def ev(self, n, fr):
        t = type(n)
        if t is ast.Constant:
            return n.value
        if t is ast.Name:
            return fr.get(n.id)
        if t is ast.Attribute:
            return self.getattr(self.ev(n.value, fr), n.attr)
        if t is ast.Call:
            f = self.ev(n.func, fr)
            args = []
            if isinstance(f, Native) and f.path in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
                return self.quantify(f.path, n.args[0], fr)
            for x in n.args:
                if isinstance(x, ast.Starred):
                    args += self.iterate(self.ev(x.value, fr))
                else:
                    args.append(self.ev(x, fr))
            kw = {k.arg: self.ev(k.value, fr) for k in n.keywords}
            if None in kw:
                raise Unsupported('**kwargs')
            if isinstance(f, Native) and f.path in ('locals', 'globals', 'exec', 'eval'):
                return self.scope(f.path, args, fr)
            return self.call(f, args, kw)
        if t is ast.Compare:
            a = self.ev(n.left, fr)
            r = True
            for op, x in zip(n.ops, n.comparators):
                b = self.ev(x, fr)
                c = self.compare(op, a, b)
                r = And(r, c)
                if conc_bool(r) is False:
                    return False
                a = b
            return r
        if t is ast.BoolOp:
            if self.pure(n):
                return self.cond(n, fr)
            for i, x in enumerate(n.values):
                v = self.ev(x, fr)
                if i == len(n.values) - 1 or self.test(v) == isinstance(n.op, ast.Or):
                    return v
        if t is ast.UnaryOp:
            if isinstance(n.op, ast.Not):
                return Not(self.cond(n.operand, fr))
            v = self.ev(n.operand, fr)
            if isinstance(v, (int, float)):
                return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v
            if isinstance(n.op, ast.USub) and is_sym(v):
                return z3.fpNeg(v) if z3.is_fp(v) else -I(v)
            raise Unsupported('unary operator')
        if t is ast.BinOp:
            return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))
        if t is ast.IfExp:
            return self.ev(n.body if self.ctx.decide(self.cond(n.test, fr)) else n.orelse, fr)
        if t in (ast.List, ast.Tuple, ast.Set):
            xs = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    xs += self.iterate(self.ev(x.value, fr))
                else:
                    xs.append(self.ev(x, fr))
            return xs if t is ast.List else tuple(xs) if t is ast.Tuple else PSet(xs)
        if t is ast.Dict:
            return {fold(self.ev(k, fr)): self.ev(v, fr) for k, v in zip(n.keys, n.values)}
        if t is ast.Subscript:
            if isinstance(n.slice, ast.Slice):
                s = n.slice
                parts = [fold(self.ev(x, fr)) if x else None for x in (s.lower, s.upper, s.step)]
                if any(is_sym(x) for x in parts):
                    raise Unsupported('symbolic slice')
                return self.index(self.ev(n.value, fr), slice(*parts))
            v = self.ev(n.value, fr)
            return self.index(v, fold(self.ev(n.slice, fr)))
        if t is ast.JoinedStr:
            for x in n.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, fr)
            return OText()
        if t is ast.Lambda:
            return PFunc(n, fr.glob, '<lambda>')
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            out = []
            self.comp(n.generators, 0, fr, lambda f2: out.append(self.ev(n.elt, f2)))
            if t is ast.SetComp:
                return PSet(out)
            return out
        raise Unsupported('expression %s' % t.__name__)

    def quantify(self, kind, n, fr):
        """any/all over a comprehension, stopping like Python does."""
        class Stop(Exception):
            pass
        want = kind == 'any'
        simple = self.pure(n.elt) and len(n.generators) == 1 and not n.generators[0].ifs
        acc = []

        def one(f2):
            c = self.cond(n.elt, f2)
            if simple:
                acc.append(c)
            elif self.ctx.decide(c) == want:
                raise Stop()
        try:
            self.comp(n.generators, 0, fr, one)
        except Stop:
            return want
        if simple:
            return (Or if want else And)([not want] + acc)
        return not want

    def comp(self, gens, k, fr, emit):
        if k == len(gens):
            emit(fr)
            return
        g = gens[k]
        for x in self.iterate(self.ev(g.iter, fr)):
            f2 = Frame(self, fr.glob, {}, fr)
            self.assign(g.target, x, f2)
            if all(self.ctx.decide(self.cond(c, f2)) for c in g.ifs):
                self.comp(gens, k + 1, f2, emit)

    def scope(self, what, args, fr):
        if what == 'locals':
            d = dict(fr.loc)
            d.update(fr.shadow)
            return d
        if what == 'globals':
            return fr.glob
        if what == 'eval':
            raise Unsupported('eval')
        if len(args) == 1:
            self.exec_text(fold(args[0]), fr.glob, fr.glob if fr.loc is fr.glob else fr.shadow)
        else:
            self.exec_text(fold(args[0]), args[1], args[2] if len(args) > 2 else args[1])
        return None


class Frame:
    def __init__(self, py, glob, loc, up=None):
        self.py, self.glob, self.loc, self.up = py, glob, loc, up
        self.globals = set()
        self.shadow = {}        # what exec() defines: seen by locals(), not by names
        self.exc = None

    def get(self, n):
        if n in self.loc and n not in self.globals:
            return self.loc[n]
        if self.up is not None:
            return self.up.get(n)
        if n in self.glob:
            return self.glob[n]
        if BUILTIN_EXC.get(n) is not None:
            return BUILTIN_EXC[n]
        if n in BUILTINS:
            return Native(n)
        throw(NameError, n)

    def set(self, n, v):
        (self.glob if n in self.globals else self.loc)[n] = v


# ------------------------------------------------------------------- contracts
NATIVE = {}


def native(*names):
    def d(f):
        for n in names:
            NATIVE[n] = f
        return f
    return d


native('len')(lambda py, a, kw: py.length(a[0]))
native('bool')(lambda py, a, kw: py.truth(a[0]) if a else False)
native('set', 'frozenset')(lambda py, a, kw: PSet(py.iterate(a[0])) if a else PSet())
native('list')(lambda py, a, kw: py.iterate(a[0]) if a else [])
native('tuple')(lambda py, a, kw: tuple(py.iterate(a[0])) if a else ())
native('reversed')(lambda py, a, kw: py.iterate(a[0])[::-1])
native('enumerate')(lambda py, a, kw: list(enumerate(py.iterate(a[0]), *a[1:])))
native('zip')(lambda py, a, kw: list(zip(*[py.iterate(x) for x in a])))
native('map')(lambda py, a, kw: [py.call(a[0], [x]) for x in py.iterate(a[1])])
native('hash')(lambda py, a, kw: py.hash(a[0]) if not isinstance(py.hash(a[0]), Hash) else py.hash(a[0]))
native('hasattr')(lambda py, a, kw: _hasattr(py, a))
native('getattr')(lambda py, a, kw: _getattr(py, a))
native('print')(lambda py, a, kw: None)
native('iter')(lambda py, a, kw: py.iterate(a[0]))


def _getattr(py, a):
    try:
        return py.getattr(a[0], conc_text(a[1]))
    except PyExc as e:
        if e.cls is AttributeError and len(a) > 2:
            return a[2]
        raise


def _hasattr(py, a):
    try:
        py.getattr(a[0], conc_text(a[1]))
        return True
    except PyExc as e:
        if e.cls is AttributeError:
            return False
        raise


@native('range')
def _range(py, a, kw):
    if any(is_sym(x) for x in a):
        n = py.ctx.concretize(z3.Extract(15, 0, I(a[-1])), 0, 64)
        a = a[:-1] + [n]
    return range(*a)


@native('any')
def _any(py, a, kw):
    return Or([False] + [py.truth(x) for x in py.iterate(a[0])])


@native('all')
def _all(py, a, kw):
    return And([True] + [py.truth(x) for x in py.iterate(a[0])])


@native('isinstance')
def _isinstance(py, a, kw):
    v = fold(a[0])
    for k in a[1] if isinstance(a[1], tuple) else (a[1],):
        if isinstance(k, PClass):
            if isinstance(v, PInst) and k in v.cls.mro():
                return True
        elif isinstance(k, Native):
            p = k.path
            r = {'str': isstr(v), 'bytes': isbytes(v), 'int': isint(v), 'float': isfloat(v), 'bool': isinstance(v, bool) or is_sym(v) and z3.is_bool(v),
                 'list': isinstance(v, list), 'tuple': isinstance(v, tuple), 'dict': isinstance(v, (dict,)), 'google.protobuf.message.Message': isinstance(v, PMsg)}.get(p)
            if r is None:
                raise Unsupported('isinstance of %s' % p)
            if r:
                return True
        else:
            raise Unsupported('isinstance')
    return False


@native('str', 'repr')
def _str(py, a, kw):
    v = fold(a[0]) if a else ''
    if isinstance(v, str):
        return v
    if isinstance(v, PStr) and v.text:
        return v
    return OText()


@native('int')
def _int(py, a, kw):
    v = fold(a[0]) if a else 0
    if isinstance(v, Now):
        k = v.scale
        if k == 10**9:
            return now(py)
        raise Unsupported('clock in another unit')
    if isint(v):
        return I(v) if is_sym(v) else int(v)
    if isinstance(v, float):
        try:
            return int(v)
        except Exception as e:
            raise PyExc(type(e))
    if isinstance(v, (str, bytes)):
        try:
            return int(v, *[x for x in a[1:]])
        except Exception as e:
            raise PyExc(type(e))
    raise Unsupported('int()')


@native('float')
def _float(py, a, kw):
    v = fold(a[0]) if a else 0.0
    if isinstance(v, (str, int, float)):
        try:
            return float(v)
        except Exception as e:
            raise PyExc(type(e))
    if is_sym(v):
        return F(v)
    raise Unsupported('float()')


@native('round')
def _round(py, a, kw):
    v = fold(a[0])
    if all(isinstance(x, (int, float)) for x in [v] + a[1:]):
        return round(v, *a[1:])
    if isinstance(v, Now) and len(a) == 1 and v.scale == 10**9:
        return now(py)
    if isint(v):
        return v
    raise Unsupported('round()')


@native('abs')
def _abs(py, a, kw):
    v = fold(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if z3.is_fp(v):
        return z3.fpAbs(v)
    x = I(v)
    return z3.If(x < 0, -x, x)


@native('divmod')
def _divmod(py, a, kw):
    return (py.binop(ast.FloorDiv(), a[0], a[1]), py.binop(ast.Mod(), a[0], a[1]))


@native('min', 'max')
def _min(py, a, kw):
    xs = py.iterate(a[0]) if len(a) == 1 else a
    if all(isinstance(x, (int, float)) for x in map(fold, xs)):
        return min(xs)
    raise Unsupported('min')


@native('sum')
def _sum(py, a, kw):
    r = 0
    for x in py.iterate(a[0]):
        r = py.binop(ast.Add(), r, x)
    return r


@native('ord')
def _ord(py, a, kw):
    v = fold(a[0])
    if isinstance(v, str):
        return ord(v)
    bs = S(v).b
    r, w = strs.decode_rune(py.ctx, bs, 0)
    return r if isinstance(r, int) else z3.ZeroExt(TW - r.size(), r)


@native('type')
def _type(py, a, kw):
    v = a[0]
    if isinstance(v, PMsg):
        return ('type', v.md.full)
    if isinstance(v, PInst):
        return v.cls
    raise Unsupported('type()')


@native('struct.pack')
def _pack(py, a, kw):
    if all(isinstance(x, (int, float, str)) for x in a):
        import struct
        try:
            return struct.pack(*a)
        except Exception as e:
            raise PyExc(type(e))
    raise Unsupported('struct.pack')


@native('struct.unpack')
def _unpack(py, a, kw):
    import struct
    if isinstance(a[1], bytes):
        return struct.unpack(a[0], a[1])
    raise Unsupported('struct.unpack')


def now(py):
    """One clock reading per validation, 2020..2100, in nanoseconds."""
    if 'now' not in py.env:
        v = py.ctx.bv('now', TW)
        py.ctx.assume(z3.And(v >= 1577836800 * 10**9, v <= 4102444800 * 10**9))
        py.env['now'] = v
    return py.env['now']


native('time.time')(lambda py, a, kw: Now(1))
native('time.time_ns')(lambda py, a, kw: now(py))
native('re.search')(lambda py, a, kw: py.regex('search', a[0], a[1], _flags(a, kw)))
native('re.match')(lambda py, a, kw: py.regex('match', a[0], a[1], _flags(a, kw)))
native('re.fullmatch')(lambda py, a, kw: py.regex('fullmatch', a[0], a[1], _flags(a, kw)))
native('re.compile')(lambda py, a, kw: Regex(a[0], a[1] if len(a) > 1 else kw.get('flags', 0)))


def _flags(a, kw):
    f = a[2] if len(a) > 2 else kw.get('flags', 0)
    if isinstance(f, Native):
        f = int(getattr(re, f.path.split('.')[-1]))
    if not isinstance(f, int):
        raise Unsupported('regex flags')
    return f


def classify(py, kind, s):
    d = py.env.setdefault('classes', {})
    from .gointrin import strkey
    k = (kind, strkey(s))
    if k not in d:
        d[k] = py.ctx.boolean('%s_%d' % (kind, len(d)))
        both = [d.get((x, strkey(s))) for x in ('jip4', 'jip6')]
        if kind in ('jip4', 'jip6') and all(b is not None for b in both):
            py.ctx.assume(z3.Not(z3.And(both)))
    return d[k]


def ipform(py, v, kinds):
    v = fold(v)
    if isinstance(v, PStr) and v.text or isinstance(v, str):
        s = S(v)
        return Or([classify(py, k, s) for k in kinds if len(s) >= (7 if k == 'jip4' else 2)] + [False])
    if isbytes(v):
        n = len(S(v))
        return n == 4 and 'jip4' in kinds or n == 16 and 'jip6' in kinds
    raise Unsupported('address of another type')


def _ip(kinds):
    def f(py, a, kw):
        if not py.ctx.decide(ipform(py, a[0], kinds)):
            throw(ValueError, 'not an address')
        return Attr(address=True)
    return f


native('ipaddress.ip_address')(_ip(('jip4', 'jip6')))
native('ipaddress.IPv4Address')(_ip(('jip4',)))
native('ipaddress.IPv6Address')(_ip(('jip6',)))


@native('validate_email.validate_email')
def _mail(py, a, kw):
    return classify(py, 'pmail', S(a[0]))


class Url:
    def __init__(self, s):
        self.s = s

    def attr(self, py, n):
        raise Unsupported('parsed URL')


@native('urllib.parse.urlparse')
def _url(py, a, kw):
    return Url(S(a[0]))


@native('uuid.UUID')
def _uuid(py, a, kw):
    v = conc_text(fold(a[0]))
    if v is not None:
        import uuid
        try:
            uuid.UUID(v)
            return Attr(uuid=True)
        except Exception as e:
            raise PyExc(type(e))
    raise Unsupported('uuid.UUID')
