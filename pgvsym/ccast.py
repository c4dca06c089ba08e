"""C++ front-end: clang's AST of the generated validators and of
validate/validate.h, executed symbolically.

The AST is re-dumped on every run from the code the real plugin emits; bodies
of pgv:: functions come from /repo/validate/validate.h. Library calls (the
protobuf accessors, std::string, std::set, RE2, inet_pton, ...) follow their
documented contracts."""
import concurrent.futures
import json
import os
import re
import subprocess

import z3

from . import strs
from .core import And, Or, Not, Iff, is_sym, conc_bool, tobool, Unsupported, PathEnd
from .strs import Str
from .amsg import AMsg, WIDTH, default_term
from .gointrin import classify

FILTERS = ['Validate', 'pgv::', 'Lookup', 'Pattern']
KEYWORDS = None


class N:
    __slots__ = ('kind', 'name', 'op', 'val', 'cast', 'vc', 'q', 't', 'ref', 'inner', 'id', 'arrow', 'post', 'static', 'targ', 'pure', 'ct', 'cls', 'isinit', 'rng')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name or self.op or '')


def _hook(d):
    k = d.get('kind')
    if k is None:
        if 'qualType' in d:
            return (d['qualType'], d.get('desugaredQualType', d['qualType']))
        if 'begin' in d:
            b, e = d['begin'], d.get('end')
            return ('@', b[0], e[0] + e[1]) if isinstance(b, tuple) and isinstance(e, tuple) else None
        if 'offset' in d:
            return (d['offset'], d.get('tokLen', 0))
        if 'spellingLoc' in d:
            return None
        return d if len(d) else None
    n = N()
    n.kind = k
    n.name = d.get('name')
    n.op = d.get('opcode')
    n.val = d.get('value')
    n.cast = d.get('castKind')
    n.vc = d.get('valueCategory')
    t = d.get('type')
    n.q, n.t = t if isinstance(t, tuple) else (None, None)
    n.ref = d.get('referencedDecl')
    n.inner = d.get('inner') or []
    n.id = d.get('id')
    n.arrow = d.get('isArrow')
    n.post = d.get('isPostfix')
    n.static = d.get('storageClass') == 'static'
    ta = d.get('typeArg') or d.get('argType')
    n.targ = ta[1] if isinstance(ta, tuple) else None
    n.pure = None
    n.ct = None
    n.cls = None
    n.isinit = d.get('hasElse')
    n.rng = d.get('range') if k == 'DeclRefExpr' else None
    if k == 'IfStmt':
        n.isinit = (bool(d.get('hasInit')), bool(d.get('hasVar')), bool(d.get('hasElse')))
    return n


def parse_dump(text):
    dec = json.JSONDecoder(object_hook=_hook)
    i, n = 0, len(text)
    out = []
    while i < n:
        while i < n and text[i] in ' \n\t\r':
            i += 1
        if i >= n:
            break
        if text[i] != '{':
            i = text.find('\n', i)
            if i < 0:
                break
            continue
        o, i = dec.raw_decode(text, i)
        out.append(o)
    return out


def normq(q):
    q = re.sub(r'(^|[ (<,&*])::', r'\1', q or '')
    return re.sub(r'\s+', ' ', q)


class CcProg:
    """One generated .pb.validate.cc."""

    def __init__(self, src, incs):
        self.src, self.incs = src, incs
        self.fns, self.vars, self.recs, self.lists = {}, {}, {}, {}
        self.loaded = set()
        self.registry = []       # Validator<T> globals
        self.static = {}
        self.srctext = None

    def dump(self, flt):
        p = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt]
                           + ['-I' + i for i in self.incs] + [self.src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError('clang: ' + p.stderr.decode('utf8', 'replace')[-3000:])
        return p.stdout.decode('utf8', 'replace')

    def load(self, flt, text=None):
        self.loaded.add(flt)
        for n in parse_dump(text if text is not None else self.dump(flt)):
            self.index(n, None)

    def index(self, n, targ):
        k = n.kind
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
            if any(c.kind == 'CompoundStmt' for c in n.inner):
                n.cls = targ
                self.fns.setdefault(n.name, {})[(normq(n.q), targ)] = n
        elif k == 'VarDecl':
            if n.inner and (n.t or '').find('pgv::Validator<') >= 0 or (n.q or '').startswith('pgv::Validator<'):
                self.registry.append(n)
            elif n.inner or n.name not in self.vars:
                self.vars[n.name] = n
        elif k == 'ClassTemplateSpecializationDecl':
            ta = None
            for c in n.inner:
                if c.kind == 'TemplateArgument':
                    ta = c.q or (c.inner and c.inner[0].name)
                    break
            for c in n.inner:
                self.index(c, normq(ta) if ta else None)
            self.recs[('spec', normq(ta) if ta else None)] = n
        elif k in ('ClassTemplateDecl', 'NamespaceDecl', 'LinkageSpecDecl', 'FunctionTemplateDecl'):
            for c in n.inner:
                self.index(c, None)
        elif k in ('CXXRecordDecl',):
            for c in n.inner:
                self.index(c, None)

    def fn(self, name, q, targ=None, more=True):
        d = self.fns.get(name)
        if d:
            q = normq(q)
            hits = [v for (kq, kt), v in d.items() if kq == q and (targ is None or kt == targ)]
            if not hits and targ is None:
                hits = [v for (kq, kt), v in d.items() if loose(kq) == loose(q)]
            if hits:
                return hits[0]
        if more and name not in self.loaded and re.fullmatch(r'[A-Za-z_]\w*', name or ''):
            self.load(name)
            return self.fn(name, q, targ, False)
        return None

    def text(self, rng):
        if not rng:
            return ''
        if self.srctext is None:
            self.srctext = open(self.src, 'rb').read()
        return self.srctext[rng[1]:rng[2]].decode('utf8', 'replace')

    def var(self, name, more=True):
        v = self.vars.get(name)
        if v is None and more and name not in self.loaded:
            self.load(name)
            return self.var(name, False)
        return v


def loose(q):
    """Ignores how namespaces and typedefs are spelled."""
    q = q.replace('std::basic_string<char>', 'S').replace('pgv::ValidationMsg', 'S').replace('ValidationMsg', 'S').replace('std::string', 'S').replace('string', 'S')
    return re.sub(r'\b\w+::', '', q).replace(' ', '')


# ------------------------------------------------------------------ types ----
INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
        'unsigned long long': (64, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
        'short': (16, True), 'unsigned short': (16, False), 'int32_t': (32, True), 'uint32_t': (32, False), 'int64_t': (64, True),
        'uint64_t': (64, False), 'size_t': (64, False), 'ptrdiff_t': (64, True), 'google::protobuf::int32': (32, True),
        'google::protobuf::int64': (64, True), 'google::protobuf::uint32': (32, False), 'google::protobuf::uint64': (64, False),
        'int8_t': (8, True), 'uint8_t': (8, False), 'size_type': (64, False), 'difference_type': (64, True)}
_TC = {}


def ctype(t):
    r = _TC.get(t)
    if r is None:
        s = (t or '').replace('const ', '').replace('volatile ', '').strip()
        s = re.sub(r'\s*(&&|&)$', '', s)
        s = re.sub(r'\s+const$', '', s)
        if s in INTS:
            r = ('int',) + INTS[s]
        elif s == 'bool':
            r = ('bool',)
        elif s == 'float':
            r = ('fp', 32)
        elif s == 'double':
            r = ('fp', 64)
        elif s.endswith('*'):
            r = ('ptr', s[:-1].strip())
        else:
            r = ('cls', s)
        _TC[t] = r
    return r


def nt(n):
    if n.ct is None:
        n.ct = ctype(n.t)
    return n.ct


def wrap(v, w, s):
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


def bv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


# ----------------------------------------------------------------- values ----
class Cell:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class PtrV:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


NULL = PtrV(None)


class CPtr:
    """char pointer into a text."""
    __slots__ = ('s', 'i')

    def __init__(self, s, i=0):
        self.s, self.i = s, i


class RepV:
    __slots__ = ('xs', 'f')

    def __init__(self, xs, f):
        self.xs, self.f = xs, f


class Pair:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b


class SeqIter:
    __slots__ = ('xs', 'i')

    def __init__(self, xs, i):
        self.xs, self.i = xs, i


class SetV:
    __slots__ = ('xs', 'hashed')

    def __init__(self, xs, hashed=False):
        self.xs, self.hashed = xs, hashed


class SetIter:
    """cond: the element was found (None for end())."""
    __slots__ = ('cond',)

    def __init__(self, cond):
        self.cond = cond


class USet:
    __slots__ = ('xs', 'hash', 'cmp', 'elem')

    def __init__(self, h, c, elem):
        self.xs, self.hash, self.cmp, self.elem = [], h, c, elem


class TMap:
    __slots__ = ('d',)

    def __init__(self):
        self.d = {}


class Obj:
    __slots__ = ('rec', 'f', 'prog')

    def __init__(self, rec, prog):
        self.rec, self.f, self.prog = rec, {}, prog


class Fn:
    __slots__ = ('n', 'prog')

    def __init__(self, n, prog):
        self.n, self.prog = n, prog


class TypeId:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Regex:
    __slots__ = ('pat', 'std')

    def __init__(self, pat, std=False):
        self.pat, self.std = pat, std


class HashV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class OS:
    pass


class Opaque:
    """Formatted text that is not empty."""
    __slots__ = ()


class Default:
    __slots__ = ()


DEFAULT = Default()
HASHFN = object()


class RetX(Exception):
    pass


class BreakX(Exception):
    pass


class ContX(Exception):
    pass


class Throw(Exception):
    def __init__(self, what):
        self.what = what


class Frame:
    __slots__ = ('prog', 'env', 'this', 'targ', 'ret', 'fn')

    def __init__(self, prog, this=None, targ=None):
        self.prog, self.env, self.this, self.targ, self.ret, self.fn = prog, {}, this, targ, None, None


def default_msg(md, pool):
    m = AMsg(md, '')
    for o in md.oneofs:
        m.sel[o.name] = None
    for f in md.fields:
        if f.oneof is not None:
            m.f[f.name] = None
        else:
            m.f[f.name] = default_val(f, pool)
    return m


def default_val(f, pool):
    if f.repeated:
        return []
    t = f.type
    if t == 'message':
        return None
    if f.presence:
        return default_term(pool, f)
    if t in WIDTH:
        return z3.BitVecVal(0, WIDTH[t])
    if t == 'bool':
        return False
    if t in ('float', 'double'):
        return z3.FPVal(0.0, z3.Float32() if t == 'float' else z3.Float64())
    return Str(())


ACC = {}


def accessors(md):
    """C++ accessor name -> (kind, field or oneof)."""
    a = ACC.get(md.full)
    if a is None:
        a = ACC[md.full] = {}
        for f in md.fields:
            n = f.name.lower()
            a.setdefault('has_' + n, ('has', f))
            a.setdefault(n + '_size', ('size', f))
            a.setdefault(n, ('get', f))
            a.setdefault(n + '_', ('get', f))
        for o in md.oneofs:
            a.setdefault(o.name.lower() + '_case', ('case', o))
    return a


PURE = {'BinaryOperator', 'DeclRefExpr', 'ImplicitCastExpr', 'IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr',
        'UnaryOperator', 'ParenExpr', 'ConstantExpr', 'StringLiteral', 'MemberExpr', 'CXXMemberCallExpr', 'CXXStaticCastExpr',
        'CStyleCastExpr', 'CXXFunctionalCastExpr', 'ExprWithCleanups'}
PURE_METHODS = {'size', 'length', 'empty', 'at', 'seconds', 'nanos', 'value', 'compare', 'get', 'second', 'first'}


def is_pure(n, msgs=True):
    if n.pure is None:
        ok = n.kind in PURE
        if ok and n.kind == 'BinaryOperator':
            ok = n.op in ('==', '!=', '<', '<=', '>', '>=', '&&', '||', '+', '-', '*', '&', '|')
        if ok and n.kind == 'UnaryOperator':
            ok = n.op in ('!', '-', '+', '~', '*')
        if ok and n.kind == 'CXXMemberCallExpr':
            m = n.inner[0]
            base = m.inner[0].t or '' if m.inner else ''
            ok = m.kind == 'MemberExpr' and (m.name in PURE_METHODS or not re.search(r'std::|RE2', base)) and m.name not in ('find', 'emplace')
        n.pure = ok and all(is_pure(c) for c in n.inner)
    return n.pure


SIMPLE = {'n': 10, 't': 9, 'r': 13, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': 92, '"': 34, "'": 39, '?': 63, 'e': 27}


def unescape(src):
    """Bytes of a string literal as clang prints it."""
    i = src.index('"') + 1
    out = bytearray()
    raw = src[i:src.rindex('"')]
    i = 0
    while i < len(raw):
        c = raw[i]
        if c != '\\':
            out += c.encode('utf8', 'surrogateescape')
            i += 1
            continue
        d = raw[i + 1]
        if d in '01234567':
            m = re.match(r'[0-7]{1,3}', raw[i + 1:])
            out.append(int(m.group(0), 8) & 255)
            i += 1 + len(m.group(0))
        elif d == 'x':
            m = re.match(r'[0-9a-fA-F]+', raw[i + 2:])
            out.append(int(m.group(0), 16) & 255)
            i += 2 + len(m.group(0))
        elif d in 'uU':
            k = 4 if d == 'u' else 8
            out += chr(int(raw[i + 2:i + 2 + k], 16)).encode()
            i += 2 + k
        else:
            out.append(SIMPLE[d])
            i += 2
    return bytes(out)


class Interp:
    def __init__(self, suite, ctx):
        self.suite, self.ctx, self.pool = suite, ctx, suite.pool
        self.env = {}
        self.steps = 0
        self.statics = suite.statics
        self.validators = None
        self.now = None

    # ---- helpers -----------------------------------------------------
    def un(self, what):
        raise Unsupported('C++: ' + what)

    def load(self, v):
        while isinstance(v, Cell):
            v = v.v
        return v

    def rv(self, n, fr):
        v = self.ev(n, fr)
        while isinstance(v, Cell):
            v = v.v
        return v

    def lv(self, n, fr):
        v = self.ev(n, fr)
        return v if isinstance(v, Cell) else Cell(v)

    def truth(self, v):
        """Condition value of a bool-typed operand."""
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, int):
            return v != 0
        if z3.is_bv(v):
            return v != 0
        if isinstance(v, PtrV):
            return v.c is not None
        if isinstance(v, Obj) or isinstance(v, CPtr):
            return True
        self.un('truth of %s' % type(v).__name__)

    def cond(self, n, fr):
        return self.ctx.decide(self.truth(self.rv(n, fr)))

    def text(self, v):
        """A text operand: std::string, StringPiece or C string."""
        v = self.load(v)
        if isinstance(v, Str):
            return v
        if isinstance(v, CPtr):
            return self.cstr(v)
        self.un('text from %s' % type(v).__name__)

    def cstr(self, p):
        b = p.s.b
        for k in range(p.i, len(b)):
            if self.ctx.decide(strs.beq(b[k], 0)):
                return Str(b[p.i:k])
        return Str(b[p.i:])

    def conc(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        self.un('symbolic index')

    # ---- calls -------------------------------------------------------
    def call(self, fn, args, prog, this=None):
        """fn: FunctionDecl-like node with a body; args: evaluated."""
        self.steps += 1
        self.ctx.stats.functions.add(fn.name + ' ' + (fn.q or ''))
        fr = Frame(prog, this, fn.cls)
        fr.fn = fn
        ps = [c for c in fn.inner if c.kind == 'ParmVarDecl']
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
            elif p.inner:
                a = self.ev(p.inner[-1], fr)
            else:
                self.un('missing argument')
            fr.env[p.id] = self.bind(p, a)
        if fn.kind == 'CXXConstructorDecl':
            pass
        body = [c for c in fn.inner if c.kind == 'CompoundStmt'][-1]
        try:
            self.st(body, fr)
        except RetX:
            r = fr.ret
            if isinstance(r, Cell) and not (fn.q or '').split('(')[0].rstrip().endswith('&'):
                r = self.load(r)
            return r
        return None

    def bind(self, decl, a):
        t = (decl.t or '').rstrip()
        q = (decl.q or '').rstrip()
        if t.endswith('&') or q.endswith('&'):
            return a if isinstance(a, Cell) else Cell(a)
        return Cell(self.load(a))

    # ---- statements --------------------------------------------------
    def st(self, n, fr):
        f = ST.get(n.kind)
        if f is not None:
            return f(self, n, fr)
        return self.ev(n, fr)

    def s_compound(self, n, fr):
        for c in n.inner:
            self.st(c, fr)

    def s_return(self, n, fr):
        fr.ret = self.ev(n.inner[0], fr) if n.inner else None
        raise RetX()

    def s_if(self, n, fr):
        parts = list(n.inner)
        hasinit, hasvar, haselse = n.isinit
        if hasinit:
            self.st(parts.pop(0), fr)
        if hasvar:
            self.st(parts.pop(0), fr)
        if self.cond(parts[0], fr):
            self.st(parts[1], fr)
        elif len(parts) > 2:
            self.st(parts[2], fr)

    def s_decl(self, n, fr):
        for d in n.inner:
            if d.kind == 'VarDecl':
                self.vardecl(d, fr)
            elif d.kind == 'CXXRecordDecl':
                fr.env[('rec', d.name)] = d
            elif d.kind in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl'):
                pass
            else:
                self.un('declaration ' + d.kind)

    def vardecl(self, d, fr):
        if d.static:
            # statics of member functions are one object across translation units
            key = (fr.prog.src, d.name, d.id)
            if fr.fn is not None and fr.fn.kind == 'CXXMethodDecl':
                key = ('shared', fr.fn.name, fr.fn.q, fr.fn.cls, d.name)
            c = self.statics.get(key)
            if c is None:
                c = Cell(self.rv(d.inner[-1], fr))
                if d.inner[-1].kind != 'CXXNewExpr' and not concrete_val(c.v):
                    self.un('static local')
                self.statics[key] = c
            fr.env[d.id] = c
            return
        init = [c for c in d.inner if not c.kind.endswith('Attr')]
        if not init:
            fr.env[d.id] = Cell(self.zero(d, fr))
            return
        t, q = (d.t or '').rstrip(), (d.q or '').rstrip()
        if t.endswith('&') or q.endswith('&'):
            v = self.ev(init[-1], fr)
            fr.env[d.id] = v if isinstance(v, Cell) else Cell(v)
            return
        ct = nt(d)
        if ct[0] == 'cls' and 'unordered_set<' in ct[1]:
            fr.env[d.id] = Cell(self.mkuset(d, fr))
            return
        fr.env[d.id] = Cell(self.rv(init[-1], fr))

    def zero(self, d, fr):
        k = nt(d)
        if k[0] == 'int':
            return 0
        if k[0] == 'bool':
            return False
        return None

    def mkuset(self, d, fr):
        m = re.match(r'(?:class )?std::unordered_set<(.*)>$', (d.q or '').replace('const ', ''))
        args = split_args(m.group(1)) if m else []
        h = c = None
        if len(args) > 1:
            h = self.local_rec(args[1], fr)
        if len(args) > 2:
            c = self.local_rec(args[2], fr)
        return USet(h, c, args[0] if args else '')

    def local_rec(self, name, fr):
        name = name.strip().split('::')[-1]
        r = fr.env.get(('rec', name))
        if r is None:
            if name.startswith('hash<') or name.startswith('equal_to<'):
                return None
            self.un('functor ' + name)
        o = Obj(r, fr.prog)
        for c in r.inner:
            if c.kind == 'FieldDecl':
                o.f[c.name] = Cell(HASHFN if 'hash<' in (c.t or '') else None)
        return o

    def s_for(self, n, fr):
        init, var, cond, inc, body = n.inner[0], n.inner[1], n.inner[2], n.inner[3], n.inner[4]
        if init is not None:
            self.st(init, fr)
        k = 0
        while not cond.kind or self.cond(cond, fr):
            try:
                self.st(body, fr)
            except BreakX:
                break
            except ContX:
                pass
            if inc.kind:
                self.ev(inc, fr)
            k += 1
            if k > 5000:
                self.un('loop bound')

    def s_while(self, n, fr):
        cond, body = n.inner[-2], n.inner[-1]
        k = 0
        while self.cond(cond, fr):
            try:
                self.st(body, fr)
            except BreakX:
                break
            except ContX:
                pass
            k += 1
            if k > 5000:
                self.un('loop bound')

    def s_do(self, n, fr):
        body, cond = n.inner[0], n.inner[1]
        k = 0
        while True:
            try:
                self.st(body, fr)
            except BreakX:
                break
            except ContX:
                pass
            k += 1
            if k > 5000:
                self.un('loop bound')
            if not self.cond(cond, fr):
                break

    def s_range(self, n, fr):
        init, rng, beg, end, cond, inc, var, body = n.inner
        if init is not None:
            self.st(init, fr)
        self.st(rng, fr)
        self.st(beg, fr)
        self.st(end, fr)
        while self.cond(cond, fr):
            self.st(var, fr)
            try:
                self.st(body, fr)
            except BreakX:
                break
            except ContX:
                pass
            self.ev(inc, fr)

    def s_break(self, n, fr):
        raise BreakX()

    def s_continue(self, n, fr):
        raise ContX()

    def s_null(self, n, fr):
        pass

    def s_switch(self, n, fr):
        v = self.rv(n.inner[-2], fr)
        body = n.inner[-1]
        flat = []

        def walk(c):
            labels = []
            while c is not None and c.kind in ('CaseStmt', 'DefaultStmt'):
                if c.kind == 'CaseStmt':
                    labels.append(self.caseval(c.inner[0], fr))
                    c = c.inner[1] if len(c.inner) > 1 else None
                else:
                    labels.append(None)
                    c = c.inner[0] if c.inner else None
            flat.append((labels, c))
        for c in body.inner:
            walk(c)
        start = None
        for i, (labels, _) in enumerate(flat):
            for l in labels:
                if l is None or start is not None:
                    continue
                if self.ctx.decide(self.cmp('==', v, l, True)):
                    start = i
        if start is None:
            for i, (labels, _) in enumerate(flat):
                if None in labels:
                    start = i
                    break
        if start is None:
            return
        try:
            for _, c in flat[start:]:
                if c is not None:
                    self.st(c, fr)
        except BreakX:
            pass

    def caseval(self, c, fr):
        if c.kind == 'ConstantExpr' and c.val is not None:
            return int(c.val)
        return self.conc(self.rv(c, fr))

    def s_try(self, n, fr):
        self.un('try')

    # ---- expressions -------------------------------------------------
    def ev(self, n, fr):
        self.steps += 1
        f = EV.get(n.kind)
        if f is None:
            self.un('expression ' + n.kind)
        return f(self, n, fr)

    def pass1(self, n, fr):
        return self.ev(n.inner[0], fr)

    def e_int(self, n, fr):
        k = nt(n)
        return wrap(int(n.val), k[1], k[2])

    def e_char(self, n, fr):
        k = nt(n)
        return wrap(int(n.val), k[1], k[2]) if k[0] == 'int' else int(n.val)

    def e_bool(self, n, fr):
        return n.val if isinstance(n.val, bool) else n.val == 'true'

    def e_float(self, n, fr):
        return fpval(n.val, nt(n)[1])

    def e_string(self, n, fr):
        return CPtr(Str(tuple(unescape(n.val))))

    def e_null(self, n, fr):
        return NULL

    def e_paren(self, n, fr):
        return self.ev(n.inner[0], fr)

    def e_const(self, n, fr):
        return self.ev(n.inner[0], fr)

    def e_this(self, n, fr):
        return PtrV(Cell(fr.this))

    def e_ref(self, n, fr):
        r = n.ref
        k = r.kind
        if k in ('ParmVarDecl', 'VarDecl', 'BindingDecl'):
            c = fr.env.get(r.id)
            if c is not None:
                return c
            return self.globalvar(r.name, r.q, fr)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return r
        if k == 'EnumConstantDecl':
            return self.enumconst(r, n)
        self.un('reference to ' + k)

    def globalvar(self, name, q, fr):
        if name in ('kDurationMaxSeconds',):
            return Cell(315576000000)
        if name in ('kDurationMinSeconds',):
            return Cell(-315576000000)
        if name == 'npos':
            return Cell((1 << 64) - 1)
        d = fr.prog.var(name)
        if d is None:
            self.un('global ' + str(name))
        key = (fr.prog.src, name)
        c = self.statics.get(key)
        if c is None:
            init = [x for x in d.inner if not x.kind.endswith('Attr')]
            if not init:
                self.un('global without initialiser ' + name)
            c = Cell(self.rv(init[-1], Frame(fr.prog)))
            self.statics[key] = c
        return c

    def enumconst(self, r, n):
        t = (r.t or n.t or '').lstrip(':')
        nm = r.name
        # oneof case constants
        par, _, tail = t.rpartition('::')
        if tail.endswith('Case'):
            md = self.cppmsg(par)
            if md is not None:
                for o in md.oneofs:
                    if camel(o.name) + 'Case' == tail:
                        if nm == o.name.upper() + '_NOT_SET':
                            return 0
                        for f in o.fields:
                            if 'k' + camel(f.name) == nm:
                                return f.number
        tab = self.suite.cppenums()
        e = tab.get(t.replace('::', '.').lstrip('.'))
        if e is not None:
            for en, num in e.values:
                if en == nm or nm.endswith('_' + en):
                    return num
        if nm in ('AF_INET', 'PF_INET'):
            return 2
        self.un('enumerator %s of %s' % (nm, t))

    def cppmsg(self, t):
        return self.suite.cppmsgs().get(t.lstrip(':').replace('::', '.'))

    def e_member(self, n, fr):
        base = self.rv(n.inner[0], fr) if n.inner else None
        if n.arrow and isinstance(base, PtrV):
            if base.c is None:
                raise Throw('null pointer')
            base = self.load(base.c)
        if n.arrow and isinstance(base, SeqIter):
            base = self.load(base.xs[base.i])
        if isinstance(base, Obj):
            c = base.f.get(n.name)
            if c is None:
                self.un('member ' + n.name)
            return c
        if isinstance(base, Pair):
            if n.name == 'first':
                return Cell(base.a)
            if n.name == 'second':
                return Cell(base.b)
        if n.name in ('kDurationMaxSeconds', 'kDurationMinSeconds', 'npos'):
            return self.globalvar(n.name, None, fr)
        if isinstance(base, Opaque):
            return Cell(Opaque())
        self.un('member %s of %s' % (n.name, type(base).__name__))

    def e_cast(self, n, fr):
        k = n.cast
        src = n.inner[-1] if n.kind == 'ImplicitCastExpr' else n.inner[0]
        if k == 'ToVoid':
            self.ev(src, fr)
            return None
        v = self.ev(src, fr)
        if k in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase',
                 'BaseToDerived', 'BitCast', 'LValueBitCast'):
            return v
        if k == 'ArrayToPointerDecay':
            return self.load(v)
        if k == 'LValueToRValue':
            return self.load(v)
        v = self.load(v)
        if k == 'NullToPointer':
            return NULL
        if k in ('IntegralCast', 'BooleanToSignedIntegral'):
            return self.icast(v, nt(src), nt(n))
        if k in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if isinstance(v, HashV):
                return self.hashbool(v)
            return self.truth(v)
        if k == 'FloatingToBoolean':
            return z3.Not(z3.fpIsZero(v))
        if k == 'FloatingCast':
            so = z3.Float32() if nt(n)[1] == 32 else z3.Float64()
            return z3.simplify(z3.fpToFP(z3.RNE(), v, so))
        if k == 'IntegralToFloating':
            so = z3.Float32() if nt(n)[1] == 32 else z3.Float64()
            s = nt(src)
            if isinstance(v, bool) or z3.is_bool(v):
                v = z3.If(tobool(v), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
                s = ('int', 32, True)
            b = bv(v, s[1] if s[0] == 'int' else 32)
            f = z3.fpSignedToFP if s[0] != 'int' or s[2] else z3.fpUnsignedToFP
            return z3.simplify(f(z3.RNE(), b, so))
        if k == 'FloatingToIntegral':
            t = nt(n)
            f = z3.fpToSBV if t[2] else z3.fpToUBV
            return f(z3.RTZ(), v, z3.BitVecSort(t[1]))
        self.un('cast ' + str(k))

    def hashbool(self, h):
        v = h.v
        if isinstance(v, Str):
            return True           # some bits of a text's hash are set
        if z3.is_fp(v):
            return z3.Not(z3.fpIsZero(v))
        return self.truth(v)

    def icast(self, v, s, t):
        if isinstance(v, HashV):
            return v
        if t[0] == 'bool':
            return self.truth(v)
        w, sg = (t[1], t[2]) if t[0] == 'int' else (32, True)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return wrap(v, w, sg)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if not z3.is_bv(v):
            self.un('integral cast of %s' % type(v).__name__)
        sw = v.size()
        if sw == w:
            return v
        if sw > w:
            return z3.Extract(w - 1, 0, v)
        ssg = s[2] if s[0] == 'int' else True
        return z3.SignExt(w - sw, v) if ssg else z3.ZeroExt(w - sw, v)

    def e_unary(self, n, fr):
        op = n.op
        if op == '&':
            v = self.ev(n.inner[0], fr)
            if isinstance(v, N):
                return v
            return PtrV(v if isinstance(v, Cell) else Cell(v))
        if op == '*':
            v = self.rv(n.inner[0], fr)
            if isinstance(v, PtrV):
                if v.c is None:
                    raise Throw('null pointer')
                return v.c
            return self.deref(v)
        if op in ('++', '--'):
            c = self.ev(n.inner[0], fr)
            old = c.v
            c.v = self.step(old, 1 if op == '++' else -1, nt(n.inner[0]))
            return old if n.post else c
        v = self.rv(n.inner[0], fr)
        if op == '!':
            return Not(self.truth(v))
        k = nt(n)
        if op == '+':
            return v
        if op == '-':
            if isinstance(v, int):
                return wrap(-v, k[1], k[2])
            return z3.fpNeg(v) if z3.is_fp(v) else -v
        if op == '~':
            return wrap(~v, k[1], k[2]) if isinstance(v, int) else ~v
        self.un('unary ' + op)

    def step(self, v, d, t):
        if isinstance(v, int):
            return wrap(v + d, t[1], t[2])
        if isinstance(v, SeqIter):
            return SeqIter(v.xs, v.i + d)
        if isinstance(v, CPtr):
            return CPtr(v.s, v.i + d)
        if z3.is_bv(v):
            return v + d
        self.un('++ on %s' % type(v).__name__)

    def deref(self, v):
        if isinstance(v, SeqIter):
            if not 0 <= v.i < len(v.xs):
                raise Throw('dereference past the end')
            x = v.xs[v.i]
            return x if isinstance(x, Cell) else Cell(x)
        if isinstance(v, CPtr):
            b = v.s.b
            return Cell(b[v.i] if v.i < len(b) else 0)
        self.un('dereference of %s' % type(v).__name__)

    def e_binary(self, n, fr):
        op = n.op
        if op in ('&&', '||'):
            a = self.truth(self.rv(n.inner[0], fr))
            c = conc_bool(a)
            if c is None:
                a = z3.simplify(a)
                c = conc_bool(a)
            if c is not None:
                if c == (op == '||'):
                    return c
                return self.truth(self.rv(n.inner[1], fr))
            if is_pure(n.inner[1]):
                b = self.truth(self.rv(n.inner[1], fr))
                return And(a, b) if op == '&&' else Or(a, b)
            if self.ctx.decide(a) == (op == '||'):
                return op == '||'
            return self.truth(self.rv(n.inner[1], fr))
        if op == ',':
            self.ev(n.inner[0], fr)
            return self.ev(n.inner[1], fr)
        if op == '=':
            b = self.rv(n.inner[1], fr)
            c = self.ev(n.inner[0], fr)
            c.v = b
            return c
        a = self.rv(n.inner[0], fr)
        b = self.rv(n.inner[1], fr)
        return self.binop(op, a, b, nt(n.inner[0]), nt(n))

    def e_compound_assign(self, n, fr):
        c = self.ev(n.inner[0], fr)
        b = self.rv(n.inner[1], fr)
        op = n.op[:-1]
        a = c.v
        t = nt(n.inner[0])
        if isinstance(a, CPtr):
            c.v = CPtr(a.s, a.i + (b if op == '+' else -b))
            return c
        k2 = nt(n.inner[1])
        # usual arithmetic conversions, then back
        wide = t
        if t[0] == 'int' and k2[0] == 'int' and (k2[1] > t[1] or k2[1] == t[1] and not k2[2]):
            wide = k2
        if t[0] == 'bool':
            wide = ('int', 32, True)
        r = self.binop(op, self.icast(a, t, wide) if wide[0] == 'int' else a, self.icast(b, k2, wide) if wide[0] == 'int' else b, wide, wide)
        c.v = self.icast(r, wide, t) if wide[0] == 'int' else r
        return c

    def binop(self, op, a, b, ta, tr):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            signed = ta[2] if ta[0] == 'int' else True
            return self.cmp(op, a, b, signed)
        if isinstance(a, SeqIter) and isinstance(b, int):
            return SeqIter(a.xs, a.i + (b if op == '+' else -b))
        if isinstance(a, SeqIter) and isinstance(b, SeqIter) and op == '-':
            return a.i - b.i
        if isinstance(a, CPtr) and isinstance(b, int):
            return CPtr(a.s, a.i + (b if op == '+' else -b))
        if isinstance(a, CPtr) and isinstance(b, CPtr) and op == '-':
            return a.i - b.i
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)) and op in '&|^':
            a2, b2 = a, b
            return {'&': And(a2, b2), '|': Or(a2, b2), '^': Not(Iff(a2, b2))}[op]
        if tr[0] == 'int' and isinstance(a, int) and isinstance(b, int):
            w, s = tr[1], tr[2]
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op in ('/', '%'):
                if b == 0:
                    raise Throw('division by zero')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if op == '/' else a - q * b
            elif op == '<<':
                r = a << b
            elif op == '>>':
                r = a >> b
            elif op == '&':
                r = a & b
            elif op == '|':
                r = a | b
            elif op == '^':
                r = a ^ b
            else:
                self.un('operator ' + op)
            return wrap(r, w, s)
        if tr[0] == 'int':
            w, s = tr[1], tr[2]
            a, b = bv(a, w), bv(b, w)
            if op in ('+', '-', '*', '&', '|', '^'):
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
            if op == '/':
                return a / b if s else z3.UDiv(a, b)
            if op == '%':
                return z3.SRem(a, b) if s else z3.URem(a, b)
            if op == '<<':
                return a << b
            if op == '>>':
                return a >> b if s else z3.LShR(a, b)
        if tr[0] == 'fp':
            R = z3.RNE()
            return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](R, a, b)
        self.un('operator %s on %s' % (op, type(a).__name__))

    def cmp(self, op, a, b, signed):
        if isinstance(a, HashV) or isinstance(b, HashV):
            r = self.hasheq(a, b)
            return r if op == '==' else Not(r) if op == '!=' else self.un('hash order')
        if isinstance(a, SetIter) or isinstance(b, SetIter):
            if a.cond is not None and b.cond is not None:
                self.un('iterator comparison')
            f = a.cond if a.cond is not None else b.cond
            f = False if f is None else f
            return Not(f) if op == '==' else f
        if isinstance(a, SeqIter) and isinstance(b, SeqIter):
            ai = min(a.i, len(a.xs)) if a.xs is not None else None
            bi = min(b.i, len(b.xs)) if b.xs is not None else None
            if a.xs is None or b.xs is None:        # end-of-sequence token iterators
                ea = a.xs is None or a.i >= len(a.xs)
                eb = b.xs is None or b.i >= len(b.xs)
                return (ea == eb) == (op == '==')
            return {'==': ai == bi, '!=': ai != bi, '<': ai < bi, '<=': ai <= bi, '>': ai > bi, '>=': ai >= bi}[op]
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            x = a.c if isinstance(a, PtrV) else a
            y = b.c if isinstance(b, PtrV) else b
            return (x is y) == (op == '==')
        if isinstance(a, CPtr) and isinstance(b, CPtr):
            return {'==': a.i == b.i, '!=': a.i != b.i, '<': a.i < b.i, '<=': a.i <= b.i, '>': a.i > b.i, '>=': a.i >= b.i}[op]
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            a = a if isinstance(a, (bool, z3.BoolRef)) else self.truth01(a)
            b = b if isinstance(b, (bool, z3.BoolRef)) else self.truth01(b)
            if op == '==':
                return Iff(a, b)
            if op == '!=':
                return Not(Iff(a, b))
            self.un('bool order')
        if isinstance(a, int) and isinstance(b, int):
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if z3.is_fp(a):
            return {'==': z3.fpEQ, '!=': z3.fpNEQ, '<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[op](a, b)
        # a boolean widened to int against a constant
        w = a.size() if z3.is_bv(a) else b.size()
        a, b = bv(a, w), bv(b, w)
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if signed:
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)

    def truth01(self, v):
        if isinstance(v, int):
            if v in (0, 1):
                return bool(v)
        self.un('bool compared with a number')

    def e_cond(self, n, fr):
        c = self.truth(self.rv(n.inner[0], fr))
        if self.ctx.decide(c):
            return self.ev(n.inner[1], fr)
        return self.ev(n.inner[2], fr)

    def e_initlist(self, n, fr):
        k = nt(n)
        if k[0] != 'cls':
            return self.rv(n.inner[0], fr) if n.inner else 0
        if len(n.inner) == 1 and k[1].startswith('std::basic_string') and not k[1].endswith(']'):
            return self.ev(n.inner[0], fr)
        return [self.rv(c, fr) for c in n.inner]

    def e_new(self, n, fr):
        return PtrV(Cell(self.rv(n.inner[0], fr)))

    def e_trait(self, n, fr):
        if n.name == 'sizeof':
            q = n.targ or (n.inner[0].t if n.inner else '') or ''
            m = re.fullmatch(r'(?:const )?char ?\[(\d+)\]', q)
            if m:
                return int(m.group(1))
            c = ctype(q)
            if c[0] == 'int' or c[0] == 'fp':
                return c[1] // 8
        self.un('expression %s' % n.name)

    def e_typeid(self, n, fr):
        return TypeId(normq(n.targ or ''))

    def e_throw(self, n, fr):
        what = ''
        c = n.inner[0] if n.inner else None
        raise Throw(nt(c)[1] if c is not None else what)

    # ---- construction ------------------------------------------------
    def e_construct(self, n, fr):
        k = nt(n)
        t = k[1] if k[0] == 'cls' else str(n.t)
        args = [c for c in n.inner if c.kind != 'CXXDefaultArgExpr']
        return self.construct(t, n, [self.ev(c, fr) for c in args], fr)

    def construct(self, t, n, args, fr):
        av = [self.load(a) for a in args]
        base = re.match(r'(?:class |struct )?([\w:]*)', t).group(1).split('::')[-1]
        if base in ('basic_string', 'string'):
            if not av:
                return Str(())
            a = av[0]
            if isinstance(a, (Str, Opaque)):
                if len(av) == 1:
                    return a
                if isinstance(av[1], int) and (len(av) == 2 or isinstance(av[2], int)):
                    return self.substr(a, *av[1:])
            if isinstance(a, CPtr):
                if len(av) == 2 and isinstance(av[1], int):
                    return Str((a.s.b[a.i:] + (0,))[:av[1]])
                return self.cstr(a)
            if isinstance(a, SeqIter) and len(av) == 2:
                return Str(tuple(self.load(x) for x in a.xs[a.i:av[1].i]))
            if isinstance(a, list):
                return Str(tuple(a))
            self.un('string construction')
        if base in ('StringPiece', 'basic_string_view', 'string_view'):
            a = av[0] if av else Str(())
            if isinstance(a, CPtr) and len(av) == 2:
                return Str((a.s.b[a.i:])[:av[1]])
            return self.text(a)
        if base in ('set', 'unordered_set', 'multiset', 'vector'):
            if av and isinstance(av[0], list):
                return SetV(av[0], base.startswith('unordered'))
            if av and isinstance(av[0], (SetV, USet)):
                return av[0]
            if base == 'unordered_set':
                self.un('unordered_set')
            return SetV([])
        if base == 'initializer_list':
            return av[0]
        if base in ('sockaddr_in', 'sockaddr_in6', 'in_addr', 'in6_addr'):
            return Opaque()
        if base == 'RE2':
            if len(av) != 1:
                self.un('RE2 options')
            return Regex(self.text(av[0]).conc())
        if base == 'basic_regex':
            return Regex(self.text(av[0]).conc(), std=True)
        if base in ('regex_token_iterator', 'sregex_token_iterator'):
            if not av:
                return SeqIter(None, 0)
            if isinstance(av[0], SeqIter) and len(av) >= 4:
                return self.tokens(*av[:4])
            if isinstance(av[0], SeqIter):
                return av[0]
        if base in ('basic_ostringstream', 'ostringstream', 'basic_stringstream', 'stringstream'):
            return OS()
        if base == 'type_index':
            return av[0]
        if base == 'reference_wrapper':
            return args[0] if isinstance(args[0], Cell) else Cell(args[0])
        if base == 'unordered_map':
            return TMap()
        if base == 'function':
            return av[0]
        if base == 'UnimplementedException':
            return DEFAULT
        if base == 'Validator':
            return self.validator(t, av, fr)
        if len(av) == 1 and isinstance(av[0], (SeqIter, AMsg, SetIter, Pair, Str, SetV, Obj, RepV, Opaque)):
            return av[0]
        md = self.cppmsg(t)
        if md is not None and not av:
            return default_msg(md, self.pool)
        if not av and base in ('allocator', 'equal_to', 'BaseValidator'):
            return DEFAULT
        if not av and base == 'hash':
            return HASHFN
        rec = fr.env.get(('rec', base)) if fr else None
        if rec is not None:
            return self.local_rec(base, fr)
        self.un('construction of ' + t[:80])

    def validator(self, t, av, fr):
        """Runs the real constructor of pgv::Validator<T>."""
        m = re.search(r'Validator<(.*)>$', t)
        targ = normq(m.group(1))
        rec = fr.prog.recs.get(('spec', targ))
        o = Obj(rec, fr.prog)
        ctor = None
        for (q, ta), f in fr.prog.fns.get('Validator', {}).items():
            if ta == targ and f.kind == 'CXXConstructorDecl' and 'function' in q:
                ctor = f
        if ctor is None:
            self.un('Validator constructor')
        f2 = Frame(fr.prog, o, targ)
        ps = [c for c in ctor.inner if c.kind == 'ParmVarDecl']
        for p, a in zip(ps, av):
            f2.env[p.id] = Cell(a)
        for c in ctor.inner:
            if c.kind == 'CXXCtorInitializer':
                x = c.inner[0]
                if 'function' in (x.t or ''):
                    o.f['check_'] = Cell(self.rv(x, f2))
        try:
            self.st([c for c in ctor.inner if c.kind == 'CompoundStmt'][-1], f2)
        except RetX:
            pass
        return o

    def substr(self, s, i, n=None):
        i = self.conc(i)
        if i > len(s.b):
            raise Throw('std::out_of_range')
        n = len(s.b) if n is None else self.conc(n)
        return Str(s.b[i:i + n])

    def tokens(self, b, e, rx, sub):
        """sregex_token_iterator(b, e, rx, -1) for a single-byte separator."""
        if not isinstance(rx, Regex) or not rx.std or sub != -1:
            self.un('token iterator')
        m = re.fullmatch(rb'\\(\W)|\[(\W)\]|(\w)', rx.pat)
        if not m:
            self.un('token separator %r' % rx.pat)
        c = [g for g in m.groups() if g][0][0]
        bs = [self.load(x) for x in b.xs[b.i:e.i]]
        out, cur, seps = [], [], 0
        for x in bs:
            if self.ctx.decide(strs.beq(x, c)):
                out.append(Str(tuple(cur)))
                cur, seps = [], seps + 1
            else:
                cur.append(x)
        if cur or not seps:
            out.append(Str(tuple(cur)))
        return SeqIter(out, 0)

    # ---- calls -------------------------------------------------------
    def e_call(self, n, fr):
        f = n.inner[0]
        target = self.ev(f, fr)
        target = self.load(target)
        if isinstance(target, PtrV):
            target = self.load(target.c)
        if not isinstance(target, N):
            self.un('indirect call')
        argn = n.inner[1:]
        name = target.name
        b = BUILTIN.get(name)
        if b is not None:
            return self.result(n, b(self, [self.ev(a, fr) for a in argn if a.kind != 'CXXDefaultArgExpr'], n, fr))
        if name.endswith('_IsValid'):
            return self.enum_valid(name[:-8], self.rv(argn[0], fr), n.inner[0], fr)
        d = fr.prog.fn(target.name, target.q)
        if d is None and target.kind == 'CXXMethodDecl':
            d = fr.prog.fn(target.name, target.q, None)
        if d is None:
            self.un('call of %s %s' % (name, target.q))
        args = [self.ev(a, fr) for a in argn if a.kind != 'CXXDefaultArgExpr']
        return self.result(n, self.call(d, args, fr.prog))

    def result(self, n, v):
        if n.vc in ('lvalue', 'xvalue') and not isinstance(v, Cell):
            return Cell(v)
        return v

    def enum_valid(self, nm, v, callee=None, fr=None):
        hits = self.suite.cppenum_named(nm)
        if len(hits) > 1:
            while callee is not None and callee.kind != 'DeclRefExpr':
                callee = callee.inner[0] if callee.inner else None
            txt = fr.prog.text(callee.rng) if callee is not None else ''
            full = re.sub(r'^::', '', txt).replace('::', '.')[:-8]
            if full in self.suite.cppenums():
                hits = [self.suite.cppenums()[full]]
        if not hits:
            self.un('enum ' + nm)
        vals = {tuple(sorted({x for _, x in e.values})) for e in hits}
        if len(vals) > 1:
            self.un('ambiguous enum ' + nm)
        return Or([bv(v, 32) == z3.BitVecVal(x, 32) for x in list(vals)[0]])

    def callfn(self, target, args, n, fr):
        """Calls a function value (std::function, functor object)."""
        if isinstance(target, N):
            hit = self.suite.find_fn(target, fr.prog)
            if hit is None:
                self.un('function ' + str(target.name) + ' ' + str(target.q))
            d, prog = hit
            return self.result(n, self.call(d, args, prog))
        if isinstance(target, Obj):
            d = [c for c in target.rec.inner if c.kind == 'CXXMethodDecl' and c.name == 'operator()']
            return self.call(d[0], args, target.prog, this=target)
        self.un('call of %s' % type(target).__name__)

    def e_membercall(self, n, fr):
        m = n.inner[0]
        while m.kind in ('ParenExpr', 'ImplicitCastExpr'):
            m = m.inner[0]
        if m.kind != 'MemberExpr':
            self.un('member call through ' + m.kind)
        oc = self.ev(m.inner[0], fr)
        o = self.load(oc)
        if m.arrow:
            if isinstance(o, PtrV):
                oc = o.c
                o = self.load(oc)
            elif isinstance(o, SeqIter):
                o = self.load(o.xs[o.i])
        args = [self.ev(a, fr) for a in n.inner[1:] if a.kind != 'CXXDefaultArgExpr']
        return self.result(n, self.method(o, oc, m.name, args, n, fr, m))

    def method(self, o, oc, name, args, n, fr, m):
        if name == 'get' and 'reference_wrapper' in (m.inner[0].t or ''):
            return oc
        if isinstance(o, AMsg):
            return self.accessor(o, name, args)
        if o is None and self.cppmsg(ctype(m.inner[0].t)[1]) is not None:
            return self.accessor(default_msg(self.cppmsg(ctype(m.inner[0].t)[1]), self.pool), name, args)
        if isinstance(o, CPtr):
            o = self.cstr(o)
        if isinstance(o, Str):
            return self.strmethod(o, name, args)
        if isinstance(o, RepV):
            xs = o.xs
            if name == 'size':
                return len(xs)
            if name == 'empty':
                return len(xs) == 0
            if name in ('Get', 'at', 'operator[]'):
                i = self.conc(self.load(args[0]))
                if not 0 <= i < len(xs):
                    raise Throw('index out of range')
                return Cell(self.unnil(xs[i], o.f))
            if name in ('begin', 'cbegin'):
                return SeqIter([self.unnil(x, o.f) for x in xs], 0)
            if name in ('end', 'cend'):
                return SeqIter([self.unnil(x, o.f) for x in xs], len(xs))
            self.un('RepeatedField::' + name)
        if isinstance(o, list):          # map
            if name == 'size':
                return len(o)
            if name == 'empty':
                return len(o) == 0
            if name in ('begin', 'cbegin'):
                return SeqIter(o, 0)
            if name in ('end', 'cend'):
                return SeqIter(o, len(o))
        if isinstance(o, SetV):
            if name in ('end', 'cend'):
                return SetIter(None)
            if name in ('find',):
                return SetIter(self.inset(o.xs, self.load(args[0]), o.hashed))
            if name in ('count', 'contains'):
                c = self.inset(o.xs, self.load(args[0]), o.hashed)
                if name == 'contains':
                    return c
                cc = conc_bool(c)
                return int(cc) if cc is not None else z3.If(c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            if name == 'size':
                return len(o.xs)
            if name == 'empty':
                return not o.xs
        if isinstance(o, USet):
            if name in ('emplace', 'insert'):
                a = args[0]
                f = self.ufind(o, a, n, fr)
                o.xs.append(a if isinstance(a, Cell) else Cell(a))
                return Pair(SetIter(True), Not(f))
            if name in ('count', 'find'):
                f = self.ufind(o, args[0], n, fr)
                if name == 'find':
                    return SetIter(f)
                cc = conc_bool(f)
                return int(cc) if cc is not None else z3.If(f, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            if name in ('end', 'cend'):
                return SetIter(None)
            if name == 'size':
                # only distinct elements count
                tot = 0
                kept = []
                for x in o.xs:
                    f = Or([self.uequal(o, x, y, n, fr) for y in kept])
                    if not self.ctx.decide(f):
                        tot += 1
                        kept.append(x)
                return tot
        if isinstance(o, OS):
            return Opaque()
        if isinstance(o, Opaque):
            if name in ('c_str', 'data', 'str'):
                return o
            if name == 'empty':
                return False
        if name.startswith('operator '):
            return o
        if name == 'str' and isinstance(o, Str):
            return o
        if isinstance(o, TMap):
            if name == 'find':
                k = self.load(args[0])
                c = o.d.get(tkey(k))
                return SeqIter([Pair(k, c.v)] if c else [], 0)
            if name == 'end':
                return SeqIter(None, 0)
        self.un('%s::%s' % (type(o).__name__, name))

    def ufind(self, o, a, n, fr):
        return Or([self.uequal(o, y, a, n, fr) for y in o.xs])

    def uequal(self, o, y, a, n, fr):
        ay = y if isinstance(y, Cell) else Cell(y)
        aa = a if isinstance(a, Cell) else Cell(a)
        if o.cmp is None:
            eq = self.valeq(self.load(ay), self.load(aa))
        else:
            eq = self.truth(self.load(self.callfn(o.cmp, [ay, aa], n, fr)))
        if o.hash is None:
            h = self.hasheq(HashV(self.load(ay)), HashV(self.load(aa)))
        else:
            h1 = self.load(self.callfn(o.hash, [ay], n, fr))
            h2 = self.load(self.callfn(o.hash, [aa], n, fr))
            h = self.cmp('==', h1, h2, False)
        return And(eq, h)

    def hasheq(self, a, b):
        if isinstance(a, HashV) and isinstance(b, HashV):
            return self.valeq(a.v, b.v)
        self.un('hash comparison')

    def valeq(self, a, b):
        if isinstance(a, Str):
            return strs.eq(a, b)
        if isinstance(a, AMsg):
            return self.durcmp('==', a, b)
        if isinstance(a, (bool, z3.BoolRef)):
            return Iff(a, b)
        return self.cmp('==', a, b, True)

    def inset(self, xs, v, hashed=False):
        v = self.load(v)
        if xs and z3.is_fp(v) and not hashed:
            # std::set equivalence: neither is less
            return Or([And(Not(z3.fpLT(v, x)), Not(z3.fpLT(x, v))) for x in xs])
        return Or([self.valeq(self.load(x), v) for x in xs])

    def unnil(self, v, f):
        if v is None and f.type == 'message':
            return default_msg(self.pool.messages[f.type_name], self.pool)
        return v

    def accessor(self, m, name, args):
        a = accessors(m.desc).get(name)
        if a is None:
            if name in ('GetTypeName',):
                return Str(tuple(m.desc.full[1:].encode()))
            if name == 'ByteSizeLong':
                self.un('ByteSizeLong')
            self.un('accessor %s of %s' % (name, m.desc.full))
        k, f = a
        if k == 'case':
            s = m.sel[f.name]
            if s is None:
                return 0
            return m.desc.field(s).number
        v = m.f.get(f.name)
        sel = True
        if f.oneof is not None:
            sel = m.sel[m.desc.oneofs[f.oneof].name] == f.name
        if k == 'has':
            if f.oneof is not None:
                return sel
            if f.type == 'message':
                return v is not None
            if f.presence:
                return f.name not in m.unset
            self.un('has_ of a plain field')
        if k == 'size':
            return len(v or [])
        if f.repeated:
            kv = self.pool.map_kv(f)
            if kv:
                xs = [Pair(x, self.unnil(y, kv[1])) for x, y in v or []]
                return xs
            if args:
                xs = v or []
                i = self.conc(self.load(args[0]))
                if not 0 <= i < len(xs):
                    raise Throw('index out of range')
                return self.unnil(xs[i], f)
            return RepV(v or [], f)
        if not sel or v is None:
            return default_msg(self.pool.messages[f.type_name], self.pool) if f.type == 'message' else default_val(f, self.pool)
        return v

    def strmethod(self, s, name, args):
        av = [self.load(a) for a in args]
        b = s.b
        if name in ('size', 'length'):
            return len(b)
        if name == 'empty':
            return not b
        if name.startswith('operator basic_string') or name == 'str':
            return s
        if name in ('c_str', 'data'):
            return CPtr(s)
        if name in ('at', 'operator[]'):
            i = self.conc(av[0])
            if i >= len(b):
                if name == 'at':
                    raise Throw('std::out_of_range')
                return 0
            return b[i]
        if name in ('front', 'back'):
            if not b:
                self.un('front of an empty string')
            return b[0] if name == 'front' else b[-1]
        if name in ('begin', 'cbegin'):
            return SeqIter(b, 0)
        if name in ('end', 'cend'):
            return SeqIter(b, len(b))
        if name == 'substr':
            return self.substr(s, *av)
        if name == 'compare':
            if len(av) == 1:
                x, y = s, self.text(av[0])
            elif len(av) >= 3:
                x = self.substr(s, av[0], av[1])
                y = self.text(av[2]) if len(av) == 3 else self.substr(self.text(av[2]), *av[3:])
            else:
                self.un('compare')
            e = strs.eq(x, y)
            c = conc_bool(e)
            if c is not None and c:
                return 0
            l = slt(x, y)
            return z3.If(tobool(e), z3.BitVecVal(0, 32), z3.If(tobool(l), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        if name == 'find':
            p = av[0]
            if isinstance(p, int) or z3.is_bv(p):
                p = Str((p,))
            p = self.text(p)
            i = strs.index(self.ctx, s, p, self.conc(av[1]) if len(av) > 1 else 0)
            return i if i >= 0 else (1 << 64) - 1
        if name == 'rfind':
            p = av[0]
            p = Str((p,)) if isinstance(p, int) or z3.is_bv(p) else self.text(p)
            if len(av) > 1:
                k = self.conc(av[1])
                s = Str(b[:k + len(p.b)])
            i = strs.last_index(self.ctx, s, p)
            return i if i >= 0 else (1 << 64) - 1
        self.un('string::' + name)

    def e_opcall(self, n, fr):
        f = n.inner[0]
        while f.kind != 'DeclRefExpr':
            f = f.inner[0]
        name = f.ref.name
        op = name[len('operator'):]
        an = n.inner[1:]
        if op == '<<':
            v = self.ev(an[0], fr)
            self.ev(an[1], fr)
            return v
        av = [self.ev(a, fr) for a in an if a.kind != 'CXXDefaultArgExpr']
        x = self.load(av[0])
        if op == '()':
            if x is HASHFN:
                return HashV(self.load(av[1]))
            return self.result(n, self.callfn(x, av[1:], n, fr))
        if op == '=':
            v = self.load(av[1])
            if isinstance(v, CPtr) and not isinstance(x, CPtr):
                v = self.cstr(v)
            av[0].v = v
            return av[0]
        if op == '[]':
            if isinstance(x, TMap):
                return x.d.setdefault(tkey(self.load(av[1])), Cell(NULL))
            return self.result(n, self.method(x, av[0], 'operator[]', av[1:], n, fr, f))
        if op == '*' and len(av) == 1:
            return self.deref(x)
        if op == '->':
            return PtrV(self.deref(x))
        if op in ('++', '--'):
            c = av[0]
            old = c.v
            c.v = self.step(old, 1 if op == '++' else -1, None)
            return old if len(av) > 1 else c
        y = self.load(av[1]) if len(av) > 1 else None
        if isinstance(x, TypeId) and op in ('==', '!='):
            return (tkey(x) == tkey(y)) == (op == '==')
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(x, (Str, CPtr)) and isinstance(y, (Str, CPtr)):
                x, y = self.text(x), self.text(y)
                e = strs.eq(x, y)
                if op == '==':
                    return e
                if op == '!=':
                    return Not(e)
                l = slt(x, y)
                return {'<': l, '<=': Or(l, e), '>': Not(Or(l, e)), '>=': Not(l)}[op]
            if isinstance(x, AMsg):
                return self.durcmp(op, x, y)
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                self.un('comparison of formatted text')
            return self.cmp(op, x, y, True)
        if op in ('+', '-') and isinstance(x, AMsg) and isinstance(y, AMsg):
            return self.duradd(x, y, 1 if op == '+' else -1)
        if op in ('+', '-') and isinstance(x, SeqIter):
            return self.binop(op, x, y, None, ('int', 64, True))
        if op == '+':
            if isinstance(x, (Str, CPtr)) and isinstance(y, (Str, CPtr)):
                return Str(self.text(x).b + self.text(y).b)
            if isinstance(x, (Str, CPtr, Opaque)) or isinstance(y, (Str, CPtr, Opaque)):
                return Opaque()
        if op == '+=' and isinstance(x, (Str, Opaque)):
            if isinstance(x, Str) and isinstance(y, (Str, CPtr)):
                av[0].v = Str(x.b + self.text(y).b)
            else:
                av[0].v = Opaque()
            return av[0]
        if op == '!' :
            return Not(self.truth(x))
        self.un('operator%s on %s' % (op, type(x).__name__))

    # ---- durations ---------------------------------------------------
    def secnan(self, m):
        return bv(m.f['seconds'], 64), bv(m.f['nanos'], 32)

    def durcmp(self, op, a, b):
        """google/protobuf/util/time_util.h: by seconds, then nanos."""
        s1, n1 = self.secnan(a)
        s2, n2 = self.secnan(b)
        e = z3.And(s1 == s2, n1 == n2)
        l = z3.Or(s1 < s2, z3.And(s1 == s2, n1 < n2))
        r = {'==': e, '!=': z3.Not(e), '<': l, '<=': z3.Or(l, e), '>': z3.Not(z3.Or(l, e)), '>=': z3.Not(l)}[op]
        return z3.simplify(r)

    def duradd(self, a, b, sg):
        s1, n1 = self.secnan(a)
        s2, n2 = self.secnan(b)
        v = [z3.simplify(x) for x in (s1, n1, s2, n2)]
        if not all(z3.is_bv_value(x) for x in v):
            self.un('arithmetic on a symbolic duration')
        s1, n1, s2, n2 = [x.as_signed_long() for x in v]
        t = s1 * 10**9 + n1 + sg * (s2 * 10**9 + n2)
        return self.mkdur(t)

    def mkdur(self, t):
        md = self.pool.messages['.google.protobuf.Duration']
        m = default_msg(md, self.pool)
        s = abs(t) // 10**9 * (1 if t >= 0 else -1)
        m.f['seconds'] = z3.BitVecVal(s, 64)
        m.f['nanos'] = z3.BitVecVal(t - s * 10**9, 32)
        return m


def tkey(t):
    return re.sub(r'^:+', '', t.t or '')


def slt(a, b):
    """a < b as char_traits<char> orders (unsigned bytes)."""
    return strs.lt(a, b)


def fpval(text, w):
    so = z3.Float32() if w == 32 else z3.Float64()
    return z3.FPVal(float(text), so)


def concrete_val(v):
    return isinstance(v, (int, bool, Regex, CPtr, Str, SetV, TMap))


def camel(s):
    """UnderscoresToCamelCase(s, cap_first) of protoc's C++ generator."""
    out, cap = [], True
    for c in s:
        if c.islower():
            out.append(c.upper() if cap else c)
            cap = False
        elif c.isupper():
            out.append(c)
            cap = False
        elif c.isdigit():
            out.append(c)
            cap = True
        else:
            cap = True
    return ''.join(out)


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()]


# --------------------------------------------------------------- builtins ----
def b_utf8first(it, args, n, fr):
    """Length of the sequence announced by the first byte (0 at the end)."""
    p, l = it.load(args[0]), it.load(args[1])
    if isinstance(l, int) and l == 0 or p.i >= len(p.s.b):
        return 0
    x = p.s.b[p.i]
    if it.ctx.decide(strs.rng(x, 0, 0xBF)):
        return 1
    if it.ctx.decide(strs.rng(x, 0xC0, 0xDF)):
        return 2
    if it.ctx.decide(strs.rng(x, 0xE0, 0xEF)):
        return 3
    return 4


def b_inet(it, args, n, fr):
    """inet_pton on the C string: 1 when it is an address of the family."""
    fam = it.load(args[0])
    s = it.cstr(it.load(args[1]))
    if len(s.b) < 2:
        return 0
    ip = classify(it, 'isip', s)
    four = classify(it, 'isip4form', s)
    if fam == 2:
        c = And(ip, four)
    elif fam == 10:
        c = And(ip, Not(four))
    else:
        it.un('address family %s' % fam)
    return z3.If(tobool(c), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


def b_re(full):
    def f(it, args, n, fr):
        s = it.text(args[0])
        rx = it.load(args[1])
        if not isinstance(rx, Regex):
            rx = Regex(it.text(rx).conc())
        if len(args) > 2:
            it.un('RE2 captures')
        return it.suite.rematch(rx.pat, s, full)
    return f


def b_dur(mul):
    def f(it, args, n, fr):
        v = it.load(args[0])
        if not isinstance(v, int):
            it.un('symbolic duration literal')
        return it.mkdur(v * mul)
    return f


def b_valid_dur(it, args, n, fr):
    it.un('IsDurationValid')


def b_all_of(it, args, n, fr):
    it.un('algorithm')


BUILTIN = {
    'UTF8FirstLetterNumBytes': b_utf8first,
    'inet_pton': b_inet,
    'FullMatch': b_re(True),
    'PartialMatch': b_re(False),
    'SecondsToDuration': b_dur(10**9), 'MillisecondsToDuration': b_dur(10**6), 'MicrosecondsToDuration': b_dur(10**3), 'NanosecondsToDuration': b_dur(1),
    'MinutesToDuration': b_dur(60 * 10**9), 'HoursToDuration': b_dur(3600 * 10**9),
    'move': lambda it, a, n, fr: a[0], 'forward': lambda it, a, n, fr: a[0], 'ref': lambda it, a, n, fr: a[0], 'cref': lambda it, a, n, fr: a[0],
    'strlen': lambda it, a, n, fr: len(it.cstr(it.load(a[0])).b),
}

ST = {
    'CompoundStmt': Interp.s_compound, 'ReturnStmt': Interp.s_return, 'IfStmt': Interp.s_if, 'DeclStmt': Interp.s_decl, 'ForStmt': Interp.s_for,
    'WhileStmt': Interp.s_while, 'DoStmt': Interp.s_do, 'CXXForRangeStmt': Interp.s_range, 'BreakStmt': Interp.s_break,
    'ContinueStmt': Interp.s_continue, 'NullStmt': Interp.s_null, 'SwitchStmt': Interp.s_switch, 'CXXTryStmt': Interp.s_try,
}
EV = {
    'IntegerLiteral': Interp.e_int, 'CharacterLiteral': Interp.e_char, 'CXXBoolLiteralExpr': Interp.e_bool, 'FloatingLiteral': Interp.e_float,
    'StringLiteral': Interp.e_string, 'CXXNullPtrLiteralExpr': Interp.e_null, 'GNUNullExpr': Interp.e_null,
    'ParenExpr': Interp.e_paren, 'ConstantExpr': Interp.e_const, 'ExprWithCleanups': Interp.pass1, 'MaterializeTemporaryExpr': Interp.pass1,
    'CXXBindTemporaryExpr': Interp.pass1, 'CXXStdInitializerListExpr': Interp.pass1, 'SubstNonTypeTemplateParmExpr': lambda it, n, fr: it.ev(n.inner[-1], fr),
    'CXXThisExpr': Interp.e_this, 'DeclRefExpr': Interp.e_ref, 'MemberExpr': Interp.e_member,
    'ImplicitCastExpr': Interp.e_cast, 'CStyleCastExpr': Interp.e_cast, 'CXXStaticCastExpr': Interp.e_cast, 'CXXConstCastExpr': Interp.e_cast,
    'CXXFunctionalCastExpr': Interp.e_cast, 'CXXReinterpretCastExpr': Interp.e_cast,
    'UnaryOperator': Interp.e_unary, 'BinaryOperator': Interp.e_binary, 'CompoundAssignOperator': Interp.e_compound_assign,
    'ConditionalOperator': Interp.e_cond, 'InitListExpr': Interp.e_initlist, 'CXXNewExpr': Interp.e_new, 'CXXTypeidExpr': Interp.e_typeid, 'UnaryExprOrTypeTraitExpr': Interp.e_trait,
    'CXXThrowExpr': Interp.e_throw, 'CXXConstructExpr': Interp.e_construct, 'CXXTemporaryObjectExpr': Interp.e_construct,
    'CallExpr': Interp.e_call, 'CXXMemberCallExpr': Interp.e_membercall, 'CXXOperatorCallExpr': Interp.e_opcall,
    'CXXScalarValueInitExpr': lambda it, n, fr: it.zero(n, fr), 'ImplicitValueInitExpr': lambda it, n, fr: it.zero(n, fr),
}
