"""Properties N01 (Java) and N02 (C++): the names validators use are the names
protoc's own generators define.

The template functions that the generator registers are obtained by executing
its real Register functions, then run on descriptors whose identifiers are
symbolic.  The reference is protoc's documented naming; every path's witness is
replayed on the real plugin and the real protoc."""
import concurrent.futures
import json
import multiprocessing
import os
import re
import time
import z3

from . import util, strs
from .core import Ctx, And, Or, Not, conc_bool, tobool, Unsupported, PathEnd
from .strs import Str
from .gossa import Interp, Ptr, StructV, SliceV, MapV, Iface, Native, GoPanic, zero, LoadError
from .gointrin import INTR
from .gofront import GoProg
from .runner import Result
from .checker import nat, PGS

ROOT = 'github.com/envoyproxy/protoc-gen-validate'
JAVA, CC = ROOT + '/templates/java', ROOT + '/templates/cc'
GO = ROOT + '/templates/goshared'
PKG = {'java': JAVA, 'cc': CC, 'go': GO}
REG = {'java': ['Register'], 'cc': ['RegisterModule', 'RegisterHeader'], 'go': ['Register']}
SHARED = ROOT + '/templates/shared'
W = {}


# ------------------------------------------------------------ intrinsics -----
class Intr(dict):
    pass


def intrinsics():
    d = Intr(INTR)
    d.prefixes = INTR.prefixes
    T = '(*text/template.Template).'

    def funcs(it, a):
        m = it.env.setdefault('funcs', {})
        for k, v in (a[1].e if a[1] is not None else []):
            m[strs.lift(k).conc().decode()] = v
        return a[0]
    d[T + 'Funcs'] = funcs
    d[T + 'Parse'] = lambda it, a: (a[0], None)
    d[T + 'New'] = lambda it, a: a[0]
    d['text/template.Must'] = lambda it, a: a[0]

    def ascii(it, r):
        if isinstance(r, int):
            return r < 128
        if not it.ctx.decide(z3.ULT(r, 128)):
            raise Unsupported('non-ASCII rune')
        return True

    def within(*rs):
        def f(it, a):
            if ascii(it, a[0]) is False:
                raise Unsupported('non-ASCII rune')
            return Or([rng32(a[0], lo, hi) for lo, hi in rs])
        return f
    U, L, D = (65, 90), (97, 122), (48, 57)
    d['unicode.IsUpper'] = within(U)
    d['unicode.IsLower'] = within(L)
    d['unicode.IsDigit'] = d['unicode.IsNumber'] = within(D)
    d['unicode.IsLetter'] = within(U, L)

    def shift(rs, k):
        def f(it, a):
            if ascii(it, a[0]) is False:
                raise Unsupported('non-ASCII rune')
            if isinstance(a[0], int):
                return a[0] + k if rs[0] <= a[0] <= rs[1] else a[0]
            return z3.If(rng32(a[0], *rs), a[0] + k, a[0])
        return f
    d['unicode.ToUpper'] = shift(L, -32)
    d['unicode.ToLower'] = shift(U, 32)
    d['(*regexp.Regexp).ReplaceAll'] = replace_all
    d['(*regexp.Regexp).ReplaceAllString'] = replace_all

    def trim(it, a):
        cs = S(a[1]).conc()
        if cs is None:
            raise Unsupported('strings.Trim cutset')
        return trim2(it, a[0], cs, True, True)

    def S(x):
        return Str(tuple(x.items())) if isinstance(x, SliceV) else strs.lift(x)

    def trim2(it, s, cs, left, right):
        b = list(S(s).b)

        def cut(x):
            return it.ctx.decide(Or([strs.beq(x, c) for c in cs]))
        while left and b and cut(b[0]):
            b.pop(0)
        while right and b and cut(b[-1]):
            b.pop()
        return Str(b)
    d['strings.Trim'] = trim
    d['strings.TrimLeft'] = lambda it, a: trim2(it, a[0], S(a[1]).conc(), True, False)
    d['strings.TrimRight'] = lambda it, a: trim2(it, a[0], S(a[1]).conc(), False, True)

    # (*strings.Builder): its buffer is the second field
    def buf(p):
        sv = p.c[p.i].f[1]
        return tuple(sv.items()) if isinstance(sv, SliceV) else ()

    def write(p, bs):
        b = list(buf(p)) + list(bs)
        p.c[p.i].f[1] = SliceV(b, 0, len(b), len(b))
    B = '(*strings.Builder).'

    def wrune(it, a):
        r = strs.encode_rune(it.ctx, a[1])
        write(a[0], r)
        return len(r), None

    def wstr(it, a):
        write(a[0], S(a[1]).b)
        return len(S(a[1]).b), None
    d[B + 'WriteRune'] = wrune
    d[B + 'WriteString'] = d[B + 'Write'] = wstr
    d[B + 'WriteByte'] = lambda it, a: write(a[0], (a[1],))
    d[B + 'String'] = lambda it, a: Str(buf(a[0]))
    d[B + 'Len'] = lambda it, a: len(buf(a[0]))
    d[B + 'Grow'] = lambda it, a: None
    d[B + 'Reset'] = lambda it, a: p_reset(a[0])

    def p_reset(p):
        p.c[p.i].f[1] = SliceV([], 0, 0, 0)
    return d


def rng32(r, lo, hi):
    if isinstance(r, int):
        return lo <= r <= hi
    return z3.And(z3.UGE(r, lo), z3.ULE(r, hi))


def find_at(it, prog, bs, i):
    """Leftmost-first match starting at byte i of an ASCII text: end and groups."""
    inst = prog['inst']

    def step(pc, p, caps):
        op, out, arg, _ = inst[pc]
        if op in (strs.OP_ALT, strs.OP_ALTMATCH):
            r = step(out, p, caps)
            return r if r is not None else step(arg, p, caps)
        if op == strs.OP_CAPTURE:
            return step(out, p, dict(caps, **{str(arg): p}))
        if op == strs.OP_NOP:
            return step(out, p, caps)
        if op == strs.OP_MATCH:
            return p, caps
        if op == strs.OP_FAIL:
            return None
        if op == strs.OP_EMPTY:
            if arg & ~12:
                raise Unsupported('assertion in a replaced pattern')
            if (arg & 4 and p) or (arg & 8 and p != len(bs)):
                return None
            return step(out, p, caps)
        if p == len(bs):
            return None
        if not it.ctx.decide(strs.rng(bs[p], 0, 127)):
            raise Unsupported('non-ASCII text')
        if not it.ctx.decide(strs.rune_in(strs.z32(bs[p]), inst[pc])):
            return None
        return step(out, p + 1, caps)
    return step(prog['start'], i, {})


def replace_all(it, a):
    rx = a[0]
    src = Str(tuple(a[1].items())) if isinstance(a[1], SliceV) else strs.lift(a[1])
    tpl = (Str(tuple(a[2].items())) if isinstance(a[2], SliceV) else strs.lift(a[2])).conc()
    if tpl is None:
        raise Unsupported('symbolic replacement')
    out, i, n = [], 0, len(src.b)
    while i <= n:
        m = find_at(it, rx.prog, src.b, i)
        if m is None or m[0] == i:
            if m is not None:
                out += expand(tpl.decode(), src.b, dict(m[1], **{'0': i, '1': m[0]}))
            if i < n:
                out.append(src.b[i])
            i += 1
            continue
        end, caps = m
        caps = dict(caps, **{'0': i, '1': end})
        out += expand(tpl.decode(), src.b, caps)
        i = end
    return SliceV(out, 0, len(out), len(out)) if isinstance(a[1], SliceV) else Str(out)


def expand(t, bs, caps):
    out = []
    for m in re.finditer(r'\$\$|\$(\w+)|\$\{(\w+)\}|[^$]+|\$', t):
        g = m.group(1) or m.group(2)
        if g is None:
            out += list((b'$' if m.group(0) == '$$' else m.group(0).encode()))
        elif g.isdigit():
            lo, hi = caps.get(str(2 * int(g))), caps.get(str(2 * int(g) + 1))
            if lo is not None and hi is not None:
                out += list(bs[lo:hi])
        else:
            raise Unsupported('named group')
    return out


# ---------------------------------------------------------------- mocks ------
class World:
    """pgs entities of one .proto file with symbolic identifiers."""

    def __init__(self, it, ctx):
        self.it, self.ctx = it, ctx

    def typ(self, f):
        def inv(it, name, a):
            k = f['shape']
            if name == 'IsMap':
                return k == 'map'
            if name == 'IsRepeated':
                return k == 'rep'
            if name == 'IsEmbed':
                return k == 'msg'
            if name in ('IsEnum', 'IsRequired'):
                return False
            if name == 'ProtoType':
                return {'msg': 11, 'rep': 9, 'one': 9, 'map': 11, 'uuid': 9}[k]
            if name == 'Field':
                return f['node']
            raise Unsupported('pgs.FieldType.' + name)
        return nat(self.it, PGS + '.scalarT', inv)

    def field(self, f, msg=None):
        def inv(it, name, a):
            if name == 'Name':
                return f['name']
            if name == 'Type':
                return self.typ(f)
            if name == 'Message':
                return msg['node']
            if name == 'InOneOf':
                return bool(f.get('oneof'))
            if name == 'OneOf':
                return f['oneof']['node']
            if name == 'FullyQualifiedName':
                return self.it.concat(strs.lift('.q.M.'), f['name'])
            if name == 'Descriptor':
                return self.fdesc(f)
            raise Unsupported('pgs.Field.' + name)
        f['node'] = nat(self.it, PGS + '.field', inv)
        return f['node']

    def oneof(self, o, m):
        def inv(it, name, a):
            if name == 'Name':
                return o['name']
            if name == 'Message':
                return m['node']
            if name == 'Fields':
                return self.slice([f['node'] for f in m['fields'] if f.get('oneof') is o])
            raise Unsupported('pgs.OneOf.' + name)
        o['node'] = nat(self.it, PGS + '.oneof', inv)

    def fdesc(self, f):
        t = self.it.srv.type_named('google.golang.org/protobuf/types/descriptorpb.FieldDescriptorProto')
        sv = zero(t)
        for i, (n, ft, tag) in enumerate(t.u.d['f']):
            if n == 'Number':
                sv.f[i] = Ptr([f['number']], 0)
            elif n == 'Name':
                sv.f[i] = Ptr([f['name']], 0)
            elif n == 'Label':
                sv.f[i] = Ptr([3 if f['shape'] in ('rep', 'map') else 1], 0)
            elif n == 'Type':
                sv.f[i] = Ptr([11 if f['shape'] in ('msg', 'map') else 9], 0)
        return Ptr([sv], 0)

    def slice(self, xs):
        return SliceV(list(xs) or None, 0, len(xs), len(xs))

    def message(self, m, parent=None, file=None):
        def inv(it, name, a):
            if name == 'Name':
                return m['name']
            if name in ('Fields', 'NonOneOfFields'):
                return self.slice([f['node'] for f in m.get('fields', ())])
            if name == 'Messages':
                return self.slice([x['node'] for x in m.get('messages', ())])
            if name == 'AllMessages':
                return self.slice([x['node'] for x in alld(m)])
            if name == 'AllEnums':
                return self.slice([e['node'] for x in [m] + alld(m) for e in x.get('enums', ())])
            if name == 'Enums':
                return self.slice([x['node'] for x in m.get('enums', ())])
            if name == 'MapEntries':
                return self.slice([self.entry(f) for f in m.get('fields', ()) if f['shape'] == 'map'])
            if name == 'Parent':
                return parent['node']
            if name == 'File':
                return file['node']
            if name == 'IsWellKnown':
                return False
            if name == 'Package':
                return file['pkgnode']
            raise Unsupported('pgs.Message.' + name)
        m['node'] = nat(self.it, PGS + '.msg', inv)
        for f in m.get('fields', ()):
            self.field(f, m)
            if f.get('oneof') and 'node' not in f['oneof']:
                self.oneof(f['oneof'], m)
        for x in m.get('messages', ()):
            self.message(x, m, file)
        for x in m.get('enums', ()):
            self.enum(x, m, file)
        return m['node']

    def entry(self, f):
        def inv(it, name, a):
            if name == 'Name':
                return entry_name(self.ctx, f['name'])
            raise Unsupported('pgs.Message.' + name)
        return nat(self.it, PGS + '.msg', inv)

    def enum(self, e, parent, file):
        def inv(it, name, a):
            if name == 'Name':
                return e['name']
            if name == 'Parent':
                return parent['node']
            if name == 'File':
                return file['node']
            if name == 'Package':
                return file['pkgnode']
            raise Unsupported('pgs.Enum.' + name)
        e['node'] = nat(self.it, PGS + '.enum', inv)
        return e['node']

    def service(self, s):
        def inv(it, name, a):
            if name == 'Name':
                return s['name']
            raise Unsupported('pgs.Service.' + name)
        s['node'] = nat(self.it, PGS + '.service', inv)
        return s['node']

    def file(self, f):
        def inv(it, name, a):
            if name == 'Name' or name == 'InputPath':
                return f['name']
            if name == 'Messages':
                return self.slice([x['node'] for x in f.get('messages', ())])
            if name == 'AllMessages':
                return self.slice([x['node'] for m in f.get('messages', ()) for x in [m] + alld(m)])
            if name == 'Enums':
                return self.slice([x['node'] for x in f.get('enums', ())])
            if name == 'AllEnums':
                return self.slice([x['node'] for x in list(f.get('enums', ())) + [e for m in f.get('messages', ()) for y in [m] + alld(m) for e in y.get('enums', ())]])
            if name == 'Services':
                return self.slice([x['node'] for x in f.get('services', ())])
            if name == 'Descriptor':
                return self.filedesc(f)
            if name == 'Package':
                return f['pkgnode']
            if name == 'File':
                return f['node']
            raise Unsupported('pgs.File.' + name)
        f['node'] = nat(self.it, PGS + '.file', inv)

        def pinv(it, name, a):
            if name == 'ProtoName':
                return f['package']
            raise Unsupported('pgs.Package.' + name)
        f['pkgnode'] = nat(self.it, PGS + '.pkg', pinv)
        for m in f.get('messages', ()):
            self.message(m, f, f)
        for e in f.get('enums', ()):
            self.enum(e, f, f)
        for s in f.get('services', ()):
            self.service(s)
        return f['node']

    def filedesc(self, f):
        t = self.it.srv.type_named('google.golang.org/protobuf/types/descriptorpb.FileDescriptorProto')
        sv = zero(t)
        if f.get('options') is not None:
            ot = self.it.srv.type_named('google.golang.org/protobuf/types/descriptorpb.FileOptions')
            ov = zero(ot)
            for i, (n, ft, tag) in enumerate(ot.u.d['f']):
                if n in f['options']:
                    ov.f[i] = Ptr([f['options'][n]], 0)
            for i, (n, ft, tag) in enumerate(t.u.d['f']):
                if n == 'Options':
                    sv.f[i] = Ptr([ov], 0)
        return Ptr([sv], 0)


def entry_name(ctx, s):
    """protoc's name of the message type of a map field's entries."""
    out, cap = [], True
    for x in s.b:
        if ctx.decide(strs.beq(x, 95)):
            cap = True
        elif cap:
            out.append(up(x) if kind(ctx, x) == 'l' else x)
            cap = False
        else:
            out.append(x)
    return Str(tuple(out) + tuple(b'Entry'))


def alld(m):
    out = []
    for x in m.get('messages', ()):
        out.append(x)
        out += alld(x)
    return out


# ----------------------------------------------------------- reference -------
def kind(ctx, x):
    """'l' lower, 'u' upper, 'd' digit, 'o' anything else."""
    for k, lo, hi in (('l', 97, 122), ('u', 65, 90), ('d', 48, 57)):
        if ctx.decide(strs.rng(x, lo, hi)):
            return k
    return 'o'


def up(x):
    return x - 32


def camel(ctx, bs):
    """protoc's UnderscoresToCamelCase(name, cap_next_letter = true)."""
    out, cap = [], True
    for x in bs:
        k = kind(ctx, x)
        if k == 'l':
            out.append(up(x) if cap else x)
            cap = False
        elif k == 'u':
            out.append(x)
            cap = False
        elif k == 'd':
            out.append(x)
            cap = True
        else:
            cap = True
    return Str(out)


FORBIDDEN = ['Class', 'DefaultInstanceForType', 'ParserForType', 'SerializedSize', 'AllFields', 'DescriptorForType',
             'InitializationErrorString', 'UnknownFields', 'CachedSize']


def capname(ctx, bs):
    c = camel(ctx, bs)
    if ctx.decide(Or([strs.eq(c, strs.lift(w)) for w in FORBIDDEN])):
        return Str(c.b + (95,))
    return c


def java_field(ctx, fields, i):
    """The name in the accessors of fields[i], apart from List and Map."""
    caps = [capname(ctx, f['name'].b) for f in fields]
    f, c = fields[i], caps[i]

    def oneway(f1, n1, f2, n2):
        if f1['shape'] in ('rep', 'map') and f2['shape'] not in ('rep', 'map'):
            return Or([strs.eq(Str(n1.b + tuple(s)), n2) for s in (b'Count', b'List')])
        return False
    for j, g in enumerate(fields):
        if j != i and ctx.decide(Or(strs.eq(c, caps[j]), oneway(f, c, g, caps[j]), oneway(g, caps[j], f, c))):
            return Str(c.b + tuple(str(f['number']).encode()))
    return c


def upper_all(ctx, bs):
    return Str([up(x) if kind(ctx, x) == 'l' else x for x in bs])


def lower_all(ctx, bs):
    return Str([x + 32 if kind(ctx, x) == 'u' else x for x in bs])


def cat(*xs):
    out = ()
    for x in xs:
        out += x.b if isinstance(x, Str) else tuple(x.encode())
    return Str(out)


# ------------------------------------------------------------- scenarios -----
IDENT = 'ident'


def sym_ident(ctx, path, n, first=True):
    """A symbolic proto identifier of n characters."""
    bs = [z3.BitVec('%s[%d]' % (path, i), 8) for i in range(n)]
    for i, x in enumerate(bs):
        alts = [strs.rng(x, 97, 122), strs.rng(x, 65, 90), x == 95]
        if i or not first:
            alts.append(strs.rng(x, 48, 57))
        ctx.assume(Or(alts))
    return Str(bs)


def sym_case(ctx, path, word):
    """word with the case of the first letter of every part symbolic."""
    out, k = [], 0
    prev = '_'
    for i, c in enumerate(word):
        if c.isalpha() and (prev == '_' or c.isupper() or i == len(word) - 1):
            x = z3.BitVec('%s[%d]' % (path, i), 8)
            ctx.assume(Or(x == ord(c.lower()), x == ord(c.upper())))
            out.append(x)
        else:
            out.append(ord(c))
        prev = c
    return Str(out)


def ite_case(ctx, path, word):
    out = []
    for i, c in enumerate(word):
        if c.isalpha():
            x = z3.BitVec('%s[%d]' % (path, i), 8)
            ctx.assume(Or(x == ord(c.lower()), x == ord(c.upper())))
            out.append(x)
        else:
            out.append(ord(c))
    return Str(out)


class Run:
    """One path: the registered template functions and the entities."""

    def __init__(self, lang, prog, ctx, intr):
        self.lang, self.prog, self.ctx = lang, prog, ctx
        self.it = Interp(prog.srv, ctx, intr)
        self.w = World(self.it, ctx)
        self.pkg = PKG[lang]
        self.funcs = registered(self.it, self.pkg, REG[lang])
        self.want = []      # (what, got, want)

    def fn(self, *names):
        for n in names:
            if n in self.funcs:
                return self.funcs[n]
        raise Unsupported('no template function ' + names[0])

    def call(self, names, *args):
        v = self.fn(*([names] if isinstance(names, str) else names))
        r = self.it.call_value(v.v if isinstance(v, Iface) else v, list(args))
        r = r[0] if isinstance(r, tuple) else r
        return r

    def rulectx(self, f, index='', override=''):
        t = self.prog.srv.type_named(SHARED + '.RuleContext')
        sv = zero(t)
        for i, (n, ft, tag) in enumerate(t.u.d['f']):
            if n == 'Field':
                sv.f[i] = f['node']
            elif n == 'Index':
                sv.f[i] = strs.lift(index)
            elif n == 'AccessorOverride':
                sv.f[i] = strs.lift(override)
        return sv

    def expect(self, what, names, arg, want):
        try:
            got = self.call(names, arg)
        except GoPanic as g:
            got = g
        self.want.append((what, got, want))


def registered(it, pkg, names):
    """The functions the real Register functions give to the templates."""
    tplt = it.srv.ptrto(it.srv.type_named('text/template.Template')) if it.srv.type_named('text/template.Template') else None
    tpl = Native('tpl')
    for n in names:
        fid = it.srv.find(pkg + '.' + n)
        if fid is None:
            raise Unsupported('no %s.%s' % (pkg, n))
        it.call_id(fid, [tpl, None])
    return it.env.get('funcs', {})


def mkmsg(name, fields=(), messages=(), enums=()):
    return {'name': name, 'fields': list(fields), 'messages': list(messages), 'enums': list(enums)}


def mkfile(r, messages, name='f.proto', package='q', enums=(), services=(), options=None):
    f = {'name': strs.lift(name), 'package': strs.lift(package), 'messages': list(messages), 'enums': list(enums),
         'services': list(services), 'options': options}
    r.w.file(f)
    return f


L = strs.lift


# Each scenario yields the file and appends expectations to r.want.
def s_field(r, shape, name):
    f = {'name': name(r.ctx), 'shape': shape, 'number': 7}
    m = mkmsg(L('M'), [f])
    file = mkfile(r, [m])
    ctx = r.ctx
    r.scen = file
    fields_expect(r, [f], m)
    return file


def fields_expect(r, fields, m):
    ctx = r.ctx
    for i, f in enumerate(fields):
        rc = r.rulectx(f)
        if r.lang == 'java':
            n = java_field(ctx, fields, i)
            r.expect('accessor', 'accessor', rc, cat('proto.get', n, {'rep': 'List', 'map': 'Map'}.get(f['shape'], ''), '()'))
            if f['shape'] == 'msg':
                r.expect('has', 'hasAccessor', rc, cat('proto.has', n, '()'))
        elif r.lang == 'go':
            r.expect('accessor', 'accessor', rc, cat('m.Get', go_names(ctx, fields)[0][i], '()'))
        else:
            n = cc_name(ctx, f['name'])
            r.expect('accessor', 'accessor', rc, cat('m.', n, '()'))
            if f['shape'] == 'msg':
                r.expect('has', 'hasAccessor', rc, cat('m.has_', n, '()'))


def go_camel(ctx, s):
    """protoc-gen-go's GoCamelCase of a name or a dotted path."""
    out, i, bs = [], 0, s.b

    def lower(k):
        return k < len(bs) and ctx.decide(strs.rng(bs[k], 97, 122))
    while i < len(bs):
        x = bs[i]
        if isinstance(x, int) and x == 46:
            if not lower(i + 1):
                out.append(95)
        elif ctx.decide(strs.beq(x, 95)):
            if i == 0 or (isinstance(bs[i - 1], int) and bs[i - 1] == 46):
                out.append(88)
            elif not lower(i + 1):
                out.append(95)
        elif ctx.decide(strs.rng(x, 48, 57)):
            out.append(x)
        else:
            out.append(up(x) if lower(i) else x)
            while lower(i + 1):
                i += 1
                out.append(bs[i])
        i += 1
    return Str(out)


GORESERVED = ['Reset', 'String', 'ProtoMessage', 'Marshal', 'Unmarshal', 'ExtensionRangeArray', 'ExtensionMap', 'Descriptor']


def go_names(ctx, fields):
    """protoc-gen-go's names of the fields and, by identity, of the oneofs."""
    used = [(L(w), True) for w in GORESERVED]       # the last entry of a name counts

    def has(n):
        for k, v in reversed(used):
            if ctx.decide(strs.eq(k, n)):
                return v
        return False

    def unique(n, getter):
        while has(n) or (getter and has(cat('Get', n))):
            n = cat(n, '_')
        used.append((n, True))
        used.append((cat('Get', n), getter))
        return n
    out, ones = [], {}
    for f in fields:
        out.append(unique(go_camel(ctx, f['name']), True))
        o = f.get('oneof')
        if o and id(o) not in ones:
            ones[id(o)] = unique(go_camel(ctx, o['name']), False)
    return out, ones


def go_wrapper(ctx, msg, field, nested):
    n = cat(msg, '_', field)
    while ctx.decide(Or([strs.eq(n, x) for x in nested])):
        n = cat(n, '_')
    return n


CCKW = '''NULL alignas alignof and and_eq asm assert auto bitand bitor bool break case catch char class compl const constexpr const_cast
continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable
namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast return short signed sizeof static
static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void
volatile wchar_t while xor xor_eq'''.split()


def cc_name(ctx, s):
    n = lower_all2(s)
    if ctx.decide(Or([strs.eq(n, L(w)) for w in W['cckw']])):
        return Str(n.b + (95,))
    return n


def lower_all2(s):
    return Str([x + 32 if isinstance(x, int) and 65 <= x <= 90 else x if isinstance(x, int) else z3.If(strs.rng(x, 65, 90), x + 32, x) for x in s.b])


def cc_resolve(ctx, s):
    if ctx.decide(Or([strs.eq(s, L(w)) for w in W['cckw']])):
        return Str(s.b + (95,))
    return s


def s_pair(r, sh, a, suffix, b):
    """Two fields of one message."""
    n0 = sym_ident(r.ctx, 'n0', a)
    n1 = cat(sym_ident(r.ctx, 'n1', b), suffix)
    r.ctx.assume(Not(strs.eq(n0, n1)))
    fs = [{'name': n0, 'shape': sh[0], 'number': 7}, {'name': n1, 'shape': sh[1], 'number': 12}]
    if sh[0] == 'swap':
        fs = [{'name': n1, 'shape': 'one', 'number': 7}, {'name': n0, 'shape': 'rep', 'number': 12}]
    m = mkmsg(L('M'), fs)
    file = mkfile(r, [m])
    r.scen = file
    fields_expect(r, fs, m)
    return file


def s_gopair(r, pre, a, b, swap=''):
    n0, n1 = sym_ident(r.ctx, 'n0', a), cat(pre, sym_ident(r.ctx, 'n1', b, not pre))
    r.ctx.assume(Not(strs.eq(n0, n1)))
    fs = [{'name': n0, 'shape': 'one', 'number': 7}, {'name': n1, 'shape': 'one', 'number': 12}]
    m = mkmsg(L('M'), fs[::-1] if swap else fs)
    r.scen = mkfile(r, [m])
    fields_expect(r, m['fields'], m)
    return r.scen


def s_const(r, a, b):
    """The constants of two fields of one message are distinct."""
    n0, n1 = sym_ident(r.ctx, 'n0', a), sym_ident(r.ctx, 'n1', b)
    if a == b:
        r.ctx.assume(Not(strs.eq(n0, n1)))
    # protoc rejects fields with equal JSON names
    fs = [{'name': n0, 'shape': 'one', 'number': 7}, {'name': n1, 'shape': 'one', 'number': 12}]
    m = mkmsg(L('M'), fs)
    file = mkfile(r, [m])
    r.scen = file
    j = [json_name(r.ctx, n0), json_name(r.ctx, n1)]
    r.ctx.assume(Not(strs.eq(*j)))
    idx = ['', 'Key', 'Value']
    rules = ['In', 'NotIn', 'Pattern', 'Const']
    x = [(rule, i) for rule in rules for i in idx]
    cs = []
    for f in fs:
        for rule in ('In', 'NotIn'):
            got = r.it.call_value(fval(r.fn('constantName')), [r.rulectx(f), L(rule)])
            cs.append((rule, got))
    for i in range(2):
        for k in range(2, 4):
            r.want.append(('constants differ', cs[i][1], ('differs', cs[k][1])))
    return file


def go_apart(r, x, y):
    """protoc-gen-go does not tell x from y apart if their camel case agrees."""
    if r.lang == 'go':
        r.ctx.assume(Not(strs.eq(go_camel(r.ctx, x), go_camel(r.ctx, y))))


def s_lookup(r, how, a, b):
    """The tables and patterns of the fields of a file have distinct names."""
    ctx = r.ctx

    def fld(nm, num=7):
        return {'name': nm, 'shape': 'one', 'number': num}
    n0 = sym_ident(ctx, 'n0', a)
    if how == 'fields':
        n1 = sym_ident(ctx, 'n1', b)
        ctx.assume(Not(strs.eq(n0, n1)))
        ctx.assume(Not(strs.eq(json_name(ctx, n0), json_name(ctx, n1))))
        fs = [fld(n0), fld(n1, 12)]
        ms = [mkmsg(L('M'), fs)]
    elif how == 'nested':
        x, y = sym_ident(ctx, 'x', 1), sym_ident(ctx, 'y', 1)
        ctx.assume(Not(strs.eq(x, y)))
        go_apart(r, x, y)
        k = sym_ident(ctx, 'k', b)
        fs = [fld(n0), fld(n0)]
        ms = [mkmsg(x, [], [mkmsg(k, [fs[0]])]), mkmsg(y, [], [mkmsg(k, [fs[1]])])]
    elif how == 'messages':
        x, y = sym_ident(ctx, 'x', b), sym_ident(ctx, 'y', b)
        ctx.assume(Not(strs.eq(x, y)))
        go_apart(r, x, y)
        fs = [fld(n0), fld(n0)]
        ms = [mkmsg(x, [fs[0]]), mkmsg(y, [fs[1]])]
    else:
        k = sym_ident(ctx, 'k', 1)
        n1 = cat(k, '_', sym_ident(ctx, 'n1', b))
        fs = [fld(n0, 3), fld(n1, 12 if how == 'own' else 3)]
        ms = [mkmsg(L('A'), [fs[1]], [mkmsg(k, [fs[0]])])]
    file = mkfile(r, ms)
    r.scen = file
    names = []
    for f in fs:
        for what in ('InLookup', 'NotInLookup', 'Pattern'):
            names.append((what, r.it.call_value(fval(r.fn('lookup')), [r.rulectx(f) if r.lang == 'go' else f['node'], L(what)])))
    for i in range(3):
        for j in range(3, 6):
            r.want.append(('tables differ', names[i][1], ('differs', names[j][1])))
    return file


def fval(v):
    return v.v if isinstance(v, Iface) else v


def json_name(ctx, s):
    out, cap = [], False
    for x in s.b:
        if ctx.decide(strs.beq(x, 95)):
            cap = True
        elif cap:
            out.append(up(x) if kind(ctx, x) == 'l' else x)
            cap = False
        else:
            out.append(x)
    return Str(out)


def s_oneof(r, n, which):
    """A oneof and its member."""
    o = sym_ident(r.ctx, 'o', n) if which == 'oneof' else L('choice')
    f = {'name': sym_ident(r.ctx, 'n', n) if which == 'field' else L('member'), 'shape': 'one', 'number': 7, 'oneof': {'name': o}}
    r.ctx.assume(Not(strs.eq(o, f['name'])))
    m = mkmsg(L('M'), [f])
    file = mkfile(r, [m])
    r.scen = file
    ctx = r.ctx

    if r.lang == 'java':
        if which == 'oneof':
            r.expect('case getter', 'camelCase', o, camel(ctx, o.b))
        else:
            r.expect('case constant', 'oneof', f['node'], upper_all(ctx, f['name'].b))
    elif r.lang == 'go':
        names, ones = go_names(ctx, [f])
        r.expect('oneof', 'name', f['oneof']['node'], ones[id(f['oneof'])])
        r.expect('case type', 'oneof', f['node'], cat('*M_', names[0]))
    else:
        r.expect('case constant', 'oneof', f['node'], cat('::q::M::', camel(ctx, o.b), 'Case::k', camel(ctx, f['name'].b)))
    return file


def s_gooneof(r, n, shape, k, suffix):
    """Oneofs, fields and declarations of one message whose names are close."""
    ctx = r.ctx
    o = {'name': cat('get_' if shape == 'getter oneof' else '', sym_ident(ctx, 'o', n))}
    f = {'name': sym_ident(ctx, 'n', k), 'shape': 'one', 'number': 7, 'oneof': o}
    g = {'name': cat(sym_ident(ctx, 'g', n), suffix), 'shape': 'one', 'number': 12}
    if shape in ('getter', 'getter first'):
        g['name'] = cat('get_', g['name'])
    ctx.assume(And([Not(strs.eq(x, y)) for x, y in ((o['name'], f['name']), (o['name'], g['name']), (f['name'], g['name']))]))
    fs = [g, f] if shape.endswith('first') else [f, g]
    ms, es = [], []
    if shape == 'message':
        fs, ms = [f], [mkmsg(g['name'])]
    elif shape == 'messages':
        d = cat(sym_ident(ctx, 'd', n), suffix, '_')
        fs, ms, es = [f], [mkmsg(g['name'])], [{'name': d}]
    elif shape == 'enum':
        fs, es = [f], [{'name': g['name']}]
    elif shape == 'both':
        g['oneof'] = o
    m = mkmsg(L('M'), fs, ms, es)
    r.scen = mkfile(r, [m])
    names, ones = go_names(ctx, fs)
    for x, nm in zip(fs, names):
        r.expect('accessor', 'accessor', r.rulectx(x), cat('m.Get', nm, '()'))
    r.expect('oneof', 'name', o['node'], ones[id(o)])
    nested = [go_camel(ctx, cat('M.', x['name'])) for x in ms + es]
    r.expect('case type', 'oneof', f['node'], cat('*', go_wrapper(ctx, L('M'), names[fs.index(f)], nested)))
    return r.scen


def s_gofile(r, n):
    """What is declared once per file has a valid name, one of its own."""
    ctx = r.ctx
    fs = []
    for k in range(2):
        bs = [z3.BitVec('base%d[%d]' % (k, i), 8) for i in range(n)]
        for i, x in enumerate(bs):
            ctx.assume(Or([strs.rng(x, 97, 122), strs.rng(x, 65, 90), strs.rng(x, 48, 57), x == 95] + [x == c for c in b'-.+@~ ,=']))
        ctx.assume(And([Or([strs.rng(bs[0], 97, 122), strs.rng(bs[0], 65, 90), strs.rng(bs[0], 48, 57)])] + [bs[-1] != c for c in b'. ']))
        base = Str(bs)
        fs.append((base, {'name': cat('dir/', base, '.proto'), 'package': L('q'), 'messages': [mkmsg(L('M%d' % k), [{'name': L('u'), 'shape': 'uuid', 'number': 7}])],
                          'enums': [], 'services': [], 'options': None}))

    def san(s):
        return Str([x if ctx.decide(Or([strs.rng(x, 97, 122), strs.rng(x, 65, 90), strs.rng(x, 48, 57)])) else 95 for x in s.b])
    two = ctx.choose(2, 'files') == 1
    names = []
    for base, f in fs[:2 if two else 1]:
        r.w.file(f)
        if 'fileVar' in r.funcs:
            names.append(r.it.call_value(fval(r.funcs['fileVar']), [f['node'], L('x')]))
        else:
            names.append(cat('_', r.it.call_value(fval(r.fn('snakeCase')), [base]), '_x'))
    r.scen = fs[0][1]
    if two:
        # protoc-gen-go itself derives names from the sanitized path
        ctx.assume(Not(strs.eq(san(fs[0][0]), san(fs[1][0]))))
        r.scen = dict(fs[0][1], second=fs[1][1])
        r.want.append(('variables differ', names[0], ('differs', names[1])))
    else:
        word = And([Or([strs.rng(x, 97, 122), strs.rng(x, 65, 90), strs.rng(x, 48, 57), strs.beq(x, 95)]) for x in names[0].b])
        r.want.append(('variable', names[0], ('is', word)))
    return r.scen


def s_goqual(r, chain, lens):
    """The Go types of nested messages and enums."""
    ctx = r.ctx
    ids = [sym_ident(ctx, 't%d' % i, n) for i, n in enumerate(lens)]
    last = {'name': ids[-1]} if chain == 'enum' else mkmsg(ids[-1], [{'name': L('x'), 'shape': 'one', 'number': 7}])
    ent = last
    top = None
    for k, i in enumerate(reversed(ids[:-1])):
        ent = mkmsg(i, [], [] if chain == 'enum' and k == 0 else [ent], [ent] if chain == 'enum' and k == 0 else [])
    file = dict(name=L('f.proto'), package=L('q'), messages=[] if ent is last and chain == 'enum' else [ent], enums=[ent] if ent is last and chain == 'enum' else [],
                services=[], options=None)
    r.w.file(file)
    r.scen = file
    path = ids[0]
    for i in ids[1:]:
        path = cat(path, '.', i)
    want = go_camel(ctx, path)
    r.expect('type', 'name', last['node'], want)
    if chain != 'enum':
        r.expect('type', 'msgTyp', last['node'], want)
        r.expect('error type', 'errname', last['node'], cat(want, 'ValidationError'))
        r.expect('error type', 'multierrname', last['node'], cat(want, 'MultiError'))
    return file


def s_file(r, n, m, where):
    """The outer class of a file and a declaration that may have its name."""
    ctx = r.ctx
    bs = [z3.BitVec('base[%d]' % i, 8) for i in range(n)]
    for i, x in enumerate(bs):
        alts = [strs.rng(x, 97, 122), strs.rng(x, 65, 90)]
        if i:
            alts += [strs.rng(x, 48, 57), x == 95, x == 45]
        if 0 < i < n - 1:
            alts.append(x == 46)
        ctx.assume(Or(alts))
    base = Str(bs)
    if where == 'map entry':
        base = cat(base, '_entry')
    d = sym_ident(ctx, 'd', m) if where else None
    msg = mkmsg(L('mmm'), [{'name': L('x'), 'shape': 'one', 'number': 7}])
    file = dict(name=cat('dir/', base, '.proto'), package=L('q'), messages=[msg], enums=[], services=[], options=None)
    if where == 'message':
        file['messages'].append(mkmsg(d))
    elif where == 'enum':
        file['enums'].append({'name': d})
    elif where == 'service':
        file['services'].append({'name': d})
    elif where == 'nested message':
        msg['messages'].append(mkmsg(d))
    elif where == 'nested enum':
        msg['enums'].append({'name': d})
    elif where == 'deep enum':
        msg['messages'].append(mkmsg(L('nnn'), enums=[{'name': d}]))
    elif where == 'map entry':
        msg['fields'].append({'name': d, 'shape': 'map', 'number': 8})
        d = entry_name(ctx, d)
    if where:
        for w in ('mmm', 'nnn', 'eee', 'x', 'X'):
            ctx.assume(Not(strs.eq(d, L(w))))
    r.w.file(file)
    r.scen = file
    want = camel(ctx, base.b)
    if where and ctx.decide(strs.eq(want, d)):
        want = cat(want, 'OuterClass')
    r.expect('outer class', 'classNameFile', file['node'], want)
    return file


def s_qual(r, ent):
    """The qualified name of every kind of declaration under every option."""
    ctx = r.ctx
    pkg = ['', 'q', 'q.r'][ctx.choose(3, 'package')]
    o = ctx.choose(2, 'options') == 1
    opts = None
    if o or r.lang == 'java':
        opts = {}
    if r.lang == 'java':
        if ctx.choose(2, 'java_package'):
            opts['JavaPackage'] = L('jp.x')
        mf = ctx.choose(3, 'multiple')
        if mf:
            opts['JavaMultipleFiles'] = mf == 2
        if ctx.choose(2, 'outer'):
            opts['JavaOuterClassname'] = L('Outer')
        if not opts and not o:
            opts = None
    n = sym_ident(ctx, 'n', 2)
    tn = sym_ident(ctx, 't', 2) if r.lang == 'cc' and ent != 'message' and ent != 'enum' else L('T')
    inner = mkmsg(n, [{'name': L('x'), 'shape': 'one', 'number': 7}])
    e = {'name': n}
    top = mkmsg(tn)
    file = dict(name=L('dir/f_g.proto'), package=L(pkg), messages=[top], enums=[], services=[], options=opts)
    nest = []
    if ent == 'message':
        file['messages'].append(inner)
    elif ent == 'enum':
        file['enums'].append(e)
    elif ent == 'nested message':
        top['messages'].append(inner)
        nest = ['T']
    elif ent == 'nested enum':
        top['enums'].append(e)
        nest = ['T']
    else:
        mid = mkmsg(L('U'))
        top['messages'].append(mid)
        (mid['messages'] if ent == 'deep message' else mid['enums']).append(inner if ent == 'deep message' else e)
        nest = ['T', 'U']
    if nest != ['T', 'U'] and ent.endswith('message') and not nest:
        ctx.assume(Not(Or([strs.eq(n, L(w)) for w in ('FG',)])))
    ctx.assume(Not(Or([strs.eq(n, L(w)) for w in ('FG',)])))
    r.w.file(file)
    r.scen = file
    node = (e if 'enum' in ent else inner)['node']
    if r.lang == 'java':
        parts = []
        jp = 'jp.x' if 'JavaPackage' in (opts or {}) else pkg
        if jp:
            parts.append(jp)
        if not (opts or {}).get('JavaMultipleFiles'):
            parts.append('Outer' if 'JavaOuterClassname' in (opts or {}) else 'FG')
        parts += nest
        r.expect('qualified name', 'qualifiedName', node, cat(*([p + '.' for p in parts] + [n])))
    else:
        own = n if not nest else None
        if nest:
            own = cc_resolve(ctx, tn)
            for x in nest[1:]:
                own = cc_resolve(ctx, cat(own, '_' + x))
            own = cat(own, '_', n)
        own = cc_resolve(ctx, own)
        r.expect('qualified name', 'class', node, cat(''.join('::' + p for p in pkg.split('.') if p), '::', own))
    return file


SCEN = {'gopair': s_gopair, 'gooneof': s_gooneof, 'gofile': s_gofile, 'goqual': s_goqual, 'field': s_field, 'pair': s_pair, 'const': s_const, 'oneof': s_oneof, 'file': s_file, 'qual': s_qual, 'lookup': s_lookup}


def ident_of(n):
    return lambda ctx: sym_ident(ctx, 'n', n)


def near(word):
    return lambda ctx: sym_case(ctx, 'n', word)


def anycase(word):
    return lambda ctx: ite_case(ctx, 'n', word)


def words_near(w):
    """Spellings of a forbidden accessor name: WordWord, word_word, _word, ..."""
    parts = re.findall('[A-Z][a-z]*', w)
    low = [p.lower() for p in parts]
    return ['_'.join(low), ''.join([low[0]] + parts[1:]), '_' + '_'.join(low), '_'.join(low) + '_', '_'.join(low) + 's']


def tasks_for(lang, tier):
    q = tier == 'quick'
    out = []
    if lang == 'java':
        N = 4 if q else 5
        for sh in ('one', 'rep', 'map', 'msg'):
            for n in range(1, (N if sh == 'one' else N - 1) + 1):
                out.append(('field', sh, ('len', n)))
        for w in FORBIDDEN:
            for k, x in enumerate(words_near(w)):
                for sh in ('one', 'msg') if q else ('one', 'rep', 'map', 'msg'):
                    out.append(('field', sh, ('near', x)))
        for sh in (('rep', 'one'), ('one', 'rep'), ('map', 'one'), ('rep', 'rep'), ('one', 'one'), ('msg', 'rep'), ('swap', '')):
            for suf in ('', 'Count', '_count', 'List', '_list', 'count', 'Counts'):
                for a in (1, 2) if q else (1, 2, 3):
                    out.append(('pair', sh, a, suf, a))
                if suf == '':
                    out.append(('pair', sh, 1, suf, 2))
                    out.append(('pair', sh, 2, suf, 1))
        for a in (1, 2, 3):
            for b in range(a, 4 if q else 5):
                if a + b <= (5 if q else 6):
                    out.append(('const', a, b))
        for n in range(1, N + 1):
            out.append(('oneof', n, 'oneof'))
        out += [('oneof', n, 'field') for n in range(1, N)]
        for n in range(1, N + 1):
            out.append(('file', n, 0, None))
        for wh in ('message', 'enum', 'service', 'nested message', 'nested enum', 'deep enum', 'map entry'):
            for n in (1, 2, 3):
                for m in range(max(1, n - 1), n + 1):
                    out.append(('file', n, m, wh))
    elif lang == 'go':
        for sh in ('one', 'rep', 'map', 'msg'):
            for n in range(1, (5 if q else 6) if sh == 'one' else 3):
                out.append(('field', sh, ('len', n)))
        for w in GORESERVED:
            low = '_'.join(x.lower() for x in re.findall('[A-Z][a-z]*', w))
            out += [('field', 'one', ('near', x)) for x in (low, low + '_', '_' + low, low.replace('_', ''), w)]
        for pre in ('', 'get_', 'Get', 'get', 'GET_'):
            for a, b in ((1, 1), (2, 2), (1, 2), (2, 1)) + (() if q else ((3, 3), (2, 3))):
                out += [('gopair', pre, a, b), ('gopair', pre, b, a, 'swap')]
        for n in range(1, 5 if q else 6):
            out += [('oneof', n, 'oneof'), ('oneof', n, 'field')]
        for shape in ('field', 'field first', 'getter', 'getter first', 'getter oneof', 'message', 'messages', 'enum', 'both'):
            for n, k in ((1, 1), (2, 1), (1, 2)) + (() if q else ((2, 2),)):
                for suf in ('', '_'):
                    if not (q and n > 1 and shape == 'messages'):
                        out.append(('gooneof', n, shape, k, suf))
        for a in (1, 2, 3):
            for b in (1, 2, 3):
                if a + b < (5 if q else 7):
                    out += [('lookup', 'fields', a, b)] if a <= b else []
                    out += [('lookup', 'own', a, b), ('lookup', 'own, same number', a, b)]
            for b in (1, 2):
                out += [('lookup', 'nested', a, b), ('lookup', 'messages', a, b)]
        for ch in ('message', 'enum'):
            for lens in ((1,), (2,), (3,), (1, 1), (1, 2), (2, 2), (1, 1, 1), (1, 2, 1)) + (() if q else ((4,), (2, 3), (3, 2), (2, 1, 2))):
                out.append(('goqual', ch, lens))
        out += [('gofile', n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
        return out
    else:
        for sh in ('one', 'rep', 'map', 'msg'):
            for n in range(1, 18):
                out.append(('field', sh, ('len', n)))
        for n in range(1, (5 if q else 6)):
            out.append(('oneof', n, 'oneof'))
            out.append(('oneof', n, 'field'))
        for a in (1, 2, 3):
            for b in (1, 2, 3):
                if a + b < (5 if q else 7):
                    out += [('lookup', 'fields', a, b)] if a <= b else []
                    out.append(('lookup', 'own', a, b))
                    out.append(('lookup', 'own, same number', a, b))
            for b in (1, 2):
                out.append(('lookup', 'nested', a, b))
                out.append(('lookup', 'messages', a, b))
    for e in ('message', 'enum', 'nested message', 'nested enum', 'deep message', 'deep enum'):
        out.append(('qual', e))
    return out


def run_task(task):
    lang = W['lang']
    ctx = Ctx(deadline=time.time() + W['secs'])
    rec = {'task': task, 'wit': [], 'cex': [], 'secs': 0}
    t0 = time.time()
    intr = W.setdefault('intr', intrinsics())
    name, args = task[0], list(task[1:])
    if name == 'field':
        k, v = args[1]
        args[1] = ident_of(v) if k == 'len' else near(v) if lang in ('java', 'go') else anycase(v)

    def body(cx):
        r = Run(lang, W['prog'], cx, intr)
        SCEN[name](r, *args)
        diffs = []
        for what, got, want in r.want:
            if isinstance(got, GoPanic):
                diffs.append((what, True, got))
            elif isinstance(want, tuple) and want[0] == 'is':
                diffs.append((what, Not(want[1]), got))
            elif isinstance(want, tuple):
                diffs.append((what, strs.eq(got, want[1]), got))
            else:
                diffs.append((what, Not(strs.eq(got, want)), got))
        anyd = Or([d for _, d, _ in diffs])
        cx.stats.functions |= set()
        if cx.check() == z3.sat:
            mo = cx.model()
            rec['wit'].append(concrete(r.scen, mo))
        if conc_bool(anyd) is False:
            cx.stats.queries += 1
            return
        if cx.check(tobool(anyd)) == z3.sat:
            mo = cx.model()
            bad = [(w, text(g, mo)) for w, d, g in diffs if z3.is_true(mo.eval(tobool(d), model_completion=True))]
            rec['cex'].append((concrete(r.scen, mo), bad))
    rec['exhausted'] = bool(ctx.explore(body))
    rec['secs'] = time.time() - t0
    rec['stats'] = ctx.stats
    return rec


def text(s, mo):
    if isinstance(s, GoPanic):
        return 'panic: %s' % s.why
    if not isinstance(s, Str):
        return repr(s)
    return bytes(x if isinstance(x, int) else mo.eval(x, model_completion=True).as_long() for x in s.b).decode('latin1')


def concrete(f, mo):
    """The concrete .proto file of a model, as a JSON tree."""
    def st(s):
        return text(s, mo)

    def msg(m):
        return {'name': st(m['name']), 'messages': [msg(x) for x in m.get('messages', ())], 'enums': [st(e['name']) for e in m.get('enums', ())],
                'fields': [{'name': st(x['name']), 'shape': x['shape'], 'number': x['number'],
                            'oneof': st(x['oneof']['name']) if x.get('oneof') else None} for x in m.get('fields', ())]}
    more = {'second': concrete(f['second'], mo)} if f.get('second') else {}
    return {**more, 'name': st(f['name']), 'package': st(f['package']), 'messages': [msg(m) for m in f['messages']],
            'enums': [st(e['name']) for e in f['enums']], 'services': [st(s['name']) for s in f['services']],
            'options': None if f['options'] is None else {k: (v if isinstance(v, bool) else st(v)) for k, v in f['options'].items()}}


# ---------------------------------------------------------------- replay -----
def proto_of(c, ns, gopkg=None):
    """Text of the .proto file of a concrete scenario; ns is its package."""
    n = [0]

    def enum(e, ind):
        n[0] += 1
        return '%senum %s { EV%d_0 = 0; EV%d_1 = 1; }' % (ind, e, n[0], n[0])

    def msg(m, ind, q):
        out = ['%smessage %s {' % (ind, m['name'])]
        for e in m['enums']:
            out.append(enum(e, ind + '  '))
            n[0] += 1
            out.append('%s  optional %s ef%d = %d [(validate.rules).enum.defined_only = true];' % (ind, e, n[0], n[0] + 100))
        for x in m['messages']:
            out += msg(x, ind + '  ', q)
            n[0] += 1
            out.append('%s  optional %s mf%d = %d [(validate.rules).message.required = true];' % (ind, x['name'], n[0], n[0] + 100))
        for f in m['fields']:
            t = {'one': 'optional string %s = %d [(validate.rules).string = {in: ["a", "b"]}];',
                 'rep': 'repeated string %s = %d [(validate.rules).repeated.min_items = 1];',
                 'map': 'map<string, string> %s = %d [(validate.rules).map.min_pairs = 1];',
                 'uuid': 'optional string %s = %d [(validate.rules).string.uuid = true];',
                 'msg': 'optional .validate.StringRules %s = %d [(validate.rules).message.required = true];'}[f['shape']] % (f['name'], f['number'])
            if f['oneof']:
                t = 'oneof %s { option (validate.required) = true; %s }' % (f['oneof'], t.replace('optional ', ''))
            out.append(ind + '  ' + t)
        out.append(ind + '}')
        return out
    L = ['syntax = "proto2";']
    if ns:
        L.append('package %s;' % ns)
    if gopkg:
        L.append('option go_package = "pgvscratch/%s;%s";' % (gopkg, gopkg))
    o = c['options'] or {}
    if 'JavaPackage' in o:
        L.append('option java_package = "%s";' % o['JavaPackage'])
    if 'JavaMultipleFiles' in o:
        L.append('option java_multiple_files = %s;' % str(o['JavaMultipleFiles']).lower())
    if 'JavaOuterClassname' in o:
        L.append('option java_outer_classname = "%s";' % o['JavaOuterClassname'])
    L.append('import "validate/validate.proto";')
    for e in c['enums']:
        L.append(enum(e, ''))
    for m in c['messages']:
        L += msg(m, '', '')
    for e in c['enums']:
        n[0] += 1
        L.append('message EnumUser { optional %s e = 1 [(validate.rules).enum = {in: [1]}]; }' % e)
    for s in c['services']:
        L.append('service %s {}' % s)
    return '\n'.join(L) + '\n'


def replay(scratch, lang, c):
    """Differences between the names the real generator used and those real
    protoc defined: None if protoc rejects the file."""
    import tempfile
    d = tempfile.mkdtemp(prefix='n.', dir=scratch.dir)
    try:
        rel = c['name']
        p = os.path.join(d, 'p', rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(proto_of(c, c['package']))
        inc = ['-I', os.path.join(d, 'p'), '-I', util.REPO]
        ref, out = os.path.join(d, 'ref'), os.path.join(d, 'out')
        os.makedirs(ref), os.makedirs(out)
        rc, o = util.run(['protoc'] + inc + ['--%s_out=%s' % ('java' if lang == 'java' else 'cpp', ref), rel], cwd=d, timeout=60)
        if rc:
            return None, o
        rc, o = util.run(['protoc'] + inc + ['--plugin=' + scratch.path('bin', 'protoc-gen-validate'), '--validate_out=lang=%s:%s' % (lang, out), rel],
                         cwd=d, env=scratch.env, timeout=60)
        if rc:
            return ['the plugin fails: ' + o[-300:]], ''
        return (java_diff if lang == 'java' else cc_diff)(c, ref, out), ''
    finally:
        util.shutil.rmtree(d, ignore_errors=True)


def go_replay(scratch, cases):
    """The same for Go: every case is a package of its own."""
    d = scratch.gomodule()
    inc = ['-I', util.REPO]
    res = [None] * len(cases)
    gob = '--plugin=' + scratch.path('bin', 'protoc-gen-go')
    val = '--plugin=' + scratch.path('bin', 'protoc-gen-validate')

    def files(k):
        fs = [cases[k]] + ([cases[k]['second']] if cases[k].get('second') else [])
        return os.path.join(scratch.path('gonames', str(k)), 'p'), fs

    def gen(k, plug, what, opt):
        p, fs = files(k)
        for f in fs:
            os.makedirs(os.path.dirname(os.path.join(p, f['name'])), exist_ok=True)
            with open(os.path.join(p, f['name']), 'w') as h:
                h.write(proto_of(f, f['package'], 'n%d' % k))
        return util.run(['protoc', '-I', p] + inc + [plug, '--%s_out=%s:%s' % (what, opt, d)] + [f['name'] for f in fs], cwd=p, env=scratch.env, timeout=60)

    def build():
        rc, o = util.run(['go', 'build', '-gcflags=-e', './...'], cwd=d, env=scratch.env, timeout=600)
        bad, cur = {}, None
        for line in o.split('\n') if rc else ():
            m = re.match(r'# pgvscratch/n(\d+)$', line)
            if m:
                cur = int(m.group(1))
            elif cur is not None and line.strip():
                bad.setdefault(cur, []).append(line.strip())
        if rc and not bad:
            raise RuntimeError('go build: ' + o[-600:])
        return bad

    def drop(k):
        util.shutil.rmtree(os.path.join(d, 'n%d' % k), ignore_errors=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for k, (rc, o) in enumerate(ex.map(lambda k: gen(k, gob, 'go', 'module=pgvscratch'), range(len(cases)))):
            res[k] = (None, o) if rc else ([], '')
            if rc:
                drop(k)
        for k, o in build().items():
            res[k] = None, '\n'.join(o)
            drop(k)
        live = [k for k in range(len(cases)) if res[k][0] is not None]
        for k, (rc, o) in zip(live, ex.map(lambda k: gen(k, val, 'validate', 'module=pgvscratch,lang=go'), live)):
            if rc:
                res[k] = ['the plugin fails: ' + o[-300:]], ''
                drop(k)
            else:
                res[k] = go_diff(os.path.join(d, 'n%d' % k)), ''
    for k, o in build().items():
        res[k] = (res[k][0] or []) + [re.sub(r'^\S+?/([^/]*:\d+):\d+', r'\1', x) for x in o], ''
        drop(k)
    for k in range(len(cases)):
        drop(k)
    return res


def go_diff(d):
    """Every field with rules is read by its own getter."""
    pb = '\n'.join(texts(d, '.pb.go').values())
    diffs = []
    for t in texts(d, '.validate.go').values():
        for m, body in re.findall(r'^func \(m \*(\w+)\) validate\(all bool\) error \{(.*?)^\}', t, re.M | re.S):
            got = re.findall(r'\bm\.Get(\w+)\(\)', body)
            have = set(re.findall(r'^func \(x \*%s\) Get(\w+)\(\)' % m, pb, re.M))
            st = re.search(r'^type %s struct \{(.*?)^\}' % m, pb, re.M | re.S)
            ones = set(re.findall(r'^\t(\w+) +is\w+ `protobuf_oneof', st.group(1), re.M)) if st else set()
            if set(got) != have - ones:
                diffs.append('%s reads %s, not %s' % (m, sorted(set(got)), sorted(have - ones)))
    return diffs


def texts(d, ext):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(ext):
                p = os.path.join(r, f)
                out[os.path.relpath(p, d)] = open(p).read()
    return out


def java_classes(ref):
    """Fully qualified name -> set of methods, of protoc's Java output."""
    out = {}
    for rel, t in ref.items():
        pk = re.search(r'^package ([\w.]+);', t, re.M)
        pre = pk.group(1) + '.' if pk else ''
        stack = []
        depth, doc = 0, False
        for line in re.sub(r'(public [\w.]+)\n +(\w+\()', r'\1 \2', t).split('\n'):
            code = re.sub(r'"(\\.|[^"\\])*"', '""', line)
            code = re.sub(r"'(\\.|[^'\\])'", "''", code)
            code = code.split('//')[0]
            s = re.sub(r'^(@[\w.]+ )+(?=\S)', '', code.strip())
            if s.startswith('*') or s.startswith('/*'):
                doc = '<code>' in line or (doc and not s.startswith('/*'))
                continue
            m = re.match(r'(?:public |private |protected |static |final |abstract )*(?:class|interface|enum|@interface) (\w+)', s)
            if m:
                stack.append((m.group(1), depth))
                out.setdefault(pre + '.'.join(x for x, _ in stack), set())
            elif stack and depth == stack[-1][1] + 1 and s.startswith('public '):
                k = re.search(r'\b(\w+)\(', s)
                if k and (doc or k.group(1).endswith('Case')):   # accessors of fields and oneofs
                    out[pre + '.'.join(x for x, _ in stack)].add(k.group(1))
            if s and not s.startswith('@'):
                doc = False
            depth += code.count('{') - code.count('}')
            while stack and depth <= stack[-1][1] and ('}' in code):
                stack.pop()
        for k in re.findall(r'^ +(\w+)\(\d+\)[,;]', t, re.M):
            out.setdefault('#cases', set()).add(k)
    return out


def java_diff(c, ref, out):
    refs, outs = texts(ref, '.java'), texts(out, '.java')
    cls = java_classes(refs)
    diffs = []
    if not outs:
        return ['no validator is generated']
    for rel, t in outs.items():
        pk = re.search(r'^package (.*);$', t, re.M)
        want = os.path.dirname(rel).replace('/', '.')
        if (pk.group(1) if pk else '') != want or (pk and not pk.group(1)):
            diffs.append('%s: package statement %r' % (rel, pk.group(0) if pk else ''))
        m = re.search(r'^public class (\w+)', t, re.M)
        if not m or m.group(1) + '.java' != os.path.basename(rel):
            diffs.append('%s: public class %s' % (rel, m and m.group(1)))
        elif want + ('.' if want else '') + m.group(1)[:-len('Validator')] not in cls:
            diffs.append('%s: no class %s' % (rel, m.group(1)[:-len('Validator')]))
        for q in re.findall(r'ValidatorImpl<(\S+)>', t) + re.findall(r'clazz\.equals\((.*)\.class\)', t) + re.findall(r'new (\S+)\[\]\{', t):
            if q not in cls and q != 'String':
                diffs.append('%s: no class %s' % (rel, q))
        # the body of every validator against its own message
        for q, body in re.findall(r'public void assertValid\((\S+) proto,(.*?)\n\t\}', t, re.S):
            for k in sorted(set(re.findall(r'\bproto\.(\w+)\(', body))):
                if q in cls and k not in cls[q]:
                    diffs.append('%s: %s has no %s()' % (rel, q, k))
            if re.search(r'proto\.getClass\(\)', body):
                diffs.append('%s: %s.getClass() is no field' % (rel, q))
            for k in re.findall(r'\bcase (\S+):', body):
                if k not in cls.get('#cases', ()):
                    diffs.append('%s: no case %s' % (rel, k))
        for body in re.findall(r'ValidatorImpl<\S+> ?\{(.*?)public void assertValid', t, re.S):
            ns = re.findall(r'\bfinal \S+ (\w+) =', body) + re.findall(r'Pattern (\w+) =', body)
            for k in sorted(set(ns)):
                if ns.count(k) > 1:
                    diffs.append('%s: constant %s defined twice' % (rel, k))
    return sorted(set(diffs))


def cc_diff(c, ref, out):
    refs, outs = texts(ref, '.pb.h'), texts(out, '.h')
    outs.update(texts(out, '.cc'))
    diffs = []
    if not outs:
        return ['no validator is generated']
    h = '\n'.join(refs.values())
    base = re.sub(r'\.proto$', '', c['name'])
    for ext in ('.pb.validate.h', '.pb.validate.cc'):
        if base + ext not in outs:
            diffs.append('no %s%s' % (base, ext))
    ns = '::' + '::'.join(c['package'].split('.')) if c['package'] else ''
    cls = {}
    for n, body in re.findall(r'^class (\w+) final :\s*\n(.*?)\n\};', h, re.S | re.M):
        cls[ns + '::' + n] = set(re.findall(r'\b(\w+)\((?:int index)?\) const', body)) | set(re.findall(r'\b(k\w*) = ', body)) | set(re.findall(r'enum (\w*Case) ', body))
    enums = {ns + '::' + n for n in re.findall(r'^enum (\w+) :', h, re.M)}
    for rel, t in outs.items():
        for q in re.findall(r'\bValidate\(const (\S+)& m', t):
            if q not in cls:
                diffs.append('%s: no class %s' % (rel, q))
        for q in re.findall(r'#include "(.*\.pb(?:\.validate)?\.h)"', t):
            if q not in refs and q not in outs:
                diffs.append('%s: no header %s' % (rel, q))
        for q in re.findall(r'(?:std::set<|case )([\w:]*::\w+)', t):
            parts = q.split('::')
            if q in cls or q in enums or q.startswith(('std::', 'pgv::', '::pgv::')):
                continue
            own = '::'.join(parts[:-2])
            if len(parts) > 2 and own in cls and parts[-2] in cls[own] and parts[-1] in cls[own]:
                continue
            diffs.append('%s: no %s' % (rel, q))
        if rel.endswith('.cc'):
            names = re.findall(r'^\s*const (?:std::\w+<.*>|re2::RE2) (\w+)(?: =|\()', t, re.M)
            for k in sorted(set(names)):
                if names.count(k) > 1:
                    diffs.append('%s: %s defined twice' % (rel, k))
            for k in re.findall(r'^\s*const (std::\w+<.*>) \w+ =', t, re.M):
                if '*' in k:
                    diffs.append('%s: a table of pointers, %s' % (rel, k))
        if re.search(r'^namespace\s*\{', t, re.M):
            diffs.append('%s: an unnamed namespace' % rel)
        for q, body in re.findall(r'^bool Validate\(const (\S+)& m, pgv::ValidationMsg\* err\) \{(.*?)\n\}', t, re.S | re.M):
            for k in sorted(set(re.findall(r'\bm\.(\w+)\(', body))):
                if q in cls and k not in cls[q]:
                    diffs.append('%s: %s has no %s()' % (rel, q, k))
    return sorted(set(diffs))


# ------------------------------------------------------------------ check ----
def _init(scratch, lang, tier, secs, kw):
    W.update(lang=lang, tier=tier, secs=secs, cckw=kw)
    W['prog'] = GoProg(scratch, None, [PKG[lang]])


def _task(t):
    try:
        return run_task(t)
    except Exception:
        import traceback
        return {'task': t, 'err': traceback.format_exc()}


def cc_keywords(scratch):
    """The identifiers the installed protoc escapes in C++."""
    words = sorted(set(CCKW) | {'co_await', 'co_return', 'co_yield', 'concept', 'requires', 'char8_t', 'char16_t', 'char32_t', 'consteval', 'constinit',
                                'final', 'override', 'import', 'module', 'main', 'std', 'descriptor', 'swap', 'errno', 'stdin', 'null', 'eof'})
    d = scratch.path('kw', 'x')
    d = os.path.dirname(d)
    with open(os.path.join(d, 'k.proto'), 'w') as f:
        f.write('syntax = "proto2";\npackage k;\n' + ''.join('message W%d { optional int32 %s = 1; }\n' % (i, w) for i, w in enumerate(words)))
    rc, o = util.run(['protoc', '-I', d, '--cpp_out=' + d, 'k.proto'], cwd=d)
    if rc:
        raise RuntimeError('protoc --cpp_out: ' + o)
    t = open(os.path.join(d, 'k.pb.h')).read()
    return [w for w in words if re.search(r'\bbool has_%s_\(\) const' % re.escape(w.lower()), t)]


def check(prop, lang, tier, seed, bounds):
    res = Result(prop, tier, seed)
    res.bounds = bounds
    res.assumptions = ['Go semantics as rendered by golang.org/x/tools/go/ssa; unicode classes on ASCII identifiers; regexp replacement is leftmost-first',
                       "the reference is protoc 3.21's naming, confirmed against the installed protoc on every replayed witness",
                       'identifiers are ASCII, as protoc requires; proto2 groups are left out']
    scratch = util.Scratch()
    try:
        scratch.plugin()
    except util.BuildError as ex:
        res.violation('build', str(ex)[:1500], {'output': ex.out})
        return res.finish()
    scratch.gotool()
    scratch.gomodule()
    kw = cc_keywords(scratch) if lang == 'cc' else []
    secs = 240 if tier == 'quick' else 700
    tasks = tasks_for(lang, tier)
    flt = os.environ.get('PGV_ONLY')
    tasks = [t for t in tasks if not flt or re.search(flt, str(t))]
    pend = []
    with concurrent.futures.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork'), initializer=_init,
                                                initargs=(scratch, lang, tier, secs, kw)) as ex:
        for rec in ex.map(_task, tasks):
            if rec.get('err'):
                res.inconclusive.append('%s: %s' % (rec['task'], rec['err'][-1600:]))
                continue
            res.stats.merge(rec['stats'])
            res.programs += 1
            util.log(rec['task'], len(rec['wit']), len(rec['cex']), '%.1fs' % rec['secs'])
            if not rec['exhausted'] and not rec['stats'].unsupported:
                res.inconclusive.append('%s: exploration not exhausted' % (rec['task'],))
            cap = 12 if tier == 'quick' else 60
            pend += [('cex', rec['task'], c, bad) for c, bad in rec['cex'][:cap]]
            wt = rec['wit']
            k = max(1, len(wt) // ((4 if lang == 'go' else 30) if tier == 'quick' else 60 if lang == 'go' else 400))
            pend += [('wit', rec['task'], c, None) for c in wt[::k]]
    pend.sort(key=lambda p: p[0] != 'cex')
    seen, seen2 = set(), set()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        done = go_replay(scratch, [p[2] for p in pend]) if lang == 'go' else ex.map(lambda p: replay(scratch, lang, p[2]), pend)
        for (k, task, c, bad), (diff, o) in zip(pend, done):
            if diff is None:
                if k == 'wit':
                    res.extra['rejected_by_protoc'] = res.extra.get('rejected_by_protoc', 0) + 1
                else:
                    res.unconfirmed.append({'task': str(task), 'case': c, 'protoc': o[-200:]})
                continue
            if diff:
                key = '%s %s' % (' '.join(str(x) for x in task[:2]), sig(diff[0]))
                if key not in seen:
                    seen.add(key)
                    res.violation('%s %s' % (lang, brief(c)), '%s: %s' % (brief(c), '; '.join(diff[:4])), {'proto': proto_of(c, c['package']), 'differences': diff})
                if k == 'wit':
                    res.extra['found_by_replay'] = res.extra.get('found_by_replay', 0) + 1
            elif k == 'cex':
                res.unconfirmed.append({'task': str(task), 'case': brief(c), 'differs': bad})
            else:
                res.validated += 1
                if task[0] not in seen2:
                    seen2.add(task[0])
                    res.samples.append({'scenario': str(task), 'file': brief(c)})
    return res.finish()


def sig(d):
    return re.sub(r'\w*[\d_]\w*|\b\w{1,6}\b', '', d)[:60]


def brief(c):
    def m(x):
        return x['name'] + '{' + ' '.join(['%s:%s%s' % (f['name'], f['shape'], '@' + f['oneof'] if f['oneof'] else '') for f in x['fields']] +
                                          [m(y) for y in x['messages']] + ['enum ' + e for e in x['enums']]) + '}'
    return '%s package=%s %s%s %s' % (c['name'], c['package'], ' '.join(m(x) for x in c['messages']),
                                      ''.join(' enum ' + e for e in c['enums']) + ''.join(' service ' + s for s in c['services']),
                                      json.dumps(c['options']) if c['options'] else '')
