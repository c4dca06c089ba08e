"""The rule checker of the generator (module.CheckRules), executed with the
rules themselves symbolic: which rules are set, their values, list lengths and
the type of the field they sit on."""
import concurrent.futures
import json
import multiprocessing
import os
import re
import subprocess
import tempfile
import time
import z3

from . import util, strs
from .core import Ctx, And, Or, Not, Iff, is_sym, conc_bool, tobool, Unsupported, PathEnd
from .strs import Str
from .amsg import WIDTH, SIGNED
from .gossa import Interp, Ptr, StructV, SliceV, Iface, Native, GoPanic, Lazy, zero, copy, assign
from .gointrin import INTR, dur_valid, ts_valid, mkerr, tns, instant_eq
from .gofront import GoProg
from .runner import Result

VAL = 'github.com/envoyproxy/protoc-gen-validate/validate'
MOD = 'github.com/envoyproxy/protoc-gen-validate/module'
PGS = 'github.com/lyft/protoc-gen-star'
W = {}

WKTS = ['user', 'Any', 'Duration', 'Empty', 'Struct', 'Timestamp', 'Value', 'ListValue', 'DoubleValue', 'FloatValue', 'Int64Value',
        'UInt64Value', 'Int32Value', 'UInt32Value', 'BoolValue', 'StringValue', 'BytesValue']
WKT_FILE = {'Any': 'any', 'Duration': 'duration', 'Empty': 'empty', 'Struct': 'struct', 'Timestamp': 'timestamp', 'Value': 'struct', 'ListValue': 'struct'}
PT = {'double': 1, 'float': 2, 'int64': 3, 'uint64': 4, 'int32': 5, 'fixed64': 6, 'fixed32': 7, 'bool': 8, 'string': 9, 'message': 11,
      'bytes': 12, 'uint32': 13, 'enum': 14, 'sfixed32': 15, 'sfixed64': 16, 'sint32': 17, 'sint64': 18}
PTN = {v: k for k, v in PT.items()}
SCALARS = [k for k in PT if k not in ('message', 'enum')]
KEYS = ['int64', 'uint64', 'int32', 'fixed64', 'fixed32', 'bool', 'string', 'uint32', 'sfixed32', 'sfixed64', 'sint32', 'sint64']
WRAP_OF = {'double': 'DoubleValue', 'float': 'FloatValue', 'int64': 'Int64Value', 'uint64': 'UInt64Value', 'int32': 'Int32Value',
           'uint32': 'UInt32Value', 'bool': 'BoolValue', 'string': 'StringValue', 'bytes': 'BytesValue'}
NUMK = ['float', 'double', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64']
KINDS = NUMK + ['bool', 'string', 'bytes', 'enum', 'repeated', 'map', 'any', 'duration', 'timestamp']


class Fatal(Exception):
    """The generator stops with a diagnostic."""


class SymMsg:
    """A rules message with every field symbolically present or absent."""

    def __init__(self, pool, prog, ctx, md, path, only=None, fixed=None):
        self.pool, self.prog, self.ctx, self.md, self.path = pool, prog, ctx, md, path
        self.only, self.fixed = only, fixed or {}
        self.m, self.l, self.sel = {}, {}, {}

    # fixed: field name -> SymMsg / True (present, symbolic) / list
    def has(self, n):
        if n in self.fixed:
            return True
        if self.only is not None and n not in self.only:
            return False
        f = self.md.field(n)
        if f.oneof is not None and self.md.full.startswith('.validate.'):
            return self.choice(f.oneof) == n
        k = ('has', n)
        if k not in self.m:
            self.m[k] = z3.Bool('%s.%s?' % (self.path, n))
        return self.m[k]

    def choice(self, o):
        """The member of a oneof that is set."""
        if o not in self.sel:
            fs = [None] + [x for x in self.md.oneofs[o].fields if self.only is None or x.name in self.only]
            f = fs[self.ctx.choose(len(fs), self.path + '.oneof')]
            self.sel[o] = f.name if f is not None else None
        return self.sel[o]

    def val(self, n):
        if n in self.fixed and isinstance(self.fixed[n], SymMsg):
            return self.fixed[n]
        k = ('val', n)
        if k not in self.m:
            self.m[k] = self.fresh(self.md.field(n), '%s.%s' % (self.path, n))
        return self.m[k]

    def fresh(self, f, p):
        t = f.type
        if t == 'message':
            return SymMsg(self.pool, self.prog, self.ctx, self.pool.messages[f.type_name], p)
        if t in WIDTH:
            return z3.BitVec(p, WIDTH[t])
        if t == 'bool':
            return z3.Bool(p)
        if t in ('float', 'double'):
            return z3.FP(p, z3.Float32() if t == 'float' else z3.Float64())
        if f.name == 'pattern':
            self.m[('rxok', p)] = ok = z3.Bool(p + '.ok')
            return strs.lift('a') if self.ctx.decide(ok) else strs.lift('(')
        lv = z3.BitVec(p + '.len', 8)
        cap = W['strcap']
        if ('len', p) not in self.m:
            self.m[('len', p)] = lv
        self.ctx.assume(z3.ULE(lv, cap))
        n = self.ctx.concretize(lv, 0, cap)
        bs = tuple(z3.BitVec('%s[%d]' % (p, i), 8) for i in range(n))
        if t == 'string' and n:
            self.ctx.assume(strs.valid_utf8(bs))
        return Str(bs)

    def lenv(self, n):
        k = ('n', n)
        if k not in self.m:
            self.m[k] = z3.BitVec('%s.%s.n' % (self.path, n), 8)
        if self.only is not None and n not in self.only:
            return z3.BitVecVal(0, 8)
        return self.m[k]

    def nonempty(self, n):
        if self.only is not None and n not in self.only:
            return False
        return z3.UGT(self.lenv(n), 0)

    def count(self, n):
        """Concrete number of elements (forks)."""
        v = self.lenv(n)
        self.ctx.assume(z3.ULE(v, W['listcap']))
        return self.ctx.concretize(v, 0, W['listcap'])

    def item(self, n, i):
        k = ('item', n, i)
        if k not in self.m:
            self.m[k] = self.fresh(self.md.field(n), '%s.%s.%d' % (self.path, n, i))
        return self.m[k]

    def len_cap(self):
        for k, v in self.m.items():
            if k[0] == 'n':
                yield z3.ULE(v, W['listcap'])

    # ---- Go memory -----------------------------------------------------
    def lower(self):
        prog = self.prog
        t = prog.gotype(self.md)
        fm = prog.fmap(t)
        sv = zero(t)
        for f in self.md.fields:
            if f.oneof is not None:
                o = self.md.oneofs[f.oneof]
                if f.name not in self.fixed and self.choice(f.oneof) != f.name:
                    continue
                wt = prog.wrapper(self.md, f.name)
                ws = zero(wt)
                ws.f[0] = self.fixed[f.name].lower() if f.name in self.fixed else self.goval(f, self.val(f.name))
                i, _ = fm['oneof ' + o.name]
                sv.f[i] = Iface(prog.srv.ptrto(wt), Ptr([ws], 0))
                continue
            if f.name not in fm:
                continue
            i, ft = fm[f.name]
            sv.f[i] = Lazy(lambda f=f: self.lowerf(f))
        return Ptr([sv], 0)

    def lowerf(self, f):
        if f.repeated:
            n = self.count(f.name)
            xs = [Lazy(lambda k=k: self.goval(f, self.item(f.name, k))) for k in range(n)]
            return SliceV(xs if n else None, 0, n, n)
        if not self.ctx.decide(self.has(f.name)):
            return SliceV(None, 0, 0, 0) if f.type == 'bytes' else None
        if f.type not in ('message', 'bytes') and not self.md.full.startswith('.google.protobuf.'):
            return Ptr([Lazy(lambda: self.goval(f, self.val(f.name)))], 0)
        v = self.goval(f, self.val(f.name))
        return v if f.type in ('message', 'bytes') else v if self.md.full.startswith('.google.protobuf.') else Ptr([v], 0)

    def goval(self, f, v):
        if f.type == 'message':
            p = v.lower_plain() if v.md.full.startswith('.google.protobuf.') else v.lower()
            return p
        if f.type == 'bytes':
            return SliceV(list(v.b), 0, len(v), len(v))
        return v

    def lower_plain(self):
        """proto3 messages (Duration, Timestamp): plain symbolic values."""
        t = self.prog.gotype(self.md)
        fm = self.prog.fmap(t)
        sv = zero(t)
        for f in self.md.fields:
            sv.f[fm[f.name][0]] = self.val(f.name)
        return Ptr([sv], 0)

    # ---- text ------------------------------------------------------------
    def text(self, mo):
        out = []
        for f in self.md.fields:
            if f.repeated:
                n = 0
                if ('n', f.name) in self.m and self.nonempty(f.name) is not False:
                    n = mo.eval(self.lenv(f.name), model_completion=True).as_long()
                for i in range(n):
                    out.append('%s: %s' % (f.name, self.tv(f, self.item(f.name, i) if ('item', f.name, i) in self.m else None, mo, i)))
                continue
            if f.name not in self.fixed:
                if self.md.full.startswith('.google.protobuf.'):
                    if ('val', f.name) not in self.m:
                        continue
                elif f.oneof is not None:
                    if self.sel.get(f.oneof) != f.name:
                        continue
                else:
                    h = self.m.get(('has', f.name))
                    if h is None or not z3.is_true(mo.eval(h, model_completion=True)):
                        continue
            v = self.fixed.get(f.name) if isinstance(self.fixed.get(f.name), SymMsg) else self.m.get(('val', f.name))
            out.append('%s: %s' % (f.name, self.tv(f, v, mo, 0)))
        return ' '.join(out)

    def tv(self, f, v, mo, i):
        t = f.type
        if t == 'message':
            return '{%s}' % (v.text(mo) if v is not None else '')
        if t == 'enum' and f.type_name.endswith('KnownRegex'):
            n = 0 if v is None else mo.eval(v, model_completion=True).as_signed_long()
            return ['UNKNOWN', 'HTTP_HEADER_NAME', 'HTTP_HEADER_VALUE'][n]
        if t in WIDTH:
            if v is None:
                return str(i)
            e = mo.eval(v, model_completion=True)
            return str(e.as_signed_long() if t in SIGNED else e.as_long())
        if t == 'bool':
            return 'true' if v is not None and z3.is_true(mo.eval(v, model_completion=True)) else 'false'
        if t in ('float', 'double'):
            if v is None:
                return str(i)
            return fptext(mo.eval(v, model_completion=True), t)
        if v is None:
            # never read by the code: any text, distinct per item; patterns must compile
            lv = self.m.get(('len', '%s.%s' % (self.path, f.name)))
            return '"%s"' % ('x%d' % i)
        bs = bytes(x if isinstance(x, int) else mo.eval(x, model_completion=True).as_long() for x in v.b)
        return '"%s"' % ''.join('\\%03o' % b for b in bs)


def fptext(e, t):
    e = z3.simplify(e)
    if z3.is_true(z3.simplify(z3.fpIsNaN(e))):
        return 'nan'
    if z3.is_true(z3.simplify(z3.fpIsInf(e))):
        return '-inf' if z3.is_true(z3.simplify(z3.fpIsNegative(e))) else 'inf'
    import struct
    b = z3.simplify(z3.fpToIEEEBV(e)).as_long()
    if t == 'float':
        return '%.9g' % struct.unpack('<f', struct.pack('<I', b))[0]
    return '%.17g' % struct.unpack('<d', struct.pack('<Q', b))[0]


# ------------------------------------------------------------ field types ----
class SymType:
    """shape one|rep|map, an element of a symbolic kind, and a map key kind."""

    def __init__(self, ctx, shape, elem, key=None):
        self.ctx, self.shape = ctx, shape
        self.elem, self.key = elem, key


class SymElem:
    """kind: 'scalar' (symbolic ProtoType), 'enum' or 'message' (symbolic WKT)."""

    def __init__(self, ctx, path, kind, pts=None, wkts=None):
        self.kind, self.path = kind, path
        if kind == 'scalar':
            pts = pts or SCALARS
            if len(pts) == 1:
                self.pt = PT[pts[0]]
            else:
                self.pt = z3.BitVec(path + '.type', 32)
                ctx.assume(z3.Or([self.pt == PT[x] for x in pts]))
        elif kind == 'enum':
            self.pt = PT['enum']
            self.vals = [0] + [z3.BitVec('%s.enum%d' % (path, i), 32) for i in (1, 2)]
            ctx.assume(z3.Distinct(z3.BitVecVal(0, 32), self.vals[1], self.vals[2]))
        else:
            self.pt = PT['message']
            ws = wkts or WKTS
            if len(ws) == 1:
                self.wkt = WKTS.index(ws[0])
            else:
                self.wkt = z3.BitVec(path + '.wkt', 8)
                ctx.assume(z3.Or([self.wkt == WKTS.index(x) for x in ws]))
        self.ctx = ctx

    def is_pt(self, n):
        return self.pt == PT[n]

    def is_wkt(self, n):
        if self.kind != 'message':
            return False
        return self.wkt == WKTS.index(n)

    def wktname(self):
        return WKTS[self.ctx.concretize(self.wkt, 0, len(WKTS) - 1)]

    def accepts(self, kind):
        """Documented: rules of this kind may sit on values of this type."""
        if kind in NUMK or kind in ('bool', 'string', 'bytes'):
            return Or(self.is_pt(kind), self.is_wkt(WRAP_OF[kind]) if kind in WRAP_OF else False)
        if kind == 'enum':
            return self.kind == 'enum'
        if kind in ('any', 'duration', 'timestamp'):
            return self.is_wkt(kind.capitalize())
        return False

    def text(self, mo):
        def ev(x):
            return x if isinstance(x, int) else mo.eval(x, model_completion=True).as_signed_long()
        if self.kind == 'scalar':
            return PTN[ev(self.pt)]
        if self.kind == 'enum':
            return 'E'
        w = WKTS[ev(self.wkt)]
        return 'U' if w == 'user' else 'google.protobuf.' + w

    def decls(self, mo):
        if self.kind == 'enum':
            vs = [0] + [mo.eval(x, model_completion=True).as_signed_long() for x in self.vals[1:]]
            return 'enum E { %s }' % ' '.join('E%d = %d;' % (i, v) for i, v in enumerate(vs))
        return ''


def nat(it, tname, invoke):
    """An interface value of a real type whose methods are answered here."""
    return Iface(it.srv.ptrto(it.srv.type_named(tname)), Native(tname, invoke=invoke))


class Mock:
    """pgs entities: field types are the real structs of protoc-gen-star, the
    descriptors behind them are symbolic."""

    def __init__(self, it, prog, ctx):
        self.it, self.prog, self.ctx = it, prog, ctx

    def T(self, n):
        t = self.prog.srv.type_named(PGS + '.' + n)
        if t is None:
            raise Unsupported('no pgs.' + n)
        return t

    def struct(self, n, **kw):
        t = self.T(n)
        sv = zero(t)
        for k, v in kw.items():
            self.setf(t, sv, k, v)
        return Iface(self.prog.srv.ptrto(t), Ptr([sv], 0))

    def setf(self, t, sv, k, v):
        for i, (n, ft, tag) in enumerate(t.u.d['f']):
            if n == k:
                sv.f[i] = v
                return True
        raise Unsupported('no field %s in %s' % (k, t.s))

    def name(self, s):
        return strs.lift(s)

    def desc(self, pt):
        """A FieldDescriptorProto with the given type and label."""
        t = self.prog.srv.type_named('google.golang.org/protobuf/types/descriptorpb.FieldDescriptorProto')
        sv = zero(t)
        self.setf(t, sv, 'Type', Ptr([pt], 0))
        return Ptr([sv], 0)

    def message(self, e):
        def inv(it, name, a):
            if name == 'IsWellKnown':
                return Not(e.is_wkt('user'))
            if name == 'WellKnownType':
                w = e.wktname()
                return strs.lift('Unknown' if w == 'user' else w)
            if name == 'Name':
                return strs.lift('M')
            if name == 'Fields':
                w = e.wktname()
                sc = [k for k, v in WRAP_OF.items() if v == w]
                if not sc:
                    raise Unsupported('fields of ' + w)
                f = self.field(SymType(self.ctx, 'one', SymElem(self.ctx, e.path + '.value', 'scalar', sc)), None)
                return SliceV([f], 0, 1, 1)
            raise Unsupported('pgs.Message.' + name)
        return nat(self.it, PGS + '.msg', inv)

    def enum(self, e):
        def val(v):
            def inv(it, name, a):
                if name == 'Value':
                    return v
                raise Unsupported('pgs.EnumValue.' + name)
            return nat(self.it, PGS + '.enumVal', inv)

        def inv(it, name, a):
            if name == 'Values':
                xs = [val(v) for v in e.vals]
                return SliceV(xs, 0, len(xs), len(xs))
            raise Unsupported('pgs.Enum.' + name)
        return nat(self.it, PGS + '.enum', inv)

    def elem(self, e, typ=None):
        kw = {}
        n = {'scalar': 'scalarE', 'enum': 'enumE', 'message': 'embedE'}[e.kind]
        s = self.T('scalarE')
        sv = zero(s)
        self.setf(s, sv, 'ptype', e.pt)
        if n == 'scalarE':
            return Iface(self.prog.srv.ptrto(s), Ptr([sv], 0))
        if n == 'enumE':
            return self.struct(n, scalarE=Ptr([sv], 0), enum=self.enum(e))
        return self.struct(n, scalarE=Ptr([sv], 0), msg=self.message(e))

    def ftype(self, st, field):
        e = st.elem
        s = self.T('scalarT')
        sv = zero(s)
        self.setf(s, sv, 'fld', field)
        sp = Ptr([sv], 0)
        if st.shape == 'one':
            if e.kind == 'scalar':
                return Iface(self.prog.srv.ptrto(s), sp)
            if e.kind == 'enum':
                return self.struct('enumT', scalarT=sp, enum=self.enum(e))
            return self.struct('embedT', scalarT=sp, msg=self.message(e))
        rt = self.T('repT')
        rv = zero(rt)
        self.setf(rt, rv, 'scalarT', sp)
        self.setf(rt, rv, 'el', self.elem(e))
        if st.shape == 'rep':
            return Iface(self.prog.srv.ptrto(rt), Ptr([rv], 0))
        return self.struct('mapT', repT=Ptr([rv], 0), key=self.elem(st.key))

    def field(self, st, rules):
        cell = {}
        pt = st.elem.pt if st.shape in ('one', 'rep') else PT['message']

        def inv(it, name, a):
            if name == 'Type':
                if 't' not in cell:
                    cell['t'] = self.ftype(st, f)
                return cell['t']
            if name == 'Name':
                return strs.lift('v')
            if name == 'Descriptor':
                return self.desc(pt)
            if name == 'Extension':
                if not self.is_ext(a[0], 'E_Rules'):
                    raise Unsupported('extension')
                if rules is None:
                    return (False, None)
                dst = a[1].v
                src = rules.c[rules.i]
                assign(dst.c, dst.i, copy(src))
                return (True, None)
            raise Unsupported('pgs.Field.' + name)
        f = nat(self.it, PGS + '.field', inv)
        return f

    def is_ext(self, d, n):
        g = self.it.gptr(VAL, n, None)
        v = g.c[g.i]
        return isinstance(d, Ptr) and isinstance(v, Ptr) and v.c is d.c and v.i == d.i

    def msg(self, fields, disabled):
        def inv(it, name, a):
            if name == 'Name':
                return strs.lift('T')
            if name == 'Fields':
                return SliceV(list(fields), 0, len(fields), len(fields))
            if name == 'Extension':
                if self.is_ext(a[0], 'E_Disabled'):
                    v = disabled
                elif self.is_ext(a[0], 'E_Ignored'):
                    v = False
                else:
                    raise Unsupported('extension')
                dst = a[1].v
                assign(dst.c, dst.i, v)
                return (v, None)
            raise Unsupported('pgs.Message.' + name)
        return nat(self.it, PGS + '.msg', inv)

    def module(self):
        def inv(it, name, a):
            if name in ('Push', 'PushDir', 'Pop', 'PopDir'):
                return bc
            if name in ('Debug', 'Debugf', 'Log', 'Logf'):
                return None
            if name == 'Assert':
                if not self.ctx.decide(a[0]):
                    raise Fatal('assert')
                return None
            if name == 'CheckErr':
                if a[0] is not None:
                    raise Fatal('error')
                return None
            if name in ('Fail', 'Failf', 'Exit'):
                raise Fatal(name)
            raise Unsupported('BuildContext.' + name)
        bc = Iface(self.T('rootContext'), Native('bc', invoke=inv))
        mb = self.T('ModuleBase')
        bv = zero(mb)
        self.setf(mb, bv, 'BuildContext', bc)
        mt = self.prog.srv.type_named(MOD + '.Module')
        mv = zero(mt)
        self.setf(mt, mv, 'ModuleBase', Ptr([bv], 0))
        return self.prog.srv.ptrto(mt), Ptr([mv], 0)


# ------------------------------------------------------------- intrinsics ----
class CheckIntr(dict):
    pass


def intrinsics():
    d = CheckIntr(INTR)
    d.prefixes = INTR.prefixes

    def valueof(it, a):
        return Native('rv', x=a[0])

    def isnil(it, a):
        x = a[0].x
        if x is None:
            raise GoPanic(None, 'reflect: call of reflect.Value.IsNil on zero Value')
        return x.v is None

    def deep(it, a):
        return deepeq(it, a[0], a[1])

    def wkname(it, a):
        n = it.ctx.concretize(a[0], 0, 2)
        return strs.lift(['UNKNOWN', 'HTTP_HEADER_NAME', 'HTTP_HEADER_VALUE'][n])
    d['reflect.ValueOf'] = valueof
    d['(reflect.Value).IsNil'] = isnil
    d['reflect.DeepEqual'] = deep
    d['(%s.KnownRegex).String' % VAL] = wkname
    d['google.golang.org/protobuf/proto.Int64'] = lambda it, a: Ptr([a[0]], 0)
    return d


def deepeq(it, x, y):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, Iface) and isinstance(y, Iface):
        if x.t.id != y.t.id:
            return False
        return deepeq1(it, x.v, y.v, x.t)
    raise Unsupported('DeepEqual')


def deepeq1(it, x, y, t):
    if t.u.k == 'ptr':
        if x is None or y is None:
            return x is None and y is None
        if x.c is y.c and x.i == y.i:
            return True
        return deepeq1(it, it.op_un(None, t.elem, ('*', ('c', x), t, False)), it.op_un(None, t.elem, ('*', ('c', y), t, False)), t.elem)
    if t.s == 'time.Time':
        return instant_eq(it, tns(x), tns(y))
    if t.u.k == 'struct':
        return And([deepeq1(it, a, b, it.srv.types[f[1]]) for a, b, f in zip(x.f, y.f, t.u.d['f'])])
    if is_sym(x) and is_sym(y) and z3.is_bv(x) and x.size() == 64:
        return instant_eq(it, x, y)
    return it.equal(x, y, t)


# ---------------------------------------------------------- specification ----
def num_eq(r, a, b):
    x, y = r.val(a), r.val(b)
    if isinstance(x, SymMsg):
        return And(x.val('seconds') == y.val('seconds'), x.val('nanos') == y.val('nanos'))
    if z3.is_fp(x):
        return z3.fpEQ(x, y)
    return x == y


def spec_nums(r, lists=True):
    """Contradictory rule sets on ordered values."""
    c, lt, lte, gt, gte = (r.has(k) for k in ('const', 'lt', 'lte', 'gt', 'gte'))
    rng = Or(lt, lte, gt, gte)
    i, ni = (r.nonempty('in'), r.nonempty('not_in')) if lists else (False, False)
    bad = [And(c, Or(i, ni, rng)), And(i, rng), And(i, ni), And(lt, lte), And(gt, gte)]
    for a, ha in (('lt', lt), ('lte', lte)):
        for b, hb in (('gt', gt), ('gte', gte)):
            if ha is not False and hb is not False:
                bad.append(And(ha, hb, num_eq(r, a, b)))
    return Or(bad)


def spec_minmax(r, a, b):
    if r.has(a) is False or r.has(b) is False:
        return False
    return And(r.has(a), r.has(b), z3.UGT(r.val(a), r.val(b)))


def spec_text(r, dc):
    s = r.md.name == 'StringRules'
    bad = [And(r.nonempty('in'), r.nonempty('not_in'))]
    big = []
    for a, b, l in [('min_len', 'max_len', 'len')] + ([('min_bytes', 'max_bytes', 'len_bytes')] if s else []):
        bad.append(spec_minmax(r, a, b))
        # bytes.len together with bounds is not documented as an error
        x = And(r.has(l), Or(r.has(a), r.has(b)))
        if s:
            bad.append(x)
        for k in (a, b, l):
            if r.has(k) is not False:
                big.append(And(r.has(k), r.val(k) < 0))
    pat = r.has('pattern')
    wk = False
    if s:
        w = r.val('well_known_regex') if r.has('well_known_regex') is not False else None
        wk = And(r.has('well_known_regex'), w != 0) if w is not None else False
        bad.append(And(wk, pat))
    bad.append(And(Or(pat, wk), r.nonempty('in')))
    if r.ctx.decide(pat):
        v = r.val('pattern')
        ok = [x for k, x in r.m.items() if k[0] == 'rxok']
        bad.append(Not(ok[0]))
    for lim, count in [('max_len', (lambda x: strs.rune_count(x, 64)) if s else (lambda x: z3.BitVecVal(len(x), 64)))] + \
            ([('max_bytes', lambda x: z3.BitVecVal(len(x), 64))] if s else []):
        if not r.ctx.decide(r.has(lim)):
            continue
        for k in ('prefix', 'suffix', 'contains'):
            if r.ctx.decide(r.has(k)):
                n = count(r.val(k))
                n = z3.BitVecVal(n, 64) if isinstance(n, int) else n
                bad.append(z3.UGT(n, r.val(lim)))
    if s and r.has('max_len') is not False and r.has('max_bytes') is not False:
        bad.append(And(r.has('max_len'), r.has('max_bytes'), z3.ULT(r.val('max_bytes'), r.val('max_len'))))
    dc.append(Or(big))
    return Or(bad)


def durs(r, names, lists):
    out = []
    for n in names:
        if r.has(n) is not False:
            out.append((r.has(n), r.val(n)))
    for n in lists:
        if r.nonempty(n) is not False:
            for i in range(r.count(n)):
                out.append((True, r.item(n, i)))
    return out


def spec_duration(r, dc):
    bad = []
    for h, d in durs(r, ('const', 'lt', 'lte', 'gt', 'gte'), ('in', 'not_in')):
        s, n = d.val('seconds'), d.val('nanos')
        bad.append(And(h, Not(dur_valid(s, n))))
        dc.append(And(h, dur_valid(s, n), Or(s > 9223372035, s < -9223372035)))
    bad.append(spec_nums(r))
    return Or(bad)


def spec_timestamp(r, dc):
    bad = []
    for h, d in durs(r, ('const', 'lt', 'lte', 'gt', 'gte'), ()):
        bad.append(And(h, Not(ts_valid(d.val('seconds'), d.val('nanos')))))
    bad.append(spec_nums(r, lists=False))
    rng = Or([r.has(k) for k in ('lt', 'lte', 'gt', 'gte')])
    ln, gn = r.has('lt_now'), r.has('gt_now')
    bad.append(And(Or(ln, gn), rng))
    bad.append(And(r.has('within'), rng))
    bad.append(And(ln, gn))
    if r.has('within') is not False:
        w = r.val('within')
        s, n = w.val('seconds'), w.val('nanos')
        bad.append(And(r.has('within'), Or(Not(dur_valid(s, n)), Not(Or(s > 0, And(s == 0, n > 0))))))
    # lt_now: false and gt_now: false mean "unset"; whether they conflict is open
    for k in ('lt_now', 'gt_now'):
        if r.has(k) is not False:
            dc.append(And(r.has(k), Not(r.val(k))))
    return Or(bad)


def spec_enum(r, e, dc):
    bad = [And(r.nonempty('in'), r.nonempty('not_in'))]
    if r.has('defined_only') is not False and r.ctx.decide(And(r.has('defined_only'), r.val('defined_only'))):
        for i in range(r.count('in')):
            bad.append(And([r.item('in', i) != v for v in e.vals]))
    return Or(bad)


def spec_kind(kind, r, e, dc):
    """Rejection condition of a rule set of this kind on a value of type e."""
    ok = e.accepts(kind)
    if conc_bool(ok) is False:
        return True
    if kind in NUMK:
        b = spec_nums(r)
    elif kind in ('string', 'bytes'):
        b = spec_text(r, dc)
    elif kind == 'enum':
        b = spec_enum(r, e, dc)
    elif kind == 'any':
        b = And(r.nonempty('in'), r.nonempty('not_in'))
    elif kind == 'duration':
        b = spec_duration(r, dc)
    elif kind == 'timestamp':
        b = spec_timestamp(r, dc)
    else:
        b = False
    return Or(Not(ok), b)


# ------------------------------------------------------------------ tasks ----
def proto_text(st, rules, mo, disabled=False):
    imports = set()
    decl = set()
    for e in (st.elem, st.key):
        if e is None:
            continue
        t = e.text(mo)
        if t.startswith('google.protobuf.'):
            imports.add(WKT_FILE.get(t.split('.')[-1], 'wrappers'))
        decl.add(e.decls(mo))
    et = st.elem.text(mo)
    ft = {'one': et, 'rep': 'repeated ' + et, 'map': 'map<%s, %s>' % (st.key.text(mo) if st.key else '', et)}[st.shape]
    if disabled is not False:
        disabled = z3.is_true(mo.eval(tobool(disabled), model_completion=True))
    return '''syntax = "proto3";
package t;
option go_package = "pgvscratch/t;t";
import "validate/validate.proto";
%s%s
message U {}
message T { %s%s v = 1 [(validate.rules) = {%s}]; }
''' % (''.join('import "google/protobuf/%s.proto";\n' % i for i in sorted(imports)), '\n'.join(sorted(x for x in decl if x)),
       'option (validate.disabled) = true; ' if disabled else '', ft, rules.text(mo))


def elem_for(ctx, kind, path):
    """The type rules of a kind belong to."""
    if kind == 'enum':
        return SymElem(ctx, path, 'enum')
    if kind in ('any', 'duration', 'timestamp'):
        return SymElem(ctx, path, 'message', wkts=[kind.capitalize()])
    return SymElem(ctx, path, 'scalar', [kind])


def sym_elem(ctx, path):
    k = ('scalar', 'enum', 'message')[ctx.choose(3, path)]
    return SymElem(ctx, path, k)


class Case:
    """One symbolic .proto field: its type, rules and rejection condition."""

    def __init__(self, prog, ctx):
        self.prog, self.pool, self.ctx = prog, prog.pool, ctx
        self.disabled = False
        self.dc = []

    def msg(self, name, path, **kw):
        return SymMsg(self.pool, self.prog, self.ctx, self.pool.messages['.validate.' + name], path, **kw)

    def field_rules(self, kind, r, path='r', only=()):
        return self.msg('FieldRules', path, only=only, fixed={kind: r} if kind else {})


RULE_MSG = {k: k.capitalize() + 'Rules' for k in KINDS}
RULE_MSG.update({'uint32': 'UInt32Rules', 'uint64': 'UInt64Rules', 'sint32': 'SInt32Rules', 'sint64': 'SInt64Rules',
                 'sfixed32': 'SFixed32Rules', 'sfixed64': 'SFixed64Rules'})


def case_rules(c, kind, only=None, places=None):
    """Rules of one kind on the type they belong to, at every placement."""
    places = places or ['field', 'items', 'values'] + (['wrapper'] if kind in WRAP_OF else []) + (['keys'] if kind in KEYS else [])
    pl = places[c.ctx.choose(len(places), 'place')]
    r = c.msg(RULE_MSG[kind], 'r', only=only)
    e = elem_for(c.ctx, kind, 'v') if pl != 'wrapper' else SymElem(c.ctx, 'v', 'message', wkts=[WRAP_OF[kind]])
    place(c, kind, r, e, pl)
    c.disabled = z3.Bool('disabled')
    c.bad = lambda: And(Not(c.disabled), spec_kind(kind, r, e, c.dc))


def place(c, kind, r, e, pl):
    ctx = c.ctx
    if pl in ('field', 'wrapper'):
        c.type = SymType(ctx, 'one', e)
        c.rules = c.field_rules(kind, r)
    elif pl == 'items':
        c.type = SymType(ctx, 'rep', e)
        c.rules = c.field_rules('repeated', c.msg('RepeatedRules', 'rr', only=(), fixed={'items': c.field_rules(kind, r, 'ri')}))
    elif pl == 'values':
        c.type = SymType(ctx, 'map', e, SymElem(ctx, 'k', 'scalar', ['string']))
        c.rules = c.field_rules('map', c.msg('MapRules', 'mr', only=(), fixed={'values': c.field_rules(kind, r, 'rv')}))
    else:
        c.type = SymType(ctx, 'map', SymElem(ctx, 'x', 'scalar', ['int32']), e)
        c.rules = c.field_rules('map', c.msg('MapRules', 'mr', only=(), fixed={'keys': c.field_rules(kind, r, 'rk')}))


def case_coll(c, kind):
    """Repeated and map rules on every field type."""
    ctx = c.ctx
    sh = ('rep', 'map', 'one')[ctx.choose(3, 'shape')]
    e = sym_elem(ctx, 'v')
    c.type = SymType(ctx, sh, e, SymElem(ctx, 'k', 'scalar', KEYS) if sh == 'map' else None)
    r = c.msg(RULE_MSG[kind], 'r', only=[f for f in ('min_items', 'max_items', 'unique', 'ignore_empty', 'min_pairs', 'max_pairs', 'no_sparse')])
    c.rules = c.field_rules(kind, r)
    lo, hi = ('min_items', 'max_items') if kind == 'repeated' else ('min_pairs', 'max_pairs')
    flag = 'unique' if kind == 'repeated' else 'no_sparse'
    ok = sh == {'repeated': 'rep', 'map': 'map'}[kind]

    def bad():
        on = And(r.has(flag), r.val(flag))
        c.dc.append(Or([And(r.has(k), r.val(k) < 0) for k in (lo, hi)]))
        return Or(not ok, spec_minmax(r, lo, hi), And(on, e.kind == 'message' if kind == 'repeated' else e.kind != 'message'))
    c.bad = bad


def case_type(c, kind):
    """Empty rules of a kind on every field type and placement."""
    ctx = c.ctx
    sh = ('one', 'rep', 'map')[ctx.choose(3, 'shape')]
    e = sym_elem(ctx, 'v')
    key = SymElem(ctx, 'k', 'scalar', KEYS) if sh == 'map' else None
    c.type = SymType(ctx, sh, e, key)
    pls = {'one': ['field'], 'rep': ['field', 'items'], 'map': ['field', 'keys', 'values']}[sh]
    pl = pls[ctx.choose(len(pls), 'place')]
    r = c.msg(RULE_MSG[kind], 'r', only=())
    if pl == 'field':
        c.rules = c.field_rules(kind, r)
        ok = {'repeated': sh == 'rep', 'map': sh == 'map'}.get(kind)
        if ok is None:
            ok = And(sh == 'one', e.accepts(kind))
    else:
        w = {'items': 'RepeatedRules', 'keys': 'MapRules', 'values': 'MapRules'}[pl]
        c.rules = c.field_rules('repeated' if pl == 'items' else 'map', c.msg(w, 'rr', only=(), fixed={pl: c.field_rules(kind, r, 'ri')}))
        ok = (key if pl == 'keys' else e).accepts(kind)
    c.bad = lambda: Not(ok)


def case_message(c, kind):
    """Message rules (required, skip), alone or with rules of another kind."""
    ctx = c.ctx
    sh = ('one', 'rep', 'map')[ctx.choose(3, 'shape')]
    e = sym_elem(ctx, 'v')
    c.type = SymType(ctx, sh, e, SymElem(ctx, 'k', 'scalar', ['string']) if sh == 'map' else None)
    ks = [None, 'int32', 'string']
    k = ks[ctx.choose(3, 'with')]
    m = c.msg('MessageRules', 'm')
    fx = {'message': m}
    if k:
        fx[k] = c.msg(RULE_MSG[k], 'r', only=())
    c.rules = c.msg('FieldRules', 'rules', only=(), fixed=fx)

    def bad():
        emb = And(sh == 'one', e.kind == 'message')
        special = Or([e.is_wkt(x) for x in ('Any', 'Duration', 'Timestamp')])
        skip = And(m.has('skip'), m.val('skip'))
        return Or(Not(emb), special, And(k is not None, skip), Not(e.accepts(k)) if k else False)
    c.bad = bad


F = ['field']
NUM_TASKS = [('rules', k) for k in NUMK]
TEXT_TASKS = [('rules', 'string', ['len', 'min_len', 'max_len', 'len_bytes', 'min_bytes', 'max_bytes'], F)] + \
    [('rules', 'string', ['max_len', 'max_bytes', k]) for k in ('prefix', 'suffix', 'contains')] + \
    [('rules', 'string', ['max_len', 'max_bytes', 'prefix', 'suffix', 'contains'], F),
     ('rules', 'string', ['const', 'len', 'min_len', 'max_len', 'in', 'not_in', 'pattern', 'ip'], F),
     ('rules', 'string', ['max_len', 'max_bytes', 'prefix', 'contains', 'in', 'not_in', 'well_known_regex', 'strict'], F, 1),
     ('rules', 'string', ['min_len', 'max_len', 'in', 'not_in', 'pattern', 'well_known_regex', 'strict', 'email']),
     ('rules', 'bytes', ['len', 'min_len', 'max_len', 'in', 'not_in', 'pattern']),
     ('rules', 'bytes', ['max_len', 'prefix', 'suffix', 'contains'], F),
     ('rules', 'bytes', None, F),
     ('rules', 'enum'), ('rules', 'any'), ('coll', 'repeated'), ('coll', 'map')]
TEXT_MORE = [('rules', 'string', None, F)]
TYPE_TASKS = [('type', k) for k in KINDS] + [('message', 'message')]


CASES = {'rules': case_rules, 'coll': case_coll, 'type': case_type, 'message': case_message}


def run_case(task):
    name, kind = task[:2]
    prog = W['prog']
    ctx = Ctx(deadline=time.time() + W['secs'])
    t0 = time.time()
    rec = {'full': '%s:%s' % (name, kind), 'n': {'accept': 0, 'reject': 0}, 'wit': [], 'cex': []}
    W['strcap'], W['listcap'] = (2, 2) if W['tier'] == 'quick' else (4, 3)
    if task[4:] or len(task) > 2 and task[2] is None:       # every rule of the kind at once
        W['strcap'], W['listcap'] = (1, 1) if W['tier'] == 'quick' else (2, 1)
    intr = intrinsics()
    INITS = W.setdefault('init', {})

    def body(cx):
        c = Case(prog, cx)
        CASES[name](c, kind, *task[2:4])
        it = Interp(prog.srv, cx, intr)
        mk = Mock(it, prog, cx)
        f = mk.field(c.type, c.rules.lower())
        mt, mp = mk.module()
        msg = mk.msg([f], c.disabled)
        panic = None
        try:
            it.call_method(mt, mp, 'CheckRules', [msg])
            got = False
        except Fatal:
            got = True
        except GoPanic as g:
            panic, got = g.why, True
        want = c.bad()
        for k in ('in', 'not_in'):      # keep witnesses printable
            walk_caps(c.rules, cx)
        rec['n']['reject' if got else 'accept'] += 1
        if cx.check() == z3.sat:
            mo = cx.model()
            rec['wit'].append((proto_text(c.type, c.rules, mo, c.disabled), got))
        diff = Not(Iff(want, got)) if panic is None else True
        q = And(diff, Not(Or(c.dc)))
        if conc_bool(q) is False:
            cx.stats.queries += 1
            return
        if cx.check(tobool(q)) == z3.sat:
            mo = cx.model()
            rec['cex'].append((proto_text(c.type, c.rules, mo, c.disabled), got, panic))
    done = ctx.explore(body)
    rec['exhausted'] = bool(done)
    rec['secs'] = time.time() - t0
    rec['stats'] = ctx.stats
    return rec


def walk_caps(sm, cx):
    for k, v in list(sm.m.items()):
        if k[0] == 'n':
            cx.assume(z3.ULE(v, W['listcap']))
        if isinstance(v, SymMsg):
            walk_caps(v, cx)
        if k == ('val', 'well_known_regex'):
            cx.assume(z3.And(v >= 0, v <= 2))
    for v in sm.fixed.values():
        if isinstance(v, SymMsg):
            walk_caps(v, cx)


def _init(scratch, pool, tier, secs):
    W.update(pool=pool, tier=tier, secs=secs)
    W['prog'] = GoProg(scratch, pool, [MOD])


def _task(t):
    try:
        return run_case(t)
    except Exception:
        import traceback
        return {'full': '%s:%s' % (t[0], t[1]), 'err': traceback.format_exc()}


# ----------------------------------------------------------------- replay ----
def plugin_rejects(scratch, text):
    """Runs the real plugin on one .proto: (rejected, output)."""
    d = tempfile.mkdtemp(prefix='c.', dir=scratch.dir)
    try:
        with open(os.path.join(d, 't.proto'), 'w') as f:
            f.write(text)
        env = dict(scratch.env, PATH=scratch.path('bin') + ':' + scratch.env['PATH'])
        rc, o = util.run(['protoc', '-I', d, '-I', util.REPO, '--plugin=' + scratch.path('bin', 'protoc-gen-validate'),
                          '--validate_out=lang=go:' + d, 't.proto'], cwd=d, env=env, timeout=60)
        if rc and '--validate_out' not in o:
            return None, o
        return rc != 0, o
    finally:
        util.shutil.rmtree(d, ignore_errors=True)


def check(prop, tasks, tier, seed, bounds):
    res = Result(prop, tier, seed)
    res.bounds = bounds
    res.assumptions = ['Go semantics as rendered by golang.org/x/tools/go/ssa; reflect.ValueOf/IsNil/DeepEqual, regexp.Compile and the durationpb/timestamppb conversions follow their documented contracts',
                       'field types are the structs of protoc-gen-star over symbolic descriptors',
                       'left unspecified: counts of 2^63 and more, durations outside int64 nanoseconds, lt_now: false and gt_now: false']
    scratch = util.Scratch()
    try:
        scratch.plugin()
    except util.BuildError as ex:
        res.violation('build', str(ex)[:1500], {'output': ex.out})
        return res.finish()
    scratch.protos({'c.proto': 'syntax = "proto3";\npackage c;\nimport "validate/validate.proto";\nimport "google/protobuf/duration.proto";\nimport "google/protobuf/timestamp.proto";\n'})
    pool = scratch.descriptors()
    scratch.gotool()
    scratch.gomodule()
    secs = 200 if tier == 'quick' else 700
    flt = os.environ.get('PGV_ONLY')
    tasks = [t for t in tasks if not flt or re.search(flt, '%s:%s' % t[:2])]
    pend = []
    n = {'accept': 0, 'reject': 0}
    with concurrent.futures.ProcessPoolExecutor(min(8, len(tasks)), mp_context=multiprocessing.get_context('fork'), initializer=_init,
                                                initargs=(scratch, pool, tier, secs)) as ex:
        for rec in ex.map(_task, tasks):
            if rec.get('err'):
                res.inconclusive.append('%s: %s' % (rec['full'], rec['err'][-600:]))
                continue
            res.stats.merge(rec['stats'])
            res.programs += 1
            util.log(rec['full'], rec['n'], '%.1fs' % rec['secs'])
            if not rec['exhausted']:
                res.inconclusive.append('%s: exploration not exhausted' % rec['full'])
            for k in n:
                n[k] += rec['n'][k]
            pend += [('cex', rec['full'], t, got, pan) for t, got, pan in rec['cex']]
            pend += [('wit', rec['full'], t, got, None) for t, got in rec['wit']]
    cap = 1500 if tier == 'quick' else 20000
    cx, wt = [p for p in pend if p[0] == 'cex'], [p for p in pend if p[0] == 'wit']
    if len(wt) > cap:
        step = len(wt) / cap
        wt = [wt[int(i * step)] for i in range(cap)]
    seen = set()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for p, (rej, o) in zip(cx + wt, ex.map(lambda p: plugin_rejects(scratch, p[2]), cx + wt)):
            kind, full, text, got, pan = p
            if rej is None:
                res.inconclusive.append('%s: protoc rejects the witness: %s' % (full, o[-300:]))
                continue
            crash = 'goroutine ' in o and 'panic' in o
            if kind == 'cex':
                if (rej == got or crash) and (pan is None or crash):
                    if full not in seen:
                        seen.add(full)
                        what = 'the plugin %s' % ('crashes' if crash else 'rejects' if rej else 'accepts')
                        res.violation(full, '%s: %s %s' % (full, what, field_line(text)), {'proto': text, 'rejected': rej, 'output': o[-1500:]})
                else:
                    res.unconfirmed.append({'case': full, 'proto': field_line(text), 'encoded_reject': got, 'real_reject': rej, 'out': o[-300:]})
            elif rej == got:
                res.validated += 1
                if len(res.samples) < 12 and full not in seen:
                    seen.add(full)
                    res.samples.append({'case': full, 'field': field_line(text), 'rejected': rej})
            else:
                res.mismatch.append({'case': full, 'proto': field_line(text), 'encoded_reject': got, 'real_reject': rej, 'out': o[-300:]})
    res.extra['accepting_paths'], res.extra['rejecting_paths'] = n['accept'], n['reject']
    for m in res.mismatch[:4]:
        print('note: replay disagrees with the encoding: %s' % json.dumps(m)[:400])
    return res.finish()


def field_line(text):
    return [l for l in text.split('\n') if l.startswith('message T')][0]
