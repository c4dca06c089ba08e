"""Abstract symbolic messages: built once per path, lowered into each target
language's memory, and read by the reference evaluator."""
import z3
from . import strs
from .strs import Str
from .core import is_sym
from .desc import pydefault

WIDTH = {'int32': 32, 'sint32': 32, 'sfixed32': 32, 'uint32': 32, 'fixed32': 32, 'enum': 32,
         'int64': 64, 'sint64': 64, 'sfixed64': 64, 'uint64': 64, 'fixed64': 64}
SIGNED = {'int32', 'sint32', 'sfixed32', 'enum', 'int64', 'sint64', 'sfixed64'}


class AMsg:
    __slots__ = ('desc', 'f', 'sel', 'path', 'unset')

    def __init__(self, desc, path):
        self.desc, self.path = desc, path
        self.f = {}
        self.sel = {}
        self.unset = set()    # proto2 scalars that hold their default value


class Builder:
    """Builds symbolic messages. opts: callable(field, path) -> dict with
    'lens' (allowed byte lengths / templates), 'items' (allowed counts),
    'depth'."""

    def __init__(self, pool, ctx, opts=None, depth=2, nil_items=False, utf8=True, oneof_set=False):
        self.pool, self.ctx, self.depth = pool, ctx, depth
        self.opts = opts or (lambda f, p: {})
        self.nil_items = nil_items
        self.utf8 = utf8
        self.oneof_set = oneof_set    # a selected oneof message is never absent

    def message(self, md, path='m', depth=None):
        depth = self.depth if depth is None else depth
        m = AMsg(md, path)
        for o in md.oneofs:
            fs = o.fields
            if self.oneof_set and depth <= 0:
                fs = [f for f in fs if f.type != 'message']
            k = self.ctx.choose(len(fs) + 1, path + '.' + o.name)
            m.sel[o.name] = fs[k - 1].name if k else None
        for f in md.fields:
            p = path + '.' + f.name
            if f.oneof is not None and m.sel[md.oneofs[f.oneof].name] != f.name:
                m.f[f.name] = None
                continue
            if f.presence and self.ctx.choose(2, p + '.unset'):
                m.unset.add(f.name)
                m.f[f.name] = default_term(self.pool, f)
                continue
            m.f[f.name] = self.field(f, p, depth)
        return m

    def field(self, f, p, depth):
        kv = self.pool.map_kv(f)
        o = self.opts(f, p)
        if kv:
            counts = o.get('items', [0, 1, 2])
            n = counts[self.ctx.choose(len(counts), p + '.n')]
            if isinstance(n, tuple):
                return self.big_map(f, kv, p, depth, o, n[1])
            out = []
            for i in range(n):
                k = self.scalar(kv[0], '%s.k%d' % (p, i), o.get('keyopts', o))
                for k2, _ in out:
                    self.ctx.assume(neq(k, k2))
                v = self.value(kv[1], '%s.v%d' % (p, i), depth, o, item=True)
                out.append((k, v))
            return out
        if f.repeated:
            counts = o.get('items', [0, 1, 2, 3])
            n = counts[self.ctx.choose(len(counts), p + '.n')]
            if isinstance(n, tuple):
                n = n[1]
                first = self.value(f, p + '.0', depth, o, item=True)
                last = self.value(f, '%s.%d' % (p, n - 1), depth, o, item=True)
                uniq = (f.rules or {}).get('repeated', {}).get('unique')
                return [first] + [nth(f.type, i) if uniq else first for i in range(1, n - 1)] + [last]
            return [self.value(f, '%s.%d' % (p, i), depth, o, item=True) for i in range(n)]
        return self.value(f, p, depth, o)

    def big_map(self, f, kv, p, depth, o, n):
        """Many pairs, of which the first and the last are symbolic."""
        ks = [nth(kv[0].type, i) for i in range(n)]
        for i in (0, n - 1):
            ks[i] = self.scalar(kv[0], '%s.k%d' % (p, i), o.get('keyopts', o))
        for i in (0, n - 1):
            for j in range(n):
                if i != j and not (i and j == 0):
                    self.ctx.assume(neq(ks[i], ks[j]))
        first = self.value(kv[1], p + '.v0', depth, o, item=True)
        last = self.value(kv[1], '%s.v%d' % (p, n - 1), depth, o, item=True)
        return list(zip(ks, [first] * (n - 1) + [last]))

    def value(self, f, p, depth, o, item=False):
        if f.type == 'message':
            md = self.pool.messages[f.type_name]
            can_nil = True if not item else self.nil_items
            if f.oneof is not None and self.oneof_set:
                can_nil = False
            if depth <= 0:
                if can_nil:
                    return None
                return self.message(md, p, 0)
            if can_nil and self.ctx.choose(2, p + '.nil'):
                return None
            return self.message(md, p, depth - 1)
        return self.scalar(f, p, o)

    def scalar(self, f, p, o):
        t = f.type
        if t in WIDTH:
            v = self.ctx.bv(p, WIDTH[t])
            if t == 'enum' and f.msg is not None and f.msg.file.syntax == 'proto2':
                # closed: an unknown number never reaches the field
                self.ctx.assume(z3.Or([v == z3.BitVecVal(n, 32) for _, n in self.pool.enums[f.type_name].values]))
            return v
        if t == 'bool':
            return self.ctx.boolean(p)
        if t == 'float':
            return self.ctx.fp(p, 32)
        if t == 'double':
            return self.ctx.fp(p, 64)
        lens = o.get('lens', [0, 1, 2])
        spec = lens[self.ctx.choose(len(lens), p + '.len')]
        if isinstance(spec, int):
            bs = tuple(self.ctx.bv('%s[%d]' % (p, i), 8) for i in range(spec))
        else:   # template: ints fixed, None symbolic
            bs = tuple(self.ctx.bv('%s[%d]' % (p, i), 8) if x is None else x for i, x in enumerate(spec))
        if t == 'string' and self.utf8 and bs:
            if o.get('ascii'):
                for b in bs:
                    if not isinstance(b, int):
                        self.ctx.assume(z3.ULT(b, 128))
            else:
                self.ctx.assume(strs.valid_utf8(bs))
        return Str(bs)


def nth(t, i):
    """The i-th of a row of different constants."""
    if t in WIDTH:
        return z3.BitVecVal(100 + i, WIDTH[t])
    if t in ('float', 'double'):
        return z3.FPVal(100 + i, z3.Float32() if t == 'float' else z3.Float64())
    return Str(tuple(b'e%02d' % i))


def default_term(pool, f):
    d = pydefault(pool, f)
    if f.type in WIDTH:
        return z3.BitVecVal(d, WIDTH[f.type])
    if f.type == 'bool':
        return z3.BoolVal(d)
    if f.type in ('float', 'double'):
        return z3.FPVal(d, z3.Float32() if f.type == 'float' else z3.Float64())
    return Str(tuple(d.encode() if isinstance(d, str) else d))


def default_json(pool, f):
    s = z3.Solver()
    s.check()
    return conc_scalar(default_term(pool, f), s.model(), f.type)


def neq(a, b):
    from .core import Not
    if isinstance(a, Str):
        return Not(strs.eq(a, b))
    if z3.is_bool(a):
        return z3.Xor(a, b)
    return a != b


def conc_scalar(v, model, t):
    """Evaluate a leaf under a model to a JSON-able concrete value."""
    if isinstance(v, Str):
        bs = [x if isinstance(x, int) else model.eval(x, model_completion=True).as_long() for x in v.b]
        return {'hex': bytes(bs).hex()}
    if is_sym(v):
        e = model.eval(v, model_completion=True)
        if z3.is_bool(e):
            return z3.is_true(e)
        if z3.is_bv(e):
            n = e.as_long()
            w = e.size()
            if t in SIGNED and n >> (w - 1):
                n -= 1 << w
            return str(n)
        if z3.is_fp(e):
            w = 32 if e.sort() == z3.Float32() else 64
            if z3.is_true(z3.simplify(z3.fpIsNaN(e))):
                return {'bits': str(0x7fc00000 if w == 32 else 0x7ff8000000000000)}
            b = z3.simplify(z3.fpToIEEEBV(e))
            return {'bits': str(b.as_long())}
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return str(v)
    raise ValueError(v)


def concrete(pool, m, model):
    """JSON tree of an abstract message under a model."""
    if m is None:
        return None
    out = {'@type': m.desc.full}
    for f in m.desc.fields:
        v = m.f.get(f.name)
        if f.oneof is not None:
            if m.sel.get(m.desc.oneofs[f.oneof].name) != f.name:
                continue
        if f.name in m.unset:
            continue
        out[f.name] = conc_field(pool, f, v, model)
    return out


def conc_field(pool, f, v, model):
    kv = pool.map_kv(f)
    if kv:
        return [[conc_value(pool, kv[0], k, model), conc_value(pool, kv[1], x, model)] for k, x in v]
    if f.repeated:
        return [conc_value(pool, f, x, model) for x in v]
    return conc_value(pool, f, v, model)


def conc_value(pool, f, v, model):
    if f.type == 'message':
        return concrete(pool, v, model)
    return conc_scalar(v, model, f.type)
