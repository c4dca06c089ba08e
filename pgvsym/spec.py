"""Reference evaluator: the documented meaning of the validation rules
(validate.proto comments, README), as a formula over an abstract message.
Written from the documentation, independently of any generated code."""
import struct
import z3

from .core import And, Or, Not, Iff, Ite, is_sym, conc_bool
from . import strs
from .strs import Str, rng, beq
from .amsg import AMsg, SIGNED, WIDTH

NUM = {'float', 'double', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64'}
WRAP = {'.google.protobuf.%sValue' % n for n in ('Double', 'Float', 'Int64', 'UInt64', 'Int32', 'UInt32', 'Bool', 'String', 'Bytes')}


class Spec:
    """classes(kind, Str) -> Bool gives the shared classification of text for
    formats whose grammar is delegated to a standard parser; now: instant."""

    def __init__(self, pool, classes=None, now=None, regex=None, email=None, lang='go'):
        self.pool, self.classes, self.now, self.regex = pool, classes, now, regex
        self.email = email
        self.dontcare = []
        self.lang = lang

    # ---- messages ----------------------------------------------------
    def message(self, m):
        """Validity of a message (None = absent: nothing to check)."""
        if m is None:
            return True
        d = m.desc
        if d.disabled or d.ignored:
            return True
        if d.full.startswith('.google.protobuf.'):
            return True       # no rules on well-known types
        conds = []
        for f in d.fields:
            if f.oneof is not None and m.sel[d.oneofs[f.oneof].name] != f.name:
                continue
            conds.append(self.field(f, m.f[f.name]))
        for o in d.oneofs:
            if o.required:
                conds.append(m.sel[o.name] is not None)
        return And(conds)

    def field(self, f, v):
        r = f.rules or {}
        kv = self.pool.map_kv(f)
        if kv:
            return self.map(kv, r.get('map', {}), v)
        if f.repeated:
            return self.repeated(f, r.get('repeated', {}), v)
        return self.value(f, r, v)

    def value(self, f, r, v):
        t = f.type
        if t == 'message':
            return self.msgvalue(f, r, v)
        if t in NUM and t in r:
            return self.num(t, r[t], v)
        if t == 'bool':
            b = r.get('bool', {})
            return Iff(v, b['const']) if 'const' in b else True
        if t == 'string' and 'string' in r:
            return self.string(r['string'], v)
        if t == 'bytes' and 'bytes' in r:
            return self.bytes(r['bytes'], v)
        if t == 'enum' and 'enum' in r:
            return self.enum(f, r['enum'], v)
        return True

    def msgvalue(self, f, r, v):
        mr = r.get('message', {})
        tn = f.type_name
        conds = []
        if mr.get('required'):
            conds.append(v is not None)
        if tn in WRAP:
            inner = self.pool.messages[tn].fields[0]
            if v is not None:
                conds.append(self.value(inner, r, v.f[inner.name]))
            return And(conds)
        if 'any' in r or 'duration' in r or 'timestamp' in r:
            k = 'any' if 'any' in r else 'duration' if 'duration' in r else 'timestamp'
            x = r[k]
            if x.get('required'):
                conds.append(v is not None)
            if v is not None:
                conds.append(getattr(self, k)(x, v))
            return And(conds)
        if not mr.get('skip'):
            conds.append(self.message(v))
        return And(conds)

    # ---- numbers -----------------------------------------------------
    def num(self, t, r, v):
        c = []
        nan = False
        if t in ('float', 'double'):
            so = z3.Float32() if t == 'float' else z3.Float64()

            def L(x):
                return z3.FPVal(x, so)
            EQ, LT, LE = z3.fpEQ, z3.fpLT, z3.fpLEQ
            nan = z3.fpIsNaN(v)
        else:
            w = WIDTH[t]

            def L(x):
                return z3.BitVecVal(x, w)
            EQ = lambda a, b: a == b
            if t in SIGNED:
                LT, LE = (lambda a, b: a < b), (lambda a, b: a <= b)
            else:
                LT, LE = z3.ULT, z3.ULE
        if any(k in r for k in ('lt', 'lte', 'gt', 'gte')):
            # NaN is unordered; the documentation gives ranges no meaning for it
            if nan is not False:
                self.dontcare.append(nan)
        if 'const' in r:
            c.append(EQ(v, L(r['const'])))
        c.append(self.range(r, v, L, LT, LE, lambda x: x))
        if r.get('in'):
            c.append(Or([EQ(v, L(x)) for x in r['in']]))
        if r.get('not_in'):
            c.append(Not(Or([EQ(v, L(x)) for x in r['not_in']])))
        ok = And(c)
        if r.get('ignore_empty'):
            ok = Or(EQ(v, L(0)), ok)
        return ok

    def range(self, r, v, L, LT, LE, key):
        up = low = None
        if 'lt' in r:
            up, ub = LT(v, L(r['lt'])), r['lt']
        elif 'lte' in r:
            up, ub = LE(v, L(r['lte'])), r['lte']
        if 'gt' in r:
            low, lb = LT(L(r['gt']), v), r['gt']
        elif 'gte' in r:
            low, lb = LE(L(r['gte']), v), r['gte']
        if up is None and low is None:
            return True
        if up is None:
            return low
        if low is None:
            return up
        if key(lb) > key(ub):
            return Or(up, low)          # reversed range: outside
        if key(lb) == key(ub) and not ('lte' in r and 'gte' in r):
            # empty or degenerate: generators may refuse or exclude; no claim
            self.dontcare.append(True)
        return And(up, low)

    # ---- enum --------------------------------------------------------
    def enum(self, f, r, v):
        c = []
        B = lambda x: z3.BitVecVal(x, 32)
        if 'const' in r:
            c.append(v == B(r['const']))
        if r.get('in'):
            c.append(Or([v == B(x) for x in r['in']]))
        if r.get('not_in'):
            c.append(Not(Or([v == B(x) for x in r['not_in']])))
        if r.get('defined_only'):
            e = self.pool.enums[f.type_name]
            c.append(Or([v == B(n) for _, n in e.values]))
        return And(c)

    # ---- strings / bytes ----------------------------------------------
    def lens(self, n, r, eqk, lok, hik):
        def cmp(op, k):
            if isinstance(n, int):
                return {'eq': n == k, 'ge': n >= k, 'le': n <= k}[op]
            w = n.size()
            if k >= 1 << 32:
                return {'eq': False, 'ge': False, 'le': True}[op]
            return {'eq': n == k, 'ge': z3.UGE(n, k), 'le': z3.ULE(n, k)}[op]
        c = []
        if eqk in r:
            c.append(cmp('eq', r[eqk]))
        if lok in r:
            c.append(cmp('ge', r[lok]))
        if hik in r:
            c.append(cmp('le', r[hik]))
        return And(c)

    def string(self, r, v):
        c = [self.lens(strs.rune_count(v), r, 'len', 'min_len', 'max_len'),
             self.lens(len(v), r, 'len_bytes', 'min_bytes', 'max_bytes')]
        c.append(self.textual(r, v))
        if 'not_contains' in r:
            c.append(Not(strs.contains(v, Str(r['not_contains']))))
        if 'pattern' in r:
            c.append(self.pattern(r['pattern'], v))
        for k in ('email', 'hostname', 'ip', 'ipv4', 'ipv6', 'uri', 'uri_ref', 'address', 'uuid'):
            if r.get(k):
                c.append(getattr(self, 'f_' + k)(v))
        wk = r.get('well_known_regex', 0)
        if wk:
            c.append(self.header(wk, r.get('strict', True), v))
        ok = And(c)
        if r.get('ignore_empty'):
            ok = True if len(v) == 0 else ok
        return ok

    def textual(self, r, v):
        c = []
        if 'const' in r:
            c.append(strs.eq(v, Str(r['const'])))
        if 'prefix' in r:
            c.append(strs.has_prefix(v, Str(r['prefix'])))
        if 'suffix' in r:
            c.append(strs.has_suffix(v, Str(r['suffix'])))
        if 'contains' in r:
            c.append(strs.contains(v, Str(r['contains'])))
        if r.get('in'):
            c.append(Or([strs.eq(v, Str(x)) for x in r['in']]))
        if r.get('not_in'):
            c.append(Not(Or([strs.eq(v, Str(x)) for x in r['not_in']])))
        return And(c)

    def bytes(self, r, v):
        c = [self.lens(len(v), r, 'len', 'min_len', 'max_len'), self.textual(r, v)]
        if 'pattern' in r:
            c.append(self.pattern(r['pattern'], v))
        n = len(v)
        mapped = False
        if n == 16:
            mapped = And([beq(x, 0) for x in v.b[:10]] + [beq(v.b[10], 255), beq(v.b[11], 255)])
        if r.get('ip'):
            c.append(n in (4, 16))
        if r.get('ipv4'):
            c.append(n == 4)
            if n == 16:
                self.dontcare.append(mapped)
        if r.get('ipv6'):
            c.append(n == 16)
            if n == 16:
                self.dontcare.append(mapped)
        ok = And(c)
        if r.get('ignore_empty'):
            ok = True if n == 0 else ok
        return ok

    def pattern(self, pat, v):
        prog = self.regex(pat.decode('utf8', 'surrogateescape'))
        return strs.match(prog, v.b)

    # hostname: RFC 1034 labels (letters, digits, hyphen; no leading/trailing
    # hyphen; 1..63 octets), at most 253 octets, optional trailing dot.
    def hostlabels(self, b):
        n = len(b)
        if n == 0:
            return False
        c = []
        dot = [beq(x, 46) for x in b]
        hy = [beq(x, 45) for x in b]
        for x in b:
            c.append(Or(rng(x, 97, 122), rng(x, 65, 90), rng(x, 48, 57), beq(x, 45), beq(x, 46)))
        edge = [Or(d, h) for d, h in zip(dot, hy)]
        c.append(Not(edge[0]))
        c.append(Not(edge[-1]))
        for i in range(n - 1):
            c.append(Not(And(dot[i], edge[i + 1])))
            c.append(Not(And(hy[i], dot[i + 1])))
        for i in range(n - 63):
            c.append(Or(dot[i:i + 64]))
        return And(c)

    def f_hostname(self, v):
        n = len(v)
        if n == 0 or n > 253:
            return False
        b = v.b
        return Ite_(beq(b[-1], 46), self.hostlabels(b[:-1]), self.hostlabels(b))

    def f_address(self, v):
        return Or(self.f_hostname(v), self.f_ip(v))

    def f_ip(self, v):
        return self.classes('isip', v) if len(v) >= 2 else False

    def f_ipv4(self, v):
        return And(self.f_ip(v), self.classes('isip4form', v)) if len(v) >= 2 else False

    def f_ipv6(self, v):
        return And(self.f_ip(v), Not(self.classes('isip4form', v))) if len(v) >= 2 else False

    def f_uri(self, v):
        return And(self.classes('isurl', v), self.classes('isabs', v))

    def f_uri_ref(self, v):
        return self.classes('isurl', v)

    def f_email(self, v):
        return self.email(self, v)

    def f_uuid(self, v):
        if len(v) != 36:
            return False
        c = []
        for i, x in enumerate(v.b):
            if i in (8, 13, 18, 23):
                c.append(beq(x, 45))
            else:
                c.append(Or(rng(x, 48, 57), rng(x, 97, 102), rng(x, 65, 70)))
        return And(c)

    def header(self, wk, strict, v):
        bad = [0, 10, 13]
        if not strict:
            # only \r \n \0 are disallowed
            return And([Not(Or([beq(x, k) for k in bad])) for x in v.b])
        if wk == 1:
            # RFC 7230 token, with an optional leading ':' (HTTP/2 pseudo-header)
            tok = lambda x: Or(rng(x, 48, 57), rng(x, 65, 90), rng(x, 97, 122), *[beq(x, ord(k)) for k in "!#$%&'*+-.^_`|~"])
            if len(v) == 0:
                return False
            b = v.b
            first = tok(b[0])
            if len(b) > 1:
                first = Or(first, beq(b[0], 58))
            return And([first] + [tok(x) for x in b[1:]])
        # header value: visible characters, space, tab and non-ASCII text
        return And([Not(Or(rng(x, 0, 8), rng(x, 10, 31), beq(x, 127))) for x in v.b])

    # ---- collections ---------------------------------------------------
    def repeated(self, f, r, v):
        n = len(v)
        if r.get('ignore_empty') and n == 0:
            return True
        c = [n >= r.get('min_items', 0), n <= r.get('max_items', 1 << 64)]
        if r.get('unique'):
            for i in range(n):
                for j in range(i):
                    c.append(Not(self.eqv(f, v[i], v[j])))
        items = r.get('items', {})
        for x in v:
            c.append(self.value(f, items, x))
        return And(c)

    def eqv(self, f, a, b):
        if isinstance(a, Str):
            return strs.eq(a, b)
        if f.type in ('float', 'double'):
            return z3.fpEQ(a, b)
        return a == b

    def map(self, kv, r, v):
        n = len(v)
        if r.get('ignore_empty') and n == 0:
            return True
        c = [n >= r.get('min_pairs', 0), n <= r.get('max_pairs', 1 << 64)]
        for k, x in v:
            if r.get('no_sparse') and kv[1].type == 'message':
                c.append(x is not None)
            c.append(self.value(kv[0], r.get('keys', {}), k))
            c.append(self.value(kv[1], r.get('values', {}), x))
        return And(c)

    # ---- well-known messages --------------------------------------------
    def any(self, r, v):
        u = v.f['type_url']
        c = []
        if r.get('in'):
            c.append(Or([strs.eq(u, Str(x)) for x in r['in']]))
        if r.get('not_in'):
            c.append(Not(Or([strs.eq(u, Str(x)) for x in r['not_in']])))
        return And(c)

    def ns(self, s, n):
        from .gointrin import sx
        return sx(s, 64) * 10**9 + sx(n, 32)

    @staticmethod
    def lit(x):
        return x.get('seconds', 0) * 10**9 + x.get('nanos', 0)

    def instant(self, x):
        from .gointrin import TW
        return z3.BitVecVal(self.lit(x), TW)

    def shift(self, t, x, sign):
        """The instant t plus or minus the duration x."""
        return t + self.instant(x) if sign > 0 else t - self.instant(x)

    def duration(self, r, v):
        from .gointrin import dur_valid
        keys = ('in', 'not_in', 'lt', 'lte', 'gt', 'gte', 'const')
        if not any(r.get(k) or k in r for k in keys):
            return True
        s, n = v.f['seconds'], v.f['nanos']
        ns = self.ns(s, n)
        # An int64 count of nanoseconds bounds the comparable durations.
        self.dontcare.append(Or(ns > (1 << 63) - 2, ns < -(1 << 63) + 1))
        return And(dur_valid(s, n), self.nsrange(r, ns))

    def nsrange(self, r, ns):
        L = self.instant
        c = []
        if 'const' in r:
            c.append(ns == L(r['const']))
        c.append(self.range(r, ns, L, lambda a, b: a < b, lambda a, b: a <= b, self.lit))
        if r.get('in'):
            c.append(Or([ns == L(x) for x in r['in']]))
        if r.get('not_in'):
            c.append(Not(Or([ns == L(x) for x in r['not_in']])))
        return And(c)

    def timestamp(self, r, v):
        from .gointrin import ts_valid
        keys = ('lt', 'lte', 'gt', 'gte', 'const', 'lt_now', 'gt_now', 'within')
        if not any(k in r for k in keys):
            return True
        s, n = v.f['seconds'], v.f['nanos']
        if not any(k in r and r[k] is not False for k in keys):
            self.dontcare.append(Not(ts_valid(s, n)))
            return True
        ns = self.ns(s, n)
        c = [ts_valid(s, n), self.nsrange(r, ns)]
        now = self.now
        W = r.get('within')
        if r.get('lt_now'):
            c.append(ns < now())
            if W is not None:
                c.append(ns >= self.shift(now(), W, -1))
        elif r.get('gt_now'):
            c.append(ns > now())
            if W is not None:
                c.append(ns <= self.shift(now(), W, 1))
        elif W is not None:
            c.append(ns < self.shift(now(), W, 1))
            c.append(ns > self.shift(now(), W, -1))
        return And(c)


def Ite_(c, a, b):
    cc = conc_bool(c)
    if cc is True:
        return a
    if cc is False:
        return b
    return Or(And(c, a), And(Not(c), b))
