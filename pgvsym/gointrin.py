"""Stubs for the Go standard library and runtime dependencies.

Each stub implements the documented contract of the function for symbolic
arguments.  Everything not listed is interpreted from its own SSA."""
import z3

from .core import And, Or, Not, Ite, is_sym, conc_bool, tobool, Unsupported
from . import strs
from .strs import Str, OStr
from .gossa import (SliceV, MapV, StructV, Iface, Ptr, FuncV, Native, BoundIntrinsic, GoPanic, Poison, zero, copy, tobv, EMPTY)

TW = 100   # width of absolute nanosecond arithmetic


class Intrinsics(dict):
    def __init__(self):
        self.prefixes = []


INTR = Intrinsics()


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def mkerr(it, desc):
    """An opaque non-nil error value."""
    return Iface(ErrType(desc), Native('error', desc=desc, invoke=_err_invoke(desc)))


def _err_invoke(desc):
    def inv(it, name, args):
        if name == 'Error':
            return OStr('err', (desc,))
        raise Unsupported('error method ' + name)
    return inv


class ErrType:
    """Dynamic type of opaque errors."""
    k = 'opaque'
    s = '*errors.opaque'
    id = -7
    basic = None

    def __init__(self, desc):
        self.desc = desc

    @property
    def u(self):
        return self

    def intinfo(self):
        return None


def bslice(x):
    """SliceV of bytes -> Str"""
    return Str(tuple(x.items()))


# ---- strings / bytes ------------------------------------------------------
def _s(f):
    return lambda it, a: f(it, *a)


def need(*xs):
    for x in xs:
        if isinstance(x, OStr):
            raise Unsupported('operation on formatted text')


def S(x):
    if isinstance(x, SliceV):
        return bslice(x)
    need(x)
    return x


intr('strings.HasPrefix', 'bytes.HasPrefix', 'internal/stringslite.HasPrefix')(lambda it, a: strs.has_prefix(S(a[0]), S(a[1])))
intr('strings.HasSuffix', 'bytes.HasSuffix', 'internal/stringslite.HasSuffix')(lambda it, a: strs.has_suffix(S(a[0]), S(a[1])))
intr('strings.Contains', 'bytes.Contains')(lambda it, a: strs.contains(S(a[0]), S(a[1])))
intr('bytes.Equal')(lambda it, a: strs.eq(S(a[0]), S(a[1])))
intr('strings.Index', 'bytes.Index', 'internal/stringslite.Index')(lambda it, a: strs.index(it.ctx, S(a[0]), S(a[1])))
intr('strings.LastIndex', 'bytes.LastIndex')(lambda it, a: strs.last_index(it.ctx, S(a[0]), S(a[1])))


@intr('strings.IndexByte', 'bytes.IndexByte', 'internal/stringslite.IndexByte', 'internal/bytealg.IndexByteString',
      'internal/bytealg.IndexByte', 'internal/bytealg.IndexByteString')
def _index_byte(it, a):
    return strs.index(it.ctx, S(a[0]), Str((a[1],)))


@intr('strings.LastIndexByte', 'bytes.LastIndexByte', 'internal/bytealg.LastIndexByteString')
def _last_index_byte(it, a):
    return strs.last_index(it.ctx, S(a[0]), Str((a[1],)))


@intr('strings.ContainsRune', 'bytes.ContainsRune')
def _contains_rune(it, a):
    return strs.contains(S(a[0]), Str(strs.encode_rune(it.ctx, a[1])))


@intr('strings.IndexRune')
def _index_rune(it, a):
    return strs.index(it.ctx, S(a[0]), Str(strs.encode_rune(it.ctx, a[1])))


@intr('strings.Count', 'bytes.Count', 'internal/bytealg.CountString', 'internal/bytealg.Count')
def _count(it, a):
    x, p = S(a[0]), a[1]
    if not isinstance(p, (Str, OStr, SliceV)):
        p = Str((p,))
    p = S(p)
    if len(p) == 0:
        n = strs.rune_count(x)
        return n + 1
    n, i = 0, 0
    while True:
        j = strs.index(it.ctx, x, p, i)
        if j < 0:
            return n
        n += 1
        i = j + len(p)


@intr('internal/bytealg.Equal')
def _bequal(it, a):
    return strs.eq(S(a[0]), S(a[1]))


@intr('strings.Compare', 'bytes.Compare', 'internal/bytealg.CompareString', 'internal/bytealg.Compare', 'runtime.cmpstring')
def _cmp(it, a):
    x, y = S(a[0]), S(a[1])
    if it.ctx.decide(strs.eq(x, y)):
        return 0
    return -1 if it.ctx.decide(strs.lt(x, y)) else 1


def lower_ascii(x):
    if isinstance(x, int):
        return x + 32 if 65 <= x <= 90 else x
    return z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x)


def upper_ascii(x):
    if isinstance(x, int):
        return x - 32 if 97 <= x <= 122 else x
    return z3.If(z3.And(z3.UGE(x, 97), z3.ULE(x, 122)), x - 32, x)


@intr('strings.ToLower', 'bytes.ToLower')
def _tolower(it, a):
    """Unicode lower-casing. Only U+0130 and U+212A have ASCII lower-case
    forms; every other non-ASCII rune maps to some non-ASCII rune and is kept."""
    x = S(a[0])
    out, i = (), 0
    bs = x.b
    while i < len(bs):
        r, w = strs.decode_rune(it.ctx, bs, i)
        if w == 1:
            out += (lower_ascii(bs[i]),)
        elif w == 2 and it.ctx.decide(r == 0x130):
            out += (0x69,)
        elif w == 3 and it.ctx.decide(r == 0x212A):
            out += (0x6B,)
        else:
            out += tuple(bs[i:i + w])
        i += w
    r = Str(out)
    return r if not isinstance(a[0], SliceV) else SliceV(list(r.b), 0, len(r.b), len(r.b))


@intr('strings.ToUpper')
def _toupper(it, a):
    x = S(a[0])
    out, i = (), 0
    bs = x.b
    while i < len(bs):
        r, w = strs.decode_rune(it.ctx, bs, i)
        if w == 1:
            out += (upper_ascii(bs[i]),)
        elif w == 2 and it.ctx.decide(r == 0x131):
            out += (0x49,)
        elif w == 2 and it.ctx.decide(r == 0x17F):
            out += (0x53,)
        else:
            out += tuple(bs[i:i + w])
        i += w
    return Str(out)


@intr('strings.EqualFold')
def _equalfold(it, a):
    x, y = _tolower(it, [a[0]]), _tolower(it, [a[1]])
    return strs.eq(x, y)


@intr('strings.Clone', 'internal/stringslite.Clone')
def _clone(it, a):
    return a[0]


@intr('strings.Join')
def _join(it, a):
    xs = a[0].items()
    if any(isinstance(x, OStr) for x in xs) or isinstance(a[1], OStr):
        return OStr('join', tuple(xs))
    out = ()
    for i, x in enumerate(xs):
        out += (a[1].b if i else ()) + x.b
    return Str(out)


def mkstrs(parts):
    parts = list(parts)
    return SliceV(parts, 0, len(parts), len(parts))


def _split(it, s, sep, n=-1):
    s, sep = S(s), S(sep)
    if n == 0:
        return SliceV(None, 0, 0, 0)
    if len(sep) == 0:
        out, i = [], 0
        while i < len(s.b):
            _, w = strs.decode_rune(it.ctx, s.b, i)
            out.append(Str(s.b[i:i + w]))
            i += w
        return mkstrs(out)
    out, i = [], 0
    while n < 0 or len(out) < n - 1:
        j = strs.index(it.ctx, s, sep, i)
        if j < 0:
            break
        out.append(Str(s.b[i:j]))
        i = j + len(sep)
    out.append(Str(s.b[i:]))
    return mkstrs(out)


intr('strings.Split')(lambda it, a: _split(it, a[0], a[1]))
intr('strings.SplitN')(lambda it, a: _split(it, a[0], a[1], a[2]))


@intr('unicode/utf8.RuneCountInString', 'unicode/utf8.RuneCount')
def _runecount(it, a):
    # contract on valid UTF-8 (the harness constrains string fields to it)
    x = S(a[0])
    if it.env.get('utf8_ok', True):
        return strs.rune_count(x)
    return len(strs.runes_of(it.ctx, x))


@intr('unicode/utf8.ValidString', 'unicode/utf8.Valid')
def _valid(it, a):
    return strs.valid_utf8(S(a[0]).b)


@intr('unicode/utf8.DecodeRuneInString', 'unicode/utf8.DecodeRune')
def _decode(it, a):
    x = S(a[0])
    if not len(x):
        return (0xFFFD, 0)
    return strs.decode_rune(it.ctx, x.b, 0)


# ---- fmt / errors ---------------------------------------------------------
def fmt_arg(it, x):
    """Text of an interface value under %v/%s, or an opaque piece."""
    if x is None:
        return OStr('<nil>')
    if not isinstance(x, Iface):
        return OStr('val', (id(x),))
    v = x.v
    if isinstance(v, (Str, OStr)):
        return v
    if isinstance(v, bool):
        return strs.lift('true' if v else 'false')
    if isinstance(v, int) and x.t.intinfo():
        return strs.lift(str(v))
    return OStr('val', (v,))


@intr('fmt.Sprintf')
def _sprintf(it, a):
    f = S(a[0]).conc()
    args = a[1].items()
    if f is None:
        return OStr('fmt', tuple(args))
    return format_go(it, f.decode('utf8', 'replace'), args)


def format_go(it, f, args):
    out, i, k = EMPTY, 0, 0
    while i < len(f):
        if f[i] != '%':
            j = f.find('%', i)
            j = len(f) if j < 0 else j
            out = it.concat(out, strs.lift(f[i:j]))
            i = j
            continue
        j = i + 1
        while j < len(f) and f[j] in '+-# 0123456789.':
            j += 1
        verb = f[j] if j < len(f) else '%'
        flags = f[i + 1:j]
        i = j + 1
        if verb == '%':
            out = it.concat(out, strs.lift('%'))
            continue
        if k >= len(args):
            out = it.concat(out, strs.lift('%!' + verb + '(MISSING)'))
            continue
        x = args[k]
        k += 1
        piece = None
        v = x.v if isinstance(x, Iface) else x
        if verb in 'vsd' and not flags:
            piece = fmt_arg(it, x)
        elif verb in 'xX' and isinstance(x, Iface) and x.t.intinfo() and x.t.intinfo()[0] == 8 and isinstance(v, (int, z3.BitVecRef)):
            piece = hex_byte(it, v, verb == 'X', flags)
        elif verb in 'xX' and isinstance(v, int) and not isinstance(v, bool):
            piece = strs.lift(('%' + flags + verb) % v)
        elif verb == 'd' and isinstance(v, int):
            piece = strs.lift(('%' + flags + 'd') % v)
        if piece is None:
            piece = OStr('%' + flags + verb, (v,))
        out = it.concat(out, piece)
    if k < len(args):
        out = it.concat(out, strs.lift('%!(EXTRA)'))
    return out


def hex_byte(it, v, upper, flags):
    def dig(n):
        if isinstance(n, int):
            return (b'0123456789ABCDEF' if upper else b'0123456789abcdef')[n]
        return z3.If(z3.ULT(n, 10), n + 48, n + (55 if upper else 87))
    minw = int(flags[1:] or 1) if flags.startswith('0') else (int(flags) if flags.isdigit() else 1)
    pad = 48 if flags.startswith('0') else 32
    if flags.startswith('#'):
        raise Unsupported('fmt flag #')
    if isinstance(v, int):
        return strs.lift(('%' + flags + ('X' if upper else 'x')) % v)
    hi, lo = z3.LShR(v, 4), v & 15
    if it.ctx.decide(z3.ULT(v, 16)):
        return Str((pad,) * (minw - 1) + (dig(lo),))
    return Str((pad,) * max(0, minw - 2) + (dig(hi), dig(lo)))


@intr('fmt.Sprint')
def _sprint(it, a):
    out = EMPTY
    prev_str = True
    for i, x in enumerate(a[0].items()):
        isstr = isinstance(x, Iface) and x.t.basic in ('string',)
        if i and not isstr and not prev_str:
            out = it.concat(out, strs.lift(' '))
        out = it.concat(out, fmt_arg(it, x))
        prev_str = isstr
    return out


@intr('fmt.Sprintln')
def _sprintln(it, a):
    return OStr('sprintln', tuple(a[0].items()))


@intr('fmt.Errorf')
def _errorf(it, a):
    return mkerr(it, ('errorf', a[0]))


@intr('errors.New')
def _errnew(it, a):
    return mkerr(it, ('new', a[0]))


@intr('errors.Is')
def _erris(it, a):
    return it.equal(a[0], a[1])


# ---- regexp ---------------------------------------------------------------
@intr('regexp.MustCompile')
def _mustcompile(it, a):
    p = S(a[0]).conc()
    if p is None:
        raise Unsupported('symbolic pattern')
    prog = it.srv.regex(p.decode('utf8', 'surrogateescape'))
    if 'err' in prog:
        raise GoPanic(None, 'regexp: ' + prog['err'])
    return Native('regexp', pat=p, prog=prog)


@intr('regexp.Compile')
def _compile(it, a):
    p = S(a[0]).conc()
    if p is None:
        f = it.env.get('regexp_compile')
        if f:
            return f(it, a[0])
        raise Unsupported('symbolic pattern')
    prog = it.srv.regex(p.decode('utf8', 'surrogateescape'))
    if 'err' in prog:
        return (None, mkerr(it, ('regexp', p)))
    return (Native('regexp', pat=p, prog=prog), None)


@intr('(*regexp.Regexp).MatchString', '(*regexp.Regexp).Match')
def _match(it, a):
    rx = a[0]
    if rx is None:
        raise GoPanic(None, 'nil pointer dereference')
    return strs.match(rx.prog, S(a[1]).b)


@intr('regexp.MatchString', 'regexp.Match')
def _rxmatch(it, a):
    rx = _mustcompile(it, [a[0]])
    return (_match(it, [rx, a[1]]), None)


@intr('(*regexp.Regexp).String')
def _rxstr(it, a):
    return strs.lift(a[0].pat)


# ---- time -----------------------------------------------------------------
class TimeNS:
    """Absolute instant: ns since the Unix epoch, TW-bit signed."""
    __slots__ = ('ns', 'mono')

    def __init__(self, ns):
        self.ns = ns


ZERO_TIME_NS = -62135596800 * 10**9


def tns(v):
    f0 = v.f[0]
    if isinstance(f0, TimeNS):
        return f0.ns
    if f0 == 0 and v.f[1] == 0:
        return z3.BitVecVal(ZERO_TIME_NS, TW)
    raise Unsupported('raw time value')


def mktime(ns):
    return StructV([TimeNS(z3.simplify(ns)), 0, None])


def sx(v, w):
    """Signed extension of a w-bit int or BV to TW bits."""
    if isinstance(v, int):
        return z3.BitVecVal(v, TW)
    return z3.SignExt(TW - w, v)


def clamp64(x):
    lo, hi = z3.BitVecVal(-(1 << 63), TW), z3.BitVecVal((1 << 63) - 1, TW)
    return z3.simplify(z3.Extract(63, 0, z3.If(x < lo, lo, z3.If(x > hi, hi, x))))


def low64(v):
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return v.as_signed_long()
    return v


@intr('time.Now')
def _now(it, a):
    n = it.env.get('now')
    if n is None:
        n = it.env['now'] = z3.BitVec('now_ns', TW)
        it.ctx.assume(z3.And(n >= 1577836800 * 10**9, n <= 4102444800 * 10**9))
    return mktime(n)


@intr('time.Unix')
def _unix(it, a):
    return mktime(sx(a[0], 64) * 10**9 + sx(a[1], 64))


@intr('(time.Time).Sub')
def _sub(it, a):
    return low64(clamp64(tns(a[0]) - tns(a[1])))


@intr('time.Since')
def _since(it, a):
    return low64(clamp64(tns(_now(it, [])) - tns(a[0])))


@intr('time.Until')
def _until(it, a):
    return low64(clamp64(tns(a[0]) - tns(_now(it, []))))


@intr('(time.Time).Add')
def _add(it, a):
    return mktime(tns(a[0]) + sx(a[1], 64))


intr('(time.Time).Before')(lambda it, a: tns(a[0]) < tns(a[1]))
intr('(time.Time).After')(lambda it, a: tns(a[0]) > tns(a[1]))
intr('(time.Time).Equal')(lambda it, a: tns(a[0]) == tns(a[1]))
intr('(time.Time).IsZero')(lambda it, a: tns(a[0]) == ZERO_TIME_NS)
intr('(time.Time).UTC', '(time.Time).Local', '(time.Time).Round')(lambda it, a: a[0])
intr('(time.Time).UnixNano')(lambda it, a: low64(z3.Extract(63, 0, tns(a[0]))))
intr('(time.Time).String', '(time.Time).Format', '(time.Duration).String')(lambda it, a: OStr('time', (id(a[0]),)))


@intr('(time.Time).Compare')
def _tcmp(it, a):
    x, y = tns(a[0]), tns(a[1])
    return z3.If(x < y, z3.BitVecVal(-1, 64), z3.If(x > y, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))


@intr('(time.Time).Unix')
def _tunix(it, a):
    x = z3.simplify(tns(a[0]))
    if z3.is_bv_value(x):
        return x.as_signed_long() // 10**9
    q = x / z3.BitVecVal(10**9, TW)
    r = z3.SRem(x, z3.BitVecVal(10**9, TW))
    return z3.Extract(63, 0, z3.If(r < 0, q - 1, q))


@intr('(time.Time).Nanosecond')
def _tnano(it, a):
    x = z3.simplify(tns(a[0]))
    if z3.is_bv_value(x):
        return x.as_signed_long() % 10**9
    r = z3.SRem(x, z3.BitVecVal(10**9, TW))
    return z3.Extract(63, 0, z3.If(r < 0, r + 10**9, r))


PBD = 'google.golang.org/protobuf/types/known/durationpb.Duration'
PBT = 'google.golang.org/protobuf/types/known/timestamppb.Timestamp'


def secs_nanos(it, p):
    """Seconds and nanos of a Duration/Timestamp message pointer (nil -> 0)."""
    if p is None:
        return 0, 0
    sv = p.c[p.i]
    # fields: state, sizeCache, unknownFields, Seconds, Nanos
    return sv.f[3], sv.f[4]


@intr('(*%s).AsDuration' % PBD)
def _asdur(it, a):
    s, n = secs_nanos(it, a[0])
    d = low64(clamp64(sx(s, 64) * 10**9 + sx(n, 32)))
    if is_sym(d):
        it.env.setdefault('origin', {})[d.get_id()] = (d, i64(s), i64(n, 32))
    return d


def instant_eq(it, x, y):
    """Equality of two converted durations or timestamps; equal pairs of
    seconds and nanos when both are normalised (helps the solver)."""
    o = it.env.get('origin', {})
    a, b = (o.get(v.get_id()) if is_sym(v) else None for v in (x, y))
    if a is None or b is None:
        return x == y
    (_, s1, n1), (_, s2, n2) = a, b
    if x.size() == 64:
        norm = And(dur_valid(s1, n1), dur_valid(s2, n2), *[And(s < 9223372036, s > -9223372036) for s in (s1, s2)])
    else:
        norm = And(ts_valid(s1, n1), ts_valid(s2, n2))
    return z3.If(tobool(norm), tobool(And(s1 == s2, n1 == n2)), x == y)


def i64(v, w=64):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def dur_valid(s, n):
    s, n = i64(s), i64(n, 32)
    lim = 315576000000
    return And(s >= -lim, s <= lim, n > -1000000000, n < 1000000000,
               Not(And(s > 0, n < 0)), Not(And(s < 0, n > 0)))


def ts_valid(s, n):
    s, n = i64(s), i64(n, 32)
    return And(s >= -62135596800, s <= 253402300799, n >= 0, n < 1000000000)


@intr('(*%s).CheckValid' % PBD)
def _durchk(it, a):
    if a[0] is None:
        return mkerr(it, 'invalid nil Duration')
    s, n = secs_nanos(it, a[0])
    ok = z3.simplify(dur_valid(s, n)) if is_sym(dur_valid(s, n)) else dur_valid(s, n)
    return None if it.ctx.decide(ok) else mkerr(it, 'invalid duration')


@intr('(*%s).IsValid' % PBD)
def _durisv(it, a):
    return False if a[0] is None else dur_valid(*secs_nanos(it, a[0]))


@intr('(*%s).AsTime' % PBT)
def _astime(it, a):
    s, n = secs_nanos(it, a[0])
    r = mktime(sx(s, 64) * 10**9 + sx(n, 32))
    it.env.setdefault('origin', {})[r.f[0].ns.get_id()] = (r.f[0].ns, i64(s), i64(n, 32))
    return r


@intr('(*%s).CheckValid' % PBT)
def _tschk(it, a):
    if a[0] is None:
        return mkerr(it, 'invalid nil Timestamp')
    s, n = secs_nanos(it, a[0])
    return None if it.ctx.decide(ts_valid(s, n)) else mkerr(it, 'invalid timestamp')


@intr('(*%s).IsValid' % PBT)
def _tsisv(it, a):
    return False if a[0] is None else ts_valid(*secs_nanos(it, a[0]))


# ---- net, mail, url: parsed by the standard library; the result is a shared
# uninterpreted classification of the text, used by code and specification alike
def strkey(x):
    """A stable key for a string's symbolic content."""
    return tuple(b if isinstance(b, int) else b.get_id() for b in x.b)


def classify(it, kind, x):
    """One symbolic Bool per (kind, text) pair in a path."""
    d = it.env.setdefault('classes', {})
    k = (kind, strkey(x))
    if k not in d:
        c = x.conc()
        if c is not None and kind in CONCRETE:
            d[k] = CONCRETE[kind](c)
        else:
            d[k] = it.ctx.boolean('%s_%d' % (kind, len(d)))
    return d[k]


def _ip(c):
    import ipaddress
    try:
        return ipaddress.ip_address(c.decode('ascii'))
    except Exception:
        return None


CONCRETE = {}


@intr('net.ParseIP')
def _parseip(it, a):
    x = S(a[0])
    # an address has 2..45 bytes
    isip = classify(it, 'isip', x)
    if len(x) < 2:
        it.ctx.assume(Not(isip))
    if not it.ctx.decide(isip):
        return SliceV(None, 0, 0, 0)
    is4 = classify(it, 'isip4form', x)
    if it.ctx.decide(is4):
        bs = [0] * 10 + [255, 255] + [it.ctx.bv('ip%d' % k, 8) for k in range(4)]
    else:
        bs = [it.ctx.bv('ip%d' % k, 8) for k in range(16)]
        it.ctx.assume(z3.Not(z3.And([b == 0 for b in bs[:10]] + [bs[10] == 255, bs[11] == 255])))
    return SliceV(bs, 0, 16, 16)


@intr('net/mail.ParseAddress')
def _parseaddr(it, a):
    x = S(a[0])
    ok = classify(it, 'isaddr', x)
    if not it.ctx.decide(ok):
        return (None, mkerr(it, 'mail'))
    addr = it.env.get('mail_addr')
    if addr is None:
        raise Unsupported('mail.ParseAddress outside the email harness')
    t = it.srv.type_named('net/mail.Address')
    sv = zero(t)
    sv.f[0] = OStr('displayname')
    sv.f[1] = addr(it, x)
    return (Ptr([sv], 0), None)


@intr('net/url.Parse', 'net/url.ParseRequestURI')
def _urlparse(it, a):
    x = S(a[0])
    ok = classify(it, 'isurl', x)
    if not it.ctx.decide(ok):
        return (None, mkerr(it, 'url'))
    t = it.srv.type_named('net/url.URL')
    sv = zero(t)
    if it.ctx.decide(classify(it, 'isabs', x)):
        sv.f[0] = strs.lift('s')
    return (Ptr([sv], 0), None)


# ---- reflect / sync -------------------------------------------------------
intr('(*sync.Mutex).Lock', '(*sync.Mutex).Unlock', '(*sync.RWMutex).Lock', '(*sync.RWMutex).Unlock',
     '(*sync.RWMutex).RLock', '(*sync.RWMutex).RUnlock', 'runtime.KeepAlive', 'internal/race.Enabled')(lambda it, a: None)


@intr('sort.Strings', 'slices.Sort')
def _sortstrings(it, a):
    raise Unsupported('sort')


@intr('sort.Slice', 'sort.SliceStable')
def _sortslice(it, a):
    """Insertion sort driven by the caller's less function."""
    sl = a[0].v
    less = a[1]
    n = sl.n
    for i in range(1, n):
        j = i
        while j > 0 and it.ctx.decide(it.call_value(less, [j, j - 1])):
            x, y = sl.a[sl.off + j], sl.a[sl.off + j - 1]
            sl.a[sl.off + j], sl.a[sl.off + j - 1] = y, x
            j -= 1
    return None


@intr('strconv.Itoa')
def _itoa(it, a):
    return strs.lift(str(a[0])) if isinstance(a[0], int) else OStr('%d', (a[0],))


@intr('strconv.Quote')
def _quote(it, a):
    return OStr('%q', (a[0],))


@intr('strconv.FormatInt', 'strconv.FormatUint')
def _fmtint(it, a):
    return strs.lift(str(a[0])) if isinstance(a[0], int) and a[1] == 10 else OStr('%d', (a[0],))


@intr('math.IsNaN')
def _isnan(it, a):
    return z3.fpIsNaN(a[0]) if is_sym(a[0]) else a[0] != a[0]


@intr('math.IsInf')
def _isinf(it, a):
    x, s = a
    if not is_sym(x):
        return x in (float('inf'), float('-inf')) and (s == 0 or (s > 0) == (x > 0))
    pos, neg = z3.And(z3.fpIsInf(x), z3.fpIsPositive(x)), z3.And(z3.fpIsInf(x), z3.fpIsNegative(x))
    return {0: z3.fpIsInf(x), 1: pos, -1: neg}[(s > 0) - (s < 0)]


@intr('math.Float64bits', 'math.Float32bits')
def _fbits(it, a):
    x = a[0]
    if is_sym(x):
        # NaN payloads are not tracked by the FP theory
        if it.ctx.decide(z3.fpIsNaN(x)):
            raise Unsupported('bits of NaN')
        return z3.fpToIEEEBV(x)
    import struct
    raise Unsupported('float bits')
