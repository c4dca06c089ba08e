"""Go front-end: runs the generated Go validators symbolically on lowered
abstract messages and compares them with the reference evaluator."""
import json
import os
import re
import z3

from .core import Ctx, And, Or, Not, Iff, is_sym, conc_bool, tobool, Unsupported, PathEnd, Budget
from . import strs
from .strs import Str, OStr
from .gossa import (Server, Interp, SliceV, MapV, StructV, Iface, Ptr, GoPanic, Native, zero, copy, Poison, LoadError)
from .gointrin import INTR, classify, mkerr
from .amsg import AMsg, Builder, concrete
from .spec import Spec, NUM

WKT_GO = {'wrappers': 'wrapperspb', 'duration': 'durationpb', 'timestamp': 'timestamppb', 'any': 'anypb'}


class GoProg:
    def __init__(self, scratch, pool, pkgs, extra=()):
        self.scratch, self.pool = scratch, pool
        d = scratch.gomodule()
        self.srv = Server(scratch.gotool(), d, list(pkgs) + list(extra), scratch.env)
        self._t, self._wrap, self._fmap = {}, {}, {}

    def gotype(self, md):
        t = self._t.get(md.full)
        if t is None:
            pkg = md.file.go_package.split(';')[0]
            n, p = md.name, md.parent
            parts = [md.name]
            while p is not None:
                parts.append(p.name)
                p = p.parent
            name = '_'.join(gocamel(x) for x in reversed(parts))
            t = self.srv.type_named(pkg + '.' + name)
            if t is None:
                raise Unsupported('no Go type %s.%s' % (pkg, name))
            self._t[md.full] = t
        return t

    def fmap(self, t):
        """proto name -> ('f', index) | ('o', index of the interface field)"""
        m = self._fmap.get(t.id)
        if m is None:
            m = {}
            for i, (n, ft, tag) in enumerate(t.u.d['f']):
                k = re.search(r'protobuf:"([^"]*)"', tag)
                if k:
                    m[re.search(r'name=([^,]*)', k.group(1)).group(1)] = (i, ft)
                k = re.search(r'protobuf_oneof:"([^"]*)"', tag)
                if k:
                    m['oneof ' + k.group(1)] = (i, ft)
            self._fmap[t.id] = m
        return m

    def wrapper(self, md, fname):
        """Wrapper struct type of a oneof member."""
        k = (md.full, fname)
        if k not in self._wrap:
            t = self.gotype(md)
            pkg = md.file.go_package.split(';')[0]
            o = md.field(fname).oneof
            it = self.srv.types[self.fmap(t)['oneof ' + md.oneofs[o].name][1]]
            for n, tid in self.srv.ask(op='types', name=pkg):
                ty = self.srv.types[tid]
                if ty.u.k != 'struct' or len(ty.u.d['f']) != 1:
                    continue
                fm = self.fmap(ty)
                if fname in fm and self.srv.implements(self.srv.ptrto(ty), it):
                    self._wrap[k] = ty
                    break
            else:
                raise Unsupported('no oneof wrapper for %s.%s' % k)
        return self._wrap[k]

    # ---- lowering ----------------------------------------------------
    def lower(self, m):
        if m is None:
            return None
        t = self.gotype(m.desc)
        sv = zero(t)
        fm = self.fmap(t)
        for f in m.desc.fields:
            v = m.f.get(f.name)
            if f.oneof is not None:
                o = m.desc.oneofs[f.oneof]
                if m.sel[o.name] != f.name:
                    continue
                wt = self.wrapper(m.desc, f.name)
                ws = zero(wt)
                ws.f[0] = self.lower_field(f, v)
                i, _ = fm['oneof ' + o.name]
                sv.f[i] = Iface(self.srv.ptrto(wt), Ptr([ws], 0))
                continue
            i, ft = fm.get(f.name) or fm[f.name.capitalize() if not f.group else f.type_name.rsplit('.', 1)[1]]
            if f.presence:
                if f.name in m.unset:
                    continue
                v = self.lower_field(f, v)
                if f.type == 'bytes':
                    sv.f[i] = SliceV([], 0, 0, 0) if v.a is None else v
                else:
                    sv.f[i] = Ptr([v], 0)
                continue
            sv.f[i] = self.lower_field(f, v)
        return Ptr([sv], 0)

    def lower_field(self, f, v):
        kv = self.pool.map_kv(f)
        if kv:
            if not v:
                return None
            return MapV([[self.lower_value(kv[0], k), self.lower_value(kv[1], x)] for k, x in v])
        if f.repeated:
            if not v:
                return SliceV(None, 0, 0, 0)
            xs = [self.lower_value(f, x) for x in v]
            return SliceV(xs, 0, len(xs), len(xs))
        return self.lower_value(f, v)

    def lower_value(self, f, v):
        if f.type == 'message':
            return self.lower(v)
        if f.type == 'bytes':
            bs = list(v.b)
            return SliceV(bs if bs else None, 0, len(bs), len(bs))
        return v


def gocamel(s):
    """protoc-gen-go's GoCamelCase."""
    b, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '.' and i + 1 < len(s) and s[i + 1].islower():
            pass
        elif c == '.':
            b.append('_')
        elif c == '_' and (i == 0 or s[i - 1] == '.'):
            b.append('X')
        elif c == '_' and i + 1 < len(s) and s[i + 1].islower():
            pass
        elif c.isdigit():
            b.append(c)
        else:
            b.append(c.upper() if c.islower() else c)
            while i + 1 < len(s) and s[i + 1].islower():
                i += 1
                b.append(s[i])
        i += 1
    return ''.join(b)


# ------------------------------------------------------------ size choices ----
def text_lens(r, typ, cap):
    """Byte lengths worth exploring for a string/bytes rule set."""
    ks = [0, 1, 2]
    for k in ('len', 'min_len', 'max_len', 'len_bytes', 'min_bytes', 'max_bytes'):
        if k in r:
            v = r[k]
            ks += [v - 1, v, v + 1]
            if typ == 'string' and k in ('len', 'min_len', 'max_len'):
                ks += [2 * v, 2 * v + 1]
    for k in ('const', 'prefix', 'suffix', 'contains', 'not_contains'):
        if k in r:
            n = len(r[k])
            ks += [n - 1, n, n + 1]
    if 'prefix' in r and 'suffix' in r:
        ks.append(len(r['prefix']) + len(r['suffix']) + len(r.get('contains', b'')))
    for k in ('in', 'not_in'):
        for x in r.get(k, []):
            ks += [len(x) - 1, len(x), len(x) + 1]
    if 'pattern' in r:
        ks += [3, 4, 5]
    if any(r.get(k) for k in ('ip', 'ipv4', 'ipv6')) and typ == 'bytes':
        ks += [3, 4, 5, 15, 16, 17]
    top = max([k for k in ks if k <= cap], default=0)
    return list(range(top + 1)) + long_lens(r, typ, cap)


LENRULES = ('len', 'min_len', 'max_len', 'len_bytes', 'min_bytes', 'max_bytes')


def long_lens(r, typ, cap):
    """Texts beyond the cap that a rule singles out: constants byte by byte,
    length bounds with symbolic first and last bytes."""
    out = []
    if any(k in r for k in LENRULES + ('prefix', 'suffix', 'contains', 'not_contains', 'const', 'in', 'not_in')):
        out.append((None,) + tuple(b'abcdefghijklmnopqrstuvwxyzabcdefghijklmn') + (None,))
        if typ == 'string':
            out.append((None,) + tuple('\u00e9\u20ac\U0001f600\u00e9x\u00e9\u20ac\U0001f600\u00e9x'.encode()) + (None,))
    for x in [r[k] for k in ('const', 'prefix', 'suffix', 'contains') if k in r]:
        if len(x) > cap:
            out.append(len(x))
    for k in LENRULES:
        v = r.get(k, 0)
        if cap < v <= 2000:
            out += [(None,) + (97,) * (n - 2) + (None,) for n in (v - 1, v, v + 1) if n > cap]
    return out


def host_templates(tier):
    """Label and total length boundaries: mostly fixed letters, symbolic at the
    boundary positions."""
    a = ord('a')

    def t(n, sym, dots=()):
        b = [a] * n
        for d in dots:
            b[d] = 46
        for s in sym:
            b[s % n] = None
        return tuple(b)
    out = []
    for n in (63, 64, 65):
        out.append(t(n, (0, n - 1)))
        out.append(t(n + 2, (0, n + 1), (n,)))
        out.append(t(n + 2, (0,), (1,)))
    for n in (252, 253, 254, 255):
        out.append(t(n, (n - 1,), (63, 127, 191)))
    return out


def header_lens(tier):
    return [0, 1, 2, 3] if tier == 'quick' else [0, 1, 2, 3, 4, 5]


BIG = 18


class Opts:
    big = True

    def __init__(self, pool, tier):
        self.pool, self.tier = pool, tier
        self.cap = 8 if tier == 'quick' else 12
        self.memo = {}
        self.count = 3

    def scalar(self, f, r):
        if f.type == 'string':
            s = (r or {}).get('string', {})
            q = self.tier == 'quick'
            if s.get('hostname') or s.get('address'):
                ls = list(range(0, 5 if q else 7))
                return {'lens': ls + host_templates(self.tier)}
            if s.get('uuid'):
                h = [None] * 36
                return {'lens': [0, 1, 35, 36, 37]}
            if s.get('well_known_regex'):
                return {'lens': header_lens(self.tier)}
            if s.get('email') or s.get('ip') or s.get('ipv4') or s.get('ipv6') or s.get('uri') or s.get('uri_ref'):
                return {'lens': [0, 1, 2, 7]}
            return {'lens': text_lens(s, 'string', self.cap)}
        if f.type == 'bytes':
            return {'lens': text_lens((r or {}).get('bytes', {}), 'bytes', 17)}
        return {}

    def __call__(self, f, path):
        o = self.memo.get(id(f))
        if o is None:
            o = self.memo[id(f)] = self.make(f, path)
        return o

    def make(self, f, path):
        r = f.rules or {}
        kv = self.pool.map_kv(f)
        q = self.tier == 'quick'
        if kv:
            m = r.get('map', {})
            o = self.scalar(kv[1], m.get('values'))
            ko = self.scalar(kv[0], m.get('keys'))
            if 'lens' in o:
                o['lens'] = thin(o['lens'])
            if 'lens' in ko:
                ko['lens'] = thin(ko['lens'])
            o['keyopts'] = ko
            o['items'] = counts(m, 'min_pairs', 'max_pairs', [0, 1, 2])
            if self.big and kv[0].type != 'bool' and kv[1].type != 'message' and not {kv[0].type, kv[1].type} <= {'string', 'bytes'} and f.msg.file.syntax != 'proto2':
                o['items'].append(('big', BIG))
            return o
        if f.repeated:
            m = r.get('repeated', {})
            o = self.scalar(f, m.get('items'))
            if 'lens' in o:
                o['lens'] = thin(o['lens'])
            o['items'] = counts(m, 'min_items', 'max_items', [0, 1, 2] if not m.get('unique') else [0, 1, 2, 3])
            if self.big and f.type not in ('bool', 'message') and f.msg.file.syntax != 'proto2':
                o['items'].append(('big', BIG))
            return o
        tn = f.type_name
        if f.type == 'message' and tn in ('.google.protobuf.StringValue', '.google.protobuf.BytesValue'):
            inner = self.pool.messages[tn].fields[0]
            return self.scalar(inner, r)
        if f.type in ('string', 'bytes'):
            if f.msg.full == '.google.protobuf.Any':
                return {'lens': [0, 1, 3, 4] if f.name == 'type_url' else [0, 1]}
            return self.scalar(f, r)
        return {}


def thin(ls):
    ints = [x for x in ls if isinstance(x, int)]
    return ints if len(ints) <= 4 else ints[:3] + [ints[-1]] if ints[-1] > 30 else ints[:4]


def counts(r, lo, hi, base):
    ks = set(base)
    for k in (lo, hi):
        if k in r and r[k] < 6:
            ks |= {max(0, r[k] - 1), r[k], r[k] + 1}
    return sorted(ks)


class MsgOpts:
    """Options resolved with knowledge of wrapper fields: the scalar inside a
    StringValue takes its sizes from the rules of the enclosing field."""

    def __init__(self, opts, pool):
        self.o, self.pool = opts, pool
        self.stack = []
        self.by_path = {}

    def __call__(self, f, path):
        if f.msg is not None and f.msg.full in ('.google.protobuf.StringValue', '.google.protobuf.BytesValue'):
            par = path.rsplit('.', 1)[0]
            o = self.by_path.get(par)
            if o is None:
                o = self.by_path.get(par.rsplit('.', 1)[0])
            return o or {'lens': [0, 1, 2]}
        o = self.o(f, path)
        self.by_path[path] = o
        return o


# --------------------------------------------------------------- execution ----
EMAIL_T = None


def email_templates():
    """(local length, domain template) pairs for the text returned by the
    address parser."""
    a = ord('a')
    out = []
    for l, d in ((1, 1), (1, 2), (1, 3), (2, 2), (63, 2), (64, 2), (65, 2)):
        out.append(tuple([a] * (l - 1) + [None] + [64] + [None] * d))
    out.append((a, 64, None, 64, None, a))      # "a@?"@?a : quoted local part
    for l, d in ((1, 251), (1, 252), (1, 253), (10, 243), (10, 244), (64, 189), (64, 190)):
        dom = [a] * d
        for k in (63, 127, 191):
            if k < d:
                dom[k] = 46
        dom[-1] = None
        out.append(tuple([a] * l + [64] + dom))
    return out


class Run:
    """One symbolic run: shared per-path state of code and specification."""

    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx
        self.it = Interp(prog.srv, ctx, INTR)
        it = self.it
        it.env['mail_addr'] = self.mail_addr
        self.mail = {}
        self.spec = Spec(prog.pool, classes=lambda k, v: classify(it, k, v), now=self.now,
                         regex=prog.srv.regex, email=self.email)

    def now(self):
        from .gointrin import _now, tns
        return tns(_now(self.it, []))

    def mail_addr(self, it, x):
        """Contract of mail.ParseAddress: Address is local@domain."""
        from .gointrin import strkey
        k = strkey(x)
        if k not in self.mail:
            ts = email_templates()
            t = ts[self.ctx.choose(len(ts), 'mail')]
            bs = tuple(self.ctx.bv('mail[%d]' % i, 8) if c is None else c for i, c in enumerate(t))
            at = len(t) - 1 - t[::-1].index(64)
            # the parser yields valid UTF-8; local parts here hold no '@'
            for i, b in enumerate(bs):
                if is_sym(b):
                    self.ctx.assume(z3.ULT(b, 128))
                    if i < at:
                        self.ctx.assume(z3.And(z3.UGT(b, 32), z3.ULT(b, 127), b != 34, b != 92))
                    else:
                        self.ctx.assume(b != 64)
            self.mail[k] = (Str(bs), at)
        return self.mail[k][0]

    def email(self, spec, v):
        ok = classify(self.it, 'isaddr', v)
        from .gointrin import strkey
        m = self.mail.get(strkey(v))
        if m is None:
            # the code never asked the parser for the address
            if conc_bool(ok) is False:
                return False
            a = self.mail_addr(self.it, v)
            m = self.mail[strkey(v)]
        addr, at = m
        if len(addr) > 254 or at > 64:
            return False
        return And(ok, spec.f_hostname(Str(addr.b[at + 1:])))

    def call(self, m, method):
        """Returns (err, panic)."""
        p = self.prog.lower(m)
        t = self.prog.srv.ptrto(self.prog.gotype(m.desc))
        return self.call_on(t, p, method)

    def call_on(self, t, p, method):
        fid = self.prog.srv.method(t, method)
        if fid is None:
            return 'nomethod', None
        try:
            return self.it.call_id(fid, [p]), None
        except GoPanic as g:
            return None, g


def sel(pool, files):
    out = []
    for fn in files:
        for m in pool.files[fn].all_messages():
            out.append(m)
    return out


# ------------------------------------------------------- error inspection ----
def err_fields(it, e):
    """The interface an error offers, called through its real methods."""
    out = {}
    for k in ('Field', 'Reason', 'Key', 'Cause', 'ErrorName'):
        m = it.srv.method(e.t, k)
        if m is None:
            return None
        out[k] = it.call_id(m, [copy(e.v)])
    return out


def all_errors(it, e):
    m = it.srv.method(e.t, 'AllErrors')
    if m is None:
        return None
    return it.call_id(m, [e.v]).items()
