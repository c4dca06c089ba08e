"""Properties J01..: generated Java validators against the reference."""
import concurrent.futures
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import threading
import time
import traceback

import z3

from . import util, matrix, strs
from . import gosuite as g
from .util import Scratch, BuildError, log, REPO, VERIF
from .core import Ctx, And, Or, Not, Iff, is_sym, conc_bool, tobool, Unsupported
from .strs import Str
from .amsg import AMsg, Builder, WIDTH, SIGNED, default_json
from .spec import Spec, WRAP
from .gofront import MsgOpts, sel
from .gointrin import classify, sx, TW
from .jclass import Ref
from .jvm import JVM, JThrow, JObj, JArr, JStr, JBox, JNative, ClassPath, wrap
from .runner import Result

JLIB = os.path.join(VERIF, 'pgvsym', 'java')
RUNTIME = os.path.join(REPO, 'java', 'pgv-java-stub', 'src', 'main', 'java')
JTYPE = {'float': 'float', 'double': 'double', 'bool': 'boolean', 'string': 'String', 'bytes': 'com.google.protobuf.ByteString'}
for _t in WIDTH:
    JTYPE[_t] = 'long' if WIDTH[_t] == 64 else 'int'
JBOXED = {'int': 'Integer', 'long': 'Long', 'float': 'Float', 'double': 'Double', 'boolean': 'Boolean'}
# protoc's kForbiddenWordList: accessors that would hide methods of Object/Message
UNBOXED = {v: k for k, v in JBOXED.items()}
FORBIDDEN = {'class'}


def ucamel(s, first=True):
    """protoc-java's UnderscoresToCamelCase."""
    out, up = '', first
    for i, c in enumerate(s):
        if 'a' <= c <= 'z':
            out += c.upper() if up else c
            up = False
        elif 'A' <= c <= 'Z':
            out += c.lower() if i == 0 and not up else c
            up = False
        elif '0' <= c <= '9':
            out += c
            up = True
        else:
            up = True
    if s and s[-1] == '#':
        out += '_'
    return out


def accname(f):
    n = ucamel(f.name)
    return n + '_' if f.name in FORBIDDEN else n


class Names:
    """Java names of the messages and enums of a descriptor pool."""

    def __init__(self, pool, single):
        self.pool, self.single = pool, single
        self.fileof = {}
        for fn, f in pool.files.items():
            for m in f.all_messages():
                self.fileof[m.full] = fn

    def outer(self, fn):
        base = ucamel(os.path.basename(fn)[:-6])
        f = self.pool.files[fn]
        if base in [m.name for m in f.messages] + [e.name for e in f.enums]:
            base += 'OuterClass'
        return base

    def prefix(self, fn):
        """(java package, enclosing outer class or '')."""
        f = self.pool.files[fn]
        return f.java_package or f.package, self.outer(fn) if fn in self.single else ''

    def chain(self, full):
        """File and nesting of a message or enum."""
        for fn, f in self.pool.files.items():
            pk = '.' + f.package if f.package else ''
            if full.startswith(pk + '.'):
                rest = full[len(pk) + 1:].split('.')
                if rest[0] in [m.name for m in f.messages] + [e.name for e in f.enums]:
                    return fn, rest
        raise KeyError(full)

    def source(self, full):
        if full.startswith('.google.protobuf.'):
            return 'com.google.protobuf.' + full.split('.')[-1]
        fn, rest = self.chain(full)
        pk, o = self.prefix(fn)
        return '.'.join([pk] + ([o] if o else []) + rest)

    def internal(self, full):
        if full.startswith('.google.protobuf.'):
            return 'com/google/protobuf/' + full.split('.')[-1]
        fn, rest = self.chain(full)
        pk, o = self.prefix(fn)
        return pk.replace('.', '/') + '/' + '$'.join(([o] if o else []) + rest)


# ---------------------------------------------------------------- stub classes
def elemtype(nm, f):
    if f.type in ('message', 'enum'):
        return nm.source(f.type_name)
    t = JTYPE[f.type]
    return JBOXED.get(t, t)


def stub_enum(nm, e, static):
    out = ['public %senum %s implements com.google.protobuf.ProtocolMessageEnum {' % ('', e.name)]
    first, alias = {}, []
    for n, v in e.values:
        if v in first:
            alias.append((n, first[v]))
        else:
            first[v] = n
    out.append('  ' + ', '.join('%s(%d)' % (n, v) for v, n in first.items()) + ', UNRECOGNIZED(-1);')
    for n, t in alias:
        out.append('  public static final %s %s = %s;' % (e.name, n, t))
    out.append('  private final int value;')
    out.append('  %s(int v) { value = v; }' % e.name)
    out.append('  public final int getNumber() { if (this == UNRECOGNIZED) throw new IllegalArgumentException("unrecognized"); return value; }')
    out.append('  public static %s forNumber(int v) { switch (v) { %s default: return null; } }' % (
        e.name, ' '.join('case %d: return %s;' % (v, n) for v, n in first.items())))
    out.append('  @Deprecated public static %s valueOf(int v) { return forNumber(v); }' % e.name)
    out.append('}')
    return '\n'.join(out)


def stub_msg(nm, md, static):
    pool = nm.pool
    o = ['public %sfinal class %s extends com.google.protobuf.GeneratedMessageV3 {' % ('static ' if static else '', md.name)]
    o.append('  private static final %s DEF = new %s();' % (md.name, md.name))
    o.append('  public static %s getDefaultInstance() { return DEF; }' % md.name)
    for f in md.fields:
        a, v = accname(f), 'f_' + f.name
        kv = pool.map_kv(f)
        if kv:
            t = 'java.util.Map<%s, %s>' % (elemtype(nm, kv[0]), elemtype(nm, kv[1]))
            o.append('  public %s %s = new java.util.HashMap<>();' % (t, v))
            o.append('  public %s get%sMap() { return %s; }' % (t, a, v))
            o.append('  public int get%sCount() { return %s.size(); }' % (a, v))
            o.append('  public boolean contains%s(%s k) { return %s.containsKey(k); }' % (a, UNBOXED.get(elemtype(nm, kv[0]), elemtype(nm, kv[0])), v))
        elif f.repeated:
            t = 'java.util.List<%s>' % elemtype(nm, f)
            o.append('  public %s %s = new java.util.ArrayList<>();' % (t, v))
            o.append('  public %s get%sList() { return %s; }' % (t, a, v))
            o.append('  public int get%sCount() { return %s.size(); }' % (a, v))
            o.append('  public %s get%s(int i) { return %s.get(i); }' % (UNBOXED.get(elemtype(nm, f), elemtype(nm, f)), a, v))
        elif f.type == 'message':
            t = nm.source(f.type_name)
            o.append('  public %s %s;' % (t, v))
            o.append('  public boolean has%s() { return %s != null; }' % (a, v))
            o.append('  public %s get%s() { return %s == null ? %s.getDefaultInstance() : %s; }' % (t, a, v, t, v))
        elif f.type == 'enum':
            t = nm.source(f.type_name)
            o.append('  public int %s;' % v)
            if f.msg.file.syntax != 'proto2':
                o.append('  public int get%sValue() { return %s; }' % (a, v))
            o.append('  public %s get%s() { %s r = %s.forNumber(%s); return r == null ? %s.UNRECOGNIZED : r; }' % (t, a, t, t, v, t))
        else:
            t = JTYPE[f.type]
            d = {'String': ' = ""', 'com.google.protobuf.ByteString': ' = com.google.protobuf.ByteString.EMPTY'}.get(t, '')
            o.append('  public %s %s%s;' % (t, v, d))
            o.append('  public %s get%s() { return %s; }' % (t, a, v))
        if f.presence:
            o.append('  public boolean p_%s;' % f.name)
            o.append('  public boolean has%s() { return p_%s; }' % (a, f.name))
        if f.oneof is not None and not md.oneofs[f.oneof].synthetic and f.type != 'message':
            o.append('  public boolean has%s() { return c_%s == %d; }' % (a, md.oneofs[f.oneof].name, f.number))
    for oo in md.oneofs:
        if oo.synthetic:
            continue
        n = ucamel(oo.name)
        ns = re.sub(r'_', '', oo.name).upper() + '_NOT_SET'
        o.append('  public int c_%s;' % oo.name)
        o.append('  public enum %sCase { %s, %s(0); private final int value; %sCase(int v) { value = v; } public int getNumber() { return value; } }' % (
            n, ', '.join('%s(%d)' % (f.name.upper(), f.number) for f in oo.fields), ns, n))
        o.append('  public %sCase get%sCase() { switch (c_%s) { %s default: return %sCase.%s; } }' % (
            n, n, oo.name, ' '.join('case %d: return %sCase.%s;' % (f.number, n, f.name.upper()) for f in oo.fields), n, ns))
    for e in md.enums:
        o.append(stub_enum(nm, e, True))
    for m in md.nested:
        if not m.map_entry:
            o.append(stub_msg(nm, m, True))
    o.append('}')
    return '\n'.join(o)


def write_stubs(nm, files, out):
    srcs = []

    def put(pk, name, text):
        p = os.path.join(out, pk.replace('.', '/'), name + '.java')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('package %s;\n@SuppressWarnings("all")\n%s\n' % (pk, text))
        srcs.append(p)
    for fn in files:
        f = nm.pool.files[fn]
        pk, o = nm.prefix(fn)
        if o:
            body = [stub_msg(nm, m, True) for m in f.messages] + [stub_enum(nm, e, True) for e in f.enums]
            put(pk, o, 'public final class %s {\n%s\n}' % (o, '\n'.join(body)))
        else:
            for m in f.messages:
                put(pk, m.name, stub_msg(nm, m, False))
            for e in f.enums:
                put(pk, e.name, stub_enum(nm, e, False))
    return srcs


def accessor_check(scratch, pool, nm, files):
    """The stand-in classes offer what protoc's own Java classes offer."""
    out = os.path.dirname(scratch.path('protocjava', 'x'))
    rc, o = util.run(['protoc', '-I', scratch.path('proto'), '-I', REPO, '--java_out=' + out] + scratch.protonames, cwd=scratch.path('proto'))
    if rc:
        raise RuntimeError('protoc --java_out: ' + o)
    text = {}
    for d, _, fs in os.walk(out):
        for f in fs:
            text.setdefault(os.path.relpath(d, out).replace('/', '.'), []).append(open(os.path.join(d, f)).read())
    bad = []
    for fn in files:
        pk, _ = nm.prefix(fn)
        t = '\n'.join(text.get(pk, []))
        for m in pool.files[fn].all_messages():
            for f in m.fields:
                suf = 'Map' if pool.map_kv(f) else 'List' if f.repeated else ''
                if ' get%s%s()' % (accname(f), suf) not in t:
                    bad.append('%s.%s' % (m.full, f.name))
    return bad, '\n'.join('\n'.join(x) for x in text.values())


def standin_gap(o, protoc):
    """True if every javac error is about a library member or an accessor that
    exists in the real classes but not in the stand-ins."""
    errs = re.split(r'(?m)^(?=\S+\.java:\d+: error: )', o)[1:]
    for e in errs:
        head = e.split(': error: ', 1)[1].split('\n')[0]
        if re.match(r'package (com\.google|org\.apache|io\.grpc)\.[\w.]+ does not exist', head):
            continue
        sym = re.search(r'symbol:\s+(?:method|variable|class) (\w+)', e)
        loc = re.search(r'location:.*?\b((?:com\.google|org\.apache)\.[\w.]+|(?:interface|class|type) \w+)\s*$', e, re.M)
        if head.startswith('cannot find symbol') and sym and loc:
            where = loc.group(1).split()[-1]
            lib = where.startswith(('com.google.', 'org.apache.')) or where in LIBCLASSES
            if lib or re.search(r'\b%s\(' % sym.group(1), protoc):
                continue
        m = re.search(r'(?:method|constructor) (\w+) in (?:class|interface) (\w+)', head)
        if m and m.group(2) in LIBCLASSES:
            continue
        return False
    return bool(errs)


LIBCLASSES = {f[:-5] for d, _, fs in os.walk(JLIB) for f in fs if f.endswith('.java')}


# -------------------------------------------------------------------- lowering
class Lower:
    """Abstract messages as objects of the stand-in classes."""

    def __init__(self, j, nm):
        self.j, self.nm, self.pool = j, nm, nm.pool

    def message(self, m):
        cls = self.nm.internal(m.desc.full)
        self.j.init(cls)
        o = self.j.new(cls)
        wkt = m.desc.full.startswith('.google.protobuf.')
        for f in m.desc.fields:
            o.f[f.name if wkt else 'f_' + f.name] = self.field(f, m.f[f.name], m)
            if f.presence:
                o.f['p_' + f.name] = int(f.name not in m.unset)
        for oo in m.desc.oneofs:
            s = m.sel[oo.name]
            o.f['c_' + oo.name] = next((f.number for f in oo.fields if f.name == s), 0)
        return o

    def field(self, f, v, m):
        kv = self.pool.map_kv(f)
        if kv:
            return JNative('map', [(self.elem(kv[0], a), self.elem(kv[1], b)) for a, b in v])
        if f.repeated:
            return JNative('list', [self.elem(f, x) for x in v])
        if v is None:
            if f.type == 'message':
                return None
            return self.j.zero({'float': 'F', 'double': 'D'}.get(f.type, 'I')) if f.type not in ('string', 'bytes') else self.scalar(f, Str(()))
        return self.scalar(f, v)

    def scalar(self, f, v):
        t = f.type
        if t == 'message':
            return self.message(v)
        if t == 'string':
            return JStr(v)
        if t == 'bytes':
            o = self.j.new('com/google/protobuf/ByteString')
            o.f['b'] = JArr('B', [wrap(b, 8) if isinstance(b, int) else z3.SignExt(24, b) for b in v.b])
            return o
        if t == 'bool':
            return z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) if is_sym(v) else int(v)
        return v

    def elem(self, f, v):
        s = self.scalar(f, v)
        if f.type == 'enum':
            c = self.nm.internal(f.type_name)
            r = self.j.static(Ref(c, 'forNumber', '(I)L%s;' % c), [s])
            if r is None:
                self.j.init(c)
                r = self.j.statics[(c, 'UNRECOGNIZED')]
            return r
        if f.type in ('message', 'string', 'bytes'):
            return s
        k = JBOXED[JTYPE[f.type]]
        return JBox('java/lang/' + k, s)


# ---------------------------------------------------------------------- replay
HARNESS = r'''
package pgvsym;
import io.envoyproxy.pgv.*;
@SuppressWarnings("all")
public final class H {
  private static ReflectiveValidatorIndex index = new ReflectiveValidatorIndex();
  public static void check(Object m) throws ValidationException {
    index.validatorFor(m).assertValid(m);
  }
}
'''
DRIVER = r'''
package pgvsym;
import java.io.*;
import java.util.*;
import io.envoyproxy.pgv.*;
@SuppressWarnings("all")
public final class Main {
  static Iterator<String> in;
  static byte[] hex(String s) {
    byte[] o = new byte[s.length() / 2];
    for (int i = 0; i < o.length; i++) o[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return o;
  }
  static Object value(String t) throws Exception {
    String r = t.substring(1);
    switch (t.charAt(0)) {
      case 'i': return (int) Long.parseLong(r);
      case 'l': return Long.parseLong(r);
      case 'f': return Float.intBitsToFloat((int) Long.parseLong(r));
      case 'd': return Double.longBitsToDouble(Long.parseUnsignedLong(r));
      case 'z': return r.equals("1");
      case 's': return new String(hex(r), "UTF-8");
      case 'b': return com.google.protobuf.ByteString.copyFrom(hex(r));
      case 'e': {
        int k = r.lastIndexOf(':');
        Class c = Class.forName(r.substring(0, k));
        Object o = c.getMethod("forNumber", int.class).invoke(null, Integer.parseInt(r.substring(k + 1)));
        return o == null ? Enum.valueOf(c, "UNRECOGNIZED") : o;
      }
      case '[': {
        List l = new ArrayList();
        for (String x = in.next(); !x.equals("]"); x = in.next()) l.add(value(x));
        return l;
      }
      case '(': {
        Map m = new LinkedHashMap();
        for (String x = in.next(); !x.equals(")"); x = in.next()) { Object k = value(x); m.put(k, value(in.next())); }
        return m;
      }
      case 'm': {
        java.lang.reflect.Constructor c = Class.forName(r).getDeclaredConstructor();
        c.setAccessible(true);
        Object o = c.newInstance();
        for (String x = in.next(); !x.equals("}"); x = in.next()) {
          Object v = value(in.next());
          o.getClass().getField(x).set(o, v);
        }
        return o;
      }
    }
    throw new Exception("token " + t);
  }
  public static void main(String[] a) throws Exception {
    BufferedReader br = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
    for (String line = br.readLine(); line != null; line = br.readLine()) {
      Object o;
      try {
        in = Arrays.asList(line.split(" ")).iterator();
        o = value(in.next());
      } catch (Throwable t) {
        System.out.println("P " + t);
        continue;
      }
      try {
        H.check(o);
        System.out.println("1");
      } catch (UnimplementedException e) {
        System.out.println("U");
      } catch (ValidationException e) {
        System.out.println("0 " + e.getField() + (e.getReason() == null || e.getReason().isEmpty() || !e.getMessage().contains(e.getReason()) ? " (no reason)" : ""));
      } catch (Throwable t) {
        System.out.println("X " + t.toString().replace('\n', ' '));
      }
    }
  }
}
'''


class Tok:
    def __init__(self, nm):
        self.nm, self.pool = nm, nm.pool

    def msg(self, md, tree):
        out = ['m' + self.nm.internal(md.full).replace('/', '.')]
        wkt = md.full.startswith('.google.protobuf.')
        for f in md.fields:
            if f.name not in tree and f.presence:
                v = default_json(self.pool, f)
            elif f.name not in tree:
                continue
            else:
                v = tree[f.name]
                if f.presence:
                    out += ['p_' + f.name, 'z1']
            kv = self.pool.map_kv(f)
            nm = f.name if wkt else 'f_' + f.name
            if kv:
                out += [nm, '('] + [t for a, b in v for t in self.elem(kv[0], a) + self.elem(kv[1], b)] + [')']
            elif f.repeated:
                out += [nm, '['] + [t for x in v for t in self.elem(f, x)] + [']']
            elif v is None:
                continue
            else:
                out += [nm] + self.value(f, v)
            if f.oneof is not None:
                out += ['c_' + md.oneofs[f.oneof].name, 'i%d' % f.number]
        return out + ['}']

    def elem(self, f, v):
        if f.type == 'enum':
            return ['e%s:%d' % (self.nm.internal(f.type_name).replace('/', '.'), int(v))]
        return self.value(f, v)

    def value(self, f, v):
        t = f.type
        if t == 'message':
            return self.msg(self.pool.messages[f.type_name], v or {})
        if t in WIDTH:
            return ['%s%d' % ('l' if WIDTH[t] == 64 else 'i', wrap(int(v), WIDTH[t]))]
        if t in ('float', 'double'):
            return [t[0] + str(int(v['bits']))]
        if t == 'bool':
            return ['z1' if v else 'z0']
        return [t[0] + v['hex']]


# ------------------------------------------------------------------- reference
def mixed(s, n):
    return z3.Concat(z3.Extract(TW - 33, 0, s), n)


class JavaSpec(Spec):
    """Java matches patterns against the whole value and leaves hosts,
    addresses and URIs to its libraries."""

    def pattern(self, pat, v):
        prog = self.regex(pat.decode('utf8', 'surrogateescape'))
        self.dontcare.append(Not(strs.valid_utf8(v.b)))
        return strs.match(prog, v.b, anchored=True, full=True)

    def num(self, t, r, v):
        if t in ('float', 'double'):
            # boxed comparison orders -0 below +0 and equates NaNs
            self.dontcare.append(z3.fpIsNaN(v))
            if any(k in r for k in ('const', 'in', 'not_in', 'lt', 'lte', 'gt', 'gte')):
                self.dontcare.append(z3.fpIsZero(v))
        return Spec.num(self, t, r, v)

    def eqv(self, f, a, b):
        if f.type in ('float', 'double'):
            self.dontcare.append(Or(z3.fpIsNaN(a), z3.fpIsNaN(b), And(z3.fpIsZero(a), z3.fpIsZero(b))))
        if f.type == 'enum':
            e = self.pool.enums[f.type_name]
            undef = [Not(Or([x == z3.BitVecVal(n, 32) for _, n in e.values])) for x in (a, b)]
            self.dontcare.append(And(undef))
        return Spec.eqv(self, f, a, b)

    def f_hostname(self, v):
        asc = And([True] + [strs.rng(x, 0, 127) for x in v.b])
        return False if conc_bool(asc) is False else And(asc, self.classes('jhost', v))

    def f_ip(self, v):
        return Or(self.f_ipv4(v), self.f_ipv6(v))

    def f_ipv4(self, v):
        return self.classes('jip4', v) if len(v) >= 7 else False

    def f_ipv6(self, v):
        return self.classes('jip6', v) if len(v) >= 2 else False

    def f_uri(self, v):
        return And(self.classes('juri', v), self.classes('juriabs', v))

    def f_uri_ref(self, v):
        return self.classes('juri', v)

    def f_email(self, v):
        n = len(v)
        if n == 0 or conc_bool(strs.beq(v.b[-1], 62)) is False:
            return self.classes('jmail', v)
        lt = [strs.beq(x, 60) for x in v.b]
        br = strs.beq(v.b[-1], 62)
        # name <address>: the text between the last '<' and the final '>'
        cases = []
        for i in range(n - 1):
            cases.append(And(lt[i], Not(Or([False] + lt[i + 1:n - 1])), self.classes('jmail', Str(v.b[i + 1:n - 1]))))
        self.dontcare.append(And(br, Or([strs.beq(x, 34) for x in v.b])))
        self.dontcare.append(And(br, Not(Or(lt))))
        return Or(And(Not(br), self.classes('jmail', v)), And(br, Or(cases)))

    # Instants and durations as seconds and nanoseconds side by side: the
    # order is the order of the pairs, and no product is needed.
    def ns(self, s, n):
        n = z3.BitVecVal(n, 32) if isinstance(n, int) else n
        neg = n < 0
        return mixed(sx(s, 64) - z3.If(neg, z3.BitVecVal(1, TW), z3.BitVecVal(0, TW)), z3.If(neg, n + 10**9, n))

    def instant(self, x):
        s, n = divmod(self.lit(x), 10**9)
        return mixed(z3.BitVecVal(s, TW), z3.BitVecVal(n, 32))

    def shift(self, t, x, sign):
        s, n = divmod(sign * self.lit(x), 10**9)
        m = z3.Extract(31, 0, t) + n
        carry = z3.UGE(m, 10**9)
        return mixed(z3.SignExt(32, z3.Extract(TW - 1, 32, t)) + s + z3.If(carry, z3.BitVecVal(1, TW), z3.BitVecVal(0, TW)), z3.If(carry, m - 10**9, m))

    def duration(self, r, v):
        from .gointrin import dur_valid
        keys = ('in', 'not_in', 'lt', 'lte', 'gt', 'gte', 'const')
        if not any(r.get(k) or k in r for k in keys):
            return True
        s, n = v.f['seconds'], v.f['nanos']
        self.dontcare.append(Not(dur_valid(s, n)))
        return self.nsrange(r, self.ns(s, n))

    def timestamp(self, r, v):
        from .gointrin import ts_valid
        n0 = len(self.dontcare)
        ok = Spec.timestamp(self, r, v)
        self.dontcare.append(Not(ts_valid(v.f['seconds'], v.f['nanos'])))
        if r.get('within') is not None:
            # the clock counts milliseconds and the bounds are inclusive
            ns = self.ns(v.f['seconds'], v.f['nanos'])
            W = r['within']
            self.dontcare.append(Or(ns == self.shift(self.now(), W, 1), ns == self.shift(self.now(), W, -1)))
        return ok


class JavaOracle(g.Oracle):
    def spec(self, now):
        def nonow():
            if now is None:
                raise g.Undecided('clock')
            s, n = divmod(int(now), 10**9)
            return mixed(z3.BitVecVal(s, TW), z3.BitVecVal(n, 32))
        return JavaSpec(self.pool, classes=jconc, now=nonow, regex=self.regex)


# Texts whose classification the libraries' documentation settles.
ROWS = [
    ({'jhost': True, 'jip4': False, 'jip6': False}, ['example.com', 'www.example.org', 'localhost']),
    ({'jhost': False, 'jip4': True, 'jip6': False}, ['1.2.3.4', '127.0.0.1', '255.255.255.255']),
    ({'jhost': False, 'jip4': False, 'jip6': True}, ['::1', '2001:db8::7334', 'fe80::1']),
    ({'jhost': False, 'jip4': False, 'jip6': False}, ['-foo.com', 'a b', 'foo..com', '256.1.1.1', '1.2.3.4:80', ':::1', '']),
    ({'jmail': True}, ['foo@example.com', 'a.b@example.org']),
    ({'jmail': False}, ['foo', '@example.com', 'foo@', 'a b@c d', '']),
    ({'juri': True, 'juriabs': True}, ['http://a/b', 'mailto:a@b', 'urn:x']),
    ({'juri': True, 'juriabs': False}, ['/x', 'a/b', '//h/p', '']),
    ({'juri': False}, ['http://[', '%zz', ':', 'a b']),
]
JREP = {(k, x): v for d, xs in ROWS for x in xs for k, v in d.items()}


def jconc(kind, s):
    r = JREP.get((kind, s.conc().decode('utf8', 'replace')))
    if r is None:
        raise g.Undecided(kind)
    return r


def candidates(cl):
    out = []
    for d, xs in ROWS:
        if all(k in d and d[k] == v for k, v in cl.items()):
            out += xs
    return out


def variants(j, am, model, pool, limit=12):
    """Concrete trees of a model; classified texts become representatives."""
    from .amsg import concrete
    from .gointrin import strkey
    tree = concrete(pool, am, model)
    cl = {k: (z3.is_true(model.eval(v, model_completion=True)) if is_sym(v) else v) for k, v in j.env.get('classes', {}).items()}
    now = j.env.get('nowms')
    if now is not None:
        now = str(model.eval(now, model_completion=True).as_signed_long() * 10**6)
    if not cl:
        return [(tree, now)], False
    bykey = {}
    for (kind, key), val in cl.items():
        bykey.setdefault(key, {})[kind] = val
    hits = []

    def walk(m, t):
        for f in m.desc.fields:
            if f.name not in t or m.f.get(f.name) is None:
                continue
            v, x = m.f[f.name], t[f.name]
            kv = pool.map_kv(f)
            if kv:
                for i, (a, b) in enumerate(v):
                    leaf(kv[0], a, x[i], 0)
                    leaf(kv[1], b, x[i], 1)
            elif f.repeated:
                for i, y in enumerate(v):
                    leaf(f, y, x, i)
            else:
                leaf(f, v, t, f.name)

    def leaf(f, v, t, k):
        if f.type == 'message':
            if v is not None:
                walk(v, t[k])
        elif isinstance(v, Str):
            sk = strkey(v)
            h = t[k]['hex']
            n = len(v)
            if sk in bykey:
                hits.append((t, k, '', '', bykey[sk]))
                return
            if isinstance(sk, tuple):
                for i in range(n):
                    c = bykey.get(sk[i:n - 1]) or (bykey.get(bytes(x if isinstance(x, int) else 0 for x in v.b[i:n - 1])) if i == n - 1 else None)
                    if c and i:
                        hits.append((t, k, h[:2 * i], h[2 * (n - 1):], c))
                        return
    walk(am, tree)
    out = []
    for r in range(limit):
        done = False
        for t, k, pre, post, c in hits:
            xs = candidates(c)
            if xs:
                t[k] = {'hex': pre + xs[r % len(xs)].encode().hex() + post}
                done = done or r < len(xs)
        if r and not done:
            break
        out.append((json.loads(json.dumps(tree)), now))
    return out, True


# -------------------------------------------------------------------- the suite
class JavaSuite:
    def __init__(self, names, tier, seed, texts=None, single=()):
        self.tier, self.seed = tier, seed
        self.names = list(names)
        self.scratch = Scratch()
        t = texts or matrix.java_texts(self.names, seed)
        if texts is None and ('msg' in self.names or 'ext' in self.names) and 'mso' not in self.names:
            self.names.append('mso')
        for n in single:
            k = 'pgvm/%s.proto' % n
            if k in t:
                t[k] = t[k].replace('option java_multiple_files = true;', '')
        self.texts = t
        self.scratch.protos(t)
        self.pool = self.scratch.descriptors()
        self.files = ['pgvm/%s.proto' % n for n in self.names]
        self.nm = Names(self.pool, {'pgvm/%s.proto' % n for n in single})
        self.src = os.path.dirname(self.scratch.path('java', 'gen', 'x'))
        self.stub = os.path.dirname(self.scratch.path('java', 'stub', 'x'))
        self.cls = os.path.dirname(self.scratch.path('java', 'classes', 'x'))
        self._rx = None

    def build(self, res):
        s = self.scratch
        rc, o = s.gen('java', s.protonames, self.src)
        if rc:
            res.violation('build', 'the generator fails on a legal rule set: ' + o[-1500:], {'protos': self.texts, 'output': o[-6000:]})
            return False
        bad, self.protoc = accessor_check(s, self.pool, self.nm, self.files)
        if bad:
            raise RuntimeError('stand-in accessors differ from protoc: %s' % bad[:5])
        srcs = write_stubs(self.nm, self.files, self.stub)
        hd = s.write('java/stub/pgvsym/H.java', HARNESS)
        md = s.write('java/stub/pgvsym/Main.java', DRIVER)
        lib = [os.path.join(d, f) for root in (JLIB, RUNTIME) for d, _, fs in os.walk(root) for f in fs if f.endswith('.java')]
        gen = [os.path.join(d, f) for d, _, fs in os.walk(self.src) for f in fs if f.endswith('.java')]
        base = ['javac', '--release', '8', '-nowarn', '-encoding', 'UTF-8', '-Xlint:none', '-Xmaxerrs', '400', '-d', self.cls]
        rc, o = util.run(base + lib, timeout=300)
        if rc and standin_gap(o, ''):
            res.inconclusive.append('the runtime uses library members the stand-ins lack: ' + o[:300])
            return False
        if rc:
            res.violation('build', 'the Java runtime classes do not compile: ' + o[-1500:], {'output': o[-6000:]})
            return False
        lst = s.write('java/list', '\n'.join(srcs + [hd, md] + gen))
        rc, o = util.run(base + ['-cp', self.cls, '@' + lst], timeout=600)
        if rc and standin_gap(o, self.protoc):
            res.inconclusive.append('generated code uses library members the stand-ins lack: ' + o[:300])
            return False
        if rc:
            res.violation('build', 'generated Java validators do not compile: ' + o[:1500], {'protos': self.texts, 'output': o[:6000]})
            return False
        self.cp = ClassPath([self.cls])
        return True

    def rx(self, pat):
        if self._rx is None or self._rx[0] != os.getpid():
            self._rx = (os.getpid(), g.regex_tool(self))
        return self._rx[1](pat)

    def rematch(self, pat, s):
        prog = self.rx(pat.decode('utf8', 'surrogateescape'))
        return strs.match(prog, s.b, anchored=True, full=True)

    def replay(self, reqs):
        tk = Tok(self.nm)
        data = ''.join(' '.join(tk.msg(self.pool.messages[full], tree)) + '\n' for full, tree in reqs)
        p = subprocess.run(['java', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-cp', self.cls, 'pgvsym.Main'], input=data.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        out = p.stdout.decode('utf8', 'replace').split('\n')[:-1]
        if len(out) != len(reqs):
            log('Java driver died: ' + p.stderr.decode('utf8', 'replace')[-1500:])
        return out + [None] * (len(reqs) - len(out))


# ----------------------------------------------------------------------- worker
def _init(suite):
    os.environ['PGV_WORKER'] = '1'
    g.W['pool'], g.W['tier'], g.W['java'] = suite.pool, suite.tier, suite


def _task(args):
    try:
        return m_attr(*args) if g.W['java'].mode == 'attr' else m_sem(*args)
    except Exception:
        return {'err': traceback.format_exc(), 'full': args[0]}


def witness(j, am, rec, extra, pool):
    if j.ctx.check() != z3.sat:
        rec['unknown'] += 1
        return
    vs, classed = variants(j, am, j.ctx.model(), pool)
    rec['wit'].append((vs[0][0], vs[0][1], extra, classed))


def cex(j, am, rec, bad, what, pool):
    if conc_bool(bad) is False:
        return False
    t = j.ctx.check(tobool(bad))
    if t == z3.unsat:
        return False
    if t != z3.sat:
        rec['unknown'] += 1
        return False
    if len(rec['cex']) < 12:
        vs, _ = variants(j, am, j.ctx.model(), pool)
        rec['cex'].append((what, vs, None))
    return True


def m_sem(full):
    suite = g.W['java']
    pool = suite.pool
    md = pool.messages[full]
    ctx = Ctx(deadline=time.time() + (150 if suite.tier == 'quick' else 900))
    rec = {'full': full, 'cex': [], 'wit': [], 'unknown': 0, 'n': {}, 'stats': ctx.stats, 'exhausted': True}
    opts = g.mkopts(md, False)

    def run(c):
        j = JVM(suite.cp, c, {'rematch': suite.rematch})
        am = Builder(pool, c, MsgOpts(opts, pool), depth=2, oneof_set=True).message(md)
        o = Lower(j, suite.nm).message(am)

        def now():
            from .jvm import intrinsic
            intrinsic(j, 'java/lang/System', Ref('java/lang/System', 'currentTimeMillis', '()J'), None, [])
            s, ms = j.env['nowparts']
            return mixed(z3.SignExt(TW - 64, s), z3.Extract(31, 0, ms) * 10**6)

        def judge():
            sp = JavaSpec(pool, classes=lambda k, v: classify(j, k, v), now=now, regex=suite.rx)
            phi = sp.message(am)
            return phi, Or([False] + sp.dontcare)

        def emit(model):
            vs, _ = variants(j, am, model, pool)
            rec['wit'].append((vs[0][0], vs[0][1], None, True))
        g.escape(c, rec, judge, emit)
        thrown = None
        try:
            j.static(Ref('pgvsym/H', 'check', '(Ljava/lang/Object;)V'), [o])
        except JThrow as t:
            thrown = str(t)
        finally:
            c.stats.steps += j.steps
        phi, dc = judge()
        if thrown == 'io.envoyproxy.pgv.ValidationException' or thrown is None:
            r = thrown is None
            cex(j, am, rec, And(Not(Iff(phi, r)), Not(dc)), 'assertValid %s' % ('accepts a message the rules reject' if r else 'rejects a message the rules accept'), pool)
            k = 'accept' if r else 'reject'
            rec['n'][k] = rec['n'].get(k, 0) + 1
            witness(j, am, rec, '1' if r else '0', pool)
        else:
            cex(j, am, rec, Not(dc), 'assertValid throws %s' % thrown, pool)
            rec['n']['throw'] = rec['n'].get('throw', 0) + 1
            witness(j, am, rec, 'U' if thrown.endswith('UnimplementedException') else 'X', pool)
    rec['exhausted'] = bool(ctx.explore(run))
    return rec


def places(spec, m):
    """{name of a field or oneof: (in error, unspecified)} for the message and
    the messages it embeds."""
    from .goerr import labels
    from .gofront import gocamel
    names = {gocamel(x.name): '%s.%s' % (m.desc.full, x.name) for x in list(m.desc.fields) + [o for o in m.desc.oneofs if not o.synthetic]}
    out = {}

    def add(n, c, dc):
        a, b = out.get(n, (False, False))
        out[n] = (Or(a, c), Or(b, dc))
    for lb in labels(spec, m):
        if lb.sub is None:
            add(names[lb.name], lb.cond, lb.dc)
            continue
        own = False
        for gr in lb.groups:
            own = Or(own, gr)
        add(names[lb.name], own, lb.dc)
        for n, (c, dc) in places(spec, lb.sub).items():
            add(n, c, dc)
    return out


class AttrOpts(g.LiteOpts):
    def scalar(self, f, r):
        o = g.LiteOpts.scalar(self, f, r)
        if self.tier == 'quick' and 'lens' in o and getattr(f.msg, 'map_entry', False):
            ls = [n for n in o['lens'] if not isinstance(n, int) or n <= 3] or o['lens']
            o['lens'] = [ls[0], ls[-1]]
        return o

    def make(self, f, path):
        o = g.LiteOpts.make(self, f, path)
        kv = self.pool.map_kv(f)
        if kv and all(x.type in ('string', 'bytes') for x in kv) and self.tier == 'quick':
            o['items'] = [i for i in o['items'] if i <= 2]
        return o


def unspecified(spec, m):
    spec.dontcare = []
    spec.message(m)
    return Or([False] + spec.dontcare)


def m_attr(full):
    """The exception of a rejected message names a field in error."""
    suite = g.W['java']
    pool = suite.pool
    md = pool.messages[full]
    ctx = Ctx(deadline=time.time() + (150 if suite.tier == 'quick' else 900))
    rec = {'full': full, 'cex': [], 'wit': [], 'unknown': 0, 'n': {}, 'stats': ctx.stats, 'exhausted': True}
    opts = AttrOpts(pool, suite.tier)

    def run(c):
        j = JVM(suite.cp, c, {'rematch': suite.rematch})
        am = Builder(pool, c, MsgOpts(opts, pool), depth=2, oneof_set=True).message(md)
        o = Lower(j, suite.nm).message(am)
        thrown = None
        try:
            j.static(Ref('pgvsym/H', 'check', '(Ljava/lang/Object;)V'), [o])
        except JThrow as t:
            thrown = t.obj
        finally:
            c.stats.steps += j.steps
        if thrown is None or str(JThrow(thrown)) != 'io.envoyproxy.pgv.ValidationException':
            rec['n']['accept'] = rec['n'].get('accept', 0) + 1
            return
        rec['n']['reject'] = rec['n'].get('reject', 0) + 1

        def now():
            from .jvm import intrinsic
            intrinsic(j, 'java/lang/System', Ref('java/lang/System', 'currentTimeMillis', '()J'), None, [])
            s, ms = j.env['nowparts']
            return mixed(z3.SignExt(TW - 64, s), z3.Extract(31, 0, ms) * 10**6)
        sp = JavaSpec(pool, classes=lambda k, v: classify(j, k, v), now=now, regex=suite.rx)
        pl = places(sp, am)
        pl[''] = (False, unspecified(sp, am))
        f = thrown.f.get('field')
        try:
            name = f.s.conc().decode()
        except Exception:
            name = None
        bad, _ = pl.get(name, (False, False))
        dc = Or([False] + [d for _, d in pl.values()])
        cex(j, am, rec, And(Not(bad), Not(dc)), 'the exception names %s, which is not in error' % name, pool)
        witness(j, am, rec, '0 ' + str(name), pool)
    rec['exhausted'] = bool(ctx.explore(run))
    return rec


JAVA_ASSUME = [
    'Java semantics as compiled by javac: the bytecode of the generated validators and of the pgv-java-stub runtime is executed; '
    'java.lang, java.util and java.net follow their documented contracts.',
    'Protobuf messages are plain holders of fields with the accessors protoc declares; protobuf-java-util comparators reject malformed values.',
    'RE2/J patterns, host names, IP addresses, e-mail addresses and URIs are decided by their libraries: one unknown predicate per text.',
    'Patterns are matched against the whole value, as this language has always done; NaN, signed zeros, malformed durations and '
    'timestamps and degenerate ranges are left unspecified.',
]


def check(prop, names, tier, seed, bounds, texts=None, single=('tim', 'col'), mode='sem'):
    res = Result(prop, tier, seed)
    res.bounds = bounds
    res.assumptions = JAVA_ASSUME
    try:
        suite = JavaSuite(names, tier, seed, texts, single)
        suite.mode = mode
        suite.scratch.gotool()
        ok = suite.build(res)
    except BuildError as e:
        res.violation('build', str(e)[-1500:], {'output': e.out[-6000:]})
        return res.finish()
    if not ok:
        return res.finish()
    only = [m.full for m in sel(suite.pool, suite.files)]
    flt = os.environ.get('PGV_ONLY')
    if flt:
        only = [x for x in only if re.search(flt, x)]
    reqs, meta = [], []
    counts = {'accept': 0, 'reject': 0, 'throw': 0}
    vac = []
    n = min(g.PROCS, max(1, len(only)))
    with concurrent.futures.ProcessPoolExecutor(n, mp_context=multiprocessing.get_context('fork'), initializer=_init, initargs=(suite,)) as ex:
        for f in concurrent.futures.as_completed([ex.submit(_task, (x,)) for x in g.order(suite, only)]):
            rec = f.result()
            if rec.get('err'):
                res.inconclusive.append('%s: %s' % (rec['full'], ' | '.join(x.strip() for x in rec['err'].strip().split(chr(10))[-4:])[-280:]))
                continue
            res.stats.merge(rec['stats'])
            res.programs += 1
            if not rec['exhausted']:
                res.inconclusive.append('%s: exploration not exhausted' % rec['full'])
            if rec['unknown']:
                res.inconclusive.append('%s: %d solver unknowns' % (rec['full'], rec['unknown']))
            for k in counts:
                counts[k] += rec['n'].get(k, 0)
            for what, vs, extra in rec['cex']:
                for tree, now in vs:
                    reqs.append((rec['full'], tree, now))
                    meta.append(('cex', what, None))
            for tree, now, extra, classed in rec['wit']:
                reqs.append((rec['full'], tree, now))
                meta.append(('wit', None, extra if not classed else None))
            if not (rec['n'].get('accept') or rec['cex']):
                vac.append(rec['full'])
    judge(suite, res, reqs, meta)
    res.extra['accepting_paths'], res.extra['rejecting_paths'], res.extra['throwing_paths'] = counts['accept'], counts['reject'], counts['throw']
    res.extra['messages_without_accepting_path'] = vac
    return res.finish()


def uses_clock(md, seen=()):
    for f in md.fields:
        if any(k in str(f.rules) for k in ('now', 'within')):
            return True
    return False


def named(orc, full, tree, o, clock):
    """(what is wrong or None, whether the reference has an opinion)"""
    if o[0] != '0':
        return None, o[0] == '1' or None
    s = orc.spec(int(time.time() * 10**9) if clock else None)
    try:
        am = g.from_tree(orc.pool, orc.pool.messages[full], tree)
        pl = places(s, am)
        pl[''] = (False, unspecified(s, am))
        conc = lambda x: conc_bool(z3.simplify(tobool(x)))
        if any(conc(d) is not False for _, d in pl.values()):
            return None, None
        name = o[2:]
        if name.endswith(' (no reason)'):
            return 'the exception gives no reason', True
        if conc(pl.get(name, (False, False))[0]) is False:
            return 'the exception names %s, but in error are %s' % (name, sorted(n for n, (c, _) in pl.items() if conc(c))), True
    except g.Undecided:
        return None, None
    return None, True


def judge(suite, res, reqs, meta):
    outs = suite.replay([r[:2] for r in reqs])
    orc = JavaOracle(suite.pool, suite.rx)
    confirmed, pend, seen = {}, {}, set()
    for (full, tree, now), (kind, what, extra), o in zip(reqs, meta, outs):
        if o is None or o[0] == 'P':
            res.inconclusive.append('replay unavailable for %s: %s' % (full, o))
            continue
        clock = now is not None
        # the replay runs at the real time: far from the bound it decides too
        want = orc.verdict(full, tree, int(time.time() * 10**9) if clock else None)
        got = {'1': True, '0': False}.get(o[0])
        bad = None
        if suite.mode == 'attr':
            bad, want = named(orc, full, tree, o, clock)
            got = want
        else:
            o = o[0] if o[0] in '01' else o
        if suite.mode == 'attr':
            pass
        elif o[0] in 'XU':
            if want is not None:
                bad = 'assertValid throws ' + (o[2:] or 'UnimplementedException')
        elif want is not None and got != want:
            bad = 'assertValid %s but the rules say %s' % ('accepts' if got else 'rejects', 'valid' if want else 'invalid')
        if bad:
            if not confirmed.get(full):
                confirmed[full] = res.violation('%s %s' % (full, json.dumps(tree)), '%s: %s on %s' % (full, bad, json.dumps(tree)),
                              {'message': full, 'input': tree, 'want_valid': want, 'real': o, 'rules': g.rules_text(suite, full),
                               'how': 'generate Java with lang=java and call assertValid on this message'})
        elif kind == 'cex':
            pend.setdefault((full, what), []).append(tree)
        elif extra is not None and not clock:
            if (o if suite.mode == 'attr' else o[0]) == extra:
                res.validated += 1
                if len(res.samples) < 12 and full not in seen:
                    seen.add(full)
                    res.samples.append({'message': full, 'input': tree, 'valid': got})
            else:
                res.mismatch.append({'message': full, 'input': tree, 'encoded': extra, 'real': o})
        else:
            res.validated += 1 if want is not None else 0
    for (full, what), trees in pend.items():
        if full not in confirmed:
            res.unconfirmed.append({'message': full, 'what': what, 'input': trees[0]})
