"""Symbolic interpreter of JVM bytecode over the path explorer.

Integers are Python ints (concrete) or bit-vectors, floating point values z3
FP terms, references JObj / JArr / JStr / boxes.  Long and double occupy two
stack and local slots, as in the class file format.
"""
import os
import struct
import z3

from . import strs
from .strs import Str
from .core import And, Or, Not, is_sym, conc_bool, Unsupported, Ite
from .jclass import ClassFile, Method, Ref, decode, split_desc
from .gointrin import classify

TOP = object()


class JThrow(Exception):
    def __init__(self, obj):
        self.obj = obj

    def __str__(self):
        return self.obj.cls.replace('/', '.')


class JObj:
    __slots__ = ('cls', 'f', 'n')

    def __init__(self, cls):
        self.cls, self.f, self.n = cls, {}, None


class JArr:
    __slots__ = ('t', 'a')

    def __init__(self, t, a):
        self.t, self.a = t, a


class JStr:
    """A java.lang.String; s is None for text nobody inspects."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class JBox:
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v


class JClass:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class JLam:
    __slots__ = ('iface', 'name', 'kind', 'ref', 'cap', 'desc', 'jvm')

    def __init__(self, iface, name, kind, ref, cap, desc):
        self.iface, self.name, self.kind, self.ref, self.cap, self.desc = iface, name, kind, ref, cap, desc


class JNative:
    """A library object: list, map, set, iterator, builder, ..."""
    __slots__ = ('cls', 'd')

    def __init__(self, cls, d=None):
        self.cls, self.d = cls, d


THROW = {
    'java/lang/Throwable': 'java/lang/Object', 'java/lang/Exception': 'java/lang/Throwable', 'java/lang/Error': 'java/lang/Throwable',
    'java/lang/RuntimeException': 'java/lang/Exception', 'java/lang/NullPointerException': 'java/lang/RuntimeException',
    'java/lang/IllegalArgumentException': 'java/lang/RuntimeException', 'java/lang/ArithmeticException': 'java/lang/RuntimeException',
    'java/lang/ClassCastException': 'java/lang/RuntimeException', 'java/lang/IndexOutOfBoundsException': 'java/lang/RuntimeException',
    'java/lang/ArrayIndexOutOfBoundsException': 'java/lang/IndexOutOfBoundsException', 'java/lang/ReflectiveOperationException': 'java/lang/Exception',
    'java/lang/StringIndexOutOfBoundsException': 'java/lang/IndexOutOfBoundsException',
    'java/lang/ClassNotFoundException': 'java/lang/ReflectiveOperationException', 'java/lang/NoSuchMethodException': 'java/lang/ReflectiveOperationException',
    'java/lang/reflect/InvocationTargetException': 'java/lang/ReflectiveOperationException', 'java/lang/NoSuchFieldError': 'java/lang/Error',
    'java/net/URISyntaxException': 'java/lang/Exception', 'java/lang/IllegalStateException': 'java/lang/RuntimeException',
    'java/lang/UnsupportedOperationException': 'java/lang/RuntimeException', 'java/lang/AssertionError': 'java/lang/Error',
    'java/util/NoSuchElementException': 'java/lang/RuntimeException', 'java/lang/StackOverflowError': 'java/lang/Error',
}
BOX = {'java/lang/Integer': 'I', 'java/lang/Long': 'J', 'java/lang/Float': 'F', 'java/lang/Double': 'D', 'java/lang/Boolean': 'Z', 'java/lang/Byte': 'B',
       'java/lang/Character': 'C', 'java/lang/Short': 'S'}
PRIM = {'int': 'I', 'long': 'J', 'float': 'F', 'double': 'D', 'boolean': 'Z', 'byte': 'B', 'char': 'C', 'short': 'S'}
ZERO = {'I': 0, 'J': 0, 'Z': 0, 'B': 0, 'C': 0, 'S': 0}


def wrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def fconst(bits, w):
    return z3.fpBVToFP(z3.BitVecVal(bits, w), z3.Float32() if w == 32 else z3.Float64())


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return e


class ClassPath:
    """Class files by internal name."""

    def __init__(self, dirs):
        self.dirs = dirs
        self.cache = {}

    def get(self, name):
        if name not in self.cache:
            c = None
            for d in self.dirs:
                p = os.path.join(d, name + '.class')
                if os.path.exists(p):
                    c = ClassFile(open(p, 'rb').read())
                    break
            self.cache[name] = c
        return self.cache[name]


class JVM:
    """One path's worth of Java state."""

    def __init__(self, cp, ctx, env=None):
        self.cp, self.ctx = cp, ctx
        self.env = env if env is not None else {}
        self.statics = {}
        self.inited = {}
        self.steps = 0
        self.depth = 0
        self.classobjs = {}
        self.nobj = 0

    # ---- classes -----------------------------------------------------
    def cls(self, name):
        return self.cp.get(name)

    def super(self, name):
        c = self.cls(name)
        if c is not None:
            return c.super
        if name in THROW:
            return THROW[name]
        return 'java/lang/Object' if name != 'java/lang/Object' else None

    def subclass(self, a, b):
        if b == 'java/lang/Object':
            return True
        seen = [a]
        while seen:
            x = seen.pop()
            if x == b:
                return True
            c = self.cls(x)
            if c is not None:
                seen += c.ifaces
            s = self.super(x)
            if s:
                seen.append(s)
        return False

    def init(self, name):
        if name in self.inited:
            return
        self.inited[name] = True
        c = self.cls(name)
        if c is None:
            return
        if c.super:
            self.init(c.super)
        for nm, ds, fl, const in c.fields:
            if fl & 8:
                v = self.zero(ds)
                if const is not None:
                    v = self.const(c, const)
                self.statics[(name, nm)] = v
        m = c.methods.get(('<clinit>', '()V'))
        if m:
            self.run(m, [])

    def zero(self, d):
        if d in ZERO:
            return 0
        if d == 'F':
            return fconst(0, 32)
        if d == 'D':
            return fconst(0, 64)
        return None

    def const(self, c, i):
        e = c.cp[i]
        if e[0] == 'int' or e[0] == 'long':
            return e[1]
        if e[0] == 'float':
            return fconst(e[1], 32)
        if e[0] == 'double':
            return fconst(e[1], 64)
        if e[0] == 'str':
            return JStr(Str(c.utf(e[1]).encode('utf8', 'surrogatepass')))
        if e[0] == 'class':
            return self.classof(c.utf(e[1]))
        raise Unsupported('constant ' + e[0])

    def classof(self, name):
        if name not in self.classobjs:
            self.classobjs[name] = JClass(name)
        return self.classobjs[name]

    def find(self, name, mname, desc, static=None):
        todo, seen = [name], set()
        later = []
        n = name
        while n:
            c = self.cls(n)
            if c is None:
                break
            m = c.methods.get((mname, desc))
            if m is not None and (m.code is not None):
                return m
            later += c.ifaces
            n = c.super
        while later:
            n = later.pop(0)
            if n in seen:
                continue
            seen.add(n)
            c = self.cls(n)
            if c is None:
                continue
            m = c.methods.get((mname, desc))
            if m is not None and m.code is not None:
                return m
            later += c.ifaces
        return None

    def new(self, name):
        o = JObj(name)
        n = name
        while n:
            c = self.cls(n)
            if c is None:
                break
            for nm, ds, fl, _ in c.fields:
                if not fl & 8 and nm not in o.f:
                    o.f[nm] = self.zero(ds)
            n = c.super
        return o

    def throw(self, name, msg=None):
        o = JObj(name)
        raise JThrow(o)

    # ---- calls -------------------------------------------------------
    def clsname(self, v):
        if isinstance(v, JObj):
            return v.cls
        if isinstance(v, JStr):
            return 'java/lang/String'
        if isinstance(v, JBox):
            return v.k
        if isinstance(v, JClass):
            return 'java/lang/Class'
        if isinstance(v, JNative):
            return v.cls
        if isinstance(v, JLam):
            return v.iface
        if isinstance(v, JArr):
            return '['
        raise Unsupported('class of %r' % (v,))

    def virtual(self, recv, ref, args):
        """invokevirtual / invokeinterface on a receiver."""
        if recv is None:
            self.throw('java/lang/NullPointerException')
        if isinstance(recv, JLam):
            c = self.cls(recv.iface)
            m = c and c.methods.get((ref.name, ref.desc))
            if m is not None and m.code is not None:      # default method
                return self.run(m, [recv] + args)
            if ref.name == recv.name:
                return self.lambda_call(recv, args, ref)
        if isinstance(recv, JObj):
            m = self.find(recv.cls, ref.name, ref.desc)
            if m is not None:
                return self.run(m, [recv] + args)
        return intrinsic(self, self.clsname(recv), ref, recv, args)

    def lambda_call(self, lam, args, ref):
        allargs = list(lam.cap) + list(args)
        k, r = lam.kind, lam.ref
        if k == 6:
            return self.static(r, self.fit(allargs, split_desc(r.desc)[0], lam))
        if k in (5, 9):
            return self.virtual(allargs[0], r, self.fit(allargs[1:], split_desc(r.desc)[0], lam))
        if k == 7:
            m = self.find(r.cls, r.name, r.desc)
            return self.run(m, [allargs[0]] + self.fit(allargs[1:], split_desc(r.desc)[0], lam))
        if k == 8:
            o = self.new(r.cls)
            self.run(self.find(r.cls, '<init>', r.desc), [o] + allargs)
            return o
        raise Unsupported('method handle kind %d' % k)

    def fit(self, args, descs, lam):
        out = []
        for a, d in zip(args, descs):
            if d in PRIM.values() and isinstance(a, JBox):
                a = a.v
            elif d not in PRIM.values() and not (a is None or isinstance(a, (JObj, JArr, JStr, JBox, JClass, JLam, JNative))):
                raise Unsupported('boxing in a lambda call')
            out.append(a)
        return out

    def static(self, ref, args):
        self.init(ref.cls)
        c = self.cls(ref.cls)
        if c is not None:
            m = self.find(ref.cls, ref.name, ref.desc)
            if m is not None and not stubbed(ref):
                return self.run(m, args)
        return intrinsic(self, ref.cls, ref, None, args)

    def special(self, ref, recv, args):
        c = self.cls(ref.cls)
        if c is not None:
            m = self.find(ref.cls, ref.name, ref.desc)
            if m is not None:
                return self.run(m, [recv] + args)
        if ref.name == '<init>' and (ref.cls in ('java/lang/Object', 'java/lang/Enum') or ref.cls in THROW):
            if ref.cls == 'java/lang/Enum':
                recv.f['$name'], recv.f['$ord'] = args
            elif ref.cls in THROW:
                for a, t in zip(args, split_desc(ref.desc)[0]):
                    recv.f['$msg' if t == 'Ljava/lang/String;' else '$cause'] = a
            return None
        return intrinsic(self, ref.cls, ref, recv, args)

    # ---- the machine ---------------------------------------------------
    def truth(self, c):
        b = conc_bool(c)
        return b if b is not None else self.ctx.decide(c)

    def run(self, m, args):
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('call depth')
        if m.code is None:
            raise Unsupported('native %r' % m)
        self.ctx.stats.functions.add('%s.%s' % (m.cls.name.replace('/', '.'), m.name))
        if m.decoded is None:
            m.decoded = decode(m.code)
        loc = [None] * (m.maxl + 2)
        i = 0
        types = list(m.args)
        if not m.static:
            types = ['L'] + types
        for a, t in zip(args, types):
            loc[i] = a
            i += 2 if t in 'JD' else 1
        try:
            return self.loop(m, loc)
        finally:
            self.depth -= 1

    def loop(self, m, loc):
        code, pc, st = m.decoded, 0, []
        while True:
            self.steps += 1
            if self.steps > 400000:
                raise Unsupported('step limit')
            op, arg, nxt = code[pc]
            try:
                r = self.merge(m, pc, loc, st) if op in IF0 or op.startswith('if_icmp') else None
                if r is None:
                    r = self.step(m, op, arg, nxt, loc, st)
            except JThrow as t:
                h = None
                for a, b, hp, c in m.exc:
                    if a <= pc < b and (c is None or self.subclass(t.obj.cls, c)):
                        h = hp
                        break
                if h is None:
                    raise
                del st[:]
                st.append(t.obj)
                pc = h
                continue
            if isinstance(r, tuple):
                return r[0]
            pc = r

    def merge(self, m, pc, loc, st):
        """One decision for a whole condition: explores the conditional jumps
        that follow each other without side effects and merges the paths that
        reach the same place with the same operands."""
        n = 1 if m.decoded[pc][0] in IF0 else 2
        if all(isinstance(v, int) for v in st[-n:]):
            return None
        exits, order, nodes = {}, [], 0
        todo = [(pc, list(st), [])]
        while todo:
            pc, st1, cond = todo.pop()
            while True:
                nodes += 1
                if nodes > 160:
                    return None
                op, arg, nxt = m.decoded[pc]
                if op in IF0 or op.startswith('if_icmp'):
                    b = 0 if op in IF0 else st1[-1]
                    a = st1[-1] if op in IF0 else st1[-2]
                    c = icmp(op[2:] if op in IF0 else op[7:], a, b)
                    del st1[-1 if op in IF0 else -2:]
                    if not isinstance(c, bool):
                        c = z3.simplify(c)
                        k = conc_bool(c)
                        c = c if k is None else k
                    if isinstance(c, bool):
                        pc = arg if c else nxt
                        continue
                    todo.append((nxt, list(st1), cond + [z3.Not(c)]))
                    cond = cond + [c]
                    pc = arg
                elif op == 'goto':
                    if arg <= pc:
                        break
                    pc = arg
                elif op in PURE or op.startswith(('iconst_', 'lconst_')):
                    self.step(m, op, arg, nxt, loc, st1)
                    pc = nxt
                else:
                    break
            key = (pc, tuple(id(v) if not isinstance(v, (int, z3.BitVecRef)) else 0 for v in st1))
            if key not in exits:
                exits[key] = []
                order.append(key)
            exits[key].append((st1, cond))
        if len(order) > 4:
            return None
        conds = [z3.Or(*[z3.And(*c) for _, c in exits[k]]) for k in order]
        pick = order[-1]
        for k, c in zip(order[:-1], conds):
            if self.truth(z3.simplify(c)):
                pick = k
                break
        ways = exits[pick]
        new = list(ways[0][0])
        for st1, c in ways[1:]:
            for i, v in enumerate(st1):
                if v is new[i] or isinstance(v, int) and isinstance(new[i], int) and v == new[i]:
                    continue
                w = v.size() if isinstance(v, z3.BitVecRef) else new[i].size() if isinstance(new[i], z3.BitVecRef) else \
                    64 if i + 1 < len(st1) and st1[i + 1] is TOP else 32
                new[i] = z3.If(z3.And(*c), bv(v, w), bv(new[i], w))
        st[:] = new
        return pick[0]

    def i2(self, st, w=32):
        b = st.pop()
        a = st.pop()
        return a, b

    def jpop(self, st):
        st.pop()
        return st.pop()

    def step(self, m, op, arg, nxt, loc, st):
        push = st.append
        pop = st.pop
        c = m.cls
        k = op[0]
        if op in ('iload', 'aload', 'fload'):
            push(loc[arg])
        elif op in ('lload', 'dload'):
            push(loc[arg])
            push(TOP)
        elif op in ('istore', 'astore', 'fstore'):
            loc[arg] = pop()
        elif op in ('lstore', 'dstore'):
            pop()
            loc[arg] = pop()
        elif op == 'aconst_null':
            push(None)
        elif op.startswith('iconst_'):
            push(-1 if op.endswith('m1') else int(op[7:]))
        elif op.startswith('lconst_'):
            push(int(op[7:]))
            push(TOP)
        elif op.startswith('fconst_'):
            push(z3.FPVal(int(op[7:]), z3.Float32()))
        elif op.startswith('dconst_'):
            push(z3.FPVal(int(op[7:]), z3.Float64()))
            push(TOP)
        elif op in ('bipush', 'sipush'):
            push(arg)
        elif op == 'ldc':
            push(self.const(c, arg))
        elif op == 'ldc2':
            push(self.const(c, arg))
            push(TOP)
        elif op == 'nop' or op in ('monitorenter', 'monitorexit'):
            if op != 'nop':
                pop()
        elif op == 'pop':
            pop()
        elif op == 'pop2':
            pop()
            pop()
        elif op == 'dup':
            push(st[-1])
        elif op == 'dup_x1':
            st.insert(-2, st[-1])
        elif op == 'dup_x2':
            st.insert(-3, st[-1])
        elif op == 'dup2':
            st.extend(st[-2:])
        elif op == 'dup2_x1':
            st[-3:-3] = st[-2:]
        elif op == 'dup2_x2':
            st[-4:-4] = st[-2:]
        elif op == 'swap':
            st[-1], st[-2] = st[-2], st[-1]
        elif op in ARITH:
            self.arith(op, st)
        elif op == 'iinc':
            k, d = arg
            v = loc[k]
            loc[k] = wrap(v + d, 32) if isinstance(v, int) else simp(v + d)
        elif op in CONV:
            self.conv(op, st)
        elif op == 'lcmp':
            pop()
            b = pop()
            pop()
            a = pop()
            if isinstance(a, int) and isinstance(b, int):
                push((a > b) - (a < b))
            else:
                a, b = bv(a, 64), bv(b, 64)
                push(simp(z3.If(a < b, z3.BitVecVal(-1, 32), z3.If(a == b, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))))
        elif op in ('fcmpl', 'fcmpg', 'dcmpl', 'dcmpg'):
            if op[0] == 'd':
                pop()
                b = pop()
                pop()
                a = pop()
            else:
                b = pop()
                a = pop()
            nan = 1 if op[-1] == 'g' else -1
            push(simp(z3.If(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.BitVecVal(nan, 32),
                            z3.If(z3.fpLT(a, b), z3.BitVecVal(-1, 32), z3.If(z3.fpEQ(a, b), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))))))
        elif op.startswith('if_icmp') or op in IF0:
            if op in IF0:
                b, a, o = 0, pop(), op[2:]
            else:
                b = pop()
                a = pop()
                o = op[7:]
            return arg if self.truth(icmp(o, a, b)) else nxt
        elif op in ('if_acmpeq', 'if_acmpne'):
            b = pop()
            a = pop()
            return arg if (a is b) == (op == 'if_acmpeq') else nxt
        elif op in ('ifnull', 'ifnonnull'):
            return arg if (pop() is None) == (op == 'ifnull') else nxt
        elif op == 'goto':
            return arg
        elif op == 'switch':
            v = pop()
            tab, dflt = arg
            for x, t in tab:
                if t == dflt:
                    continue
                if self.truth(v == x):
                    return t
            return dflt
        elif op in ('ireturn', 'areturn', 'freturn'):
            return (pop(),)
        elif op in ('lreturn', 'dreturn'):
            pop()
            return (pop(),)
        elif op == 'return':
            return (None,)
        elif op in ('getstatic', 'putstatic', 'getfield', 'putfield'):
            self.fieldop(op, c.ref(arg), st)
        elif op == 'new':
            n = c.cls(arg)
            self.init(n)
            if self.cls(n) is not None or n in THROW:
                push(self.new(n))
            else:
                push(JNative(n))
        elif op in ('newarray', 'anewarray'):
            n = pop()
            if not isinstance(n, int):
                n = self.ctx.concretize(n, 0, 16)
            t = 'L' if op == 'anewarray' else {4: 'Z', 5: 'C', 6: 'F', 7: 'D', 8: 'B', 9: 'S', 10: 'I', 11: 'J'}[arg]
            push(JArr(t, [self.zero(t)] * n))
        elif op == 'arraylength':
            a = pop()
            if a is None:
                self.throw('java/lang/NullPointerException')
            push(len(a.a))
        elif op[1:] in ('aload', 'store') or op in ('iaload', 'laload', 'faload', 'daload', 'aaload', 'baload', 'caload', 'saload'):
            i = pop()
            a = pop()
            if a is None:
                self.throw('java/lang/NullPointerException')
            i = self.idx(a, i)
            push(a.a[i])
            if op in ('laload', 'daload'):
                push(TOP)
        elif op in ('iastore', 'lastore', 'fastore', 'dastore', 'aastore', 'bastore', 'castore', 'sastore'):
            if op in ('lastore', 'dastore'):
                pop()
            v = pop()
            i = pop()
            a = pop()
            if a is None:
                self.throw('java/lang/NullPointerException')
            if op == 'bastore':
                v = wrap(v, 8) if isinstance(v, int) else simp(z3.SignExt(24, z3.Extract(7, 0, v)))
            a.a[self.idx(a, i)] = v
        elif op == 'athrow':
            o = pop()
            if o is None:
                self.throw('java/lang/NullPointerException')
            raise JThrow(o)
        elif op == 'checkcast':
            v = st[-1]
            n = c.cls(arg)
            if isinstance(v, JObj) and self.cls(n) is not None and not self.subclass(v.cls, n):
                self.throw('java/lang/ClassCastException')
            if isinstance(v, JBox) and n in BOX and v.k != n:
                self.throw('java/lang/ClassCastException')
        elif op == 'instanceof':
            v = pop()
            n = c.cls(arg)
            push(1 if v is not None and self.subclass(self.clsname(v), n) else 0)
        elif op.startswith('invoke'):
            self.invoke(op, c, arg, st)
        else:
            raise Unsupported('opcode ' + op)
        return nxt

    def idx(self, a, i):
        if not isinstance(i, int):
            i = self.ctx.concretize(i, 0, len(a.a))
        if i < 0 or i >= len(a.a):
            self.throw('java/lang/ArrayIndexOutOfBoundsException')
        return i

    def fieldop(self, op, r, st):
        wide = r.desc in 'JD'
        if op == 'getstatic':
            self.init(r.cls)
            n = r.cls
            while n and (n, r.name) not in self.statics:
                c = self.cls(n)
                hit = None
                for i in (c.ifaces if c else ()):
                    self.init(i)
                    if (i, r.name) in self.statics:
                        hit = i
                n = hit or (c.super if c else None)
                if n:
                    self.init(n)
            if not n:
                v = libstatic(self, r)
            else:
                v = self.statics[(n, r.name)]
            st.append(v)
            if wide:
                st.append(TOP)
        elif op == 'putstatic':
            self.init(r.cls)
            if wide:
                st.pop()
            self.statics[(r.cls, r.name)] = st.pop()
        elif op == 'getfield':
            o = st.pop()
            if o is None:
                self.throw('java/lang/NullPointerException')
            v = o.f[r.name]
            if z3.is_bool(v) if is_sym(v) else isinstance(v, bool):
                v = int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
            st.append(v)
            if wide:
                st.append(TOP)
        else:
            if wide:
                st.pop()
            v = st.pop()
            o = st.pop()
            if o is None:
                self.throw('java/lang/NullPointerException')
            o.f[r.name] = v

    def invoke(self, op, c, arg, st):
        if op == 'invokedynamic':
            return self.indy(c, arg, st)
        r = c.ref(arg)
        args = self.popargs(split_desc(r.desc)[0], st)
        if op == 'invokestatic':
            v = self.static(r, args)
        elif op == 'invokespecial':
            recv = st.pop()
            v = self.special(r, recv, args)
        else:
            recv = st.pop()
            v = self.virtual(recv, r, args)
        ret = split_desc(r.desc)[1]
        self.pushret(v, ret, st)

    def popargs(self, types, st):
        out = []
        for t in reversed(types):
            if t in 'JD':
                st.pop()
            out.append(st.pop())
        return out[::-1]

    def pushret(self, v, ret, st):
        if ret == 'V':
            return
        if is_sym(v) and z3.is_bool(v):
            v = simp(z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        elif isinstance(v, bool):
            v = int(v)
        st.append(v)
        if ret in 'JD':
            st.append(TOP)

    def indy(self, c, arg, st):
        _, bi, nt = c.cp[arg]
        name, desc = c.nt(nt)
        h, bargs = c.boot[bi]
        _, kind, ri = c.cp[h]
        r = c.ref(ri)
        types, ret = split_desc(desc)
        args = self.popargs(types, st)
        if r.cls == 'java/lang/invoke/LambdaMetafactory':
            _, k2, r2 = c.cp[bargs[1]]
            st.append(JLam(ret[1:-1], name, k2, c.ref(r2), args, c.utf(c.cp[bargs[0]][1])))
            return
        if r.cls == 'java/lang/invoke/StringConcatFactory':
            for a in args:
                tostring(self, a)
            st.append(JStr(None))
            return
        raise Unsupported('bootstrap ' + r.cls)

    def arith(self, op, st):
        t, o = op[0], op[1:]
        if t in 'il':
            w = 32 if t == 'i' else 64
            if o == 'neg':
                a = self.jpop(st) if w == 64 else st.pop()
                v = wrap(-a, w) if isinstance(a, int) else simp(-a)
            else:
                if o in ('shl', 'shr', 'ushr'):
                    b = st.pop()
                else:
                    b = self.jpop(st) if w == 64 else st.pop()
                a = self.jpop(st) if w == 64 else st.pop()
                v = self.ibin(o, a, b, w)
            st.append(v)
            if w == 64:
                st.append(TOP)
            return
        w = 32 if t == 'f' else 64
        get = (lambda: self.jpop(st)) if w == 64 else st.pop
        rm = z3.RNE()
        if o == 'neg':
            v = z3.fpNeg(get())
        else:
            b = get()
            a = get()
            if o not in ('add', 'sub', 'mul', 'div'):
                raise Unsupported(op)
            v = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[o](rm, a, b)
        st.append(v)
        if w == 64:
            st.append(TOP)

    def ibin(self, o, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            if o in ('div', 'rem'):
                if b == 0:
                    self.throw('java/lang/ArithmeticException')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return wrap(q if o == 'div' else a - q * b, w)
            s = b & (w - 1)
            return wrap({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                         'shl': lambda: a << s, 'shr': lambda: a >> s, 'ushr': lambda: (a & ((1 << w) - 1)) >> s}[o](), w)
        if o in ('shl', 'shr', 'ushr'):
            a = bv(a, w)
            if isinstance(b, int):
                b = z3.BitVecVal(b & (w - 1), w)
            else:
                b = (b if w == 32 else z3.ZeroExt(32, b)) & (w - 1)
            return simp({'shl': lambda: a << b, 'shr': lambda: a >> b, 'ushr': lambda: z3.LShR(a, b)}[o]())
        a, b = bv(a, w), bv(b, w)
        if o in ('div', 'rem'):
            if self.truth(b == 0):
                self.throw('java/lang/ArithmeticException')
            return simp(a / b if o == 'div' else z3.SRem(a, b))
        return simp({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[o]())

    def conv(self, op, st):
        f, t = op[0], op[2]
        a = self.jpop(st) if f in 'ld' else st.pop()
        so = {'f': z3.Float32(), 'd': z3.Float64()}
        if f in 'il' and t in 'ilbcs':
            if isinstance(a, int):
                v = {'i': lambda: wrap(a, 32), 'l': lambda: a, 'b': lambda: wrap(a, 8), 'c': lambda: a & 0xffff, 's': lambda: wrap(a, 16)}[t]()
            else:
                v = simp({'i': lambda: z3.Extract(31, 0, a), 'l': lambda: z3.SignExt(32, a), 'b': lambda: z3.SignExt(24, z3.Extract(7, 0, a)),
                          'c': lambda: z3.ZeroExt(16, z3.Extract(15, 0, a)), 's': lambda: z3.SignExt(16, z3.Extract(15, 0, a))}[t]())
        elif f in 'il':
            v = z3.fpSignedToFP(z3.RNE(), bv(a, 32 if f == 'i' else 64), so[t])
        elif t in 'fd':
            v = z3.fpFPToFP(z3.RNE(), a, so[t])
        else:
            raise Unsupported(op)
        st.append(v)
        if t in 'ld':
            st.append(TOP)


ARITH = {t + o for t in 'ilfd' for o in ('add', 'sub', 'mul', 'div', 'rem', 'neg')} | {t + o for t in 'il' for o in ('shl', 'shr', 'ushr', 'and', 'or', 'xor')}
CONV = {a + '2' + b for a in 'ilfd' for b in 'ilfd' if a != b} | {'i2b', 'i2c', 'i2s'}
IF0 = {'ifeq', 'ifne', 'iflt', 'ifge', 'ifgt', 'ifle'}


PURE = {'iload', 'lload', 'aload', 'bipush', 'sipush', 'lcmp', 'dup', 'pop', 'i2l', 'l2i', 'i2b', 'i2c', 'i2s', 'nop',
        'iadd', 'isub', 'iand', 'ior', 'ixor', 'ladd', 'lsub', 'land', 'lor', 'lxor'}


def icmp(o, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'ge': a >= b, 'gt': a > b, 'le': a <= b}[o]
    a, b = bv(a, 32), bv(b, 32)
    return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'ge': lambda: a >= b, 'gt': lambda: a > b, 'le': lambda: a <= b}[o]()


# ------------------------------------------------------------- library calls --
STUBS = {}
# classes of the stand-in library whose answer is an opaque predicate of the text
OPAQUE = {'com/google/re2j/Pattern', 'org/apache/commons/validator/routines/DomainValidator',
          'org/apache/commons/validator/routines/InetAddressValidator', 'org/apache/commons/validator/routines/EmailValidator'}


def stubbed(ref):
    return ref.cls in OPAQUE


def stub(*names):
    def deco(f):
        for n in names:
            STUBS[n] = f
        return f
    return deco


def intrinsic(j, cls, ref, recv, args):
    for k in ('%s.%s%s' % (cls, ref.name, ref.desc), '%s.%s' % (cls, ref.name), '%s.%s' % (ref.cls, ref.name)):
        f = STUBS.get(k)
        if f is not None:
            j.ctx.stats.stubs.add(k)
            return f(j, recv, args)
    f = STUBS.get('*.' + ref.name)
    if f is not None:
        return f(j, recv, args)
    raise Unsupported('%s.%s%s' % (cls, ref.name, ref.desc))


def libstatic(j, r):
    k = r.cls + '.' + r.name
    if k == 'java/nio/charset/StandardCharsets.UTF_8':
        return JNative('charset')
    if r.cls in BOX and r.name in ('MAX_VALUE', 'MIN_VALUE'):
        w = 64 if BOX[r.cls] == 'J' else 32
        return (1 << (w - 1)) - 1 if r.name == 'MAX_VALUE' else -(1 << (w - 1))
    if r.cls == 'java/lang/Boolean':
        return JBox('java/lang/Boolean', 1 if r.name == 'TRUE' else 0)
    raise Unsupported('static ' + k)


def text(j, s):
    if s is None:
        j.throw('java/lang/NullPointerException')
    if isinstance(s, JNative) and isinstance(s.d, Str):
        return s.d
    if not isinstance(s, JStr):
        raise Unsupported('text of %r' % (s,))
    if s.s is None:
        raise Unsupported('inspecting opaque text')
    return s.s


def equals(j, a, b):
    """a.equals(b) as a (symbolic) boolean."""
    if a is None:
        j.throw('java/lang/NullPointerException')
    if a is b:
        return True
    if b is None:
        return False
    if isinstance(a, JBox):
        if not isinstance(b, JBox) or a.k != b.k:
            return False
        x, y = a.v, b.v
        if BOX[a.k] in 'FD':
            return And(Or(And(z3.fpIsNaN(x), z3.fpIsNaN(y)), And(z3.fpEQ(x, y), z3.fpIsNegative(x) == z3.fpIsNegative(y))))
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        return x == y
    if isinstance(a, JStr):
        return strs.eq(text(j, a), text(j, b)) if isinstance(b, JStr) else False
    if isinstance(a, JClass):
        return isinstance(b, JClass) and a.name == b.name
    if isinstance(a, JObj):
        m = j.find(a.cls, 'equals', '(Ljava/lang/Object;)Z')
        if m is None:
            return a is b
        r = j.run(m, [a, b])
        return r != 0 if isinstance(r, int) else r != 0
    return a is b


def tostring(j, v):
    """String.valueOf / toString: the text is opaque, but it must not throw."""
    if isinstance(v, JStr):
        return v
    if isinstance(v, JObj):
        if '$name' in v.f:
            m = j.find(v.cls, 'toString', '()Ljava/lang/String;')
            return j.run(m, [v]) if m is not None else v.f['$name']
        m = j.find(v.cls, 'toString', '()Ljava/lang/String;')
        if m is not None:
            return j.run(m, [v])
    return JStr(None)


def cmp3(lt, eq):
    return z3.If(lt, z3.BitVecVal(-1, 32), z3.If(eq, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))


def compare(j, k, a, b, unsigned=False):
    if k == 'Z':
        a, b = bv(a, 32), bv(b, 32)
    if k in 'FD':
        nx, ny = z3.fpIsNaN(a), z3.fpIsNaN(b)
        lt = z3.Or(z3.And(z3.Not(nx), ny), z3.fpLT(a, b), z3.And(z3.fpEQ(a, b), z3.fpIsNegative(a), z3.fpIsPositive(b)))
        eq = z3.Or(z3.And(nx, ny), z3.And(z3.fpEQ(a, b), z3.fpIsNegative(a) == z3.fpIsNegative(b)))
        return simp(cmp3(lt, eq))
    w = 64 if k == 'J' else 32
    if isinstance(a, int) and isinstance(b, int):
        if unsigned:
            a, b = a % (1 << w), b % (1 << w)
        return (a > b) - (a < b)
    a, b = bv(a, w), bv(b, w)
    return simp(cmp3(z3.ULT(a, b) if unsigned else a < b, a == b))


for _k, _p in BOX.items():
    STUBS[_k + '.valueOf'] = lambda j, r, a, k=_k: JBox(k, a[0])
    for _n in ('intValue', 'longValue', 'floatValue', 'doubleValue', 'booleanValue', 'byteValue', 'charValue', 'shortValue'):
        if PRIM[_n[:-5]] == _p:
            STUBS[_k + '.' + _n] = lambda j, r, a: r.v
    STUBS[_k + '.compareTo'] = lambda j, r, a, p=_p: compare(j, p, r.v, unbox(j, a[0]))
    STUBS[_k + '.compare'] = lambda j, r, a, p=_p: compare(j, p, a[0], a[1])
    STUBS[_k + '.compareUnsigned'] = lambda j, r, a, p=_p: compare(j, p, a[0], a[1], True)
    STUBS[_k + '.toString'] = lambda j, r, a: JStr(None)
    STUBS[_k + '.hashCode'] = lambda j, r, a: 0


def unbox(j, v):
    if v is None:
        j.throw('java/lang/NullPointerException')
    return v.v


@stub('*.equals')
def _eq(j, r, a):
    return equals(j, r, a[0])


@stub('*.toString')
def _ts(j, r, a):
    return tostring(j, r)


@stub('*.hashCode')
def _hc(j, r, a):
    return 0


@stub('java/lang/String.valueOf', 'java/util/Arrays.toString', 'java/util/Objects.toString')
def _valueof(j, r, a):
    x = a[0]
    if isinstance(x, JArr):
        for e in x.a:
            if isinstance(e, JObj):
                tostring(j, e)
        return JStr(None)
    return tostring(j, x)


@stub('java/util/Objects.equals')
def _oeq(j, r, a):
    return a[0] is a[1] if a[0] is None else equals(j, a[0], a[1])


@stub('java/util/Arrays.hashCode')
def _ahash(j, r, a):
    return 0


@stub('java/util/Arrays.asList')
def _aslist(j, r, a):
    return JNative('list', list(a[0].a))


@stub('[.clone', 'java/lang/Object.clone')
def _clone(j, r, a):
    return JArr(r.t, list(r.a))


@stub('java/lang/Object.getClass')
def _getclass(j, r, a):
    return j.classof(j.clsname(r))


# -- strings ----------------------------------------------------------------
def units(j, s):
    """UTF-16 code units of a text; forks on the shapes of its characters."""
    n = len(s)
    if all(isinstance(b, int) for b in s.b):
        t = bytes(s.b).decode('utf8', 'surrogatepass')
        return list(struct.unpack('<%dH' % (len(t.encode('utf-16-le', 'surrogatepass')) // 2), t.encode('utf-16-le', 'surrogatepass')))
    key = ('units', tuple(b if isinstance(b, int) else b.get_id() for b in s.b))
    memo = j.env.setdefault('units', {})
    if key in memo:
        return list(memo[key])
    asc = [b < 128 if isinstance(b, int) else z3.ULT(b, 128) for b in s.b]
    if j.truth(And(asc)):
        out = [b if isinstance(b, int) else z3.ZeroExt(24, b) for b in s.b]
    elif n > 12:
        # one character outside ASCII at either end of long texts
        i = 0 if not j.truth(asc[0]) else None
        if i is None:
            j.ctx.assume(And(asc[:n - 4]))
            i = next(k for k in range(n - 4, n) if k == n - 1 or not j.truth(asc[k]))
        r, w = codepoint(j, s.b, i)
        j.ctx.assume(And([True] + asc[i + w:]))
        out = [b if isinstance(b, int) else z3.ZeroExt(24, b) for b in s.b[:i]] + wide(j, s.b[i:i + w], r) + [b if isinstance(b, int) else z3.ZeroExt(24, b) for b in s.b[i + w:]]
    else:
        out, i = [], 0
        while i < n:
            if j.truth(asc[i]):
                out.append(s.b[i] if isinstance(s.b[i], int) else z3.ZeroExt(24, s.b[i]))
                i += 1
                continue
            r, w = codepoint(j, s.b, i)
            out += wide(j, s.b[i:i + w], r)
            i += w
    memo[key] = list(out)
    return list(out)


def codepoint(j, bs, i):
    """Code point (32 bits) and width of a non-ASCII character."""
    b = [x if is_sym(x) else z3.BitVecVal(x, 8) for x in bs]

    def v(k, mask):
        return z3.ZeroExt(24, b[k] & mask)
    if j.truth(z3.ULT(b[i], 0xe0)):
        return v(i, 31) << 6 | v(i + 1, 63), 2
    if i + 2 < len(b) and j.truth(z3.ULT(b[i], 0xf0)):
        return v(i, 15) << 12 | v(i + 1, 63) << 6 | v(i + 2, 63), 3
    if i + 3 >= len(b):
        raise Unsupported('malformed text')
    return v(i, 7) << 18 | v(i + 1, 63) << 12 | v(i + 2, 63) << 6 | v(i + 3, 63), 4


def wide(j, bs, r):
    """Units of one character; remembers its bytes for the way back."""
    us = utf16(j, r)
    j.env.setdefault('chars', {})[tuple(u if isinstance(u, int) else u.get_id() for u in us)] = (bs, us)
    return us


def utf16(j, r):
    if j.truth(z3.ULT(r, 0x10000)):
        return [r]
    x = r - 0x10000
    return [simp(0xd800 + z3.LShR(x, 10)), simp(0xdc00 + (x & 0x3ff))]


def encode(j, us):
    """Text of a sequence of UTF-16 code units (forks per unit)."""
    out, i = [], 0
    chars = j.env.get('chars', {})

    def uid(u):
        return u if isinstance(u, int) else u.get_id()
    while i < len(us):
        c = us[i]
        hit = chars.get((uid(c),)) or (chars.get((uid(c), uid(us[i + 1]))) if i + 1 < len(us) else None)
        if hit:
            out += list(hit[0])
            i += len(hit[1])
            continue
        if isinstance(c, int):
            cp = c
            if 0xd800 <= c < 0xdc00 and i + 1 < len(us) and isinstance(us[i + 1], int) and 0xdc00 <= us[i + 1] < 0xe000:
                cp = 0x10000 + (c - 0xd800 << 10) + (us[i + 1] - 0xdc00)
                i += 1
            out += list(chr(cp).encode('utf8', 'surrogatepass'))
        elif j.truth(z3.ULT(c, 0x80)):
            out.append(simp8(z3.Extract(7, 0, c)))
        elif j.truth(z3.ULT(c, 0x800)):
            out += [simp8(z3.Extract(7, 0, 0xc0 | z3.LShR(c, 6))), simp8(z3.Extract(7, 0, 0x80 | c & 63))]
        elif j.truth(z3.And(z3.UGE(c, 0xd800), z3.ULT(c, 0xdc00))) and i + 1 < len(us):
            lo = bv(us[i + 1], 32)
            cp = 0x10000 + ((c - 0xd800) << 10) + (lo - 0xdc00)
            i += 1
            out += [simp8(z3.Extract(7, 0, 0xf0 | z3.LShR(cp, 18))), simp8(z3.Extract(7, 0, 0x80 | z3.LShR(cp, 12) & 63)),
                    simp8(z3.Extract(7, 0, 0x80 | z3.LShR(cp, 6) & 63)), simp8(z3.Extract(7, 0, 0x80 | cp & 63))]
        else:
            out += [simp8(z3.Extract(7, 0, 0xe0 | z3.LShR(c, 12))), simp8(z3.Extract(7, 0, 0x80 | z3.LShR(c, 6) & 63)), simp8(z3.Extract(7, 0, 0x80 | c & 63))]
        i += 1
    return Str(tuple(out))


def simp8(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e


@stub('java/lang/String.length')
def _length(j, r, a):
    return len(units(j, text(j, r)))


@stub('java/lang/String.isEmpty')
def _isempty(j, r, a):
    return len(text(j, r)) == 0


@stub('java/lang/String.codePointCount')
def _cpc(j, r, a):
    """Counts code points between UTF-16 indexes; the whole text only."""
    s = text(j, r)
    us = units(j, s)
    if a[0] == 0 and a[1] == len(us):
        n, i = 0, 0
        while i < len(us):
            c = us[i]
            hi = 0xd800 <= c < 0xdc00 if isinstance(c, int) else j.truth(z3.And(z3.UGE(c, 0xd800), z3.ULT(c, 0xdc00)))
            i += 2 if hi else 1
            n += 1
        return n
    raise Unsupported('codePointCount of a part')


@stub('java/lang/String.charAt')
def _charat(j, r, a):
    us = units(j, text(j, r))
    i = a[0] if isinstance(a[0], int) else j.ctx.concretize(a[0], 0, len(us))
    if not 0 <= i < len(us):
        j.throw('java/lang/StringIndexOutOfBoundsException')
    return us[i]


@stub('java/lang/String.toCharArray')
def _tca(j, r, a):
    return JArr('C', units(j, text(j, r)))


@stub('java/lang/String.getBytes')
def _getbytes(j, r, a):
    return JArr('B', [wrap(b, 8) if isinstance(b, int) else z3.SignExt(24, b) for b in text(j, r).b])


@stub('java/lang/String.equals')
def _streq(j, r, a):
    return equals(j, r, a[0])


@stub('java/lang/String.startsWith(Ljava/lang/String;)Z')
def _starts(j, r, a):
    return strs.has_prefix(text(j, r), text(j, a[0]))


@stub('java/lang/String.endsWith')
def _ends(j, r, a):
    return strs.has_suffix(text(j, r), text(j, a[0]))


@stub('java/lang/String.contains')
def _contains(j, r, a):
    return strs.contains(text(j, r), text(j, a[0]))


@stub('java/lang/String.toLowerCase', 'java/lang/String.toUpperCase', 'java/lang/String.trim')
def _case(j, r, a):
    raise Unsupported('String case mapping')


@stub('java/lang/String.<init>([BLjava/nio/charset/Charset;)V')
def _strinit(j, r, a):
    bs = tuple(b & 255 if isinstance(b, int) else simp8(z3.Extract(7, 0, b)) for b in a[0].a)
    r.d = Str(bs)
    return None


@stub('java/lang/StringBuilder.<init>')
def _sbinit(j, r, a):
    r.d = list(a) if a and isinstance(a[0], JStr) else []


def _sbpart(c):
    return ('c', c)


@stub('java/lang/StringBuilder.append')
def _sbappend(j, r, a):
    r.d.append(tostring(j, a[0]))
    return r


@stub('java/lang/StringBuilder.append(C)Ljava/lang/StringBuilder;')
def _sbappendc(j, r, a):
    r.d.append(('c', a[0]))
    return r


for _d in 'IJFDZ':
    STUBS['java/lang/StringBuilder.append(%s)Ljava/lang/StringBuilder;' % _d] = lambda j, r, a: (r.d.append(JStr(None)), r)[1]


@stub('java/lang/StringBuilder.reverse')
def _sbrev(j, r, a):
    us = []
    for p in r.d:
        if isinstance(p, tuple):
            us.append(p[1])
        else:
            us += units(j, text(j, p))
    us = us[::-1]
    i = 0
    while i + 1 < len(us):      # surrogate pairs keep their order
        lo, hi = us[i], us[i + 1]
        low = 0xdc00 <= lo < 0xe000 if isinstance(lo, int) else j.truth(z3.And(z3.UGE(lo, 0xdc00), z3.ULT(lo, 0xe000)))
        if low and (0xd800 <= hi < 0xdc00 if isinstance(hi, int) else j.truth(z3.And(z3.UGE(hi, 0xd800), z3.ULT(hi, 0xdc00)))):
            us[i], us[i + 1] = hi, lo
            i += 1
        i += 1
    r.d = [('c', u) for u in us]
    return r


@stub('java/lang/StringBuilder.length')
def _sblen(j, r, a):
    return sum(1 if isinstance(p, tuple) else len(units(j, text(j, p))) for p in r.d)


@stub('java/lang/StringBuilder.toString')
def _sbstr(j, r, a):
    if any(isinstance(p, JStr) and p.s is None for p in r.d):
        return JStr(None)
    if all(isinstance(p, JStr) for p in r.d):
        return JStr(Str(tuple(b for p in r.d for b in p.s.b)))
    us = []
    for p in r.d:
        if isinstance(p, tuple):
            us.append(p[1])
        else:
            us += units(j, p.s)
    return JStr(encode(j, us))


# -- math -------------------------------------------------------------------
def _mm(name):
    def f(j, r, a):
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            return min(x, y) if name == 'min' else max(x, y)
        return simp(z3.If(bv(x, 32) < bv(y, 32), *((bv(x, 32), bv(y, 32)) if name == 'min' else (bv(y, 32), bv(x, 32)))))
    return f


STUBS['java/lang/Math.min(II)I'] = _mm('min')
STUBS['java/lang/Math.max(II)I'] = _mm('max')


@stub('java/lang/Math.abs(J)J')
def _abs(j, r, a):
    return wrap(abs(a[0]), 64) if isinstance(a[0], int) else simp(z3.If(a[0] < 0, -a[0], a[0]))


def _exact(op):
    def f(j, r, a):
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            v = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            if v != wrap(v, 64):
                j.throw('java/lang/ArithmeticException')
            return v
        ext = 128 if op == 'mul' else 66
        p, q = z3.SignExt(ext - 64, bv(x, 64)), z3.SignExt(ext - 64, bv(y, 64))
        v = {'add': lambda: p + q, 'sub': lambda: p - q, 'mul': lambda: p * q}[op]()
        lo = z3.Extract(63, 0, v)
        if not j.truth(z3.SignExt(ext - 64, lo) == v):
            j.throw('java/lang/ArithmeticException')
        return simp(lo)
    return f


STUBS['java/lang/Math.addExact(JJ)J'] = _exact('add')
STUBS['java/lang/Math.subtractExact(JJ)J'] = _exact('sub')
STUBS['java/lang/Math.multiplyExact(JJ)J'] = _exact('mul')


@stub('java/lang/Math.floorDiv(JJ)J')
def _fd(j, r, a):
    x, y = a
    if isinstance(x, int):
        return x // y
    if x is j.env.get('nowms') and y == 1000:
        return j.env['nowparts'][0]
    return simp(z3.If(z3.And(x < 0, z3.SRem(x, bv(y, 64)) != 0), x / bv(y, 64) - 1, x / bv(y, 64)))


@stub('java/lang/Math.floorMod(JJ)J')
def _fm(j, r, a):
    x, y = a
    if isinstance(x, int):
        return x % y
    if x is j.env.get('nowms') and y == 1000:
        return j.env['nowparts'][1]
    m = z3.SRem(x, bv(y, 64))
    return simp(z3.If(m < 0, m + y, m))


@stub('java/lang/System.currentTimeMillis')
def _now(j, r, a):
    """One clock reading per validation, 2020..2100, in milliseconds."""
    if 'nowms' not in j.env:
        s, ms = j.ctx.bv('now_s', 64), j.ctx.bv('now_frac', 64)
        j.ctx.assume(z3.And(s >= 1577836800, s <= 4102444800, ms >= 0, ms < 1000))
        j.env['nowms'] = s * 1000 + ms
        j.env['nowparts'] = (s, ms)
    return j.env['nowms']


# -- comparators ---------------------------------------------------------------
@stub('java/util/Comparator.naturalOrder')
def _nat(j, r, a):
    return JNative('natural')


@stub('natural.compare')
def _natcmp(j, r, a):
    x, y = a
    if x is None or y is None:
        j.throw('java/lang/NullPointerException')
    if isinstance(x, JBox):
        if x.k != y.k:
            j.throw('java/lang/ClassCastException')
        return compare(j, BOX[x.k], x.v, y.v)
    raise Unsupported('natural order of %r' % (x,))


@stub('java/util/Comparator.reverseOrder')
def _revo(j, r, a):
    return JNative('reversed')


@stub('reversed.compare')
def _revcmp(j, r, a):
    return _natcmp(j, r, [a[1], a[0]])


# -- collections ---------------------------------------------------------------
@stub('list.size', 'map.size', 'set.size')
def _size(j, r, a):
    return len(r.d)


@stub('list.isEmpty', 'map.isEmpty', 'set.isEmpty')
def _lempty(j, r, a):
    return len(r.d) == 0


@stub('list.get')
def _lget(j, r, a):
    if not isinstance(a[0], int):
        a = [j.ctx.concretize(a[0], 0, len(r.d))]
    if not 0 <= a[0] < len(r.d):
        j.throw('java/lang/IndexOutOfBoundsException')
    return r.d[a[0]]


@stub('list.iterator', 'set.iterator')
def _liter(j, r, a):
    return JNative('iter', [list(r.d), 0])


@stub('iter.hasNext')
def _hasnext(j, r, a):
    return r.d[1] < len(r.d[0])


@stub('iter.next')
def _next(j, r, a):
    v = r.d[0][r.d[1]]
    r.d[1] += 1
    return v


@stub('list.contains', 'set.contains')
def _lcontains(j, r, a):
    return Or([False] + [equals(j, x, a[0]) for x in r.d])


@stub('java/util/HashSet.<init>', 'java/util/ArrayList.<init>', 'java/util/LinkedHashSet.<init>')
def _hs(j, r, a):
    r.cls = 'list' if 'List' in r.cls else 'set'
    r.d = list(a[0].d) if a and isinstance(a[0], JNative) else []


@stub('list.add')
def _ladd(j, r, a):
    r.d.append(a[0])
    return True


@stub('set.add')
def _sadd(j, r, a):
    if j.truth(Or([False] + [equals(j, x, a[0]) for x in r.d])):
        return False
    r.d.append(a[0])
    return True


@stub('map.keySet')
def _keys(j, r, a):
    return JNative('list', [k for k, _ in r.d])


@stub('map.values')
def _values(j, r, a):
    return JNative('list', [v for _, v in r.d])


@stub('map.entrySet')
def _entries(j, r, a):
    return JNative('list', [JNative('entry', e) for e in r.d])


@stub('entry.getKey')
def _ek(j, r, a):
    return r.d[0]


@stub('entry.getValue')
def _ev(j, r, a):
    return r.d[1]


@stub('java/util/concurrent/ConcurrentHashMap.<init>', 'java/util/HashMap.<init>')
def _chm(j, r, a):
    r.cls = 'cmap'
    r.d = []


def _cfind(j, r, k):
    if k is None:
        j.throw('java/lang/NullPointerException')
    for e in r.d:
        if j.truth(equals(j, e[0], k)):
            return e
    return None


@stub('cmap.put')
def _cput(j, r, a):
    e = _cfind(j, r, a[0])
    if e is not None:
        old, e[1] = e[1], a[1]
        return old
    r.d.append([a[0], a[1]])
    return None


@stub('cmap.get')
def _cget(j, r, a):
    e = _cfind(j, r, a[0])
    return e[1] if e else None


@stub('cmap.containsKey')
def _ccont(j, r, a):
    return _cfind(j, r, a[0]) is not None


@stub('cmap.getOrDefault')
def _cgod(j, r, a):
    e = _cfind(j, r, a[0])
    return e[1] if e else a[1]


@stub('cmap.computeIfAbsent')
def _ccia(j, r, a):
    e = _cfind(j, r, a[0])
    if e:
        return e[1]
    v = j.virtual(a[1], Ref('java/util/function/Function', 'apply', '(Ljava/lang/Object;)Ljava/lang/Object;'), [a[0]])
    if v is not None:
        r.d.append([a[0], v])
    return v


@stub('cmap.putIfAbsent')
def _cpia(j, r, a):
    e = _cfind(j, r, a[0])
    if e:
        return e[1]
    r.d.append([a[0], a[1]])
    return None


# -- enums, classes ---------------------------------------------------------
@stub('java/lang/Enum.toString', 'java/lang/Enum.name')
def _ename(j, r, a):
    return r.f['$name']


@stub('java/lang/Enum.ordinal')
def _eord(j, r, a):
    return r.f['$ord']


_old = STUBS['*.toString']


@stub('*.ordinal')
def _eord2(j, r, a):
    return r.f['$ord']


@stub('*.name')
def _ename2(j, r, a):
    return r.f['$name']


@stub('java/lang/Class.desiredAssertionStatus')
def _das(j, r, a):
    return False


@stub('java/lang/Class.getName')
def _cname(j, r, a):
    return JStr(Str(r.name.replace('/', '.').encode()))


@stub('java/lang/Class.getEnclosingClass')
def _cencl(j, r, a):
    c = j.cls(r.name)
    o = c and c.inner.get(r.name)
    return j.classof(o) if o else None


@stub('java/lang/Class.getClassLoader')
def _ccl(j, r, a):
    return JNative('loader')


@stub('loader.loadClass')
def _load(j, r, a):
    n = bytes(text(j, a[0]).conc()).decode().replace('.', '/')
    if j.cls(n) is None:
        j.throw('java/lang/ClassNotFoundException')
    return j.classof(n)


@stub('java/lang/Class.getDeclaredMethod')
def _gdm(j, r, a):
    n = bytes(text(j, a[0]).conc()).decode()
    want = [x.name for x in a[1].a]
    c = j.cls(r.name)
    for m in c.methods.values():
        if m.name == n and [t.strip('L;') for t in m.args] == want:
            return JNative('method', m)
    j.throw('java/lang/NoSuchMethodException')


@stub('method.invoke')
def _minv(j, r, a):
    m = r.d
    j.init(m.cls.name)
    try:
        return j.run(m, ([] if m.static else [a[0]]) + list(a[1].a))
    except JThrow:
        j.throw('java/lang/reflect/InvocationTargetException')


@stub('*.getCause')
def _cause(j, r, a):
    return r.f.get('$cause') if isinstance(r, JObj) else None


@stub('*.getMessage', '*.getLocalizedMessage')
def _message(j, r, a):
    return r.f.get('$msg') if isinstance(r, JObj) else None


# -- text formats decided by libraries -----------------------------------------
@stub('com/google/re2j/Pattern.compile')
def _pcompile(j, r, a):
    return JNative('pattern', bytes(text(j, a[0]).conc()))


@stub('pattern.pattern')
def _ppat(j, r, a):
    return JStr(Str(r.d))


@stub('pattern.matches')
def _pmatch(j, r, a):
    return j.env['rematch'](r.d, text(j, a[0]))


@stub('com/google/re2j/Pattern.matches')
def _pmatch2(j, r, a):
    return j.env['rematch'](bytes(text(j, a[0]).conc()), text(j, a[1]))


@stub('org/apache/commons/validator/routines/DomainValidator.getInstance')
def _dv(j, r, a):
    return JNative('domain', bool(a and a[0]))


@stub('domain.isValid')
def _dvv(j, r, a):
    if not r.d:
        raise Unsupported('domains without local names')
    return classify(j, 'jhost', text(j, a[0]))


@stub('org/apache/commons/validator/routines/InetAddressValidator.getInstance')
def _iv(j, r, a):
    return JNative('inet')


def inet(j, s):
    v4, v6 = classify(j, 'jip4', s), classify(j, 'jip6', s)
    if ('inet', id(v4)) not in j.env:
        j.env[('inet', id(v4))] = True
        if not isinstance(v4, bool) and not isinstance(v6, bool):
            j.ctx.assume(Not(And(v4, v6)))
        if len(s) < 2:
            j.ctx.assume(Not(v6))
        if len(s) < 7:
            j.ctx.assume(Not(v4))
    return v4, v6


@stub('inet.isValid')
def _ivv(j, r, a):
    return Or(inet(j, text(j, a[0])))


@stub('inet.isValidInet4Address')
def _iv4(j, r, a):
    return inet(j, text(j, a[0]))[0]


@stub('inet.isValidInet6Address')
def _iv6(j, r, a):
    return inet(j, text(j, a[0]))[1]


@stub('org/apache/commons/validator/routines/EmailValidator.getInstance')
def _em(j, r, a):
    return JNative('email')


@stub('email.isValid')
def _emv(j, r, a):
    return classify(j, 'jmail', text(j, a[0]))


@stub('java/net/URI.<init>')
def _uri(j, r, a):
    s = text(j, a[0])
    if not j.truth(classify(j, 'juri', s)):
        j.throw('java/net/URISyntaxException')
    r.d = s


@stub('java/net/URI.isAbsolute')
def _uriabs(j, r, a):
    return classify(j, 'juriabs', r.d)
