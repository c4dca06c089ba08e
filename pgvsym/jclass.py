"""Reader of Java class files."""
import struct


class Ref:
    __slots__ = ('cls', 'name', 'desc')

    def __init__(self, cls, name, desc):
        self.cls, self.name, self.desc = cls, name, desc

    def __repr__(self):
        return '%s.%s%s' % (self.cls, self.name, self.desc)


class Method:
    __slots__ = ('cls', 'name', 'desc', 'flags', 'code', 'maxl', 'exc', 'args', 'ret', 'decoded')

    @property
    def static(self):
        return bool(self.flags & 8)

    def __repr__(self):
        return '%s.%s%s' % (self.cls.name, self.name, self.desc)


def split_desc(d):
    """Argument types and return type of a method descriptor."""
    assert d[0] == '('
    i, args = 1, []
    while d[i] != ')':
        j = i
        while d[j] == '[':
            j += 1
        if d[j] == 'L':
            j = d.index(';', j)
        args.append(d[i:j + 1])
        i = j + 1
    return args, d[i + 1:]


class ClassFile:
    def __init__(self, data):
        self.d, self.p = data, 0
        assert self.u4() == 0xCAFEBABE
        self.u2(), self.u2()
        n = self.u2()
        cp = self.cp = [None] * n
        i = 1
        while i < n:
            t = self.u1()
            if t == 1:
                k = self.u2()
                cp[i] = ('utf', mutf(self.take(k)))
            elif t == 3:
                cp[i] = ('int', struct.unpack('>i', self.take(4))[0])
            elif t == 4:
                cp[i] = ('float', struct.unpack('>I', self.take(4))[0])
            elif t == 5:
                cp[i] = ('long', struct.unpack('>q', self.take(8))[0])
            elif t == 6:
                cp[i] = ('double', struct.unpack('>Q', self.take(8))[0])
            elif t in (7, 8, 16, 19, 20):
                cp[i] = ({7: 'class', 8: 'str', 16: 'mtype'}.get(t, 'mod'), self.u2())
            elif t in (9, 10, 11, 12, 17, 18):
                cp[i] = ({9: 'field', 10: 'method', 11: 'imethod', 12: 'nt', 17: 'dyn', 18: 'indy'}[t], self.u2(), self.u2())
            elif t == 15:
                cp[i] = ('handle', self.u1(), self.u2())
            else:
                raise ValueError('constant %d' % t)
            i += 2 if t in (5, 6) else 1
        self.flags = self.u2()
        self.name = self.cls(self.u2())
        s = self.u2()
        self.super = self.cls(s) if s else None
        self.ifaces = [self.cls(self.u2()) for _ in range(self.u2())]
        self.fields = []
        for _ in range(self.u2()):
            fl, nm, ds = self.u2(), self.utf(self.u2()), self.utf(self.u2())
            const = None
            for an, body in self.attrs():
                if an == 'ConstantValue':
                    const = struct.unpack('>H', body)[0]
            self.fields.append((nm, ds, fl, const))
        self.methods = {}
        for _ in range(self.u2()):
            m = Method()
            m.cls, m.flags, m.name, m.desc = self, self.u2(), self.utf(self.u2()), self.utf(self.u2())
            m.args, m.ret = split_desc(m.desc)
            m.code, m.exc, m.decoded = None, [], None
            for an, body in self.attrs():
                if an == 'Code':
                    _, m.maxl, k = struct.unpack('>HHI', body[:8])
                    m.code = body[8:8 + k]
                    q = 8 + k
                    ne = struct.unpack('>H', body[q:q + 2])[0]
                    for e in range(ne):
                        a, b, h, c = struct.unpack('>HHHH', body[q + 2 + 8 * e:q + 10 + 8 * e])
                        m.exc.append((a, b, h, self.cls(c) if c else None))
            self.methods[(m.name, m.desc)] = m
        self.boot, self.inner = [], {}
        for an, body in self.attrs():
            if an == 'BootstrapMethods':
                q = 2
                for _ in range(struct.unpack('>H', body[:2])[0]):
                    h, k = struct.unpack('>HH', body[q:q + 4])
                    self.boot.append((h, list(struct.unpack('>%dH' % k, body[q + 4:q + 4 + 2 * k]))))
                    q += 4 + 2 * k
            elif an == 'InnerClasses':
                for e in range(struct.unpack('>H', body[:2])[0]):
                    a, b, c, _ = struct.unpack('>HHHH', body[2 + 8 * e:10 + 8 * e])
                    self.inner[self.cls(a)] = (self.cls(b) if b else None)
        self.d = None
        self.statics = None

    def take(self, n):
        b = self.d[self.p:self.p + n]
        self.p += n
        return b

    def u1(self):
        return self.take(1)[0]

    def u2(self):
        return struct.unpack('>H', self.take(2))[0]

    def u4(self):
        return struct.unpack('>I', self.take(4))[0]

    def attrs(self):
        out = []
        for _ in range(self.u2()):
            nm = self.utf(self.u2())
            out.append((nm, self.take(self.u4())))
        return out

    def utf(self, i):
        return self.cp[i][1]

    def cls(self, i):
        return self.utf(self.cp[i][1])

    def ref(self, i):
        _, c, nt = self.cp[i]
        _, n, d = self.cp[nt]
        return Ref(self.cls(c), self.utf(n), self.utf(d))

    def nt(self, i):
        _, n, d = self.cp[i]
        return self.utf(n), self.utf(d)


def mutf(b):
    """Modified UTF-8 -> Python text (surrogate pairs joined)."""
    out, i = [], 0
    while i < len(b):
        c = b[i]
        if c < 0x80:
            out.append(c)
            i += 1
        elif c >> 5 == 6:
            out.append((c & 31) << 6 | b[i + 1] & 63)
            i += 2
        else:
            out.append((c & 15) << 12 | (b[i + 1] & 63) << 6 | b[i + 2] & 63)
            i += 3
    return struct.pack('<%dH' % len(out), *out).decode('utf-16-le', 'surrogatepass')


OPS = {}


def _ops():
    t = '''0 nop;1 aconst_null;2 iconst_m1;3 iconst_0;4 iconst_1;5 iconst_2;6 iconst_3;7 iconst_4;8 iconst_5;9 lconst_0;10 lconst_1;11 fconst_0;12 fconst_1;13 fconst_2;14 dconst_0;15 dconst_1;
16 bipush b;17 sipush s;18 ldc c;19 ldc cc;20 ldc2 cc;21 iload u;22 lload u;23 fload u;24 dload u;25 aload u;46 iaload;47 laload;48 faload;49 daload;50 aaload;51 baload;52 caload;53 saload;
54 istore u;55 lstore u;56 fstore u;57 dstore u;58 astore u;79 iastore;80 lastore;81 fastore;82 dastore;83 aastore;84 bastore;85 castore;86 sastore;87 pop;88 pop2;89 dup;90 dup_x1;91 dup_x2;92 dup2;93 dup2_x1;94 dup2_x2;95 swap;
96 iadd;97 ladd;98 fadd;99 dadd;100 isub;101 lsub;102 fsub;103 dsub;104 imul;105 lmul;106 fmul;107 dmul;108 idiv;109 ldiv;110 fdiv;111 ddiv;112 irem;113 lrem;114 frem;115 drem;116 ineg;117 lneg;118 fneg;119 dneg;
120 ishl;121 lshl;122 ishr;123 lshr;124 iushr;125 lushr;126 iand;127 land;128 ior;129 lor;130 ixor;131 lxor;132 iinc ub;133 i2l;134 i2f;135 i2d;136 l2i;137 l2f;138 l2d;139 f2i;140 f2l;141 f2d;142 d2i;143 d2l;144 d2f;145 i2b;146 i2c;147 i2s;
148 lcmp;149 fcmpl;150 fcmpg;151 dcmpl;152 dcmpg;153 ifeq j;154 ifne j;155 iflt j;156 ifge j;157 ifgt j;158 ifle j;159 if_icmpeq j;160 if_icmpne j;161 if_icmplt j;162 if_icmpge j;163 if_icmpgt j;164 if_icmple j;165 if_acmpeq j;166 if_acmpne j;167 goto j;
172 ireturn;173 lreturn;174 freturn;175 dreturn;176 areturn;177 return;178 getstatic cc;179 putstatic cc;180 getfield cc;181 putfield cc;182 invokevirtual cc;183 invokespecial cc;184 invokestatic cc;185 invokeinterface ccx;186 invokedynamic ccx;
187 new cc;188 newarray u;189 anewarray cc;190 arraylength;191 athrow;192 checkcast cc;193 instanceof cc;194 monitorenter;195 monitorexit;198 ifnull j;199 ifnonnull j;200 goto jj'''
    for e in t.replace('\n', '').split(';'):
        w = e.split()
        OPS[int(w[0])] = (w[1], w[2] if len(w) > 2 else '')
    for base, nm in ((26, 'iload'), (30, 'lload'), (34, 'fload'), (38, 'dload'), (42, 'aload'), (59, 'istore'), (63, 'lstore'), (67, 'fstore'), (71, 'dstore'), (75, 'astore')):
        for k in range(4):
            OPS[base + k] = (nm, '=%d' % k)


_ops()


def decode(code):
    """{pc: (op, arg, next)} of a method body."""
    out, p = {}, 0
    while p < len(code):
        q = p
        op = code[p]
        p += 1
        if op in (170, 171):      # tableswitch, lookupswitch
            p += -p % 4
            dflt = struct.unpack('>i', code[p:p + 4])[0] + q
            if op == 170:
                lo, hi = struct.unpack('>ii', code[p + 4:p + 12])
                offs = struct.unpack('>%di' % (hi - lo + 1), code[p + 12:p + 12 + 4 * (hi - lo + 1)])
                tab = [(lo + i, o + q) for i, o in enumerate(offs)]
                p += 12 + 4 * len(offs)
            else:
                n = struct.unpack('>i', code[p + 4:p + 8])[0]
                v = struct.unpack('>%di' % (2 * n), code[p + 8:p + 8 + 8 * n])
                tab = [(v[2 * i], v[2 * i + 1] + q) for i in range(n)]
                p += 8 + 8 * n
            out[q] = ('switch', (tab, dflt), p)
            continue
        if op == 196:             # wide
            op2 = code[p]
            k = struct.unpack('>H', code[p + 1:p + 3])[0]
            if op2 == 132:
                out[q] = ('iinc', (k, struct.unpack('>h', code[p + 3:p + 5])[0]), p + 5)
                p += 5
            else:
                out[q] = (OPS[op2][0], k, p + 3)
                p += 3
            continue
        nm, k = OPS[op]
        arg = None
        if k.startswith('='):
            arg = int(k[1:])
        elif k == 'b':
            arg = struct.unpack('>b', code[p:p + 1])[0]
            p += 1
        elif k in ('u', 'c'):
            arg = code[p]
            p += 1
        elif k == 's':
            arg = struct.unpack('>h', code[p:p + 2])[0]
            p += 2
        elif k == 'cc':
            arg = struct.unpack('>H', code[p:p + 2])[0]
            p += 2
        elif k == 'ccx':
            arg = struct.unpack('>H', code[p:p + 2])[0]
            p += 4
        elif k == 'ub':
            arg = struct.unpack('>Bb', code[p:p + 2])
            p += 2
        elif k == 'j':
            arg = struct.unpack('>h', code[p:p + 2])[0] + q
            p += 2
        elif k == 'jj':
            arg = struct.unpack('>i', code[p:p + 4])[0] + q
            p += 4
        out[q] = (nm, arg, p)
    return out
