"""FileDescriptorSet reader (no protobuf runtime needed): a generic wire-format
decoder driven by the descriptors themselves, including the validate.rules
extensions, so the reference evaluator reads the rules independently of the
code under test."""
import codecs
import struct


def varint(b, i):
    r = s = 0
    while True:
        c = b[i]
        i += 1
        r |= (c & 127) << s
        s += 7
        if c < 128:
            return r, i


def raw_fields(b):
    i = 0
    while i < len(b):
        t, i = varint(b, i)
        n, w = t >> 3, t & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 1:
            v = b[i:i + 8]
            i += 8
        elif w == 2:
            l, i = varint(b, i)
            v = b[i:i + l]
            i += l
        elif w == 5:
            v = b[i:i + 4]
            i += 4
        else:
            raise ValueError('wire type %d' % w)
        yield n, w, v


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def s32(v):
    v &= (1 << 32) - 1
    return v - (1 << 32) if v >> 31 else v


TNAMES = {1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32', 6: 'fixed64', 7: 'fixed32', 8: 'bool',
          9: 'string', 11: 'message', 12: 'bytes', 13: 'uint32', 14: 'enum', 15: 'sfixed32', 16: 'sfixed64',
          17: 'sint32', 18: 'sint64', 10: 'group'}


def scalar(t, w, v):
    if t == 'double':
        return struct.unpack('<d', v)[0]
    if t == 'float':
        return struct.unpack('<f', v)[0]
    if t in ('int64',):
        return s64(v)
    if t in ('int32', 'enum'):
        return s32(v)
    if t == 'uint64':
        return v
    if t == 'uint32':
        return v & 0xffffffff
    if t == 'fixed64':
        return struct.unpack('<Q', v)[0]
    if t == 'fixed32':
        return struct.unpack('<I', v)[0]
    if t == 'sfixed64':
        return struct.unpack('<q', v)[0]
    if t == 'sfixed32':
        return struct.unpack('<i', v)[0]
    if t == 'sint32' or t == 'sint64':
        return (v >> 1) ^ -(v & 1)
    if t == 'bool':
        return v != 0
    if t == 'string' or t == 'bytes':
        return bytes(v)
    raise ValueError(t)


PACKW = {'double': 8, 'fixed64': 8, 'sfixed64': 8, 'float': 4, 'fixed32': 4, 'sfixed32': 4}


class Field:
    __slots__ = ('group', 'name', 'number', 'label', 'type', 'type_name', 'oneof', 'proto3_optional', 'options', 'msg', 'extendee',
                 'rules', 'default', 'packed')

    def __repr__(self):
        return '<Field %s>' % self.name

    @property
    def repeated(self):
        return self.label == 3

    @property
    def presence(self):
        """A scalar field whose value may be unset."""
        return self.msg is not None and self.msg.file.syntax == 'proto2' and not self.repeated and self.type != 'message' and self.oneof is None


def pydefault(pool, f):
    """The value of an unset singular scalar field."""
    t, d = f.type, f.default
    if t == 'string':
        return d or ''
    if t == 'bytes':
        return codecs.escape_decode((d or '').encode())[0]
    if t == 'bool':
        return d == 'true'
    if t in ('float', 'double'):
        return float(d or 0)
    if t == 'enum':
        vs = pool.enums[f.type_name].values
        if d:
            return next(v for n, v in vs if n == d)
        return vs[0][1] if f.msg.file.syntax == 'proto2' else 0
    return int(d or 0)


class Message:
    def __init__(self, full, name, parent, file):
        self.full, self.name, self.parent, self.file = full, name, parent, file
        self.fields, self.oneofs, self.nested, self.enums = [], [], [], []
        self.options = b''
        self.map_entry = False
        self.disabled = self.ignored = False

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f

    def __repr__(self):
        return '<Message %s>' % self.full


class Oneof:
    def __init__(self, name):
        self.name = name
        self.fields = []
        self.required = False
        self.options = b''
        self.synthetic = False


class Enum:
    def __init__(self, full, name):
        self.full, self.name, self.values = full, name, []


class File:
    def __init__(self):
        self.name = self.package = self.go_package = ''
        self.java_package = None
        self.messages, self.enums, self.extensions = [], [], []
        self.syntax = 'proto2'

    def all_messages(self):
        out = []

        def walk(m):
            if not m.map_entry:
                out.append(m)
            for n in m.nested:
                walk(n)
        for m in self.messages:
            walk(m)
        return out


class Dyn(dict):
    """Decoded message: only set fields present."""
    __slots__ = ('desc',)

    def has(self, k):
        return k in self


class Pool:
    def __init__(self, data):
        self.files, self.messages, self.enums, self.exts = {}, {}, {}, {}
        for n, w, v in raw_fields(data):
            if n == 1:
                self._file(v)
        for m in list(self.messages.values()):
            self._resolve(m)

    def _file(self, b):
        f = File()
        msgs, enums, exts = [], [], []
        for n, w, v in raw_fields(b):
            if n == 1:
                f.name = v.decode()
            elif n == 2:
                f.package = v.decode()
            elif n == 4:
                msgs.append(v)
            elif n == 5:
                enums.append(v)
            elif n == 7:
                exts.append(v)
            elif n == 8:
                for n2, w2, v2 in raw_fields(v):
                    if n2 == 11:
                        f.go_package = v2.decode()
                    if n2 == 1:
                        f.java_package = v2.decode()
            elif n == 12:
                f.syntax = v.decode()
        self.files[f.name] = f
        pre = '.' + f.package if f.package else ''
        for v in enums:
            f.enums.append(self._enum(v, pre))
        for v in msgs:
            f.messages.append(self._msg(v, pre, None, f))
        for v in exts:
            x = self._field(v, None)
            self.exts.setdefault(x.extendee, {})[x.number] = x

    def _enum(self, b, pre):
        e = None
        vals = []
        for n, w, v in raw_fields(b):
            if n == 1:
                e = Enum(pre + '.' + v.decode(), v.decode())
            elif n == 2:
                nm, num = '', 0
                for n2, w2, v2 in raw_fields(v):
                    if n2 == 1:
                        nm = v2.decode()
                    elif n2 == 2:
                        num = s32(v2)
                vals.append((nm, num))
        e.values = vals
        self.enums[e.full] = e
        return e

    def _msg(self, b, pre, parent, file):
        rf = list(raw_fields(b))
        name = [v for n, w, v in rf if n == 1][0].decode()
        m = Message(pre + '.' + name, name, parent, file)
        self.messages[m.full] = m
        for n, w, v in rf:
            if n == 2:
                m.fields.append(self._field(v, m))
            elif n == 3:
                m.nested.append(self._msg(v, m.full, m, file))
            elif n == 4:
                m.enums.append(self._enum(v, m.full))
            elif n == 7:
                m.options = v
                for n2, w2, v2 in raw_fields(v):
                    if n2 == 7:
                        m.map_entry = bool(v2)
                    elif n2 == 1071:
                        m.disabled = bool(v2)
                    elif n2 == 1072:
                        m.ignored = bool(v2)
            elif n == 8:
                o = Oneof('')
                for n2, w2, v2 in raw_fields(v):
                    if n2 == 1:
                        o.name = v2.decode()
                    elif n2 == 2:
                        for n3, w3, v3 in raw_fields(v2):
                            if n3 == 1071:
                                o.required = bool(v3)
                m.oneofs.append(o)
        for f in m.fields:
            if f.oneof is not None:
                m.oneofs[f.oneof].fields.append(f)
                if f.proto3_optional:
                    m.oneofs[f.oneof].synthetic = True
        return m

    def _field(self, b, m):
        f = Field()
        f.oneof = None
        f.group = False
        f.proto3_optional = False
        f.options = b''
        f.type_name = ''
        f.extendee = ''
        f.msg = m
        f.rules = None
        f.default = None
        f.label = 1
        for n, w, v in raw_fields(b):
            if n == 1:
                f.name = v.decode()
            elif n == 2:
                f.extendee = v.decode()
            elif n == 3:
                f.number = v
            elif n == 4:
                f.label = v
            elif n == 5:
                f.type = TNAMES[v]
                if f.type == 'group':
                    f.type, f.group = 'message', True
            elif n == 6:
                f.type_name = v.decode()
            elif n == 7:
                f.default = v.decode()
            elif n == 8:
                f.options = v
            elif n == 9:
                f.oneof = v
            elif n == 17:
                f.proto3_optional = bool(v)
        return f

    def _resolve(self, m):
        x = self.exts.get('.google.protobuf.FieldOptions', {}).get(1071)
        if x is None:
            return
        for f in m.fields:
            blobs = [v for n, w, v in raw_fields(f.options) if n == 1071]
            if blobs:
                f.rules = self.decode(self.messages[x.type_name], b''.join(blobs))

    def decode(self, md, b):
        out = Dyn()
        out.desc = md
        by = {f.number: f for f in md.fields}
        for n, w, v in raw_fields(b):
            f = by.get(n)
            if f is None:
                continue
            if f.type == 'message':
                sub = self.decode(self.messages[f.type_name], v)
                if f.repeated:
                    out.setdefault(f.name, []).append(sub)
                elif f.name in out:
                    merge(out[f.name], sub)
                else:
                    out[f.name] = sub
            elif f.repeated:
                lst = out.setdefault(f.name, [])
                if w == 2 and f.type not in ('string', 'bytes'):
                    i = 0
                    while i < len(v):
                        if f.type in PACKW:
                            k = PACKW[f.type]
                            lst.append(scalar(f.type, 5, v[i:i + k]))
                            i += k
                        else:
                            x, i = varint(v, i)
                            lst.append(scalar(f.type, 0, x))
                else:
                    lst.append(scalar(f.type, w, v))
            else:
                if f.oneof is not None:
                    for g in md.oneofs[f.oneof].fields:
                        out.pop(g.name, None)
                out[f.name] = scalar(f.type, w, v)
        return out

    def map_kv(self, f):
        e = self.messages[f.type_name] if f.type == 'message' else None
        if e is not None and e.map_entry:
            return e.fields[0], e.fields[1]
        return None


def merge(a, b):
    for k, v in b.items():
        if k in a and isinstance(v, Dyn):
            merge(a[k], v)
        elif k in a and isinstance(v, list):
            a[k].extend(v)
        else:
            a[k] = v
