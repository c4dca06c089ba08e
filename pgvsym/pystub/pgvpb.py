"""Stand-ins for the protobuf Python runtime: descriptors, option messages and
messages of a descriptor set, with the behaviour validator.py relies on."""
import os
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from pgvsym import desc as D          # noqa: E402
from google.protobuf.message import Message      # noqa: E402

TYPES = {'double': 1, 'float': 2, 'int64': 3, 'uint64': 4, 'int32': 5, 'fixed64': 6, 'fixed32': 7, 'bool': 8, 'string': 9, 'group': 10,
         'message': 11, 'bytes': 12, 'uint32': 13, 'enum': 14, 'sfixed32': 15, 'sfixed64': 16, 'sint32': 17, 'sint64': 18}
LABELS = {1: 1, 2: 2, 3: 3}


class Attr:
    def __init__(self, **k):
        self.__dict__.update(k)


class Options:
    """An options message: the extensions that are set."""
    def __init__(self, items):
        self.items = items

    map_entry = False

    def ListFields(self):
        return list(self.items)

    def __str__(self):
        return ''.join('%s: %s\n' % (d.full_name, v) for d, v in self.items)


class World:
    def __init__(self, pool):
        self.pool = pool
        self.msgs, self.enums = {}, {}

    def enum(self, full):
        if full not in self.enums:
            e = self.pool.enums[full]
            vals = [Attr(name=n, number=k) for n, k in e.values]
            self.enums[full] = Attr(name=e.name, full_name=full[1:], values=vals, values_by_number={v.number: v for v in reversed(vals)},
                                    values_by_name={v.name: v for v in vals})
        return self.enums[full]

    def message(self, full):
        if full not in self.msgs:
            self.msgs[full] = Descriptor(self, self.pool.messages[full])
        return self.msgs[full]


class FieldDescriptor:
    LABEL_OPTIONAL, LABEL_REQUIRED, LABEL_REPEATED = 1, 2, 3

    def __init__(self, w, f, parent):
        self._w, self._f = w, f
        self.name, self.number, self.label, self.type = f.name, f.number, f.label, TYPES['group' if f.group else f.type]
        self.full_name = parent.full_name + '.' + f.name
        self.containing_type = parent
        self.containing_oneof = None
        self.has_options = bool(f.options)
        self._opts = None

    @property
    def message_type(self):
        return self._w.message(self._f.type_name) if self._f.type == 'message' else None

    @property
    def enum_type(self):
        return self._w.enum(self._f.type_name) if self._f.type == 'enum' else None

    @property
    def has_presence(self):
        f = self._f
        return f.label != 3 and (f.type == 'message' or f.oneof is not None or f.msg.file.syntax != 'proto3')

    def GetOptions(self):
        if self._opts is None:
            items = []
            if self._f.rules is not None:
                items.append((Attr(name='rules', full_name='validate.rules'), from_dyn(self._w, self._f.rules)))
            self._opts = Options(items)
        return self._opts


class OneofDescriptor:
    def __init__(self, o, parent):
        self.name, self.full_name = o.name, parent.full_name + '.' + o.name
        self.fields = []
        self._req = o.required
        self.containing_type = parent

    def GetOptions(self):
        return Options([(Attr(name='required', full_name='validate.required'), True)] if self._req else [])


class Descriptor:
    def __init__(self, w, md):
        self._w, self._md = w, md
        self.name, self.full_name = md.name, md.full[1:]
        w.msgs[md.full] = self
        self.fields = [FieldDescriptor(w, f, self) for f in md.fields]
        self.fields_by_name = {f.name: f for f in self.fields}
        self.fields_by_number = {f.number: f for f in self.fields}
        self.oneofs = [OneofDescriptor(o, self) for o in md.oneofs]
        self.oneofs_by_name = {o.name: o for o in self.oneofs}
        for f in self.fields:
            if f._f.oneof is not None:
                f.containing_oneof = self.oneofs[f._f.oneof]
                f.containing_oneof.fields.append(f)

    def GetOptions(self):
        md, it = self._md, []
        present = [n for n, w, v in D.raw_fields(md.options)]
        if 1071 in present:
            it.append((Attr(name='disabled', full_name='validate.disabled'), md.disabled))
        if 1072 in present:
            it.append((Attr(name='ignored', full_name='validate.ignored'), md.ignored))
        if md.map_entry:
            it.insert(0, (Attr(name='map_entry', full_name='google.protobuf.MessageOptions.map_entry'), True))
        opts = Options(it)
        opts.map_entry = md.map_entry
        return opts


class Repeated(list):
    """A repeated field."""
    def add(self):
        raise NotImplementedError('add')


class Msg(Message):
    def __init__(self, d, vals=None):
        object.__setattr__(self, 'DESCRIPTOR', d)
        object.__setattr__(self, '_v', dict(vals or {}))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None:
            raise AttributeError(n)
        v = self._v.get(n)
        if v is None:
            kv = self.DESCRIPTOR._w.pool.map_kv(f._f)
            if f.label == 3:
                v = {} if kv else Repeated()
            elif f.message_type is not None:
                v = Msg(f.message_type)
            else:
                v = D.pydefault(self.DESCRIPTOR._w.pool, f._f)
            if f.label == 3:
                self._v[n] = v
        return v

    def __setattr__(self, n, v):
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None:
            raise AttributeError(n)
        self._v[n] = v

    def HasField(self, n):
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None:
            o = self.DESCRIPTOR.oneofs_by_name.get(n)
            if o is not None:
                return any(x.name in self._v for x in o.fields)
            raise ValueError('Protocol message %s has no field %s' % (self.DESCRIPTOR.name, n))
        if not f.has_presence:
            raise ValueError('Field %s does not have presence.' % f.full_name)
        return self._v.get(n) is not None

    def WhichOneof(self, n):
        for x in self.DESCRIPTOR.oneofs_by_name[n].fields:
            if self._v.get(x.name) is not None:
                return x.name

    def ListFields(self):
        out = []
        for f in sorted(self.DESCRIPTOR.fields, key=lambda f: f.number):
            v = self._v.get(f.name)
            if v is None or (f.label == 3 and not v) or (not f.has_presence and not v):
                continue
            out.append((f, v))
        return out

    def __str__(self):
        out = []
        for f, v in self.ListFields():
            for x in (v if f.label == 3 else [v]):
                if isinstance(x, Msg):
                    out.append('%s {\n%s}\n' % (f.name, ''.join('  ' + l + '\n' for l in str(x).splitlines())))
                else:
                    out.append('%s: %s\n' % (f.name, x))
        return ''.join(out)

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, Msg) and self.DESCRIPTOR is o.DESCRIPTOR and {f.name: v for f, v in self.ListFields()} == {f.name: v for f, v in o.ListFields()}

    def __hash__(self):
        raise TypeError('unhashable object')


def from_dyn(w, d):
    vals = {}
    for k, v in d.items():
        f = d.desc.field(k)

        def conv(x):
            if isinstance(x, D.Dyn):
                return from_dyn(w, x)
            return x.decode('utf8') if f.type == 'string' else x
        vals[k] = Repeated(map(conv, v)) if isinstance(v, list) else conv(v)
    return Msg(w.message(d.desc.full), vals)


def leaf(f, v):
    if f.type == 'string':
        return bytes.fromhex(v['hex']).decode('utf8')
    if f.type == 'bytes':
        return bytes.fromhex(v['hex'])
    if isinstance(v, dict):
        n = int(v['bits'])
        return struct.unpack('<f', struct.pack('<I', n))[0] if f.type == 'float' else struct.unpack('<d', struct.pack('<Q', n))[0]
    if isinstance(v, bool):
        return v
    return int(v)


def from_tree(w, tree):
    md = w.pool.messages[tree['@type']]
    vals = {}
    for f in md.fields:
        if f.name not in tree or tree[f.name] is None:
            continue
        v = tree[f.name]
        kv = w.pool.map_kv(f)
        val = lambda g, x: from_tree(w, x) if g.type == 'message' else leaf(g, x)
        if kv:
            vals[f.name] = {val(kv[0], k): val(kv[1], x) for k, x in v}
        elif f.repeated:
            vals[f.name] = Repeated(val(f, x) for x in v)
        else:
            vals[f.name] = val(f, v)
    return Msg(w.message(md.full), vals)
