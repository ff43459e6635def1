"""A small protobuf runtime for demonstrations: types come from protoc's descriptor set."""
import os
import struct
import subprocess
import sys
import tempfile
import types

REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))


def varint(b, i):
    r = s = 0
    while True:
        r |= (b[i] & 127) << s
        s += 7
        i += 1
        if b[i - 1] < 128:
            return r, i


def wire(b):
    i, out = 0, []
    while i < len(b):
        k, i = varint(b, i)
        n, t = k >> 3, k & 7
        if t == 0:
            v, i = varint(b, i)
        elif t == 1:
            v, i = b[i:i + 8], i + 8
        elif t == 5:
            v, i = b[i:i + 4], i + 4
        else:
            ln, i = varint(b, i)
            v, i = b[i:i + ln], i + ln
        out.append((n, t, v))
    return out


def get(w, n, d=None):
    r = [v for k, _, v in w if k == n]
    return r[-1] if r else d


def every(w, n):
    return [v for k, _, v in w if k == n]


class Desc:
    def __init__(self, **k):
        self.__dict__.update(k)


class Options:
    def __init__(self, pairs, map_entry=False):
        self.pairs, self.map_entry = pairs, map_entry

    def ListFields(self):
        return self.pairs

    def __str__(self):
        return ''.join('[%s]\n' % d.full_name for d, _ in self.pairs)


class Described(Desc):
    LABEL_OPTIONAL, LABEL_REQUIRED, LABEL_REPEATED = 1, 2, 3
    TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT64, TYPE_UINT64, TYPE_INT32, TYPE_FIXED64, TYPE_FIXED32, TYPE_BOOL, TYPE_STRING = range(1, 10)
    TYPE_MESSAGE, TYPE_BYTES, TYPE_UINT32, TYPE_ENUM, TYPE_SFIXED32, TYPE_SFIXED64, TYPE_SINT32, TYPE_SINT64 = range(11, 19)
    CPPTYPE_INT32, CPPTYPE_INT64, CPPTYPE_UINT32, CPPTYPE_UINT64, CPPTYPE_DOUBLE, CPPTYPE_FLOAT, CPPTYPE_BOOL, CPPTYPE_ENUM, CPPTYPE_STRING, CPPTYPE_MESSAGE = range(1, 11)

    @property
    def has_options(self):
        return bool(self.raw)

    def GetOptions(self):
        pairs = []
        for n in sorted({n for n, _, _ in wire(self.raw)}):
            e = EXT.get((self.kind, n))
            if e is not None:
                pairs.append((e, decode_field(e, [x for x in wire(self.raw) if x[0] == n])))
        return Options(pairs, getattr(self, 'map_entry', False))

    @property
    def is_repeated(self):
        return self.label == 3

    @property
    def has_presence(self):
        return self.label != 3 and (self.type == 11 or self.containing_oneof is not None or self.proto2)


MSG, ENUM, EXT = {}, {}, {}
CPP = {1: 5, 2: 6, 3: 2, 4: 4, 5: 1, 6: 4, 7: 3, 8: 7, 9: 9, 11: 10, 12: 9, 13: 3, 14: 8, 15: 1, 16: 2, 17: 1, 18: 2}


def zero(t):
    return 0.0 if t < 3 else False if t == 8 else '' if t == 9 else b'' if t == 12 else 0


def field(b, scope, oneofs, proto2, kind):
    w = wire(b)
    s = lambda n: get(w, n, b'').decode()
    d = Described(kind='FieldOptions', name=s(1), number=get(w, 3), label=get(w, 4), type=get(w, 5), type_name=s(6)[1:],
                  default=s(7), raw=get(w, 8, b''), proto2=proto2, message_type=None, enum_type=None, containing_oneof=None,
                  json_name=s(10), extendee=s(2)[1:])
    d.camelcase_name = d.json_name
    d.full_name = scope + '.' + d.name
    d.cpp_type = CPP[d.type]
    o = get(w, 9)
    if o is not None:
        d.containing_oneof = oneofs[o]
        oneofs[o].fields.append(d)
    return d


def enum(b, scope):
    w = wire(b)
    d = Desc(name=get(w, 1).decode(), values=[])
    d.full_name = scope + '.' + d.name
    for v in every(w, 2):
        x = wire(v)
        n = get(x, 2, 0)
        d.values.append(Desc(name=get(x, 1).decode(), number=n - (1 << 64) if n >> 63 else n, type=d, index=len(d.values)))
    d.values_by_number = {}
    for v in d.values:
        d.values_by_number.setdefault(v.number, v)
    d.values_by_name = {v.name: v for v in d.values}
    ENUM[d.full_name] = d


def message(b, scope, proto2):
    w = wire(b)
    d = Described(kind='MessageOptions', name=get(w, 1).decode(), raw=get(w, 7, b''), containing_type=None, label=0)
    d.full_name = scope + '.' + d.name
    d.map_entry = bool(get(wire(d.raw), 7, 0))
    d.oneofs = []
    for o in every(w, 8):
        x = wire(o)
        n = get(x, 1).decode()
        d.oneofs.append(Described(kind='OneofOptions', name=n, full_name=d.full_name + '.' + n, raw=get(x, 2, b''), fields=[], containing_type=d, index=len(d.oneofs)))
    d.fields = [field(x, d.full_name, d.oneofs, proto2, None) for x in every(w, 2)]
    for i, f in enumerate(d.fields):
        f.containing_type, f.index = d, i
    d.fields_by_name = {f.name: f for f in d.fields}
    d.fields_by_number = {f.number: f for f in d.fields}
    d.oneofs_by_name = {o.name: o for o in d.oneofs}
    d.nested_types = []
    MSG[d.full_name] = d
    for x in every(w, 3):
        message(x, d.full_name, proto2)
    for x in every(w, 4):
        enum(x, d.full_name)


def load(*protos):
    with tempfile.TemporaryDirectory() as t:
        out = os.path.join(t, 'set')
        subprocess.check_call(['protoc', '-I', HERE, '-I', REPO, '--include_imports', '--descriptor_set_out=' + out] + list(protos))
        raw = open(out, 'rb').read()
    exts = []
    for f in every(wire(raw), 1):
        w = wire(f)
        pkg = get(w, 2, b'').decode()
        proto2 = get(w, 12, b'proto2') == b'proto2'
        for m in every(w, 4):
            message(m, pkg, proto2)
        for e in every(w, 5):
            enum(e, pkg)
        for x in every(w, 7):
            e = field(x, pkg, [], True, None)
            exts.append(e)
            EXT[(e.extendee.split('.')[-1], e.number)] = e
    for f in [f for d in MSG.values() for f in d.fields] + exts:
        if f.type == 11:
            f.message_type = MSG[f.type_name]
        if f.type == 14:
            f.enum_type = ENUM[f.type_name]
        f.default_value = [] if f.label == 3 else None if f.type == 11 else zero(f.type)


def scalar(f, t, v):
    k = f.type
    if k == 9:
        return v.decode()
    if k == 12:
        return v
    if k == 11:
        return decode(f.message_type, v)
    fixed = {1: '<d', 2: '<f', 6: '<Q', 7: '<I', 15: '<i', 16: '<q'}.get(k)
    if fixed:
        return struct.unpack(fixed, v)[0]
    if k == 8:
        return bool(v)
    if k in (17, 18):
        return (v >> 1) ^ -(v & 1)
    if k in (3, 5, 14) and v >> 63:
        return v - (1 << 64)
    return v


def decode_field(f, xs):
    out = []
    for n, t, v in xs:
        if f.label == 3 and t == 2 and f.type not in (9, 11, 12):
            i = 0
            size = {1: 8, 2: 4, 6: 8, 7: 4, 15: 4, 16: 8}.get(f.type)
            while i < len(v):
                if size:
                    x, i = v[i:i + size], i + size
                else:
                    x, i = varint(v, i)
                out.append(scalar(f, 0, x))
        else:
            out.append(scalar(f, t, v))
    if f.label == 3:
        return Repeated(out)
    if f.type == 11 and len(out) > 1:
        for m in out[1:]:
            out[0]._v.update(m._v)
        return out[0]
    return out[-1]


class Repeated(list):
    __hash__ = None


def decode(d, b):
    m = Msg(d)
    w = wire(b)
    for f in d.fields:
        xs = [x for x in w if x[0] == f.number]
        if xs:
            m._v[f.name] = decode_field(f, xs)
    return m


class Msg:
    __hash__ = None

    def __init__(self, d, up=None):
        self.__dict__.update(DESCRIPTOR=d, _v={}, _up=up)

    def _attach(self):
        if self._up:
            m, k = self._up
            m._v[k] = self
            self.__dict__['_up'] = None
            m._attach()

    def HasField(self, n):
        d = self.DESCRIPTOR
        if n in d.oneofs_by_name:
            return any(f.name in self._v for f in d.oneofs_by_name[n].fields)
        if n not in d.fields_by_name:
            raise ValueError('Protocol message %s has no field %s.' % (d.name, n))
        if not d.fields_by_name[n].has_presence:
            raise ValueError("Can't test non-submessage field %s for presence." % n)
        return n in self._v

    def WhichOneof(self, n):
        for f in self.DESCRIPTOR.oneofs_by_name[n].fields:
            if f.name in self._v:
                return f.name
        return None

    def ListFields(self):
        return [(f, self._v[f.name]) for f in self.DESCRIPTOR.fields if f.name in self._v and (f.has_presence or self._v[f.name])]

    def ByteSize(self):
        return len(str(self))

    def __getattr__(self, k):
        f = self.DESCRIPTOR.fields_by_name.get(k)
        if f is None:
            raise AttributeError(k)
        if k in self._v:
            return self._v[k]
        if f.label == 3:
            return {} if f.message_type is not None and f.message_type.map_entry else Repeated()
        if f.type == 11:
            return Msg(f.message_type, (self, k))
        if f.type == 14 and f.proto2:
            return f.enum_type.values[0].number
        return (f.default == 'true' if f.type == 8 else zero(f.type)) if f.default or f.type != 8 else False

    def __setattr__(self, k, v):
        f = self.DESCRIPTOR.fields_by_name[k]
        if f.label == 3 or f.type == 11:
            raise AttributeError('assignment not allowed to ' + k)
        self._v[k] = v
        self._attach()

    def ClearField(self, k):
        self._v.pop(k, None)

    def CopyFrom(self, o):
        self.__dict__['_v'] = dict(o._v)
        self._attach()

    def __str__(self):
        out = []
        for f, v in self.ListFields():
            for x in v.items() if isinstance(v, dict) else v if f.label == 3 else [v]:
                out.append('%s {\n%s}\n' % (f.name, x) if f.type == 11 else '%s: %s\n' % (f.name, repr(x) if isinstance(x, (str, bytes)) else x))
        return ''.join(out)

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, Msg) and self.DESCRIPTOR is o.DESCRIPTOR and str(self) == str(o)


def make(name, **vals):
    """A message; embedded messages are messages, maps are dicts, Durations and Timestamps pairs, wrapped values given bare."""
    d = MSG[name]
    m = Msg(d)
    for k, v in vals.items():
        f = d.fields_by_name[k]
        if v is None:
            continue

        def one(g, x):
            if g.type != 11 or isinstance(x, Msg):
                return x
            if g.type_name in ('google.protobuf.Duration', 'google.protobuf.Timestamp'):
                return make(g.type_name, seconds=x[0], nanos=x[1])
            return make(g.type_name, value=x)
        if f.label == 3 and f.message_type is not None and f.message_type.map_entry:
            e = f.message_type.fields_by_name
            m._v[k] = {a: one(e['value'], b) for a, b in v.items()}
        elif f.label == 3:
            m._v[k] = Repeated(one(f, x) for x in v)
        elif f.type == 11 or f.containing_oneof is not None or v != zero(f.type):
            m._v[k] = one(f, v)
    return m


def module(name, **members):
    m = types.ModuleType(name)
    m.__dict__.update(members)
    sys.modules[name] = m
    return m


def validator():
    """The runtime under /repo, with stand-ins for the libraries that are not installed."""
    import re
    sys.path.insert(0, HERE)
    module('google').__path__ = []
    module('google.protobuf').__path__ = []
    module('google.protobuf.message', Message=Msg)
    word = r"[A-Za-z0-9!#$%&'*+\-/=?^_`{|}~]+"
    mail = re.compile(r"(?:%s(?:\.%s)*|\"(?:[^\"\\\r\n]|\\.)*\")@(?:[A-Za-z0-9-]+(?:\.[A-Za-z0-9-]+)*|\[[^\]]*\])\Z" % (word, word))
    module('validate_email', validate_email=lambda s, *a, **k: mail.match(s) is not None)
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, 'python'))
    from protoc_gen_validate import validator as v
    return v


bad = 0


def expect(what, v, m, ok):
    global bad
    try:
        v.validate(m)
        got, why = True, ''
    except v.ValidationFailed as e:
        got, why = False, str(e)
    except Exception as e:
        got, why = None, '%s: %s' % (type(e).__name__, e)
    if got is not ok:
        bad = 1
        print('%s: accepted=%s, want %s %s' % (what, got, ok, why))


def done():
    sys.exit(bad)
