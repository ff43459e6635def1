"""Abstract interpretation of the Python runtime's syntax trees.

Values are the host's own where they are known, and symbols where only an
order, a predicate or an equality pattern is.  Code that asks more of a symbol
than that is left undecided.
"""
import ast
import builtins
import ipaddress
import re
import struct
import sys
import types
import uuid
from fractions import Fraction

import jinja
from jinja import Template, TemplateError, Undefined, UndefinedError

sys.setrecursionlimit(20000)


class Undecided(BaseException):
    pass


def undecided(msg):
    raise Undecided(msg)


class Env:
    rank = {}
    fact = {}
    classes = {}


E = Env()
holes = {}


def hole(sym):
    n = '_h%d_' % len(holes)
    for k, v in holes.items():
        if v is sym:
            return k
    holes[n] = sym
    return n


HOLE = re.compile(r'_h\d+_')


def fact(op, *args):
    ks = [op]
    for a in args:
        if isinstance(a, Sym):
            ks.append(('s', a.name))
        elif isinstance(a, str):
            ks.append(('t', a.encode('utf-8', 'surrogateescape')))
        elif isinstance(a, bytes):
            ks.append(('t', a))
        else:
            undecided('the operand %r' % (a,))
    k = tuple(ks)
    if k not in E.fact:
        undecided('whether %s holds of %s' % (op, ' and '.join(map(show, args))))
    return E.fact[k]


def show(v):
    return v.name if isinstance(v, Sym) else repr(v)


def number(x):
    return isinstance(x, (int, float))


class Sym:
    """A symbolic scalar; kind is int, float, text or bytes."""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def rank(self):
        if self.name not in E.rank:
            undecided('the value of ' + self.name)
        return E.rank[self.name]

    def _cmp(self, o):
        num = self.kind in ('int', 'float')
        if isinstance(o, Sym):
            if num != (o.kind in ('int', 'float')):
                return None
            if not num and o.kind != self.kind:
                return None
            a, b = self.rank(), o.rank()
        elif num and number(o):
            a, b = self.rank(), o
        elif self.kind == 'text' and isinstance(o, str) or self.kind == 'bytes' and isinstance(o, bytes):
            if HOLE.search(o if isinstance(o, str) else ''):
                undecided('a comparison with ' + o)
            a, b = self.rank(), E.classes.get(o.encode('utf-8', 'surrogateescape') if isinstance(o, str) else o)
            return 0 if a == b else 2
        else:
            return None
        if not num and a != b:
            return 2
        return (a > b) - (a < b)

    def __eq__(self, o):
        if o is self:
            return True
        c = self._cmp(o)
        return NotImplemented if c is None else c == 0

    def __ne__(self, o):
        if o is self:
            return False
        c = self._cmp(o)
        return NotImplemented if c is None else c != 0

    def _order(self, o):
        c = self._cmp(o)
        if c == 2:
            undecided('the order of texts')
        return c

    def __lt__(self, o):
        c = self._order(o)
        return NotImplemented if c is None else c < 0

    def __le__(self, o):
        c = self._order(o)
        return NotImplemented if c is None else c <= 0

    def __gt__(self, o):
        c = self._order(o)
        return NotImplemented if c is None else c > 0

    def __ge__(self, o):
        c = self._order(o)
        return NotImplemented if c is None else c >= 0

    def __hash__(self):
        r = self.rank()
        if self.kind in ('int', 'float'):
            return hash(r)
        for t, c in E.classes.items():
            if c == r:
                return hash(t.decode('utf-8', 'surrogateescape') if self.kind == 'text' else t)
        return hash((r, self.kind))

    def __bool__(self):
        if self.kind in ('int', 'float'):
            return self.rank() != 0
        if self.name in E.rank:
            return E.rank[self.name] != 0
        return measure(self, 'bytes') != 0

    def __str__(self):
        return hole(self)

    def __repr__(self):
        return hole(self) if self.kind in ('int', 'float') else ('' if self.kind == 'text' else 'b') + "'" + hole(self) + "'"

    def __format__(self, spec):
        if spec:
            undecided('the format ' + spec)
        return hole(self)

    def __contains__(self, o):
        if self.kind == 'text' and isinstance(o, str) or self.kind == 'bytes' and isinstance(o, bytes):
            return len(o) == 0 or fact('contains', self, o)
        if isinstance(o, Sym) and o.kind == self.kind:
            return fact('contains', self, o)
        if self.kind in ('int', 'float'):
            raise TypeError('argument of type %r is not iterable' % self.kind)
        if isinstance(o, Sym) or number(o) and self.kind == 'bytes':
            undecided('a containment')
        raise TypeError("'in <string>' requires string as left operand")

    def _affix(self, op, o):
        if isinstance(o, tuple):
            return any(self._affix(op, x) for x in o)
        if isinstance(o, Sym) and o.kind == self.kind or isinstance(o, str if self.kind == 'text' else bytes):
            return not isinstance(o, Sym) and len(o) == 0 or fact(op, self, o)
        raise TypeError('%s first arg must be %s' % (op, self.kind))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if self.kind in ('text', 'bytes'):
            if k == 'startswith':
                return lambda o: self._affix('prefix', o)
            if k == 'endswith':
                return lambda o: self._affix('suffix', o)
            if k == 'find':
                return lambda o: 0 if o in self else -1
            if k == 'encode' and self.kind == 'text':
                def enc(*a, **kw):
                    n = (list(a) + list(kw.values()) + ['utf-8'])[0]
                    if n.lower().replace('_', '-') not in ('utf-8', 'utf8'):
                        undecided('the encoding ' + n)
                    return Encoded(self)
                return enc
            if k == 'decode' and self.kind == 'bytes':
                def dec(encoding='utf-8', errors='strict'):
                    if encoding.lower().replace('_', '-') not in ('utf-8', 'utf8') or errors != 'surrogateescape':
                        undecided('bytes decoded as %s, errors %s' % (encoding, errors))
                    return Decoded(self)
                return dec
            if k == 'lower' and self.kind == 'text' and fact('uuid', self):
                return lambda: Canon(self)
            if k in dir('' if self.kind == 'text' else b''):
                undecided('the method %s of the symbolic text %s' % (k, self.name))
        elif k == 'is_integer':
            undecided('whether %s is whole' % self.name)
        raise AttributeError('%r object has no attribute %r' % (self.kind, k))

    def _arith(self, o):
        if self.kind in ('int', 'float') and (number(o) or isinstance(o, Sym)):
            undecided('arithmetic on ' + self.name)
        if self.kind in ('text', 'bytes') and (isinstance(o, (str, bytes)) or isinstance(o, Sym)):
            undecided('a text made of ' + self.name)
        return NotImplemented

    def __add__(self, o):
        if o == 0 and type(o) is int:
            return self
        if self.kind == 'text' and (isinstance(o, str) or isinstance(o, Sym) and o.kind == 'text'):
            return str(self) + str(o)
        return self._arith(o)

    def __radd__(self, o):
        if self.kind == 'text' and isinstance(o, str):
            return o + str(self)
        return self._arith(o)

    def __sub__(self, o):
        return Diff(self, o) if self.kind in ('int', 'float') and (number(o) or isinstance(o, Sym)) else NotImplemented

    def __rsub__(self, o):
        return Diff(o, self) if self.kind in ('int', 'float') and number(o) else NotImplemented

    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __pow__ = _arith

    def __iter__(self):
        if self.kind in ('text', 'bytes'):
            undecided('the characters of ' + self.name)
        raise TypeError('%r object is not iterable' % self.kind)

    def __getitem__(self, i):
        if self.kind in ('text', 'bytes'):
            undecided('the characters of ' + self.name)
        raise TypeError('%r object is not subscriptable' % self.kind)


class Diff:
    """a - b, of which the sign is known."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def _c(self, o):
        if not (number(o) and o == 0):
            undecided('the size of a difference')
        return (self.a > self.b) - (self.a < self.b)

    def __eq__(self, o):
        return self._c(o) == 0

    def __ne__(self, o):
        return self._c(o) != 0

    def __lt__(self, o):
        return self._c(o) < 0

    def __le__(self, o):
        return self._c(o) <= 0

    def __gt__(self, o):
        return self._c(o) > 0

    def __ge__(self, o):
        return self._c(o) >= 0

    def __bool__(self):
        return self._c(0) != 0

    __hash__ = None


class Encoded:
    """The UTF-8 form of a symbolic text."""

    def __init__(self, sym):
        self.sym = sym

    def __bool__(self):
        return bool(self.sym)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k == 'decode':
            return lambda *a, **kw: self.sym
        undecided('the bytes of ' + self.sym.name)


class Decoded:
    """The characters of symbolic bytes, each malformed byte one of its own."""

    def __init__(self, sym):
        self.sym = sym

    def __bool__(self):
        return bool(self.sym)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        undecided('the characters of ' + self.sym.name)


def measure(v, what):
    k = what + ':' + v.name
    if k in E.rank:
        return E.rank[k]
    undecided('the length of ' + v.name)


class Unit:
    """A measure of a symbol, as an integer."""


def measured(v, what):
    return Sym(what + ':' + v.name, 'int')


class Lin:
    """A linear form in the parts of symbolic times; exact says that no
    floating point rounding took place."""

    def __init__(self, t, c=0, exact=True):
        self.t = {k: v for k, v in t.items() if v}
        self.c = Fraction(c)
        self.exact = exact

    @staticmethod
    def co(x):
        """The coefficient a number stands for."""
        if isinstance(x, int):
            return Fraction(x), True
        for d in range(1, 10):
            if x == 10**-d:
                return Fraction(1, 10**d), False
        return Fraction(x), False

    def _scale(self, f, exact=True):
        return Lin({k: v * f for k, v in self.t.items()}, self.c * f, self.exact and exact)

    def _add(self, o, s):
        if isinstance(o, Lin):
            t = dict(self.t)
            for k, v in o.t.items():
                t[k] = t.get(k, 0) + s * v
            return Lin(t, self.c + s * o.c, self.exact and o.exact)
        if number(o):
            f, ex = Lin.co(o)
            return Lin(self.t, self.c + s * f, self.exact and (ex or o == 0))
        return NotImplemented

    def __add__(self, o):
        return self._add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __rsub__(self, o):
        return (self * -1)._add(o, 1)

    def __neg__(self):
        return self * -1

    def __mul__(self, o):
        if number(o):
            f, ex = Lin.co(o)
            return self._scale(f, ex)
        if isinstance(o, (Lin, Sym)):
            undecided('a product of times')
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if number(o):
            f, _ = Lin.co(o)
            return self._scale(1 / f, False)
        return NotImplemented

    def __floordiv__(self, o):
        undecided('whole seconds of a time')

    __mod__ = __floordiv__

    def __bool__(self):
        return self != 0

    def __str__(self):
        return hole(self)

    __repr__ = __str__

    def __format__(self, spec):
        return hole(self)

    def _sign(self, o):
        d = self._add(o, -1)
        if d is NotImplemented:
            return None
        if not d.t:
            return (d.c > 0) - (d.c < 0)
        per = {}
        for (s, part), v in d.t.items():
            per.setdefault(s, {})[part] = v
        form = {}
        only = set()
        for s, p in per.items():
            if 'now' in p:
                form[s] = p['now']
            elif set(p) == {'s', 'n'}:
                if p['s'] != p['n'] * 10**9:
                    undecided('seconds and nanoseconds of %s are not added up to a time' % s)
                form[s] = p['n']
            else:
                only |= set(p)
                form[s] = list(p.values())[0]
        if only and len(only) + ('now' in per) > 1 or only and any(set(p) - only for p in per.values()):
            undecided('parts of times are mixed')
        if not d.exact and 'now' not in form:
            undecided('times are compared as floating point numbers, which do not tell nanoseconds apart')
        scale = {abs(v) for v in form.values()}
        if len(scale) != 1:
            undecided('times of different units are compared')
        pos = sorted(s for s, v in form.items() if v > 0)
        neg = sorted(s for s, v in form.items() if v < 0)
        flip = 1
        if d.c:
            undecided('a time is moved by a constant')

        def rk(names, n2):
            """the rank of a sum, where it is known"""
            if not names and not n2:
                return 0
            if len(names) == 1 and not n2:
                return E.rank.get(names[0])
            if names == ['now'] and len(n2) == 1:
                return E.rank.get('now-' + n2[0])
            if len(names) == 2 and 'now' in names and not n2:
                return E.rank.get('now+' + [x for x in names if x != 'now'][0])
            return None
        # x - now + W, x - now - W, x - b
        for a, b, f in ((pos, neg, 1), (neg, pos, -1)):
            for x in a:
                if x == 'now':
                    continue
                rest = [y for y in a if y != x]
                l, r = E.rank.get(x), rk(b, rest)
                if l is not None and r is not None:
                    if only == {'n'} and l != r:
                        undecided('only the nanoseconds of %s are compared' % x)
                    return f * ((l > r) - (l < r))
        if pos == ['now'] or neg == ['now']:
            undecided('the current time is compared with a constant')
        undecided('the order of %s and %s' % (' + '.join(pos), ' + '.join(neg)))

    def __eq__(self, o):
        s = self._sign(o)
        return NotImplemented if s is None else s == 0

    def __ne__(self, o):
        s = self._sign(o)
        return NotImplemented if s is None else s != 0

    def __lt__(self, o):
        s = self._sign(o)
        return NotImplemented if s is None else s < 0

    def __le__(self, o):
        s = self._sign(o)
        return NotImplemented if s is None else s <= 0

    def __gt__(self, o):
        s = self._sign(o)
        return NotImplemented if s is None else s > 0

    def __ge__(self, o):
        s = self._sign(o)
        return NotImplemented if s is None else s >= 0

    def __hash__(self):
        if len(self.t) == 0:
            return hash(self.c)
        return 7


def lin(sym, part):
    return Lin({(sym, part): Fraction(1)})


def now_lin(scale, exact):
    return Lin({('now', 'now'): Fraction(scale)}, 0, exact)


# --- protobuf ---------------------------------------------------------------

SCALAR = {1: 'float', 2: 'float', 9: 'text', 12: 'bytes'}
CPP = {1: 5, 2: 6, 3: 2, 4: 4, 5: 1, 6: 4, 7: 3, 8: 7, 9: 9, 11: 10, 12: 9, 13: 3, 14: 8, 15: 1, 16: 2, 17: 1, 18: 2}


class Desc:
    def __repr__(self):
        return '<descriptor %s>' % getattr(self, 'full_name', '?')


class Options:
    def __init__(self, pairs, map_entry=False):
        self._pairs = pairs
        self.map_entry = map_entry
        self.deprecated = False

    def ListFields(self):
        return list(self._pairs)

    def __str__(self):
        return ''.join('[%s] { }\n' % d.full_name for d, _ in self._pairs)


def ext(name):
    d = Desc()
    d.full_name, d.name = 'validate.' + name, name
    return d


class FieldDesc(Desc):
    LABEL_OPTIONAL, LABEL_REQUIRED, LABEL_REPEATED = 1, 2, 3
    TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT64, TYPE_UINT64, TYPE_INT32, TYPE_FIXED64, TYPE_FIXED32, TYPE_BOOL, TYPE_STRING = range(1, 10)
    TYPE_MESSAGE, TYPE_BYTES, TYPE_UINT32, TYPE_ENUM, TYPE_SFIXED32, TYPE_SFIXED64, TYPE_SINT32, TYPE_SINT64 = range(11, 19)
    CPPTYPE_INT32, CPPTYPE_INT64, CPPTYPE_UINT32, CPPTYPE_UINT64, CPPTYPE_DOUBLE, CPPTYPE_FLOAT, CPPTYPE_BOOL, CPPTYPE_ENUM, CPPTYPE_STRING, CPPTYPE_MESSAGE = range(1, 11)

    def GetOptions(self):
        return self._opts

    @property
    def is_repeated(self):
        return self.label == 3

    @property
    def has_presence(self):
        return self.label != 3 and (self.type == 11 or self.containing_oneof is not None)


class MsgDesc(Desc):
    def GetOptions(self):
        return self._opts


class OneofDesc(Desc):
    def GetOptions(self):
        return self._opts


class Schema:
    """The message types of a schema, as the runtime's descriptors."""

    def __init__(self, j, rules):
        self.rules = rules
        self.msgs, self.enums = {}, {}
        for fq, e in j['enums'].items():
            d = Desc()
            d.name, d.full_name = e['name'], fq[1:]
            d.values = []
            for n, x in e['values']:
                v = Desc()
                v.name, v.number, v.type, v.index = n, x, d, len(d.values)
                d.values.append(v)
            d.values_by_number = {}
            for v in d.values:
                d.values_by_number.setdefault(v.number, v)
            d.values_by_name = {v.name: v for v in d.values}
            self.enums[fq] = d
        for fq, m in j['messages'].items():
            d = MsgDesc()
            d.name, d.full_name = m['name'], fq[1:]
            d.fields, d.oneofs = [], []
            d.off = bool(m.get('disabled')) or bool(m.get('ignored'))
            pairs = [(ext(k), m[k]) for k in ('disabled', 'ignored') if m.get(k) is not None]
            d.map_entry = m.get('map_entry', False)
            d._opts = Options(pairs, d.map_entry)
            d.has_options = bool(pairs) or d.map_entry
            d.containing_type = None
            self.msgs[fq] = d
        for fq, m in j['messages'].items():
            d = self.msgs[fq]
            for o in m['oneofs'] or []:
                x = OneofDesc()
                x.name, x.full_name, x.fields, x.containing_type = o['name'], d.full_name + '.' + o['name'], [], d
                x._opts = Options([(ext('required'), o['required'])] if o.get('required') is not None else [])
                x.has_options = o.get('required') is not None
                x.index = len(d.oneofs)
                d.oneofs.append(x)
            for f in m['fields'] or []:
                x = FieldDesc()
                x.name, x.number, x.label, x.type = f['name'], f['number'], f['label'], f['type']
                x.cpp_type = CPP[x.type]
                x.full_name, x.json_name, x.camelcase_name = d.full_name + '.' + x.name, x.name, x.name
                x.index = len(d.fields)
                x.containing_type = d
                x.message_type = self.msgs[f['type_name']] if x.type == 11 else None
                x.enum_type = self.enums[f['type_name']] if x.type == 14 else None
                x.containing_oneof = d.oneofs[f['oneof']] if f['oneof'] >= 0 else None
                if x.containing_oneof is not None:
                    x.containing_oneof.fields.append(x)
                x._opts = Options([(ext('rules'), rules.make('validate.FieldRules', f['rules']))] if f.get('rules') is not None else [])
                x.has_options = f.get('rules') is not None
                x.default_value = [] if x.label == 3 else None if x.type == 11 else zero(x.type)
                d.fields.append(x)
            d.fields_by_name = {f.name: f for f in d.fields}
            d.fields_by_number = {f.number: f for f in d.fields}
            d.oneofs_by_name = {o.name: o for o in d.oneofs}
            d.nested_types = []


def zero(t):
    if t in (1, 2):
        return 0.0
    if t == 8:
        return False
    if t == 9:
        return ''
    if t == 12:
        return b''
    return 0


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def scalar(j, t):
    """A scalar of a rule or a value."""
    if isinstance(j, dict):
        if 'sym' in j:
            return Sym(j['sym'], SCALAR.get(t, 'int'))
        if 't' in j:
            b = bytes.fromhex(j['t'])
            return b if t == 12 else b.decode('utf-8', 'surrogateescape')
        if 'f' in j:
            return float(j['f'])
    if t == 1:
        return float(j)
    if t == 2:
        return f32(j)
    if t == 8:
        return bool(j)
    return j


class Repeated(list):
    """A repeated field."""
    __hash__ = None


class Sized:
    """A collection of which only the size is known."""

    def __init__(self, sym, ismap):
        self.sym = sym

    def __bool__(self):
        return E.rank['size:' + self.sym] > 0

    def __iter__(self):
        undecided('the elements of a collection of unknown elements')

    def __contains__(self, o):
        undecided('the elements of a collection of unknown elements')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        undecided('%s of a collection of unknown elements' % k)


class Map:
    """A map field."""
    __hash__ = None

    def __init__(self, pairs):
        self.p = pairs

    def __iter__(self):
        return iter([k for k, _ in self.p])

    def __len__(self):
        return len(self.p)

    def __contains__(self, k):
        return any(a is k or a == k for a, _ in self.p)

    def __getitem__(self, k):
        for a, b in self.p:
            if a is k or a == k:
                return b
        undecided('an entry that is not there')

    def get(self, k, d=None):
        return self[k] if k in self else d

    def keys(self):
        return [k for k, _ in self.p]

    def values(self):
        return [v for _, v in self.p]

    def items(self):
        return list(self.p)


class Msg:
    """A message; vals holds the fields that are set."""

    def __init__(self, desc, vals):
        self.__dict__['DESCRIPTOR'] = desc
        self.__dict__['_v'] = vals

    def HasField(self, n):
        d = self.DESCRIPTOR
        if n in d.oneofs_by_name:
            return any(f.name in self._v for f in d.oneofs_by_name[n].fields)
        if n not in d.fields_by_name:
            raise ValueError('Protocol message %s has no field %s.' % (d.name, n))
        if not d.fields_by_name[n].has_presence:
            raise ValueError("Can't test non-submessage field %s for presence." % n)
        return n in self._v

    def WhichOneof(self, n):
        d = self.DESCRIPTOR
        if n not in d.oneofs_by_name:
            raise ValueError('no oneof ' + n)
        for f in d.oneofs_by_name[n].fields:
            if f.name in self._v:
                return f.name
        return None

    def ListFields(self):
        return [(f, self._v[f.name]) for f in self.DESCRIPTOR.fields if f.name in self._v and (f.has_presence or truth(self._v[f.name]))]

    def __getattr__(self, k):
        d = self.DESCRIPTOR.fields_by_name.get(k)
        if d is None:
            raise AttributeError(k)
        if k in self._v:
            return self._v[k]
        if d.label == 3:
            return Map([]) if d.message_type is not None and d.message_type.map_entry else Repeated()
        if d.type == 11:
            return blank(d.message_type)
        return zero(d.type)

    def __setattr__(self, k, v):
        undecided('a validator changes the message')

    def __str__(self):
        return '<%s>' % self.DESCRIPTOR.full_name

    def __eq__(self, o):
        if self is o:
            return True
        undecided('equality of messages')

    __hash__ = None


class Time(Msg):
    """A duration or timestamp, symbolic or given."""

    def __init__(self, desc, sym=None, dc=None):
        Msg.__init__(self, desc, {})
        self.__dict__['sym'] = sym
        self.__dict__['dc'] = dc

    def __getattr__(self, k):
        if k in ('seconds', 'nanos'):
            if self.dc is not None:
                return self.dc[k == 'nanos']
            return lin(self.sym, k[0])
        if k in ('ToNanoseconds', 'ToSeconds', 'ToMicroseconds', 'ToMilliseconds'):
            if k != 'ToNanoseconds':
                return lambda: undecided('times compared without their nanoseconds')
            return lambda: self.seconds * 10**9 + self.nanos
        if k in ('ToTimedelta', 'ToDatetime', 'ToJsonString'):
            undecided('%s, which knows microseconds only' % k)
        raise AttributeError(k)

    def HasField(self, n):
        raise ValueError('no presence of ' + n)

    def __str__(self):
        return 'seconds: %s\nnanos: %s\n' % (self.seconds, self.nanos)


class Opaque(Msg):
    """A message of which only the validity is known."""

    def __init__(self, desc, sym):
        Msg.__init__(self, desc, {})
        self.__dict__['sym'] = sym

    def HasField(self, n):
        undecided('the fields of an embedded message')

    WhichOneof = ListFields = HasField

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        undecided('the field %s of an embedded message' % k)


def blank(d):
    if d.full_name in ('google.protobuf.Duration', 'google.protobuf.Timestamp'):
        return Time(d, dc=(0, 0))
    return Msg(d, {})


def value(f, j):
    """The value of field f; None when it is not set."""
    if j is None or j.get('nil'):
        return None
    if f.label == 3:
        if 'sym' in j:
            return Sized(j['sym'], False)
        if f.message_type is not None and f.message_type.map_entry:
            kf, vf = f.message_type.fields_by_name['key'], f.message_type.fields_by_name['value']
            return Map([(single(kf, k), single(vf, v)) for k, v in j.get('map') or []])
        return Repeated(single(f, x) for x in j.get('list') or [])
    return single(f, j)


def single(f, j):
    if f.type == 11:
        d = f.message_type
        n = d.full_name
        if n in ('google.protobuf.Duration', 'google.protobuf.Timestamp'):
            return Time(d, sym=j.get('sym'), dc=tuple(j['dc']) if 'dc' in j else None)
        if 'wrap' in j:
            inner = 'type_url' if n == 'google.protobuf.Any' else 'value'
            return Msg(d, {inner: single(d.fields_by_name[inner], j['wrap'])})
        if 'fields' in j:
            return message(d, j)
        return Opaque(d, j['sym'])
    return scalar(j['conc'] if 'conc' in j else j, f.type)


def message(d, j):
    vals = {}
    for n, x in (j.get('fields') or {}).items():
        f = d.fields_by_name[n]
        v = value(f, x)
        if v is not None:
            vals[n] = v
    return Msg(d, vals)


class Rules:
    """The rule messages of the rule schema."""

    def __init__(self, j):
        self.m = {}
        self.enums = {}
        for fq, e in j['enums'].items():
            d = Desc()
            d.name, d.full_name, d.values = e['name'], fq, []
            for n, x in e['values']:
                v = Desc()
                v.name, v.number = n, x
                d.values.append(v)
            d.values_by_number = {v.number: v for v in d.values}
            d.values_by_name = {v.name: v for v in d.values}
            self.enums[fq] = d
        for fq, m in j['messages'].items():
            d = MsgDesc()
            d.full_name, d.name = fq, fq.split('.')[-1]
            d.fields = []
            d.oneofs = []
            for o in m['oneofs'] or []:
                x = OneofDesc()
                x.name, x.fields = o, []
                x._opts = Options([])
                d.oneofs.append(x)
            for f in m['fields'] or []:
                x = FieldDesc()
                x.name, x.type, x.label, x.type_name, x.number = f['name'], f['type'], f['label'], f['type_name'], f['number']
                x.full_name = fq + '.' + x.name
                x.default_value = f['default'] if f.get('default') is not None else None if x.type == 11 else zero(x.type)
                x.containing_oneof = d.oneofs[f['oneof']] if f['oneof'] >= 0 else None
                if x.containing_oneof is not None:
                    x.containing_oneof.fields.append(x)
                x.enum_type = self.enums.get(x.type_name)
                x.message_type = None
                x.containing_type = d
                x._opts = Options([])
                x.cpp_type = CPP[x.type]
                d.fields.append(x)
            d.fields_by_name = {f.name: f for f in d.fields}
            d.oneofs_by_name = {o.name: o for o in d.oneofs}
            d._opts = Options([])
            self.m[fq] = d
        for d in self.m.values():
            for f in d.fields:
                if f.type == 11:
                    f.message_type = self.m[f.type_name]

    def make(self, fq, j, parent=None):
        d = self.m[fq]
        if fq in ('google.protobuf.Duration', 'google.protobuf.Timestamp'):
            if j is None:
                return Time(d, dc=(0, 0))
            return Time(d, sym=j.get('dsym'), dc=tuple(j['dc']) if 'dc' in j else None)
        r = Rule(self, d)
        for k, v in (j or {}).items():
            if k not in d.fields_by_name:
                undecided('the rule %s of %s is not in the rule schema' % (k, fq))
            f = d.fields_by_name[k]
            if f.label == 3:
                r._v[k] = Repeated(self.make(f.type_name, x) if f.type == 11 else scalar(x, f.type) for x in v)
            elif f.type == 11:
                r._v[k] = self.make(f.type_name, v, (r, k))
                if isinstance(r._v[k], Rule):
                    r._v[k].__dict__['_up'] = None
            else:
                r._v[k] = scalar(v, f.type)
        return r


class Rule:
    """A rule message."""

    def __init__(self, rules, desc, up=None):
        self.__dict__.update(_r=rules, DESCRIPTOR=desc, _v={}, _up=up)

    def _attach(self):
        if self._up is not None:
            m, k = self._up
            m._v[k] = self
            self.__dict__['_up'] = None
            m._attach()

    def HasField(self, n):
        d = self.DESCRIPTOR
        if n in d.oneofs_by_name:
            return any(f.name in self._v for f in d.oneofs_by_name[n].fields)
        if n not in d.fields_by_name:
            raise ValueError('Protocol message %s has no field %s.' % (d.name, n))
        if d.fields_by_name[n].label == 3:
            raise ValueError('Protocol message has no singular field ' + n)
        return n in self._v

    def WhichOneof(self, n):
        for f in self.DESCRIPTOR.oneofs_by_name[n].fields:
            if f.name in self._v:
                return f.name
        return None

    def ListFields(self):
        return [(f, self._v[f.name]) for f in self.DESCRIPTOR.fields if f.name in self._v and (f.label != 3 or self._v[f.name])]

    def ByteSize(self):
        return len(str(self))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        f = self.DESCRIPTOR.fields_by_name.get(k)
        if f is None:
            raise AttributeError('%r object has no attribute %r' % (self.DESCRIPTOR.name, k))
        if k in self._v:
            return self._v[k]
        if f.label == 3:
            return Repeated()
        if f.type == 11:
            if f.type_name.startswith('google.'):
                return Time(f.message_type, dc=(0, 0))
            return Rule(self._r, f.message_type, (self, k))
        return f.default_value

    def __setattr__(self, k, v):
        f = self.DESCRIPTOR.fields_by_name.get(k)
        if f is None or f.label == 3 or f.type == 11:
            raise AttributeError('assignment not allowed to ' + k)
        self._v[k] = v
        self._attach()

    def ClearField(self, k):
        self._v.pop(k, None)

    def CopyFrom(self, o):
        import copy
        self.__dict__['_v'] = dict(o._v)
        self._attach()

    def __str__(self):
        out = []
        for f, v in self.ListFields():
            for x in v if f.label == 3 else [v]:
                if f.type == 11:
                    out.append('%s {\n%s}\n' % (f.name, x))
                else:
                    out.append('%s: %s\n' % (f.name, repr(x) if isinstance(x, (str, bytes)) else x))
        return ''.join(out)

    def __repr__(self):
        return str(self)

    def __eq__(self, o):
        if not isinstance(o, Rule):
            return NotImplemented
        return self.DESCRIPTOR is o.DESCRIPTOR and str(self) == str(o)

    __hash__ = None


def truth(v):
    return bool(v)


# --- the language -----------------------------------------------------------

class Frame:
    def __init__(self, glob, locs, up=None, cls=False, code=False):
        self.g, self.l, self.up = glob, locs, up
        self.globals = set()
        self.nonlocals = set()
        self.cls = cls
        self.code = code  # code run by exec
        self.names = None  # names local to a function
        self.exc = None


class Ret(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Fn:
    pass


class Code:
    def __init__(self, tree):
        self.tree = tree


OPS = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b, 'FloorDiv': lambda a, b: a // b,
    'Mod': lambda a, b: a % b, 'Pow': lambda a, b: a ** b, 'BitOr': lambda a, b: a | b, 'BitAnd': lambda a, b: a & b, 'BitXor': lambda a, b: a ^ b,
    'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b,
}
JOPS = {'+': 'Add', '-': 'Sub', '*': 'Mult', '/': 'Div', '//': 'FloorDiv', '%': 'Mod', '**': 'Pow'}
MAXSTEPS = 6000000


class Marker:
    def __init__(self, n):
        self.n = n


class Canon:
    """The lower case text of a UUID."""

    def __init__(self, sym):
        self.sym = sym

    def __eq__(self, o):
        if isinstance(o, Canon):
            return self.sym.name == o.sym.name or undecided('whether UUIDs are equal')
        undecided('the text of a UUID')

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class UUIDVal:
    def __init__(self, sym):
        self.sym = sym


class IPAddr:
    scope_id = None

    def __init__(self, v):
        self.version = v


class Host:
    """Interprets the module and answers its templates."""

    def __init__(self, tree):
        self.steps = 0
        self.tree = tree
        self.seen = set()
        self.asts = {}
        self.depth = 0
        self.b = {n: getattr(builtins, n) for n in (
            'ArithmeticError AssertionError AttributeError BaseException Exception IndexError KeyError LookupError NameError NotImplementedError OverflowError RecursionError '
            'RuntimeError StopIteration SyntaxError TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError UnicodeError ValueError ZeroDivisionError '
            'all any bool bytearray bytes callable chr dict divmod enumerate filter float format frozenset getattr hasattr hash id int isinstance issubclass iter len list map max min next '
            'object ord pow property range repr reversed round set setattr slice sorted staticmethod classmethod str sum tuple type zip Ellipsis NotImplemented').split()}
        for n in ('exec', 'eval', 'compile', 'locals', 'globals', 'vars', 'super'):
            self.b[n] = Marker(n)
        self.b['print'] = lambda *a, **k: None
        self.special = {len: self.len, isinstance: self.isinstance, int: self.to_int, float: self.to_float, round: self.round, abs: self.abs,
                        getattr: self.b_getattr, hasattr: self.b_hasattr, str: self.b_str, repr: self.b_repr, bool: self.b_bool, bytes: self.b_bytes}
        self.g = {'__name__': 'protoc_gen_validate.validator', '__builtins__': self.b}
        self.run(tree, Frame(self.g, self.g))

    # services to the templates
    undecided = staticmethod(undecided)

    def step(self):
        self.steps += 1
        if self.steps > MAXSTEPS:
            undecided('an unbounded computation')

    def text(self, v):
        return str(v)

    truth = staticmethod(truth)

    def items(self, v):
        return list(v)

    def getattr(self, o, k):
        return getattr(o, k)

    def getitem(self, o, k):
        return o[k]

    def compare(self, op, a, b):
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        if op == '>=':
            return a >= b
        if op == 'in':
            return self.contains(b, a)
        if op == 'notin':
            return not self.contains(b, a)
        raise AssertionError(op)

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, Sym) and x.kind == 'text':
            undecided('whether a text contains a symbolic one')
        return x in c

    def binop(self, op, a, b):
        return OPS[JOPS[op]](a, b)

    # builtins on abstract values
    def len(self, v):
        if isinstance(v, Sym):
            if v.kind == 'text':
                return measured(v, 'runes')
            if v.kind == 'bytes':
                return measured(v, 'bytes')
            raise TypeError('object of type %r has no len()' % v.kind)
        if isinstance(v, Encoded):
            return measured(v.sym, 'bytes')
        if isinstance(v, Sized):
            return Sym('size:' + v.sym, 'int')
        if isinstance(v, str) and HOLE.search(v):
            undecided('the length of a text made of symbols')
        return len(v)

    def isinstance(self, v, c):
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(v, Sym):
            have = {'int': (int, object), 'float': (float, object), 'text': (str, object), 'bytes': (bytes, object)}[v.kind]
            return any(x in have for x in cs)
        if isinstance(v, Encoded):
            return bytes in cs
        if isinstance(v, Lin):
            undecided('the type of a time')
        if self.message in cs:
            return isinstance(v, (Msg, Rule))
        return isinstance(v, tuple(x for x in cs if isinstance(x, type)))

    def to_int(self, v=0, *a):
        if isinstance(v, Sym) and v.kind == 'int':
            return v
        if isinstance(v, Sym):
            undecided('the whole part of ' + v.name)
        if isinstance(v, Lin):
            if set(v.t) == {('now', 'now')}:
                return v
            undecided('the whole part of a time')
        return int(v, *a)

    def to_float(self, v=0.0):
        if isinstance(v, Sym) and v.kind == 'float':
            return v
        if isinstance(v, Sym):
            undecided('the rounding of ' + v.name)
        if isinstance(v, Lin):
            return v._scale(1, False)
        return float(v)

    def round(self, v, n=None):
        if isinstance(v, Lin):
            if n == 9 or set(v.t) == {('now', 'now')}:
                return v
            undecided('a rounded time')
        if isinstance(v, Sym):
            undecided('the rounding of ' + v.name)
        return round(v, n) if n is not None else round(v)

    def abs(self, v):
        if isinstance(v, (Sym, Lin)):
            undecided('an absolute value')
        return abs(v)

    def b_getattr(self, o, k, *d):
        return getattr(o, k, *d)

    def b_hasattr(self, o, k):
        return hasattr(o, k)

    def b_str(self, v='', *a):
        if isinstance(v, UUIDVal):
            return Canon(v.sym)
        return str(v, *a)

    def b_repr(self, v):
        return repr(v)

    def b_bool(self, v=False):
        return bool(v)

    def b_bytes(self, v=b'', *a):
        if isinstance(v, Sym):
            return v if v.kind == 'bytes' else Encoded(v)
        return bytes(v, *a)

    # modules
    class message:
        pass

    def module(self, name):
        m = types.SimpleNamespace()
        h = self
        if name == 're':
            def search(pat, s, flags=0):
                return h.regex('search', pat, s, flags)
            m.search = search
            m.match = lambda p, s, flags=0: h.regex('match', p, s, flags)
            m.fullmatch = lambda p, s, flags=0: h.regex('fullmatch', p, s, flags)
            m.escape = re.escape
            m.error = re.error
            for n in ('IGNORECASE', 'I', 'MULTILINE', 'M', 'DOTALL', 'S', 'ASCII', 'A', 'UNICODE', 'U', 'VERBOSE', 'X'):
                setattr(m, n, getattr(re, n))
            def plain(n):
                def f(*a, **k):
                    if any(isinstance(x, (Sym, Encoded, Decoded)) or isinstance(x, str) and HOLE.search(x) for x in list(a) + list(k.values())):
                        undecided('re.%s of a symbolic text' % n)
                    return getattr(re, n)(*a, **k)
                return f
            whole = {n: plain(n) for n in ('sub', 'subn', 'split', 'findall', 'finditer')}
            for n in whole:
                setattr(m, n, whole[n])

            def comp(p, flags=0):
                re.compile(p, flags)
                c = types.SimpleNamespace(pattern=p, flags=flags)
                c.search = lambda s: h.regex('search', p, s, flags)
                c.match = lambda s: h.regex('match', p, s, flags)
                c.fullmatch = lambda s: h.regex('fullmatch', p, s, flags)
                c.sub = lambda r, s, count=0: whole['sub'](p, r, s, count, flags)
                c.subn = lambda r, s, count=0: whole['subn'](p, r, s, count, flags)
                c.split = lambda s, maxsplit=0: whole['split'](p, s, maxsplit, flags)
                c.findall = lambda s: whole['findall'](p, s, flags)
                c.finditer = lambda s: whole['finditer'](p, s, flags)
                return c
            m.compile = comp
        elif name == 'struct':
            def pack(f, *a):
                if any(isinstance(x, (Sym, Lin)) for x in a):
                    return ('packed', f, a)
                return struct.pack(f, *a)

            def unpack(f, b):
                if isinstance(b, tuple) and b and b[0] == 'packed':
                    if b[1] != f or f.lstrip('<>=!@') not in ('f', 'd'):
                        undecided('the packing ' + f)
                    return b[2]
                return struct.unpack(f, b)
            m.pack, m.unpack = pack, unpack
            m.error = struct.error
        elif name == 'sys':
            m.version_info = sys.version_info
            m.maxsize = sys.maxsize
        elif name == 'time':
            m.time = lambda: now_lin(Fraction(1, 10**9), False)
            m.time_ns = lambda: now_lin(1, True)
        elif name == 'uuid':
            def UUID(x=None, **k):
                if isinstance(x, Sym):
                    if x.kind != 'text':
                        raise AttributeError('replace')
                    if not fact('uuid', x):
                        raise ValueError('badly formed hexadecimal UUID string')
                    return UUIDVal(x)
                return uuid.UUID(x, **k)
            m.UUID = UUID
        elif name == 'ipaddress':
            def ip(x, want=None):
                if isinstance(x, Sym) and x.kind in ('text', 'bytes'):
                    ok = fact('ip', x)
                    v = 4 if ok and fact('v4', x) else 6
                    if not ok or want and v != want:
                        raise ipaddress.AddressValueError('%r does not appear to be an address' % x.name)
                    return IPAddr(v)
                return (ipaddress.ip_address if want is None else ipaddress.IPv4Address if want == 4 else ipaddress.IPv6Address)(x)
            m.ip_address = lambda a: ip(a)
            m.IPv4Address = lambda a: ip(a, 4)
            m.IPv6Address = lambda a: ip(a, 6)
            m.AddressValueError = ipaddress.AddressValueError
        elif name == 'urllib.parse' or name == 'urllib':
            def parse(u, *a, **k):
                if isinstance(u, Sym):
                    undecided('the parts of a symbolic URI')
                import urllib.parse as up
                return up.urlparse(u, *a, **k)
            m.urlparse = parse
            m.urlsplit = parse
            if name == 'urllib':
                q = types.SimpleNamespace(parse=m)
                return q
        elif name == 'functools':
            def lru(*a, **k):
                if len(a) == 1 and callable(a[0]) and not k:
                    return h.cached(a[0])
                return lambda f: h.cached(f)
            m.lru_cache = lru
            m.cache = lambda f: h.cached(f)
            m.wraps = lambda f: (lambda g: g)
            m.partial = lambda f, *a, **k: (lambda *b, **l: f(*a, *b, **{**k, **l}))
            import functools
            m.reduce = functools.reduce
        elif name == 'google.protobuf.message':
            m.Message = self.message
        elif name == 'jinja2':
            m.Template = lambda src, **k: h.template(src, k)
            m.Environment = lambda **k: JEnv(h, k)
            m.StrictUndefined = m.Undefined = object
        elif name == 'validate_email':
            def ve(a, **k):
                return fact('rfc', a)
            m.validate_email = ve
        elif name in ('typing', '__future__', 'collections', 'keyword', 'enum', 'contextlib', 'operator', 'string', 'itertools', 'textwrap', 'json', 'math', 'decimal', 'fractions'):
            import importlib
            return importlib.import_module(name)
        elif name == 'threading':
            class L:
                def __enter__(s):
                    return s

                def __exit__(s, *a):
                    return False

                def acquire(s, *a, **k):
                    return True

                def release(s):
                    pass
            m.Lock = m.RLock = L
        else:
            undecided('the module ' + name)
        return m

    def template(self, src, opts):
        for k in opts:
            undecided('the template option ' + k)
        return Template(self, src)

    def cached(self, f):
        store = {}

        def g(*a, **k):
            key = (a, tuple(sorted(k.items())))
            if key not in store:
                store[key] = f(*a, **k)
            return store[key]
        g.cache_clear = store.clear
        g.__wrapped__ = f
        g.store = store
        return g

    def regex(self, how, pat, s, flags):
        if isinstance(pat, types.SimpleNamespace):
            flags, pat = flags | pat.flags, pat.pattern
        if isinstance(pat, Sym):
            undecided('a symbolic pattern')
        re.compile(pat, flags)
        if isinstance(s, (Sym, Encoded, Decoded)):
            if isinstance(s, Decoded):
                text, s = True, s.sym
            else:
                text = not isinstance(s, Encoded) and s.kind == 'text'
            if isinstance(s, Encoded) or text != isinstance(pat, str):
                raise TypeError('cannot use a string pattern on a bytes-like object')
            if flags:
                undecided('a pattern with flags')
            want = canon(pat, how=how)
            for k, v in E.fact.items():
                if k[0] == 'match' and k[1] == ('s', s.name) and canon(k[2][1] if isinstance(pat, bytes) else k[2][1].decode('utf-8', 'surrogateescape'), True) == want:
                    return Marker('match') if v else None
            undecided('whether %s matches %r' % (s.name, pat))
        return getattr(re, how)(pat, s, flags)

    # evaluation
    def parse(self, src, name):
        if not isinstance(src, str):
            undecided('code that is not text')
        if src not in self.asts:
            self.asts[src] = ast.parse(src, name)
        return self.asts[src]

    def run(self, tree, fr):
        self.block(tree.body, fr)

    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, n, fr):
        self.step()
        getattr(self, 's_' + type(n).__name__, self.s_unknown)(n, fr)

    def s_unknown(self, n, fr):
        undecided('the statement %s' % type(n).__name__)

    def s_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, fr)

    def s_Pass(self, n, fr):
        pass

    def s_Import(self, n, fr):
        for a in n.names:
            m = self.module(a.name)
            if a.asname is None and '.' in a.name:
                m = self.module(a.name.split('.')[0])
            self.store(a.asname or a.name.split('.')[0], m, fr)

    def s_ImportFrom(self, n, fr):
        for a in n.names:
            if n.module == 'urllib' and a.name == 'parse':
                v = self.module('urllib.parse')
            elif n.module == 'google.protobuf' and a.name == 'message':
                v = self.module('google.protobuf.message')
            else:
                m = self.module(n.module)
                if not hasattr(m, a.name):
                    undecided('%s of the module %s' % (a.name, n.module))
                v = getattr(m, a.name)
            self.store(a.asname or a.name, v, fr)

    def s_FunctionDef(self, n, fr):
        f = Fn()
        f.name, f.node, f.frame = n.name, n, fr
        f.generated = fr.code
        a = n.args
        f.defaults = [self.ev(x, fr) for x in a.defaults]
        f.kwdefaults = [None if x is None else (self.ev(x, fr),) for x in a.kw_defaults]
        f.names = localnames(n)
        f.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(n))
        v = self.wrap(f)
        for d in reversed(n.decorator_list):
            v = self.ev(d, fr)(v)
        self.store(n.name, v, fr)

    def wrap(self, f):
        h = self

        def call(*a, **k):
            return h.invoke(f, a, k)
        call.__name__ = f.name
        call._fn = f
        return call

    def invoke(self, f, a, k):
        self.seen.add(f.name)
        if f.generated and a and isinstance(a[0], Opaque) and not a[0].DESCRIPTOR.off:
            if fact('invalid', Sym(a[0].sym, 'int')):
                raise self.g['ValidationFailed']('embedded')
            return None
        ar = f.node.args
        pos = [x.arg for x in ar.posonlyargs + ar.args]
        locs = {}
        a = list(a)
        if len(a) > len(pos):
            if ar.vararg is None:
                raise TypeError('%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(a)))
            locs[ar.vararg.arg] = tuple(a[len(pos):])
            a = a[:len(pos)]
        elif ar.vararg is not None:
            locs[ar.vararg.arg] = ()
        for n, v in zip(pos, a):
            locs[n] = v
        extra = {}
        kwonly = [x.arg for x in ar.kwonlyargs]
        for n, v in k.items():
            if n in locs:
                raise TypeError('%s() got multiple values for argument %r' % (f.name, n))
            if n in pos or n in kwonly:
                locs[n] = v
            elif ar.kwarg is not None:
                extra[n] = v
            else:
                raise TypeError('%s() got an unexpected keyword argument %r' % (f.name, n))
        if ar.kwarg is not None:
            locs[ar.kwarg.arg] = extra
        for n, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            locs.setdefault(n, d)
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in locs and d is not None:
                locs[n] = d[0]
        for n in pos + kwonly:
            if n not in locs:
                raise TypeError('%s() missing a required argument: %r' % (f.name, n))
        up = f.frame
        fr = Frame(up.g, locs, None if up.l is up.g or up.code else up)
        fr.names = f.names
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            undecided('unbounded recursion')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if f.gen:
                fr.yields = []
                try:
                    self.block(f.node.body, fr)
                except Ret:
                    pass
                return iter(fr.yields)
            try:
                self.block(f.node.body, fr)
            except Ret as r:
                return r.args[0]
            return None
        finally:
            self.depth -= 1

    def s_ClassDef(self, n, fr):
        bases = tuple(self.ev(b, fr) for b in n.bases) or (object,)
        body = Frame(fr.g, {}, fr if fr.l is not fr.g else None, cls=True)
        for s in n.body:
            self.stmt(s, body)
        d = dict(body.l)
        if '__eq__' in d and '__hash__' not in d:
            d['__hash__'] = None
        c = type(n.name, bases, d)
        for x in reversed(n.decorator_list):
            c = self.ev(x, fr)(c)
        self.store(n.name, c, fr)

    def s_Return(self, n, fr):
        raise Ret(None if n.value is None else self.ev(n.value, fr))

    def s_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, fr), fr)

    def s_AugAssign(self, n, fr):
        import copy
        t = copy.copy(n.target)
        t.ctx = ast.Load()
        a = self.ev(t, fr)
        b = self.ev(n.value, fr)
        if isinstance(a, list) and isinstance(n.op, ast.Add):
            a += list(b)
            v = a
        else:
            v = self.bin(n.op, a, b)
        self.assign(n.target, v, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                parts = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            if len(vs) != len(t.elts):
                raise ValueError('wrong number of values to unpack')
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if isinstance(o, (Repeated, Map)):
                undecided('a changed collection')
            o[self.ev(t.slice, fr)] = v
        else:
            undecided('an assignment')

    def store(self, n, v, fr):
        if n in fr.globals:
            fr.g[n] = v
        elif n in fr.nonlocals:
            f = fr.up
            while f is not None:
                if n in f.l:
                    f.l[n] = v
                    return
                f = f.up
        else:
            fr.l[n] = v

    def s_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                del fr.l[t.id]
            elif isinstance(t, ast.Subscript):
                del self.ev(t.value, fr)[self.ev(t.slice, fr)]
            else:
                undecided('a deletion')

    def s_Global(self, n, fr):
        fr.globals |= set(n.names)

    def s_Nonlocal(self, n, fr):
        fr.nonlocals |= set(n.names)

    def s_If(self, n, fr):
        self.block(n.body if truth(self.ev(n.test, fr)) else n.orelse, fr)

    def s_For(self, n, fr):
        for x in iter(self.ev(n.iter, fr)):
            self.step()
            self.assign(n.target, x, fr)
            try:
                self.block(n.body, fr)
            except Break:
                return
            except Continue:
                pass
        self.block(n.orelse, fr)

    def s_While(self, n, fr):
        while truth(self.ev(n.test, fr)):
            self.step()
            try:
                self.block(n.body, fr)
            except Break:
                return
            except Continue:
                pass
        self.block(n.orelse, fr)

    def s_Break(self, n, fr):
        raise Break()

    def s_Continue(self, n, fr):
        raise Continue()

    def s_Assert(self, n, fr):
        if not truth(self.ev(n.test, fr)):
            raise AssertionError(self.ev(n.msg, fr) if n.msg else '')

    def s_Raise(self, n, fr):
        if n.exc is None:
            if fr.exc is None:
                raise RuntimeError('No active exception to reraise')
            raise fr.exc
        e = self.ev(n.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise TypeError('exceptions must derive from BaseException')
        raise e

    def s_With(self, n, fr):
        def go(items):
            if not items:
                return self.block(n.body, fr)
            m = self.ev(items[0].context_expr, fr)
            if not hasattr(m, '__enter__'):
                undecided('a context manager')
            v = m.__enter__()
            if items[0].optional_vars is not None:
                self.assign(items[0].optional_vars, v, fr)
            try:
                go(items[1:])
            finally:
                m.__exit__(None, None, None)
        go(n.items)

    def s_Try(self, n, fr):
        try:
            try:
                self.block(n.body, fr)
            except (Ret, Break, Continue):
                raise
            except Exception as e:
                for h in n.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ok = isinstance(e, t if isinstance(t, tuple) else (t,))
                    if ok:
                        old = fr.exc
                        fr.exc = e
                        if h.name:
                            self.store(h.name, e, fr)
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.exc = old
                            if h.name:
                                fr.l.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(n.orelse, fr)
        finally:
            if n.finalbody:
                self.block(n.finalbody, fr)

    # expressions
    def ev(self, n, fr):
        self.step()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            undecided('the expression %s' % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, str) and v in holes and isinstance(holes[v], Sym) and holes[v].kind == 'text':
            return holes[v]
        if isinstance(v, bytes):
            s = v.decode('latin1')
            if s in holes and isinstance(holes[s], Sym) and holes[s].kind == 'bytes':
                return holes[s]
        return v

    def e_Name(self, n, fr):
        return self.load(n.id, fr)

    def load(self, name, fr):
        f = fr
        if name in fr.globals:
            f = None
        first = True
        while f is not None:
            if name in f.l and not (f.cls and not first):
                return f.l[name]
            if f is fr and f.names is not None and name in f.names and name not in f.nonlocals:
                raise UnboundLocalError("local variable '%s' referenced before assignment" % name)
            first = False
            f = f.up
        if name in fr.g:
            return fr.g[name]
        if name in holes:
            return holes[name]
        if name in self.b:
            return self.b[name]
        raise NameError("name '%s' is not defined" % name)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        if isinstance(o, Marker):
            undecided('the attribute %s of a %s' % (n.attr, o.n))
        return getattr(o, n.attr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return o[self.ev(n.slice, fr)]

    def e_Slice(self, n, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_Index(self, n, fr):
        return self.ev(n.value, fr)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = self.ev(x, fr)
            if truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not truth(v)
        if isinstance(v, Sym):
            if isinstance(n.op, ast.UAdd):
                return v
            undecided('the negation of ' + v.name)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def bin(self, op, a, b):
        return OPS[type(op).__name__](a, b)

    def e_BinOp(self, n, fr):
        return self.bin(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def e_Compare(self, n, fr):
        a = self.ev(n.left, fr)
        r = True
        for op, x in zip(n.ops, n.comparators):
            b = self.ev(x, fr)
            k = type(op).__name__
            if k == 'Is':
                r = a is b
            elif k == 'IsNot':
                r = a is not b
            elif k == 'In':
                r = self.contains(b, a)
            elif k == 'NotIn':
                r = not self.contains(b, a)
            else:
                r = self.compare({'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[k], a, b)
            if not truth(r):
                return r
            a = b
        return r

    def e_IfExp(self, n, fr):
        return self.ev(n.body if truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.store(n.target.id, v, fr)
        return v

    def seq(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, n, fr):
        return self.seq(n.elts, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.seq(n.elts, fr))

    def e_Set(self, n, fr):
        return set(self.seq(n.elts, fr))

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_JoinedStr(self, n, fr):
        out = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                v = self.ev(x.value, fr)
                if x.conversion == 114:
                    v = repr(v)
                elif x.conversion == 115:
                    v = str(v)
                spec = self.ev(x.format_spec, fr) if x.format_spec is not None else ''
                out.append(format(v, spec))
        return ''.join(out)

    def e_Lambda(self, n, fr):
        f = Fn()
        f.name, f.node, f.frame, f.generated, f.gen = '<lambda>', n, fr, False, False
        f.defaults = [self.ev(x, fr) for x in n.args.defaults]
        f.kwdefaults = [None if x is None else (self.ev(x, fr),) for x in n.args.kw_defaults]
        f.names = None
        return self.wrap(f)

    def comp(self, gens, fr, leaf):
        inner = Frame(fr.g, {}, fr if not (fr.l is fr.g) else None)
        out = []

        def go(i):
            if i == len(gens):
                out.append(leaf(inner))
                return
            g = gens[i]
            for x in iter(self.ev(g.iter, inner if i else fr)):
                self.step()
                self.assign(g.target, x, inner)
                if all(truth(self.ev(c, inner)) for c in g.ifs):
                    go(i + 1)
        go(0)
        return out

    def e_ListComp(self, n, fr):
        return self.comp(n.generators, fr, lambda f: self.ev(n.elt, f))

    def e_SetComp(self, n, fr):
        return set(self.comp(n.generators, fr, lambda f: self.ev(n.elt, f)))

    def e_GeneratorExp(self, n, fr):
        # lazily, as any() and all() stop early
        inner = Frame(fr.g, {}, fr if not (fr.l is fr.g) else None)
        first = iter(self.ev(n.generators[0].iter, fr))

        def go(i):
            if i == len(n.generators):
                yield self.ev(n.elt, inner)
                return
            g = n.generators[i]
            for x in first if i == 0 else iter(self.ev(g.iter, inner)):
                self.assign(g.target, x, inner)
                if all(truth(self.ev(c, inner)) for c in g.ifs):
                    yield from go(i + 1)
        return go(0)

    def e_DictComp(self, n, fr):
        return dict(self.comp(n.generators, fr, lambda f: (self.ev(n.key, f), self.ev(n.value, f))))

    def e_Yield(self, n, fr):
        fr.yields.append(None if n.value is None else self.ev(n.value, fr))

    def e_YieldFrom(self, n, fr):
        fr.yields.extend(self.ev(n.value, fr))

    def e_Call(self, n, fr):
        f = self.ev(n.func, fr)
        a = self.seq(n.args, fr)
        k = {}
        for x in n.keywords:
            if x.arg is None:
                k.update(self.ev(x.value, fr))
            else:
                k[x.arg] = self.ev(x.value, fr)
        if isinstance(f, Marker):
            return self.marked(f.n, a, k, fr)
        return self.call(f, a, k)

    def marked(self, n, a, k, fr):
        if n == 'locals':
            return fr.l
        if n == 'globals':
            return fr.g
        if n == 'compile':
            if (a[2] if len(a) > 2 else k.get('mode')) != 'exec':
                undecided('compile')
            return Code(self.parse(a[0], '<string>'))
        if n == 'exec':
            tree = a[0].tree if isinstance(a[0], Code) else self.parse(a[0], '<string>')
            g = a[1] if len(a) > 1 else k.get('globals')
            l = a[2] if len(a) > 2 else k.get('locals')
            if g is None:
                g, l = fr.g, fr.l
            elif l is None:
                l = g
            e = Frame(g, l, None, code=True)
            self.run(tree, e)
            return None
        undecided('a call of ' + n)

    def call(self, f, a, k):
        if isinstance(f, Marker):
            undecided('a call of ' + f.n)
        try:
            s = self.special.get(f)
        except TypeError:
            s = None
        if s is not None:
            return s(*a, **k)
        if isinstance(f, types.MethodType) or isinstance(f, types.BuiltinMethodType):
            o = getattr(f, '__self__', None)
            if isinstance(o, str) and HOLE.search(o) and f.__name__ not in ('format', 'join', 'splitlines', 'strip', 'rstrip', 'lstrip', 'replace', 'split'):
                undecided('%s of a text made of symbols' % f.__name__)
            if isinstance(o, str) and any(isinstance(x, Sym) for x in a):
                if f.__name__ in ('startswith', 'endswith', '__contains__'):
                    undecided('%s of a symbolic text' % f.__name__)
                if f.__name__ == 'join':
                    a = [[str(y) for y in x] for x in a]
            if isinstance(o, str) and f.__name__ == 'join' and a:
                xs = list(a[0])
                a = [[str(x) if isinstance(x, Sym) and x.kind == 'text' else x for x in xs]]
        return f(*a, **k)


class JEnv:
    def __init__(self, h, k):
        for n, v in k.items():
            if n in ('autoescape',) and v:
                undecided('the template option ' + n)
            if n not in ('autoescape', 'undefined', 'keep_trailing_newline', 'extensions', 'loader') or n == 'keep_trailing_newline' and v:
                undecided('the template option ' + n)
        self.h, self.filters, self.globals = h, {}, {}

    def from_string(self, src, globals=None):
        return Template(self.h, src, {'filters': self.filters, 'globals': dict(self.globals, **(globals or {}))})


try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre
canons = {}
DIGIT, WORD, SPACE = [(48, 57)], [(48, 57), (65, 90), (95, 95), (97, 122)], [(9, 13), (32, 32)]
SPACE2 = [(9, 10), (12, 13), (32, 32)]
TOP = 0x10ffff


def complement(iv):
    out, at = [], 0
    for a, b in iv:
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= TOP:
        out.append((at, TOP))
    return out


def union(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def canon(p, re2=False, how='search'):
    """Patterns of one meaning have one form; p is an RE2 pattern or one of Python's."""
    k = (type(p), p, re2, how)
    if k in canons:
        return canons[k]
    raw = isinstance(p, bytes)
    try:
        if re2:
            try:
                p = re.sub(r'\\z' if not raw else rb'\\z', lambda m: m.group()[:1] + (b'Z' if raw else 'Z'), p)
            except re.error:
                pass
        tree = sre.parse(p)
    except re.error:
        canons[k] = ('text', p)
        return canons[k]
    flags = tree.state.flags if hasattr(tree, 'state') else tree.pattern.flags
    multi, ascii = flags & re.MULTILINE, raw or flags & re.ASCII

    def chars(items):
        neg, iv, rest = False, [], []
        for op, a in items:
            op = str(op)
            if op == 'NEGATE':
                neg = True
            elif op == 'LITERAL':
                iv.append((a, a))
            elif op == 'RANGE':
                iv.append(tuple(a))
            elif op == 'CATEGORY' and (re2 or ascii):
                c = str(a)
                x = DIGIT if 'DIGIT' in c else WORD if 'WORD' in c else SPACE2 if re2 else SPACE
                iv.extend(complement(x) if '_NOT_' in c else x)
            else:
                rest.append((op, str(a)))
        iv = union(iv)
        if rest:
            return ('in', neg, iv, sorted(rest))
        return ('chars', complement(iv) if neg else iv)

    def form(t):
        out = []
        for op, a in t:
            o = str(op)
            if o in ('LITERAL', 'IN', 'NOT_LITERAL'):
                out.append(chars([(op, a)] if o == 'LITERAL' else [('NEGATE', None), ('LITERAL', a)] if o == 'NOT_LITERAL' else a))
            elif o == 'AT':
                w = str(a)
                if re2 and w == 'AT_END' and not multi:
                    w = 'AT_END_STRING'
                if w == 'AT_BEGINNING' and not multi:
                    w = 'AT_BEGINNING_STRING'
                if 'BOUNDARY' in w:
                    w += ' ascii' if re2 or ascii else ' unicode'
                out.append((o, w))
            else:
                out.append((o, deep(a)))
        return out

    def deep(a):
        if isinstance(a, sre.SubPattern):
            return form(a)
        if isinstance(a, (list, tuple)):
            return [deep(x) for x in a]
        return str(a)

    body = form(tree)
    if how != 'search' and any(x[0] == 'BRANCH' for x in body):
        return ('anchored', p)
    if how != 'search' and body[:1] != [('AT', 'AT_BEGINNING_STRING')]:
        body = [('AT', 'AT_BEGINNING_STRING')] + body
    if how == 'fullmatch' and body[-1:] != [('AT', 'AT_END_STRING')]:
        body = [x for x in body if x != body[-1] or x != ('AT', 'AT_END')] if body[-1] == ('AT', 'AT_END') else body
        body = body + [('AT', 'AT_END_STRING')]
    r = repr((body, int(flags & (re.I | re.M | re.S | re.X))))
    # RE2 reads bytes as UTF-8, Python one by one.
    if raw and re2 and any(n in r for n in ("'ANY'", "1114111")):
        r = ('of characters', p)
    canons[k] = r
    return r


def own(fn):
    """The nodes of a function without those of inner ones."""
    out = []
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return out


def localnames(fn):
    names, glob = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        names.add(x.arg)
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                names.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.comprehension):
            for y in ast.walk(n.target):
                if isinstance(y, ast.Name):
                    glob.add(y.id) if False else None
    return names - glob
