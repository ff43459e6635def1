"""Jinja templates over abstract values.

The template language's own rules (white space control, scoping, filters,
undefined names) are those of the library's documentation.
"""
import re


class TemplateError(Exception):
    """What the library reports for a template it refuses."""


class UndefinedError(Exception):
    pass


class Undefined:
    def __init__(self, name=''):
        self._n = name

    def __bool__(self):
        return False

    def __str__(self):
        return ''

    __repr__ = lambda self: 'Undefined'

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, Undefined)

    def __hash__(self):
        return 1

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise UndefinedError('%r is undefined' % self._n)

    def __getitem__(self, k):
        raise UndefinedError('%r is undefined' % self._n)

    def __call__(self, *a, **k):
        raise UndefinedError('%r is undefined' % self._n)


TOK = re.compile(r'''\s+|(?P<num>\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)|(?P<str>'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")|(?P<name>[A-Za-z_]\w*)|(?P<op>\*\*|//|==|!=|<=|>=|[-+*/%~<>=.,:;()\[\]{}|])''', re.S)


def lex(src):
    """Splits a template into text, print and block tokens."""
    src = src.replace('\r\n', '\n').replace('\r', '\n')
    if src.endswith('\n'):
        src = src[:-1]
    out = []
    i = 0
    strip = False

    def text(t):
        if strip:
            t = t.lstrip()
        return t
    while True:
        j = len(src)
        kind = None
        for k in ('{{', '{%', '{#'):
            n = src.find(k, i)
            if n >= 0 and n < j:
                j, kind = n, k
        t = text(src[i:j])
        if kind is None:
            if t:
                out.append(('text', t))
            return out
        i = j + 2
        if src[i:i + 1] == '-':
            i += 1
            t = t.rstrip()
        elif src[i:i + 1] == '+':
            i += 1
        if t:
            out.append(('text', t))
        strip = False
        if kind == '{#':
            e = src.find('#}', i)
            if e < 0:
                raise TemplateError('unclosed comment')
            strip = src[e - 1] == '-'
            i = e + 2
            continue
        close = '}}' if kind == '{{' else '%}'
        toks = []
        depth = 0
        while True:
            while i < len(src) and src[i].isspace():
                i += 1
            if i >= len(src):
                raise TemplateError('unclosed tag')
            if depth == 0 and src.startswith('-' + close, i):
                i += 3
                strip = True
                break
            if depth == 0 and src.startswith(close, i):
                i += 2
                break
            m = TOK.match(src, i)
            if not m or m.end() == i:
                raise TemplateError('character %r' % src[i])
            i = m.end()
            if m.lastgroup:
                v = m.group(m.lastgroup)
                if v in '([{':
                    depth += 1
                elif v in ')]}' and m.lastgroup == 'op':
                    depth -= 1
                toks.append((m.lastgroup, v))
        out.append(('print' if kind == '{{' else 'block', toks))
        if kind == '{%' and toks == [('name', 'raw')]:
            m = re.compile(r'\{%-?\s*endraw\s*-?%\}').search(src, i)
            if not m:
                raise TemplateError('unclosed raw')
            out[-1] = ('text', src[i:m.start()])
            i = m.end()


class Expr:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def op(self, *vs):
        k, v = self.peek()
        if k == 'op' and v in vs:
            self.i += 1
            return v
        return None

    def kw(self, *vs):
        k, v = self.peek()
        if k == 'name' and v in vs:
            self.i += 1
            return v
        return None

    def need(self, v):
        k, x = self.next()
        if x != v:
            raise TemplateError('expected %s, found %r' % (v, x))

    def done(self):
        if self.i < len(self.t):
            raise TemplateError('unexpected %r' % (self.t[self.i][1],))

    def tuple(self, stop=(), cond=True):
        xs = []
        tup = False
        while True:
            k, v = self.peek()
            if k == 'end' or (k == 'op' and v in ')]}') or (k == 'name' and v in stop):
                break
            xs.append(self.cond() if cond else self.or_())
            if self.op(','):
                tup = True
            else:
                break
        if not xs and not tup:
            raise TemplateError('an expression is missing')
        return ('tuple', xs) if tup else xs[0]

    def cond(self):
        e = self.or_()
        while self.kw('if'):
            c = self.or_()
            f = self.cond() if self.kw('else') else ('undef',)
            e = ('cond', c, e, f)
        return e

    def or_(self):
        e = self.and_()
        while self.kw('or'):
            e = ('or', e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.kw('and'):
            e = ('and', e, self.not_())
        return e

    def not_(self):
        if self.peek() == ('name', 'not'):
            self.i += 1
            return ('not', self.not_())
        return self.compare()

    def compare(self):
        e = self.math1()
        ops = []
        while True:
            o = self.op('==', '!=', '<', '<=', '>', '>=')
            if o:
                ops.append((o, self.math1()))
            elif self.kw('in'):
                ops.append(('in', self.math1()))
            elif self.peek() == ('name', 'not') and self.peek(1) == ('name', 'in'):
                self.i += 2
                ops.append(('notin', self.math1()))
            else:
                break
        return ('cmp', e, ops) if ops else e

    def math1(self):
        e = self.concat()
        while True:
            o = self.op('+', '-')
            if not o:
                return e
            e = ('bin', o, e, self.concat())

    def concat(self):
        xs = [self.math2()]
        while self.op('~'):
            xs.append(self.math2())
        return xs[0] if len(xs) == 1 else ('cat', xs)

    def math2(self):
        e = self.pow()
        while True:
            o = self.op('*', '/', '//', '%')
            if not o:
                return e
            e = ('bin', o, e, self.pow())

    def pow(self):
        e = self.unary()
        while self.op('**'):
            e = ('bin', '**', e, self.unary())
        return e

    def unary(self, filt=True):
        if self.op('-'):
            e = ('neg', self.unary(False))
        elif self.op('+'):
            e = self.unary(False)
        else:
            e = self.primary()
        e = self.postfix(e)
        return self.filters(e) if filt else e

    def primary(self):
        k, v = self.next()
        if k == 'num':
            return ('const', float(v) if re.search('[.eE]', v) else int(v))
        if k == 'str':
            s = unescape(v[1:-1])
            while self.peek()[0] == 'str':
                s += unescape(self.next()[1][1:-1])
            return ('const', s)
        if k == 'name':
            if v in ('true', 'True'):
                return ('const', True)
            if v in ('false', 'False'):
                return ('const', False)
            if v in ('none', 'None'):
                return ('const', None)
            return ('name', v)
        if v == '(':
            if self.op(')'):
                return ('tuple', [])
            e = self.tuple()
            self.need(')')
            return e
        if v == '[':
            xs = []
            while not self.op(']'):
                xs.append(self.cond())
                if not self.op(','):
                    self.need(']')
                    break
            return ('list', xs)
        if v == '{':
            xs = []
            while not self.op('}'):
                a = self.cond()
                self.need(':')
                xs.append((a, self.cond()))
                if not self.op(','):
                    self.need('}')
                    break
            return ('dict', xs)
        raise TemplateError('unexpected %r' % (v,))

    def args(self):
        pos, kws = [], []
        while not self.op(')'):
            if self.peek()[0] == 'name' and self.peek(1) == ('op', '='):
                n = self.next()[1]
                self.next()
                kws.append((n, self.cond()))
            elif self.op('*'):
                pos.append(('star', self.cond()))
            elif self.op('**'):
                kws.append((None, self.cond()))
            else:
                pos.append(self.cond())
            if not self.op(','):
                self.need(')')
                break
        return pos, kws

    def postfix(self, e):
        while True:
            if self.op('.'):
                k, v = self.next()
                e = ('attr', e, v) if k == 'name' else ('item', e, ('const', int(v)))
            elif self.op('['):
                e = ('item', e, self.sub())
                self.need(']')
            elif self.op('('):
                e = ('call', e) + self.args()
            else:
                return e

    def sub(self):
        def part():
            k, v = self.peek()
            return None if k == 'op' and v in ':]' else self.cond()
        a = part()
        if not self.op(':'):
            if a is None:
                raise TemplateError('an empty subscript')
            if self.op(','):
                return ('tuple', [a, self.cond()])
            return a
        b = part()
        c = part() if self.op(':') else None
        return ('slice', a, b, c)

    def filters(self, e):
        while True:
            if self.op('|'):
                e = self.filter(e)
            elif self.kw('is'):
                neg = bool(self.kw('not'))
                n = self.next()[1]
                pos = []
                if self.op('('):
                    pos, _ = self.args()
                elif self.peek()[0] in ('name', 'str', 'num') and self.peek()[1] not in ('and', 'or', 'else', 'if', 'is', 'not', 'in'):
                    pos = [self.postfix(self.primary())]
                e = ('test', n, e, pos)
                if neg:
                    e = ('not', e)
            elif self.op('('):
                e = ('call', e) + self.args()
            else:
                return e

    def filter(self, e):
        n = self.next()[1]
        pos, kws = [], []
        if self.op('('):
            pos, kws = self.args()
        return ('filter', n, e, pos, kws)


def unescape(s):
    return s.encode('ascii', 'backslashreplace').decode('unicode-escape')


class Parser:
    def __init__(self, src):
        self.toks = lex(src)
        self.i = 0

    def block(self, ends):
        out = []
        while self.i < len(self.toks):
            k, v = self.toks[self.i]
            self.i += 1
            if k == 'text':
                out.append(('text', v))
            elif k == 'print':
                e = Expr(v)
                x = e.tuple()
                e.done()
                out.append(('print', x))
            else:
                e = Expr(v)
                w = e.next()[1]
                if w in ends:
                    return out, w, e
                out.append(self.stmt(w, e))
        if ends:
            raise TemplateError('missing %s' % ' or '.join(ends))
        return out, None, None

    def stmt(self, w, e):
        if w == 'if':
            arms = []
            c = e.tuple()
            e.done()
            while True:
                body, end, e2 = self.block(('elif', 'else', 'endif'))
                arms.append((c, body))
                if end == 'elif':
                    c = e2.tuple()
                    e2.done()
                    continue
                other = []
                if end == 'else':
                    other, _, _ = self.block(('endif',))
                return ('if', arms, other)
        if w == 'for':
            names = self.target(e)
            e.need('in')
            it = e.tuple(stop=('if', 'recursive'), cond=False)
            test = e.or_() if e.kw('if') else None
            e.done()
            body, end, _ = self.block(('else', 'endfor'))
            other = []
            if end == 'else':
                other, _, _ = self.block(('endfor',))
            return ('for', names, it, test, body, other)
        if w == 'set':
            names = self.target(e)
            if e.op('='):
                x = e.tuple()
                e.done()
                return ('set', names, x)
            fs = []
            while e.op('|'):
                fs.append(e.filter(None))
            e.done()
            body, _, _ = self.block(('endset',))
            return ('setblock', names, body, fs)
        if w == 'filter':
            fs = [e.filter(None)]
            while e.op('|'):
                fs.append(e.filter(None))
            e.done()
            body, _, _ = self.block(('endfilter',))
            return ('filterblock', fs, body)
        if w == 'with':
            sets = []
            while e.peek()[0] != 'end':
                n = e.next()[1]
                e.need('=')
                sets.append((n, e.cond()))
                if not e.op(','):
                    break
            e.done()
            body, _, _ = self.block(('endwith',))
            return ('with', sets, body)
        if w == 'macro':
            n = e.next()[1]
            e.need('(')
            ps = []
            while not e.op(')'):
                p = e.next()[1]
                d = e.cond() if e.op('=') else None
                ps.append((p, d))
                if not e.op(','):
                    e.need(')')
                    break
            e.done()
            body, _, _ = self.block(('endmacro',))
            return ('macro', n, ps, body)
        if w == 'do':
            x = e.tuple()
            e.done()
            return ('do', x)
        raise TemplateError('the tag %s' % w)

    def target(self, e):
        names = [e.next()[1]]
        if e.peek() == ('op', '.'):
            e.next()
            return ('nsattr', names[0], e.next()[1])
        tup = False
        while e.op(','):
            tup = True
            names.append(e.next()[1])
        return names if tup else names[0]


parsed = {}


class Scope:
    def __init__(self, up=None, vars=None):
        self.up = up
        self.v = vars if vars is not None else {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.v:
                return s.v[n]
            s = s.up
        return None

    def has(self, n):
        s = self
        while s is not None:
            if n in s.v:
                return True
            s = s.up
        return False


class Namespace:
    def __init__(self, *a, **k):
        self.__dict__.update(k)


class Loop:
    pass


class Template:
    """env is {trim, lstrip, filters, globals, strict}."""

    def __init__(self, host, src, env=None):
        if not isinstance(src, str):
            host.undecided('a template that is not text')
        if src not in parsed:
            parsed[src] = Parser(src).block(())[0]
        self.host = host
        self.body = parsed[src]
        self.env = env or {}

    def render(self, *a, **kw):
        ctx = dict(self.env.get('globals', {}))
        ctx.setdefault('range', range)
        ctx.setdefault('dict', dict)
        ctx.setdefault('namespace', Namespace)
        for x in a:
            ctx.update(x)
        ctx.update(kw)
        return self.run(self.body, Scope(Scope(None, ctx)))

    def run(self, body, sc):
        out = []
        for n in body:
            self.node(n, sc, out)
        return ''.join(out)

    def node(self, n, sc, out):
        self.host.step()
        k = n[0]
        if k == 'text':
            out.append(n[1])
        elif k == 'print':
            out.append(self.host.text(self.ev(n[1], sc)))
        elif k == 'if':
            for c, b in n[1]:
                if self.host.truth(self.ev(c, sc)):
                    for x in b:
                        self.node(x, sc, out)
                    return
            for x in n[2]:
                self.node(x, sc, out)
        elif k == 'for':
            items = self.host.items(self.ev(n[2], sc))
            if n[3] is not None:
                keep = []
                for x in items:
                    s = Scope(sc)
                    self.assign(n[1], x, s)
                    if self.host.truth(self.ev(n[3], s)):
                        keep.append(x)
                items = keep
            for i, x in enumerate(items):
                s = Scope(sc)
                lp = Loop()
                lp.index0, lp.index, lp.first, lp.last, lp.length = i, i + 1, i == 0, i == len(items) - 1, len(items)
                lp.revindex, lp.revindex0 = len(items) - i, len(items) - i - 1
                s.v['loop'] = lp
                self.assign(n[1], x, s)
                for b in n[4]:
                    self.node(b, s, out)
            if not items:
                s = Scope(sc)
                for b in n[5]:
                    self.node(b, s, out)
        elif k == 'set':
            self.assign(n[1], self.ev(n[2], sc), sc)
        elif k == 'setblock':
            t = self.run(n[2], Scope(sc))
            for f in n[3]:
                t = self.filter(f, t, sc)
            self.assign(n[1], t, sc)
        elif k == 'filterblock':
            t = self.run(n[2], Scope(sc))
            for f in n[1]:
                t = self.filter(f, t, sc)
            out.append(self.host.text(t))
        elif k == 'with':
            s = Scope(sc)
            for name, x in n[1]:
                s.v[name] = self.ev(x, sc)
            for b in n[2]:
                self.node(b, s, out)
        elif k == 'macro':
            def call(*a, **kw):
                s = Scope(sc)
                for i, (p, d) in enumerate(n[2]):
                    if i < len(a):
                        s.v[p] = a[i]
                    elif p in kw:
                        s.v[p] = kw[p]
                    elif d is not None:
                        s.v[p] = self.ev(d, s)
                    else:
                        s.v[p] = Undefined(p)
                return self.run(n[3], s)
            sc.v[n[1]] = call
        elif k == 'do':
            self.ev(n[1], sc)
        else:
            raise AssertionError(k)

    def assign(self, t, v, sc):
        if isinstance(t, str):
            sc.v[t] = v
        elif isinstance(t, tuple):
            setattr(sc.find(t[1]), t[2], v)
        else:
            vs = self.host.items(v)
            if len(vs) != len(t):
                raise ValueError('not enough values to unpack')
            for a, b in zip(t, vs):
                sc.v[a] = b

    def args(self, pos, kws, sc):
        a = []
        for x in pos:
            if x[0] == 'star':
                a.extend(self.host.items(self.ev(x[1], sc)))
            else:
                a.append(self.ev(x, sc))
        k = {}
        for n, x in kws:
            if n is None:
                k.update(self.ev(x, sc))
            else:
                k[n] = self.ev(x, sc)
        return a, k

    def ev(self, e, sc):
        h = self.host
        k = e[0]
        if k == 'const':
            return e[1]
        if k == 'name':
            if sc.has(e[1]):
                return sc.find(e[1])
            return Undefined(e[1])
        if k == 'undef':
            return Undefined()
        if k == 'attr':
            o = self.ev(e[1], sc)
            if isinstance(o, Undefined):
                return getattr(o, e[2])
            try:
                return h.getattr(o, e[2])
            except AttributeError:
                pass
            try:
                return h.getitem(o, e[2])
            except (TypeError, LookupError, AttributeError):
                return Undefined(e[2])
        if k == 'item':
            o, i = self.ev(e[1], sc), None
            if e[2][0] == 'slice':
                return h.getitem(o, slice(*[None if x is None else self.ev(x, sc) for x in e[2][1:]]))
            i = self.ev(e[2], sc)
            if isinstance(o, Undefined):
                return o[i]
            try:
                return h.getitem(o, i)
            except (TypeError, LookupError, AttributeError):
                pass
            if isinstance(i, str):
                try:
                    return h.getattr(o, i)
                except AttributeError:
                    pass
            return Undefined(str(i))
        if k == 'call':
            f = self.ev(e[1], sc)
            a, kw = self.args(e[2], e[3], sc)
            return h.call(f, a, kw)
        if k == 'tuple':
            return tuple(self.ev(x, sc) for x in e[1])
        if k == 'list':
            return [self.ev(x, sc) for x in e[1]]
        if k == 'dict':
            return {self.ev(a, sc): self.ev(b, sc) for a, b in e[1]}
        if k == 'not':
            return not h.truth(self.ev(e[1], sc))
        if k == 'and':
            v = self.ev(e[1], sc)
            return self.ev(e[2], sc) if h.truth(v) else v
        if k == 'or':
            v = self.ev(e[1], sc)
            return v if h.truth(v) else self.ev(e[2], sc)
        if k == 'cond':
            return self.ev(e[2] if h.truth(self.ev(e[1], sc)) else e[3], sc)
        if k == 'cmp':
            a = self.ev(e[1], sc)
            for o, x in e[2]:
                b = self.ev(x, sc)
                if not h.truth(h.compare(o, a, b)):
                    return False
                a = b
            return True
        if k == 'bin':
            return h.binop(e[1], self.ev(e[2], sc), self.ev(e[3], sc))
        if k == 'cat':
            return ''.join(h.text(self.ev(x, sc)) for x in e[1])
        if k == 'neg':
            return -self.ev(e[1], sc)
        if k == 'filter':
            return self.filter(e, self.ev(e[2], sc), sc)
        if k == 'test':
            return self.test(e[1], self.ev(e[2], sc), [self.ev(x, sc) for x in e[3]])
        raise AssertionError(k)

    def test(self, n, v, a):
        h = self.host
        if n == 'defined':
            return not isinstance(v, Undefined)
        if n == 'undefined':
            return isinstance(v, Undefined)
        if n == 'none':
            return v is None
        if n == 'string':
            return isinstance(v, str)
        if n == 'true':
            return v is True
        if n == 'false':
            return v is False
        if n in ('equalto', 'eq', 'sameas'):
            return h.compare('==', v, a[0])
        if n == 'ne':
            return not h.compare('==', v, a[0])
        if n in ('lt', 'lessthan'):
            return h.compare('<', v, a[0])
        if n in ('gt', 'greaterthan'):
            return h.compare('>', v, a[0])
        if n in ('ge', 'le'):
            return h.compare({'ge': '>=', 'le': '<='}[n], v, a[0])
        if n == 'in':
            return h.compare('in', v, a[0])
        if n == 'mapping':
            return isinstance(v, dict)
        if n in ('sequence', 'iterable'):
            return isinstance(v, (str, list, tuple, dict))
        if n == 'number':
            return isinstance(v, (int, float))
        if n == 'boolean':
            return isinstance(v, bool)
        h.undecided('the template test %s' % n)

    def filter(self, f, v, sc):
        a, k = self.args(f[3], f[4], sc)
        n = f[1]
        own = self.env.get('filters', {})
        if n in own:
            return self.host.call(own[n], [v] + a, k)
        h = self.host
        fn = getattr(self, 'f_' + n, None)
        if fn is None:
            h.undecided('the template filter %s' % n)
        return fn(v, *a, **k)

    def f_indent(self, s, width=4, first=False, blank=False):
        ind = width if isinstance(width, str) else ' ' * width
        s = self.host.text(s) + '\n'
        if blank:
            rv = ('\n' + ind).join(s.splitlines())
        else:
            lines = s.splitlines()
            rv = lines.pop(0)
            if lines:
                rv += '\n' + '\n'.join(ind + l if l else l for l in lines)
        return ind + rv if first else rv

    def f_default(self, v, d='', boolean=False):
        return d if isinstance(v, Undefined) or boolean and not self.host.truth(v) else v
    f_d = f_default

    def f_join(self, v, sep='', attribute=None):
        if attribute is not None:
            v = [self.host.getattr(x, attribute) for x in self.host.items(v)]
        return sep.join(self.host.text(x) for x in self.host.items(v))

    def f_length(self, v):
        return self.host.len(v)
    f_count = f_length

    def f_string(self, v):
        return self.host.text(v)

    def f_int(self, v, d=0):
        return self.host.call(int, [v], {})

    def f_float(self, v, d=0.0):
        return self.host.call(float, [v], {})

    def f_lower(self, v):
        return self.host.text(v).lower()

    def f_upper(self, v):
        return self.host.text(v).upper()

    def f_capitalize(self, v):
        return self.host.text(v).capitalize()

    def f_replace(self, v, a, b, count=None):
        return self.host.text(v).replace(a, b, -1 if count is None else count)

    def f_trim(self, v, chars=None):
        return self.host.text(v).strip(chars)

    def f_list(self, v):
        return list(self.host.items(v))

    def f_first(self, v):
        xs = self.host.items(v)
        return xs[0] if xs else Undefined()

    def f_last(self, v):
        xs = self.host.items(v)
        return xs[-1] if xs else Undefined()

    def f_safe(self, v):
        return v

    def f_map(self, v, name=None, *a, attribute=None):
        xs = self.host.items(v)
        if attribute is not None:
            return [self.host.getattr(x, attribute) for x in xs]
        return [self.filter((None, name, None, [('const', y) for y in a], []), x, None) for x in xs]

    def f_format(self, v, *a, **k):
        return v % (k or a)

    def f_tojson(self, v):
        h = self.host
        import json
        if isinstance(v, (str, int, float, bool, list)) or v is None:
            return json.dumps(v).replace('<', '\\u003c').replace('>', '\\u003e').replace('&', '\\u0026').replace("'", '\\u0027')
        h.undecided('tojson of an abstract value')

    def f_sort(self, v):
        return sorted(self.host.items(v))

    def f_pprint(self, v):
        import pprint
        return pprint.pformat(v)
