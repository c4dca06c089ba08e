"""Stand-in for the part of Jinja2 the validator templates use: output, if,
for, set, filter blocks, whitespace control, attribute and item lookup, tests
by operators, the indent filter and a few others."""
import ast
import operator
import re

__version__ = '3.0-standin'
TOKEN = re.compile(r'(\{\{[-+]?.*?[-+]?\}\}|\{%[-+]?.*?[-+]?%\}|\{#.*?#\})', re.S)


class Undefined:
    def __bool__(self):
        return False

    def __str__(self):
        return ''

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, Undefined)

    def __hash__(self):
        return 0

    def _fail(self, *a, **k):
        raise UndefinedError('undefined value')
    __getattr__ = __getitem__ = __call__ = __add__ = __lt__ = __gt__ = __le__ = __ge__ = _fail


class UndefinedError(Exception):
    pass


class TemplateSyntaxError(Exception):
    pass


def do_indent(s, width=4, first=False, blank=False):
    pad = width if isinstance(width, str) else ' ' * width
    s = str(s) + '\n'
    if blank:
        rv = ('\n' + pad).join(s.splitlines())
    else:
        lines = s.splitlines()
        rv = lines.pop(0)
        if lines:
            rv += '\n' + '\n'.join(pad + l if l else l for l in lines)
    return pad + rv if first else rv


FILTERS = {
    'indent': do_indent, 'trim': lambda s: str(s).strip(), 'string': str, 'length': len, 'upper': lambda s: str(s).upper(),
    'lower': lambda s: str(s).lower(), 'list': list, 'int': int, 'float': float, 'abs': abs, 'tojson': lambda v: __import__('json').dumps(v),
    'join': lambda l, d='': str(d).join(map(str, l)), 'first': lambda l: next(iter(l)), 'last': lambda l: list(l)[-1],
    'replace': lambda s, a, b: str(s).replace(a, b), 'sort': sorted, 'default': lambda v, d='', b=False: d if isinstance(v, Undefined) or (b and not v) else v,
    'pprint': lambda v: __import__('pprint').pformat(v), 'repr': repr,
}
OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
       ast.Gt: operator.gt, ast.GtE: operator.ge, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
       ast.Is: operator.is_, ast.IsNot: operator.is_not}


def get_attr(o, n):
    try:
        return getattr(o, n)
    except AttributeError:
        pass
    try:
        return o[n]
    except (TypeError, LookupError, AttributeError):
        return Undefined()


def get_item(o, k):
    try:
        return o[k]
    except (AttributeError, TypeError, LookupError):
        if isinstance(k, str):
            try:
                return getattr(o, k)
            except AttributeError:
                pass
        return Undefined()


class Expr:
    def __init__(self, src):
        src = src.strip()
        # tests: "x is defined" and friends
        src = re.sub(r'\bis not defined\b', '|_undefined', src)
        src = re.sub(r'\bis defined\b', '|_defined', src)
        src = re.sub(r'\bis not none\b', 'is not None', src)
        src = re.sub(r'\bis none\b', 'is None', src)
        try:
            self.tree = ast.parse('(' + src + '\n)', mode='eval').body
        except SyntaxError as e:
            raise TemplateSyntaxError('%s: %s' % (e, src))

    def __call__(self, env):
        return self.ev(self.tree, env)

    def ev(self, n, env):
        ev = self.ev
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in ('true', 'True'):
                return True
            if n.id in ('false', 'False'):
                return False
            if n.id in ('none', 'None'):
                return None
            return env.get(n.id)
        if isinstance(n, ast.Attribute):
            return get_attr(ev(n.value, env), n.attr)
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                s = n.slice
                return ev(n.value, env)[slice(*[ev(x, env) if x else None for x in (s.lower, s.upper, s.step)])]
            return get_item(ev(n.value, env), ev(n.slice, env))
        if isinstance(n, ast.Call):
            return ev(n.func, env)(*[ev(a, env) for a in n.args], **{k.arg: ev(k.value, env) for k in n.keywords})
        if isinstance(n, ast.BoolOp):
            for i, x in enumerate(n.values):
                v = ev(x, env)
                if i == len(n.values) - 1 or bool(v) == isinstance(n.op, ast.Or):
                    return v
        if isinstance(n, ast.UnaryOp):
            v = ev(n.operand, env)
            return (not v) if isinstance(n.op, ast.Not) else -v if isinstance(n.op, ast.USub) else +v
        if isinstance(n, ast.Compare):
            a = ev(n.left, env)
            for op, x in zip(n.ops, n.comparators):
                b = ev(x, env)
                if not OPS[type(op)](a, b):
                    return False
                a = b
            return True
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.BitOr):
                a = ev(n.left, env)
                f, args, kw = n.right, [], {}
                if isinstance(f, ast.Call):
                    args = [ev(x, env) for x in f.args]
                    kw = {k.arg: ev(k.value, env) for k in f.keywords}
                    f = f.func
                if f.id == '_defined':
                    return not isinstance(a, Undefined)
                if f.id == '_undefined':
                    return isinstance(a, Undefined)
                return FILTERS[f.id](a, *args, **kw)
            return OPS[type(n.op)](ev(n.left, env), ev(n.right, env))
        if isinstance(n, ast.Tuple):
            return tuple(ev(x, env) for x in n.elts)
        if isinstance(n, ast.List):
            return [ev(x, env) for x in n.elts]
        if isinstance(n, ast.Dict):
            return {ev(k, env): ev(v, env) for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.IfExp):
            return ev(n.body, env) if ev(n.test, env) else ev(n.orelse, env)
        raise TemplateSyntaxError('expression %s' % ast.dump(n))


class Env:
    def __init__(self, vals, up=None):
        self.v, self.up = dict(vals), up

    def get(self, k):
        e = self
        while e:
            if k in e.v:
                return e.v[k]
            e = e.up
        if k in ('range', 'dict'):
            return {'range': range, 'dict': dict}[k]
        return Undefined()


class Template:
    cache = {}

    def __init__(self, src):
        body = Template.cache.get(src)
        if body is None:
            body = Template.cache[src] = self.parse(src)
        self.body = body

    def parse(self, src):
        if src.endswith('\n'):
            src = src[:-1]
        toks = []
        strip = False
        for t in TOKEN.split(src):
            if t.startswith(('{{', '{%', '{#')) and len(t) >= 4:
                k = t[:2]
                s = t[2:-2]
                if s[:1] == '-':
                    if toks and toks[-1][0] == 'text':
                        toks[-1] = ('text', toks[-1][1].rstrip())
                    s = s[1:]
                elif s[:1] == '+':
                    s = s[1:]
                strip = s[-1:] == '-'
                if s[-1:] in ('-', '+'):
                    s = s[:-1]
                if k != '{#':
                    toks.append(('out' if k == '{{' else 'tag', s.strip()))
                else:
                    toks.append(('text', ''))
            else:
                toks.append(('text', t.lstrip() if strip else t))
                if t:
                    strip = False
        self.toks, self.i = toks, 0
        body = self.block(())
        del self.toks
        return body

    def block(self, ends):
        out = []
        while self.i < len(self.toks):
            k, s = self.toks[self.i]
            self.i += 1
            if k == 'text':
                if s:
                    out.append(('text', s))
            elif k == 'out':
                out.append(('out', Expr(s)))
            else:
                w = s.split(None, 1)[0]
                rest = s[len(w):]
                if w in ends:
                    self.i -= 1
                    return out
                if w == 'if':
                    arms = [(Expr(rest), self.block(('elif', 'else', 'endif')))]
                    other = []
                    while True:
                        s = self.toks[self.i][1]
                        self.i += 1
                        w = s.split(None, 1)[0]
                        if w == 'elif':
                            arms.append((Expr(s[4:]), self.block(('elif', 'else', 'endif'))))
                        elif w == 'else':
                            other = self.block(('endif',))
                        else:
                            break
                    out.append(('if', arms, other))
                elif w == 'for':
                    m = re.match(r'\s*(.+?)\s+in\s+(.*)$', rest, re.S)
                    b = self.block(('else', 'endfor'))
                    other = []
                    if self.toks[self.i][1].split()[0] == 'else':
                        self.i += 1
                        other = self.block(('endfor',))
                    self.i += 1
                    out.append(('for', [x.strip() for x in m.group(1).split(',')], Expr(m.group(2)), b, other))
                elif w == 'set':
                    m = re.match(r'\s*(\w+)\s*=(.*)$', rest, re.S)
                    if not m:
                        raise TemplateSyntaxError('set ' + rest)
                    out.append(('set', m.group(1), Expr(m.group(2))))
                elif w == 'filter':
                    b = self.block(('endfilter',))
                    self.i += 1
                    out.append(('filter', Expr('_body|' + rest), b))
                else:
                    raise TemplateSyntaxError('tag ' + w)
        if ends:
            raise TemplateSyntaxError('missing %s' % (ends,))
        return out

    def render(self, *a, **vals):
        for d in a:
            vals = dict(d, **vals)
        out = []
        self.run(self.body, Env(vals), out)
        return ''.join(out)

    def run(self, body, env, out):
        for n in body:
            k = n[0]
            if k == 'text':
                out.append(n[1])
            elif k == 'out':
                out.append(str(n[1](env)))
            elif k == 'if':
                for c, b in n[1]:
                    if c(env):
                        self.run(b, env, out)
                        break
                else:
                    self.run(n[2], env, out)
            elif k == 'for':
                items = list(n[2](env))
                for i, x in enumerate(items):
                    e = Env({}, env)
                    if len(n[1]) == 1:
                        e.v[n[1][0]] = x
                    else:
                        e.v.update(zip(n[1], x))
                    e.v['loop'] = {'index': i + 1, 'index0': i, 'first': i == 0, 'last': i == len(items) - 1, 'length': len(items)}
                    self.run(n[3], e, out)
                if not items:
                    self.run(n[4], env, out)
            elif k == 'set':
                env.v[n[1]] = n[2](env)
            elif k == 'filter':
                o2 = []
                e = Env({}, env)
                self.run(n[2], e, o2)
                out.append(str(n[1](Env({'_body': ''.join(o2)}, env))))


class Environment:
    def __init__(self, **k):
        self.filters = FILTERS

    def from_string(self, s):
        return Template(s)
