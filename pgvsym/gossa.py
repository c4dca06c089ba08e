"""Symbolic interpreter for Go SSA served by gotool."""
import json
import struct
import subprocess
from fractions import Fraction

import z3

from .core import (And, Or, Not, Iff, Ite, is_sym, conc_bool, Unsupported, PathEnd, tobool)
from . import strs
from .strs import Str, OStr

RNE = z3.RNE()


# ---------------------------------------------------------------- server ----
class Type:
    __slots__ = ('id', 'd', 'k', 'srv', '_u', 's', '_int')

    def __init__(self, srv, i, d):
        self.id, self.d, self.k, self.srv, self.s = i, d, d['k'], srv, d['s']
        self._u = None
        self._int = None

    @property
    def u(self):
        if self._u is None:
            self._u = self if self.k != 'named' else self.srv.types[self.d['u']].u
        return self._u

    @property
    def elem(self):
        return self.srv.types[self.u.d['e']]

    @property
    def basic(self):
        u = self.u
        return u.d['b'] if u.k == 'basic' else None

    def intinfo(self):
        """(width, signed) or None."""
        if self._int is None:
            self._int = INTS.get(self.basic) or False
        return self._int or None

    def __repr__(self):
        return '<T %s>' % self.s


INTS = {'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True),
        'uint': (64, False), 'uint8': (8, False), 'uint16': (16, False), 'uint32': (32, False), 'uint64': (64, False),
        'uintptr': (64, False), 'rune': (32, True), 'byte': (8, False), 'untyped int': (64, True),
        'untyped rune': (32, True)}
FLOATS = {'float32': 32, 'float64': 64, 'untyped float': 64}


class Fn:
    pass


class Server:
    def __init__(self, tool, cwd, pkgs, env):
        self.p = subprocess.Popen([tool, cwd] + pkgs, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=cwd)
        line = self.p.stdout.readline()
        r = json.loads(line) if line else {'err': 'gotool died'}
        if 'err' in r:
            self.p.wait()
            raise LoadError(r['err'])
        self.types = []
        self.fns = {}
        self._find, self._meth, self._impl, self._rx = {}, {}, {}, {}

    def ask(self, **req):
        self.p.stdin.write((json.dumps(req) + '\n').encode())
        self.p.stdin.flush()
        r = json.loads(self.p.stdout.readline())
        for d in r['t'] or []:
            self.types.append(Type(self, len(self.types), d))
        return r['r']

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()

    def find(self, name):
        if name not in self._find:
            self._find[name] = self.ask(op='find', name=name)
        return self._find[name]

    def type_named(self, name):
        r = self.ask(op='type', name=name)
        return None if r is None else self.types[r]

    def ptrto(self, t):
        return self.types[self.ask(op='ptrto', t=t.id)]

    def method(self, t, name):
        if t.id < 0:
            return None     # opaque library errors offer Error() only
        k = (t.id, name)
        if k not in self._meth:
            self._meth[k] = self.ask(op='method', t=t.id, name=name)
        return self._meth[k]

    def implements(self, t, it):
        if t.id < 0:
            return it.s == 'error'
        k = (t.id, it.id)
        if k not in self._impl:
            self._impl[k] = self.ask(op='implements', t=t.id, i=it.id)
        return self._impl[k]

    def regex(self, pat):
        if pat not in self._rx:
            self._rx[pat] = self.ask(op='regex', name=pat)
        return self._rx[pat]

    def fn(self, fid):
        f = self.fns.get(fid)
        if f is None:
            d = self.ask(op='fn', id=fid)
            f = Fn()
            f.id, f.name, f.np, f.nf, f.nregs = d['id'], d['name'], d['np'], d['nf'], d['nregs']
            f.pkg = d.get('pkg', '')
            f.recover = d.get('recover')
            f.pt = [self.types[t] for t in d['pt']]
            f.rt = [self.types[t] for t in d['rt']]
            f.blocks = [self._block(b) for b in d['blocks']]
            f.intrinsic = None
            f.checked = False
            self.fns[fid] = f
        return f

    def _block(self, b):
        b['i'] = [self._ins(i) for i in b['i']]
        b['nphi'] = sum(1 for i in b['i'] if i[2] == 'phi')
        return b

    def _ins(self, i):
        r, t, d, pos = i
        T = self.types
        op = d[0]
        args = d[1:]
        o = self._operand
        ty = T[t] if t >= 0 else None
        if op == 'bin':
            args = [args[0], o(args[1]), o(args[2]), T[args[3]], T[args[4]]]
        elif op == 'un':
            args = [args[0], o(args[1]), T[args[2]], args[3]]
        elif op in ('call', 'go', 'defer'):
            if args[0] == 'invoke':
                args = ['invoke', o(args[1]), args[2], T[args[3]], [o(a) for a in args[4]]]
            else:
                args = ['call', o(args[1]), [o(a) for a in args[2]], [T[x] for x in args[3]]]
        elif op in ('mov', 'mkslice', 's2ap', 'ret', 'phi', 'panic', 'store', 'mapupdate'):
            args = [([o(x) for x in a] if op in ('ret', 'phi') else o(a)) for a in args]
        elif op in ('conv', 'range', 'mkiface'):
            args = [o(args[0]), T[args[1]]]
        elif op in ('extract', 'field', 'fieldaddr', 'next'):
            args = [o(args[0]), args[1]]
        elif op in ('index', 'indexaddr'):
            args = [o(args[0]), o(args[1]), T[args[2]]]
        elif op == 'lookup':
            args = [o(args[0]), o(args[1]), args[2], T[args[3]]]
        elif op == 'closure':
            args = [args[0], [o(a) for a in args[1]]]
        elif op == 'slice':
            args = [o(args[0]), o(args[1]), o(args[2]), o(args[3]), T[args[4]]]
        elif op == 'tassert':
            args = [o(args[0]), T[args[1]], args[2]]
        elif op == 'alloc':
            args = [T[args[0]]]
        elif op == 'if':
            args = [o(args[0]), args[1], args[2]]
        return (r, ty, op, args, pos)

    def _operand(self, a):
        if a is None:
            return None
        if a[0] == 'c':
            return ('c', self._const(self.types[a[1]], a[2]))
        if a[0] == 'g':
            return ('g', a[1], a[2], self.types[a[3]])
        return tuple(a)

    def _const(self, t, v):
        if v is None:
            return zero(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, list):
            return Str(tuple(v))
        if isinstance(v, str):
            if v.startswith('?'):
                return Poison('constant ' + v)
            ii = t.intinfo()
            if ii:
                return norm(int(v), ii)
            if t.basic in FLOATS:
                f = Fraction(v)
                x = float(f)
                return struct.unpack('<f', struct.pack('<f', x))[0] if FLOATS[t.basic] == 32 else x
        return Poison('constant')


class LoadError(Exception):
    pass


# ---------------------------------------------------------------- values ----
class Poison:
    def __init__(self, why):
        self.why = why


class Ptr:
    __slots__ = ('c', 'i')

    def __init__(self, c, i):
        self.c, self.i = c, i

    def same(self, o):
        return isinstance(o, Ptr) and self.c is o.c and self.i == o.i

    def __repr__(self):
        return 'Ptr(%x,%r)' % (id(self.c), self.i)


class SymPtr:
    """Address of element idx (symbolic) of a list segment; loads become ITEs."""
    __slots__ = ('c', 'off', 'n', 'idx')

    def __init__(self, c, off, n, idx):
        self.c, self.off, self.n, self.idx = c, off, n, idx


class StructV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class SliceV:
    __slots__ = ('a', 'off', 'n', 'cap')

    def __init__(self, a, off, n, cap):
        self.a, self.off, self.n, self.cap = a, off, n, cap

    def items(self):
        return self.a[self.off:self.off + self.n] if self.a is not None else []


class MapV:
    __slots__ = ('e',)

    def __init__(self, e=None):
        self.e = e if e is not None else []


class Iface:
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return 'Iface(%s)' % self.t.s


class FuncV:
    __slots__ = ('id', 'b')

    def __init__(self, i, b=()):
        self.id, self.b = i, b


class BoundIntrinsic:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Native:
    """Opaque native object owned by an intrinsic (regexp, time, ...)."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Lazy:
    """A memory cell whose contents are decided when first read."""
    __slots__ = ('fn', 'v', 'done')

    def __init__(self, fn):
        self.fn, self.done = fn, False

    def force(self):
        if not self.done:
            self.v, self.done = self.fn(), True
        return self.v


def zero(t):
    u = t.u
    k = u.k
    if k == 'basic':
        b = u.d['b']
        if b in INTS:
            return 0
        if b in ('bool', 'untyped bool'):
            return False
        if b in ('string', 'untyped string'):
            return EMPTY
        if b in FLOATS:
            return 0.0
        if b in ('untyped nil', 'unsafe.Pointer', 'Pointer'):
            return None
        return Poison('zero ' + b)
    if k == 'struct':
        return StructV([zero(t.srv.types[f[1]]) for f in u.d['f']])
    if k == 'array':
        return StructV([zero(t.elem) for _ in range(u.d['n'])])
    if k == 'slice':
        return SliceV(None, 0, 0, 0)
    if k == 'tuple':
        return tuple(zero(t.srv.types[x]) for x in u.d['f'])
    return None


EMPTY = Str(())


def copy(v):
    if type(v) is StructV:
        return StructV([copy(x) for x in v.f])
    return v


def assign(c, i, v):
    if type(v) is StructV:
        d = c[i]
        if type(d) is StructV and len(d.f) == len(v.f):
            for k, x in enumerate(v.f if d is not v else ()):
                assign(d.f, k, x)
            return
        c[i] = copy(v)
        return
    c[i] = v


def norm(v, ii):
    w, s = ii
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


def tobv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def tofp(v, w):
    if isinstance(v, float):
        return z3.FPVal(v, z3.Float32() if w == 32 else z3.Float64())
    return v


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


class GoPanic(Exception):
    def __init__(self, val, why=''):
        Exception.__init__(self, why)
        self.val, self.why = val, why


# ----------------------------------------------------------- interpreter ----
class Frame:
    __slots__ = ('fn', 'regs', 'defers', 'panic', 'recovered', 'guards')


class Interp:
    MAXSTEPS = 400000
    MAXDEPTH = 400

    def __init__(self, srv, ctx, intrinsics, skip_init=()):
        self.srv, self.ctx = srv, ctx
        self.intr = intrinsics
        self.globals = {}
        self.initing = set()
        self.copied = set()
        self.steps = 0
        self.depth = 0
        self.tolerant = False
        self.env = {}          # scratch space for intrinsics (per path)
        self.frames = []

    # -- globals -------------------------------------------------------
    def gptr(self, pkg, name, t):
        k = (pkg, name)
        c = self.globals.get(k)
        if c is None:
            if pkg in self.initing:
                c = [zero(t)]
            else:
                snap = self.init_pkg(pkg)
                c = snap.get(k)
                if c is None:
                    c = [zero(t)]
                elif pkg in self.copied and not name.startswith('file_'):
                    c = deep(c, {})
            self.globals[k] = c
        return Ptr(c, 0)

    def init_pkg(self, pkg):
        """Runs the package-level variable initialisers (not init functions)."""
        snap = INIT_CACHE.get((id(self.srv), pkg))
        if snap is not None:
            return snap
        fid = self.srv.ask(op='init', name=pkg)
        if fid is None:
            return {}
        st, old, od = self.steps, self.tolerant, self.depth
        oldglobals = self.globals
        self.globals = {}
        self.initing.add(pkg)
        self.tolerant = True
        self.depth = 0
        octx, self.ctx = self.ctx, ConcreteCtx(self.ctx)
        try:
            self.run_fn(self.srv.fn(fid), [], [])
        finally:
            self.steps, self.tolerant, self.depth = st, old, od
            self.ctx = octx
            snap = {k: v for k, v in self.globals.items() if k[0] == pkg}
            self.globals = oldglobals
            self.initing.discard(pkg)
        INIT_CACHE[(id(self.srv), pkg)] = snap
        return snap

    # -- operands ------------------------------------------------------
    def val(self, fr, o):
        k = o[0]
        if k == 'r':
            v = fr.regs[o[1]]
        elif k == 'c':
            v = o[1]
            if type(v) is StructV:
                v = copy(v)
        elif k == 'g':
            return self.gptr(o[1], o[2], o[3])
        elif k == 'f':
            return FuncV(o[1])
        else:
            return ('builtin', o[1])
        if type(v) is Poison:
            raise Unsupported('poison: ' + v.why)
        return v

    # -- calls ---------------------------------------------------------
    def call_value(self, fv, args):
        if fv is None:
            raise GoPanic(None, 'call of nil function')
        if type(fv) is BoundIntrinsic:
            return fv.f(self, args)
        return self.call_id(fv.id, args, fv.b)

    def call_id(self, fid, args, binds=()):
        f = self.srv.fn(fid)
        if not f.checked:
            f.checked = True
            f.intrinsic = self.intr.get(f.name)
            if f.intrinsic is None:
                for pre, h in self.intr.prefixes:
                    if f.name.startswith(pre):
                        f.intrinsic = h(f.name)
                        break
        if f.intrinsic is not None:
            self.ctx.stats.stubs.add(f.name)
            return f.intrinsic(self, args)
        if not f.blocks:
            raise Unsupported('external function ' + f.name)
        return self.run_fn(f, args, binds)

    def call_method(self, recv_t, recv, name, args):
        m = self.srv.method(recv_t, name)
        if m is None:
            raise Unsupported('method %s on %s' % (name, recv_t.s))
        return self.call_id(m, [recv] + list(args))

    def run_fn(self, f, args, binds):
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth')
        self.ctx.stats.functions.add(f.name)
        fr = Frame()
        fr.fn = f
        regs = fr.regs = [None] * f.nregs
        for i, a in enumerate(args):
            regs[i] = a
        for i, b in enumerate(binds):
            regs[f.np + i] = b
        fr.defers = []
        fr.panic = None
        fr.recovered = False
        self.depth += 1
        self.frames.append(fr)
        try:
            try:
                return self.run_blocks(fr, 0)
            except GoPanic as p:
                if not fr.defers:
                    raise
                fr.panic = p
                self.rundefers(fr)
                if fr.panic is not None:
                    raise fr.panic
                if f.recover is not None:
                    return self.run_blocks(fr, f.recover)
                z = [zero(t) for t in f.rt]
                return z[0] if len(z) == 1 else tuple(z) if z else None
        finally:
            self.depth -= 1
            self.frames.pop()

    def rundefers(self, fr):
        while fr.defers:
            thunk = fr.defers.pop()
            try:
                thunk()
            except GoPanic as p:
                fr.panic = p

    def run_blocks(self, fr, bi):
        f = fr.fn
        blocks = f.blocks
        regs = fr.regs
        prev = -1
        phis = None        # explicit phi values computed by branch folding
        while True:
            b = blocks[bi]
            ins = b['i']
            n = b['nphi']
            if n:
                if phis is not None:
                    vals = phis
                else:
                    pi = b['p'].index(prev)
                    vals = [self.phi_val(fr, ins[k][3][0][pi]) for k in range(n)]
                for k in range(n):
                    regs[ins[k][0]] = vals[k]
            phis = None
            self.steps += len(ins)
            self.ctx.stats.steps += len(ins)
            if self.steps > self.MAXSTEPS:
                raise Unsupported('step bound')
            for k in range(n, len(ins)):
                i = ins[k]
                op = i[2]
                if op == 'jump':
                    prev, bi = bi, i[3][0]
                    break
                if op == 'if':
                    try:
                        c = self.val(fr, i[3][0])
                    except Unsupported:
                        if self.tolerant:
                            return None
                        raise
                    cb = conc_bool(c)
                    if cb is None:
                        prev, bi, phis = self.fold(fr, bi, c)
                    else:
                        prev, bi = bi, i[3][1] if cb else i[3][2]
                    break
                if op == 'ret':
                    rs = [self.val(fr, o) for o in i[3][0]]
                    return rs[0] if len(rs) == 1 else tuple(rs) if rs else None
                if self.tolerant:
                    try:
                        self.step(fr, i)
                    except (Unsupported, GoPanic, KeyError, AttributeError, TypeError, IndexError) as ex:
                        if op == 'panic':
                            raise
                        if i[0] >= 0:
                            regs[i[0]] = Poison('init: %s' % ex)
                else:
                    self.step(fr, i)

    def phi_val(self, fr, o):
        if o[0] == 'r':
            return fr.regs[o[1]]
        return self.val(fr, o)

    # -- branch folding ------------------------------------------------
    # Short-circuit chains and value diamonds are evaluated as one condition:
    # pure blocks reachable from the branch are evaluated under guards and the
    # distinct exits decided afterwards, so a && b && c costs one fork, not 2^n.
    def fold(self, fr, bi, cond):
        blocks = fr.fn.blocks
        exits = []      # (guard, pred, target)
        work = [(bi, True, cond)]
        expanded = {bi}
        count = 0
        while work:
            cur, g, c = work.pop(0)
            last = blocks[cur]['i'][-1]
            outs = ((last[3][1], And(g, c)), (last[3][2], And(g, Not(c))))
            for tgt, gg in outs:
                if conc_bool(gg) is False:
                    continue
                tb = blocks[tgt]
                if tgt not in expanded and len(tb['p']) == 1 and count < 24:
                    r = self.try_pure(fr, tb)
                    if r is not None:
                        expanded.add(tgt)
                        count += 1
                        if r[0] == 'if':
                            work.append((tgt, gg, r[1]))
                        else:
                            exits.append((gg, tgt, r[1]))
                        continue
                exits.append((gg, cur, tgt))
        # group by target
        order, groups = [], {}
        for g, p, t in exits:
            if t not in groups:
                groups[t] = []
                order.append(t)
            groups[t].append((g, p))
        cand = []
        for t in order:
            tb = blocks[t]
            merged = None
            if tb['nphi'] and len(groups[t]) > 1:
                merged = self.merge_phis(fr, tb, groups[t])
                if merged is None:
                    for g, p in groups[t]:
                        cand.append((g, p, t, None))
                    continue
            cand.append((Or([g for g, _ in groups[t]]), groups[t][0][1], t, merged))
        for g, p, t, m in cand[:-1]:
            if self.ctx.decide(g):
                return p, t, m
        g, p, t, m = cand[-1]
        return p, t, m

    def merge_phis(self, fr, tb, preds):
        out = []
        for k in range(tb['nphi']):
            i = tb['i'][k]
            vals = [self.phi_val(fr, i[3][0][tb['p'].index(p)]) for _, p in preds]
            v = vals[-1]
            for (g, _), x in zip(reversed(preds[:-1]), reversed(vals[:-1])):
                v = self.merge_val(g, x, v, i[1])
                if v is MERGE_FAIL:
                    return None
            out.append(v)
        return out

    def merge_val(self, g, a, b, t):
        if a is b:
            return a
        if isinstance(a, (int, bool, float)) and type(a) is type(b) and a == b and a == a:
            return a
        ii = t.intinfo()
        if ii and (isinstance(a, int) or z3.is_bv(a)) and (isinstance(b, int) or z3.is_bv(b)):
            return z3.If(tobool(g), tobv(a, ii[0]), tobv(b, ii[0]))
        if t.basic in ('bool', 'untyped bool'):
            return z3.If(tobool(g), tobool(a), tobool(b))
        if t.basic in FLOATS:
            w = FLOATS[t.basic]
            return z3.If(tobool(g), tofp(a, w), tofp(b, w))
        if type(a) is Str and type(b) is Str and len(a) == len(b):
            return Str(tuple(x if x is y or (isinstance(x, int) and x == y) else z3.If(tobool(g), strs.bv8(x), strs.bv8(y)) for x, y in zip(a.b, b.b)))
        if type(a) is Ptr and a.same(b):
            return a
        return MERGE_FAIL

    def try_pure(self, fr, tb):
        """Evaluate a single-predecessor block if it has no effects."""
        ins = tb['i']
        if ins[-1][2] not in ('if', 'jump') or tb['nphi']:
            return None
        for i in ins[:-1]:
            op = i[2]
            if op == 'bin':
                if i[3][0] in ('/', '%', '<<', '>>'):
                    return None
            elif op == 'un':
                if i[3][0] not in ('!', '-', '^'):
                    if i[3][0] != '*':
                        return None
            elif op == 'conv':
                if not (i[1].intinfo() and i[3][1].intinfo()):
                    return None
            elif op == 'call':
                a = i[3]
                if not (a[0] == 'call' and a[1] == ('b', 'len')):
                    return None
            elif op not in ('mov', 'extract', 'index', 'indexaddr', 'lookup', 'fieldaddr', 'field', 'slice'):
                return None
        save = self.ctx
        self.ctx = NOFORK
        try:
            for i in ins[:-1]:
                self.step(fr, i)
            last = ins[-1]
            if last[2] == 'jump':
                return ('jump', last[3][0])
            return ('if', self.val(fr, last[3][0]))
        except (NoFork, GoPanic, Unsupported):
            return None
        finally:
            self.ctx = save

    # -- instructions --------------------------------------------------
    def step(self, fr, i):
        r, t, op, a, pos = i
        m = getattr(self, 'op_' + op, None)
        if m is None:
            raise Unsupported('instruction ' + op)
        v = m(fr, t, a)
        if r >= 0:
            fr.regs[r] = v

    def op_alloc(self, fr, t, a):
        return Ptr([zero(a[0])], 0)

    def op_mov(self, fr, t, a):
        return self.val(fr, a[0])

    def op_extract(self, fr, t, a):
        v = self.val(fr, a[0])[a[1]]
        return v

    def op_field(self, fr, t, a):
        return copy(self.val(fr, a[0]).f[a[1]])

    def op_fieldaddr(self, fr, t, a):
        p = self.val(fr, a[0])
        if p is None:
            raise GoPanic(None, 'nil pointer dereference')
        if isinstance(p, Native):
            raise Unsupported('field of native ' + p.kind)
        s = p.c[p.i]
        if type(s) is Poison:
            raise Unsupported('poison: ' + s.why)
        return Ptr(s.f, a[1])

    def bounds(self, idx, n, what='index out of range'):
        """Concrete or symbolic in-range index; panics on the out-of-range path."""
        if isinstance(idx, int):
            if not 0 <= idx < n:
                raise GoPanic(None, what)
            return idx
        w = idx.size()
        ok = z3.ULT(idx, n) if n < (1 << w) else True
        if not self.ctx.decide(ok):
            raise GoPanic(None, what)
        idx = z3.simplify(idx)
        if z3.is_bv_value(idx):
            return idx.as_long()
        return idx

    def op_indexaddr(self, fr, t, a):
        x = self.val(fr, a[0])
        idx = self.val(fr, a[1])
        if isinstance(x, SliceV):
            c, off, n = x.a, x.off, x.n
        else:
            if x is None:
                raise GoPanic(None, 'nil pointer dereference')
            c = x.c[x.i].f
            off, n = 0, len(c)
        idx = self.bounds(idx, n)
        if isinstance(idx, int):
            return Ptr(c, off + idx)
        return SymPtr(c, off, n, idx)

    def op_index(self, fr, t, a):
        x = self.val(fr, a[0])
        idx = self.val(fr, a[1])
        if isinstance(x, OStr):
            raise Unsupported('index of formatted text')
        seq = x.b if isinstance(x, Str) else x.f
        idx = self.bounds(idx, len(seq))
        if isinstance(idx, int):
            return copy(seq[idx])
        return self.ite_select(seq, 0, len(seq), idx)

    def ite_select(self, seq, off, n, idx):
        if all(isinstance(seq[off + k], (int, bool)) or is_sym(seq[off + k]) for k in range(n)):
            vals = seq[off:off + n]
            bools = any(isinstance(v, bool) or z3.is_bool(v) for v in vals)
            w = None
            for v in vals:
                if z3.is_bv(v):
                    w = v.size()
            if not bools and w is None:
                w = 64
                # width unknown: constant table, choose by fork-free ITE on 64 bits; caller truncates
                raise_w = True
            out = None
            groups = {}
            for k, v in enumerate(vals):
                groups.setdefault(v if isinstance(v, (int, bool)) else ('s', k), (v, []))[1].append(k)
            items = sorted(groups.values(), key=lambda g: -len(g[1]))
            conv = (lambda v: tobool(v)) if bools else (lambda v: tobv(v, w))
            out = conv(items[0][0])
            for v, ks in items[1:]:
                out = z3.If(tobool(ranges(idx, ks)), conv(v), out)
            return out
        k = self.ctx.concretize(idx, 0, n - 1)
        return copy(seq[off + k])

    def op_slice(self, fr, t, a):
        x = self.val(fr, a[0])
        lo = self.val(fr, a[1]) if a[1] else 0
        hi = self.val(fr, a[2]) if a[2] else None
        mx = self.val(fr, a[3]) if a[3] else None
        if isinstance(x, OStr):
            raise Unsupported('slice of formatted text')
        if isinstance(x, Str):
            n = len(x)
            lo, hi = self.idx2(lo, n if hi is None else hi, n)
            return Str(x.b[lo:hi])
        if isinstance(x, SliceV):
            hi = x.n if hi is None else hi
            lo, hi = self.idx2(lo, hi, x.cap)
            cap = x.cap if mx is None else mx
            return SliceV(x.a, x.off + lo, hi - lo, cap - lo)
        if x is None:
            raise GoPanic(None, 'nil pointer dereference')
        c = x.c[x.i].f
        hi = len(c) if hi is None else hi
        lo, hi = self.idx2(lo, hi, len(c))
        cap = len(c) if mx is None else mx
        return SliceV(c, lo, hi - lo, cap - lo)

    def idx2(self, lo, hi, n):
        if not isinstance(hi, int):
            if not self.ctx.decide(z3.ULE(hi, n)):
                raise GoPanic(None, 'slice bounds out of range')
            hi = self.ctx.concretize(hi, 0, n)
        if not isinstance(lo, int):
            if not self.ctx.decide(z3.ULE(lo, hi)):
                raise GoPanic(None, 'slice bounds out of range')
            lo = self.ctx.concretize(lo, 0, hi)
        if not (0 <= lo <= hi <= n):
            raise GoPanic(None, 'slice bounds out of range')
        return lo, hi

    def op_store(self, fr, t, a):
        p = self.val(fr, a[0])
        try:
            v = self.val(fr, a[1])
        except Unsupported as ex:
            if not self.tolerant:
                raise
            v = Poison(str(ex))
        if p is None:
            raise GoPanic(None, 'nil pointer dereference')
        if isinstance(p, SymPtr):
            p = Ptr(p.c, p.off + self.ctx.concretize(p.idx, 0, p.n - 1))
        hook = self.env.get('on_store')
        if hook:
            hook(self, p, v)
        assign(p.c, p.i, v)

    def op_un(self, fr, t, a):
        op, o, xt, commaok = a
        x = self.val(fr, o)
        if op == '*':
            if x is None:
                raise GoPanic(None, 'nil pointer dereference')
            if isinstance(x, SymPtr):
                v = self.ite_select(x.c, x.off, x.n, x.idx)
                ii = t.intinfo()
                if ii and z3.is_bv(v) and v.size() != ii[0]:
                    v = z3.Extract(ii[0] - 1, 0, v)
                return v
            if isinstance(x, Native):
                return x
            v = x.c[x.i]
            if type(v) is Lazy:
                v = x.c[x.i] = v.force()
            if type(v) is Poison:
                raise Unsupported('poison: ' + v.why)
            return copy(v)
        if op == '!':
            return Not(x)
        if op == '-':
            if isinstance(x, float):
                return -x
            if z3.is_fp(x):
                return z3.fpNeg(x)
            return norm(-x, t.intinfo()) if isinstance(x, int) else -x
        if op == '^':
            return norm(~x, t.intinfo()) if isinstance(x, int) else ~x
        raise Unsupported('unary ' + op)

    def op_bin(self, fr, t, a):
        op, ox, oy, xt, yt = a
        return self.binop(op, self.val(fr, ox), self.val(fr, oy), xt, yt, t)

    def binop(self, op, x, y, xt, yt, t):
        if op in ('==', '!='):
            e = self.equal(x, y, xt)
            return Not(e) if op == '!=' else e
        ii = xt.intinfo()
        if ii:
            return self.intop(op, x, y, ii, yt)
        b = xt.basic
        if b in FLOATS:
            return self.floatop(op, x, y, FLOATS[b])
        if b in ('string', 'untyped string'):
            if op == '+':
                return self.concat(x, y)
            if isinstance(x, OStr) or isinstance(y, OStr):
                raise Unsupported('comparison of formatted text')
            if op == '<':
                return strs.lt(x, y)
            if op == '>':
                return strs.lt(y, x)
            if op == '<=':
                return Not(strs.lt(y, x))
            if op == '>=':
                return Not(strs.lt(x, y))
        raise Unsupported('binary %s on %s' % (op, xt.s))

    def concat(self, x, y):
        if isinstance(x, OStr) or isinstance(y, OStr):
            if isinstance(x, Str) and not len(x):
                return y
            if isinstance(y, Str) and not len(y):
                return x
            return OStr('+', (x, y))
        return Str(x.b + y.b)

    def intop(self, op, x, y, ii, yt):
        w, s = ii
        if isinstance(x, int) and isinstance(y, int):
            if op == '+':
                return norm(x + y, ii)
            if op == '-':
                return norm(x - y, ii)
            if op == '*':
                return norm(x * y, ii)
            if op == '<':
                return x < y
            if op == '<=':
                return x <= y
            if op == '>':
                return x > y
            if op == '>=':
                return x >= y
            if op in ('/', '%'):
                if y == 0:
                    raise GoPanic(None, 'integer divide by zero')
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return norm(q, ii) if op == '/' else norm(x - q * y, ii)
            if op == '&':
                return norm(x & y, ii)
            if op == '|':
                return norm(x | y, ii)
            if op == '^':
                return norm(x ^ y, ii)
            if op == '&^':
                return norm(x & ~y, ii)
            if op in ('<<', '>>'):
                if y < 0:
                    raise GoPanic(None, 'negative shift amount')
                if op == '<<':
                    return norm(x << y, ii) if y < w else 0
                return norm(x >> y, ii)
            raise Unsupported('int ' + op)
        if op in ('<<', '>>'):
            yi = yt.intinfo()
            yy = tobv(y, yi[0])
            if yi[1] and not isinstance(y, int):
                if self.ctx.decide(yy < 0):
                    raise GoPanic(None, 'negative shift amount')
            X = tobv(x, w)
            if yi[0] > w:
                big = z3.UGE(yy, w)
                Y = z3.Extract(w - 1, 0, yy)
            else:
                big = z3.UGE(yy, w) if w < (1 << yi[0]) else z3.BoolVal(False)
                Y = z3.ZeroExt(w - yi[0], yy) if yi[0] < w else yy
            if op == '<<':
                return z3.If(big, z3.BitVecVal(0, w), X << Y)
            if s:
                return z3.If(big, X >> (w - 1), X >> Y)
            return z3.If(big, z3.BitVecVal(0, w), z3.LShR(X, Y))
        X, Y = tobv(x, w), tobv(y, w)
        if op == '+':
            return X + Y
        if op == '-':
            return X - Y
        if op == '*':
            return X * Y
        if op == '<':
            return X < Y if s else z3.ULT(X, Y)
        if op == '<=':
            return X <= Y if s else z3.ULE(X, Y)
        if op == '>':
            return X > Y if s else z3.UGT(X, Y)
        if op == '>=':
            return X >= Y if s else z3.UGE(X, Y)
        if op in ('/', '%'):
            if self.ctx.decide(Y == 0):
                raise GoPanic(None, 'integer divide by zero')
            if op == '/':
                return X / Y if s else z3.UDiv(X, Y)
            return z3.SRem(X, Y) if s else z3.URem(X, Y)
        if op == '&':
            return X & Y
        if op == '|':
            return X | Y
        if op == '^':
            return X ^ Y
        if op == '&^':
            return X & ~Y
        raise Unsupported('int ' + op)

    def floatop(self, op, x, y, w):
        if isinstance(x, float) and isinstance(y, float):
            if op == '<':
                return x < y
            if op == '<=':
                return x <= y
            if op == '>':
                return x > y
            if op == '>=':
                return x >= y
            try:
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
            except (KeyError, ZeroDivisionError):
                raise Unsupported('float ' + op)
            return f32(v) if w == 32 else v
        X, Y = tofp(x, w), tofp(y, w)
        if op == '<':
            return z3.fpLT(X, Y)
        if op == '<=':
            return z3.fpLEQ(X, Y)
        if op == '>':
            return z3.fpGT(X, Y)
        if op == '>=':
            return z3.fpGEQ(X, Y)
        if op == '+':
            return z3.fpAdd(RNE, X, Y)
        if op == '-':
            return z3.fpSub(RNE, X, Y)
        if op == '*':
            return z3.fpMul(RNE, X, Y)
        if op == '/':
            return z3.fpDiv(RNE, X, Y)
        raise Unsupported('float ' + op)

    def equal(self, x, y, t=None):
        if isinstance(x, (Str, OStr)) and isinstance(y, (Str, OStr)):
            return strs.eq(x, y)
        if isinstance(x, float) or isinstance(y, float) or z3.is_fp(x) or z3.is_fp(y):
            if isinstance(x, float) and isinstance(y, float):
                return x == y
            w = 32 if (z3.is_fp(x) and x.sort() == z3.Float32()) or (z3.is_fp(y) and y.sort() == z3.Float32()) else 64
            return z3.fpEQ(tofp(x, w), tofp(y, w))
        if is_sym(x) or is_sym(y):
            if z3.is_bool(x) or z3.is_bool(y):
                return Iff(x, y)
            if isinstance(x, bool) or isinstance(y, bool):
                return Iff(x, y)
            if (is_sym(x) or isinstance(x, int)) and (is_sym(y) or isinstance(y, int)):
                return x == y
            raise Unsupported('equality of mixed values')
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
            return x == y
        if isinstance(x, SliceV) or isinstance(y, SliceV):
            # only comparison with nil is legal Go
            s = x if isinstance(x, SliceV) else y
            o = y if s is x else x
            if isinstance(o, SliceV):
                if o.a is None:
                    return s.a is None
                return o.a is None if s.a is None else s.a is o.a
            return s.a is None
        if x is None or y is None:
            return x is None and y is None
        if isinstance(x, StructV):
            return And([self.equal(p, q) for p, q in zip(x.f, y.f)])
        if isinstance(x, Ptr):
            return x.same(y)
        if isinstance(x, Iface) and isinstance(y, Iface):
            if x.t.id != y.t.id:
                return False
            if x.t.u.k in ('slice', 'map', 'func'):
                raise GoPanic(None, 'comparing uncomparable type')
            return self.equal(x.v, y.v, x.t)
        if isinstance(x, Native) or isinstance(y, Native):
            return x is y
        if isinstance(x, MapV) or isinstance(y, MapV):
            return x is y
        if type(x) is not type(y):
            return False
        raise Unsupported('equality of %s' % type(x).__name__)

    def op_conv(self, fr, t, a):
        x = self.val(fr, a[0])
        return self.convert(x, a[1], t)

    def convert(self, x, ft, t):
        fi, ti = ft.intinfo(), t.intinfo()
        if fi and ti:
            if isinstance(x, int):
                return norm(x, ti)
            if ti[0] == fi[0]:
                return x
            if ti[0] < fi[0]:
                return z3.Extract(ti[0] - 1, 0, x)
            return z3.SignExt(ti[0] - fi[0], x) if fi[1] else z3.ZeroExt(ti[0] - fi[0], x)
        fb, tb = ft.basic, t.basic
        if fb in FLOATS and tb in FLOATS:
            if isinstance(x, float):
                return f32(x) if FLOATS[tb] == 32 else x
            return z3.fpFPToFP(RNE, x, z3.Float32() if FLOATS[tb] == 32 else z3.Float64())
        if fi and tb in FLOATS:
            if isinstance(x, int):
                return f32(float(x)) if FLOATS[tb] == 32 else float(x)
            so = z3.Float32() if FLOATS[tb] == 32 else z3.Float64()
            return z3.fpSignedToFP(RNE, x, so) if fi[1] else z3.fpUnsignedToFP(RNE, x, so)
        if fb in FLOATS and ti:
            if isinstance(x, float):
                return norm(int(x), ti)
            return z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(ti[0])) if ti[1] else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(ti[0]))
        if tb in ('string', 'untyped string'):
            if isinstance(x, SliceV):
                if ft.elem.intinfo()[0] == 8:
                    return Str(tuple(x.items()))
                out = ()
                for r in x.items():
                    out += strs.encode_rune(self.ctx, r)
                return Str(out)
            if isinstance(x, (Str, OStr)):
                return x
            if fi:
                if isinstance(x, int):
                    return Str(strs.encode_rune(self.ctx, x))
                X = x
                if fi[0] > 32:
                    X = z3.Extract(31, 0, x)
                elif fi[0] < 32:
                    X = z3.SignExt(32 - fi[0], x) if fi[1] else z3.ZeroExt(32 - fi[0], x)
                return Str(strs.encode_rune(self.ctx, X))
        if t.u.k == 'slice' and isinstance(x, (Str, OStr)):
            if isinstance(x, OStr):
                raise Unsupported('bytes of formatted text')
            if t.elem.intinfo()[0] == 8:
                return SliceV(list(x.b), 0, len(x.b), len(x.b))
            rs = strs.runes_of(self.ctx, x)
            return SliceV(rs, 0, len(rs), len(rs))
        if t.u.k in ('ptr',) or ft.u.k in ('ptr',) or tb == 'Pointer' or fb == 'Pointer':
            return x
        raise Unsupported('conversion %s -> %s' % (ft.s, t.s))

    def op_mkiface(self, fr, t, a):
        return Iface(a[1], self.val(fr, a[0]))

    def op_tassert(self, fr, t, a):
        x = self.val(fr, a[0])
        at = a[1]
        if isinstance(x, Native):
            raise Unsupported('type assertion on native')
        if at.u.k == 'iface':
            ok = x is not None and self.srv.implements(x.t, at)
            v = x if ok else None
        else:
            ok = x is not None and x.t.id == at.id
            v = copy(x.v) if ok else zero(at)
        if a[2]:
            return (v, ok)
        if not ok:
            raise GoPanic(None, 'interface conversion')
        return v

    def op_closure(self, fr, t, a):
        return FuncV(a[0], tuple(self.val(fr, b) for b in a[1]))

    def op_mkmap(self, fr, t, a):
        return MapV()

    def op_mkslice(self, fr, t, a):
        n = self.val(fr, a[0])
        cap = self.val(fr, a[1])
        if not isinstance(n, int):
            n = self.ctx.concretize(n, 0, 64)
        if not isinstance(cap, int):
            cap = n
        if n < 0 or n > 1 << 16:
            raise GoPanic(None, 'makeslice: len out of range')
        et = t.elem
        return SliceV([zero(et) for _ in range(max(n, min(cap, 4096)))], 0, n, max(n, min(cap, 4096)))

    def op_mkchan(self, fr, t, a):
        raise Unsupported('chan')

    # maps
    def map_find(self, m, k):
        """Forks on which entry matches; returns the entry or None."""
        if m is None:
            return None
        for e in m.e:
            if self.ctx.decide(self.equal(e[0], k)):
                return e
        return None

    def op_lookup(self, fr, t, a):
        x = self.val(fr, a[0])
        k = self.val(fr, a[1])
        commaok, xt = a[2], a[3]
        if isinstance(x, Str):
            idx = self.bounds(k, len(x))
            return x.b[idx] if isinstance(idx, int) else self.ite_select(x.b, 0, len(x), idx)
        if isinstance(k, Iface) and k.t.u.k in ('slice', 'map', 'func'):
            raise GoPanic(None, 'hash of unhashable type')
        et = xt.elem
        unit = et.u.k == 'struct' and not et.u.d['f']
        if x is None:
            return (zero(et), False) if commaok else zero(et)
        if unit and commaok:
            return (zero(et), Or([self.equal(e[0], k) for e in x.e]))
        scal = et.basic in ('bool',) or et.intinfo()
        if scal:
            ok = False
            v = zero(et)
            for e in reversed(x.e):
                c = self.equal(e[0], k)
                ok = Or(c, ok)
                cc = conc_bool(c)
                if cc is True:
                    v = e[1]
                elif cc is None:
                    v = self.merge_val(c, e[1], v, et)
            return (v, ok) if commaok else v
        if commaok and fr is not None and et.basic in ('string',) and all(isinstance(e[1], Str) for e in x.e) and self.only_ok_used(fr, t, a):
            return (Poison('map value'), Or([self.equal(e[0], k) for e in x.e]))
        e = self.map_find(x, k)
        v = copy(e[1]) if e is not None else zero(et)
        return (v, e is not None) if commaok else v

    def only_ok_used(self, fr, t, a):
        key = id(a)
        c = ONLYOK.get(key)
        if c is None:
            f = fr.fn
            reg = None
            for b in f.blocks:
                for i in b['i']:
                    if i[3] is a:
                        reg = i[0]
            used = False
            for b in f.blocks:
                for i in b['i']:
                    if i[2] == 'extract' and i[3][0] == ('r', reg) and i[3][1] == 0:
                        # extracted register used anywhere?
                        used = used or reg_used(f, i[0])
            c = ONLYOK[key] = (not used, a)
        return c[0]

    def op_mapupdate(self, fr, t, a):
        m, k, v = self.val(fr, a[0]), self.val(fr, a[1]), None
        try:
            v = self.val(fr, a[2])
        except Unsupported as ex:
            if not self.tolerant:
                raise
            v = Poison(str(ex))
        if m is None:
            raise GoPanic(None, 'assignment to entry in nil map')
        hook = self.env.get('on_store')
        if hook:
            hook(self, m, v)
        if self.tolerant and isinstance(self.ctx, ConcreteCtx):
            m.e.append([copy(k), copy(v)])
            return
        e = self.map_find(m, k)
        if e is not None:
            e[1] = copy(v)
        else:
            m.e.append([copy(k), copy(v)])

    def op_range(self, fr, t, a):
        x = self.val(fr, a[0])
        if isinstance(x, OStr):
            raise Unsupported('range over formatted text')
        if isinstance(x, Str):
            return ['str', x, 0]
        return ['map', [] if x is None else list(x.e), 0, x]

    def op_next(self, fr, t, a):
        it = self.val(fr, a[0])
        if it[0] == 'str':
            if it[2] >= len(it[1]):
                return (False, 0, 0)
            i = it[2]
            r, w = strs.decode_rune(self.ctx, it[1].b, i)
            it[2] += w
            return (True, i, r)
        while it[2] < len(it[1]):
            e = it[1][it[2]]
            it[2] += 1
            if any(e is x for x in it[3].e):
                return (True, copy(e[0]), copy(e[1]))
        ts = t.d['f']
        return (False, zero(self.srv.types[ts[1]]) if ts[1] is not None else None, None)

    def op_rundefers(self, fr, t, a):
        self.rundefers(fr)

    def op_panic(self, fr, t, a):
        v = self.val(fr, a[0])
        raise GoPanic(v, 'panic %r' % (v.v if isinstance(v, Iface) else v,))

    def op_defer(self, fr, t, a):
        thunk = self.prep_call(fr, t, a)
        fr.defers.append(thunk)

    def op_go(self, fr, t, a):
        raise Unsupported('go statement')

    def op_call(self, fr, t, a):
        return self.prep_call(fr, t, a)()

    def prep_call(self, fr, t, a):
        if a[0] == 'invoke':
            recv = self.val(fr, a[1])
            args = [self.val(fr, x) for x in a[4]]
            name = a[2]
            if recv is None:
                raise GoPanic(None, 'nil interface method call ' + name)
            if isinstance(recv, Native):
                return lambda: recv.invoke(self, name, args)
            if isinstance(recv.v, Native) and hasattr(recv.v, 'invoke'):
                return lambda: recv.v.invoke(self, name, args)
            return lambda: self.call_method(recv.t, recv.v, name, args)
        fn = a[1]
        if fn[0] == 'b':
            args = [self.val(fr, x) for x in a[2]]
            return lambda: self.builtin(fr, fn[1], args, a[3], t)
        if fn[0] == 'f':
            if self.tolerant and self.depth == 1:
                name = self.srv.fn(fn[1]).name
                if name.endswith('.init') or '.init#' in name:
                    return lambda: None
            args = [self.val(fr, x) for x in a[2]]
            return lambda: self.call_id(fn[1], args)
        fv = self.val(fr, fn)
        args = [self.val(fr, x) for x in a[2]]
        return lambda: self.call_value(fv, args)

    def builtin(self, fr, name, args, ats, t):
        x = args[0] if args else None
        if name == 'len':
            if isinstance(x, OStr):
                raise Unsupported('len of formatted text')
            if isinstance(x, Str):
                return len(x)
            if isinstance(x, SliceV):
                return x.n
            if isinstance(x, MapV):
                return len(x.e)
            if isinstance(x, StructV):
                return len(x.f)
            return 0
        if name == 'cap':
            return x.cap
        if name == 'append':
            s, y = args
            ys = list(y.b) if isinstance(y, Str) else y.items()
            if not ys:
                return s
            if s.a is not None and s.n + len(ys) <= s.cap:
                for k, v in enumerate(ys):
                    assign(s.a, s.off + s.n + k, copy(v))
                return SliceV(s.a, s.off, s.n + len(ys), s.cap)
            na = [copy(v) for v in s.items()] + [copy(v) for v in ys]
            return SliceV(na, 0, len(na), len(na))
        if name == 'copy':
            d, y = args
            ys = list(y.b) if isinstance(y, Str) else [copy(v) for v in y.items()]
            n = min(d.n, len(ys))
            for k in range(n):
                assign(d.a, d.off + k, ys[k])
            return n
        if name == 'delete':
            m, k = args
            e = self.map_find(m, k)
            if e is not None:
                m.e.remove(e)
            return None
        if name == 'clear':
            if isinstance(x, MapV):
                x.e.clear()
            return None
        if name in ('min', 'max'):
            v = x
            for y in args[1:]:
                c = self.binop('<', y, v, ats[0], ats[0], None)
                c = c if name == 'min' else Not(Or(c, self.equal(y, v)))
                v = self.merge_val(c, y, v, ats[0]) if conc_bool(c) is None else (y if c else v)
            return v
        if name == 'recover':
            # the panicking frame is the caller of the deferred function
            for f in reversed(self.frames[:-1]):
                if f.panic is not None:
                    p = f.panic
                    f.panic = None
                    return p.val if p.val is not None else Iface(None, p.why)
            return None
        if name in ('print', 'println'):
            return None
        if name.startswith('ssa:wrapnilchk'):
            if x is None:
                raise GoPanic(None, 'nil receiver')
            return x
        if name == 'String':   # unsafe.String
            return Str(tuple(x.c[x.i:x.i + args[1]])) if x is not None else EMPTY
        if name == 'StringData':
            return Ptr(list(x.b), 0)
        if name == 'SliceData':
            return Ptr(x.a, x.off) if x.a is not None else None
        raise Unsupported('builtin ' + name)


def ranges(idx, ks):
    """Formula idx in ks, compressed to intervals."""
    out, i = [], 0
    while i < len(ks):
        j = i
        while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1:
            j += 1
        out.append(idx == ks[i] if i == j else z3.And(z3.UGE(idx, ks[i]), z3.ULE(idx, ks[j])))
        i = j + 1
    return Or(out)


def reg_used(f, reg):
    ref = ('r', reg)

    def has(x):
        if x == ref:
            return True
        if isinstance(x, (list, tuple)) and not (len(x) and x[0] in ('c', 'g')):
            return any(has(y) for y in x if isinstance(y, (list, tuple)))
        return False
    return any(has(i[3]) for b in f.blocks for i in b['i'])


ONLYOK = {}
INIT_CACHE = {}
MERGE_FAIL = object()


class NoFork(Exception):
    pass


class _NoForkCtx:
    class _S:
        steps = 0
        functions = set()
        stubs = set()
    stats = _S()

    def decide(self, c):
        cb = conc_bool(c)
        if cb is not None:
            return cb
        raise NoFork()

    def concretize(self, v, lo, hi):
        if isinstance(v, int):
            return v
        raise NoFork()

    def choose(self, n, what=''):
        raise NoFork()


NOFORK = _NoForkCtx()


class ConcreteCtx:
    """Used while package initialisers run: no symbolic values exist there."""
    def __init__(self, base):
        self.stats = base.stats
        self.base = base

    def decide(self, c):
        cb = conc_bool(z3.simplify(c)) if is_sym(c) else c
        if cb is None:
            raise Unsupported('symbolic initialiser')
        return cb

    def concretize(self, v, lo, hi):
        if isinstance(v, int):
            return v
        raise Unsupported('symbolic initialiser')

    def fresh(self, n):
        raise Unsupported('symbolic initialiser')

    def choose(self, n, what=''):
        raise Unsupported('symbolic initialiser')


def deep(v, memo):
    """Deep copy preserving aliasing, for package-state snapshots."""
    if isinstance(v, (int, float, bool, Str, OStr, FuncV, Type, BoundIntrinsic, str)) or v is None or is_sym(v):
        return v
    k = id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, list):
        r = []
        memo[k] = (r, v)
        r.extend(deep(x, memo) for x in v)
        return r
    if isinstance(v, tuple):
        return tuple(deep(x, memo) for x in v)
    if isinstance(v, StructV):
        r = StructV(None)
        memo[k] = (r, v)
        r.f = deep(v.f, memo)
        return r
    if isinstance(v, Ptr):
        r = Ptr(None, v.i)
        memo[k] = (r, v)
        r.c = deep(v.c, memo)
        return r
    if isinstance(v, SliceV):
        r = SliceV(None, v.off, v.n, v.cap)
        memo[k] = (r, v)
        r.a = deep(v.a, memo)
        return r
    if isinstance(v, MapV):
        r = MapV()
        memo[k] = (r, v)
        r.e = deep(v.e, memo)
        return r
    if isinstance(v, Iface):
        r = Iface(v.t, None)
        memo[k] = (r, v)
        r.v = deep(v.v, memo)
        return r
    return v
