"""Properties G01..G09: generated Go validators against the reference."""
import concurrent.futures
import ipaddress
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import threading
import time
import traceback
import urllib.parse

import z3

from . import util, matrix, strs
from .util import Scratch, BuildError, log, VERIF
from .core import Ctx, Stats, And, Or, Not, Iff, is_sym, conc_bool, tobool, Unsupported, PathEnd, Budget
from .strs import Str, OStr
from .amsg import AMsg, Builder, concrete, WIDTH, default_term
from .spec import Spec, WRAP
from .gossa import (SliceV, MapV, StructV, Iface, Ptr, GoPanic, Native, copy, LoadError)
from .gofront import GoProg, Opts, MsgOpts, Run, sel, gocamel, err_fields, all_errors, thin
from .runner import Result

PROCS = 8


# ------------------------------------------------------------ concrete oracle
def from_tree(pool, md, tree, path='m'):
    if tree is None:
        return None
    m = AMsg(md, path)
    for o in md.oneofs:
        m.sel[o.name] = next((f.name for f in o.fields if f.name in tree), None)
    for f in md.fields:
        if f.name not in tree:
            m.f[f.name] = None
            if f.presence:
                m.unset.add(f.name)
                m.f[f.name] = default_term(pool, f)
            continue
        m.f[f.name] = from_field(pool, f, tree[f.name], path + '.' + f.name)
    return m


def from_field(pool, f, v, p):
    kv = pool.map_kv(f)
    if kv:
        return [(from_value(pool, kv[0], a, p), from_value(pool, kv[1], b, p)) for a, b in v]
    if f.repeated:
        return [from_value(pool, f, x, p) for x in v]
    return from_value(pool, f, v, p)


def from_value(pool, f, v, p):
    if f.type == 'message':
        return from_tree(pool, pool.messages[f.type_name], v, p)
    if f.type in WIDTH:
        return z3.BitVecVal(int(v), WIDTH[f.type])
    if f.type == 'bool':
        return z3.BoolVal(v)
    if f.type in ('float', 'double'):
        w = 32 if f.type == 'float' else 64
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(v['bits']), w), z3.Float32() if w == 32 else z3.Float64()))
    return Str(tuple(bytes.fromhex(v['hex'])))


def conc_class(kind, s):
    c = s.conc()
    t = c.decode('utf8', 'replace')
    if kind in ('isip', 'isip4form'):
        try:
            if '%' in t:
                return False
            a = ipaddress.ip_address(t)
        except ValueError:
            return False
        if kind == 'isip':
            return True
        return a.version == 4 or a.ipv4_mapped is not None
    raise Undecided(kind)


class Undecided(Exception):
    pass


class Oracle:
    """Reference verdict on a concrete message; None when it has no opinion."""

    def __init__(self, pool, regex):
        self.pool, self.regex = pool, regex

    def spec(self, now):
        return Spec(self.pool, classes=conc_class, now=lambda: z3.BitVecVal(now if now is not None else 0, 100),
                    regex=self.regex, email=self.email)

    def email(self, spec, v):
        t = v.conc().decode('utf8', 'replace')
        # plain local@domain texts only
        q = re.fullmatch(r'"([!#-\[\]-~]*)"@([^@]*)', t)
        if not q and not re.fullmatch(r"[A-Za-z0-9]+@[^@]*", t):
            if t == '' or '@' not in t:
                return False
            raise Undecided('email')
        l, d = q.groups() if q else t.split('@')
        t = l + '@' + d
        if not re.fullmatch(r'[A-Za-z0-9.-]*', d) or '..' in d or d.startswith('.') or d.endswith('.'):
            raise Undecided('email')
        return len(t) <= 254 and len(l) <= 64 and conc_bool(z3.simplify(tobool(spec.f_hostname(Str(tuple(d.encode()))))))

    def verdict(self, full, tree, now):
        md = self.pool.messages[full]
        s = self.spec(now)
        try:
            r = s.message(from_tree(self.pool, md, tree))
        except Undecided:
            return None
        dc = conc_bool(z3.simplify(tobool(Or(s.dontcare))))
        if dc is not False:
            return None
        return conc_bool(z3.simplify(tobool(r)))


# texts standing for the classes of the opaque parsers, used only in replays
CANDS = {
    ('isip', 'isip4form'): {(True, True): ['1.2.3.4', '0.0.0.0', '255.255.255.255', '127.0.0.1'],
                            (True, False): ['::1', '2001:db8::7334', 'fe80::1', '::'],
                            (False, None): ['foo', '', '1.2.3', '256.1.1.1', '1.2.3.4:80', '[::1]', ':::1', 'a.b', '1.2.3.4/8', 'g::1']},
    ('isurl', 'isabs'): {(True, True): ['http://a/b', 'mailto:a@b', 's:x'], (True, False): ['/x', 'a/b', '//h/p', 'x?y#z'],
                         (False, None): ['http://[', '%zz', ':', '\x7f']},
}


def substitute(am, tree, classes, keys, pool):
    """All replacements of class-bearing leaves by representative texts.
    classes: {(kind,key): bool}; returns a list of trees."""
    leaves = []

    def walk(m, t):
        for f in m.desc.fields:
            if f.name not in t or m.f.get(f.name) is None:
                continue
            walkf(f, m.f[f.name], t, f.name)

    def walkf(f, v, t, k):
        kv = pool.map_kv(f)
        if kv:
            for i, (a, b) in enumerate(v):
                leaf(kv[0], a, t[k][i], 0)
                leaf(kv[1], b, t[k][i], 1)
        elif f.repeated:
            for i, x in enumerate(v):
                leaf(f, x, t[k], i)
        else:
            leaf(f, v, t, k)

    def leaf(f, v, t, k):
        if v is None:
            return
        if f.type == 'message':
            walk(v, t[k])
        elif isinstance(v, Str):
            leaves.append((v, t, k))
    walk(am, tree)
    from .gointrin import strkey
    for v, t, k in leaves:
        sk = strkey(v)
        got, tail = {}, ''
        # C strings: what counts is the text before the first NUL
        for (kind, key), val in classes.items():
            if isinstance(key, tuple) and len(key) < len(sk) and key == sk[:len(key)] and t[k]['hex'][2 * len(key):].startswith('00'):
                got[kind], tail = val, t[k]['hex'][2 * len(key):]
        if not got:
            got = {kind: val for (kind, key), val in classes.items() if key == sk}
        if not got:
            continue
        for (a, b), tab in CANDS.items():
            if a in got:
                cands = tab.get((got[a], got.get(b) if got[a] else None)) or sum([x for kk, x in tab.items() if kk[0] == got[a]], [])
                return (t, k, [c + bytes.fromhex(tail).decode('utf8', 'ignore') for c in cands])
    return None


# ---------------------------------------------------------------- the suite --
class GoSuite:
    def __init__(self, names, tier, seed, extra_protos=None, scratch=None):
        self.tier, self.seed = tier, seed
        self.names = list(names)
        if ('msg' in self.names or 'ext' in self.names) and 'mso' not in self.names:
            self.names.append('mso')
        self.scratch = scratch or Scratch()
        self.scratch.protos(matrix.texts(self.names, seed))
        self.pool = self.scratch.descriptors()
        self.files = ['pgvm/%s.proto' % n for n in self.names]
        self.pkgs = ['pgvscratch/m_%s' % n for n in self.names]

    def build(self, res):
        """Generates and compiles; a failure of /repo's code is a violation."""
        try:
            self.scratch.gen_go(self.scratch.protonames)
        except BuildError as e:
            res.violation('build', 'the generator fails on a legal rule set: ' + e.out[-1500:],
                          {'protos': matrix.texts(self.names, self.seed), 'output': e.out[-6000:]})
            return False
        rc, o = util.run(['go', 'build', './...'], cwd=self.scratch.gomodule(), env=self.scratch.env)
        if rc:
            if 'pb.validate.go' in o:
                res.violation('build', 'generated Go validators do not compile: ' + o[-1500:],
                              {'protos': matrix.texts(self.names, self.seed), 'output': o[-6000:]})
                return False
            raise RuntimeError('go build: ' + o)
        return True

    # ---- replay ------------------------------------------------------
    def start_replay(self):
        self.rep = None
        self.rep_thread = threading.Thread(target=self._build_replay)
        self.rep_thread.start()

    def _build_replay(self):
        s = self.scratch
        src, dst = s.gomodule(), os.path.join(s.dir, 'goreplay')
        shutil.copytree(src, dst)
        imports, regs, wraps = [], [], []
        byname = {}
        for n in self.names:
            imports.append('m_%s "pgvscratch/m_%s"' % (n, n))
            d = os.path.join(dst, 'm_' + n)
            for f in os.listdir(d):
                p = os.path.join(d, f)
                t = open(p).read()
                if f.endswith('.pb.validate.go'):
                    if 'time.Now' in t:
                        t = t.replace('time.Now', 'pgvclock.Now')
                        t = re.sub(r'(?m)^(package \w+)$', r'\1\nimport "pgvscratch/pgvclock"', t, count=1)
                        open(p, 'w').write(t)
                elif f.endswith('.pb.go'):
                    for w in re.findall(r'\(\*([A-Z]\w*)\)\(nil\),', t):
                        wraps.append('reflect.TypeOf((*m_%s.%s)(nil)),' % (n, w))
            for m in self.pool.files['pgvm/%s.proto' % n].all_messages():
                parts, p = [m.name], m.parent
                while p is not None:
                    parts.append(p.name)
                    p = p.parent
                g = '_'.join(gocamel(x) for x in reversed(parts))
                regs.append('"%s": func() interface{} { return &m_%s.%s{} },' % (m.full, n, g))
        t = open(os.path.join(VERIF, 'replay', 'main.go.txt')).read()
        t = t.replace('//IMPORTS', '\n\t'.join(imports)).replace('//REGISTRY', '\n\t'.join(regs)).replace('//WRAPPERS', '\n\t'.join(wraps))
        os.makedirs(os.path.join(dst, 'pgvclock'))
        os.makedirs(os.path.join(dst, 'driver'))
        shutil.copy(os.path.join(VERIF, 'replay', 'clock.go.txt'), os.path.join(dst, 'pgvclock', 'clock.go'))
        open(os.path.join(dst, 'driver', 'main.go'), 'w').write(t)
        rc, o = util.run(['go', 'build', '-o', s.path('bin', 'driver'), './driver'], cwd=dst, env=s.env)
        self.rep = (rc, o)

    def replay(self, reqs):
        """reqs: [{'t','v','now'}] -> list of results (None when unavailable)."""
        self.rep_thread.join()
        if self.rep is None or self.rep[0]:
            log('replay driver does not build: %s' % (self.rep and self.rep[1][-2000:]))
            return [None] * len(reqs)
        data = '\n'.join(json.dumps(r) for r in reqs) + '\n'
        p = subprocess.run([self.scratch.path('bin', 'driver')], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        out = [json.loads(l) for l in p.stdout.decode().split('\n') if l]
        if len(out) != len(reqs):
            log('replay driver died: ' + p.stderr.decode()[-1500:])
        return out + [None] * (len(reqs) - len(out))


# ----------------------------------------------------------------- workers --
W = {}


def _init(scratch, pool, pkgs, tier):
    os.environ['PGV_WORKER'] = '1'
    W['pool'], W['tier'], W['pkgs'] = pool, tier, pkgs
    W['err'] = None
    try:
        W['prog'] = GoProg(scratch, pool, pkgs)
    except LoadError as e:
        W['err'] = str(e)


def _task(args):
    if W['err']:
        return {'err': W['err'], 'full': args[1], 'mode': args[0]}
    try:
        return MODES[args[0]](*args[1:])
    except Exception:
        return {'err': traceback.format_exc(), 'full': args[1], 'mode': args[0]}


RICH = ('hostname', 'uuid', 'email', 'address', 'well_known_regex')


def rich_count(pool, md, seen=()):
    n = 0
    if md.full in seen:
        return 0
    for f in md.fields:
        r = f.rules or {}
        rs = [r.get('string', {})]
        if 'repeated' in r:
            rs.append(r['repeated'].get('items', {}).get('string', {}))
        if 'map' in r:
            rs.append(r['map'].get('keys', {}).get('string', {}))
            rs.append(r['map'].get('values', {}).get('string', {}))
        for s in rs:
            if any(s.get(k) for k in RICH):
                n += 1 if 'string' in r else 2
        if f.type == 'message' and f.type_name in pool.messages and not f.type_name.startswith('.google'):
            n += rich_count(pool, pool.messages[f.type_name], seen + (md.full,))
    return n


class LiteOpts(Opts):
    """Small sizes: used where the property concerns structure, not text."""
    big = False

    def scalar(self, f, r):
        s = (r or {}).get('string', {})
        if f.type == 'string' and any(s.get(k) for k in RICH + ('ip', 'ipv4', 'ipv6', 'uri', 'uri_ref')):
            if s.get('uuid'):
                return {'lens': [0, (48,) * 8 + (45,) + (48,) * 4 + (45,) + (48,) * 4 + (45,) + (48,) * 4 + (45,) + (None,) + (48,) * 11]}
            return {'lens': [0, 1, 2]}
        o = Opts.scalar(self, f, r)
        if 'lens' in o:
            ls = o['lens']
            ls = [x for x in ls if isinstance(x, int)]
            if len(ls) > 4:
                ls = [ls[0], ls[len(ls) // 2], ls[-1]]
            o['lens'] = ls
        return o

    def make(self, f, path):
        o = Opts.make(self, f, path)
        if 'items' in o and not (f.rules or {}).get('repeated', {}).get('unique') and o['items'][-1] <= 3:
            o['items'] = sorted(set([o['items'][0], min(2, o['items'][-1]), o['items'][-1]]))
        return o


def mkopts(md, lite=False):
    pool, tier = W['pool'], W['tier']
    if lite or rich_count(pool, md) > 1:
        return LiteOpts(pool, tier)
    return Opts(pool, tier)


def explore(full, body, lite=False, nil_items=False, depth=2, secs=None):
    """Runs body(run, am, rec) on every path of building a message `full`."""
    pool, prog = W['pool'], W['prog']
    md = pool.messages[full]
    secs = secs or (150 if W['tier'] == 'quick' else 900)
    ctx = Ctx(deadline=time.time() + secs)
    rec = {'full': full, 'cex': [], 'wit': [], 'unknown': 0, 'n': {}}
    opts = mkopts(md, lite)

    def run(c):
        r = Run(prog, c)
        b = Builder(pool, c, MsgOpts(opts, pool), depth=depth, nil_items=nil_items)
        am = b.message(md)
        body(r, am, rec)
    t = time.time()
    done = ctx.explore(run)
    rec['exhausted'] = bool(done)
    rec['stats'] = ctx.stats
    rec['secs'] = time.time() - t
    return rec


def model_now(r, model):
    n = r.it.env.get('now')
    if n is None:
        return None
    return str(model.eval(n, model_completion=True).as_signed_long())


def classes_of(r, model):
    return {k: (z3.is_true(model.eval(v, model_completion=True)) if is_sym(v) else v) for k, v in r.it.env.get('classes', {}).items()}


def mail_sub(r, am, tree, model):
    """Put the parsed address back as the text."""
    pass


def variants(r, am, model, limit=40):
    """Concrete trees for a model: itself, or with representative texts."""
    pool = W['pool']
    tree = concrete(pool, am, model)
    cl = classes_of(r, model)
    now = model_now(r, model)
    if not cl:
        return [(tree, now)], False
    out = []
    # e-mail: the parsed address is the text itself
    if r.mail:
        from .gointrin import strkey
        (k, (addr, at)), = list(r.mail.items())[:1]
        ok = cl.get(('isaddr', k))
        text = bytes(b if isinstance(b, int) else model.eval(b, model_completion=True).as_long() for b in addr.b) if ok else b'foo'
        if ok and not re.fullmatch(b'[a-z]*', text[:at]):
            text = b'"' + text[:at] + b'"' + text[at:]
        text = text.hex()

        def put(m, t):
            for f in m.desc.fields:
                if f.name in t and isinstance(m.f[f.name], Str) and strkey(m.f[f.name]) == k:
                    t[f.name] = {'hex': text}
                elif f.name in t and isinstance(m.f[f.name], AMsg):
                    put(m.f[f.name], t[f.name])
        put(am, tree)
        return [(tree, now)], True
    s = substitute(am, tree, cl, None, pool)
    if s is None:
        return [(tree, now)], True
    t, k, cands = s
    for c in cands[:limit]:
        t[k] = {'hex': c.encode().hex()}
        out.append((json.loads(json.dumps(tree)), now))
    return out, True


def witness(r, am, rec, extra=None):
    """Records a concrete member of the current path for replay."""
    if r.ctx.check() != z3.sat:
        rec['unknown'] += 1
        return
    vs, classed = variants(r, am, r.ctx.model())
    tree, now = vs[0]
    rec['wit'].append((tree, now, extra, classed))


def cex(r, am, rec, bad, what, extra=None):
    """Asks whether `bad` is possible on this path; records a counterexample."""
    c = conc_bool(bad)
    if c is False:
        return False
    t = r.ctx.check(tobool(bad))
    if t == z3.unsat:
        return False
    if t != z3.sat:
        rec['unknown'] += 1
        return False
    if len(rec['cex']) < 12:
        vs, classed = variants(r, am, r.ctx.model())
        rec['cex'].append((what, vs, extra))
    return True


def escape(c, rec, judge, emit, limit=40):
    """What to do when a path leaves what can be encoded: members of the path
    so far that the rules admit and that they forbid are still replayed."""
    def cb():
        if rec.get('escapes', 0) >= limit:
            return
        rec['escapes'] = rec.get('escapes', 0) + 1
        phi, dc = judge()
        parts = atoms(phi) if rec['escapes'] <= 6 else []
        for want in (phi, Not(phi)):
            x = And(want, Not(dc))
            if conc_bool(x) is False or c.check(tobool(x)) != z3.sat:
                continue
            m = c.model()
            emit(m)
            # the same verdict for other reasons
            for a in parts:
                y = z3.Not(a) if z3.is_true(m.eval(a, model_completion=True)) else a
                if c.check(tobool(And(x, y))) == z3.sat:
                    emit(c.model())
    c.escape = cb


def atoms(phi, limit=10):
    """The comparisons a verdict is made of."""
    if not is_sym(phi):
        return []
    out, seen, todo = [], set(), [phi]
    while todo and len(out) < limit:
        e = todo.pop(0)
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        k = [x for x in e.children() if z3.is_bool(x)]
        if k:
            todo += k
        elif not z3.is_true(e) and not z3.is_false(e):
            out.append(e)
    return out


# -- mode: verdicts ----------------------------------------------------------
def m_sem(full):
    def body(r, am, rec):
        res = {}

        def judge():
            r.spec.dontcare = []
            phi = r.spec.message(am)
            return phi, Or([False] + r.spec.dontcare)

        def emit(model):
            vs, _ = variants(r, am, model)
            rec['wit'].append((vs[0][0], vs[0][1], None, True))
        escape(r.ctx, rec, judge, emit)
        for meth in ('Validate', 'ValidateAll'):
            e, p = r.call(am, meth)
            if p is not None:
                cex(r, am, rec, True, '%s panics: %s' % (meth, p.why))
                return
            if e == 'nomethod':
                rec['n']['nomethod'] = 1
                return
            res[meth] = e is None
        r.spec.dontcare = []
        phi = r.spec.message(am)
        dc = Or(r.spec.dontcare)
        for meth, v in res.items():
            cex(r, am, rec, And(Not(Iff(phi, v)), Not(dc)), '%s %s' % (meth, 'accepts a message the rules reject' if v else 'rejects a message the rules accept'))
        k = 'accept' if res['Validate'] else 'reject'
        rec['n'][k] = rec['n'].get(k, 0) + 1
        witness(r, am, rec, (res['Validate'], res['ValidateAll']))
    return explore(full, body)


MODES = {'sem': m_sem}


# ----------------------------------------------------------------- drivers --
def run_tasks(suite, tasks, res, handler):
    suite.scratch.gotool()
    ctxm = multiprocessing.get_context('fork')
    n = min(PROCS, max(1, len(tasks)))
    with concurrent.futures.ProcessPoolExecutor(n, mp_context=ctxm, initializer=_init,
                                                initargs=(suite.scratch, suite.pool, suite.pkgs, suite.tier)) as ex:
        futs = [ex.submit(_task, t) for t in tasks]
        for f in concurrent.futures.as_completed(futs):
            rec = f.result()
            if rec.get('err'):
                res.inconclusive.append('%s: %s' % (rec['full'], rec['err'][-600:]))
                continue
            res.stats.merge(rec['stats'])
            res.programs += 1
            if not rec['exhausted']:
                res.inconclusive.append('%s: exploration not exhausted' % rec['full'])
            if rec['unknown']:
                res.inconclusive.append('%s: %d solver unknowns' % (rec['full'], rec['unknown']))
            handler(rec)


def order(suite, fulls):
    """Slow messages first."""
    def cost(full):
        md = suite.pool.messages[full]
        c = rich_count(suite.pool, md) * 10
        for f in md.fields:
            if f.type == 'message' and f.type_name.startswith('.google.protobuf.') and ('duration' in (f.rules or {}) or 'timestamp' in (f.rules or {})):
                c += 3
            if f.repeated:
                c += 2
            if f.type == 'string':
                c += 1
        return -c
    return sorted(fulls, key=cost)


GO_ASSUME = [
    'Go semantics as rendered by golang.org/x/tools/go/ssa; standard-library text, regexp, time, net, mail and url functions follow their documented contracts (stubs listed).',
    'string fields hold valid UTF-8 (proto3); one clock reading per Validate call.',
    'NaN under range rules, degenerate ranges (equal bounds), IPv4-mapped addresses, and durations outside int64 nanoseconds are left unspecified.',
]


def check_sem(prop, names, tier, seed, bounds):
    res = Result(prop, tier, seed)
    res.bounds = bounds
    res.assumptions = GO_ASSUME
    suite = GoSuite(names, tier, seed)
    if not suite.build(res):
        return res.finish()
    suite.start_replay()
    only = [m.full for m in sel(suite.pool, suite.files)]
    flt = os.environ.get('PGV_ONLY')
    if flt:
        only = [x for x in only if re.search(flt, x)]
    tasks = [('sem', f) for f in order(suite, only)]
    reqs, meta = [], []
    counts = {'accept': 0, 'reject': 0}
    vac = []

    def handler(rec):
        for k in counts:
            counts[k] += rec['n'].get(k, 0)
        md = suite.pool.messages[rec['full']]
        for what, vs, extra in rec['cex']:
            for tree, now in vs:
                reqs.append({'t': rec['full'], 'v': tree, 'now': now or ''})
                meta.append(('cex', rec['full'], what, tree, now, None))
        for tree, now, extra, classed in rec['wit']:
            reqs.append({'t': rec['full'], 'v': tree, 'now': now or ''})
            meta.append(('wit', rec['full'], None, tree, now, extra if not classed else None))
        if not rec['n'].get('nomethod') and not (rec['n'].get('accept') or rec['cex']):
            vac.append(rec['full'])
    run_tasks(suite, tasks, res, handler)
    from .gossa import Server
    judge(suite, res, reqs, meta)
    res.extra['accepting_paths'], res.extra['rejecting_paths'] = counts['accept'], counts['reject']
    res.extra['messages_without_accepting_path'] = vac
    return res.finish()


_RX = {}


def regex_tool(suite):
    from .gossa import Server
    srv = Server(suite.scratch.gotool(), suite.scratch.gomodule(), ['errors'], suite.scratch.env)
    return srv.regex


def judge(suite, res, reqs, meta):
    """Replays everything on the real code against the concrete reference."""
    outs = suite.replay(reqs)
    orc = Oracle(suite.pool, regex_tool(suite))
    seen = set()
    confirmed = {}
    pend = {}
    for q, mt, o in zip(reqs, meta, outs):
        kind, full, what, tree, now, extra = mt
        if o is None or 'fail' in o:
            res.inconclusive.append('replay unavailable for %s: %s' % (full, o))
            continue
        want = orc.verdict(full, tree, int(now) if now else None)
        got = {}
        pan = None
        for k in ('v', 'va'):
            if 'panic' in o[k]:
                pan = '%s panics: %s' % ('Validate' if k == 'v' else 'ValidateAll', o[k]['panic'])
            got[k] = o[k].get('ok')
        if o['v'].get('nomethod'):
            continue
        bad = pan or (want is not None and (got['v'] != want or got['va'] != want))
        if bad:
            key = full
            w = pan or 'Validate=%s ValidateAll=%s but the rules say %s' % (got['v'], got['va'], want)
            if full not in confirmed:
                confirmed[full] = True
                res.violation(key, '%s: %s on %s' % (full, w, json.dumps(tree)),
                              {'message': full, 'input': tree, 'now_ns': now, 'want_valid': want, 'real': o,
                               'proto': rules_text(suite, full), 'how': 'go run driver: fill %s from input and call Validate/ValidateAll' % full})
        elif kind == 'cex':
            pend.setdefault((full, what), []).append(tree)
        elif extra is not None:
            if (got['v'], got['va']) == tuple(extra):
                res.validated += 1
                if len(res.samples) < 12 and full not in seen:
                    seen.add(full)
                    res.samples.append({'message': full, 'input': tree, 'now_ns': now, 'valid': got['v']})
            else:
                res.mismatch.append({'message': full, 'input': tree, 'encoded': extra, 'real': [got['v'], got['va']]})
        else:
            res.validated += 1 if want is not None else 0
    for (full, what), trees in pend.items():
        if full not in confirmed:
            res.unconfirmed.append({'message': full, 'what': what, 'input': trees[0]})


def rules_text(suite, full):
    md = suite.pool.messages[full]
    out = []
    for f in md.fields:
        out.append('%s %s: %r' % (f.type_name or f.type, f.name, f.rules))
    return out
