"""Properties P01..P03: Python validation against the reference. validator.py
renders one function per message type; the rendered text and the helpers it
calls are executed symbolically by pysym."""
import ast
import concurrent.futures
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time
import traceback

import z3

from . import util, matrix, strs
from . import gosuite as g
from .util import Scratch, BuildError, log
from .core import Ctx, And, Or, Not, Iff, is_sym, conc_bool, tobool, Unsupported
from .strs import Str
from .amsg import Builder
from .gofront import MsgOpts, sel
from .gointrin import TW, sx
from .spec import Spec
from .runner import Result
from .javasuite import JREP, variants as jvariants, uses_clock
from . import pysym
from .pysym import Py, PyExc, PMsg, classify

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pystub')
PYSRC = os.path.join(util.REPO, 'python')
VALIDATOR = os.path.join(PYSRC, 'protoc_gen_validate', 'validator.py')


class PySpec(Spec):
    def pattern(self, pat, v):
        t = pat.decode('utf8', 'surrogateescape')
        prog = self.regex(t)
        n = len(v)
        # the dialect of the language's own engine
        if '$' in t and n:
            self.dontcare.append(strs.beq(v.b[-1], 10))
        if re.search(r'\\[dswDSWbB]|\(\?i|\[\^|\.', t):
            if re.search(r'\\[dswDSWbB]|\(\?i', t) or not self.text:
                self.dontcare.append(Or([False] + [Not(strs.rng(x, 0, 127)) for x in v.b]))
        if not self.text:
            self.dontcare.append(Not(strs.valid_utf8(v.b)))
        return strs.match(prog, v.b)

    text = True

    def bytes(self, r, v):
        self.text = False
        try:
            return Spec.bytes(self, r, v)
        finally:
            self.text = True

    def eqv(self, f, a, b):
        if f.type in ('float', 'double'):
            self.dontcare.append(Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))
        return Spec.eqv(self, f, a, b)

    def f_ip(self, v):
        return Or(self.f_ipv4(v), self.f_ipv6(v))

    def f_ipv4(self, v):
        return self.classes('jip4', v) if len(v) >= 7 else False

    def f_ipv6(self, v):
        return self.classes('jip6', v) if len(v) >= 2 else False

    def f_email(self, v):
        self.dontcare.append(True)
        return True

    f_uri = f_uri_ref = f_email

    def duration(self, r, v):
        from .gointrin import dur_valid
        keys = ('in', 'not_in', 'lt', 'lte', 'gt', 'gte', 'const')
        if not any(r.get(k) or k in r for k in keys):
            return True
        s, n = v.f['seconds'], v.f['nanos']
        self.dontcare.append(Not(dur_valid(s, n)))
        return self.nsrange(r, self.ns(s, n))

    def timestamp(self, r, v):
        from .gointrin import ts_valid
        ok = Spec.timestamp(self, r, v)
        self.dontcare.append(Not(ts_valid(v.f['seconds'], v.f['nanos'])))
        if r.get('within') is not None:
            ns = self.ns(v.f['seconds'], v.f['nanos'])
            W = r['within']
            self.dontcare.append(Or(ns == self.shift(self.now(), W, 1), ns == self.shift(self.now(), W, -1)))
        return ok


def pyconc(kind, s):
    r = JREP.get((kind, s.conc().decode('utf8', 'replace')))
    if r is None:
        raise g.Undecided(kind)
    return r


class PyOracle(g.Oracle):
    def spec(self, now):
        def clock():
            if now is None:
                raise g.Undecided('clock')
            return z3.BitVecVal(int(now), TW)
        return PySpec(self.pool, classes=pyconc, now=clock, regex=self.regex)


class PySuite:
    def __init__(self, names, tier, seed):
        self.tier, self.seed = tier, seed
        self.names = list(names)
        self.scratch = Scratch()
        self.texts = matrix.texts(self.names, seed)
        self.scratch.protos(self.texts)
        self.pool = self.scratch.descriptors()
        self.files = ['pgvm/%s.proto' % n for n in self.names]
        self.desc = self.scratch.path('ds.bin')
        self._rx = None

    def drive(self, mode, data):
        p = subprocess.run([sys.executable, os.path.join(STUB, 'pgvdrive.py'), PYSRC, mode, self.desc], input=data.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if p.returncode and mode == 'texts':
            raise BuildError('validator.py fails', p.stderr.decode('utf8', 'replace'))
        if p.returncode:
            log(p.stderr.decode('utf8', 'replace')[-1500:])
        return p.stdout.decode('utf8')

    def build(self, res):
        src = open(VALIDATOR).read()
        try:
            self.mod = ast.parse(src)
        except SyntaxError as e:
            res.violation('build', 'validator.py does not parse: %s' % e, {'error': str(e)})
            return False
        want = sorted(self.pool.messages)
        self.gen = json.loads(self.drive('texts', json.dumps(want)))
        self.renders = renderers(self.mod)
        return True

    def rx(self, pat):
        if self._rx is None or self._rx[0] != os.getpid():
            self._rx = (os.getpid(), g.regex_tool(self))
        return self._rx[1](pat)

    def replay(self, reqs):
        data = ''.join(json.dumps({'v': tree}) + '\n' for _, tree in reqs)
        out = self.drive('check', data).split('\n')[:-1]
        return out + [None] * (len(reqs) - len(out))


def renderers(mod):
    """The outermost functions that render templates and do not run the text."""
    uses, funcs = {}, {}
    tmpl = set()
    for n in mod.body:
        if isinstance(n, ast.ImportFrom) and n.module == 'jinja2' or isinstance(n, ast.Import) and any(a.name == 'jinja2' for a in n.names):
            tmpl |= {a.asname or a.name for a in n.names}
        if isinstance(n, ast.FunctionDef):
            funcs[n.name] = n
            uses[n.name] = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    # module-level template objects
    for n in mod.body:
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in tmpl for x in ast.walk(n.value)):
            tmpl |= {x.id for x in n.targets if isinstance(x, ast.Name)}
    hot = set()
    while True:
        new = {k for k, u in uses.items() if u & (tmpl | hot) and 'exec' not in u and not any(
            'exec' in uses[v] for v in u if v in uses)} - hot
        if not new:
            return hot
        hot |= new


PARSED = {}


def parse(full, text):
    if (full, text) not in PARSED:
        try:
            PARSED[full, text] = ast.parse(text)
        except SyntaxError as e:
            PARSED[full, text] = str(e)
    return PARSED[full, text]


def _init(suite):
    os.environ['PGV_WORKER'] = '1'
    g.W['pool'], g.W['tier'], g.W['py'] = suite.pool, suite.tier, suite


def _task(args):
    try:
        return m_sem(*args)
    except Exception:
        return {'err': traceback.format_exc(), 'full': args[0]}


def variants(py, am, model, pool):
    class J:
        pass
    j = J()
    d = {k: v for k, v in py.env.get('classes', {}).items() if k[0] != 'pmail'}
    j.env = {'classes': d}
    out, classed = jvariants(j, am, model, pool)
    now = None
    if 'now' in py.env:
        now = str(model.eval(py.env['now'], model_completion=True).as_long())
    if getattr(py, 'earlier', None):
        # the trees of the history, the message judged last
        pre = [jvariants(j, e, model, pool)[0][0][0] for e in py.earlier]
        return [(pre + [t], now) for t, _ in out], classed
    return [(t, now) for t, _ in out], classed


def witness(py, am, rec, extra, pool):
    if py.ctx.check() != z3.sat:
        rec['unknown'] += 1
        return
    vs, classed = variants(py, am, py.ctx.model(), pool)
    rec['wit'].append((vs[0][0], vs[0][1], extra, classed or any(k[0] == 'pmail' for k in py.env.get('classes', {}))))


def cex(py, am, rec, bad, what, pool):
    if conc_bool(bad) is False:
        return False
    t = py.ctx.check(tobool(bad))
    if t == z3.unsat:
        return False
    if t != z3.sat:
        rec['unknown'] += 1
        return False
    if len(rec['cex']) < 12:
        vs, _ = variants(py, am, py.ctx.model(), pool)
        rec['cex'].append((what, vs, None))
    return True


def m_sem(full, before=()):
    """validate on a symbolic message, after validate on messages of the types
    before in the same process."""
    suite = g.W['py']
    pool = suite.pool
    md = pool.messages[full]
    ctx = Ctx(deadline=time.time() + (150 if suite.tier == 'quick' else 900))
    rec = {'full': full, 'cex': [], 'wit': [], 'unknown': 0, 'n': {}, 'stats': ctx.stats, 'exhausted': True}
    opts = g.mkopts(md, False)
    hooks = {'texts': suite.gen, 'renders': suite.renders, 'parse': parse}

    def run(c):
        py = Py(suite.mod, c, pool, hooks)
        earlier = [Builder(pool, c, MsgOpts(opts, pool), depth=1, oneof_set=True).message(pool.messages[b], 'h%d' % i) for i, b in enumerate(before)]
        py.earlier = earlier

        def judge():
            sp = PySpec(pool, classes=lambda k, v: classify(py, k, v), now=lambda: pysym.now(py), regex=suite.rx)
            phi = sp.message(am)
            return phi, Or([False] + sp.dontcare)

        def emit(model):
            vs, _ = variants(py, am, model, pool)
            rec['wit'].append((vs[0][0], vs[0][1], None, True))
        am = Builder(pool, c, MsgOpts(opts, pool), depth=2, oneof_set=True).message(md)
        g.escape(c, rec, judge, emit)
        thrown = None
        for b, e in zip(before, earlier):
            try:
                py.call(py.glob['validate'], [PMsg(pool.messages[b], e)])
            except PyExc:
                pass
        try:
            try:
                r = py.call(py.glob['validate'], [PMsg(md, am)])
                if r is not None:
                    thrown = 'returns a value'
            except PyExc as e:
                thrown = e.name()
            except RecursionError:
                raise Unsupported('recursion')
        finally:
            c.stats.steps += py.steps
            c.stats.functions |= py.functions
        phi, dc = judge()
        if thrown in (None, 'ValidationFailed'):
            r = thrown is None
            cex(py, am, rec, And(Not(Iff(phi, r)), Not(dc)), 'validate %s' % ('accepts a message the rules reject' if r else 'rejects a message the rules accept'), pool)
            k = 'accept' if r else 'reject'
            rec['n'][k] = rec['n'].get(k, 0) + 1
            witness(py, am, rec, '1' if r else '0', pool)
        else:
            cex(py, am, rec, Not(dc), 'validate raises %s' % thrown, pool)
            rec['n']['throw'] = rec['n'].get('throw', 0) + 1
            witness(py, am, rec, 'X', pool)
    rec['exhausted'] = bool(ctx.explore(run))
    return rec


PY_ASSUME = [
    'Python semantics of the rendered functions and of the helpers in validator.py, executed from their syntax trees; str, bytes, re and '
    'ipaddress follow their documented contracts.',
    'Jinja2, the protobuf runtime and validate_email are not installed here: small stand-ins render the templates and hold the messages.',
    'Patterns follow Python\'s dialect: a final newline before $, and \\d, \\s, \\w and case folding outside ASCII are left unspecified; e-mail '
    'addresses and URIs are left to their libraries; NaN, malformed durations and timestamps and degenerate ranges are unspecified.',
]


def check(prop, names, tier, seed, bounds):
    res = Result(prop, tier, seed)
    res.bounds = bounds
    res.assumptions = PY_ASSUME
    try:
        suite = PySuite(names, tier, seed)
        suite.scratch.gotool()
        ok = suite.build(res)
    except BuildError as e:
        res.violation('build', str(e)[-1500:], {'output': e.out[-6000:]})
        return res.finish()
    if not ok:
        return res.finish()
    only = [m.full for m in sel(suite.pool, suite.files)]
    flt = os.environ.get('PGV_ONLY')
    if flt:
        only = [x for x in only if re.search(flt, x)]
    reqs, meta = [], []
    counts = {'accept': 0, 'reject': 0, 'throw': 0}
    vac = []
    n = min(g.PROCS, max(1, len(only)))
    with concurrent.futures.ProcessPoolExecutor(n, mp_context=multiprocessing.get_context('fork'), initializer=_init, initargs=(suite,)) as ex:
        for f in concurrent.futures.as_completed([ex.submit(_task, (x,)) for x in g.order(suite, only)]):
            rec = f.result()
            if rec.get('err'):
                res.inconclusive.append('%s: %s' % (rec['full'], ' | '.join(x.strip() for x in rec['err'].strip().split(chr(10))[-4:])[-280:]))
                continue
            res.stats.merge(rec['stats'])
            res.programs += 1
            if not rec['exhausted']:
                res.inconclusive.append('%s: exploration not exhausted' % rec['full'])
            if rec['unknown']:
                res.inconclusive.append('%s: %d solver unknowns' % (rec['full'], rec['unknown']))
            for k in counts:
                counts[k] += rec['n'].get(k, 0)
            for what, vs, extra in rec['cex']:
                for tree, now in vs:
                    reqs.append((rec['full'], tree, now))
                    meta.append(('cex', what, None))
            for tree, now, extra, classed in rec['wit']:
                reqs.append((rec['full'], tree, now))
                meta.append(('wit', None, extra if not classed else None))
            if not (rec['n'].get('accept') or rec['cex']):
                vac.append(rec['full'])
    judge(suite, res, reqs, meta)
    res.extra['accepting_paths'], res.extra['rejecting_paths'], res.extra['throwing_paths'] = counts['accept'], counts['reject'], counts['throw']
    res.extra['messages_without_accepting_path'] = vac
    return res.finish()


TWINS = ['.pgvm.twa.Item', '.pgvm.twa.Item.Item', '.pgvm.twa.Outer.Item', '.pgvm.twa.item', '.pgvm.twa.Item_Item', '.pgvm.twa.Plain', '.pgvm.twa.Off',
         '.pgvm.twb.Item', '.pgvm.twb.Plain', '.pgvm.twb.Off']


def check_hist(prop, names, tier, seed, bounds):
    """Histories: validate on messages of other types (or the same) first."""
    res = Result(prop, tier, seed)
    res.bounds = bounds
    res.assumptions = PY_ASSUME
    try:
        suite = PySuite(names, tier, seed)
        suite.scratch.gotool()
        ok = suite.build(res)
    except BuildError as e:
        res.violation('build', str(e)[-1500:], {'output': e.out[-6000:]})
        return res.finish()
    if not ok:
        return res.finish()
    jobs = [(b, (a,)) for a in TWINS for b in TWINS]
    if tier != 'quick':
        jobs += [(b, (a, c)) for a in TWINS for b in TWINS for c in TWINS[::3] if len({a, b, c}) > 1]
    reqs = []
    with concurrent.futures.ProcessPoolExecutor(g.PROCS, mp_context=multiprocessing.get_context('fork'), initializer=_init, initargs=(suite,)) as ex:
        for f in concurrent.futures.as_completed([ex.submit(_task, j) for j in jobs]):
            rec = f.result()
            if rec.get('err'):
                res.inconclusive.append('%s: %s' % (rec['full'], ' | '.join(x.strip() for x in rec['err'].strip().split(chr(10))[-4:])[-280:]))
                continue
            res.stats.merge(rec['stats'])
            res.programs += 1
            if not rec['exhausted'] or rec['unknown']:
                res.inconclusive.append('%s: not exhausted (%d solver unknowns)' % (rec['full'], rec['unknown']))
            for what, vs, extra in rec['cex']:
                reqs += [(rec['full'], t, 'cex', what, None) for t, _ in vs[:2]]
            for i, (t, now, extra, classed) in enumerate(rec['wit']):
                if i < 2 or extra == 'X':
                    reqs.append((rec['full'], t, 'wit', None, extra))
    with concurrent.futures.ThreadPoolExecutor(g.PROCS) as ex:
        outs = list(ex.map(lambda r: suite.replay([(None, t) for t in r[1]]), reqs))
    orc = PyOracle(suite.pool, suite.rx)
    seen = set()
    for (full, trees, kind, what, extra), os_ in zip(reqs, outs):
        o = os_[-1]
        if o is None or o[0] == 'P':
            res.inconclusive.append('replay unavailable for %s: %s' % (full, o))
            continue
        want = orc.verdict(full, trees[-1], None)
        got = {'1': True, '0': False}.get(o[0])
        if want is not None and got != want:
            key = ' after '.join([full] + [t.get('@type', '?') for t in trees[:-1]])
            if key not in seen:
                seen.add(key)
                res.violation(key, '%s: validate %s %s after %s' % (full, {'1': 'accepts', '0': 'rejects'}.get(o[0], 'raises ' + o[2:] + ' on'), json.dumps(trees[-1]), json.dumps(trees[:-1])),
                              {'history': trees, 'want_valid': want, 'real': o, 'rules': g.rules_text(suite, full), 'how': 'call protoc_gen_validate.validator.validate on these messages in turn'})
        elif kind == 'cex':
            res.unconfirmed.append({'message': full, 'what': what, 'input': trees})
        elif extra is None or o[0] == extra:
            res.validated += 1
            if len(res.samples) < 12:
                res.samples.append({'history': trees, 'valid': got})
        else:
            res.mismatch.append({'message': full, 'input': trees, 'encoded': extra, 'real': o})
    return res.finish()


def judge(suite, res, reqs, meta):
    outs = suite.replay([r[:2] for r in reqs])
    orc = PyOracle(suite.pool, suite.rx)
    confirmed, pend, seen = {}, {}, set()
    for (full, tree, now), (kind, what, extra), o in zip(reqs, meta, outs):
        if o is None or o[0] == 'P':
            res.inconclusive.append('replay unavailable for %s: %s' % (full, o))
            continue
        clock = now is not None
        want = orc.verdict(full, tree, int(time.time() * 10**9) if clock else None)
        got = {'1': True, '0': False}.get(o[0])
        bad = None
        if o[0] == 'X':
            if want is not None:
                bad = 'validate raises ' + o[2:]
        elif want is not None and got != want:
            bad = 'validate %s but the rules say %s' % ('accepts' if got else 'rejects', 'valid' if want else 'invalid')
        if bad:
            if not confirmed.get(full):
                confirmed[full] = res.violation('%s %s' % (full, json.dumps(tree)), '%s: %s on %s' % (full, bad, json.dumps(tree)),
                              {'message': full, 'input': tree, 'want_valid': want, 'real': o, 'rules': g.rules_text(suite, full),
                               'how': 'call protoc_gen_validate.validator.validate on this message'})
        elif kind == 'cex':
            pend.setdefault((full, what), []).append(tree)
        elif extra is not None and not clock:
            if o[0] == extra:
                res.validated += 1
                if len(res.samples) < 12 and full not in seen:
                    seen.add(full)
                    res.samples.append({'message': full, 'input': tree, 'valid': got})
            else:
                res.mismatch.append({'message': full, 'input': tree, 'encoded': extra, 'real': o})
        else:
            res.validated += 1 if want is not None else 0
    for (full, what), trees in pend.items():
        if full not in confirmed:
            res.unconfirmed.append({'message': full, 'what': what, 'input': trees[0]})
