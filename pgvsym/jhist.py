"""Histories of the Java validator indexes and gRPC interceptors: harnesses in
jharness/ drive the real classes with symbolic operations and values; every
Sym.check in them is a solver query, every counterexample runs on the JVM."""
import concurrent.futures
import json
import multiprocessing
import os
import subprocess
import time
import traceback

import z3

from . import javasuite as js, util
from .core import Ctx, Not, Unsupported, conc_bool, tobool
from .jclass import Ref
from .jvm import JVM, JThrow, OPAQUE, ClassPath, intrinsic, stub
from .runner import Result
from .util import BuildError, REPO

HERE = os.path.dirname(os.path.abspath(__file__))
OPAQUE.add('pgvsym/Sym')
PROTOS = {
    'pgvm/idx.proto': '''syntax = "proto3";
package pgvm.idx;
option java_package = "pgvm.idx";
option java_multiple_files = true;
import "validate/validate.proto";
message Req {
  int32 x = 1 [(validate.rules).int32 = {gte: -5, lt: 100}];
  message Inner {
    int32 y = 1 [(validate.rules).int32 = {not_in: [7]}];
    message Deep { int32 z = 1 [(validate.rules).int32.const = 9]; }
  }
}
message Off { option (validate.disabled) = true; int32 x = 1 [(validate.rules).int32.gt = 0]; }
message Skip { option (validate.ignored) = true; int32 x = 1 [(validate.rules).int32.gt = 0]; }
message Holder { Req req = 1; Skip skip = 2; }
''',
    'pgvm/outer.proto': '''syntax = "proto3";
package pgvm.idx;
option java_package = "pgvm.idx";
import "validate/validate.proto";
message One { int32 x = 1 [(validate.rules).int32.lte = 3]; }
message Gone { option (validate.ignored) = true; int32 x = 1 [(validate.rules).int32.gt = 0]; }
''',
}


class Stop(Exception):
    """A check of the harness cannot hold on this path."""


@stub('pgvsym/Sym.choice')
def _choice(j, r, a):
    v = j.ctx.bv('choice', 32)
    first = j.env['first'] if not j.env['vals'] else None
    j.env['vals'].append(v)
    j.ctx.assume(z3.ULT(v, a[0]) if first is None else v == first)
    if first is not None:
        return first
    return j.ctx.concretize(v, 0, a[0] - 1)


@stub('pgvsym/Sym.any')
def _any(j, r, a):
    v = j.ctx.bv('any', 32)
    j.env['vals'].append(v)
    return v


@stub('pgvsym/Sym.concrete')
def _concrete(j, r, a):
    return 0


@stub('java/util/Objects.requireNonNull')
def _rnn(j, r, a):
    if a[0] is None:
        j.throw('java/lang/NullPointerException')
    return a[0]


@stub('pgvsym/Sym.check')
def _check(j, r, a):
    ok = a[0]
    if not isinstance(ok, bool):
        ok = ok != 0
        ok = ok if isinstance(ok, bool) else z3.simplify(ok)
    c = conc_bool(ok)
    if c is True:
        return None
    j.env['bad'](j, Not(ok), bytes(a[1].s.conc()).decode())
    if c is False:
        raise Stop()
    j.ctx.assume(ok)


class HistSuite(js.JavaSuite):
    def __init__(self, tier, seed, grpc):
        js.JavaSuite.__init__(self, ['idx', 'outer'], tier, seed, texts=dict(PROTOS), single=('outer',))
        self.grpc = grpc

    def build(self, res):
        s = self.scratch
        rc, o = s.gen('java', s.protonames, self.src)
        if rc:
            res.violation('build', 'the generator fails on a legal rule set: ' + o[-1500:], {'protos': self.texts, 'output': o[-6000:]})
            return False
        srcs = js.write_stubs(self.nm, self.files, self.stub)
        roots = [js.JLIB, js.RUNTIME] + ([os.path.join(HERE, 'jgrpc'), os.path.join(REPO, 'java/pgv-java-grpc/src/main/java')] if self.grpc else [])
        srcs += [os.path.join(d, f) for root in roots + [self.src] for d, _, fs in os.walk(root) for f in fs if f.endswith('.java')]
        for f in ('Sym', 'HistIndex') + (('HistGrpc',) if self.grpc else ()):
            srcs.append(os.path.join(HERE, 'jharness', f + '.java'))
        main = open(os.path.join(HERE, 'jharness/HistMain.java')).read()
        if not self.grpc:
            main = '\n'.join(x for x in main.split('\n') if 'HistGrpc' not in x)
        srcs.append(s.write('java/stub/pgvsym/HistMain.java', main))
        lst = s.write('java/list', '\n'.join(srcs))
        rc, o = util.run(['javac', '--release', '8', '-nowarn', '-encoding', 'UTF-8', '-Xlint:none', '-Xmaxerrs', '400', '-d', self.cls, '@' + lst], timeout=600)
        if rc and (js.standin_gap(o, '') or any(x in o for x in ('jgrpc/', 'jharness/'))):
            res.inconclusive.append('the code uses library members the stand-ins lack: ' + o[:600])
            return False
        if rc:
            res.violation('build', 'the Java runtime or generated validators do not compile: ' + o[:1500], {'output': o[:6000]})
            return False
        self.cp = ClassPath([self.cls])
        return True

    def replay(self, reqs):
        data = ''.join('%s %d %s\n' % (h, n, ' '.join(map(str, vals))) for h, n, vals in reqs)
        p = subprocess.run(['java', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-cp', self.cls, 'pgvsym.HistMain'], input=data.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        out = p.stdout.decode('utf8', 'replace').split('\n')[:-1]
        return out + [None] * (len(reqs) - len(out))


S = {}


def values(model, vals):
    out = []
    for v in vals:
        k = model.eval(v, model_completion=True).as_long()
        out.append(k - (1 << 32) if k >> 31 else k)
    return out


def task(a):
    harness, n, first = a
    suite = S['suite']
    ctx = Ctx(deadline=time.time() + (300 if suite.tier == 'quick' else 2400))
    rec = {'harness': harness, 'n': n, 'cex': {}, 'wit': [], 'unknown': 0, 'stats': ctx.stats, 'exhausted': True}
    cls = 'pgvsym/Hist' + ('Grpc' if harness in ('server', 'client') else 'Index')

    def bad(j, cond, what):
        k = ctx.check(tobool(cond))
        if k == z3.sat:
            l = rec['cex'].setdefault(what, [])
            if len(l) < 5:
                l.append(values(ctx.model(), j.env['vals']))
        elif k != z3.unsat:
            rec['unknown'] += 1

    def run(c):
        j = JVM(suite.cp, c, {'vals': [], 'bad': bad, 'first': first})
        stop = False
        try:
            j.static(Ref(cls, harness, '(I)V'), [n])
        except JThrow as t:
            bad(j, True, 'throws %s' % t)
            stop = True
        except Stop:
            stop = True
        finally:
            c.stats.steps += j.steps
        if not stop:
            if c.check() == z3.sat:
                rec['wit'].append(values(c.model(), j.env['vals']))
            else:
                rec['unknown'] += 1
    try:
        rec['exhausted'] = bool(ctx.explore(run))
    except Exception:
        rec['err'] = traceback.format_exc()
    return rec


ASSUME = js.JAVA_ASSUME[:2] + [
    'io.grpc and com.google.rpc are stand-ins following the documented gRPC contract: messages, half-close, cancel, complete and ready events arrive one at a time, '
    'messages do not follow a half-close but may follow a close by the server, and closing a server call twice throws IllegalStateException.']


def check(prop, harnesses, tier, seed, bounds):
    """harnesses: {name: (quick length, thorough length, range of the first choice)}"""
    res = Result(prop, tier, seed)
    res.bounds, res.assumptions = bounds, ASSUME
    try:
        suite = HistSuite(tier, seed, any(h in ('server', 'client') for h in harnesses))
        suite.scratch.gotool()
        ok = suite.build(res)
    except BuildError as e:
        res.violation('build', str(e)[-1500:], {'output': e.out[-6000:]})
        return res.finish()
    if not ok:
        return res.finish()
    S['suite'] = suite
    os.environ['PGV_WORKER'] = '1'
    # shorter histories are prefixes; the first choice splits the work between processes
    tasks = [(h, a if tier == 'quick' else b, k) for h, (a, b, m) in harnesses.items() for k in range(m)]
    reqs, meta = [], []
    with concurrent.futures.ProcessPoolExecutor(min(8, len(tasks)), mp_context=multiprocessing.get_context('fork')) as ex:
        for f in concurrent.futures.as_completed([ex.submit(task, t) for t in reversed(tasks)]):
            rec = f.result()
            res.stats.merge(rec['stats'])
            res.programs += 1
            nm = '%s(%d)' % (rec['harness'], rec['n'])
            if rec.get('err'):
                res.inconclusive.append('%s: %s' % (nm, rec['err'].strip()[-300:]))
            elif not rec['exhausted']:
                res.inconclusive.append('%s: exploration not exhausted' % nm)
            if rec['unknown']:
                res.inconclusive.append('%s: %d solver unknowns' % (nm, rec['unknown']))
            for what, l in rec['cex'].items():
                for v in l:
                    reqs.append((rec['harness'], rec['n'], v))
                    meta.append(('cex', what))
            w = rec['wit']
            for v in (w if len(w) <= 4000 else w[::len(w) // 4000 + 1]):
                reqs.append((rec['harness'], rec['n'], v))
                meta.append(('wit', None))
    confirmed, pend = set(), {}
    for rq, (kind, what), o in zip(reqs, meta, suite.replay(reqs)):
        if o is None:
            res.inconclusive.append('replay unavailable for %s' % (rq,))
        elif o[0] == '0':
            k = '%s %s' % (rq[0], o[2:])
            if k not in confirmed:
                confirmed.add(k)
                res.violation(k, '%s of %d operations: %s (choices %s)' % (rq[0], rq[1], o[2:], rq[2]),
                              {'harness': rq[0], 'operations': rq[1], 'values': rq[2], 'real': o, 'how': 'pgvsym/jharness: run the harness with these answers of Sym'})
        elif kind == 'cex':
            pend.setdefault((rq[0], what), rq[2])
        else:
            res.validated += 1
            if len(res.samples) < 12 and len(rq[2]) > 3:
                res.samples.append({'harness': rq[0], 'operations': rq[1], 'values': rq[2]})
    for (h, what), v in pend.items():
        if not any(k.startswith(h) for k in confirmed):
            res.unconfirmed.append({'harness': h, 'what': what, 'input': v})
    return res.finish()
