"""Properties X01..: generated C++ validators against the reference."""
import concurrent.futures
import json
import multiprocessing
import os
import re
import struct
import subprocess
import threading
import time
import traceback

import z3

from . import util, matrix, strs
from . import gosuite as g
from .util import Scratch, BuildError, log, REPO
from .core import Ctx, And, Or, Not, Iff, is_sym, conc_bool, tobool, Unsupported
from .strs import Str
from .amsg import AMsg, Builder, concrete
from .spec import Spec
from .gofront import Opts, MsgOpts, sel
from .gointrin import classify
from .ccast import CcProg, Interp, Cell, PtrV, Frame, Throw, FILTERS, normq, loose
from .runner import Result

CXX = ['clang++', '-std=c++17', '-O0', '-w']


# ------------------------------------------------------------ wire encoding --
def vint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = n & 127
        n >>= 7
        out.append(b | (128 if n else 0))
        if not n:
            return bytes(out)


def enc_scalar(t, v):
    if t in ('int32', 'int64', 'uint32', 'uint64', 'enum'):
        return 0, vint(int(v))
    if t in ('sint32', 'sint64'):
        n = int(v)
        return 0, vint((n << 1) ^ (n >> 63))
    if t == 'bool':
        return 0, vint(1 if v else 0)
    if t in ('fixed32', 'sfixed32'):
        return 5, struct.pack('<I', int(v) & 0xffffffff)
    if t in ('fixed64', 'sfixed64'):
        return 1, struct.pack('<Q', int(v) & ((1 << 64) - 1))
    if t == 'float':
        return 5, struct.pack('<I', int(v['bits']))
    if t == 'double':
        return 1, struct.pack('<Q', int(v['bits']))
    b = bytes.fromhex(v['hex'])
    return 2, vint(len(b)) + b


def enc_value(pool, f, v):
    if f.type == 'message':
        b = enc_msg(pool, pool.messages[f.type_name], v or {})
        return 2, vint(len(b)) + b
    return enc_scalar(f.type, v)


def enc_msg(pool, md, tree):
    out = b''
    for f in md.fields:
        if f.name not in tree:
            continue
        v = tree[f.name]
        kv = pool.map_kv(f)
        if kv:
            for a, b in v:
                w1, x1 = enc_value(pool, kv[0], a)
                w2, x2 = enc_value(pool, kv[1], b)
                e = vint(1 << 3 | w1) + x1 + vint(2 << 3 | w2) + x2
                out += vint(f.number << 3 | 2) + vint(len(e)) + e
        elif f.repeated:
            for x in v:
                w, b = enc_value(pool, f, x)
                out += vint(f.number << 3 | w) + b
        elif v is None:
            continue
        else:
            w, b = enc_value(pool, f, v)
            out += vint(f.number << 3 | w) + b
    return out


DRIVER = r'''
#include <cstdio>
#include <iostream>
#include <string>
#include <map>
#include <functional>
//INCLUDES
static std::string hex(const std::string& s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
  return o;
}
template <typename T> static std::string run(const std::string& b) {
  T m;
  if (!m.ParsePartialFromString(b)) return "P";
  std::string err;
  try {
    bool r = Validate(m, &err);
    return std::string(r ? "1" : "0") + (err.empty() ? "e" : "E");
  } catch (const pgv::UnimplementedException& e) {
    return "U";
  } catch (const std::exception& e) {
    return std::string("X ") + e.what();
  }
}
int main() {
  std::map<std::string, std::function<std::string(const std::string&)>> reg;
//REG
  std::string line;
  while (std::getline(std::cin, line)) {
    size_t k = line.find(' ');
    auto it = reg.find(line.substr(0, k));
    std::cout << (it == reg.end() ? std::string("N") : it->second(hex(line.substr(k + 1)))) << std::endl;
  }
}
'''


class CcOracle(g.Oracle):
    def spec(self, now):
        return CcSpec(self.pool, classes=conc_class, regex=self.regex, email=self.email)


def conc_class(kind, s):
    c = s.conc()
    if 0 in c:
        return False
    return g.conc_class(kind, s)


class CcSpec(Spec):
    """C++ matches patterns against the whole value."""

    def pattern(self, pat, v):
        prog = self.regex(pat.decode('utf8', 'surrogateescape'))
        self.dontcare.append(Not(strs.valid_utf8(v.b)))
        return strs.match(prog, v.b, anchored=True, full=True)

    def f_ip(self, v):
        return And(Spec.f_ip(self, v), Not(Or([strs.beq(x, 0) for x in v.b])))

    def f_ipv4(self, v):
        return And(self.f_ip(v), Spec.f_ipv4(self, v))

    def f_ipv6(self, v):
        return And(self.f_ip(v), Spec.f_ipv6(self, v))


class CcSuite:
    def __init__(self, names, tier, seed, texts=None, partial=False):
        self.partial = partial      # rules outside the supported set
        self.tier, self.seed = tier, seed
        self.names = list(names)
        self.scratch = Scratch()
        t = texts or (matrix.cc_rest if partial else matrix.cc_texts)(self.names, seed)
        if texts is None and ('msg' in self.names or 'ext' in self.names):
            t['pgvm/mso.proto'] = matrix.mso(seed).text()
            if 'mso' not in self.names:
                self.names.append('mso')
        self.texts = t
        self.scratch.protos(t)
        self.pool = self.scratch.descriptors()
        self.files = ['pgvm/%s.proto' % n for n in self.names]
        self.out = self.scratch.path('cc', 'x')[:-2]
        self.statics = {}
        self.progs = []
        self._rx, self._rm = None, {}

    # ---- generation --------------------------------------------------
    def build(self, res):
        s = self.scratch
        rc, o = util.run(['protoc', '-I', s.path('proto'), '-I', REPO, '--cpp_out=' + self.out] + s.protonames + ['validate/validate.proto'], cwd=s.path('proto'))
        if rc:
            raise RuntimeError('protoc --cpp_out: ' + o)
        rc, o = s.gen('cc', s.protonames, self.out)
        if rc:
            res.violation('build', 'the generator fails on a legal rule set: ' + o[-1500:], {'protos': self.texts, 'output': o[-6000:]})
            return False
        self.start_driver()
        self.progs = [CcProg(os.path.join(self.out, 'pgvm', n + '.pb.validate.cc'), [self.out, REPO]) for n in self.names
                      if os.path.exists(os.path.join(self.out, 'pgvm', n + '.pb.validate.cc'))]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = [(p, f, ex.submit(p.dump, f)) for p in self.progs for f in FILTERS]
            for p, f, fu in futs:
                try:
                    p.load(f, fu.result())
                except RuntimeError as e:
                    res.violation('build', 'generated C++ validators do not compile: ' + str(e)[-1500:],
                                  {'protos': self.texts, 'output': str(e)[-6000:]})
                    return False
        self.register()
        return True

    def register(self):
        """Runs the constructors of the Validator<T> globals."""
        ctx = Ctx()
        it = Interp(self, ctx)
        self.unregistered = []
        for p in self.progs:
            for v in p.registry:
                try:
                    init = [c for c in v.inner if not c.kind.endswith('Attr')]
                    it.rv(init[-1], Frame(p))
                except Unsupported as e:
                    self.unregistered.append('%s: %s' % (v.name, e))

    def find_fn(self, target, prog):
        d = prog.fn(target.name, target.q, None, False)
        if d is not None:
            return d, prog
        for p in self.progs:
            d = p.fn(target.name, target.q, None, False)
            if d is not None:
                return d, p
        return None

    def validate_fn(self, md):
        want = self.cppname(md)
        for p in self.progs:
            for (q, ta), n in p.fns.get('Validate', {}).items():
                m = re.match(r'bool \(const ([\w:]+) &', q)
                if m and m.group(1).replace('::', '.') == want:
                    return n, p
        return None

    # ---- names -------------------------------------------------------
    def cppname(self, md):
        parts, p = [md.name], md.parent
        while p is not None:
            parts.append(p.name)
            p = p.parent
        pk = md.file.package
        return (pk + '.' if pk else '') + '_'.join(reversed(parts))

    def cppmsgs(self):
        if not hasattr(self, '_msgs'):
            self._msgs = {}
            for md in self.pool.messages.values():
                self._msgs[self.cppname(md)] = md
                self._msgs.setdefault(md.full[1:], md)
        return self._msgs

    def cppenums(self):
        if not hasattr(self, '_enums'):
            self._enums = {}
            for full, e in self.pool.enums.items():
                self._enums[full[1:]] = e
                par = full.rpartition('.')[0]
                if par in self.pool.messages:
                    self._enums[self.cppname(self.pool.messages[par]) + '_' + e.name] = e
        return self._enums

    def cppenum_named(self, nm):
        out = []
        for k, e in self.cppenums().items():
            if k.split('.')[-1] == nm and k.rpartition('.')[0] not in [m[1:] for m in self.pool.messages]:
                out.append(e)
        return out

    # ---- regular expressions -----------------------------------------
    def rx(self, pat):
        if self._rx is None or self._rx[0] != os.getpid():
            self._rx = (os.getpid(), g.regex_tool(self))
        return self._rx[1](pat)

    def rematch(self, pat, s, full):
        prog = self.rx(pat.decode('utf8', 'surrogateescape'))
        m = strs.match(prog, s.b, anchored=full, full=full)
        return And(strs.valid_utf8(s.b), m)

    # ---- replay ------------------------------------------------------
    def start_driver(self):
        self.rep = None
        self.rep_thread = threading.Thread(target=self._driver)
        self.rep_thread.start()

    def _driver(self):
        inc, reg = [], []
        for n in self.names:
            h = os.path.join(self.out, 'pgvm', n + '.pb.validate.h')
            if not os.path.exists(h):
                continue
            inc.append('#include "pgvm/%s.pb.validate.h"' % n)
            txt = open(h).read()
            for md in self.pool.files['pgvm/%s.proto' % n].all_messages():
                cn = '::' + self.cppname(md).replace('.', '::')
                if re.search(r'Validate\(const %s&' % re.escape(cn), txt):
                    reg.append('  reg["%s"] = run<%s>;' % (md.full, cn))
        d = self.scratch.path('ccdrv', 'main.cc')
        with open(d, 'w') as f:
            f.write(DRIVER.replace('//INCLUDES', '\n'.join(inc)).replace('//REG', '\n'.join(reg)))
        srcs = [d]
        for root in ('pgvm', 'validate'):
            dd = os.path.join(self.out, root)
            srcs += sorted(os.path.join(dd, x) for x in os.listdir(dd) if x.endswith('.cc'))
        objs = []

        def comp(src):
            o = self.scratch.path('ccdrv', re.sub(r'\W', '_', os.path.basename(src)) + '.o')
            rc, out = util.run(['nice'] + CXX + ['-I' + self.out, '-I' + REPO, '-c', src, '-o', o], timeout=600)
            return rc, out, o
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(comp, srcs))
        for rc, out, o in rs:
            if rc:
                self.rep = (rc, out)
                return
            objs.append(o)
        rc, out = util.run(['clang++', '-o', self.scratch.path('bin', 'ccdriver')] + objs + ['-lprotobuf', '-lre2', '-lpthread'])
        self.rep = (rc, out)

    def replay(self, reqs):
        """reqs: [(full, tree)] -> verdict texts."""
        self.rep_thread.join()
        if self.rep is None or self.rep[0]:
            log('C++ driver does not build: %s' % (self.rep and self.rep[1][-2000:]))
            return [None] * len(reqs)
        data = ''.join('%s %s\n' % (full, enc_msg(self.pool, self.pool.messages[full], tree).hex()) for full, tree in reqs)
        p = subprocess.run([self.scratch.path('bin', 'ccdriver')], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        out = p.stdout.decode('utf8', 'replace').split('\n')[:-1]
        if len(out) != len(reqs):
            log('C++ driver died: ' + p.stderr.decode('utf8', 'replace')[-1500:])
            if len(out) < len(reqs):
                out.append('X died')
        return out + [None] * (len(reqs) - len(out))


# ----------------------------------------------------------------- workers --
class Holder:
    """What gosuite.variants expects of a run."""

    def __init__(self, it):
        self.it, self.ctx, self.mail = it, it.ctx, {}


def _init(suite):
    os.environ['PGV_WORKER'] = '1'
    g.W['pool'], g.W['tier'], g.W['cc'] = suite.pool, suite.tier, suite


def _task(args):
    try:
        return m_sem(*args)
    except Exception:
        return {'err': traceback.format_exc(), 'full': args[0]}


def m_sem(full):
    suite = g.W['cc']
    pool = suite.pool
    md = pool.messages[full]
    hit = suite.validate_fn(md)
    ctx = Ctx(deadline=time.time() + (150 if suite.tier == 'quick' else 900))
    rec = {'full': full, 'cex': [], 'wit': [], 'unknown': 0, 'n': {}, 'stats': ctx.stats, 'exhausted': True}
    if hit is None:
        rec['n']['nomethod'] = 1
        return rec
    fn, prog = hit
    opts = g.mkopts(md, False)

    def run(c):
        it = Interp(suite, c)
        am = Builder(pool, c, MsgOpts(opts, pool), depth=2, oneof_set=True).message(md)
        h = Holder(it)
        err = Cell(Str(()))

        def judge():
            sp = CcSpec(pool, classes=lambda k, v: classify(it, k, v), regex=suite.rx, email=lambda s, v: None)
            phi = sp.message(am)
            return phi, Or([False] + sp.dontcare)

        def emit(model):
            vs, _ = g.variants(h, am, model)
            rec['wit'].append((vs[0][0], vs[0][1], None, True))
        g.escape(c, rec, judge, emit)
        try:
            r = it.call(fn, [Cell(am), PtrV(err)], prog)
        except Throw as t:
            if 'UnimplementedException' in str(t.what) and suite.partial:
                rec['n']['unimplemented'] = rec['n'].get('unimplemented', 0) + 1
                g.witness(h, am, rec, 'U')
                return
            g.cex(h, am, rec, True, 'Validate throws: %s' % t.what)
            return
        finally:
            c.stats.steps += it.steps
        r = it.truth(it.load(r))
        if not isinstance(r, bool):
            r = c.decide(r)
        told = not (isinstance(err.v, Str) and len(err.v) == 0)
        phi, dc = judge()
        g.cex(h, am, rec, And(Not(Iff(phi, r)), Not(dc)), 'Validate %s' % ('accepts a message the rules reject' if r else 'rejects a message the rules accept'))
        if not r and not told:
            g.cex(h, am, rec, True, 'Validate rejects without an error text')
        k = 'accept' if r else 'reject'
        rec['n'][k] = rec['n'].get(k, 0) + 1
        g.witness(h, am, rec, '1' if r else '0')
    rec['exhausted'] = bool(ctx.explore(run))
    return rec


CC_ASSUME = [
    'C++ semantics as rendered by clang\'s AST of the generated code and of validate/validate.h; protobuf accessors, std::string, std::set, '
    'std::unordered_set, std::regex tokenising, RE2 and inet_pton follow their documented contracts.',
    'string fields hold valid UTF-8 (proto3); absent message fields read as default instances.',
    'Patterns are matched against the whole value (RE2::FullMatch), as this language has always done; NaN under range rules and '
    'degenerate ranges are left unspecified.',
]


def check(prop, names, tier, seed, bounds, texts=None, partial=False):
    res = Result(prop, tier, seed)
    res.bounds = bounds
    res.assumptions = CC_ASSUME
    try:
        suite = CcSuite(names, tier, seed, texts, partial)
        suite.scratch.gotool()
        ok = suite.build(res)
    except BuildError as e:
        res.violation('build', str(e)[-1500:], {'output': e.out[-6000:]})
        return res.finish()
    if not ok:
        if hasattr(suite, 'rep_thread'):
            suite.rep_thread.join()
        return res.finish()
    for u in suite.unregistered[:5]:
        res.inconclusive.append('registration ' + u)
    only = [m.full for m in sel(suite.pool, suite.files) if not m.ignored]
    flt = os.environ.get('PGV_ONLY')
    if flt:
        only = [x for x in only if re.search(flt, x)]
    reqs, meta = [], []
    counts = {'accept': 0, 'reject': 0, 'unimplemented': 0}
    vac = []
    n = min(g.PROCS, max(1, len(only)))
    with concurrent.futures.ProcessPoolExecutor(n, mp_context=multiprocessing.get_context('fork'), initializer=_init, initargs=(suite,)) as ex:
        for f in concurrent.futures.as_completed([ex.submit(_task, (x,)) for x in g.order(suite, only)]):
            rec = f.result()
            if rec.get('err'):
                res.inconclusive.append('%s: %s' % (rec['full'], ' | '.join(x.strip() for x in rec['err'].strip().split(chr(10))[-4:])[-280:]))
                continue
            res.stats.merge(rec['stats'])
            res.programs += 1
            if not rec['exhausted']:
                res.inconclusive.append('%s: exploration not exhausted' % rec['full'])
            if rec['unknown']:
                res.inconclusive.append('%s: %d solver unknowns' % (rec['full'], rec['unknown']))
            for k in counts:
                counts[k] += rec['n'].get(k, 0)
            for what, vs, extra in rec['cex']:
                for tree, now in vs:
                    reqs.append((rec['full'], tree))
                    meta.append(('cex', what, None))
            for tree, now, extra, classed in rec['wit']:
                reqs.append((rec['full'], tree))
                meta.append(('wit', None, extra if not classed else None))
            if not rec['n'].get('nomethod') and not (rec['n'].get('accept') or rec['cex'] or rec['n'].get('unimplemented')):
                vac.append(rec['full'])
    judge(suite, res, reqs, meta)
    res.extra['accepting_paths'], res.extra['rejecting_paths'], res.extra['unimplemented_paths'] = counts['accept'], counts['reject'], counts['unimplemented']
    res.extra['messages_without_accepting_path'] = vac
    return res.finish()


def judge(suite, res, reqs, meta):
    outs = suite.replay(reqs)
    if suite.rep and suite.rep[0] and '.pb.validate' in suite.rep[1]:
        res.violation('build', 'generated C++ validators do not compile: ' + suite.rep[1][-1500:], {'protos': suite.texts, 'output': suite.rep[1][-6000:]})
        return
    orc = CcOracle(suite.pool, suite.rx)
    confirmed, pend, seen = {}, {}, set()
    for (full, tree), (kind, what, extra), o in zip(reqs, meta, outs):
        if o is None or o in ('N', 'P'):
            if o != 'N':
                res.inconclusive.append('replay unavailable for %s: %s' % (full, o))
            continue
        if o == 'U' and suite.partial:
            if extra == 'U':
                res.validated += 1
            elif extra is not None:
                res.mismatch.append({'message': full, 'input': tree, 'encoded': extra, 'real': o})
            continue
        want = orc.verdict(full, tree, None)
        got = {'1': True, '0': False}.get(o[0])
        bad = None
        if o[0] in 'XU':
            bad = 'Validate throws ' + (o[2:] or 'UnimplementedException')
        elif want is not None and got != want:
            bad = 'Validate=%s but the rules say %s' % (got, want)
        elif o == '0e':
            bad = 'Validate rejects without an error text'
        if bad:
            if full not in confirmed:
                confirmed[full] = True
                res.violation(full, '%s: %s on %s' % (full, bad, json.dumps(tree)),
                              {'message': full, 'input': tree, 'want_valid': want, 'real': o, 'rules': g.rules_text(suite, full),
                               'wire': enc_msg(suite.pool, suite.pool.messages[full], tree).hex(),
                               'how': 'generate C++ with lang=cc, parse the wire bytes into %s and call Validate' % full})
        elif kind == 'cex':
            pend.setdefault((full, what), []).append(tree)
        elif extra is not None:
            if o[0] == extra:
                res.validated += 1
                if len(res.samples) < 12 and full not in seen:
                    seen.add(full)
                    res.samples.append({'message': full, 'input': tree, 'valid': got})
            else:
                res.mismatch.append({'message': full, 'input': tree, 'encoded': extra, 'real': o})
        else:
            res.validated += 1 if want is not None else 0
    for (full, what), trees in pend.items():
        if full not in confirmed:
            res.unconfirmed.append({'message': full, 'what': what, 'input': trees[0]})
