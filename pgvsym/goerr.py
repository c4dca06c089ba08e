"""Properties G07 (Validate and ValidateAll agree), G08 (errors name what is
violated) and G09 (validation only reads)."""
import json
import os
import re
import z3

from . import util, matrix
from .core import And, Or, Not, Iff, is_sym, conc_bool, tobool, Unsupported
from .strs import Str, OStr
from .amsg import AMsg
from .spec import WRAP
from .gossa import Ptr, StructV, SliceV, MapV, Iface, GoPanic
from .gofront import gocamel, err_fields, all_errors, sel
from .runner import Result
from . import gosuite as g
from .gosuite import W, explore, witness, cex, MODES, run_tasks, order, GoSuite, Oracle, Undecided, from_tree, regex_tool, GO_ASSUME, rules_text

GROUPS = {
    'string': [['const'], ['in'], ['not_in'], ['len', 'min_len', 'max_len'], ['len_bytes', 'min_bytes', 'max_bytes'], ['prefix'], ['suffix'],
               ['contains'], ['not_contains'], ['email', 'hostname', 'ip', 'ipv4', 'ipv6', 'uri', 'uri_ref', 'address', 'uuid'], ['pattern'],
               ['well_known_regex', 'strict']],
    'bytes': [['const'], ['in'], ['not_in'], ['len', 'min_len', 'max_len'], ['prefix'], ['suffix'], ['contains'], ['ip', 'ipv4', 'ipv6'], ['pattern']],
    'num': [['const'], ['lt', 'lte', 'gt', 'gte'], ['in'], ['not_in']],
    'enum': [['const'], ['in'], ['not_in'], ['defined_only']],
}


class Label:
    """A place that may be in error: its name, when it must be, and how many
    distinct rules it breaks."""

    def __init__(self, name, idx=None, key=False):
        self.name, self.idx, self.key = name, idx, key
        self.cond, self.dc, self.groups, self.sub, self.subcond = False, False, [], None, False

    def __repr__(self):
        return self.name + ('' if self.idx is None else '[%s]' % (self.idx,)) + (' (key)' if self.key else '')


def rule_groups(spec, f, r, v):
    """Violation condition of each independent rule of a scalar value."""
    from .spec import NUM
    t = f.type
    if t == 'message':
        if f.type_name in WRAP and v is not None:
            inner = spec.pool.messages[f.type_name].fields[0]
            return rule_groups(spec, inner, r, v.f[inner.name])
        return []
    kind = 'num' if t in NUM else t
    if kind not in GROUPS or t not in r:
        return []
    out = []
    for ks in GROUPS[kind]:
        sub = {k: r[t][k] for k in ks if k in r[t]}
        if sub:
            if 'ignore_empty' in r[t]:
                sub['ignore_empty'] = r[t]['ignore_empty']
            out.append(Not(spec.value(f, {t: sub}, v)))
    return out


def labels(spec, m):
    out = []
    d = m.desc
    if d.disabled or d.ignored:
        return out

    def put(lb, fn, f=None, r=None, v=None):
        spec.dontcare = []
        lb.cond = Not(fn())
        if f is not None:
            lb.groups = rule_groups(spec, f, r, v)
            if f.type == 'message' and v is not None and f.type_name not in WRAP and not f.type_name.startswith('.google.') \
                    and not (r or {}).get('message', {}).get('skip'):
                lb.sub = v
                lb.subcond = Not(spec.message(v))
        lb.dc = Or(spec.dontcare)
        out.append(lb)
    for f in d.fields:
        if f.oneof is not None and m.sel[d.oneofs[f.oneof].name] != f.name:
            continue
        v, r, n = m.f[f.name], f.rules or {}, gocamel(f.name)
        kv = spec.pool.map_kv(f)
        if kv:
            mr = r.get('map', {})
            if mr.get('ignore_empty') and not v:
                continue
            put(Label(n), lambda: And(len(v) >= mr.get('min_pairs', 0), len(v) <= mr.get('max_pairs', 1 << 64)))
            for k, x in v:
                put(Label(n, k, True), lambda: spec.value(kv[0], mr.get('keys', {}), k), kv[0], mr.get('keys', {}), k)
                put(Label(n, k), lambda: And(spec.value(kv[1], mr.get('values', {}), x), Or(not mr.get('no_sparse'), x is not None)),
                    kv[1], mr.get('values', {}), x)
        elif f.repeated:
            rr = r.get('repeated', {})
            if rr.get('ignore_empty') and not v:
                continue
            put(Label(n), lambda: And(len(v) >= rr.get('min_items', 0), len(v) <= rr.get('max_items', 1 << 64)))
            for i, x in enumerate(v):
                uniq = And([Not(spec.eqv(f, x, v[j])) for j in range(i)]) if rr.get('unique') else True
                put(Label(n, i), lambda: And(spec.value(f, rr.get('items', {}), x), uniq), f, rr.get('items', {}), x)
                if rr.get('unique'):
                    out[-1].groups.append(Not(uniq))
        else:
            put(Label(n), lambda: spec.value(f, r, v), f, r, v)
    for o in d.oneofs:
        if o.required:
            put(Label(gocamel(o.name)), lambda: m.sel[o.name] is not None)
    return out


# ------------------------------------------------------ symbolic side --------
def flatten(s):
    if isinstance(s, OStr) and s.fmt == '+':
        return flatten(s.args[0]) + flatten(s.args[1])
    return [s]


def same(a, b):
    if isinstance(a, Str) and isinstance(b, Str):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.b, b.b))
    if isinstance(a, OStr) and isinstance(b, OStr):
        return a.fmt == b.fmt and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    return type(a) is type(b) and a == b


def keytext(k):
    if isinstance(k, Str):
        return k
    if isinstance(k, bool):
        return Str(b'true' if k else b'false')
    if isinstance(k, int):
        return Str(str(k).encode())
    return OStr('val', (k,))


def find_label(lbs, field, key):
    parts = flatten(field)
    for lb in lbs:
        if lb.key != key:
            continue
        if lb.idx is None:
            if len(parts) == 1 and isinstance(parts[0], Str) and parts[0].conc() == lb.name.encode():
                return lb
            continue
        want = [Str((lb.name + '[').encode()), keytext(lb.idx), Str(b']')]
        if all(isinstance(x, Str) for x in want):
            if len(parts) == 1 and isinstance(parts[0], Str) and same(parts[0], Str(want[0].b + want[1].b + want[2].b)):
                return lb
        elif len(parts) == 3 and all(same(a, b) for a, b in zip(parts, want)):
            return lb
    return None


def opaque(field):
    return any(isinstance(x, OStr) and x.fmt != 'val' for x in flatten(field))


def check_errs(r, am, errs, rec, where):
    """errs: what AllErrors returned for message am."""
    lbs = labels(r.spec, am)
    count = {id(l): [] for l in lbs}
    md = am.desc
    for e in errs:
        d = err_fields(r.it, e)
        if d is None:
            cex(r, am0(rec), rec, True, where + ': an error without Field/Reason/Key/Cause/ErrorName')
            return
        n = d['ErrorName']
        want = go_name(md) + 'ValidationError'
        if isinstance(n, Str) and n.conc() is not None and n.conc().decode() != want:
            cex(r, am0(rec), rec, True, '%s: ErrorName is %s, not %s' % (where, n.conc().decode(), want))
        key = d['Key']
        if is_sym(key) or opaque(d['Field']):
            raise Unsupported('symbolic error fields')
        lb = find_label(lbs, d['Field'], key)
        if lb is None:
            cex(r, am0(rec), rec, True, '%s: an error for %s%s, which is no place of the message' % (where, d['Field'], ' (key)' if key else ''))
            continue
        count[id(lb)].append(d)
        text = r.it.call_id(r.it.srv.method(e.t, 'Error'), [e.v])
        ts = [x for x in flatten(text) if isinstance(x, Str) and x.conc() is not None]
        joined = b'\0'.join(x.conc() for x in ts)
        rs = d['Reason']
        whole = len(ts) == len([x for x in flatten(text) if not (isinstance(x, OStr) and x.fmt == 'val')])
        if whole and isinstance(rs, Str) and rs.conc() is not None and rs.conc() not in joined:
            cex(r, am0(rec), rec, True, where + ': Error() lacks the reason')
        if whole and lb.name.encode() not in joined:
            cex(r, am0(rec), rec, True, where + ': Error() lacks the field name')
    for lb in lbs:
        got = count[id(lb)]
        live = Not(lb.dc)
        if got:
            cex(r, am0(rec), rec, And(Not(lb.cond), live), '%s: reports %s, which meets its rules' % (where, lb))
        else:
            cex(r, am0(rec), rec, And(lb.cond, live), '%s: does not report %s' % (where, lb))
        if got and len(lb.groups) > len(got):
            tot = z3.Sum([z3.If(tobool(c), 1, 0) for c in lb.groups])
            cex(r, am0(rec), rec, And(tot > len(got), live), '%s: reports fewer errors than broken rules at %s' % (where, lb))
        if got and lb.sub is not None:
            subs = [x['Cause'] for x in got if isinstance(x['Cause'], Iface)]
            if not subs:
                cex(r, am0(rec), rec, And(lb.subcond, live), '%s: the error for %s has no cause' % (where, lb))
            for c in subs:
                inner = all_errors(r.it, c)
                if inner is None:
                    cex(r, am0(rec), rec, True, '%s: the cause for %s lists no errors' % (where, lb))
                else:
                    check_errs(r, lb.sub, inner, rec, '%s.%s' % (where, lb))


def am0(rec):
    return rec['_am']


def go_name(md):
    parts, p = [md.name], md.parent
    while p is not None:
        parts.append(p.name)
        p = p.parent
    return '_'.join(gocamel(x) for x in reversed(parts))


def multi_pairs(m):
    for f in m.desc.fields:
        v = m.f.get(f.name)
        if isinstance(v, list) and len(v) > 1 and isinstance(v[0], tuple):
            return True
        if isinstance(v, AMsg) and multi_pairs(v):
            return True
        if isinstance(v, list) and any(isinstance(x, AMsg) and multi_pairs(x) for x in v):
            return True
    return False


def m_agree(full):
    """G07"""
    def body(r, am, rec):
        rec['_am'] = am
        try:
            out = []
            for meth in ('Validate', 'ValidateAll'):
                e, p = r.call(am, meth)
                if p is not None:
                    cex(r, am, rec, True, '%s panics: %s' % (meth, p.why))
                    return
                if e == 'nomethod':
                    rec['n']['nomethod'] = 1
                    return
                out.append(e)
            e1, e2 = out
            rec['n']['accept' if e1 is None else 'reject'] = 1 + rec['n'].get('accept' if e1 is None else 'reject', 0)
            witness(r, am, rec, (e1 is None, e2 is None))
            if (e1 is None) != (e2 is None):
                cex(r, am, rec, True, 'Validate %s but ValidateAll %s' % tuple('returns %s' % ('nil' if e is None else 'an error') for e in out))
                return
            if e1 is None:
                return
            errs = all_errors(r.it, e2)
            if errs is None or not errs:
                cex(r, am, rec, True, 'ValidateAll returns an error that lists no errors')
                return
            if multi_pairs(am):
                return
            a, b = err_fields(r.it, e1), err_fields(r.it, errs[0])
            if a is None or b is None:
                cex(r, am, rec, True, 'an error without Field/Reason/Key/Cause/ErrorName')
                return
            for k in ('Field', 'Reason', 'Key', 'ErrorName'):
                if not same(a[k], b[k]):
                    cex(r, am, rec, True, 'the first error of ValidateAll differs from the error of Validate in %s' % k)
            if (a['Cause'] is None) != (b['Cause'] is None):
                cex(r, am, rec, True, 'the first error of ValidateAll differs from the error of Validate in Cause')
        finally:
            rec.pop('_am', None)
    return explore(full, body, lite=True)


def m_attr(full):
    """G08"""
    def body(r, am, rec):
        rec['_am'] = am
        try:
            e1, p = r.call(am, 'Validate')
            e2, p2 = (None, None) if p is not None else r.call(am, 'ValidateAll')
            if p is not None or p2 is not None:
                cex(r, am, rec, True, 'panic: %s' % (p or p2).why)
                return
            if e2 == 'nomethod':
                rec['n']['nomethod'] = 1
                return
            rec['n']['accept' if e2 is None else 'reject'] = 1 + rec['n'].get('accept' if e2 is None else 'reject', 0)
            witness(r, am, rec, (e1 is None, e2 is None))
            errs = [] if e2 is None else all_errors(r.it, e2)
            check_errs(r, am, errs or [], rec, 'ValidateAll')
            if e1 is not None:
                d = err_fields(r.it, e1)
                lbs = labels(r.spec, am)
                lb = d and find_label(lbs, d['Field'], d['Key'])
                if lb is None:
                    cex(r, am, rec, True, 'the error of Validate is for no place of the message')
                else:
                    cex(r, am, rec, And(Not(lb.cond), Not(lb.dc)), 'Validate reports %s, which meets its rules' % lb)
        finally:
            rec.pop('_am', None)
    return explore(full, body, lite=True)


# ----- G09: reads only ------------------------------------------------------
def reach(v, seen, depth=0):
    """ids of every mutable container reachable from v."""
    if v is None or depth > 40:
        return
    if isinstance(v, Ptr):
        if id(v.c) not in seen:
            seen[id(v.c)] = v.c
            for x in v.c if isinstance(v.c, list) else ():
                reach(x, seen, depth + 1)
    elif isinstance(v, StructV):
        if id(v.f) not in seen:
            seen[id(v.f)] = v.f
            for x in v.f:
                reach(x, seen, depth + 1)
    elif isinstance(v, SliceV):
        if v.a is not None and id(v.a) not in seen:
            seen[id(v.a)] = v.a
            for x in v.a:
                reach(x, seen, depth + 1)
    elif isinstance(v, MapV):
        if id(v) not in seen:
            seen[id(v)] = v
            for a, b in v.e:
                reach(a, seen, depth + 1)
                reach(b, seen, depth + 1)
    elif isinstance(v, Iface):
        reach(v.v, seen, depth + 1)


def m_read(full):
    def body(r, am, rec):
        it = r.it
        st = {'set': None, 'n': -1, 'hit': None}
        pkgs = set(W['pkgs'])

        def hook(_it, p, v):
            if it.initing or st['hit']:
                return
            c = p if isinstance(p, MapV) else p.c
            if id(c) in st['msg']:
                st['hit'] = 'the message'
                return
            if st['n'] != len(it.globals):
                st['n'] = len(it.globals)
                st['set'] = {}
                for (pk, nm), cell in list(it.globals.items()):
                    if pk in pkgs:
                        st['set'][id(cell)] = cell
                        for x in cell:
                            reach(x, st['set'])
            if id(c) in st['set']:
                st['hit'] = 'package state'
        md = am.desc
        for meth in ('Validate', 'ValidateAll'):
            p = W['prog'].lower(am)
            st['msg'] = {}
            reach(p, st['msg'])
            it.env['on_store'] = hook
            try:
                e, pan = r.call_on(W['prog'].srv.ptrto(W['prog'].gotype(md)), p, meth)
            finally:
                it.env['on_store'] = None
            if e == 'nomethod':
                rec['n']['nomethod'] = 1
                return
            if pan is not None:
                cex(r, am, rec, True, '%s panics: %s' % (meth, pan.why))
                return
            if st['hit']:
                cex(r, am, rec, True, '%s writes to %s' % (meth, st['hit']))
                return
        rec['n']['accept'] = rec['n'].get('accept', 0) + 1
        witness(r, am, rec, None)

    rec = explore(full, body, lite=True, nil_items=True)
    # the nil receiver
    def nilbody(r, am, rec2):
        t = W['prog'].srv.ptrto(W['prog'].gotype(W['pool'].messages[full]))
        for meth in ('Validate', 'ValidateAll'):
            e, pan = r.call_on(t, None, meth)
            if e == 'nomethod':
                return
            if pan is not None or e is not None:
                rec['cex'].append(('%s on a nil message %s' % (meth, 'panics' if pan is not None else 'fails'), [(None, None)], None))
    from .core import Ctx
    from .gofront import Run
    ctx = Ctx()
    ctx.explore(lambda c: nilbody(Run(W['prog'], c), None, None))
    rec['stats'].merge(ctx.stats)
    rec['wit'].append((None, None, None, True))
    return rec


MODES.update(agree=m_agree, attr=m_attr, read=m_read)


# ------------------------------------------------------------ replay side ----
def ktext(f, v):
    if isinstance(v, dict):
        return bytes.fromhex(v['hex']).decode('utf8', 'replace')
    if isinstance(v, bool):
        return 'true' if v else 'false'
    return str(v)


def expected(orc, full, tree, now):
    """[(field text, key flag, violated, rules broken, sub expectation)], or None."""
    am = from_tree(orc.pool, orc.pool.messages[full], tree)
    s = orc.spec(int(now) if now else None)

    def cb(c):
        return conc_bool(z3.simplify(tobool(c)))

    def go(am, tree):
        out = []
        for lb in labels(s, am):
            if cb(lb.dc) is not False:
                return None
            name = lb.name
            if lb.idx is not None:
                if isinstance(lb.idx, int):
                    name += '[%d]' % lb.idx
                else:
                    name += '[%s]' % keystr(lb.idx, am, lb)
            sub = None
            if lb.sub is not None and cb(lb.subcond):
                sub = go(lb.sub, None)
                if sub is None:
                    return None
            out.append((name, lb.key, cb(lb.cond), sum(1 for c in lb.groups if cb(c)), sub))
        return out
    try:
        return go(am, tree)
    except Undecided:
        return None


def keystr(k, am, lb):
    if isinstance(k, Str):
        return k.conc().decode('utf8', 'replace')
    k = z3.simplify(k)
    if z3.is_bool(k):
        return 'true' if z3.is_true(k) else 'false'
    from .amsg import SIGNED
    for f in am.desc.fields:
        if gocamel(f.name) == lb.name:
            kt = W_POOL[0].map_kv(f)[0].type
            return str(k.as_signed_long() if kt in SIGNED else k.as_long())
    return str(k.as_long())


W_POOL = []


def compare(exp, errs, md, pool, where='ValidateAll'):
    """Discrepancy between expected places and real errors, or None."""
    got = {}
    for e in errs:
        if 'field' not in e:
            return where + ': an error without Field/Reason/Key/Cause/ErrorName: %s' % e
        want = go_name(md) + 'ValidationError'
        if e['name'] != want:
            return '%s: ErrorName is %s, not %s' % (where, e['name'], want)
        if e['reason'] not in e['text'] or e['field'] not in e['text']:
            return '%s: Error() lacks the field or the reason: %s' % (where, e)
        c = e.get('cause')
        if c and c['text'] not in e['text']:
            return '%s: Error() lacks the text of the cause: %s' % (where, e)
        got.setdefault((e['field'], e['key']), []).append(e)
    names = {(n, k) for n, k, _, _, _ in exp}
    for g_ in got:
        if g_ not in names:
            return '%s: an error for %s%s, which is no place of the message' % (where, g_[0], ' (key)' if g_[1] else '')
    for n, k, viol, cnt, sub in exp:
        es = got.get((n, k), [])
        what = n + (' (key)' if k else '')
        if viol and not es:
            return '%s does not report %s' % (where, what)
        if es and not viol:
            return '%s reports %s, which meets its rules' % (where, what)
        if es and cnt > len(es):
            return '%s reports fewer errors (%d) than broken rules (%d) at %s' % (where, len(es), cnt, what)
        if sub is not None and es:
            cs = [e['cause'] for e in es if e.get('cause')]
            if not cs:
                return '%s: the error for %s has no cause' % (where, what)
            for c in cs:
                if 'all' not in c:
                    return '%s: the cause for %s lists no errors' % (where, what)
                smd = sub_desc(md, n, pool)
                if smd is not None:
                    x = compare(sub, c['all'], smd, pool, '%s.%s' % (where, what))
                    if x:
                        return x
    return None


def sub_desc(md, name, pool):
    base = name.split('[')[0]
    for f in md.fields:
        if gocamel(f.name) == base:
            kv = pool.map_kv(f)
            f2 = kv[1] if kv else f
            return pool.messages.get(f2.type_name)
    return None


def judge_err(suite, res, reqs, meta, prop):
    outs = suite.replay(reqs)
    orc = Oracle(suite.pool, regex_tool(suite))
    W_POOL[:] = [suite.pool]
    confirmed, pend, seen = {}, {}, set()
    for q, mt, o in zip(reqs, meta, outs):
        kind, full, what, tree, now, extra = mt
        md = suite.pool.messages[full]
        if o is None or 'fail' in o:
            res.inconclusive.append('replay unavailable for %s: %s' % (full, o))
            continue
        if o['v'].get('nomethod') or o['va'].get('nomethod'):
            continue
        bad = None
        for k, nm in (('v', 'Validate'), ('va', 'ValidateAll')):
            if 'panic' in o[k]:
                bad = '%s panics: %s' % (nm, o[k]['panic'])
        known = True
        if bad is None:
            v, va = o['v'], o['va']
            if prop == 'G07':
                if v['ok'] != va['ok']:
                    bad = 'Validate returns %s but ValidateAll %s' % ('nil' if v['ok'] else 'an error', 'nil' if va['ok'] else 'an error')
                elif not v['ok']:
                    al = va['err'].get('all')
                    if not al:
                        bad = 'ValidateAll returns an error that lists no errors'
                    elif not two_pairs(tree):
                        for k in ('field', 'reason', 'key', 'name'):
                            if v['err'].get(k) != al[0].get(k):
                                bad = 'the first error of ValidateAll differs from the error of Validate in %s' % k
                        if ('cause' in v['err']) != ('cause' in al[0]):
                            bad = 'the first error of ValidateAll differs from the error of Validate in its cause'
            elif prop == 'G08':
                exp = expected(orc, full, tree, now)
                if exp is None:
                    known = False
                else:
                    bad = compare(exp, [] if va['ok'] else va['err'].get('all') or [], md, suite.pool)
                    if bad is None and not v['ok']:
                        if (v['err'].get('field'), v['err'].get('key')) not in {(n, k) for n, k, viol, _, _ in exp if viol}:
                            bad = 'Validate reports %s, which meets its rules' % v['err'].get('field')
            else:
                if tree is None and not (v['ok'] and va['ok']):
                    bad = 'a nil message does not validate'
                elif o.get('mut'):
                    bad = 'validation changes the message'
        if bad:
            if full not in confirmed:
                confirmed[full] = True
                res.violation(full, '%s: %s on %s' % (full, bad, json.dumps(tree)),
                              {'message': full, 'input': tree, 'now_ns': now, 'what': bad, 'real': o, 'proto': rules_text(suite, full)})
        elif kind == 'cex':
            pend.setdefault((full, what), []).append(tree)
        elif known:
            if extra is None or (o['v'].get('ok'), o['va'].get('ok')) == tuple(extra):
                res.validated += 1
                if len(res.samples) < 12 and full not in seen:
                    seen.add(full)
                    res.samples.append({'message': full, 'input': tree, 'now_ns': now, 'error': o['va'].get('err')})
            else:
                res.mismatch.append({'message': full, 'input': tree, 'encoded': extra, 'real': [o['v'].get('ok'), o['va'].get('ok')]})
    return {k: v[0] for k, v in pend.items() if k[0] not in confirmed}


def two_pairs(t):
    if isinstance(t, dict):
        return any(two_pairs(x) for x in t.values())
    if isinstance(t, list):
        return len(t) > 1 and all(isinstance(x, list) and len(x) == 2 for x in t) or any(two_pairs(x) for x in t)
    return False


def check_err(prop, mode, names, tier, seed, bounds, lim=None):
    res = Result(prop, tier, seed)
    res.bounds = bounds
    res.assumptions = GO_ASSUME
    suite = GoSuite(names, tier, seed)
    if not suite.build(res):
        return res.finish()
    suite.start_replay()
    only = [m.full for m in sel(suite.pool, suite.files)]
    if lim:
        only = lim(suite, only)
    flt = os.environ.get('PGV_ONLY')
    if flt:
        only = [x for x in only if re.search(flt, x)]
    tasks = [(mode, f) for f in order(suite, only)]
    reqs, meta = [], []
    counts = {'accept': 0, 'reject': 0}

    def handler(rec):
        for k in counts:
            counts[k] += rec['n'].get(k, 0)
        for what, vs, extra in rec['cex']:
            for tree, now in vs:
                reqs.append({'t': rec['full'], 'v': tree, 'now': now or ''})
                meta.append(('cex', rec['full'], what, tree, now, None))
        for tree, now, extra, classed in rec['wit']:
            reqs.append({'t': rec['full'], 'v': tree, 'now': now or ''})
            meta.append(('wit', rec['full'], None, tree, now, extra if not classed else None))
    run_tasks(suite, tasks, res, handler)
    pend = judge_err(suite, res, reqs, meta, prop)
    if prop == 'G09':
        pend = races(suite, res, pend)
    for (full, what), tree in pend.items():
        res.unconfirmed.append({'message': full, 'what': what, 'input': tree})
    res.extra['accepting_paths'], res.extra['rejecting_paths'] = counts['accept'], counts['reject']
    return res.finish()


RACE = '''package main

import (
	"bufio"
	"encoding/json"
	"os"
	"reflect"
	"sync"
)

// race validates one message from eight goroutines at once.
func race() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	line, _ := in.ReadString('\\n')
	var req struct {
		V map[string]interface{} `json:"v"`
		T string                 `json:"t"`
	}
	if err := json.Unmarshal([]byte(line), &req); err != nil {
		panic(err)
	}
	m := reg[req.T]()
	fill(reflect.ValueOf(m), req.V)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				call(m, "Validate")
				call(m, "ValidateAll")
			}
		}()
	}
	wg.Wait()
}
'''


def races(suite, res, pend):
    """A write to package state is confirmed by the race detector."""
    ws = {k: t for k, t in pend.items() if 'writes to' in k[1]}
    if not ws:
        return pend
    s = suite.scratch
    dst = os.path.join(s.dir, 'goreplay')
    open(os.path.join(dst, 'driver', 'race.go'), 'w').write(RACE)
    p = os.path.join(dst, 'driver', 'main.go')
    t = open(p).read()
    t = t.replace('func main() {', 'func main() {\n\tif len(os.Args) > 1 {\n\t\trace()\n\t\treturn\n\t}', 1)
    open(p, 'w').write(t)
    rc, o = util.run(['go', 'build', '-race', '-o', s.path('bin', 'racer'), './driver'], cwd=dst, env=dict(s.env, CGO_ENABLED='1'))
    if rc:
        util.log('race build: ' + o[-800:])
        return pend
    import subprocess
    done = set()
    for (full, what), tree in ws.items():
        if full in done:
            continue
        q = subprocess.run([s.path('bin', 'racer'), 'race'], input=(json.dumps({'t': full, 'v': tree}) + '\n').encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        e = q.stderr.decode('utf8', 'replace')
        if 'DATA RACE' in e or 'concurrent map' in e:
            done.add(full)
            res.violation(full, '%s: concurrent validation races (%s) on %s' % (full, what, json.dumps(tree)),
                          {'message': full, 'input': tree, 'what': what, 'race': e[:4000], 'proto': rules_text(suite, full)})
    return {k: t for k, t in pend.items() if k[0] not in done}
