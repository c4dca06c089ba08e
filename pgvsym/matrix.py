"""The rule matrix: proto files exercising every documented rule on every
applicable field kind. Also used, per language, as the set of generated
programs that are executed symbolically."""
import os
import random

HEAD = '''syntax = "%(syn)s";
package pgvm.%(n)s;
option go_package = "pgvscratch/m_%(n)s;m_%(n)s";
option java_package = "pgvm.%(n)s";
option java_multiple_files = true;
import "validate/validate.proto";
%(imp)s
'''

LIM = {'int32': (-2**31, 2**31 - 1), 'int64': (-2**63, 2**63 - 1), 'uint32': (0, 2**32 - 1), 'uint64': (0, 2**64 - 1)}
for _a, _b in (('sint32', 'int32'), ('sint64', 'int64'), ('fixed32', 'uint32'), ('fixed64', 'uint64'), ('sfixed32', 'int32'), ('sfixed64', 'int64')):
    LIM[_a] = LIM[_b]
INTT = list(LIM)
NUMT = ['float', 'double'] + INTT
WRAPN = {'float': 'FloatValue', 'double': 'DoubleValue', 'int32': 'Int32Value', 'int64': 'Int64Value', 'uint32': 'UInt32Value', 'uint64': 'UInt64Value',
         'bool': 'BoolValue', 'string': 'StringValue', 'bytes': 'BytesValue'}


def camel(t):
    return t[0].upper() + t[1:]


class File:
    def __init__(self, name, imports=()):
        self.name, self.imports = name, imports
        self.body = []
        self.n = {}
        self.syntax = 'proto3'

    def msg(self, name, body):
        assert name not in self.n, name
        self.n[name] = 1
        self.body.append('message %s { %s }' % (name, body))

    def raw(self, t):
        self.body.append(t)

    def one(self, name, typ, rules, fname='val'):
        self.msg(name, '%s %s = 1 [(validate.rules)%s];' % (typ, fname, rules))

    def text(self):
        return HEAD % {'syn': self.syntax, 'n': self.name, 'imp': '\n'.join('import "%s";' % i for i in self.imports)} + '\n'.join(self.body) + '\n'


def consts(t, rnd, intonly=False):
    """(a, b) with a < b: ordinary bounds of a numeric type."""
    if t in ('float', 'double'):
        return [(-1.5, 2.25), (0.1, 0.7)]
    lo, hi = LIM[t]
    out = [(3, 10)]
    if lo < 0:
        out.append((-7, 5))
    x, y = rnd.randrange(lo, hi), rnd.randrange(lo, hi)
    if x > y:
        x, y = y, x
    if y - x > 2:
        out.append((x, y))
    return out


def num(seed=1):
    f = File('num', ['google/protobuf/wrappers.proto'])
    rnd = random.Random(seed)
    for t in NUMT:
        C = camel(t)
        k = [0]

        def add(rules, tag, typ=None):
            k[0] += 1
            f.one('%s%s%d' % (C, tag, k[0]), typ or t, '.%s = {%s}' % (t, rules))
        fl = t in ('float', 'double')
        cs = [1.23, 0.1, -7.5, 1e-7] if fl else [1, LIM[t][0], LIM[t][1]]
        if t == 'double':
            cs += [1e300, 5e-324, 1.7976931348623157e308]
        if t == 'float':
            cs += [16777216.0, 3.4028234663852886e38, 1.401298464324817e-45]
        for c in cs:
            add('const: %r' % c, 'Const')
        for a, b in consts(t, rnd):
            add('lt: %r' % b, 'LT')
            add('lte: %r' % b, 'LTE')
            add('gt: %r' % a, 'GT')
            add('gte: %r' % a, 'GTE')
            for lo in ('gt', 'gte'):
                for hi in ('lt', 'lte'):
                    add('%s: %r, %s: %r' % (lo, a, hi, b), 'In')
                    add('%s: %r, %s: %r' % (lo, b, hi, a), 'Ex')
        a, b = consts(t, rnd)[0]
        add('in: [%r, %r]' % (a, b), 'List')
        add('not_in: [%r, %r]' % (a, b), 'NotList')
        add('gte: %r, lte: %r, ignore_empty: true' % (b, b + 5), 'Ign')
        add('gt: %r, lt: %r, ignore_empty: true' % (a, b), 'IgnI')
        add('in: [%r, %r], ignore_empty: true' % (a, b), 'IgnL')
        add('gte: %r, lte: %r, ignore_empty: false' % (b, b + 5), 'IgnF')
        add('gte: %r, lte: %r, not_in: [%r]' % (a, b, b), 'RangeNot')
        add('ignore_empty: true', 'IgnOnly')
        if not fl:
            lo, hi = LIM[t]
            add('gt: %d' % (hi - 1), 'Edge')
            add('lt: %d' % (lo + 1), 'Edge')
            add('gte: %d, lte: %d' % (lo, hi), 'Edge')
            add('lt: %d, gt: %d' % (lo + 1, hi - 1), 'Edge')
        else:
            add('lt: 0.0', 'Z')
            add('gte: 0.0', 'Z')
            add('not_in: [0.0]', 'Z')
        if t in WRAPN:
            W = 'google.protobuf.' + WRAPN[t]
            add('gt: %r, lte: %r' % (a, b), 'Wrap', W)
            add('gt: %r, lte: %r' % (b, a), 'WrapX', W)
            add('in: [%r, %r]' % (a, b), 'WrapL', W)
            f.msg(C + 'WrapReq', '%s val = 1 [(validate.rules).%s.lt = %r, (validate.rules).message.required = true];' % (W, t, b))
        f.msg(C + 'Rep', 'repeated %s val = 1 [(validate.rules).repeated.items.%s = {gte: %r, lt: %r}];' % (t, t, a, b))
        if t not in ('float', 'double'):
            f.msg(C + 'Key', 'map<%s, %s> val = 1 [(validate.rules).map = {keys: {%s: {gte: %r}}, values: {%s: {lt: %r}}}];' % (t, t, t, a, t, b))
        else:
            f.msg(C + 'Key', 'map<string, %s> val = 1 [(validate.rules).map.values.%s.lt = %r];' % (t, t, b))
        # combinations, long lists and zero bounds
        z = '0.0' if fl else '0'
        one = (lambda x: repr(float(x))) if fl else str
        add('const: %s, ignore_empty: true' % one(3), 'CIgn')
        add('lt: %s, ignore_empty: true' % one(100), 'LIgn')
        add('gt: %s, ignore_empty: true' % one(5), 'GIgn')
        add('gt: %s, lt: %s, ignore_empty: true' % (one(9), one(4)), 'XIgn') if not fl else None
        add('gte: %s, lte: %s, not_in: [%s, %s]' % (one(9), one(4), one(2), one(20)), 'XNot')
        add('in: [%s]' % ', '.join(one(x * x + 1) for x in range(12)), 'Long')
        add('not_in: [%s], ignore_empty: true' % ', '.join(one(3 * x) for x in range(10)), 'LongNot')
        add('gt: ' + z, 'Zero')
        add('gte: ' + z, 'Zero')
        if fl or LIM[t][0] < 0:
            add('lt: ' + z, 'Zero')
            add('lte: ' + z, 'Zero')
            add('gt: %s, lt: %s' % (one(-3), z), 'ZeroR')
            add('gte: %s, lte: %s' % (z, one(-3)), 'ZeroX')
            add('in: [%s, %s, %s]' % (one(-1), z, one(1)), 'Sg')
        else:
            add('lte: 0', 'Zero')
        if not fl:
            add('gt: 5, lt: 7', 'Adj')
            add('gt: 7, lt: 6', 'Adj')
        f.msg(C + 'Two', '%s b = 7 [(validate.rules).%s.gt = %s]; %s a = 2 [(validate.rules).%s.lte = %s];' % (t, t, one(1), t, t, one(4)))
    f.msg('BoolTrue', 'bool val = 1 [(validate.rules).bool.const = true];')
    f.msg('BoolFalse', 'bool val = 1 [(validate.rules).bool.const = false];')
    f.msg('BoolWrap', 'google.protobuf.BoolValue val = 1 [(validate.rules).bool.const = true];')
    f.msg('NumNone', 'int32 a = 1; double b = 2; bool c = 3; uint64 d = 4;')
    return f


def string(seed=1):
    f = File('str', ['google/protobuf/wrappers.proto'])
    S = lambda n, r: f.one(n, 'string', '.string = {%s}' % r)
    B = lambda n, r: f.one(n, 'bytes', '.bytes = {%s}' % r)
    S('StrConst', 'const: "foo"')
    S('StrConstEmpty', 'const: ""')
    S('StrConstQuote', r'const: "a\"b\\c"')
    S('StrConstCtl', r'const: "x\n\t%s"')
    S('StrConstUni', r'const: "h\303\251"')
    S('StrPreCR', r'prefix: "a\rb"')
    S('StrSufTick', r'suffix: "`\\"')
    S('StrInMix', r'in: ["`\r", "\n\\n", "%d", "\177", "\357\273\277x"]')
    S('StrConstNul', r'const: "a\000b"')
    S('StrConstHex', r'const: "\007f"')
    S('StrLen', 'len: 3')
    S('StrLen0', 'len: 0')
    S('StrMinLen', 'min_len: 3')
    S('StrMinLen1', 'min_len: 1')
    S('StrMaxLen', 'max_len: 2')
    S('StrMaxLen0', 'max_len: 0')
    S('StrMinMaxLen', 'min_len: 2, max_len: 3')
    S('StrMinMaxEq', 'min_len: 2, max_len: 2')
    S('StrLenBytes', 'len_bytes: 4')
    S('StrMinBytes', 'min_bytes: 3')
    S('StrMaxBytes', 'max_bytes: 3')
    S('StrMinMaxBytes', 'min_bytes: 2, max_bytes: 4')
    S('StrMinMaxBytesEq', 'min_bytes: 4, max_bytes: 4')
    S('StrLenAndBytes', 'max_len: 2, max_bytes: 5')
    S('StrMinLenMinBytes', 'min_len: 2, min_bytes: 4')
    S('StrMinLenMaxBytesEq', 'min_len: 3, max_bytes: 3')
    S('StrMinBytesMaxLenEq', 'min_bytes: 3, max_len: 3')
    S('StrMinLenMinBytesEq', 'min_len: 2, min_bytes: 2')
    S('StrLenLenBytesEq', 'len: 2, len_bytes: 2')
    S('StrMMLenMMBytes', 'min_len: 2, max_len: 2, min_bytes: 4, max_bytes: 6')
    S('StrPrefix', 'prefix: "foo"')
    S('StrSuffix', 'suffix: "baz"')
    S('StrContains', 'contains: "bar"')
    S('StrNotContains', 'not_contains: "ba"')
    S('StrAffix', 'prefix: "a", suffix: "z", contains: "m", min_len: 2')
    S('StrPrefixQuote', r'prefix: "\"\\"')
    S('StrSuffixHex', r'suffix: "\001e"')
    S('StrContainsNul', r'contains: "\000"')
    S('StrIn', 'in: ["bar", "baz", "q"]')
    S('StrInEsc', r'in: ["a\"", "b\\", "\303\251", "\001e"]')
    S('StrNotIn', 'not_in: ["fizz", "buzz", ""]')
    S('StrInOne', 'in: ["x"]')
    S('StrIgnore', 'min_len: 2, max_len: 3, ignore_empty: true')
    S('StrIgnoreIn', 'in: ["ab"], ignore_empty: true')
    S('StrIgnorePre', 'prefix: "a", ignore_empty: true')
    S('StrIgnoreFalse', 'min_len: 2, ignore_empty: false')
    S('StrPat', r'pattern: "^a+b?$"')
    S('StrPatSearch', r'pattern: "[0-9][a-c]"')
    S('StrPatAlt', r'pattern: "^(ab|c)$"')
    S('StrPatEsc', r'pattern: "^\\d\\.x\"$"')
    S('StrPatIgn', r'pattern: "^x", ignore_empty: true')
    S('StrPatCI', r'pattern: "(?i)^ok$"')
    S('StrPatAny', r'pattern: "^.b$"')
    S('StrMixA', 'min_len: 1, max_bytes: 4, not_contains: "a"')
    S('StrMixB', 'len: 3, pattern: "^[a-z]*$"')
    S('StrMixC', 'prefix: "ab", not_contains: "bc"')
    S('StrMixD', 'len_bytes: 3, ignore_empty: true, prefix: "x"')
    S('StrMixE', 'not_in: ["ab", "cd"], min_len: 2, max_len: 3')
    S('StrIgnOnly', 'ignore_empty: true')
    S('StrMixF', 'const: "ok", ignore_empty: true')
    S('StrMixG', 'len: 2, min_bytes: 3')
    S('StrMixH', 'min_len: 1, max_bytes: 3, suffix: "z", ignore_empty: true')
    S('StrMixI', 'contains: "q", not_in: ["q", "qq"], max_len: 3')
    S('StrLen1', 'len: 1')
    S('StrMax1', 'max_len: 1')
    S('StrMinBytes1', 'min_bytes: 1')
    S('StrMaxBytes0', 'max_bytes: 0')
    S('StrLenBytes0', 'len_bytes: 0')
    S('StrLong', 'in: [%s]' % ', '.join('"w%d"' % i for i in range(14)))
    S('StrLongNot', 'not_in: [%s]' % ', '.join('"%s"' % chr(97 + i) for i in range(12)))
    S('StrPrefixOnly1', 'prefix: "/"')
    S('StrSelf', 'prefix: "aba", suffix: "aba"')
    f.msg('StrTwo', 'string b = 9 [(validate.rules).string.min_len = 1]; bytes c = 3 [(validate.rules).bytes.max_len = 1]; string a = 1 [(validate.rules).string = {in: ["a", ""]}];')
    S('StrNone', '')
    f.msg('StrPlain', 'string val = 1;')
    f.msg('StrWrap', 'google.protobuf.StringValue val = 1 [(validate.rules).string = {min_len: 2, prefix: "a"}];')
    f.msg('StrWrapReq', 'google.protobuf.StringValue val = 1 [(validate.rules).string.max_len = 1, (validate.rules).message.required = true];')
    f.msg('BytesWrap', 'google.protobuf.BytesValue val = 1 [(validate.rules).bytes = {min_len: 2}];')
    f.msg('StrWrapIn', 'google.protobuf.StringValue val = 1 [(validate.rules).string = {in: ["x", "yz"]}];')
    f.msg('StrRep', 'repeated string val = 1 [(validate.rules).repeated.items.string = {min_len: 1, max_len: 2}];')
    f.msg('StrRepIn', 'repeated string val = 1 [(validate.rules).repeated.items.string = {in: ["a", "bc"]}];')
    f.msg('StrRepNotIn', 'repeated string val = 1 [(validate.rules).repeated.items.string = {not_in: ["a", "bc"]}];')
    f.msg('StrRepPat', r'repeated string val = 1 [(validate.rules).repeated.items.string.pattern = "^[a-c]$"];')
    f.msg('StrMapKV', 'map<string, string> val = 1 [(validate.rules).map = {keys: {string: {min_len: 2}}, values: {string: {max_len: 1}}}];')
    f.msg('StrMapKP', r'map<string, string> val = 1 [(validate.rules).map.keys.string.pattern = "^k"];')
    f.msg('StrMapVP', r'map<string, string> val = 1 [(validate.rules).map.values.string.pattern = "^v"];')
    B('BytesConst', r'const: "foo"')
    B('BytesConstBin', r'const: "\x00\x99\x0f"')
    B('BytesLen', 'len: 3')
    B('BytesLen0', 'len: 0')
    B('BytesMinLen', 'min_len: 3')
    B('BytesMaxLen', 'max_len: 3')
    B('BytesMaxLen0', 'max_len: 0')
    B('BytesMinMax', 'min_len: 2, max_len: 4')
    B('BytesMinMaxEq', 'min_len: 3, max_len: 3')
    B('BytesPrefix', r'prefix: "\x99a"')
    B('BytesSuffix', r'suffix: "b\xff"')
    B('BytesContains', r'contains: "\x00\x01"')
    B('BytesAffix', r'prefix: "a", suffix: "b", contains: "\x80"')
    B('BytesIn', r'in: ["bar", "b\x9f", "\x10"]')
    B('BytesNotIn', r'not_in: ["bar", "b\x9f"]')
    B('BytesInLow', r'in: ["\x01\x02", "a\x00f"]')
    B('BytesNotInLow', r'not_in: ["\x0a", "\x01z"]')
    B('BytesIgnore', 'min_len: 2, max_len: 3, ignore_empty: true')
    B('BytesIgnorePre', r'prefix: "a", ignore_empty: true')
    B('BytesPat', r'pattern: "^[a-c]+$"')
    B('BytesPatSearch', r'pattern: "b"')
    B('BytesIp', 'ip: true')
    B('BytesIpv4', 'ipv4: true')
    B('BytesIpv6', 'ipv6: true')
    B('BytesIpIgn', 'ipv4: true, ignore_empty: true')
    B('BytesMixA', 'len: 2, prefix: "a", ignore_empty: true')
    B('BytesMixB', 'min_len: 1, max_len: 3, contains: "b", not_in: ["b", "ab"]')
    B('BytesMixC', 'max_len: 2, pattern: "^[a-c]*$"')
    B('BytesIgnOnly', 'ignore_empty: true')
    B('BytesMixD', 'const: "ok", ignore_empty: true')
    B('BytesMin1', 'min_len: 1')
    B('BytesLen1', 'len: 1')
    B('BytesLong', 'in: [%s]' % ', '.join('"w%d"' % i for i in range(14)))
    B('BytesIpIgn6', 'ipv6: true, ignore_empty: true')
    f.msg('BytesPlain', 'bytes val = 1;')
    return f


def esc(b):
    return ''.join('\\%03o' % c for c in b)


def lit(seed=1):
    '''Rule values that are hard to write down in the target languages.'''
    f = File('lit')
    S = lambda n, r: f.one(n, 'string', '.string = {%s}' % r)
    B = lambda n, r: f.one(n, 'bytes', '.bytes = {%s}' % r)
    T = lambda x: '"%s"' % esc(x if isinstance(x, bytes) else x.encode('utf8'))
    odd = ['"', '\\', '\n', '\r', '\t', '\0', '\x01', '\x1f', '\x7f', '?', '%', '$', '`', "'", '/', '*', '<', '>', '{', '}']
    uni = ['\x80', '\xff', '\u0130', '\u07ff', '\u0800', '\u2028', '\ud7ff', '\ue000', '\ufeff', '\uffff', '\U00010000', '\U0001f600', '\U0010ffff']
    words = ['??=', '%d%s%%', '\\u0041', '\\x41', '\\n', '\\101', '*/', '//', '${a}', '{{.}}', '`+`', '"+"', 'R"(', ')"', '%!', "''", '\\\\', '\\"', '\0001', '\x017', '\x01f', '\xe91']
    for k, group in enumerate([odd[:10], odd[10:], uni, words[:11], words[11:]]):
        S('LIn%d' % k, 'in: [%s]' % ', '.join(T(x) for x in group))
        S('LNotIn%d' % k, 'not_in: [%s]' % ', '.join(T(x) for x in group))
    for k, rule in enumerate(['const', 'prefix', 'suffix', 'contains', 'not_contains']):
        for j, x in enumerate([''.join(odd[k::5]), uni[k] + uni[k + 5] + uni[12], words[k] + words[k + 5], words[k + 10], words[k + 15]]):
            S('L%s%d' % (camel(rule), j), '%s: %s' % (rule, T(x)))
    S('LConstAscii', 'const: %s' % T(bytes(range(128))))
    S('LConstHex', 'const: %s' % T(b''.join(bytes([c]) + d for c in (1, 7, 10, 31, 127) for d in (b'0', b'7', b'8', b'a', b'f', b'F', b'g'))))
    S('LConstUni', 'const: %s' % T(''.join(u + d for u in uni for d in '07af')))
    B('LBConstAll', 'const: %s' % T(bytes(range(256))))
    B('LBConstHex', 'const: %s' % T(b''.join(bytes([c]) + d for c in (0, 1, 7, 31, 127, 128, 255) for d in (b'0', b'7', b'8', b'a', b'f', b'F', b'g'))))
    B('LBIn', 'in: [%s]' % ', '.join(T(x) for x in (b'\0', b'\xff', b'\x7f', b'\x80', b'"', b'\\', b'\x010', b'\x0ff', b'\xc3\xa9', b'\0\0', b'??=')))
    B('LBNotIn', 'not_in: [%s]' % ', '.join(T(x) for x in (b'\0', b'\xff', b'\x7f', b'\x80', b'"', b'\\', b'\x010', b'\x0ff', b'\xc3\xa9', b'\0\0', b'')))
    for rule in ('prefix', 'suffix', 'contains'):
        B('LB' + camel(rule), '%s: %s' % (rule, T(b'\0"\\\xff1')))
        B('LBB' + camel(rule), '%s: %s' % (rule, T(b'\x80\n')))
    for k, pat in enumerate([r'^["\\]$', '^\\x01f$', '^[\x7f-\xff]$', '^\n$', '^\u00e9+$', '^\\$\\{$', '^%d?$', '^`$', '^\\\\u0041$', '^\\?\\?=$', '^\U0001f600?$', '^\U0010ffff$']):
        S('LPat%d' % k, 'pattern: %s' % T(pat))
    for n in (255, 256, 300):
        S('LLen%d' % n, 'len: %d' % n)
        B('LBMax%d' % n, 'max_len: %d' % n)
        S('LMinBytes%d' % n, 'min_bytes: %d' % n)
    for n in (2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807):
        S('LHuge%d' % n, 'max_len: %d' % n)
        S('LHugeB%d' % n, 'max_bytes: %d' % n)
        S('LHugeMin%d' % n, 'min_len: %d' % n)
        S('LHugeMinB%d' % n, 'min_bytes: %d' % n)
        B('LBHuge%d' % n, 'max_len: %d' % n)
        B('LBHugeMin%d' % n, 'min_len: %d' % n)
        f.one('LRepHuge%d' % n, 'repeated int32', '.repeated = {max_items: %d}' % n)
        f.one('LRepHugeMin%d' % n, 'repeated int32', '.repeated = {min_items: %d}' % n)
        f.one('LMapHuge%d' % n, 'map<int32, int32>', '.map = {max_pairs: %d}' % n)
        f.one('LMapHugeMin%d' % n, 'map<int32, int32>', '.map = {min_pairs: %d}' % n)
    return f


def fmt(seed=1):
    f = File('fmt', ['google/protobuf/wrappers.proto'])
    S = lambda n, r: f.one(n, 'string', '.string = {%s}' % r)
    for k in ('email', 'hostname', 'ip', 'ipv4', 'ipv6', 'uri', 'uri_ref', 'address', 'uuid'):
        S('F' + k.replace('_', '').capitalize(), k + ': true')
    S('FUuidIgn', 'uuid: true, ignore_empty: true')
    S('FHostIgn', 'hostname: true, ignore_empty: true')
    S('FHeaderName', 'well_known_regex: HTTP_HEADER_NAME')
    S('FHeaderValue', 'well_known_regex: HTTP_HEADER_VALUE')
    S('FHeaderNameStrict', 'well_known_regex: HTTP_HEADER_NAME, strict: true')
    S('FHeaderNameLoose', 'well_known_regex: HTTP_HEADER_NAME, strict: false')
    S('FHeaderValueLoose', 'well_known_regex: HTTP_HEADER_VALUE, strict: false')
    S('FHeaderValueLen', 'well_known_regex: HTTP_HEADER_VALUE, max_len: 3')
    S('FUuidPre', 'uuid: true, prefix: "a"')
    S('FEmailMax', 'email: true, max_len: 9')
    S('FHostPre', 'hostname: true, prefix: "a"')
    S('FIpIgn', 'ip: true, ignore_empty: true')
    S('FIpv6Ign', 'ipv6: true, ignore_empty: true')
    S('FUriPre', 'uri: true, prefix: "h"')
    S('FUriIgn', 'uri: true, ignore_empty: true')
    S('FRefIgn', 'uri_ref: true, ignore_empty: true')
    S('FEmailIgn', 'email: true, ignore_empty: true')
    S('FAddrIgn', 'address: true, ignore_empty: true')
    S('FHeaderIgn', 'well_known_regex: HTTP_HEADER_NAME, ignore_empty: true')
    f.msg('FTwo', 'string a = 3 [(validate.rules).string.uuid = true]; string b = 1 [(validate.rules).string.hostname = true]; string c = 2 [(validate.rules).string.ipv4 = true];')
    f.msg('FRepUuid', 'repeated string val = 1 [(validate.rules).repeated.items.string.uuid = true];')
    f.msg('FRepHost', 'repeated string val = 1 [(validate.rules).repeated.items.string.hostname = true];')
    f.msg('FRepWrapHost', 'repeated google.protobuf.StringValue val = 1 [(validate.rules).repeated.items.string.hostname = true];')
    f.msg('FMapWrapUuid', 'map<int32, google.protobuf.StringValue> val = 1 [(validate.rules).map.values.string.uuid = true];')
    f.msg('FWrapHost', 'google.protobuf.StringValue val = 1 [(validate.rules).string.hostname = true];')
    f.msg('FMapKeyHost', 'map<string, int32> val = 1 [(validate.rules).map.keys.string.hostname = true];')
    f.msg('FMapValAddr', 'map<int32, string> val = 1 [(validate.rules).map.values.string.address = true];')
    f.msg('FOneof', 'oneof x { string a = 1 [(validate.rules).string.hostname = true]; string b = 2 [(validate.rules).string.uuid = true]; }')
    f.msg('FOuter', 'message Inner { string val = 1 [(validate.rules).string.uuid = true]; } Inner in = 1;')
    return f


def one(seed=1):
    """Ranges of one value: protoc-gen-validate refuses them, the Python
    validator meets them as they are."""
    f = File('one', ['google/protobuf/duration.proto', 'google/protobuf/timestamp.proto'])
    for t in ('int32', 'uint64', 'sint64', 'fixed32', 'float', 'double'):
        f.msg('One' + t.capitalize(), '%s val = 1 [(validate.rules).%s = {gte: 7, lte: 7}];' % (t, t))
        f.msg('One%sIgn' % t.capitalize(), '%s val = 1 [(validate.rules).%s = {gte: 7, lte: 7, ignore_empty: true}];' % (t, t))
    f.one('OneDur', 'google.protobuf.Duration', '.duration = {gte: {seconds: 1, nanos: 5}, lte: {seconds: 1, nanos: 5}}')
    f.one('OneTs', 'google.protobuf.Timestamp', '.timestamp = {gte: {seconds: 9, nanos: 1}, lte: {seconds: 9, nanos: 1}}')
    return f


def twin_a(seed=1):
    """Message types whose names are alike, with different rules; twin_b is
    the same in another package."""
    f = File('twa')
    f.raw('message Item { int32 val = 1 [(validate.rules).int32.gt = 5]; message Item { int32 val = 1 [(validate.rules).int32.lt = 3]; } Item sub = 2; }')
    f.raw('message Outer { message Item { string val = 1 [(validate.rules).string.min_len = 2]; } Item it = 1; pgvm.twa.Item top = 2; }')
    f.raw('message item { int32 val = 1 [(validate.rules).int32.const = 8]; }')
    f.raw('message Item_Item { repeated int32 val = 1 [(validate.rules).repeated.min_items = 1]; }')
    f.raw('message Plain { int32 val = 1; }')
    f.raw('message Off { option (validate.disabled) = true; int32 val = 1 [(validate.rules).int32.gt = 5]; Item it = 2; }')
    return f


def twin_b(seed=1):
    f = File('twb', ['pgvm/twa.proto'])
    f.raw('message Item { int32 val = 1 [(validate.rules).int32 = {in: [1, 7]}]; pgvm.twa.Item other = 2 [(validate.rules).message.required = true]; }')
    f.raw('message Plain { int32 val = 1 [(validate.rules).int32.gte = 0]; }')
    f.raw('message Off { int32 val = 1 [(validate.rules).int32.lt = 4]; oneof k { option (validate.required) = true; Plain p = 2; Item q = 3; } }')
    return f


def fmt_nested(seed=1):
    """A file whose only uuid rule sits in a nested message."""
    f = File('fmtn')
    f.raw('message NOuter { message NInner { string val = 1 [(validate.rules).string.uuid = true]; string h = 2 [(validate.rules).string.hostname = true]; } NInner in = 1; int32 x = 2; }')
    return f


def timef(seed=1):
    f = File('tim', ['google/protobuf/duration.proto', 'google/protobuf/timestamp.proto'])
    D = lambda n, r: f.one(n, 'google.protobuf.Duration', '.duration = {%s}' % r)
    T = lambda n, r: f.one(n, 'google.protobuf.Timestamp', '.timestamp = {%s}' % r)

    def lit(s, n=0):
        return '{seconds: %d, nanos: %d}' % (s, n)
    D('DurReq', 'required: true')
    D('DurConst', 'const: ' + lit(3))
    D('DurConstN', 'const: ' + lit(-1, -500))
    D('DurReqConst', 'required: true, const: ' + lit(3))
    D('DurIn', 'in: [%s, %s]' % (lit(1), lit(0, 1000)))
    D('DurNotIn', 'not_in: [%s, %s]' % (lit(0), lit(2, 7)))
    D('DurNone', '')
    T('TsReq', 'required: true')
    T('TsConst', 'const: ' + lit(3))
    T('TsConstN', 'const: ' + lit(-5, 999999999))
    T('TsReqConst', 'required: true, const: ' + lit(0))
    T('TsNone', '')
    for nm, F, a, b in (('Dur', D, lit(-2, -5), lit(7, 3)), ('Ts', T, lit(-60, 1), lit(3600, 9))):
        F(nm + 'LT', 'lt: ' + b)
        F(nm + 'LTE', 'lte: ' + b)
        F(nm + 'GT', 'gt: ' + a)
        F(nm + 'GTE', 'gte: ' + a)
        F(nm + 'LTn', 'lt: ' + a)
        F(nm + 'GTEn', 'gte: ' + b)
        for lo in ('gt', 'gte'):
            for hi in ('lt', 'lte'):
                F('%sR%s%s' % (nm, lo, hi), '%s: %s, %s: %s' % (lo, a, hi, b))
                F('%sX%s%s' % (nm, lo, hi), '%s: %s, %s: %s' % (lo, b, hi, a))
        F(nm + 'ReqLT', 'required: true, lt: ' + b)
    # bounds that differ only in nanoseconds, or only in seconds with nanos reversed
    D('DurNano', 'gt: %s, lt: %s' % (lit(1, 5), lit(1, 9)))
    D('DurSecRev', 'gt: %s, lt: %s' % (lit(1, 900), lit(2, 5)))
    T('TsNano', 'gte: %s, lte: %s' % (lit(1, 5), lit(1, 9)))
    T('TsSecRev', 'gt: %s, lte: %s' % (lit(1, 900), lit(2, 5)))
    T('TsLtNow', 'lt_now: true')
    T('TsGtNow', 'gt_now: true')
    T('TsLtNowFalse', 'lt_now: false')
    T('TsGtNowFalse', 'gt_now: false, required: true')
    T('TsWithin', 'within: ' + lit(3600))
    T('TsWithinN', 'within: ' + lit(0, 500))
    T('TsLtNowWithin', 'lt_now: true, within: ' + lit(3600))
    T('TsGtNowWithin', 'gt_now: true, within: ' + lit(90, 5))
    D('DurMixA', 'required: true, gt: %s, not_in: [%s]' % (lit(1), lit(2)))
    D('DurMixB', 'required: true, in: [%s]' % ', '.join(lit(i, i * 10) for i in range(9)))
    D('DurZero', 'gt: ' + lit(0))
    D('DurZeroE', 'gte: ' + lit(0))
    D('DurZeroL', 'lt: ' + lit(0))
    D('DurZeroLE', 'lte: ' + lit(0))
    D('DurZeroC', 'const: ' + lit(0))
    T('TsZero', 'gt: ' + lit(0))
    T('TsZeroL', 'lte: ' + lit(0))
    T('TsMixA', 'required: true, lt_now: true')
    T('TsMixB', 'required: true, gt_now: true, within: ' + lit(10))
    T('TsMixC', 'required: true, within: ' + lit(1, 1))
    f.msg('DurTwo', 'google.protobuf.Timestamp b = 9 [(validate.rules).timestamp = {required: true, gt: {seconds: 9}}]; google.protobuf.Duration a = 2 [(validate.rules).duration.lt = {seconds: 5}];')
    f.msg('DurRep', 'repeated google.protobuf.Duration val = 1 [(validate.rules).repeated.items.duration.gte = {nanos: 1000000}];')
    f.msg('TsMap', 'map<int32, google.protobuf.Timestamp> val = 1 [(validate.rules).map.values.timestamp.lt = {seconds: 5}];')
    f.msg('DurOneof', 'oneof o { google.protobuf.Duration d = 1 [(validate.rules).duration.lt = {seconds: 5}]; google.protobuf.Timestamp t = 2 [(validate.rules).timestamp.gt = {seconds: 1}]; }')
    return f


def coll(seed=1):
    f = File('col', ['google/protobuf/wrappers.proto', 'google/protobuf/duration.proto', 'google/protobuf/any.proto', 'google/protobuf/timestamp.proto'])
    R = lambda n, t, r: f.one(n, 'repeated ' + t, '.repeated = {%s}' % r)
    Mp = lambda n, k, v, r: f.one(n, 'map<%s, %s>' % (k, v), '.map = {%s}' % r)
    f.raw('message Emb { int64 val = 1 [(validate.rules).int64.gt = 0]; }')
    f.raw('enum En { E0 = 0; E1 = 1; E5 = 5; }')
    R('RepMin', 'int32', 'min_items: 2')
    R('RepMax', 'int32', 'max_items: 2')
    R('RepMax0', 'int32', 'max_items: 0')
    R('RepMin1', 'string', 'min_items: 1')
    R('RepMinMax', 'int32', 'min_items: 1, max_items: 2')
    R('RepExact', 'int32', 'min_items: 2, max_items: 2')
    R('RepMin0Max1', 'int32', 'min_items: 0, max_items: 1')
    R('RepIgn', 'int32', 'min_items: 2, ignore_empty: true')
    R('RepIgnOnly', 'int32', 'ignore_empty: true')
    R('RepIgnMM', 'Emb', 'min_items: 2, max_items: 3, ignore_empty: true')
    R('RepUniqI', 'int32', 'unique: true')
    R('RepUniqS', 'string', 'unique: true')
    R('RepUniqB', 'bytes', 'unique: true')
    R('RepUniqF', 'double', 'unique: true')
    R('RepUniqE', 'En', 'unique: true')
    R('RepUniqBool', 'bool', 'unique: true')
    R('RepUniqU64', 'uint64', 'unique: true')
    R('RepUniqItems', 'int32', 'unique: true, items: {int32: {gt: 5}}')
    R('RepAll', 'sint64', 'min_items: 1, max_items: 3, unique: true, items: {sint64: {lte: 9}}')
    R('RepUniqFalse', 'int32', 'unique: false')
    R('RepEnum', 'En', 'items: {enum: {defined_only: true}}')
    R('RepEnumIn', 'En', 'items: {enum: {in: [0, 5]}}')
    R('RepEnumNotIn', 'En', 'items: {enum: {not_in: [1]}}')
    R('RepBool', 'bool', 'items: {bool: {const: true}}')
    f.msg('RepEmb', 'repeated Emb val = 1;')
    R('RepEmbSkip', 'Emb', 'items: {message: {skip: true}}')
    R('RepEmbReq', 'Emb', 'items: {message: {required: true}}')
    R('RepEmbMin', 'Emb', 'min_items: 1')
    R('RepDur', 'google.protobuf.Duration', 'items: {duration: {gt: {seconds: 1}}}')
    R('RepAny', 'google.protobuf.Any', 'items: {any: {in: ["a/b"]}}') if False else None
    R('RepMixA', 'string', 'min_items: 1, max_items: 2, unique: true, items: {string: {min_len: 1}}, ignore_empty: true')
    R('RepMixB', 'Emb', 'max_items: 1, items: {message: {required: true}}')
    R('RepMixC', 'uint32', 'unique: true, max_items: 2')
    R('RepMixD', 'sint32', 'unique: true, ignore_empty: true, min_items: 2')
    R('RepUniqFix', 'fixed64', 'unique: true')
    R('RepItemIgn', 'int32', 'items: {int32: {gt: 5, ignore_empty: true}}')
    R('RepItemStr', 'string', 'items: {string: {prefix: "a", max_len: 2}}')
    R('RepItemBytes', 'bytes', 'max_items: 2, items: {bytes: {len: 1}}')
    R('RepDurReq', 'google.protobuf.Duration', 'items: {duration: {required: true}}')
    R('RepTs', 'google.protobuf.Timestamp', 'items: {timestamp: {lte: {seconds: 1}}}')
    R('RepAnyIn', 'google.protobuf.Any', 'items: {any: {required: true, not_in: ["a"]}}')
    R('RepWrapReq', 'google.protobuf.Int32Value', 'items: {message: {required: true}}')
    R('RepSkipMin', 'Emb', 'min_items: 1, items: {message: {skip: true, required: true}}')
    f.msg('RepTwo', 'repeated int32 b = 8 [(validate.rules).repeated.min_items = 1]; map<int32, int32> c = 1 [(validate.rules).map.max_pairs = 1]; repeated Emb a = 3;')
    f.msg('RepPlain', 'repeated int32 val = 1;')
    Mp('MapMin', 'int32', 'int32', 'min_pairs: 2')
    Mp('MapMax', 'int32', 'int32', 'max_pairs: 1')
    Mp('MapMax0', 'int32', 'int32', 'max_pairs: 0')
    Mp('MapMinMax', 'int32', 'int32', 'min_pairs: 1, max_pairs: 2')
    Mp('MapExact', 'string', 'int32', 'min_pairs: 1, max_pairs: 1')
    Mp('MapIgn', 'int32', 'int32', 'min_pairs: 2, ignore_empty: true')
    Mp('MapNoSparse', 'int32', 'Emb', 'no_sparse: true')
    Mp('MapNoSparseMin', 'int32', 'Emb', 'no_sparse: true, min_pairs: 1')
    f.msg('MapEmb', 'map<int32, Emb> val = 1;')
    Mp('MapEmbSkip', 'int32', 'Emb', 'values: {message: {skip: true}}')
    Mp('MapEmbReq', 'int32', 'Emb', 'values: {message: {required: true}}')
    Mp('MapKeys', 'sint32', 'int32', 'keys: {sint32: {gt: 3}}')
    Mp('MapVals', 'bool', 'uint32', 'values: {uint32: {lte: 3}}')
    Mp('MapBoth', 'uint64', 'int64', 'keys: {uint64: {gte: 3}}, values: {int64: {lt: 0}}')
    Mp('MapKeyLen', 'string', 'string', 'keys: {string: {max_len: 1}}')
    Mp('MapAll', 'int64', 'bool', 'min_pairs: 1, max_pairs: 2, keys: {int64: {gte: 0}}, values: {bool: {const: true}}')
    Mp('MapEnum', 'int32', 'En', 'values: {enum: {defined_only: true}}')
    Mp('MapMixA', 'int32', 'Emb', 'min_pairs: 1, no_sparse: true, keys: {int32: {gt: 0}}, values: {message: {required: true}}')
    Mp('MapIgnOnly', 'string', 'int32', 'ignore_empty: true')
    Mp('MapMixB', 'string', 'int32', 'ignore_empty: true, min_pairs: 2, keys: {string: {min_len: 1}}, values: {int32: {lt: 3}}')
    Mp('MapMixC', 'int32', 'Emb', 'ignore_empty: true, no_sparse: true, max_pairs: 1')
    Mp('MapFix', 'fixed32', 'sfixed64', 'keys: {fixed32: {lt: 9}}, values: {sfixed64: {gte: -1}}')
    Mp('MapFix2', 'sfixed32', 'fixed64', 'keys: {sfixed32: {lte: 9}}, values: {fixed64: {gt: 1}}')
    Mp('MapBoolKey', 'bool', 'string', 'keys: {bool: {const: true}}, values: {string: {max_len: 1}}')
    Mp('MapBytes', 'int64', 'bytes', 'values: {bytes: {min_len: 1, max_len: 2}}')
    Mp('MapDur', 'int32', 'google.protobuf.Duration', 'values: {duration: {required: true, gte: {seconds: 1}}}')
    Mp('MapWrapReq', 'int32', 'google.protobuf.StringValue', 'values: {string: {min_len: 1}}')
    Mp('MapDbl', 'int32', 'double', 'values: {double: {gt: 0.5}}')
    f.msg('MapPlain', 'map<int32, int32> val = 1;')
    f.msg('CollOneof', 'oneof o { Emb e = 1; int32 i = 2; } repeated Emb r = 3 [(validate.rules).repeated.max_items = 1];')
    return f


def plc(seed=1):
    """Rules that need generated lookup tables or helpers, wherever a rule may sit."""
    f = File('plc', ['google/protobuf/wrappers.proto', 'google/protobuf/duration.proto', 'google/protobuf/any.proto'])
    f.raw('enum En { E0 = 0; E1 = 1; E5 = 5; }')
    rules = [(t, t, 'in: [1, 3]', 'not_in: [2, 3]') for t in NUMT]
    rules += [('string', 'string', 'in: ["a", "bc"]', 'not_in: ["b", ""]'), ('string', 'string', 'pattern: "^a"', r'pattern: "b\\."'),
              ('bytes', 'bytes', r'in: ["a", "\x01\x02"]', r'not_in: ["b", "\x00"]'), ('bytes', 'bytes', 'pattern: "^a"', 'min_len: 1, prefix: "b"'),
              ('enum', 'En', 'in: [0, 5]', 'not_in: [1]'), ('enum', 'En', 'defined_only: true', 'const: 5'),
              ('duration', 'google.protobuf.Duration', 'in: [{seconds: 1}]', 'not_in: [{nanos: 7}]'),
              ('any', 'google.protobuf.Any', 'in: ["t/a"]', 'not_in: ["t/a"]')]
    for i, (t, ty, a, b) in enumerate(rules):
        C = '%s%d' % (camel(t), i)
        A, B = '%s: {%s}' % (t, a), '%s: {%s}' % (t, b)
        f.msg(C + 'Rep', 'repeated %s val = 1 [(validate.rules).repeated.items = {%s}];' % (ty, A))
        f.msg(C + 'MapV', 'map<int32, %s> val = 1 [(validate.rules).map.values = {%s}];' % (ty, B))
        if t not in ('float', 'double', 'bytes', 'enum', 'duration', 'any'):
            f.msg(C + 'MapKV', 'map<%s, %s> val = 1 [(validate.rules).map = {keys: {%s}, values: {%s}}];' % (ty, ty, A, B))
        f.msg(C + 'One', 'oneof o { %s a = 1 [(validate.rules).%s = {%s}]; %s b = 2 [(validate.rules).%s = {%s}]; }' % (ty, t, a, ty, t, b))
        if t in WRAPN:
            w = 'google.protobuf.' + WRAPN[t]
            f.msg(C + 'RepW', 'repeated %s val = 1 [(validate.rules).repeated.items = {%s}];' % (w, B))
            f.msg(C + 'MapW', 'map<int32, %s> val = 1 [(validate.rules).map.values = {%s}];' % (w, A))
            f.msg(C + 'OneW', 'oneof o { %s a = 1 [(validate.rules).%s = {%s}]; bool b = 2; }' % (w, t, a))
    f.msg('MapEnumInt', 'map<int32, En> val = 1 [(validate.rules).map = {keys: {int32: {in: [4]}}, values: {enum: {in: [1]}}}];')
    f.msg('NamesClash', 'int32 all = 1 [(validate.rules).int32.lt = 3]; repeated int32 errors = 2 [(validate.rules).repeated.unique = true]; bool err = 3 [(validate.rules).bool.const = true]; oneof m { string item = 4 [(validate.rules).string.in = "a"]; int32 ok = 5 [(validate.rules).int32.not_in = 1]; }')
    return f


def ext(seed=1):
    """A file whose only references to an external package's enums are in
    lists and maps."""
    f = File('ext', ['pgvm/mso.proto'])
    f.msg('ExtRep', 'repeated pgvm.mso.OtherEnum val = 1 [(validate.rules).repeated.items.enum.defined_only = true];')
    f.msg('ExtMap', 'map<int32, pgvm.mso.OtherEnum> val = 1 [(validate.rules).map.values.enum = {defined_only: true, not_in: [2]}];')
    return f


def msg(seed=1):
    f = File('msg', ['google/protobuf/wrappers.proto', 'google/protobuf/any.proto', 'google/protobuf/duration.proto', 'pgvm/mso.proto'])
    f.raw('enum En { E0 = 0; E1 = 1; E5 = 5; EN = -2; }')
    f.raw('message Leaf { sint32 val = 1 [(validate.rules).sint32.lt = 4]; }')
    f.raw('message Plain { int32 val = 1; }')
    f.raw('message Disabled { option (validate.disabled) = true; int32 val = 1 [(validate.rules).int32.lt = 0]; Leaf leaf = 2 [(validate.rules).message.required = true]; oneof o { option (validate.required) = true; int32 x = 3; } }')
    f.raw('message Ignored { option (validate.ignored) = true; int32 val = 1 [(validate.rules).int32.lt = 0]; }')
    f.msg('MsgEmb', 'Leaf val = 1;')
    f.msg('MsgReq', 'Leaf val = 1 [(validate.rules).message.required = true];')
    f.msg('MsgSkip', 'Leaf val = 1 [(validate.rules).message.skip = true];')
    f.msg('MsgReqSkip', 'Leaf val = 1 [(validate.rules).message = {required: true, skip: true}];')
    f.msg('MsgReqFalse', 'Leaf val = 1 [(validate.rules).message = {required: false, skip: false}];')
    f.msg('MsgPlain', 'Plain val = 1 [(validate.rules).message.required = true];')
    f.msg('MsgDisabled', 'Disabled val = 1;')
    f.msg('MsgIgnored', 'Ignored val = 1;')
    f.msg('MsgIgnoredReq', 'Ignored val = 1 [(validate.rules).message.required = true];')
    f.msg('MsgOther', 'pgvm.mso.Other val = 1;')
    f.msg('MsgNest', 'MsgEmb a = 1; Leaf b = 2;')
    f.msg('MsgDeep', 'MsgNest a = 1 [(validate.rules).message.required = true];')
    f.msg('MsgRec', 'MsgRec next = 1; int32 v = 2 [(validate.rules).int32.gte = 0];')
    f.msg('MsgMulti', 'int32 a = 1 [(validate.rules).int32.gt = 0]; string b = 2 [(validate.rules).string.min_len = 1]; Leaf c = 3 [(validate.rules).message.required = true]; bool d = 4 [(validate.rules).bool.const = true];')
    f.msg('OneofNone', 'oneof o { string x = 1; int32 y = 2; }')
    f.msg('OneofRules', 'oneof o { string x = 1 [(validate.rules).string.prefix = "a"]; int32 y = 2 [(validate.rules).int32.gt = 0]; Leaf z = 3; }')
    f.msg('OneofReq', 'oneof o { option (validate.required) = true; string x = 1 [(validate.rules).string.prefix = "a"]; int32 y = 2 [(validate.rules).int32.gt = 0]; Leaf z = 3; bool n = 4; }')
    f.msg('OneofReqMsg', 'oneof o { option (validate.required) = true; Leaf x = 1 [(validate.rules).message.required = true]; Leaf y = 2 [(validate.rules).message.skip = true]; }')
    f.msg('OneofTwo', 'oneof o { option (validate.required) = true; int32 x = 1; } oneof p { int32 y = 2 [(validate.rules).int32.lt = 0]; bool b = 3; } int32 q = 4 [(validate.rules).int32.gt = 0];')
    f.msg('EnumConst', 'En val = 1 [(validate.rules).enum.const = 5];')
    f.msg('EnumConst0', 'En val = 1 [(validate.rules).enum.const = 0];')
    f.msg('EnumDef', 'En val = 1 [(validate.rules).enum.defined_only = true];')
    f.msg('EnumDefFalse', 'En val = 1 [(validate.rules).enum.defined_only = false];')
    f.msg('EnumIn', 'En val = 1 [(validate.rules).enum = {in: [0, 5]}];')
    f.msg('EnumNotIn', 'En val = 1 [(validate.rules).enum = {not_in: [1]}];')
    f.msg('EnumDefNotIn', 'En val = 1 [(validate.rules).enum = {defined_only: true, not_in: [1, 3]}];')
    f.msg('EnumNested', 'enum Ne { A = 0; B = 2; } Ne val = 1 [(validate.rules).enum.defined_only = true];')
    f.msg('EnumExt', 'pgvm.mso.OtherEnum val = 1 [(validate.rules).enum.defined_only = true];')
    f.msg('AnyReq', 'google.protobuf.Any val = 1 [(validate.rules).any.required = true];')
    f.msg('AnyIn', 'google.protobuf.Any val = 1 [(validate.rules).any = {in: ["t/a", "t/bb"]}];')
    f.msg('AnyNotIn', 'google.protobuf.Any val = 1 [(validate.rules).any = {not_in: ["t/a"]}];')
    f.msg('AnyReqIn', 'google.protobuf.Any val = 1 [(validate.rules).any = {required: true, in: ["t/a"]}];')
    f.msg('AnyPlain', 'google.protobuf.Any val = 1;')
    f.msg('WrapPlain', 'google.protobuf.Int32Value val = 1;')
    f.msg('WrapReqOnly', 'google.protobuf.Int32Value val = 1 [(validate.rules).message.required = true];')
    f.msg('WrapBool', 'google.protobuf.BoolValue val = 1 [(validate.rules).bool.const = false];')
    f.msg('WrapStrReq', 'google.protobuf.StringValue val = 1 [(validate.rules).string.min_len = 1, (validate.rules).message.required = true];')
    f.msg('EnumMixA', 'En val = 1 [(validate.rules).enum = {defined_only: true, in: [0, 1]}];')
    f.msg('EnumMixB', 'En val = 1 [(validate.rules).enum = {const: -2}];')
    f.msg('EnumMixC', 'En val = 1 [(validate.rules).enum = {not_in: [0, 5, -2]}];')
    f.msg('EnumUndef', 'En val = 1 [(validate.rules).enum = {not_in: [7]}];')
    f.msg('EnumAlias', 'enum Al { option allow_alias = true; P = 0; Q = 1; R = 1; S = 3; } Al val = 1 [(validate.rules).enum.defined_only = true];')
    f.msg('EnumOneof', 'oneof o { En a = 1 [(validate.rules).enum.defined_only = true]; En b = 2 [(validate.rules).enum.const = 1]; }')
    f.msg('AnyMixA', 'google.protobuf.Any val = 1 [(validate.rules).any = {required: true, not_in: ["t/a", "", "t/c"]}];')
    f.msg('AnyOneof', 'oneof o { google.protobuf.Any a = 1 [(validate.rules).any.in = "t/a"]; google.protobuf.Any b = 2 [(validate.rules).any.required = true]; }')
    f.msg('OneofLate', 'int32 a = 1 [(validate.rules).int32.gt = 0]; oneof o { option (validate.required) = true; int32 x = 2 [(validate.rules).int32.lt = 0]; bool y = 3 [(validate.rules).bool.const = true]; } int32 b = 4 [(validate.rules).int32.gt = 1]; Leaf c = 5;')
    f.msg('OneofMany', 'oneof o { int32 a = 1; string b = 2 [(validate.rules).string.min_len = 1]; bytes c = 3 [(validate.rules).bytes.max_len = 1]; bool d = 4 [(validate.rules).bool.const = true]; double e = 5 [(validate.rules).double.gt = 0.5]; Leaf f = 6 [(validate.rules).message.skip = true]; Leaf g = 7 [(validate.rules).message.required = true]; google.protobuf.Int32Value h = 8 [(validate.rules).int32.lt = 3]; En i = 9 [(validate.rules).enum.in = 5]; }')
    f.msg('OneofTwoLate', 'oneof o { int32 x = 1; Leaf l = 5; } oneof p { option (validate.required) = true; int32 y = 2 [(validate.rules).int32.lt = 0]; bool b = 3; } oneof q { string s = 6; }')
    f.msg('OneofBoth', 'oneof o { option (validate.required) = true; int32 x = 1; } oneof p { option (validate.required) = true; int32 y = 2; bool b = 3; } oneof r { option (validate.required) = false; int32 z = 4; }')
    f.msg('OneofWrapReq', 'oneof o { google.protobuf.Int32Value a = 1 [(validate.rules).int32.gt = 3, (validate.rules).message.required = true]; google.protobuf.StringValue b = 2; }')
    f.msg('MsgReqNest', 'MsgReq a = 1 [(validate.rules).message.required = true]; MsgSkip b = 2; OneofReq c = 3;')
    f.msg('MsgMany', 'Leaf a = 9 [(validate.rules).message.required = true]; Leaf b = 3 [(validate.rules).message.skip = true]; Leaf c = 5; google.protobuf.Int32Value d = 7 [(validate.rules).int32 = {gte: 2, lte: 4}, (validate.rules).message.required = true]; bool e = 1 [(validate.rules).bool.const = false];')
    f.msg('MsgNested', 'message In { message Deep { int32 v = 1 [(validate.rules).int32.lt = 4]; } Deep d = 1; repeated Deep r = 2; } In i = 1 [(validate.rules).message.required = true]; In.Deep j = 2;')
    f.msg('NoFields', '')
    f.msg('snake_case_msg', 'int32 field_one = 1 [(validate.rules).int32.gt = 0]; Leaf field_TWO = 2 [(validate.rules).message.required = true]; oneof my_oneof { option (validate.required) = true; int32 in_it = 3 [(validate.rules).int32.gt = 0]; }')
    return f


def mso(seed=1):
    f = File('mso')
    f.raw('message Other { int32 val = 1 [(validate.rules).int32.gt = 7]; }')
    f.raw('enum OtherEnum { OZ = 0; OT = 2; }')
    return f


def p2(seed=1):
    """proto2: presence, declared defaults, required fields."""
    f = File('p2', ['google/protobuf/wrappers.proto', 'google/protobuf/duration.proto'])
    f.syntax = 'proto2'
    for t in NUMT:
        C = camel(t)
        fl = t in ('float', 'double')
        a, b = (-1.5, 2.25) if fl else (3, 10)
        r = '[(validate.rules).%s = {%s}%s];'

        def one(tag, rules, dflt=None, lab='optional', t=t, C=C, r=r):
            f.msg(C + tag, '%s %s val = 1 ' % (lab, t) + r % (t, rules, '' if dflt is None else ', default = %s' % dflt))
        one('Opt', 'gte: %r, lt: %r' % (a, b))
        one('DefIn', 'gte: %r, lt: %r' % (a, b), a)
        one('DefOut', 'gt: %r, lte: %r, ignore_empty: true' % (a, b), a)
        one('Req', 'lt: %r' % b, None, 'required')
        one('List', 'in: [%r, %r]' % (a, b), b)
        one('NotList', 'not_in: [%r, %r]' % (a, b))
        one('Const', 'const: %r' % a, b)
        one('Rep', '') if 0 else f.msg(C + 'Rep', 'repeated %s val = 1 [(validate.rules).repeated = {min_items: 1, unique: true, items: {%s: {gt: %r}}}, packed = true];' % (t, t, a))
        f.msg(C + 'Of', 'oneof o { %s val = 1 [(validate.rules).%s.gt = %r, default = %s]; bool other = 2; }' % (t, t, a, b))
    f.msg('StrMin', 'optional string val = 1 [(validate.rules).string = {min_len: 1, max_len: 3}];')
    f.msg('StrDef', 'optional string val = 1 [(validate.rules).string = {min_len: 3, max_len: 4}, default = "ab"];')
    f.msg('StrIn', 'optional string val = 1 [(validate.rules).string = {in: ["a", "bc"]}, default = "bc"];')
    f.msg('StrNotIn', 'required string val = 1 [(validate.rules).string = {not_in: ["a", ""]}];')
    f.msg('StrConst', 'optional string val = 1 [(validate.rules).string.const = "\\"\\n", default = "\\"\\n"];')
    f.msg('StrPat', 'optional string val = 1 [(validate.rules).string = {pattern: "^[a-c]+$", ignore_empty: true}];')
    f.msg('StrPre', 'optional string val = 1 [(validate.rules).string = {prefix: "a", suffix: "b"}, default = "ab"];')
    f.msg('StrIgnDef', 'optional string val = 1 [(validate.rules).string = {min_len: 3, max_len: 4, ignore_empty: true}, default = "ab"];')
    f.msg('StrIgnIn', 'optional string val = 1 [(validate.rules).string = {not_in: ["ab", "c"], ignore_empty: true}, default = "ab"];')
    f.msg('StrIgnSub', 'optional string val = 1 [(validate.rules).string = {contains: "b", not_contains: "a", ignore_empty: true}, default = "ab"];')
    f.msg('StrIp', 'optional string val = 1 [(validate.rules).string.ip = true, default = "::"];')
    f.msg('StrHost', 'optional string val = 1 [(validate.rules).string = {hostname: true, ignore_empty: true}, default = "-"];')
    f.msg('StrBytes', 'optional string val = 1 [(validate.rules).string = {min_bytes: 2, max_bytes: 3}, default = "\303\251\303\251"];')
    f.msg('BytMin', 'optional bytes val = 1 [(validate.rules).bytes = {min_len: 1, max_len: 3}];')
    f.msg('BytDef', 'optional bytes val = 1 [(validate.rules).bytes = {len: 2}, default = "\\377\\000"];')
    f.msg('BytIn', 'optional bytes val = 1 [(validate.rules).bytes = {in: ["a", "\\377"]}, default = "a"];')
    f.msg('BytIgn', 'optional bytes val = 1 [(validate.rules).bytes = {min_len: 2, ignore_empty: true}, default = "x"];')
    f.msg('BytPre', 'required bytes val = 1 [(validate.rules).bytes = {prefix: "\\001"}];')
    f.msg('BoolDef', 'optional bool val = 1 [(validate.rules).bool.const = true, default = true];')
    f.msg('BoolNo', 'optional bool val = 1 [(validate.rules).bool.const = true];')
    f.raw('enum En { ONE = 1; TWO = 2; MINUS = -3; FAR = 1000; }')
    f.msg('EnumConst', 'optional En val = 1 [(validate.rules).enum.const = 1];')
    f.msg('EnumDef', 'optional En val = 1 [(validate.rules).enum = {in: [1, -3]}, default = FAR];')
    f.msg('EnumNot', 'required En val = 1 [(validate.rules).enum = {not_in: [1]}, default = TWO];')
    f.msg('EnumKnown', 'optional En val = 1 [(validate.rules).enum.defined_only = true];')
    f.msg('EnumRep', 'repeated En val = 1 [(validate.rules).repeated.items.enum.defined_only = true];')
    f.msg('EnumOf', 'oneof o { En val = 1 [(validate.rules).enum.not_in = 2]; string other = 2; }')
    f.msg('Leaf', 'optional int32 v = 1 [(validate.rules).int32.gt = 3, default = 2];')
    f.msg('MsgOpt', 'optional Leaf val = 1;')
    f.msg('MsgReq', 'required Leaf val = 1;')
    f.msg('MsgMust', 'optional Leaf val = 1 [(validate.rules).message.required = true];')
    f.msg('MsgSkip', 'required Leaf val = 1 [(validate.rules).message.skip = true];')
    f.msg('MsgRep', 'repeated Leaf val = 1;')
    f.msg('MsgMap', 'map<string, Leaf> val = 1 [(validate.rules).map.max_pairs = 2];')
    f.msg('MsgOf', 'oneof o { option (validate.required) = true; Leaf val = 1; int32 n = 2 [(validate.rules).int32.lt = 3]; }')
    f.msg('Wrap', 'optional google.protobuf.Int32Value val = 1 [(validate.rules).int32.gt = 3];')
    f.msg('Dur', 'optional google.protobuf.Duration val = 1 [(validate.rules).duration = {required: true, gt: {seconds: 1}}];')
    f.msg('Mixed', 'optional string s = 1 [(validate.rules).string.len = 1, default = "x"]; required int64 n = 2 [(validate.rules).int64.gte = 0]; optional bytes b = 3 [(validate.rules).bytes.max_len = 1]; optional bool t = 4 [(validate.rules).bool.const = false, default = true];')
    f.raw('message Ext { optional int32 val = 1 [(validate.rules).int32.gt = 0]; extensions 100 to 199; extend Ext { optional string inner = 101 [(validate.rules).string.min_len = 1]; } }')
    f.raw('extend Ext { optional string outer = 100 [(validate.rules).string.min_len = 1]; }')
    return f


FILES = {'p2': p2, 'num': num, 'twa': twin_a, 'twb': twin_b, 'one': one, 'str': string, 'lit': lit, 'fmt': fmt, 'fmtn': fmt_nested, 'tim': timef, 'col': coll, 'plc': plc, 'ext': ext, 'msg': msg, 'mso': mso}


def texts(names, seed=1):
    names = list(names)
    if ('msg' in names or 'ext' in names) and 'mso' not in names:
        names.append('mso')
    return {'pgvm/%s.proto' % n: FILES[n](seed).text() for n in names}


def java_texts(names, seed=1):
    """no_sparse is documented as unsupported."""
    out = {}
    for n, t in texts(names, seed).items():
        f = FILES[os.path.basename(n)[:-6]](seed)
        f.body = [b for b in f.body if 'no_sparse' not in b]
        out[n] = f.text()
    return out


CC_SKIP = ['items: {', '.items', 'keys: {', 'values: {', '.keys', '.values', 'no_sparse', '.timestamp', 'email:', 'uri:', 'uri_ref:']


def cc_ok(b):
    """The documentation lists the rule as supported in C++."""
    if '.bytes' in b and any(k in b for k in ('ip: true', 'ipv4: true', 'ipv6: true')):
        return False
    return not any(k in b for k in CC_SKIP)


def cc_texts(names, seed=1):
    out = {}
    for n in names:
        f = FILES[n](seed)
        f.body = [b for b in f.body if cc_ok(b)]
        out['pgvm/%s.proto' % n] = f.text()
    return out


def cc_rest(names, seed=1):
    """The messages cc_texts leaves out, as far as their code compiles: the
    element tables and patterns of items, keys and values are not emitted."""
    import re
    out = {}
    for n in names:
        f = FILES[n](seed)

        def keep(b):
            if 'validate.' not in b or re.match(r'\s*message (Emb|Leaf|Disabled|Ignored)\b', b):
                return True
            nested = re.search(r'items|keys|values', b)
            return not cc_ok(b) and not (nested and re.search(r'\bin\b|not_in|pattern', b))
        f.body = [b for b in f.body if keep(b)]
        out['pgvm/%s.proto' % n] = f.text()
    return out
