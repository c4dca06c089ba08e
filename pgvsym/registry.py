from . import gosuite as g
from . import goerr
from . import checker as ck
from . import ccsuite as cc
from . import javasuite as js
from . import jhist as jh
from . import pysuite as py
from . import names as nm

STR_BOUNDS = ['string/bytes fields: every byte value, lengths around every rule constant up to 8 (quick) / 12 (thorough) bytes']
ALLF = ['num', 'str', 'fmt', 'fmtn', 'tim', 'col', 'plc', 'ext', 'msg']
LITE = ['text of 0..2 bytes for well-known formats, up to three lengths around each other rule; lists and maps of up to 3 elements; nesting depth 2']
P2 = ['every value of every scalar field, set or unset; texts up to 5 bytes; collections of up to 3 elements; nesting depth 2']
TABLE = {
    'G01': lambda t, s: g.check_sem('G01', ['num'], t, s, ['all 2^32/2^64 integer and IEEE float values per field; repeated <= 2-3 items, maps <= 2 pairs']),
    'G02': lambda t, s: g.check_sem('G02', ['str', 'lit'], t, s, STR_BOUNDS),
    'G03': lambda t, s: g.check_sem('G03', ['fmt', 'fmtn'], t, s, ['hostnames: all texts of 0..4 (6) bytes plus 63/64/65-byte labels and 252..255-byte names; uuid 35..37 bytes; header texts 0..3 (5) bytes; parsed e-mail addresses of 14 shapes']),
    'G04': lambda t, s: g.check_sem('G04', ['tim'], t, s, ['all int64 seconds x int32 nanos, all clock readings 2020..2100']),
    'G05': lambda t, s: g.check_sem('G05', ['col', 'plc', 'ext'], t, s, ['0..3 items or pairs (one past every count rule)']),
    'G06': lambda t, s: g.check_sem('G06', ['msg'], t, s, ['message nesting depth 2, all oneof cases, all enum int32 values']),
    'G07': lambda t, s: goerr.check_err('G07', 'agree', ALLF, t, s, LITE),
    'G08': lambda t, s: goerr.check_err('G08', 'attr', ALLF, t, s, LITE),
    'C01': lambda t, s: ck.check('C01', ck.NUM_TASKS, t, s, ['every value of every rule, 0..2 (3) list entries; field, wrapper, item, key and value placements']),
    'C02': lambda t, s: ck.check('C02', ck.TEXT_TASKS + (ck.TEXT_MORE if t != 'quick' else []), t, s, ['every value of every rule; prefix, suffix and contains of 0..2 (4) bytes, 0..2 (3) list entries']),
    'C03': lambda t, s: ck.check('C03', [('rules', 'duration'), ('rules', 'timestamp')], t, s, ['every int64 seconds and int32 nanos of every rule; 0..2 (3) list entries']),
    'C04': lambda t, s: ck.check('C04', ck.TYPE_TASKS, t, s, ['all 15 scalar types, enums, 17 message types; singular, repeated and map fields; all 21 rule kinds']),
    'X01': lambda t, s: cc.check('X01', ['num'], t, s, ['all 2^32/2^64 integer and IEEE float values per field; repeated <= 2-3 items']),
    'X02': lambda t, s: cc.check('X02', ['str', 'lit', 'fmt'], t, s, STR_BOUNDS + ['hostnames: texts of 0..4 (6) bytes plus 63/64/65-byte labels and 252..255-byte names']),
    'X03': lambda t, s: cc.check('X03', ['col', 'plc', 'tim', 'msg', 'ext'], t, s, ['collections of up to 3 elements; all durations; nesting depth 2; texts up to 8 (12) bytes']),
    'X04': lambda t, s: cc.check('X04', ['col', 'plc', 'tim', 'str', 'fmt', 'ext', 'msg'], t, s, ['collections of up to 3 elements; nesting depth 2; texts up to 8 (12) bytes'], partial=True),
    'J01': lambda t, s: js.check('J01', ['num'], t, s, ['all 2^32/2^64 integer and IEEE float values per field; repeated <= 2-3 items, maps <= 2 pairs']),
    'J02': lambda t, s: js.check('J02', ['str', 'lit', 'fmt'], t, s, STR_BOUNDS),
    'J03': lambda t, s: js.check('J03', ['col', 'plc', 'tim', 'msg', 'ext'], t, s, ['collections of up to 3 elements; all durations, timestamps and clock readings 2020..2100; nesting depth 2; texts up to 8 (12) bytes']),
    'J04': lambda t, s: js.check('J04', ['num', 'str', 'fmt', 'tim', 'col', 'plc', 'ext', 'msg'], t, s, LITE + ['all clock readings 2020..2100'], mode='attr'),
    'J05': lambda t, s: jh.check('J05', {'explicit': (4, 5, 4), 'reflective': (2, 3, 4)}, t, s, ['all histories of up to 4 (5) operations on ExplicitValidatorIndex over 2 classes; up to 2 (3) on ReflectiveValidatorIndex over 8 classes, all int32 field values']),
    'J06': lambda t, s: jh.check('J06', {'server': (4, 5, 5), 'client': (4, 5, 4)}, t, s, ['all histories of up to 4 (5) events of a call, all int32 field values of the messages']),
    'P01': lambda t, s: py.check('P01', ['num', 'one'], t, s, ['all 2^32/2^64 integer and IEEE float values per field; repeated <= 2-3 items, maps <= 2 pairs']),
    'P02': lambda t, s: py.check('P02', ['str', 'lit', 'fmt'], t, s, STR_BOUNDS + ['hostnames: texts of 0..4 (6) bytes plus 63/64/65-byte labels and 252..255-byte names']),
    'P04': lambda t, s: py.check_hist('P04', ['twa', 'twb'], t, s, ['all pairs (thorough: and triples) of 10 message types with like names, all field values; repeated fields up to 2 items']),
    'P03': lambda t, s: py.check('P03', ['col', 'plc', 'tim', 'msg', 'ext'], t, s, ['collections of up to 3 elements; all durations, timestamps and clock readings 2020..2100; nesting depth 2; texts up to 8 (12) bytes']),
    'N01': lambda t, s: nm.check('N01', 'java', t, s, ['every identifier of up to 4 (5) characters, spellings around the names protoc avoids, two fields of up to 2 (3) characters each, files of up to 4 (5) characters with a declaration of up to 3, all Java options']),
    'N03': lambda t, s: nm.check('N03', 'go', t, s, ['every identifier of up to 4 (5) characters as a field or oneof, two fields of up to 2 (3) characters with and without get_, three levels of declarations, files of up to 3 (4) characters']),
    'N02': lambda t, s: nm.check('N02', 'cc', t, s, ['every identifier of up to 17 characters as a field, up to 4 (5) as a oneof or member; every kind of declaration with and without package']),
    'Q01': lambda t, s: g.check_sem('Q01', ['p2'], t, s, P2),
    'Q02': lambda t, s: cc.check('Q02', ['p2'], t, s, P2),
    'Q03': lambda t, s: js.check('Q03', ['p2'], t, s, P2),
    'Q04': lambda t, s: py.check('Q04', ['p2'], t, s, P2),
    'G09': lambda t, s: goerr.check_err('G09', 'read', ALLF, t, s, LITE + ['nil list items and map values in memory, nil receivers']),
}


def run(prop, tier, seed):
    return TABLE[prop](tier, seed)
