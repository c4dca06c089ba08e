GOF = ['templates/goshared', 'templates/go', 'templates/shared']
prop('G01', 'Go validators decide numeric and bool rules exactly',
     'For every numeric or bool field with const, lt, lte, gt, gte, in, not_in or ignore_empty rules, singular, wrapped, repeated or in a map, '
     'the generated Go Validate and ValidateAll return nil exactly for the values the documented rules admit. '
     'Ranges whose lower bound exceeds the upper bound mean "outside", unsigned types compare unsigned, and zero passes only when ignore_empty is set or the rule admits it.',
     ['inputs', 'programs'], 'every int32/64, uint32/64, float, double and bool value, over a matrix of rule combinations and bounds for all 12 numeric types and their wrappers',
     'The harness feeds a few values per rule; boundary values, sign and width mistakes, float rounding and the inverted-range forms need all 2^64 values.',
     ['templates/goshared/num.go', 'templates/goshared/ltgt.go', 'templates/goshared/in.go', 'templates/goshared/const.go', 'templates/goshared/wrapper.go', 'templates/goshared/register.go'],
     [('ltgtTpl', 'templates/goshared/ltgt.go'), ('inTpl', 'templates/goshared/in.go'), ('constTpl', 'templates/goshared/const.go'), ('lit/inKey', 'templates/goshared/register.go')],
     ['Validate()', 'ValidateAll()'], GO_TECH, GO_NOTE)
prop('G02', 'Go validators decide string and bytes content rules exactly',
     'For every string or bytes field, the generated Go validators accept exactly the values meeting all of the const, length (in code points and in bytes), prefix, suffix, contains, not_contains, in, not_in, pattern and byte-IP rules. '
     'Literal text in rules keeps its exact bytes, patterns match anywhere unless anchored, and ignore_empty exempts only the empty value.',
     ['inputs', 'programs'], 'every valid UTF-8 text and every byte string of each length up to the bound, over a matrix of rule combinations',
     'Tests use a handful of ASCII samples; multi-byte code points, NUL, quotes, low bytes, off-by-one lengths and combinations of rules are unbounded.',
     ['templates/goshared/string.go', 'templates/goshared/bytes.go', 'templates/goshared/register.go', 'templates/goshared/msg.go', 'templates/goshared/in.go'],
     [('strTpl', 'templates/goshared/string.go'), ('bytesTpl', 'templates/goshared/bytes.go'), ('byteStr, lit', 'templates/goshared/register.go'), ('lookup and Pattern variables', 'templates/goshared/msg.go')],
     ['Validate()', 'ValidateAll()'], GO_TECH, GO_NOTE)
prop('G03', 'Go validators decide the well-known string formats',
     'The generated Go validators accept a string under hostname, address, email, uuid, ip, ipv4, ipv6, uri, uri_ref and well_known_regex rules exactly when it has that documented format: hostnames are RFC 1034 names (labels of 1-63 letters, digits and inner hyphens, at most 253 bytes), UUIDs the 8-4-4-4-12 hexadecimal form, strict headers RFC 7230 tokens or values, e-mail a parsed address with a local part of at most 64 bytes and a hostname. '
     'The same holds when the rule sits on repeated items, map keys or values, oneof members, wrappers or nested messages.',
     ['inputs', 'programs'], 'every text of the bounded lengths, including all label, name and local-part length boundaries and non-ASCII letters',
     'The harness has a few good and bad samples per format; wrong character classes and boundary lengths pass those.',
     ['templates/goshared/known.go', 'templates/goshared/string.go', 'module/checker.go', 'templates/shared/well_known.go'],
     [('_validateHostname, _validateEmail, _validateUuid', 'templates/goshared/known.go'), ('header patterns', 'module/checker.go'), ('Needs, FileNeeds', 'templates/shared/well_known.go')],
     ['Validate()', 'ValidateAll()'], GO_TECH, GO_NOTE + ' IP, URL and address syntax is delegated to net, net/url and net/mail and appears as a shared classification of the text.')
prop('G04', 'Go validators decide duration and timestamp rules exactly',
     'For Duration and Timestamp fields the generated Go validators accept exactly the values meeting required, const, lt, lte, gt, gte, in, not_in, lt_now, gt_now and within, comparing whole instants (seconds and nanoseconds together) and rejecting out-of-range representations whenever a comparison rule is present. '
     'Reversed ranges mean outside; lt_now and gt_now combined with within bound the distance from the current time on that side, and within alone on both sides.',
     ['inputs', 'programs', 'histories'], 'every int64 seconds and int32 nanoseconds value and every clock reading in 2020..2100, over a matrix of rule combinations',
     'Clock-relative rules, nanosecond-only differences, negative durations and extreme seconds cannot be enumerated by fixed test cases.',
     ['templates/goshared/duration.go', 'templates/goshared/timestamp.go', 'templates/go/duration.go', 'templates/go/timestamp.go', 'templates/goshared/register.go'],
     [('durationcmpTpl', 'templates/goshared/duration.go'), ('timestampcmpTpl', 'templates/goshared/timestamp.go'), ('durGt, tsGt, durLit, tsLit', 'templates/goshared/register.go')],
     ['Validate()', 'ValidateAll()'], GO_TECH, GO_NOTE)
prop('G05', 'Go validators decide repeated and map rules exactly',
     'For repeated and map fields the generated Go validators accept exactly the collections meeting min/max counts (including a maximum of zero), unique, no_sparse, ignore_empty, and the rules on every item, key and value, and they validate every embedded message item or value unless it is skipped.',
     ['inputs', 'programs'], 'all collections of up to 3 elements (one past each count bound) with arbitrary element values',
     'Which element violates, duplicates at any two positions, and counts around bounds need every combination, not samples.',
     ['templates/goshared/repeated.go', 'templates/goshared/map.go', 'templates/shared/context.go', 'templates/goshared/register.go'],
     [('repTpl', 'templates/goshared/repeated.go'), ('mapTpl', 'templates/goshared/map.go'), ('RuleContext.Elem/Key', 'templates/shared/context.go')],
     ['Validate()', 'ValidateAll()'], GO_TECH, GO_NOTE)
prop('G06', 'Go validators enforce message structure rules',
     'A generated Go message validator enforces required, skip, required oneofs, enum const/in/not_in/defined_only, Any type URL lists, wrapper presence and recursion into embedded messages exactly as documented. '
     'Disabled messages always validate, ignored messages get no validator yet remain usable as fields, and only the set member of a oneof is checked.',
     ['inputs', 'programs'], 'every presence combination, oneof case, enum number and nested value to depth 2',
     'The space of presence and oneof combinations with nested contents is exponential; tests cover a few.',
     ['templates/goshared/msg.go', 'templates/goshared/enum.go', 'templates/goshared/any.go', 'templates/go/message.go', 'templates/go/required.go', 'templates/goshared/wrapper.go', 'templates/shared/disabled.go', 'templates/shared/context.go'],
     [('msgTpl', 'templates/goshared/msg.go'), ('enumTpl', 'templates/goshared/enum.go'), ('anyTpl', 'templates/goshared/any.go'), ('messageTpl, requiredTpl', 'templates/go')],
     ['Validate()', 'ValidateAll()'], GO_TECH, GO_NOTE)
prop('G07', 'Go Validate and ValidateAll agree',
     'For every message value, Validate returns nil exactly when ValidateAll returns nil. When they reject, the error of ValidateAll lists at least one error and the first listed error is the one Validate returns: same field, reason, key flag, error name and presence of a cause (map iteration order aside).',
     ['inputs', 'programs'], 'every message value of the bounded sizes, for every rule and placement of the matrix',
     'The harness only compares whether the two methods accept a handful of samples; a rule whose two code paths differ in one branch needs the exact value that reaches it.',
     ['templates/go', 'templates/goshared', 'templates/shared'],
     [('the all parameter of the generated validate(all bool)', 'templates/goshared/msg.go'), ('err, errname', 'templates/goshared/register.go'), ('MultiError', 'templates/goshared/msg.go')],
     ['Validate()', 'ValidateAll()', 'AllErrors()'], GO_TECH, GO_NOTE)
prop('G08', 'Go validation errors name exactly the places in error',
     'ValidateAll reports a place of the message (a field, list item Field[i], map value Field[k], map key Field[k] with Key() true, or a required oneof) if and only if its value breaks a rule set on it, with at least one error for each independent rule it breaks; an error caused by an embedded message carries the errors of that message as its cause. '
     'Every error answers Field, Reason, Key, Cause and ErrorName (message name plus ValidationError), and its text contains the field, the reason and the text of the cause.',
     ['inputs', 'programs'], 'every message value of the bounded sizes, for every rule and placement of the matrix',
     'The harness never looks at which errors are reported: attribution to the wrong item or key, errors swallowed after the first, and missing causes all pass.',
     ['templates/go', 'templates/goshared'],
     [('err, errIdx, errIdxCause', 'templates/goshared/register.go'), ('validation error types', 'templates/goshared/msg.go'), ('repTpl, mapTpl', 'templates/goshared/repeated.go')],
     ['ValidateAll()', 'AllErrors()', 'Field()', 'Reason()', 'Key()', 'Cause()', 'ErrorName()', 'Error()'], GO_TECH, GO_NOTE)
prop('G09', 'Go validation never panics and only reads',
     'Validate and ValidateAll never panic, for any message value including nil receivers, nil list items and nil map values, and they accept the nil message. They change neither the message nor any package state, so the same message can be validated from many goroutines at once and validating twice gives the same answer.',
     ['inputs', 'programs', 'schedules'], 'every message value of the bounded sizes including nil items in memory, for every rule and placement of the matrix; freedom from writes covers every interleaving',
     'Tests validate well-formed values once on one goroutine; a nil dereference or a cached write needs a particular shape of value or schedule.',
     ['templates/go', 'templates/goshared'],
     [('generated validate methods', 'templates/goshared/msg.go'), ('unwrap and nil guards', 'templates/goshared/wrapper.go'), ('lookup tables', 'templates/goshared/msg.go')],
     ['Validate()', 'ValidateAll()'], GO_TECH, GO_NOTE + ' A reported write to package state is confirmed with the race detector.')

CK_TECH = 'symbolic execution of the generator\'s CheckRules (go/ssa -> z3) with symbolic rules and field types against a reference rejection condition'
CK_NOTE = ('The real (*Module).CheckRules runs symbolically over a field whose rules (presence, values, list lengths) and type are symbolic; z3 compares each path with an independent rejection condition. '
           'Trusts go/ssa, the encoder (validated by running the real plugin on a .proto for a witness of every path) and contracts of reflect, regexp.Compile and the protobuf time conversions.')
prop('C01', 'The generator rejects contradictory numeric rules, and only those',
     'For numeric rules on a field, wrapper, list item, map key or map value, the generator stops with a diagnostic exactly when const comes with another rule, in comes with not_in or with a range, both lt and lte or both gt and gte are given, or an upper and a lower bound are equal. '
     'Every other combination of rules is accepted, and messages with validation disabled are never rejected.',
     ['inputs', 'programs'], 'every presence combination and every value of every rule of all 12 numeric types',
     'The generator is run on one fixed set of valid protos; what it does with other rule combinations is untested.',
     ['module/checker.go', 'module/validate.go'], [('checkNums, checkIns', 'module/checker.go')], ['exit status and diagnostics of protoc-gen-validate'], CK_TECH, CK_NOTE)
prop('C02', 'The generator rejects contradictory text, enum and collection rules',
     'For string, bytes, enum, any, repeated and map rules the generator stops with a diagnostic exactly on contradictions: len with min_len or max_len (code points or bytes), minima above maxima, max_bytes below max_len, prefix, suffix or contains longer than the maximum, in with not_in, pattern with in or with a well-known regex, patterns that do not compile, '
     'unique on messages, no_sparse on non-messages, and in values of an enum undefined under defined_only. Every other combination is accepted, and messages with validation disabled are never rejected.',
     ['inputs', 'programs'], 'every presence combination and value of every such rule, with texts of up to 2 (4) bytes and lists of up to 2 (3) entries',
     'The generator is run on one fixed set of valid protos; what it does with other rule combinations is untested.',
     ['module/checker.go'], [('CheckString, CheckBytes, CheckEnum, CheckRepeated, CheckMap', 'module/checker.go'), ('checkLen, checkMinMax, checkPattern, checkWellKnownRegex', 'module/checker.go')],
     ['exit status and diagnostics of protoc-gen-validate'], CK_TECH, CK_NOTE)
prop('C03', 'The generator rejects invalid duration and timestamp rules',
     'For duration and timestamp rules the generator stops with a diagnostic exactly when a rule value is not a valid duration or timestamp, const comes with another rule, in with not_in or a range, lt with lte, gt with gte, an upper bound equals a lower bound as an instant, lt_now or gt_now or within comes with an absolute range, lt_now comes with gt_now, or within is not positive. '
     'Every other combination is accepted.',
     ['inputs', 'programs'], 'every int64 seconds and int32 nanoseconds of every rule value and every presence combination',
     'Equality of instants and overflow need values no fixed proto has.',
     ['module/checker.go'], [('CheckDuration, CheckTimestamp, checkDur, checkTS', 'module/checker.go')], ['exit status and diagnostics of protoc-gen-validate'], CK_TECH, CK_NOTE)
prop('C04', 'The generator accepts each rule kind exactly on its field types',
     'Rules of a kind are accepted exactly on fields, list items, map keys and map values of that kind: scalar rules on that scalar or its wrapper message, enum rules on enums, repeated and map rules on lists and maps, any, duration and timestamp rules on those messages. '
     'Message rules are accepted exactly on singular message fields other than Any, Duration and Timestamp, and skip not together with scalar rules.',
     ['programs'], 'all 21 rule kinds at every placement over all scalar types, enums and 17 message types, singular, repeated and map',
     'A rule accepted on the wrong type is silently ignored or generates code that does not compile; tests only use matching types.',
     ['module/checker.go'], [('CheckFieldRules, MustType, CheckMessage, CheckRepeated, CheckMap', 'module/checker.go')], ['exit status and diagnostics of protoc-gen-validate'], CK_TECH, CK_NOTE)

CC_TECH = "symbolic execution of clang's AST of the generated C++ validators -> z3, against a reference evaluator"
CC_NOTE = ('clang dumps the AST of the .pb.validate.cc files the real plugin emits for a rule matrix and of validate/validate.h; every path of every Validate overload '
           'is executed symbolically and z3 compares its verdict with an independent reference over all field values within the stated sizes. A witness of every path and every '
           'counterexample is replayed on the compiled C++ (libprotobuf, RE2). Trusts clang, the encoder and contract stubs of the library calls.')
prop('X01', 'C++ validators decide numeric and bool rules exactly',
     'For every numeric or bool field with const, lt, lte, gt, gte, in, not_in or ignore_empty rules, plain, wrapped or in a oneof, the C++ Validate generated with lang=cc compiles and returns true exactly for the values the documented rules admit, '
     'and sets the error text whenever it returns false. Reversed ranges mean "outside", every bound keeps its exact value and signedness (extreme integers, float rounding), and NaN is in no list.',
     ['inputs', 'programs'], 'every int32/64, uint32/64, float, double and bool value, over a matrix of rule combinations and bounds for all 12 numeric types and their wrappers',
     'The C++ harness feeds a handful of values per rule; boundary values, literal rounding, signedness and set-ordering mistakes need all 2^64 values.',
     ['templates/cc/num.go', 'templates/cc/ltgt.go', 'templates/cc/in.go', 'templates/cc/const.go', 'templates/cc/wrapper.go', 'templates/cc/register.go', 'templates/cc/msg.go'],
     [('ltgtTpl', 'templates/cc/ltgt.go'), ('inTpl', 'templates/cc/in.go'), ('lit, inType, inKey', 'templates/cc/register.go')],
     ['bool Validate(const T&, pgv::ValidationMsg*)'], CC_TECH, CC_NOTE)
prop('X02', 'C++ validators decide string and bytes rules exactly',
     'For every string or bytes field with const, length (code points and bytes), prefix, suffix, contains, not_contains, in, not_in, pattern, hostname, address, ip, ipv4, ipv6, uuid or well_known_regex rules, the generated C++ Validate compiles, never throws and returns true exactly for the values the rules admit, patterns matching the whole value. '
     'Literal text in rules keeps its exact bytes, including quotes, backslashes and NUL, and ignore_empty exempts only the empty value.',
     ['inputs', 'programs'], 'every valid UTF-8 text and every byte string of each length up to the bound (label and name boundaries for hostnames)',
     'The C++ harness feeds a handful of texts per rule; embedded NUL bytes, multi-byte code points, values shorter than a prefix or suffix and boundary lengths are unbounded.',
     ['validate/validate.h', 'templates/cc/string.go', 'templates/cc/bytes.go', 'templates/cc/register.go', 'templates/cc/msg.go'],
     [('IsPrefix, IsSuffix, Contains, IsIp*, IsHostname, Utf8Len', 'validate/validate.h'), ('strTpl', 'templates/cc/string.go'), ('bytesTpl', 'templates/cc/bytes.go'), ('lit, quoting', 'templates/cc/register.go')],
     ['bool Validate(const T&, pgv::ValidationMsg*)'], CC_TECH, CC_NOTE)
prop('X03', 'C++ validators enforce structure, collections and durations',
     'The generated C++ Validate enforces repeated and map counts, unique, ignore_empty, required, skip, required oneofs, enum rules, Any type URLs, wrapper presence, Duration rules (seconds and nanoseconds compared together, malformed durations rejected) and recursion into embedded messages, also those of other files, exactly as documented. '
     'Disabled messages always validate, messages without a validator count as valid, and fields named after C++ keywords compile.',
     ['inputs', 'programs'], 'every presence combination, oneof case, enum number, collections of up to 3 elements, every duration, nested values to depth 2',
     'The C++ harness feeds a few messages per rule; the space of presence, oneof and collection combinations with nested contents is exponential.',
     ['templates/cc/msg.go', 'templates/cc/message.go', 'templates/cc/repeated.go', 'templates/cc/map.go', 'templates/cc/enum.go', 'templates/cc/any.go', 'templates/cc/duration.go', 'templates/cc/wrapper.go', 'validate/validate.h', 'templates/cc/register.go'],
     [('msgTpl', 'templates/cc/msg.go'), ('Validator<T>::CheckMessage, the validator registry', 'validate/validate.h'), ('durationTpl', 'templates/cc/duration.go'), ('repTpl, mapTpl', 'templates/cc')],
     ['bool Validate(const T&, pgv::ValidationMsg*)', 'pgv::Validator<T>::CheckMessage'], CC_TECH, CC_NOTE)
prop('X04', 'C++ validators never silently drop a rule they do not support',
     'Rules the comparison table marks as unsupported in C++ (email, uri, uri_ref, byte IP rules, no_sparse, timestamp comparisons, rules on items, keys and values) are never ignored when the generated code compiles: for every message value, Validate either returns the verdict of all the rules or throws pgv::UnimplementedException.',
     ['inputs', 'programs'], 'every message value within the sizes of the matrix, for every unsupported rule and placement of the matrix',
     'An ignored rule shows only on a value that breaks this rule and no other, in a combination of rules the C++ harness does not sample.',
     ['templates/cc/string.go', 'templates/cc/bytes.go', 'templates/cc/timestamp.go', 'templates/cc/map.go', 'templates/cc/repeated.go', 'templates/cc/register.go', 'validate/validate.h'],
     [('unimplemented', 'templates/cc/register.go'), ('timestampTpl', 'templates/cc/timestamp.go'), ('repTpl, mapTpl element rules', 'templates/cc')],
     ['bool Validate(const T&, pgv::ValidationMsg*)', 'pgv::UnimplementedException'], CC_TECH, CC_NOTE)
JV_TECH = 'symbolic execution of the compiled Java validators and runtime (JVM bytecode -> z3) against a reference evaluator'
JV_NOTE = ('The validators the real plugin emits for a rule matrix with lang=java are compiled together with the pgv-java-stub runtime of the tree and stand-ins for the message classes; their bytecode '
           'is executed symbolically through ReflectiveValidatorIndex and z3 compares each path with an independent reference over all field values within the stated sizes. A witness of every path and every counterexample '
           'is replayed on the JVM. Trusts javac, the encoder, contract stubs of java.*, and the stand-ins for protobuf-java, RE2/J and commons-validator (not installed here).')
JF = ['templates/java', 'java/pgv-java-stub']
prop('J01', 'Java validators decide numeric and bool rules exactly',
     'For every numeric or bool field with const, lt, lte, gt, gte, in, not_in or ignore_empty rules, plain, wrapped, repeated, in a map or in a oneof, the Java validator generated with lang=java compiles and assertValid throws ValidationException exactly for the values the documented rules forbid. '
     'Reversed ranges mean "outside", unsigned types compare unsigned, and every bound keeps its exact value (extreme integers, infinities).',
     ['inputs', 'programs'], 'every int32/64, uint32/64, float, double and bool value, over a matrix of rule combinations and bounds for all 12 numeric types and their wrappers',
     'The Java harness is not even part of the stable tests and samples a few values per rule; signedness, width and boundary mistakes need all 2^64 values.',
     ['templates/java/num.go', 'templates/java/bool.go', 'templates/java/wrapper.go', 'templates/java/register.go', 'java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ComparativeValidation.java'],
     [('numTpl, numConstTpl', 'templates/java/num.go'), ('ComparativeValidation', 'java/pgv-java-stub'), ('CollectiveValidation, ConstantValidation', 'java/pgv-java-stub')],
     ['Validator.assertValid'], JV_TECH, JV_NOTE)
prop('J02', 'Java validators decide string and bytes rules exactly',
     'For every string or bytes field with const, length (code points, UTF-8 bytes), prefix, suffix, contains, not_contains, in, not_in, pattern or well-known format rules, the generated Java validator compiles and assertValid throws ValidationException exactly for the values the rules forbid; patterns match the whole value. '
     'Literal text in rules keeps its exact content (quotes, backslashes, control and non-ASCII characters), and ignore_empty exempts only the empty value.',
     ['inputs', 'programs'], 'every valid UTF-8 text and every byte string of each length up to the bound, over a matrix of rule combinations',
     'Surrogate pairs, escapes, boundary lengths, and combinations of rules are unbounded; tests hold a few ASCII samples.',
     ['templates/java/string.go', 'templates/java/bytes.go', 'templates/java/register.go', 'java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/StringValidation.java', 'java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/BytesValidation.java'],
     [('stringTpl, bytesTpl', 'templates/java'), ('StringValidation, BytesValidation', 'java/pgv-java-stub'), ('constants and literals', 'templates/java/register.go')],
     ['Validator.assertValid'], JV_TECH, JV_NOTE)
prop('J03', 'Java validators enforce structure, collections and times',
     'The generated Java validators enforce repeated and map counts, unique, ignore_empty, rules on items, keys and values, required, skip, required oneofs, enum rules, Any type URLs, wrapper presence, Duration and Timestamp rules (whole instants, lt_now, gt_now, within) and recursion into embedded messages exactly as documented. '
     'Disabled messages always validate, ignored messages count as valid, and messages are validated alike whether java_multiple_files is set or not.',
     ['inputs', 'programs', 'histories'], 'every presence combination, oneof case, enum number, collections of up to 3 elements, every duration, timestamp and clock reading in 2020..2100, nested values to depth 2',
     'Presence, element and clock combinations are exponential, and instants that differ only in nanoseconds or lie centuries apart are outside any sample.',
     ['templates/java/repeated.go', 'templates/java/map.go', 'templates/java/message.go', 'templates/java/enum.go', 'templates/java/any.go', 'templates/java/duration.go', 'templates/java/timestamp.go', 'templates/java/oneof.go', 'templates/java/msg.go', 'java/pgv-java-stub'],
     [('repeatedTpl, mapTpl', 'templates/java'), ('RepeatedValidation, MapValidation, TimestampValidation', 'java/pgv-java-stub'), ('ReflectiveValidatorIndex', 'java/pgv-java-stub')],
     ['Validator.assertValid'], JV_TECH, JV_NOTE)
prop('J04', 'Java validation errors name a field in error',
     'Whenever a generated Java validator throws ValidationException for a message, getField() names a field or required oneof of that message (or of the nested message in error, by its full proto name) whose value really breaks a rule set on it, and getReason() is not empty.',
     ['inputs', 'programs'], 'every message value of the bounded sizes, for every rule and placement of the matrix',
     'The harness checks only whether a sample is rejected; an error that names another field, or prints generator internals, needs the value that reaches that one throw statement.',
     ['templates/java', 'java/pgv-java-stub/src/main/java/io/envoyproxy/pgv'],
     [('fieldName arguments of the emitted calls', 'templates/java'), ('ValidationException', 'java/pgv-java-stub'), ('wrapperTpl, requiredTpl', 'templates/java')],
     ['ValidationException.getField()', 'ValidationException.getReason()'], JV_TECH, JV_NOTE)
JH_TECH = 'symbolic execution of the compiled Java runtime (JVM bytecode -> z3) over symbolic histories of operations'
JH_NOTE = ('Small Java harnesses choose every operation and every field value symbolically; the bytecode of the index classes or interceptors of the tree, the generated validators and the harness is executed symbolically for all histories up to the stated length '
           'and z3 decides every assertion. A witness of every path and every counterexample is replayed on the JVM. Trusts javac, the encoder, contract stubs of java.*, and stand-ins for protobuf-java and grpc-java (not installed here).')
prop('J05', 'Java validator indexes apply the right validator in every history',
     'After any sequence of registrations and look-ups, ExplicitValidatorIndex and ReflectiveValidatorIndex behave alike for a message class: assertValid applies the validator registered last (or the generated one), passing the index so that embedded messages are validated through the same index, also for validators obtained before the registration. '
     'Classes without a validator use the fallback index, ignored and disabled messages are never rejected, and isValid agrees with assertValid.',
     ['histories', 'inputs', 'programs'], 'all histories of up to 4 operations (add, look up, assertValid, isValid) on explicit indexes and up to 2 on reflective ones, all field values',
     'Unit tests use one fixed order; stale caches and lost fallbacks need a registration or a look-up at the wrong moment.',
     ['java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java', 'java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java', 'java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ValidatorIndex.java', 'java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/Validator.java', 'templates/java/file.go', 'templates/java/msg.go'],
     [('validatorFor, add, reflectiveValidatorFor', 'java/pgv-java-stub'), ('fileTpl validatorFor', 'templates/java/file.go')],
     ['ValidatorIndex.validatorFor', 'Validator.assertValid', 'Validator.isValid'], JH_TECH, JH_NOTE)
prop('J06', 'Java gRPC interceptors deliver only valid messages',
     'For every sequence of events of a call, ValidatingServerInterceptor delivers to the service exactly the valid messages that precede the first invalid one, closes the call once with INVALID_ARGUMENT and details naming the field, and withholds half-close afterwards while other events pass unchanged. '
     'ValidatingClientInterceptor never sends an invalid message: sending one throws StatusRuntimeException naming the field, and valid messages are sent unchanged.',
     ['histories', 'inputs'], 'all histories of up to 4 events of a call (start, message, half-close, ready, cancel, complete), all field values of the messages',
     'The stable tests hold no Java; a message that slips through after a rejection needs a particular order of stream events.',
     ['java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc'],
     [('ValidatingServerInterceptor.onMessage, onHalfClose', 'java/pgv-java-grpc'), ('ValidatingClientInterceptor.sendMessage', 'java/pgv-java-grpc'), ('ValidationExceptions.asStatusRuntimeException', 'java/pgv-java-grpc')],
     ['ServerCall.Listener events reaching the service', 'ServerCall.close', 'ClientCall.sendMessage'], JH_TECH, JH_NOTE)
PY_TECH = "symbolic execution of validator.py and of the functions it generates (Python AST -> z3) against a reference evaluator"
PY_NOTE = ('validator.py of the tree runs natively on stand-ins of jinja2 and protobuf (not installed here) to obtain the function text it generates for each message of a rule matrix; validate(), its helpers and those functions are then interpreted symbolically from their AST '
           'and z3 compares every path with an independent reference over all field values within the stated sizes. A witness of every path and every counterexample is replayed on the real validator.py. Trusts the interpreter, contract models of the standard library, and the stand-ins.')
PYF = ['python/protoc_gen_validate/validator.py']
prop('P01', 'Python validation decides numeric and bool rules exactly',
     'For every numeric or bool field with const, lt, lte, gt, gte, in, not_in or ignore_empty rules, plain, wrapped, repeated, in a map or in a oneof, protoc_gen_validate.validator.validate raises ValidationFailed exactly for the values the documented rules forbid, and never any other exception. '
     'Bounds that are zero count, reversed ranges mean "outside", and ignore_empty exempts zero only when it is true.',
     ['inputs', 'programs'], 'every int32/64, uint32/64, float, double and bool value, over a matrix of rule combinations and bounds for all 12 numeric types and their wrappers',
     'The Python harness is not among the stable tests and samples a few values per rule; boundary and zero-valued bounds need all values.',
     PYF, [('num_template, in_template, const_template, bool_template', 'python/protoc_gen_validate/validator.py'), ('wrapper_template, switcher_template', 'python/protoc_gen_validate/validator.py'), ('validate, _validate_inner', 'python/protoc_gen_validate/validator.py')],
     ['protoc_gen_validate.validator.validate'], PY_TECH, PY_NOTE)
prop('P02', 'Python validation decides string and bytes rules exactly',
     'For every string or bytes field with const, length (code points and bytes), prefix, suffix, contains, not_contains, in, not_in, pattern, hostname, address, ip, ipv4, ipv6, uuid or well_known_regex rules, validate raises ValidationFailed exactly for the values the rules forbid, and never any other exception. '
     'Literal text in rules keeps its exact content (quotes, backslashes, newlines), and ignore_empty exempts only the empty value.',
     ['inputs', 'programs'], 'every valid UTF-8 text and every byte string of each length up to the bound (label and name boundaries for hostnames); email and URI rules are outside',
     'Multi-byte code points, trailing newlines, escapes and boundary lengths are unbounded; tests hold a few ASCII samples.',
     PYF, [('string_template, bytes_template', 'python/protoc_gen_validate/validator.py'), ('_validateHostName, uuid_regex, header patterns', 'python/protoc_gen_validate/validator.py')],
     ['protoc_gen_validate.validator.validate'], PY_TECH, PY_NOTE + ' E-mail and URI syntax is delegated to libraries and left open.')
prop('P03', 'Python validation enforces structure, collections and times',
     'validate enforces repeated and map counts, unique, ignore_empty, rules on items, keys and values, required, skip, required oneofs, enum rules, Any type URLs, wrapper presence, Duration and Timestamp rules (whole instants, lt_now, gt_now, within) and recursion into embedded messages exactly as documented, raising only ValidationFailed. '
     'Disabled and ignored messages always validate, and messages of one type validated before never change the verdict for another.',
     ['inputs', 'programs', 'histories'], 'every presence combination, oneof case, enum number, collections of up to 3 elements, every duration, timestamp and clock reading in 2020..2100, nested values to depth 2',
     'Presence, element and clock combinations are exponential; instants that differ only in nanoseconds are outside any sample.',
     PYF, [('repeated_template, map_template, switcher_template', 'python/protoc_gen_validate/validator.py'), ('duration_template, timestamp_template', 'python/protoc_gen_validate/validator.py'), ('message_template, required_template, file_template, ValidatingMessage', 'python/protoc_gen_validate/validator.py')],
     ['protoc_gen_validate.validator.validate'], PY_TECH, PY_NOTE)
prop('P04', 'Python validation does not depend on what was validated before',
     'The verdict of protoc_gen_validate.validator.validate on a message depends on that message alone: validating messages of the same or of other types first, accepted or rejected, however alike their names (same short name in another package or scope, names differing in case or by a prefix), never changes it.',
     ['histories', 'inputs'], 'all pairs (thorough: and triples) of 10 message types with like names, all field values of the bounded sizes',
     'The functions are cached per message type for the life of the process; a wrong cache key shows only when two particular types meet in one process, in a particular order.',
     PYF, [('_validate_inner, lru_cache', 'python/protoc_gen_validate/validator.py'), ('ValidatingMessage.__hash__, __eq__', 'python/protoc_gen_validate/validator.py')],
     ['protoc_gen_validate.validator.validate'], PY_TECH, PY_NOTE)
N_TECH = "symbolic execution of the generator's template functions (go/ssa -> z3) on descriptors with symbolic identifiers, against protoc's naming"
N_NOTE = ("The real Register functions are executed symbolically to obtain the functions the templates call; these run on descriptors whose identifiers are symbolic, and z3 compares each result with an independent rendering of the naming of protoc's generators, over all identifiers of the stated lengths and alphabets. "
          'Witnesses and counterexamples are replayed: the real plugin and the real protoc generator both run on the file, and every name used must be defined (for Go, the package must compile). Trusts go/ssa, the encoder, and mocks of the protoc-gen-star entities.')
prop('N01', 'Java validators use the names that protoc gives to Java classes and members',
     'For every proto file, the generated Java validators refer to packages, outer classes, nested classes, getters, has-methods, oneof cases and enums by exactly the names that protoc --java_out defines, whatever the spelling of the identifiers (digits, underscores, upper case, reserved words, clashing fields, dotted file names, java options, no package), '
     'and the constants of one validator are distinct.',
     ['inputs', 'programs'], 'every identifier up to 4 characters, spellings around every reserved name, pairs of fields, files beside a declaration of the same name, all combinations of the Java file options',
     'The test protos use plain snake_case names; a wrong name for an unusual identifier is generated code that does not compile, or that reads another field.',
     ['templates/java/register.go', 'templates/java/file.go', 'templates/shared/functions.go'],
     [('accessor, hasAccessor, fieldAccessor', 'templates/java/register.go'), ('classNameFile, appendOuterClassName, qualifiedName, javaPackage', 'templates/java/register.go'), ('oneofTypeName, camelCase, constantName', 'templates/java/register.go')],
     ['names in the generated .java files against those of protoc --java_out'], N_TECH, N_NOTE)
prop('N02', 'C++ validators use the names that protoc gives to C++ classes and members',
     'For every proto file, the generated C++ validators refer to namespaces, classes, accessors, has-methods, oneof case constants and enums by exactly the names that protoc --cpp_out defines, whatever the spelling of the identifiers (keywords, upper case, underscores, digits, nesting, no package), '
     'and the lookup tables and patterns of the fields of a file have distinct names.',
     ['inputs', 'programs'], 'every identifier up to 17 characters as a field, up to 4 as a oneof or member, every kind of declaration up to three levels deep, pairs of fields in one or two messages',
     'The test protos use plain names; a wrong or repeated name for an unusual one is generated code that does not compile, or that applies the table of another field.',
     ['templates/cc/register.go', 'templates/cc/file.go', 'templates/shared/functions.go'],
     [('accessor, hasAccessor, methodName', 'templates/cc/register.go'), ('classBaseName, className, packageName', 'templates/cc/register.go'), ('oneofTypeName, lookup', 'templates/cc/register.go')],
     ['names in the generated .pb.validate.h/.cc files against those of protoc --cpp_out'], N_TECH, N_NOTE)
prop('N03', 'Go validators use the names that protoc-gen-go gives to types and fields',
     'For every proto file, the generated Go validators refer to messages, enums, getters, oneof fields and oneof wrapper types by exactly the names that protoc-gen-go defines, also where it renames a field or oneof that would clash with a method or another field, or a wrapper that would clash with a nested declaration; '
     'the lookup tables and patterns of a package have distinct names, and every file name gives a valid name to what is declared once per file.',
     ['inputs', 'programs'], 'every identifier up to 4 characters as field, oneof or member; pairs of fields with and without a get_ prefix; oneofs beside fields and nested declarations of like names; three levels of nesting; file names up to 3 characters',
     'The test protos use plain names; a clash needs two particular names in one message, and gives code that does not compile or that validates another field.',
     ['templates/goshared/register.go', 'templates/goshared/msg.go', 'templates/goshared/known.go', 'templates/go/file.go'],
     [('accessor, Name, msgTyp, errName', 'templates/goshared/register.go'), ('oneofTypeName', 'templates/goshared/register.go'), ('lookup, fileVar', 'templates/goshared/register.go')],
     ['names in the generated .pb.validate.go files against those of protoc-gen-go'], N_TECH, N_NOTE + ' Names that clash with the API the plugin itself adds (a field validate, a message MValidationError) are left out.')
QS = ('For every proto2 file, a generated %s validator judges a field by the value that its getter returns: an unset optional field counts with its declared default (or the zero value), a set one with the value set, and the documented rules, wrappers, collections, oneofs and presence rules decide as they do in proto3. '
      'Presence alone never changes the verdict, except for required rules and embedded messages; closed enums and required fields do not break generation.')
QW = 'Nearly all test protos are proto3; defaults, presence and pointers to scalars change the generated code in places that only a proto2 field reaches.'
for _i, _l, _f, _m, _o, _t, _n in (
        ('Q01', 'Go', ['templates/go', 'templates/goshared'], [('accessor, inType', 'templates/goshared/register.go'), ('rule templates', 'templates/goshared')], ['Validate()', 'ValidateAll()'], GO_TECH, GO_NOTE),
        ('Q02', 'C++', ['templates/cc'], [('accessor, hasAccessor, cType, inType', 'templates/cc/register.go'), ('rule templates', 'templates/cc')], ['Validate(const M&, ValidationMsg*)'], [p for p in P if p['id'] == 'X01'][0]['tech'], [p for p in P if p['id'] == 'X01'][0]['note']),
        ('Q03', 'Java', ['templates/java', 'java/pgv-java-stub'], [('accessor, hasAccessor, javaTypeFor', 'templates/java/register.go'), ('rule templates', 'templates/java')], ['Validator.assertValid'], JV_TECH, JV_NOTE),
        ('Q04', 'Python', PYF, [('_has_field, file_template, switcher_template', 'python/protoc_gen_validate/validator.py'), ('rule templates', 'python/protoc_gen_validate/validator.py')], ['protoc_gen_validate.validator.validate'], PY_TECH, PY_NOTE)):
    prop(_i, '%s validation honours proto2 presence and defaults' % _l, QS % _l, ['inputs', 'programs'],
         'every presence combination and value (of the bounded sizes) of the fields of a matrix of proto2 messages: all scalar types with and without defaults, enums, messages, required fields, oneofs, repeated and map fields', QW, _f, _m, _o, _t, _n)
