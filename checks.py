# Which harnesses decide which property; quick/thorough: seconds of exploration (most end earlier, complete).
OUT = 'values, sizes and documents beyond the bounds; XML parsing itself (libxml2)'
def H(src, must, libs=('parse',), quick=240, thorough=1800, **kw):
    return dict(src=src, libs=list(libs), quick=quick, thorough=thorough, must=must.split(), **kw)
CHECKS = {
 'P01': dict(harnesses=[H('p01.cpp', 'accepted rejected offset-accepted offset-rejected presentation-accepted presentation-rejected ref-accepted ref-rejected specials-accepted specials-rejected')],
   bounds='one int field of each of the 10 types; length 0..2^32, bitLength 0..255, default value, serialisation offset and two special values full 64 bit range (hexadecimal text with optional minus); default taken from another field; scaling numerator/denominator, display settings symbolic',
   outside=OUT),
 'P02': dict(harnesses=[H('p02.cpp', 'accepted rejected')],
   bounds='one int field of each type; up to 2 (thorough 3) validRange/validValue/validMin/validMax declarations with symbolic 64 bit limits and versions, probed at one symbolic value and protocol version',
   outside=OUT),
 'P03': dict(harnesses=[H('p03.cpp', 'accepted rejected name-accepted versioned flags')],
   bounds='one enum of each type, up to 3 values with symbolic 64 bit numbers, names of one symbolic letter, symbolic versions, default by value or by name', outside=OUT),
 'P04': dict(harnesses=[H('p04.cpp', 'accepted rejected referenced shared shared-refused values member-accepted member-rejected')],
   bounds='one set field, also as member of a bitfield; length, bitLength and bit indices symbolic over 64 bits, up to 2 bits, names of two symbolic characters', outside=OUT),
 'P05': dict(harnesses=[H('p05.cpp', 'accepted rejected ranges-accepted ranges-rejected specials-accepted specials-rejected')],
   bounds='one float or double field; default value, special values and up to 2 valid range declarations over all finite normal doubles, NaN and infinities; symbolic versions', outside=OUT + '; subnormal numbers'),
 'P06': dict(harnesses=[H('p06.cpp', 'accepted rejected value-accepted value-rejected replaced')],
   bounds='bitfields of 1..3 members (int, enum, set, reference), bit lengths 0..80 each, values of 64 bits, one replaced member of a reused bitfield', outside=OUT),
 'P07': dict(harnesses=[H('p07.cpp', 'rejected counted any-count nested prefixed offset-refused offset-prefix sum-accepted sum-rejected')],
   bounds='bundles, lists, strings, data, variants and optionals nested up to 2 levels; element lengths, list counts and prefix lengths/values symbolic up to 32 bits; messages of up to 2 fields with symbolic expected minimal length', outside=OUT + '; negative count prefix values combined with big serialisation offsets'),
 'P08': dict(harnesses=[H('p08.cpp', 'form-accepted form-rejected replaced-accepted replaced-rejected string-accepted string-rejected data-accepted data-rejected valid-accepted valid-rejected ref-accepted ref-rejected')],
   bounds='one string or data field in every combination of fixed length, length prefix (own, detached) and zero termination; texts of up to 3 symbolic characters, data of up to 4 symbolic characters', outside=OUT),
 'P09': dict(harnesses=[H('p09.cpp', 'form-accepted form-rejected elem-accepted elem-rejected element-accepted element-rejected')],
   bounds='one list; up to two declarations of its end (count, count prefix, length prefix, termination suffix; each as child, reference, sibling reference and malformed), spread over a reused list and the list; count and element length symbolic over 33 bits', outside=OUT + '; detached termination suffixes'),
 'P10': dict(harnesses=[H('p10.cpp', 'accepted rejected copied dropped first-accepted first-rejected text')],
   bounds='schema version, sinceVersion and deprecated of a message, its field and the member of that field symbolic over 33 bits; up to 2 copied or reused members with symbolic versions 0..20, message and bundle versions symbolic', outside=OUT),
 'P11': dict(harnesses=[H('p11.cpp', 'accepted rejected ref-accepted ref-rejected name-accepted name-rejected')],
   bounds='two (three in one tree; thorough: three anywhere) messages in the global namespace, nested namespaces and another namespace, in one or two files; ids 64 bit, orders 33 bit symbolic; ids as enum values of 64 bit; names of two symbolic characters', outside=OUT),
 'P12': dict(harnesses=[H('p12.cpp','order-accepted order-rejected refs-accepted refs-rejected names-accepted names-rejected alg-accepted alg-rejected value-accepted value-rejected sync-accepted sync-rejected custom-accepted custom-rejected field-accepted field-rejected')],
   bounds='frames of up to 3 (thorough: 4) layers of every kind in every order; checksum, sync, value and custom layers with every combination of references, names being symbolic letters', outside=OUT),
 'P20': dict(harnesses=[H('p20.cpp','number-accepted number-rejected large-accepted large-rejected form-accepted twice any-once any-twice flag-accepted flag-rejected units-accepted units-rejected types endian range-accepted range-rejected')],
   bounds='texts of up to 3 (thorough: 4) arbitrary printable characters for nine numeric properties; 84 properties of all kinds of elements, each given once in its three forms and twice in every mix of them, ranges of up to 5 (6) characters between brackets, flags of up to 6, types and byte orders of up to 7; decimal texts around the limits of 8, 32 and 64 bits; every known unit name with its last (every) character replaced by any', outside=OUT + '; digits following the prefix 0b; text of floating point numbers'),
 'P13': dict(harnesses=[H('p13.cpp','names-accepted names-rejected ref-accepted ref-rejected order value-accepted value-rejected')],
   bounds='two names of up to 2 arbitrary printable characters each for ten kinds of elements, also nested; references of up to 5 (thorough: 6) arbitrary characters from fields, messages and interfaces in up to 3 namespaces, also to another schema; value references of up to 5 (6) characters', outside=OUT + '; value references to other schemas'),
 'P14': dict(harnesses=[H('p14.cpp','base with without')],
   bounds='60 features of the schema language, one at a time, under every 33 bit value of dslVersion; a schema of the first version under every dslVersion', outside=OUT + '; combinations of several gated features'),
 'P15': dict(harnesses=[H('p15.cpp','check-accepted check-rejected comparison-accepted comparison-rejected list-accepted list-rejected text-accepted text-rejected')],
   bounds='bit, existence and size checks and comparisons over 40 member references and 11 interface field references (kinds, nested, malformed), with the six operators and 64 bit symbolic numbers, in up to seven places; and/or lists of up to 3 conditions nested twice; texts of up to 5 (thorough: 6) arbitrary characters', outside=OUT),
 'P16': dict(harnesses=[H('p16.cpp','props reuse-refused containers messages')],
   bounds='a reused field of each of the 12 kinds with one or two of its properties given in the reused field, the new one or both, numbers symbolic over 8 bits (one or two of up to 36 properties per kind, neighbours only for the properties common to all kinds); 24 members of all kinds with all their properties copied in 12 ways (fields, messages, interfaces), with members added or replaced and aliases left; messages with one or two of 22 properties', outside=OUT + '; turning off a permission given in the reused field (nonUnique...); versions given to the reused message; two declarations of the end of a string, data or list at different places (P08, P09)'),
 'P17': dict(harnesses=[H('p17.cpp','int-refused int-default int-special int-range int-two-ranges int-offset', libs=('parse','gen','app:comms'))],
   bounds='one int field of each of the 10 types with one of: default, special, one or two valid ranges (two: at 5 relative placements), serialisation offset (16 bit); values symbolic over the whole type; valid ranges probed at one symbolic value', outside=OUT+'; meaning of the options inside the COMMS library (not installed here)'),
 'P18': dict(harnesses=[H('p18.cpp','names-direct names-search valid-list enum-two enum-many enum-hex enum-alias', libs=('parse','gen','app:comms'))],
   bounds='one enum field of each family of types (thorough: each type) with two symbolic values of the whole type, or one symbolic value among up to 8 fixed ones (also repeated numbers, hexadecimal output); valid values probed at one symbolic value', outside=OUT+'; meaning of the options inside the COMMS library (not installed here)'),
 'P19': dict(harnesses=[H('p19.cpp','set size id', libs=('parse','gen','app:comms'))],
   bounds='one set of 8, 32 or 64 bits (thorough: 16, 24, 56 too) with one bit of symbolic index and one fixed, all defaults and reservations; fixed sizes of strings, data and lists symbolic over 32 bits, with the limits of the length of a message of two fields; two messages with symbolic 64 bit ids in one or two namespaces, with the enum of ids', outside=OUT+'; meaning of the options inside the COMMS library (not installed here)'),
 'P21': dict(harnesses=[H('p21.cpp','string data name', libs=('parse','gen','app:comms'))],
   bounds='strings of up to 3 symbolic printable characters as default and valid values, data of up to 3 symbolic bytes, display names of up to 3 symbolic printable characters (without the backslash, < and &)', outside=OUT+'; characters of other languages'),
 'P22': dict(harnesses=[H('p22.cpp','int float enum set specials texts', libs=('parse','gen','app:comms'))],
   bounds='one int, float, enum or set field with two versioned ranges, values or bits and a third without versions, specials of numbers, valid values of strings and data; field global, member with versions or member of a message with versions; all versions 0..9 of the schema, field, values, forced version, minimal and actual version of the other side symbolic, value probed over 8 bits', outside=OUT+'; meaning of the options inside the COMMS library (not installed here)'),
 'P23': dict(harnesses=[H('p23.cpp','direct bundle global list optional variant length', libs=('parse','gen','app:comms'))],
   bounds='one versioned member (int, reference, string, bundle, list or optional) directly in a message or in a bundle, global bundle, list of bundles, optional or variant, also inside another bundle; versions 0..9 of the message, container and member, forced version, minimal and actual version of the other side symbolic', outside=OUT+'; meaning of the options inside the COMMS library (not installed here); the other generators'),
 'P24': dict(harnesses=[H('p24.cpp','option-in-message option-in-bundle valid-message valid-bundle valid-bitfield read construct', libs=('parse','gen','app:comms'))],
   bounds='cond of an optional in a message or bundle, validCond of a message, bundle or bitfield, readCond and construct of a message: one condition, two joined by and / or, or three nested; 31 operands (members, nested ones, interface fields, bits, sizes, existence, texts) with all comparisons (quick: a selection), against numbers of any value of the type, names or other fields; values and existence of all operands symbolic; with and without code dependent on the version', outside=OUT+'; comparisons with numbers outside the type of the field, of fields of different types, of floats; more than three conditions'),
 'P25': dict(harnesses=[H('p25.cpp','keys last-member contents one-by-one', libs=('parse','gen','app:comms'))],
   bounds='global or local variant of 2 or 3 members: keys of each of the 10 types (with or without serialisation offset for 16 bits), key values symbolic over the type (two at once for 8 bits; thorough: for all), value read symbolic; 9 kinds of a last member without such a key; contents of the first or last member with conditions, versions, references and reuse', outside=OUT+'; reading one member after another, done by the COMMS library (not installed here); what a member with a matching key and bad contents leads to'),
 'P26': dict(harnesses=[H('p26.cpp','places senders platforms bundle versions group empty-group', libs=('parse','gen','app:comms'))],
   bounds='two or three messages, each in the global namespace or one of two nested ones, with frames in all or one of them: every placement and order, ids symbolic (one of 64 bits or three of the same digit count; thorough: two of 64 bits); every combination of senders, platforms and senders of two messages (thorough: three senders), one command line bundle, versions of messages with a forced schema version', outside=OUT+'; more than three messages; messages of the same name in nested namespaces'),
 'P27': dict(harnesses=[H('p27.cpp','comms c emscripten latex swig test tools_qt refused build-file names-declared labels-defined declared-functions-defined includes-resolve', libs=('parse','gen','app:comms','app:c','app:emscripten','app:latex','app:swig','app:test','app:tools_qt'))],
   bounds='each of the seven generators after commsdsl2comms on the same schema: every placement of one interface, message and frame set over the global namespace, two namespaces and a nested one; 32 forms of fields in 10 places; 8 kinds and orders of layers with fields in place, referred to or reused; versions of messages, fields and enum values (symbolic) with forced schema versions; two schemas, another main namespace, selected platforms, two interfaces and frames; one number of each document symbolic', outside=OUT+'; what compilers and swig say about the code between the names; files of the user (custom layers, --code-input-dir)'),
 'P28': dict(harnesses=[H('p28.cpp','done refused bare-metal bare-metal-allocation data-view default-is-empty defined-once direction extends-what-it-replaces factory-defined fields interface-fields-not-templates layer-option level message-level option-defined options-structure overrides-existing-option own-option', libs=('parse','gen','app:comms'), quick=420)],
   bounds='32 forms of fields in 10 places, customizable or not, message senders, members of versions, at the four customization levels, with and without the main namespace in the options; 9 kinds of frame layers with fields of 4 kinds in 3 places; schemas in two namespaces or two schemas with bundles of messages (also unknown ones) and platforms; one number of each document symbolic', outside=OUT+'; code injected by the user; what compilers say about the code between the names'),
 'P30': dict(harnesses=[H('p30.cpp','all-operations-covered success failure-to-copy-reported failure-to-create-a-directory-reported failure-to-open-reported failure-to-write-reported comms c emscripten latex swig test tools_qt', libs=('parse','gen','app:comms','app:c','app:emscripten','app:latex','app:swig','app:test','app:tools_qt'), quick=420)],
   bounds='each of the seven generators on schemas with fields of every kind, messages of both directions, nested namespaces, a second schema, extra sources and injected code, another main namespace and a bundle of messages: the number of the operation that fails is symbolic (0..250, more than there are), and whether it is the opening of the file or the writing into it; creation of directories and copies fail too', outside=OUT+'; two failures in one run; failures to read (properties of the input); failures of close() after a successful flush'),
 'P29': dict(harnesses=[H('p29.cpp','c emscripten swig enum int float set bundle variant bitfield enum-number bit-index message-id-number value-type special-bound bit-bound member-bound member-handled functions-defined calls-its-own', libs=('parse','gen','app:comms','app:c','app:emscripten','app:swig'), quick=420)],
   bounds='one field of 7 kinds (enum, int and float with special values, set, bundle, variant, bitfield) in 8 places (global, message, member of a bundle / bitfield / variant, element, optional, interface), 14 integer types and lengths; versions of the field and of its element, deprecation and removal, forced schema version, minimal remote version, the value / bit index and the message id symbolic (ranges of one digit count)', outside=OUT+'; what SWIG, emscripten and C compilers make of the code; strings, lists, data and frames of the bindings (their references are in P27)'),
}
