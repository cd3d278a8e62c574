p('P01', 'Integer fields report exactly what is declared or refuse it',
  'For every integer field of every type, the reported length, default value, special values, serialisation offset and bounds are exactly the declared ones. A declaration that cannot be represented (length over the type\'s, bit length over the length, default or special value outside the type, offset outside the signed 64 bit range) is refused with an error, never wrapped or truncated.',
  'every type, every 64 bit default/special/offset, every length and bit length, in every combination within the bounds',
  'The tests sample a few dozen constants; signed/unsigned 64 bit boundary handling has 2^64 inputs per property and differs per type.',
  ['ParseIntFieldImpl.cpp', 'parse_common.cpp'], [('length, default and special value validation', 'ParseIntFieldImpl.cpp'), ('text to number', 'parse_common.cpp')])
p('P02', 'Integer valid ranges denote exactly the declared set of values',
  'For every value and every protocol version, the value lies in one of the reported valid ranges active in that version exactly when a declared range, single value, minimum or maximum of that version contains it; ranges outside the type or reversed are refused and merging ranges never loses or adds a value.',
  'every pair (thorough: triple) of declarations, every probe value and version',
  'Set equality over 2^64 values and all versions; the tests look at the printed form of a few merged lists.',
  ['ParseIntFieldImpl.cpp'], [('range list update, merge and version split', 'ParseIntFieldImpl.cpp')])
p('P03', 'Enum fields keep every declared value, name and version',
  'An enum reports exactly the declared values under their names with their versions; two equal names or (unless allowed) two equal numbers are refused, as is every number outside the underlying type. The default value is the number given or the number of the value named.',
  'all types, up to three values of 64 bits, all one-letter names, all versions', 'Uniqueness and range over arbitrary 64 bit numbers and names; tests use fixed examples.',
  ['ParseEnumFieldImpl.cpp'], [('value map and reverse map', 'ParseEnumFieldImpl.cpp')])
p('P04', 'Set fields keep every bit, its index, default and reservation',
  'A set reports exactly the declared bits under their names at their indices with their default and reserved values; an index outside the set\'s size, a repeated name or (unless allowed) a repeated index is refused. The size in bytes and bits follows from length, bit length or type, and inconsistent sizes are refused.',
  'every length, bit length and pair of indices within the bounds', 'Index/size arithmetic over all sizes; tests use fixed sizes.',
  ['ParseSetFieldImpl.cpp'], [('bits map, reverse map, length calculation', 'ParseSetFieldImpl.cpp')])
p('P05', 'Float fields report the declared numbers and ranges',
  'For every float field the default value, special values and valid ranges are the declared real numbers, NaN or infinities, and the reported list of ranges contains a number in a version exactly when a declaration does. Numbers the type cannot hold and reversed ranges are refused.',
  'all finite normal doubles, NaN, infinities, all versions', 'IEEE comparison corner cases (NaN, infinities, float limits) over 2^64 inputs; tests use round decimal constants.',
  ['ParseFloatFieldImpl.cpp'], [('default, special and range update', 'ParseFloatFieldImpl.cpp')])
p('P06', 'Bitfields accept exactly members that make whole bytes',
  'A bitfield is accepted exactly when every member has a bit length within its own type and the lengths add up to a whole number of bytes, at most eight; the reported members, bit lengths and byte length are the declared ones. This includes members that take the default bit length, are references or replace members of a reused bitfield.',
  'all bit lengths 0..80 of up to three members of every kind', 'The sum constraint couples all members; tests use well-formed examples and a few negatives.',
  ['ParseBitfieldFieldImpl.cpp'], [('member length validation', 'ParseBitfieldFieldImpl.cpp')])
p('P07', 'Reported minimal and maximal lengths bound every serialisation',
  'The minimal and maximal lengths reported for a field or message are the exact bounds of what its definition can serialise to: sums over bundle members, prefix plus count times element for lists, zero for missing optionals, smallest/largest variant member. They saturate instead of wrapping, and a declared expected minimal length is accepted exactly when it equals the real one.',
  'every element length, list count and prefix range within the bounds', 'Products and sums of 32 bit quantities at and over the overflow limits; tests use small fixed lengths.',
  ['ParseListFieldImpl.cpp', 'ParseFieldImpl.cpp', 'parse_common.cpp'], [('list length bounds', 'ParseListFieldImpl.cpp'), ('message length validation', 'ParseMessageImpl.cpp')])
p('P08', 'String and data fields have one length form and keep their bytes',
  'A string or data field has at most one of fixed length, length prefix (own or a sibling\'s) and zero termination, in a single definition and across reuse; every conflicting form is refused. Default and valid values are kept byte for byte (hexadecimal pairs for data), references to other string values resolve to the referred value, and values over the fixed length are refused.',
  'every combination of forms; all texts of the bounded length', 'Combinations of forms across reuse and arbitrary characters; tests use a handful.',
  ['ParseStringFieldImpl.cpp', 'ParseDataFieldImpl.cpp', 'parse_common.cpp'], [('form exclusivity', 'ParseStringFieldImpl.cpp'), ('hexadecimal data', 'parse_common.cpp')])
p('P09', 'List fields have one end, one element and consistent prefixes',
  'A list is accepted only with exactly one element definition and at most one of fixed count, count prefix, length prefix and termination suffix, in one definition or together with the list it reuses; a prefix must be an integer or have length semantics, a sibling prefix must come earlier, and fixed length elements must have one length. The reported forms, prefixes and element are the declared ones.',
  'every pair of forms in every way of giving them, every count and element length', 'The combinations across reuse grow beyond what tests enumerate, and count has 2^32 values.',
  ['ParseListFieldImpl.cpp'], [('form exclusivity and prefix lookup', 'ParseListFieldImpl.cpp')])
p('P10', 'Versions are consistent from the schema down to every member',
  'A schema is accepted exactly when every element is introduced no earlier than what contains it, no later than the schema version, and deprecated after its introduction and not after what contains it; elements without own versions take those of what contains them. Copied and reused members take the later of both versions, and those removed before that are dropped. The reported versions are exactly these.',
  'every schema version, every since/deprecated of three nesting levels, every way of copying', 'Inequalities over 32 bit versions on three coupled levels; tests use single digits on one level.',
  ['ParseXmlWrap.cpp', 'ParseFieldImpl.cpp', 'ParseMessageImpl.cpp', 'ParseBundleFieldImpl.cpp', 'ParseVariantFieldImpl.cpp'], [('version check', 'ParseXmlWrap.cpp'), ('copied members', 'ParseMessageImpl.cpp')], over=('inputs','histories'))
p('P11', 'Messages are told apart by id and order and listed in that order',
  'A schema is accepted exactly when no two messages of one namespace tree share an id (with nonUniqueMsgIdAllowed: id and order), wherever in nested namespaces and files they are defined and whether the id is a number or the value of an enum. All messages are listed once, sorted by id and order, with exactly the declared id and order.',
  'every pair (triple) of 64 bit ids and 32 bit orders, every placement in namespaces and files', 'Pairwise uniqueness over all ids and placements; tests use a few fixed ids in the global namespace.',
  ['ParseNamespaceImpl.cpp', 'ParseSchemaImpl.cpp', 'ParseMessageImpl.cpp'], [('uniqueness check', 'ParseNamespaceImpl.cpp'), ('sorted list of messages', 'ParseSchemaImpl.cpp')])
p('P12', 'Frames accept only layers in an order that can be decoded',
  'A frame is accepted exactly when it has one payload, at most one id and one size layer, id, size and value layers precede the payload, layer names differ, and every layer another layer refers to (checksum from/until, sync from) exists on the right side of it; a checksum has exactly one of from and until and a known algorithm. The reported layers are exactly the declared ones in the declared order, with the declared fields, references and interface field indices.',
  'every sequence of up to 3 (thorough: 4) layer kinds, every combination of references by name', 'Orderings times reference names times dslVersion is a product the 30-odd sample frames cannot cover.',
  ['ParseFrameImpl.cpp', 'ParseLayerImpl.cpp', 'ParseChecksumLayerImpl.cpp', 'ParseSyncLayerImpl.cpp', 'ParseValueLayerImpl.cpp', 'ParseCustomLayerImpl.cpp'], [('layer order check', 'ParseFrameImpl.cpp'), ('references of checksums', 'ParseChecksumLayerImpl.cpp')])
p('P20', 'Values written in a schema mean what they say or are refused',
  'A numeric property is accepted exactly when its whole text, apart from surrounding spaces, is a decimal, hexadecimal (0x) or octal (leading 0) number with an optional sign within the limits of the property, and has exactly that value; ranges are exactly [number, number] with ordered numbers. Flags accept only true, false, 1 and 0, and types, byte orders and units only their known names, in any case of letters. A property means the same as attribute, child element with value attribute or child element with text, and giving it twice is refused.',
  'every text of a few characters, every digit around the limits', 'Text spaces are far beyond samples; partial reads ("12abc"), wraps and sign errors only show on specific characters.',
  ['parse_common.cpp', 'ParseXmlWrap.cpp'], [('text to number, flag, unit', 'parse_common.cpp'), ('attributes and children', 'ParseXmlWrap.cpp')])
p('P13', 'Names are valid and unique, references find exactly the element they name',
  'An element is accepted exactly when its name is a letter or underscore followed by letters, digits and underscores, and no other element of its kind in the same namespace (other member of the same container) has that name; names in namespaces that differ only in the case of the first letter are the same. A reference is accepted exactly when it is the dotted path of an element defined earlier, optionally starting with @ and the name of the same or an earlier schema, and then means that element, whatever namespace it is used in. References to values of enums, specials, defaults and members give exactly that value.',
  'every name of two characters, every reference text of a few characters', 'Nesting, prefixes and equal names in different namespaces make collisions and wrong hits that only specific texts show.',
  ['ParseNamespaceImpl.cpp', 'ParseSchemaImpl.cpp', 'ParseProtocolImpl.cpp', 'parse_common.cpp', 'ParseFieldImpl.cpp'], [('path lookup', 'ParseSchemaImpl.cpp'), ('value lookup', 'ParseNamespaceImpl.cpp'), ('name validity', 'parse_common.cpp')])
p('P14', 'What a schema may use depends on its declared dslVersion alone',
  'Every element and property of the schema language works exactly when the declared dslVersion is 0 or at least the version which introduced it. Before that version it has no effect (with a warning) or is refused, always the same one. A schema which uses only what the first version has is accepted with the same meaning, without warnings, under every dslVersion.',
  'every dslVersion for 60 version dependent features', 'Tests use a handful of fixed versions; off by one gates and gates forgotten in one of two forms only show at the boundary version.',
  ['ParseProtocolImpl.cpp', 'ParseMessageImpl.cpp', 'ParseFieldImpl.cpp', 'ParseOptCondImpl.cpp', 'ParseSyncLayerImpl.cpp'], [('gates', 'ParseProtocolImpl.cpp'), ('gated properties of messages', 'ParseMessageImpl.cpp')])
p('P15', 'Conditions are accepted exactly when they can be evaluated, and mean what is written',
  'A condition (cond of an optional, readCond, validCond, construct) is accepted exactly when it is a check of a bit of a set, of the existence of an optional or versioned field, a comparison of the size of a string, data or list to a number, or a comparison of a field to a value it can hold or to a field of comparable kind, all through complete references ($ sibling, % interface field) to what exists and is visible at that place; construct takes only bit checks and equalities joined by and. The reported operands, operator, access mode and and/or structure are exactly those written.',
  'every pair of reference kinds, every number, every text of a few characters, every nesting of and/or', 'Operand kinds, access marks and places multiply; malformed texts that slip through crash the generators or produce code which does not compile.',
  ['ParseOptCondImpl.cpp', 'ParseFieldImpl.cpp', 'ParseOptionalFieldImpl.cpp', 'ParseMessageImpl.cpp', 'ParseInterfaceImpl.cpp'], [('condition parser and verification', 'ParseOptCondImpl.cpp'), ('sibling references', 'ParseFieldImpl.cpp')])
p('P16', 'Reusing a definition means the same as writing it out, and leaves the original alone',
  'A field (or message) defined with reuse and further properties is accepted exactly when the definition with all the properties written out in one place is (own properties replace the reused ones, valid values, specials, bits and the like add up, type and length may only be repeated, override kinds and code are not taken over), and reports the same in everything: values, ranges, byte order, lengths, members, aliases, conditions. Members brought in by reuse or copyFieldsFrom of fields, messages and interfaces, however deep, equal the original ones, with added members after them and replaced ones in their place. The reused definition itself stays as it was.',
  'every kind of field, every property with every number and every place of giving it', 'Each kind copies its state by itself; a forgotten member, a lost byte order or a shared object shows only in one combination of kind and property.',
  ['ParseFieldImpl.cpp', 'Parse*FieldImpl.cpp', 'ParseMessageImpl.cpp', 'ParseInterfaceImpl.cpp', 'ParseAliasImpl.cpp', 'ParseOptCondImpl.cpp'], [('taking over the state', 'ParseFieldImpl.cpp'), ('messages', 'ParseMessageImpl.cpp')])

p('P17', 'Generated integer fields carry exactly the schema\'s numbers',
  'For every integer field of a schema the generated C++ definition has the value type, default value, special values, serialisation offset and valid ranges of the schema: a value is valid for the definition exactly when it is for the schema. Every number is written as a literal which fits the type of the place it is used in and has exactly that value, up to the smallest and largest ones of 64 bits.',
  'every number of 64 bits in every role, every placement of two ranges', 'Signedness, merging of ranges and literals at the limits of 64 bits; tests compile a few fixed schemas.',
  ['CommsIntField.cpp', 'util.cpp'], [('valid range options', 'CommsIntField.cpp'), ('numbers to literals', 'util.cpp')])
p('P18', 'Generated enum types have exactly the values and names of the schema',
  'The generated enumeration of an enum field has exactly the declared names with the declared numbers, a fitting underlying type and right first, last and limit values. The generated validity check accepts exactly the declared numbers, and the generated map of names gives for every number its name and for others none.',
  'every pair of 64 bit numbers of every type, any number probed', 'The direct table, the sorted table, valid ranges and value lists are different code chosen by the numbers; tests use small consecutive ones.',
  ['CommsEnumField.cpp', 'GenEnumField.cpp', 'util.cpp'], [('valid ranges and value list', 'CommsEnumField.cpp'), ('names map', 'CommsEnumField.cpp')])
p('P19', 'Generated sets, lengths and message ids are those of the schema',
  'The generated definition of a set has the declared bits at their indices, default and reserved bits; fixed sizes, bit lengths and the minimal and maximal lengths of messages are exactly those the schema implies. The id of every message, and its value in the generated enumeration of ids, whose type can hold all of them, is the declared one.',
  'every bit index, every size of 32 bits, every pair of ids of 64 bits', 'Masks and sums near the limits of 32 and 64 bits; tests use small ones.',
  ['CommsSetField.cpp', 'CommsListField.cpp', 'CommsMessage.cpp', 'CommsMsgId.cpp'], [('reserved bits', 'CommsSetField.cpp'), ('ids enumeration', 'CommsMsgId.cpp'), ('length limits', 'CommsMessage.cpp')])
p('P21', 'Texts and bytes of the schema come out unchanged in the generated code',
  'Default and valid values of strings and data and the display names of fields and messages appear in the generated code as literals of exactly the same characters or bytes, valid values sorted as the generated search needs them.',
  'every text of a few characters, every byte', 'Quotes, escapes and template marks inside texts break generated code only for specific characters.',
  ['CommsStringField.cpp', 'CommsDataField.cpp', 'CommsField.cpp', 'util.cpp'], [('valid values', 'CommsStringField.cpp'), ('bytes', 'CommsDataField.cpp'), ('templates', 'util.cpp')])
p('P22', 'Generated validity checks follow the version of the protocol',
  'With validCheckVersion in code which depends on the version of the other side, the generated valid() of an int, float, enum or set field accepts in every supported version exactly the values (bits) the schema declares for that version; otherwise it accepts those of the version the code is generated for. Enumerators, specials, their names and the valid values of strings and data are generated exactly when they exist in that version, whatever --force-schema-version, -m and --version-independent-code say.',
  'every combination of versions of the field, its values, the schema, the minimal and the actual version of the other side, every value', 'A dozen places decide separately whether an element exists, is optional or always valid; each mistake needs its own constellation of versions.',
  ['CommsIntField.cpp', 'CommsFloatField.cpp', 'CommsEnumField.cpp', 'CommsSetField.cpp', 'CommsStringField.cpp', 'CommsDataField.cpp', 'GenField.cpp', 'GenSchema.cpp'], [('valid() of ints', 'CommsIntField.cpp'), ('existence of members', 'GenField.cpp'), ('reserved bits', 'CommsSetField.cpp')])
p('P23', 'Members exist in the generated code in exactly the versions of the schema',
  'In code which depends on the version of the other side, a member of a message, bundle, list element, optional or variant is serialised in every supported version v exactly when sinceVersion <= v and it is not removed in v, and exists by default exactly when it does in the version the code is generated for. The version read from the interface field declared as version reaches every versioned member, however nested or referenced, and the minimal length checked at compile time counts no member which may be missing. Code which does not depend on the version has the members of one version, without options to miss them.',
  'every combination of versions of the message, its container and member, the schema, the minimal and the actual version of the other side', 'Wrong only for some order of versions, or for members behind references.',
  ['CommsField.cpp', 'CommsBundleField.cpp', 'CommsRefField.cpp', 'CommsListField.cpp', 'comms.cpp', 'GenSchema.cpp', 'CommsInterface.cpp'], [('Optional wrapper', 'CommsField.cpp'), ('when a field is optional', 'comms.cpp'), ('version dependent members', 'CommsBundleField.cpp')])
p('P24', 'Conditions in the generated code hold exactly when those of the schema do',
  'The generated code makes an optional field with a condition exist exactly when the condition holds for the values of the other fields and the interface, both when its message or bundle is refreshed and when it is read, after the fields it depends on and before itself. valid() of a message, bundle or bitfield with validCond and the reading of a message with readCond succeed only when the condition holds, and a message with construct has the demanded values after construction. Comparisons hold only where the compared member exists; numbers, names, bits, sizes, existence checks and their and / or combinations mean what the schema says.',
  'every value of every operand, presence of every optional member, every number compared to', 'Literals, casts, precedence and missing members differ per kind of operand; tests compile a few conditions.',
  ['CommsOptionalField.cpp', 'CommsMessage.cpp', 'CommsBundleField.cpp', 'CommsBitfieldField.cpp', 'CommsField.cpp', 'Comms*Field.cpp'], [('conditions to C++', 'CommsOptionalField.cpp'), ('construct', 'CommsMessage.cpp')])
p('P25', 'Generated variants read the member the key of the data belongs to and treat all members alike',
  'When the generated read of a variant decides by a common key, it selects for every value of the key the member declared with this value, the last member when it takes any key, and fails otherwise; it does so only when all members start with a key of the same serialisation, and reads the rest of the member with its own conditions and version. Assignment, comparison (an order), selection, reset, dispatch, writing, length, validity and refresh cover each member, in the order and with the names of the schema, and the default member is selected at construction.',
  'every value of every key, every value read, every kind of member', 'The optimisation has preconditions which tests with regular properties always meet.',
  ['CommsVariantField.cpp', 'CommsIntField.cpp', 'CommsBundleField.cpp'], [('optimised reading', 'CommsVariantField.cpp'), ('key equivalence', 'CommsIntField.cpp')])
p('P26', 'Generated message lists, dispatch functions and factories cover exactly the right messages',
  'For every namespace with frames and messages, the generated input lists, dispatch functions and message factories (all, client input, server input, per platform and per bundle of the command line) cover exactly the messages of the namespace and its nested ones which the other side, the platform or the bundle selects, in ascending order of ids and, within one id, of orders. Every dispatch, creation and count is selected by the id of the message, and its index when several share one; the included headers are generated where the others look for them, also for nested namespaces.',
  'every id, every placement of messages and frames, every combination of senders and platforms', 'A message missing from one of the many lists is never created or dispatched; nested namespaces, repeated ids and ids over 32 bits are rare in tests.',
  ['CommsDispatch.cpp', 'CommsMsgFactory.cpp', 'CommsInputMessages.cpp', 'CommsNamespace.cpp', 'GenNamespace.cpp', 'comms.cpp', 'util.cpp'], [('dispatch cases', 'CommsDispatch.cpp'), ('factory cases', 'CommsMsgFactory.cpp'), ('lists', 'CommsInputMessages.cpp'), ('paths and scopes', 'comms.cpp')])
p('P27', 'The output of every generator is complete in itself: nothing refers to what was not generated',
  'Each of the generators (comms, c, emscripten, latex, swig, test, tools_qt) ends in success or a reported error for every schema the parser accepts, all of them for the schemas the library can be generated of. Every file its output includes is generated by it or is one of the library commsdsl2comms generates of the same schema, its build file lists each of its sources once and no other, every function a C header declares is defined in its source with the same signature and the reverse, every generated type or class named in the C, emscripten and swig code is declared, and every latex reference has exactly one label.',
  'every placement of elements, every form and place of a field, every version, platform and number', 'The generated bindings are built by nobody in the tests of this repository, or for the few shapes of its test schemas.',
  ['CommsNamespace.cpp', 'CNamespace.cpp', 'EmscriptenNamespace.cpp', 'SwigNamespace.cpp', 'ToolsQtNamespace.cpp', 'LatexField.cpp', 'CField.cpp', 'EmscriptenFrame.cpp', 'SwigFrame.cpp', 'ToolsQtMessage.cpp'], [('C functions', 'CField.cpp'), ('emscripten frames', 'EmscriptenFrame.cpp'), ('swig frames', 'SwigFrame.cpp'), ('tools_qt sources', 'ToolsQtNamespace.cpp')])
p('P28', 'Every customization option the generated classes ask for is defined, at their own place and once',
  'In the library commsdsl2comms generates, every class that takes a customization option (fields and their members, messages, frames and their layers) asks for the one at its own path in the options structure; the default options structure defines each option exactly once, and as the empty option where nothing else is required. Which classes have options follows the customization level (full, limited, none) and the customizable property. The client, server, data view, bare metal and message factory options structures extend exactly the structures they replace: bare metal storage covers exactly strings and lists, data view exactly strings and raw data, the direction options exactly the messages only one side sends, and message factories only refer to aliases that exist. This holds with several namespaces and schemas, and with the main namespace in the options. Unknown messages in a bundle are reported.',
  'every form and place of a field, kind of layer, customization level and property, number', 'The tests of this repository do not instantiate the generated options with the COMMS library, and cover few forms.',
  ['CommsDefaultOptions.cpp', 'CommsField.cpp', 'CommsNamespace.cpp', 'CommsFrame.cpp', 'CommsLayer.cpp', 'CommsMessage.cpp', 'comms.cpp', 'CommsGenerator.cpp'], [('structures', 'CommsDefaultOptions.cpp'), ('options of fields', 'CommsField.cpp'), ('customization level', 'CommsGenerator.cpp')])
p('P30', 'No failure to write the output passes for success',
  'When any directory cannot be created, any output file cannot be opened or written (a full disk, missing permissions), or any extra source file cannot be copied, the generator reports it and ends with an error; when nothing fails it ends with success. This holds for each of the generators (comms, c, emscripten, latex, swig, test, tools_qt) and each of the files they write.',
  'every operation on files, by its number, and every way it fails', 'The tests never make an operation on files fail.',
  ['GenGenerator.cpp', 'CommsDefaultOptions.cpp', 'CommsField.cpp', 'CMsgHandler.cpp', 'EmscriptenField.cpp', 'SwigMessage.cpp', 'ToolsQtPlugin.cpp', 'Latex.cpp', 'Test.cpp'], [('directories and copies', 'GenGenerator.cpp'), ('options', 'CommsDefaultOptions.cpp')])
p('P29', 'Bindings offer exactly the elements of the library',
  'For every schema, every forced schema version and minimal remote version, the code generated by commsdsl2c, commsdsl2emscripten and commsdsl2swig offers exactly the elements the C++ library generated from the same schema with the same options has: the same enumerators with the same numbers, special values (their value, check and assignment), bits with the same indices and their access, members of bundles, bitfields and variants in the same order, fields of messages and message ids with the same numbers; values have the types of the library; every function of a binding is both declared and implemented with the same parameters, and calls the member of the library it is named after, also when the field exists only in some of the versions.',
  'all kinds of fields with named elements, in all places, all versions of elements, forced versions and remote versions, all values, bit indices and message ids within the ranges',
  'Tests of the bindings generate a fixed set of schemas and check that the generator ends; nothing compares the names and numbers of the three bindings with those of the library, and nothing varies versions.',
  ['CEnumField.cpp', 'CIntField.cpp', 'CFloatField.cpp', 'CSetField.cpp', 'CVariantField.cpp', 'CBundleField.cpp', 'EmscriptenEnumField.cpp', 'EmscriptenSetField.cpp', 'EmscriptenIntField.cpp', 'EmscriptenVariantField.cpp', 'SwigEnumField.cpp', 'SwigSetField.cpp', 'SwigIntField.cpp', 'SwigVariantField.cpp', 'SwigGenerator.cpp'],
  [('enumerators, bits, special values and members of the C bindings', 'CEnumField.cpp'), ('of emscripten', 'EmscriptenSetField.cpp'), ('of SWIG', 'SwigEnumField.cpp')])
