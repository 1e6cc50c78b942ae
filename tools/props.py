T = 'xsd-types/src/types/'
RT = ('the tests parse and print a handful of hand-picked texts per type; acceptance, the value read and the text printed must be right for '
      'every text and every value, including multi-byte text, boundary numbers and every time zone')
p('T01', 'Time zone designators are read exactly',
  'A time zone text is accepted exactly when it is "Z" or a signed two-digit hour and two-digit minute separated by a colon, minutes below 60 and not beyond 14:00 in either direction; the offset obtained is the one written, sign included. Every other text gives an error, never a panic.',
  ['inputs'], 'every text (bounded: any UTF-8 up to 6 bytes and edits of well-formed zones)', RT,
  [T + 'utils.rs'], [('time zone parser used by every date type', T + 'utils.rs parse_timezone')], ['parse_timezone result'])
p('T02', 'gDay, gMonth and gMonthDay follow the XSD lexical space and round-trip',
  'A text is accepted as gDay ("---DD"), gMonth ("--MM") or gMonthDay ("--MM-DD") exactly when it is in the XSD lexical space (ranges and days per month included, optional time zone), and the day, month and zone obtained are those written; every other text gives an error, never a panic. Printing a value gives its XSD lexical form, zone included, which parses back to an equal value.',
  ['inputs'], 'every text and every legal value with every legal time zone', RT,
  [T + 'gday.rs', T + 'gmonth.rs', T + 'gmonthday.rs', T + 'utils.rs'],
  [('parsing and validation', T + 'g{day,month,monthday}.rs FromStr'), ('printing', T + 'g{day,month,monthday}.rs Display')])
p('T03', 'gYear and gYearMonth follow the XSD lexical space and round-trip',
  'A text is accepted as gYear or gYearMonth exactly when it is in the XSD lexical space (at least four year digits, no superfluous leading zero, no year 0000, optional minus sign, month 01-12, optional time zone) and the year fits 32 bits, and the year, month and zone obtained are those written; every other text gives an error, never a panic. Printing a value gives its XSD lexical form (year padded to four digits, zone included), which parses back to an equal value.',
  ['inputs'], 'every text and every legal value with every legal time zone', RT,
  [T + 'gyear.rs', T + 'gyearmonth.rs', T + 'utils.rs'], [('parsing and validation', T + 'g{year,yearmonth}.rs FromStr'), ('printing', T + 'g{year,yearmonth}.rs Display')])
p('T04', 'date follows the XSD lexical space and round-trips',
  'A text is accepted as date exactly when it is in the XSD lexical space with a calendar-valid day (leap years included, negative and more-than-four-digit years included) and an optional time zone, and year, month, day and zone obtained are those written; every other text gives an error, never a panic. Printing a date gives its XSD lexical form, zone included, which parses back to an equal date.',
  ['inputs'], 'every text and every date with every time zone; year 0000 and years beyond 262000 are outside', RT,
  [T + 'date.rs', T + 'utils.rs'], [('parsing', T + 'date.rs FromStr'), ('printing', T + 'date.rs Display')])
p('T05', 'time follows the XSD lexical space and round-trips',
  'A text is accepted as time exactly when it is "hh:mm:ss" with in-range two-digit fields, an optional fraction of the second and an optional time zone, and hour, minute, second, fraction (to nanoseconds) and zone obtained are those written; every other text gives an error, never a panic. Printing a time gives its XSD lexical form, fraction and zone included, which parses back to an equal time.',
  ['inputs'], 'every text and every time of day with every legal time zone; hour 24 and second 60 are outside', RT,
  [T + 'time.rs', T + 'utils.rs'], [('parsing', T + 'time.rs FromStr'), ('printing', T + 'time.rs Display')])
p('T06', 'dateTime and dateTimeStamp are read exactly and round-trip',
  'A text with a calendar-valid date, "T", an in-range time with an optional fraction and a mandatory time zone is accepted as dateTime or dateTimeStamp, with exactly the instant and the offset written; malformed or out-of-range texts give an error, never a panic. Printing a value gives a text that parses back to the same instant with the same offset.',
  ['inputs'], 'every text and every value; year 0000, hour 24, second 60, lower-case t/z, a blank for T and offsets beyond 14:00 are outside', RT,
  [T + 'datetime.rs', T + 'datetimestamp.rs'], [('parsing', T + 'datetime.rs and datetimestamp.rs FromStr'), ('printing', T + 'datetime.rs and datetimestamp.rs Display')])
p('T07', 'duration follows the XSD lexical space and round-trips',
  'A text is accepted as duration exactly when it is in the XSD lexical space (optional minus, P, designators in order and each with its number, T exactly when a time part follows, a fraction only on seconds), with sign and every component as written; every other text gives an error, never a panic or a wrapped number. Printing a duration gives a text in that lexical space which parses back to an equal duration.',
  ['inputs'], 'every text (empty text means the zero duration; numbers beyond 64 bits are rejected) and every value', RT,
  [T + 'duration.rs'], [('state machine parser', T + 'duration.rs FromStr'), ('printing', T + 'duration.rs Display')])
p('T08', 'Conversion of a duration to a standard duration is exact or refused',
  'Converting a duration with neither years nor months that is not negative gives exactly the standard duration of its days, hours, minutes and seconds, with the fraction of the second kept; a negative non-zero duration, one with years or months, and one whose total does not fit give an error. It never panics or wraps.',
  ['inputs'], 'every value of every component within windows around zero and each overflow limit', 'the tests convert a few small durations; sign, overflow of each product and of the sum need all component values',
  [T + 'duration.rs'], [('conversion', T + 'duration.rs to_std_duration')])
p('T09', 'The integer types accept exactly their XSD texts and value ranges',
  'For integer, nonPositiveInteger, negativeInteger, nonNegativeInteger and positiveInteger a text is accepted exactly when it is an optional sign followed by digits whose value (of any size) is in the type\'s range, and the value obtained is the one written; every other text gives an error, never a panic. Printing a value gives its decimal digits, which parse back to an equal value, and the default value of each type is in its range.',
  ['inputs'], 'every text and every value (bounded as listed)', RT,
  [T + x for x in ('integer.rs', 'non_positive_integer.rs', 'negative_integer.rs', 'non_negative_integer.rs', 'positive_integer.rs')],
  [('parsing and range check', 'FromStr of the five types'), ('printing', 'Display of the five types')])
p('T10', 'decimal accepts exactly the xs:decimal texts and round-trips',
  'A text is accepted as decimal exactly when it is an optional sign followed by digits with at most one dot and at least one digit, and the value obtained is the one written; every other text gives an error, never a panic. Printing a decimal gives such a text, without exponent, which parses back to an equal value.',
  ['inputs'], 'every text and every value (bounded as listed)', RT,
  [T + 'decimal.rs'], [('parsing', T + 'decimal.rs FromStr'), ('printing', T + 'decimal.rs Display')])
p('T11', 'Numbers, instants and durations are ordered as XML Schema orders them',
  'Comparing two values of an integer type, decimal, dateTime or dateTimeStamp orders them by the number or instant they stand for, whatever notation, scale or offset they have, and they are equal exactly when neither is before the other. Durations follow the partial order of XML Schema: one is less than another if adding it gives an earlier moment from each of the four reference dates, equal if it gives the same moments, and otherwise the two are unordered and not equal, so a year equals twelve months, but a month is unordered with thirty days.',
  ['inputs'], 'every pair of values of one type (bounded as listed)', 'the range facets of generated types rely on the order; no test compares values of these types, and derived orders look right on the pairs one tries',
  [T + 'duration.rs', T + 'decimal.rs', T + 'integer.rs', T + 'datetime.rs', T + 'datetimestamp.rs'], [('order of durations', T + 'duration.rs PartialOrd'), ('order of numbers', T + 'integer.rs, decimal.rs derives')])
X = 'xsd-parser/src/'
RG = ('the tests compare the output for a handful of fixed schemas; the mapping must be right for every schema, in every combination of '
      'declaration, place, occurrence and name')
p('G01', 'Generated fields hold as many values as the occurrence bounds allow',
  'For an element of a sequence or all group, the generated field is a Vec when maxOccurs is above one or unbounded, an Option when the element is optional and may occur once, and the plain type when it must occur once. This holds for every minOccurs and maxOccurs (maxOccurs of at least one), however the element is declared (built-in type, named type, anonymous type, reference) and wherever its type is; only an element of the very type or element that it belongs to is a Vec whatever its bounds.',
  ['inputs'], 'every pair of occurrence bounds within the schema rules, every form of declaration', RG,
  [X + 'parser/element.rs', X + 'parser/xsd_elements.rs', X + 'generator/default.rs'], [('occurrence to wrapper', X + 'parser/element.rs element_modifier'), ('wrapping', X + 'generator/default.rs default_modify_type')], ['type of the field in the generated struct'])
p('G02', 'Every attribute of a type becomes one field of the right type',
  'Every attribute a complex type has, directly or through attribute groups at any depth, becomes exactly one attribute field with the XML name, the prefix of a reference and the type of the schema, optional unless it is required; a prohibited attribute has none. This holds whatever the content of the type is (empty, sequence, all, choice, extension, restriction, simple content) and wherever the type is declared, and the other attributes and elements of the type stay.',
  ['inputs'], 'every use, type, place and content model', RG,
  [X + 'parser/attribute.rs', X + 'parser/attribute_group.rs', X + 'parser/complex_type.rs', X + 'parser/types.rs'],
  [('attributes', X + 'parser/attribute.rs parse_attribute'), ('groups', X + 'parser/types.rs extend_attribute_group')], ['fields of the generated struct'])
p('G03', 'A choice becomes a flattened field of an enum with one variant per alternative',
  'A choice that is the content of a type, of an extension, or part of a sequence becomes one flattened field whose type is an enum with, in schema order, one variant per alternative (its XML name, its type, a Vec when it may occur more than once, an Option when it is optional) and a last variant for unknown content. Attributes, elements and further choices next to it keep their own fields, and no two generated items or fields share a name.',
  ['inputs'], 'every combination of alternatives, places and neighbours (alternatives with an anonymous type, and a choice that repeats as a whole, are outside)', RG,
  [X + 'parser/choice.rs', X + 'parser/sequence.rs', X + 'parser/extension.rs', X + 'generator/enum.rs', X + 'generator/enum_case.rs'],
  [('choice', X + 'parser/choice.rs parse_choice'), ('choice within a sequence', X + 'parser/sequence.rs')], ['generated struct and enum'])
p('G04', 'A derived type has the fields of its base at every distance',
  'A type that extends another has its own elements and attributes and exactly those of its base, the base of its base and so on, attribute groups included, each once and with its own type, in whatever order the types are declared. This holds for named types, types of global elements and anonymous types.',
  ['inputs', 'histories'], 'every order of declaration of a chain of three types, every combination of what each adds', RG,
  [X + 'parser/types.rs', X + 'parser/extension.rs', X + 'parser/mod.rs'], [('inheritance', X + 'parser/types.rs extend_base')], ['fields of the generated structs'])
p('G05', 'Documentation ends up in comments only, and its words are kept',
  'Whatever text an annotation holds and wherever it stands in the schema, it leaves every generated item, field and attribute as it is without the annotation: all of the text is inside of comments. The words of the documentation of a type, a field, or an attribute are all kept, in order, in the comment before the item (lines of one character are left out).',
  ['inputs'], 'every text at every place an annotation can stand', 'the tests use friendly documentation at a few places; line separators, carriage returns, long words and every place of an annotation are not tried',
  [X + 'generator/default.rs', X + 'generator/utils.rs', X + 'parser/utils.rs'], [('formatting of comments', X + 'generator/default.rs default_format_comment'), ('documentation', X + 'parser/utils.rs get_documentation')], ['generated text'])
p('G06', 'Every XML name becomes a valid identifier and keeps its exact name in XML',
  'For every XML name with at least one letter or digit, declared as element, attribute, reference or type, the generated identifiers are valid Rust and no reserved words, the XML name bound to the field is exactly the name in the schema, and a reference to a type gives the very name under which the type is generated.',
  ['inputs'], 'every name, reserved words and letters beyond ASCII included', 'the tests convert a few names; reserved words, digits, punctuation, other alphabets and their combinations are not tried',
  [X + 'generator/default.rs', X + 'generator/utils.rs', X + 'generator/struct_field.rs'], [('names', X + 'generator/default.rs default_format_name, default_format_type'), ('reserved words', X + 'generator/utils.rs sanitize')], ['identifiers and attributes in the generated text'])
p('G07', 'Every built-in type maps to the Rust type that holds its values',
  'A reference to a built-in type of XML Schema 1.0 (and dateTimeStamp; anyType is outside) gives the Rust type for it, as type of elements, attributes, choice alternatives, list items, union members and as base of a restriction, whatever prefix the schema uses for the XML Schema namespace, none included. A type of the same local name in the target or another namespace is never taken for the built-in one.',
  ['inputs'], 'every built-in type, position and prefix (one prefix for the XML Schema namespace)', RG,
  [X + 'generator/utils.rs', X + 'generator/base.rs', X + 'parser/schema.rs'], [('mapping', X + 'generator/utils.rs match_built_in_type')], ['types in the generated text'])
p('G08', 'An enumeration becomes an enum with one variant per value',
  'A restriction whose enumeration values are made of letters, digits and dashes becomes, wherever it stands, an enum with one variant per value in order, each bound to exactly that text, and a last variant for other text that holds the base type. Variant names are valid and distinct; values that cannot be given distinct names are generated as a plain restriction of the base instead.',
  ['inputs'], 'every value and every combination with others', RG,
  [X + 'parser/restriction.rs', X + 'generator/enum.rs', X + 'generator/enum_case.rs'], [('enumerations', X + 'parser/restriction.rs simple_type_restriction'), ('variants', X + 'generator/enum_case.rs')], ['generated enum'])
p('G09', 'Generated validation checks exactly the bounds of the schema',
  'The validation generated for a restriction rejects, for each minInclusive, maxInclusive, minExclusive, maxExclusive, length, minLength and maxLength facet, exactly the values on the wrong side of the bound in the schema, parsed as the base type, and for no other reason. The length of a text is its number of characters; pattern, whiteSpace and digit facets are not checked.',
  ['inputs'], 'every facet, bound and combination', RG,
  [X + 'generator/validator.rs', X + 'generator/tuple_struct.rs', X + 'parser/restriction.rs'], [('facets to checks', X + 'generator/validator.rs gen_facet_validation')], ['impl Validate in the generated text'])
p('G10', 'Unions have one variant per member, lists hold every kind of item',
  'A union becomes an enum with one variant per member, named members first and in order, then the anonymous ones in order, each holding the type of its member, and a last variant for other text. A list becomes a Vec of its item type, named or anonymous, with the type of anonymous items generated and their facets not applied to the list.',
  ['inputs'], 'every combination of members and item types', RG,
  [X + 'parser/union.rs', X + 'parser/list.rs', X + 'generator/enum.rs', X + 'generator/tuple_struct.rs'], [('unions', X + 'parser/union.rs parse_union'), ('lists', X + 'parser/list.rs parse_list')], ['generated items'])
p('G11', 'Anonymous types nested at any depth are generated where their fields look',
  'An element with an anonymous complex or simple type gets a field whose type path leads to the generated type in the module of its parent, at every depth of nesting, with all elements and attributes of the anonymous type; no two items of one module share a name.',
  ['inputs'], 'every shape of nested anonymous types', RG,
  [X + 'generator/struct.rs', X + 'parser/element.rs', X + 'parser/types.rs'], [('modules', X + 'generator/struct.rs subtypes, fields')], ['modules and paths in the generated text'])
p('G12', 'Prefixes and namespaces in the generated code are those of the schema',
  'Every generated struct and enum that reads elements names the target namespace and its prefix as the schema declares them (a prefix, the default namespace, or none). Elements of the schema and references to it carry the target prefix and unqualified Rust types; references to another namespace carry its prefix in both; local attributes have none.',
  ['inputs'], 'every prefix, order of namespace declarations and kind of target namespace', RG,
  [X + 'generator/struct.rs', X + 'generator/enum.rs', X + 'generator/default.rs', X + 'parser/utils.rs'], [('target namespace', X + 'parser/utils.rs target_namespace'), ('prefixes', X + 'generator/default.rs yaserde_for_element')], ['attributes in the generated text'])
p('G13', 'Generation is deterministic and depends on what the schema means only',
  'The same schema gives the same text on every run and every time it is generated, whatever the generator has generated before. White space, comments and processing instructions in the schema do not change the text, and the order of its declarations changes nothing but the order of the generated items.',
  ['inputs', 'schedules'], 'every layout, every order of declarations, every seed of the hash maps', 'the tests generate each schema once, in one layout and one order',
  [X + 'parser/mod.rs', X + 'parser/schema.rs', X + 'parser/types.rs', X + 'generator/mod.rs', X + 'generator/struct.rs'], [('assembly', X + 'parser/mod.rs parse'), ('generation', X + 'generator/mod.rs generate_rs_file')], ['generated text'])
p('G14', 'What says nothing about the types of the data changes nothing in the code',
  'Attributes of other namespaces (whatever their local names) and ids anywhere in a schema, default and fixed values of elements and attributes, version and language of the schema, abstract, block and final of types, fixed facets, identity constraints and application information do not change the generated code.',
  ['inputs'], 'every such addition to a schema with every kind of declaration (bounded as listed)', 'the tests have none or few of them, each at one place',
  [X + 'parser/attribute.rs', X + 'parser/element.rs', X + 'parser/restriction.rs', X + 'parser/xsd_elements.rs'], [('attributes of declarations', X + 'parser/xsd_elements.rs'), ('elements', X + 'parser/element.rs')], ['generated text'])
p('G15', 'Parts of the generator of the user\'s own are used everywhere and alone',
  'A generator built with a part of the user\'s own (for structs, fields, enums, cases, tuple structs, aliases, imports or the base) uses it for everything of its kind and leaves the rest of the generated code as it was. A base that names a type, field or module otherwise, wraps or comments otherwise, or indents otherwise changes exactly that, at every place where it is generated.',
  ['inputs', 'configurations'], 'every part or pair of parts, every method of the base, on schemas with every kind of declaration', 'the tests use the parts as they come',
  [X + 'generator/builder.rs', X + 'generator/mod.rs', X + 'generator/base.rs'], [('building', X + 'generator/builder.rs GeneratorBuilder'), ('dispatch', X + 'generator/mod.rs generate')], ['generated text'])
p('G16', 'Wildcards add nothing to the generated types',
  'A wildcard for elements (any) in a sequence or choice, or for attributes (anyAttribute) in a type, extension or attribute group, whatever its namespaces, way of processing and occurrence, changes nothing in the generated code.',
  ['inputs'], 'every wildcard at every place in types of every kind (bounded as listed)', 'the tests have a few wildcards at one or two places',
  [X + 'parser/any.rs', X + 'parser/any_attribute.rs', X + 'generator/struct_field.rs'], [('wildcards', X + 'parser/any.rs parse_any, any_attribute.rs parse_any_attribute')], ['generated code'])
M = 'xsd-macro-utils/src/'
RM = 'the tests read a few documents with ordinary values; every text, and every way XML can write it, must be read right or rejected'
p('M01', 'A type that wraps a simple type reads and prints exactly its texts',
  'A generated type around a built-in or other simple type accepts a text exactly when the wrapped type does (true, false, 1 and 0 for booleans), with the same value, and prints it as the wrapped type does; what it prints gives the same value again. Other texts give an error, never a panic or another value.',
  ['inputs'], 'every text (bounded as listed)', RM,
  [M + 'tuple.rs'], [('derived FromStr and Display', M + 'tuple.rs from_str, display')])
p('M02', 'A list holds exactly its items, in order, or is rejected',
  'A text is read as the list of the pieces between XML white space (space, tab, line feed, carriage return), each read as the item type, in order and none left out; when one of them is no value of the item type, the text is rejected. A list prints its items in order with one space between, which reads as the same list.',
  ['inputs'], 'every text (bounded as listed)', RM,
  [M + 'tuple.rs'], [('derived FromStr and Display of lists', M + 'tuple.rs from_str, display')])
p('M03', 'A union has the value of its first member type that accepts the text',
  'An element whose type is a union is read as the first of the member types, in the order of declaration, that accepts the text, with the value that member gives it. A text no member accepts is kept as it is in the variant for unknown text.',
  ['inputs'], 'every text (bounded as listed)', RM,
  [M + 'union.rs'], [('derived deserialisation of unions', M + 'union.rs')])
p('M04', 'Elements of simple types are read and written without loss',
  'An element of a simple type (value types, wrappers, lists, unions) gives the value of the whole of its text without the white space around it, however the document writes that text: references, CDATA sections, comments, processing instructions, prefixes. It is rejected when that text is no value; and a value written as an element is read back as the same value.',
  ['inputs'], 'every text and value (bounded as listed; white space next to a processing instruction, control characters and "]]>" are outside)', RM,
  ['xsd-types/src/utils/yaserde.rs', M + 'lib.rs', M + 'union.rs'], [('reading and writing', 'xsd-types/src/utils/yaserde.rs'), ('derived implementations', M + 'lib.rs')])
RE = 'the tests read one document per schema, and write none; every text, every combination of optional parts and every prefix must be read right and survive being written'
H = ['xsd-parser/src/generator/struct.rs', 'xsd-parser/src/generator/struct_field.rs', 'xsd-parser/src/generator/default.rs']
p('E01', 'Documents are read into what they hold and written back the same',
  'A document of a type with required, optional and repeated elements of text, number, enumeration, list and named simple types and with attributes is read by the generated code into exactly the values it holds, whatever prefix it uses and whichever optional parts it has. The value is written as a document with the same elements, attributes, namespaces and texts, which reads back as the same value.',
  ['inputs'], 'every instance of a schema with such a type (bounded as listed; empty texts in repeated elements are outside)', RE,
  H + ['xsd-types/src/utils/yaserde.rs', 'xsd-macro-utils/src/lib.rs'], [('struct fields', H[1]), ('names in XML', H[2])], ['generated code, compiled'])
p('E02', 'Attributes of every type are read and written back the same',
  'Attributes of boolean, number, date, named simple, list and enumeration types, directly and from attribute groups, are read by the generated code into exactly their values, absent ones as none, and written back as the same attributes.',
  ['inputs'], 'every instance of a schema with such a type (bounded as listed; markup characters in attributes of named types and 1 or 0 for booleans are outside)', RE,
  H + ['xsd-parser/src/parser/attribute.rs', 'xsd-macro-utils/src/tuple.rs'], [('attributes', 'xsd-parser/src/parser/attribute.rs parse_attribute')], ['generated code, compiled'])
p('E03', 'Derived types, choices and anonymous types hold what their documents hold',
  'The generated code reads documents of derived types (own parts and those of the bases), of choices (the alternative that is there, repeated ones with all of their items, next to other elements), of anonymous types nested in one another and of references to global elements into exactly the values they hold. What it writes of derived and nested types reads back as the same value.',
  ['inputs'], 'every instance of a schema with such types (bounded as listed; empty texts next to a choice are outside)', RE,
  H + ['xsd-parser/src/generator/enum.rs', 'xsd-parser/src/parser/types.rs', 'xsd-parser/src/parser/choice.rs'], [('choices', 'xsd-parser/src/generator/enum.rs'), ('bases', 'xsd-parser/src/parser/types.rs extend_base')], ['generated code, compiled'])
p('E04', 'Compiled validation accepts exactly the values within the bounds',
  'The validation of generated types with minInclusive, maxInclusive, minExclusive, maxExclusive, length, minLength and maxLength facets returns an error for exactly the values outside of the bounds, for integers of every size, floating point numbers, decimals and texts (whose length is their number of characters).',
  ['inputs'], 'every value of such types (bounded as listed)', 'the tests compare the text of the validation with a copy; they do not run it',
  ['xsd-parser/src/generator/validator.rs', 'xsd-parser/src/generator/tuple_struct.rs'], [('validation', 'xsd-parser/src/generator/validator.rs gen_facet_validation')], ['generated code, compiled'])
p('E05', 'Unusual names are read and written under their exact spelling',
  'Elements, attributes and enumeration values whose names are reserved words, start with a digit or underscore, or have dots, dashes, capitals or letters beyond ASCII are read and written under exactly their names, with their values, in a schema without a prefix for XML Schema.',
  ['inputs'], 'every instance of a schema with such names (bounded as listed; empty texts in optional elements are outside)', RE,
  H + ['xsd-parser/src/generator/utils.rs'], [('names', H[2] + ' default_format_name'), ('renames', H[1])], ['generated code, compiled'])
p('E06', 'Values of all built-in types survive being read and written',
  'Elements of the built-in types (texts, booleans, integers of every size, decimals, floating point numbers, dates, times, durations and their parts) are read by the generated code into exactly their values, absent ones as none, and written back as the same texts, in a schema without target namespace.',
  ['inputs'], 'every instance of a schema with such elements (bounded as listed; empty texts in optional elements, and texts that are not the usual form of a value, are outside)', RE,
  H + ['xsd-parser/src/generator/utils.rs', 'xsd-types/src/types/mod.rs', 'xsd-types/src/utils/yaserde.rs'], [('types', 'xsd-parser/src/generator/utils.rs match_built_in_type')], ['generated code, compiled'])
p('E07', 'Simple types built on one another are read and written through every layer',
  'Restrictions of restrictions, lists of named and anonymous types, enumerations of numbers, of named types and of other enumerations, as types of required, optional and repeated elements and of attributes, give code that compiles and reads every document into exactly the values it holds. What it writes has the same values and reads back as the same.',
  ['inputs'], 'every instance of a schema with such types (bounded as listed; empty texts, and markup characters in attributes, are outside)', RE,
  ['xsd-parser/src/generator/tuple_struct.rs', 'xsd-parser/src/generator/enum.rs', 'xsd-macro-utils/src/tuple.rs', 'xsd-macro-utils/src/lib.rs', 'xsd-types/src/utils/yaserde.rs'], [('wrappers', 'xsd-macro-utils/src/tuple.rs'), ('enumerations', 'xsd-parser/src/generator/enum.rs')], ['generated code, compiled'])
p('E08', 'Documents of two schemas are read and written with the types of both',
  'Code generated from two schemas of different target namespaces, one of which uses types and global elements of the other (under the same prefix), compiles together, reads every document into exactly the values it holds, whatever prefixes or default namespace the document uses for the two namespaces, and writes documents that read back as the same value.',
  ['inputs'], 'every instance of two such schemas (bounded as listed; empty texts in optional elements are outside)', RE,
  H + ['xsd-parser/src/parser/import.rs', 'xsd-parser/src/parser/utils.rs'], [('prefixes', 'xsd-parser/src/generator/default.rs yaserde_for_element'), ('namespaces', 'xsd-parser/src/parser/utils.rs target_namespace')], ['generated code, compiled'])
p('E09', 'What wildcards admit does not disturb the reading of what is declared',
  'A document of a type with wildcards (in its content, in that of its items, in a base type) is read by the generated code into exactly the declared values it holds, whatever elements and attributes of other namespaces, unlike the declared ones in name, stand where the wildcards admit them.',
  ['inputs'], 'every instance of three such types (bounded as listed)', RE,
  H + ['xsd-parser/src/parser/any.rs', 'xsd-parser/src/parser/any_attribute.rs'], [('wildcards', 'xsd-parser/src/parser/any.rs parse_any')], ['generated code, compiled'])
W = 'wsdl-parser/src/'
RW = 'the tests generate one document; every document must give functions that compile and call what they say'
p('W01', 'Every operation of a WSDL document becomes one function with the right types',
  'For every operation of every port type of a WSDL document there is exactly one asynchronous function that takes any transport and a request, hands both to the transport and returns its result; the types are those of the parts (one per message, declared by element or type) of the input and output message, "()" without output. Types of the target namespace are unqualified, others carry their prefix. The order and layout of the declarations, faults, bindings, imports and unused messages change none of this.',
  ['inputs'], 'every WSDL 1.1 document of request-response and one-way operations (bounded as listed; messages with several parts are outside)', RW,
  [W + 'generator/mod.rs', W + 'generator/function.rs', W + 'parser/definitions.rs', W + 'parser/port_type.rs', W + 'parser/message.rs'], [('functions', W + 'generator/function.rs Function::new'), ('operations', W + 'parser/port_type.rs OperationType::new')], ['generated functions'])
p('W02', 'Functions of a WSDL document have valid names and use the generated types',
  'Whatever XML name (with at least one letter or digit) an operation has, its function has a valid Rust identifier that is no reserved word as its name. For every such name of an element, the type in the function is the one generated from the schema for that element, with the prefix before the same name for an element of another namespace.',
  ['inputs'], 'every XML name (bounded as listed)', RW,
  [W + 'generator/mod.rs', 'xsd-parser/src/generator/default.rs'], [('names', W + 'generator/mod.rs default_format_name, default_format_type')], ['generated functions and types'])
p('W03', 'Documentation in a WSDL document ends up in comments, and its words are kept',
  'Documentation of definitions, messages, port types and operations leaves the generated functions as they are without it. The words of the documentation of an operation, markup within it left out, are all kept, in order, in the comment before its function (lines of one character are left out).',
  ['inputs'], 'every text of documentation (bounded as listed)', RW,
  [W + 'generator/mod.rs', W + 'parser/port_type.rs'], [('comments', W + 'generator/mod.rs default_format_comment'), ('documentation', W + 'parser/port_type.rs documentation')], ['comments in the generated functions'])
p('W04', 'Functions of a WSDL document are the same on every run',
  'The same WSDL document, with any number of port types and messages, gives the same text of functions on every run.',
  ['inputs', 'schedules'], 'every seed of the hash maps', 'one run has one order of the hash maps',
  [W + 'generator/mod.rs', W + 'parser/definitions.rs'], [('order', W + 'generator/mod.rs generate')], ['generated functions'])
p('W05', 'Functions of a WSDL document compile and call the transport with their request',
  'The types and functions generated from a WSDL document with its schema compile together. Calling a function sends exactly one request, the one it is given, and gives the answer or error of the transport.',
  ['inputs'], 'every value of request and answer (bounded as listed) for a document with request-response and one-way operations, unusual names and types of another namespace', 'the tests compare the text of one function with a copy; they do not compile or call it',
  [W + 'generator/mod.rs', W + 'generator/function.rs', 'wsdl-parser-cli/src/main.rs'], [('bodies', W + 'generator/mod.rs generate_function')], ['generated code, compiled'])
p('W06', 'The model of a WSDL document holds what the document declares',
  'The model the library gives of a WSDL document has its name, the prefix and URI of its target namespace, its imports, all schemas in order, and exactly the messages with their parts and the port types with their operations that it declares, under their names and in their order. An operation is of the kind that the order of its input and output says, with their names and messages, all its faults, its order of parameters and the text of its documentation; extension elements, documentation and comments elsewhere change none of this.',
  ['inputs'], 'every WSDL 1.1 document (bounded as listed; other elements between the parts of an operation are outside)', 'the tests read one document and look at few of its parts',
  [W + 'parser/definitions.rs', W + 'parser/message.rs', W + 'parser/port_type.rs', W + 'parser/types.rs', W + 'parser/binding.rs', W + 'parser/mod.rs'], [('documents', W + 'parser/definitions.rs Definitions::new'), ('operations', W + 'parser/port_type.rs OperationType::new')], ['accessors of the model'])
X = ['xsd-parser-cli/src/main.rs', 'wsdl-parser-cli/src/main.rs']
p('L01', 'The XSD program writes the code of every document and nothing else',
  'Given a file, the XSD program writes exactly the code the library generates for it to the output file, replacing what was there, or to standard output if none is named; given a directory (input/xsd and output/rs if none are named), it does so for every file in the tree below, under the same relative path with the extension rs. It reports success, leaves its inputs as they are and writes no other file. All of this holds however the system splits or interrupts transfers and orders directories.',
  ['inputs', 'schedules'], 'every tree of schemas, every form of the arguments, every split of transfers and order of entries (bounded as listed)', 'no test runs the programs',
  X[:1], [('files', X[0] + ' process_single_file'), ('directories', X[0] + ' process_dir')], ['files and standard output'])
p('L02', 'The WSDL program writes the types and functions of every document',
  'Given a file, the WSDL program writes the code the library generates for each schema in it on its own, in their order, followed by the functions of the document, to the output file, replacing what was there, or to standard output if none is named; given a directory (input/wsdl and output/wsdl-rs if none are named), it does so for every file in the tree below, under the same relative path with the extension rs. It reports success, leaves its inputs as they are and writes no other file. All of this holds however the system splits or interrupts transfers and orders directories.',
  ['inputs', 'schedules'], 'every tree of WSDL documents, every form of the arguments, every split of transfers and order of entries (bounded as listed)', 'no test runs the programs',
  X[1:], [('files', X[1] + ' process_single_file'), ('directories', X[1] + ' process_dir'), ('bases and groups', 'xsd-parser/src/parser/mod.rs resolve_references')], ['files and standard output'])
p('L03', 'The programs report every failure and then write nothing wrong',
  'When a file or directory cannot be opened, read, created or written, or an input is missing or is not well-formed XML, the XSD and WSDL programs end with a failure, never with success. Inputs stay as they are. An input that is missing or not well-formed leaves existing output as it is and nothing is written for it.',
  ['inputs', 'fault_sequences'], 'every single failure of an operation on files (bounded as listed) and every such document (bounded as listed)', 'no test runs the programs',
  X, [('errors', X[0] + ' process_single_file, write_to_file'), ('errors', X[1] + ' process_single_file, write_to_file')], ['exit status, files and standard output'])
