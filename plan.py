"""What each property's check runs: harness functions, bounds per tier, reachability witnesses."""
GROUPS = {
    'types': dict(dir='types', crate='htypes'),
    'gen': dict(dir='gen', crate='hgen'),
    'macros': dict(dir='macros', crate='hmacros'),
    'names': dict(dir='inst', crate='names', package='hinst'),
    'plain': dict(dir='inst', crate='plain', package='hinst'),
    'order': dict(dir='inst', crate='order', package='hinst'),
    'attrs': dict(dir='inst', crate='attrs', package='hinst'),
    'shapes': dict(dir='inst', crate='shapes', package='hinst'),
    'facets': dict(dir='inst', crate='facets', package='hinst'),
    'simple': dict(dir='inst', crate='simple', package='hinst'),
    'two': dict(dir='inst', crate='two', package='hinst'),
    'wild': dict(dir='inst', crate='wild', package='hinst'),
    'cli': dict(dir='cli', crate='hcli'),
    'calls': dict(dir='inst', crate='calls', package='hinst'),
}
COMMON_ASSUMPTIONS = [
    'the optimised LLVM IR of the release profile (overflow checks on) stands for the source; replays run the real binary',
    'the allocator never fails; inputs outside the stated bounds are outside the claim',
]
ANY = 'every UTF-8 string of up to %s bytes'
NEAR = 'every string at most %s character edits (any ASCII character, or one of five multi-byte ones) away from the shapes in the harness, whose digits are free'


def f(fn, quick, thorough=None, reach=(1,), bound='', **k):
    return dict(fn=fn, quick=quick, thorough=thorough or quick, reach=list(reach), bound=bound, **k)


def lexical(t, any_q=5, any_t=6, near_q=1, near_t=2):
    """the three harnesses of a g* type: any text, text near a valid one, values printed and parsed"""
    return [
        f('h_%s_any' % t, str(any_q), str(any_t), [2], (ANY % any_q)),
        f('h_%s_near' % t, str(near_q), str(near_t), [1, 2], (NEAR % near_q)),
    ]


PLAN = {
    'T01': dict(group='types', fns=[
        f('h_tz', '6,2', '8,3', [1, 2], ANY % 6 + '; ' + NEAR % 2),
    ]),
    'T02': dict(group='types', fns=
        lexical('gday') + lexical('gmonth') + lexical('gmonthday') + [
            f('h_gday_rt', '0', None, [1, 2], 'all days in -128..127, every legal time zone'),
            f('h_gmonth_rt', '0', None, [1, 2], 'all months in -128..127, every legal time zone'),
            f('h_gmonthday_rt', '0', None, [1, 2], 'all months and days in -128..127, every legal time zone'),
        ]),
    'T03': dict(group='types', fns=
        lexical('gyear') + lexical('gyearmonth') + [
            f('h_gyear_rt', '0', None, [1, 2], '12 windows of 64 years, both signs, every legal time zone'),
            f('h_gyearmonth_rt', '0', None, [1, 2], '12 windows of 64 years, both signs, months -128..127, every legal time zone'),
        ]),
    'T04': dict(group='types', fns=[
        f('h_date_any', '5', '6', [2], ANY % 5),
        f('h_date_near', '0', '1', [1, 2], NEAR % 0),
        f('h_date_edit', '1', '2', [1, 2], NEAR % 1),
        f('h_date_rt', '2,1', '4,4', [1], '12 windows of 32 years with five month-day pairs, and every day of four years; four time zones'),
    ]),
    'T05': dict(group='types', fns=[
        f('h_time_any', '5', '6', [2], ANY % 5),
        f('h_time_near', '1', '2', [1, 2], NEAR % 1),
        f('h_time_rt', '5', None, [1], 'every whole second of the day with several windows of 250 fractions, every legal time zone'),
    ]),
    'T06': dict(group='types', fns=[
        f('h_datetime_any', '5', '6', [2], ANY % 5),
        f('h_datetime_near', '0', '1', [1, 2], NEAR % 0),
        f('h_datetime_edit', '1', '1', [1, 2], NEAR % 1),
        f('h_datetimestamp_near', '0', '1', [1, 2], NEAR % 0),
        f('h_datetimestamp_edit', '1', '1', [1, 2], NEAR % 1),
        f('h_datetime_rt', '2,1', '4,4', [1], 'one of day, time of day and offset is free, the other two take a few values'),
    ]),
    'T07': dict(group='types', fns=[
        f('h_duration_any', '4', '6', [1, 2], ANY % 4),
        f('h_duration_alpha', '6', '8', [1, 2], 'every string of up to 6 of the characters -PYMDTHS.07'),
        f('h_duration_near', '1', '2', [1, 2], NEAR % 1),
        f('h_duration_rt', '0', None, [1], 'three free components at a time, each 0, below 120, around 10^10 or close to 2^64; nine values of seconds'),
    ]),
    'T08': dict(group='types', fns=[
        f('h_duration_std', '0', None, [1, 2], 'every number of years and months below 2^64; days, hours and minutes in windows around zero, the overflow limits and 2^64; six values of seconds'),
    ]),
    'T09': dict(group='types', fns=[x for t, k in (('integer', [1]), ('nonpositive', [1, 2]), ('negative', [1, 2]), ('nonnegative', [1, 2]), ('positive', [1, 2])) for x in (
        f('h_' + t, '4,5,1', '5,7,2', [1, 2], ANY % 4 + '; every string of up to 5 sign, digit and underscore characters; ' + NEAR % 1),
        f('h_%s_rt' % t, '0', None, [1], 'windows of 200 values around 0, 2^64 and 10^35, both signs'),
        f('h_%s_long' % t, '0', None, k, 'numbers of up to 310 digits, two or more of them free, of every sign'))]),
    'T10': dict(group='types', fns=[
        f('h_decimal', '4,5,1', '5,7,2', [1, 2], ANY % 4 + '; every string of up to 5 sign, digit, dot, underscore and e characters; ' + NEAR % 1),
        f('h_decimal_long', '0', None, [1], 'numbers of up to 310 digits, some of them free, with the dot at several places'),
        f('h_decimal_rt', '0', None, [1], 'windows of 200 digits around 0, 2^64 and 1200, both signs, eight scales from -6 to 30'),
    ]),
    'T11': dict(group='types', fns=[
        f('h_duration_order', '4', '6', [1, 2, 3, 4], 'pairs of durations of both signs: 30 months, 3 years, 70 days around 0, 330 and 146060, 120 hours from 27 days, 10 minutes around 30 days, or values up to 2^64 of days, minutes or years, next to another component (quick: none, a day, half a second, a year and 86399.25 seconds; thorough: also a month and 24 hours, 1200 years)'),
        f('h_integer_order', '0', None, [1, 2, 3], 'pairs of values in windows of 6 at 0, 2^63, 2^64 and 2^100, both signs, for the five types of integers'),
        f('h_decimal_order', '0', None, [1, 2, 3], 'pairs of values in windows of 10 at 0, 995 and 2^64, both signs, with up to three fraction digits each'),
        f('h_instant_order', '0', None, [1, 2, 3], 'pairs of instants of three days, one with a free hour, minute or offset, the other of three times and offsets, for dateTime and dateTimeStamp'),
    ]),
    'G01': dict(group='gen', fns=[
        f('h_card', '0', None, [1, 2, 3, 4], 'every minOccurs of up to two digits or 2xx and maxOccurs of up to four digits, unbounded, or with two free digits near 2^8, 2^15, 2^16, 2^32 and 2^64, in every kind of content, for every way an element is declared, every name of three letters'),
    ]),
    'G02': dict(group='gen', fns=[
        f('h_attr', '0', None, [1, 2], 'every use, kind of type or reference, place (directly, in groups, groups of groups) and content of the type, every name of three letters'),
    ]),
    'G03': dict(group='gen', fns=[
        f('h_choice', '2', '3', [1, 2, 3], 'choices of up to two alternatives as content, in an extension and in a sequence, every name of three letters and a digit'),
        f('h_choice_seq', '0', None, [1], 'sequences of up to three elements or choices'),
    ]),
    'G04': dict(group='gen', fns=[
        f('h_ext', '0', None, [1], 'chains of three types in every order of declaration, each adding elements, attributes, groups or nothing; every letter in names that differ or contain one another'),
    ]),
    'G05': dict(group='gen', fns=[
        f('h_doc', '1', '2', [1], 'an annotation at one of 40 places, with one free character (any ASCII one, or one of four others), markup or a comment after five beginnings'),
        f('h_doc_kept', '1', '2', [1, 2], 'one free character, markup or a comment after five beginnings, with or without further elements of the annotation, at five kinds of places'),
    ]),
    'G06': dict(group='gen', fns=[
        f('h_name_field', '2,1', '3,2', [1, 2, 3, 4, 5], 'names of two characters (any ASCII one, or one of three others), every reserved word in two spellings with another character'),
        f('h_name_type', '1,0,2,1', '2,0,3,2', [1, 2, 3, 4, 5, 6], 'names of up to two characters, every reserved word in two spellings'),
    ]),
    'G07': dict(group='gen', fns=[
        f('h_builtin', '0', None, list(range(1, 11)), 'all 46 built-in types in eight positions, and types of the same names without prefix, every prefix of two letters, xs or none'),
    ]),
    'G08': dict(group='gen', fns=[
        f('h_enum', '1', '2', [1, 2, 3, 4, 5], 'enumerations of up to four values, one of them any letter, digit or dash, any reserved word or one of 16 longer values,, at four kinds of places'),
    ]),
    'G09': dict(group='gen', fns=[
        f('h_facets', '2', '2', [1, 2, 3], 'one or two facets with values of up to two digits and either sign, on six base types'),
    ]),
    'G10': dict(group='gen', fns=[
        f('h_union', '3', '4', [1, 2, 3], 'up to three named and two anonymous members, own types with or without prefix and with names of one letter'),
        f('h_list', '0', None, [1], 'six kinds of item types'),
    ]),
    'G11': dict(group='gen', fns=[
        f('h_nested', '1', '2', [1], 'anonymous types nested up to three deep, up to two in each type'),
    ]),
    'G12': dict(group='gen', fns=[
        f('h_ns', '0', None, [1, 2, 3], 'every target prefix of two letters, the default namespace, or none; another namespace of a name that differs from or resembles the target namespace'),
    ]),
    'G13': dict(group='gen', fns=[
        f('h_same', '3', '20', [1], 'schemas of eight or nine declarations, several hash seeds'),
        f('h_order', '0', None, [1], 'every exchange of two of nine declarations in three rotations'),
        f('h_layout', '0', None, [1, 2, 3, 4, 5], 'white space of two characters, comments and processing instructions before every tag, white space before every attribute'),
        f('h_again', '0', None, [1], 'two of 24 schemas generated in turns with one generator; target prefixes of one letter, the default namespace or none, three prefixes of XML Schema'),
    ]),
    'G14': dict(group='gen', fns=[
        f('h_noise', '0', None, [1, 2, 3, 4], 'one addition at any of 63 tags of a schema with every kind of declaration: one of 22 attributes of one of two other namespaces with three kinds of values, ids, defaults, fixed values, finality, identity constraints, application information; one or two free letters or a digit'),
    ]),
    'G15': dict(group='gen', fns=[
        f('h_custom', '0', None, list(range(1, 8)), 'a schema with every kind of declaration, or with documentation at one of six places; one or two of seven parts, one of five macros methods, one of 24 names, modules, modifiers, comments, nine indentations'),
    ]),
    'G16': dict(group='gen', fns=[
        f('h_wild', '0', None, [1, 2, 3, 4], 'one wildcard with any of five namespaces and three kinds of processing, numbers of one digit or documentation, or two plain wildcards, at any of 30 places in types of every kind'),
    ]),
    'M01': dict(group='macros', fns=[
        f('h_newtype', '4', '6', [1, 2], 'every UTF-8 string of up to 4 bytes and every string of up to 5 digits, signs and letters, texts of up to 2000 characters with a free one, for wrappers of six types'),
    ]),
    'M02': dict(group='macros', fns=[
        f('h_lists', '4', '6', [1, 2, 3], 'every UTF-8 string of up to 4 bytes for lists of text; every string of up to 4 characters of a small alphabet, white space included, for lists of four other types; lists of up to 300 words'),
    ]),
    'M03': dict(group='macros', fns=[
        f('h_member', '4', '5', [1], 'six unions of two to four members, every text of up to 4 characters of small alphabets or UTF-8 bytes; texts of up to 2000 characters with a free one'),
    ]),
    'M04': dict(group='macros', fns=[
        f('h_read', '2', '3', [1, 2], 'content of up to two pieces, each two characters of text, a reference, a CDATA section, a comment, a processing instruction or a space, for four types; two free digits in the texts of sixteen value types; texts of up to 2000 characters with a free one'),
        f('h_written', '2', '3', [1], 'every text of up to two bytes or characters of markup, every byte, lists of up to three, members of three unions; lists of up to 300 words and texts of up to 2000 characters'),
    ]),
    'E01': dict(group='order', fns=[
        f('h_item_read', '1', '2', [1], 'one of ten parts has every text of one character, every number of one digit, up to three items; three prefixes; four choices of the other optional parts'),
        f('h_item_written', '1', '2', [1], 'the same'),
    ]),
    'E02': dict(group='attrs', fns=[
        f('h_attrs_read', '1', '2', [1], 'one of nine attributes has every text of one character or every number of two digits, with or without the others'),
        f('h_attrs_written', '1', '2', [1], 'the same'),
    ]),
    'E03': dict(group='shapes', fns=[
        f('h_derived_read', '1', '2', [1], 'three types, one text of one character, one or two digits, up to three items'),
        f('h_derived_written', '1', '2', [1], 'the same'),
        f('h_choice_read', '1', '2', [1], 'two types, every alternative, every text of one character'),
        f('h_choice_written', '1', '2', [1, 2], 'the same, alternatives without attributes'),
        f('h_nested_read', '1', '1', [1], 'up to two layers with up to two items each, one text of one character'),
        f('h_nested_written', '1', '1', [1], 'the same'),
    ]),
    'E04': dict(group='facets', fns=[
        f('h_validate', '5', '6', [1, 2], 'every value of five integer types, every text of up to five bytes, eight floating point values, decimals of four digits, integers around the bounds'),
    ]),
    'E05': dict(group='names', fns=[
        f('h_names_read', '1', '2', [1], 'one of five parts has every text of one character, two digits or every variant; three prefixes'),
        f('h_names_written', '1', '2', [1], 'the same'),
    ]),
    'E06': dict(group='plain', fns=[
        f('h_values_read', '1', '3', [1], 'one of 28 elements has every text of one character or two free digits, with or without the others'),
        f('h_values_written', '1', '3', [1], 'the same'),
    ]),
    'E07': dict(group='simple', fns=[
        f('h_simple_read', '2', '3', [1], 'one of 15 parts has every text of up to two characters, every number of up to three digits, up to four items, every variant, with or without the others'),
        f('h_simple_written', '2', '3', [1], 'the same'),
    ]),
    'E08': dict(group='two', fns=[
        f('h_two_read', '1', '2', [1], 'six ways of declaring the two namespaces, one of nine parts with every text of one character, every number of two digits, up to three items or every variant'),
        f('h_two_written', '1', '2', [1], 'the same'),
    ]),
    'E09': dict(group='wild', fns=[
        f('h_wild_read', '1', '2', [1], 'two of ten kinds of places with an element or attribute of another namespace; five kinds of names, six kinds of content, texts of one character; three prefixes'),
    ]),
    'W01': dict(group='gen', fns=[
        f('h_wsdl', '1,1', '2,2', [1, 2, 3, 4], 'two or three operations in one or two port types, four kinds of operations, twenty layouts and orders of declarations; element, operation and prefix names of one letter, names of messages that contain each other or differ in case'),
    ]),
    'W02': dict(group='gen', fns=[
        f('h_wsdl_name', '2,1,1,0', '3,2,2,1', [1, 2, 3], 'operation names of two characters (any ASCII one, or one of three others), element names of one, every reserved word in two spellings'),
    ]),
    'W03': dict(group='gen', fns=[
        f('h_wsdl_doc', '2', '3', [1, 2], 'documentation at one of four places, with two free characters (any ASCII one, or one of four others), markup and comments after five beginnings'),
    ]),
    'W04': dict(group='gen', fns=[
        f('h_wsdl_same', '6', '40', [1], 'up to five port types and messages, several hash seeds'),
    ]),
    'W05': dict(group='calls', fns=[
        f('h_call', '2', '3', [1, 2, 3, 4, 5, 6], 'six operations; every text of up to two characters, every number of up to two digits, up to two items in the answer, answered or refused'),
    ]),
    'W06': dict(group='gen', fns=[
        f('h_wsdl_model', '0', None, [1, 2, 3, 4], 'documents of six parts (layout, names, the document and its imports, types and messages and port types, parts of messages, operations), of which any two are free; a free character in all other values'),
    ]),
    'L01': dict(group='cli', fns=[
        f('h_xsd_file', '3', '4', [1, 2], 'six kinds of documents with a free letter, ten combinations of names and forms of arguments, no output file, a new one, a longer or a shorter one, transfers of any size, of one, of seven or of 1000 bytes, interrupted or not; documents of up to 10 (thorough: 120) thousand bytes, code of up to 16 (thorough: 100) thousand'),
        f('h_xsd_tree', '0', None, [1], 'no document'),
        f('h_xsd_tree', '1', None, [1], 'one document in every position of five directories under six names with every kind of arguments and previous output (and no or two documents with fewer of these), both orders of directory entries, transfers of any size or of five bytes'),
        f('h_xsd_tree', '2,1', '2', [1], 'two documents'),
    ]),
    'L02': dict(group='cli', fns=[
        f('h_wsdl_file', '3', '4', [1, 2], 'six kinds of documents with a free letter, ten combinations of names and forms of arguments, no output file, a new one, a longer or a shorter one, transfers of any size, of one, of seven or of 1000 bytes, interrupted or not; documents of up to 10 (thorough: 120) thousand bytes, code of up to 16 (thorough: 100) thousand, none to three schemas, namespaces declared outside or inside of them'),
        f('h_wsdl_tree', '0', None, [1], 'no document'),
        f('h_wsdl_tree', '1', None, [1], 'one document in every position of five directories under six names with every kind of arguments and previous output (and no or two documents with fewer of these), both orders of directory entries, transfers of any size or of five bytes'),
        f('h_wsdl_tree', '2,1', '2', [1], 'two documents'),
    ]),
    'L03': dict(group='cli', fns=[
        f('h_xsd_fault', '120', None, [1, 2, 3], 'each single opening, reading, writing or creation, of a file or a directory of three, fails (the first 120 of them)'),
        f('h_wsdl_fault', '120', None, [1, 2, 3], 'the same'),
        f('h_xsd_bad', '0', None, [1, 2, 3, 4, 5], 'documents cut short, with wrong markup or a second root, missing inputs and output directories, with or without previous output'),
        f('h_wsdl_bad', '0', None, [1, 2, 3, 4, 5], 'the same'),
    ]),
}
