"""Text of the properties (properties.jsonl is generated from this by gen.py)."""
IMPL = 'src/scn/impl.h'
CPP = 'src/scn/impl.cpp'
SCAN = 'include/scn/scan.h'


def P(title, statement, text, why, files, mech, over=('inputs',), observe=('value, error code and remaining range of scn::scan',), state=()):
    assert len(title) <= 80, title
    return dict(title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=why,
                anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None,
                         **({'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]} if state else {})})


TEXT = {
    'P01': P('Integer scanning yields the exact value or the right range error',
             'Scanning an integer of any built-in type, in any base from 2 to 36, stores exactly the mathematical value denoted by the digits whenever that value is '
             'representable in the destination type. When it is not representable the scan fails with a positive or negative overflow error according to the sign, '
             'and nothing is stored; leading zeros and the number of digits never change the outcome.',
             'every digit string of any length, every base, every signed and unsigned destination type, narrow and wide sources',
             'The unit tests try a few dozen values near type limits; the value space is 2^64 per type and digit strings are unbounded.',
             [IMPL, CPP], [('digit accumulation, eight-at-a-time fast path, overflow check', CPP + ': parse_integer_value, parse_decimal_integer_fast_impl, check_integer_overflow'),
                           ('type dispatch', IMPL + ': reader_impl_for_int')]),
    'P02': P('Integer syntax: sign, base prefix and digits are consumed exactly',
             'An integer field accepts an optional sign, a base prefix only where its presentation allows one, and then digits of the effective base; it consumes exactly '
             'the longest such text and leaves everything after it in the source. Text that does not start with such a number is rejected with an invalid-value error, and a minus sign is rejected '
             'for unsigned destinations and for the unsigned presentation.',
             'every source text, every integer presentation, every destination type',
             'The tests list individual prefixes; combinations of sign, prefix, presentation, partial prefixes and following text are unbounded.',
             [IMPL, CPP], [('prefix and sign parsing', IMPL + ': parse_integer_prefix, parse_sign'), ('presentation handling', IMPL + ': reader_impl_for_int::read_specs')]),
    'P03': P('Whitespace skipping and word ends follow Pattern_White_Space',
             'Before a field that skips whitespace exactly the leading code points with the Unicode Pattern_White_Space property are skipped, and a word ends at the first such code point or '
             'at the end of the source. This holds for every position, length, and kind of source, for single- and multi-byte whitespace alike, and ill-formed bytes are never taken for whitespace.',
             'every source text of any length, narrow and wide, contiguous and not',
             'Fast paths process several bytes at a time and segments of a source separately; the tests sample a few strings and alignments.',
             [IMPL, CPP], [('eight-byte fast search', CPP + ': find_classic_impl, find_classic_space_narrow_fast, find_classic_nonspace_narrow_fast'),
                           ('segment and code point fallback', IMPL + ': read_until_classic_space, read_while_classic_space'), ('classification', SCAN + ': is_cp_space')]),
    'P04': P('Scanned strings are well-formed and transcoding preserves code points',
             'A scanned string holds exactly the code points of the source text it was read from, also when the destination uses another encoding form (UTF-8, UTF-32). Source text that is '
             'ill-formed (stray or missing continuation bytes, invalid lead bytes, truncated sequences, values beyond U+10FFFF) is rejected with an invalid-value error and never read past its end.',
             'every byte or code unit sequence of any length',
             'Tests use a handful of valid and invalid strings; sequences at buffer ends and mixed runs are not enumerated.',
             [IMPL, CPP, SCAN], [('decoding', IMPL + ': get_next_code_point, get_next_code_point_valid'), ('validation', IMPL + ': validate_unicode'),
                                 ('transcoding', IMPL + ': transcode_to_string, transcode_valid_to_string')]),
    'P05': P('Width and precision bound the columns a field spans',
             'A field with a precision of N never takes more than N columns from the source, fill included, and a character field takes the longest text that fits; East Asian wide and emoji '
             'code points count as two columns and are never split. A field with a width of N that spans fewer than N columns fails with a length error, and the fill characters its alignment calls for are skipped.',
             'every source text, width, precision, alignment, fill character and field type',
             'Tests cover a few combinations of width, fill and text; columns depend on every code point and on every interaction of prefix, value and suffix.',
             [IMPL], [('column counting', IMPL + ': calculate_text_width, calculate_valid_text_width'), ('bounded view', IMPL + ': take_width_view, counted_width_iterator'),
                      ('fill and width checks', IMPL + ': arg_reader, skip_fill, check_widths_for_arg_reader')]),
    'P06': P('Literal text in a format string must match the source exactly',
             'Literal text of a format string is consumed from the source code point by code point and the scan fails with an invalid-literal error at the first difference; doubled braces stand for one brace. '
             'A whitespace code point in the format string consumes all consecutive whitespace of the source, and possibly none when more of the format follows in the source.',
             'every pair of format string and source text',
             'Tests try a few literals; multi-byte text, doubled braces and runs of whitespace in combination are unbounded.',
             [CPP, SCAN], [('literal matching', CPP + ': format_handler_base/on_literal_text'), ('format string walk', SCAN + ': parse_format_string_impl')]),
    'P07': P('Character sets match exactly their members',
             'A character set field takes the longest non-empty run of code points that belong to the set (or, when inverted, that do not), with members given singly or as ranges over the whole of Unicode. '
             'If the first code point is not a member the scan fails, and nothing beyond the run is consumed.',
             'every character set specification and every source text',
             'The membership function is over 1.1 million code points and arbitrary range lists; tests try a few sets.',
             [IMPL, SCAN], [('membership', IMPL + ': character_set_reader_impl, nonascii_specs_handler'), ('set parsing', SCAN + ': character_set_parser, format_specs::charset_literals')]),
    'P08': P('Character and code point fields take exactly one character',
             'Scanning a character takes exactly the next code unit, without skipping whitespace, and scanning a code point takes exactly the next code point of the source. '
             'At the end of the source they fail with an end-of-input error, and an ill-formed sequence is rejected with an invalid-value error.',
             'every source text and every following text', 'Tests use a few characters; each of the code points and each malformed sequence at each buffer boundary is a case of its own.',
             [IMPL], [('character readers', IMPL + ': char_reader_base, code_unit_reader, code_point_reader'), ('bounded decode', IMPL + ': read_code_point_into')]),
    'P09': P('Boolean fields accept exactly true, false, 1 and 0',
             'Scanning a boolean accepts exactly the spellings its presentation allows ("true"/"false" for text, "1"/"0" for numeric, all four by default), stores the value spelled and consumes '
             'exactly that spelling. Any other text is rejected with an invalid-value error.',
             'every source text and presentation', 'Tests list spellings; near misses and truncated spellings at the end of a source are not enumerated.',
             [IMPL], [('boolean reader', IMPL + ': bool_reader_base, reader_impl_for_bool')]),
    'P10': P('Malformed format strings are rejected and never read out of bounds',
             'Every format string given at run time is either accepted according to the documented grammar or makes the scan fail with an invalid-format-string error before any argument is stored to by the offending field. '
             'Parsing it never reads outside the string, never aborts and always ends.',
             'every format string, well-formed or not', 'Fuzzing and tests sample format strings; the grammar of widths, precisions, fills, sets and argument ids nests freely.',
             [SCAN, CPP], [('grammar', SCAN + ': parse_format_string, parse_format_specs, parse_simple_int, parse_arg_id, parse_align, parse_width, parse_precision'),
                           ('presentation checks per type', SCAN + ': check_int_type_specs and siblings')], over=('inputs', 'programs')),
    'P11': P('Every argument is scanned exactly once, by the field that names it',
             'Automatic and manual argument indexing assign each replacement field to the argument its position or index names; a scan succeeds only if every argument was named exactly once. '
             'Mixing the two styles, naming an argument twice, naming one that does not exist and leaving one out are all rejected with an invalid-format-string error, for any number of arguments.',
             'every format string and every number and order of arguments', 'Tests use up to three arguments; bookkeeping changes representation with their number.',
             [SCAN, CPP], [('index bookkeeping', SCAN + ': basic_scan_parse_context::next_arg_id, check_arg_id'), ('visited arguments', CPP + ': format_handler, specs_checker')], over=('inputs', 'programs')),
    'P12': P('Floating-point values are correctly rounded and consumption is exact',
             'Scanning a floating-point number stores the correctly rounded value of the longest text that forms a number in the accepted syntax, and leaves the rest in the source. '
             'Magnitudes too large or too small for the type are reported as overflow or underflow errors by sign, and text that is not a number is rejected.',
             'every source text, destination type and presentation', 'Rounding and the split between number and following text depend on every digit; tests try a few values.',
             [IMPL, CPP], [('syntax scan', IMPL + ': float_reader'), ('conversion', CPP + ': impl_base, cstd impl, parse_float_value')]),
    'P13': P('The result does not depend on the kind of source',
             'The same text scanned with the same format gives the same values, the same error code and the same number of consumed characters whether it is held in a string, a view, '
             'a non-contiguous container or a file. Splitting the text between internal buffers is never observable.',
             'every source text, format and kind of source', 'Tests use mostly string sources; segment boundaries can fall at every position of every construct.',
             [SCAN, IMPL, CPP], [('buffers', SCAN + ': basic_scan_buffer, forward_iterator, basic_scan_ref_buffer, basic_scan_forward_buffer'), ('file buffer', IMPL + ': scan_file_buffer')],
             over=('inputs', 'configurations')),
    'P14': P('The remaining range is exactly the unread suffix',
             'A successful scan returns as remaining range exactly the suffix of the source that follows the consumed text, so scanning field by field through the remaining range gives the same values as one scan of all fields. '
             'A file is left positioned at the first character that was not consumed.',
             'every sequence of scans over every source text', 'Tests continue from a result a few times on fixed text; every split of every text is a history of its own.',
             [SCAN, CPP], [('result range', SCAN + ': make_scan_result, scan_result'), ('single-argument fast paths', CPP + ': vscan_impl, scan_int_impl'), ('putback and sync', CPP + ': scan_file_buffer::sync')], over=('inputs', 'histories')),
    'P15': P('Date and time fields are stored exactly and only within their ranges',
             'Scanning a date or time stores, for each conversion in the format, the number spelled in the source, interpreted as the C library documents it (year base, month base, 12-hour clock, weekday numbering). '
             'A number outside the range of its field, or one contradicting an earlier field of the same kind, is rejected instead of stored.',
             'every chrono format string and source text', 'Tests try individual conversions with one value each.',
             ['include/scn/chrono.h', CPP], [('field setters', CPP + ': setter_state, tm_setter, chrono readers')]),
    'P16': P('Localized numbers: separators are skipped, the value is that of the digits',
             'With the localized option `L`, thousands separators of the locale may stand among the digits of an integer, or of the integral part of a floating-point number: they are consumed '
             'but contribute nothing, so the value, or the range error, is that of the digits without them, and the locale\'s decimal point is the one accepted. '
             'A locale without grouping has no separator, and without `L` a separator ends the number and the point is always ".".',
             'every locale (separator, grouping, decimal point), source text and numeric presentation',
             'Locales and digit strings are unbounded; tests use one or two locales and a few numbers.',
             [IMPL, CPP], [('separator removal, integers', IMPL + ': parse_integer_digits_with_thsep, reader_impl_for_int::read_specs'),
                           ('separator removal, floats', IMPL + ': float_reader::read_dec_digits, float_reader::handle_separators'),
                           ('locale facets', IMPL + ': localized_number_formatting_options')], over=('inputs', 'configurations')),
}
