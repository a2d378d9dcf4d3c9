"""What decides each property: contracts (units) and the bounded stand-in (native)."""

TRUSTED_BASE = [
    'clang 18 front end and the -O1 scalar passes named in irvc/build.py (source to IR)',
    'irvc: the obligation generator in this repository (IR semantics, memory model, loop cutting)',
    'z3 (SMT back end)',
    'libstdc++ headers as compiled (inlined into the IR and verified with it; out-of-line parts only by stated contract)',
]
COMMON_ASSUMPTIONS = [
    'a source holds at most 2^40 code units (precondition of every buffer contract)',
    'the verified text is the LLVM IR that clang 18 emits from /repo on this run for the entry points in harness/*.cpp; the extraction drops debug info, '
    'exception landing pads of calls assumed not to throw (allocation failure is not modelled) and assume intrinsics',
    'x86-64 Linux: char is signed 8 bit, wchar_t 32 bit; library built with SCN_DISABLE_FAST_FLOAT as in /opt/vp/build.sh',
    'machine integers are exact bit vectors; nothing is treated as mathematical integers except where a ghost function says so',
    'the bounded stand-in exercises the public interface on the stated finite set of inputs only and is never counted as proved',
]

INT_Q = ['Eight', 'IsEight', 'Int_c_i32_10', 'Int_c_u64_10', 'Int_c_i64_10', 'Int_c_i64_16', 'Int_c_u64_2', 'Int_c_i8_36', 'Int_w_i32_10', 'Int_c_u32_8']


def int_specs(M, tier):
    if tier == 'quick':
        return INT_Q
    out = list(INT_Q)
    for ch in 'cw':
        for t in ('i8', 'i16', 'i32', 'i64', 'ill', 'u8', 'u16', 'u32', 'u64', 'ull'):
            for b in (2, 8, 10, 16, 36) + ((3, 5, 7, 11, 19, 29) if t in ('i32', 'u64') and ch == 'c' else ()):
                n = f'Int_{ch}_{t}_{b}'
                if n not in out:
                    out.append(n)
    return out


PROPS = {
    'P01': dict(
        units=[dict(harness='ints.cpp', module='ints', specs=int_specs, timeout_ms=60000),
               dict(harness='tables.cpp', module='tables', specs=['MaxDigits', 'MinSafe'])],
        native='p01.cpp', shards=4,
        bound='digit strings around every type limit and power of the base, all bases 2..36, all ten integer types, narrow/wide/non-contiguous sources, up to 70 digits',
        note='Proved for all digit strings of any length: value parser (narrow and wide), eight-digit step. Bounded: sign/prefix dispatch and type erasure around it.',
        assumptions=['base and type are enumerated (quick: a representative set; thorough: every type in bases 2, 8, 10, 16, 36 and more)',
                     'sign detection and prefixes in front of the digits are covered by P02'],
    ),
    'P02': dict(
        units=[dict(harness='prefix.cpp', module='prefix', specs=['Sign', 'WSign', 'CharToInt', 'WCharToInt', 'SpecsBase', 'Prefix', 'WPrefix']),
               dict(harness='intread.cpp', module='prefix', specs=['ReadDefault', 'ReadDefaultU64', 'ReadDefaultW', 'Read', 'ReadU64', 'ReadW'])],
        note='Proved for all texts over contiguous sources: sign, prefix, digit classification, and the whole integer reader (value parser by its P01 contract). Bounded: other kinds of source, type erasure.',
        native='p02.cpp', shards=4,
        bound='all words up to 5 symbols (6 thorough) over the characters that matter to integer syntax, all presentations, several destination types, contiguous and not',
    ),
    'P03': dict(
        units=[dict(harness='text.cpp', module='text', specs=['IsSpace', 'IsAsciiSpace', 'IsAsciiWSpace', 'FindSpace', 'FindNonspace'])],
        note='Proved for all texts: both eight-byte searches and the classification. Bounded: the non-contiguous and wide fallbacks around them.',
        native='p03.cpp', shards=4,
        bound='all words up to 4 symbols (5 thorough) over 12 symbol classes; one special symbol at every place of runs up to 40; every BMP code point as separator',
    ),
    'P04': dict(
        units=[dict(harness='text.cpp', module='text', specs=['NextCp', 'NextWcp', 'Validate', 'WValidate', 'Transcode32to8', 'Transcode8to32'])],
        note='Proved for all texts: decoding, validation, both transcoding directions (append of libstdc++ strings trusted). Bounded: the readers that call them.',
        native='p04.cpp', shards=4,
        bound='all words up to 4 symbols (5 thorough) over 18 byte/sequence classes, all byte pairs, sampled (thorough: all) code points, 20 000 random strings per shard',
    ),
    'P05': dict(
        units=[dict(harness='text.cpp', module='text', specs=['CpWidth', 'CpWidthAny', 'TextWidth', 'NextCp'])],
        note='Proved for all texts: column width of code points and of text. Bounded: the width-limited view and fill handling.',
        native='p05.cpp', shards=4,
        bound='all words up to 4 symbols (5 thorough) over 8 symbol classes against width 0..4, precision 0..5, 4 types, 3 alignments, 4 fills; lengths and precisions to 60',
    ),
    'P08': dict(
        units=[dict(harness='simple.cpp', module='simple', specs=['Char', 'WCharW', 'CodePoint', 'CodePointW', 'WCharC'])],
        note='Proved for all texts over contiguous sources: the char, wchar_t and char32_t readers of both character types. Bounded: other kinds of source, type erasure.',
        native='p08.cpp', shards=4,
        bound='every code point class, all byte pairs and malformed sequences at each place, every kind of source',
    ),
    'P09': dict(
        units=[dict(harness='simple.cpp', module='simple', specs=['Bool', 'BoolDefault', 'BoolW', 'BoolDefaultW'])],
        note='Proved for all texts over contiguous sources: the boolean reader with every presentation, narrow and wide. Bounded: localized names, other kinds of source, type erasure.',
        native='p09.cpp', shards=4,
        bound='all words up to 5 symbols over the letters of the spellings and near misses, all presentations, every kind of source',
    ),
    'P06': dict(
        units=[dict(harness='literal.cpp', module='literal', specs=['Literal', 'LiteralW']),
               dict(harness='fmtwalk.cpp', module='fmt', specs=lambda M, t: ['SimpleInt', 'Walk'] + (['SimpleIntW', 'WalkW'] if t != 'quick' else []))],
        note='Proved for every pair of format text and contiguous source: matching of literal text (whitespace search by its P03 contract), and which text the walk over the format string hands to it. Bounded: non-contiguous sources.',
        native='p06.cpp', shards=4,
        bound='all pairs of format and source words up to the stated length over literals, doubled braces, one- and multi-byte whitespace, multi-byte text and fields; narrow, wide, non-contiguous',
    ),
    'P07': dict(
        units=[dict(harness='fmtspecs.cpp', module='specs', specs=['CharSet', 'CharSetW', 'StoreSingle', 'StoreRange']),
               dict(harness='charset.cpp', module='charset', specs=['UntilUnit', 'WhileUnit', 'UntilUnitW', 'WhileUnitW', 'UntilPoint', 'WhilePoint', 'UntilPointW', 'WhilePointW',
                    'Has', 'HasW', 'LitHas', 'LitHasW', 'Add', 'AddOne', 'SetRead', 'SetReadW'])],
        note='Proved for every set specification: what its text denotes (members, ranges, inversion), storing of ASCII members and of ranges, membership, the run of matching characters over contiguous sources (ASCII sets whole; other sets with an arbitrary predicate). Bounded: other kinds of source, the reader that joins these for sets with non-ASCII members, type erasure.',
        native='p07.cpp', shards=4,
        bound='sets with a boundary at each of 400 code points (all of U+0001..U+017F and encoding-length edges) against neighbours, 6000 (thorough: 60 000) random sets per shard with six texts each, ill-formed text, narrow, wide and non-contiguous',
    ),
    'P10': dict(
        units=[dict(harness='fmtwalk.cpp', module='fmt', specs=lambda M, t: ['SimpleInt', 'SimpleIntW', 'Walk'] + (['WalkW'] if t != 'quick' else [])),
               dict(harness='fmtspecs.cpp', module='specs', specs=lambda M, t: ['Align', 'AlignW', 'Width', 'WidthW', 'Prec', 'PrecW', 'Specs', 'SpecsW', 'StoreWidth', 'StorePrec', 'Regex'] + M.CHECKS
                    + (['RegexW', 'CharSet', 'CharSetW'] if t != 'quick' else []))],
        note='Proved for every format string: the walk over text and fields, field numbers, alignment, fill, width, precision, presentation, regex flags, and the per-type rules on what a field may ask for (callees by contract). Bounded: compilation of regular expressions (std::regex), type erasure.',
        native='p10.cpp', shards=4,
        bound='all words up to 4 symbols (5 thorough) over the characters of the grammar inside and around a field, products of fills, widths, precisions and presentations, 40 000 (thorough: 400 000) random byte strings per shard; eight destination types',
    ),
    'P11': dict(
        units=[dict(harness='fmtwalk.cpp', module='fmt', specs=['SimpleInt', 'Walk']),
               dict(harness='args.cpp', module='args', specs=['Visit', 'Exhausted', 'NextId', 'NextNextId', 'CheckId', 'CheckNextId', 'NextCheckId'])],
        note='Proved for every number of arguments and every id: argument lookup and type dispatch, automatic numbering, manual ids and the ban on mixing them. The walk over the format string names exactly the ids written there. Bounded: type erasure around it.',
        native='p11.cpp', shards=4,
        bound='every list of up to N+1 fields over automatic and manual ids for N up to 3 arguments; permutations, duplicates, omissions and far ids for 4, 8, 64, 65, 71 and 72 arguments; narrow, wide, non-contiguous',
    ),
    'P12': dict(
        units=[dict(harness='floatrun.cpp', module='floats', specs=lambda M, t: ['Digits', 'HexDigits', 'Exponent'] + (['DigitsW', 'HexDigitsW', 'ExponentW'] if t != 'quick' else []), timeout_ms=60000),
               dict(harness='floats.cpp', module='floats', specs=['Regular', 'RegularW', 'Hex', 'HexW', 'Inf', 'InfW', 'Nan', 'NanW', 'Options', 'Parse', 'ParseF', 'ParseL', 'ParseW', 'Value', 'ValueF', 'ValueL', 'ValueW'], timeout_ms=60000),
               dict(harness='floatsrc.cpp', module='floats', specs=['Source', 'SourceW', 'Dispatch', 'DispatchF', 'DispatchL', 'DispatchW'], timeout_ms=60000)],
        note='Proved for every text over contiguous sources: digit runs, point, exponent, hexadecimal, infinity and not-a-number syntax, choice of syntax by presentation and prefix, what is handed to the conversion, and how its outcome (value, sign, count, range) is reported. Trusted: strtod and its relatives round correctly and stop where C says. Bounded: the copy with terminator made for strtod, other kinds of source, type erasure; conversion against glibc on the stated set.',
        native='p12.cpp', shards=4,
        bound='all words up to 4 symbols (5 thorough) over the characters that matter to the syntax, five presentations, float, double and long double, narrow, wide and non-contiguous; limits of each type, powers of ten, random values, exact midpoints of adjacent values and their neighbours, up to 800 digits',
        assumptions=['strtof, strtod, strtold, wcstof, wcstod, wcstold convert with correct rounding, report ERANGE as C says and store how far they read (assumed contract; compared with glibc on the bounded set only)'],
    ),
    'P13': dict(
        units=[dict(harness='buffers.cpp', module='buffers', specs=lambda M, t: ['CharAt', 'Segment', 'ItSegment', 'AtEnd', 'Deref', 'Next', 'FwdFill', 'RefFill', 'RefInit', 'FileFill', 'GnuBuffer', 'GnuAdvance', 'GnuFill']
                    + ([n + 'W' for n in ('CharAt', 'Segment', 'ItSegment', 'AtEnd', 'Deref', 'Next', 'FwdFill', 'RefFill', 'RefInit')] if t != 'quick' else []), timeout_ms=60000)],
        note='Proved for every buffer state and position: the iterator every reader uses sees exactly the text of the source (putback area followed by the current view), asks for more exactly at its end, and each kind of buffer (forward range, file, nested reference to another buffer) keeps that text across a fill and appends exactly what the source held next. The readers themselves over contiguous text: P01 to P12. Bounded: that every reader gives the same result over such an iterator as over contiguous text; termination of the fill loops.',
        native='p13.cpp', shards=4,
        bound='the whole set of formats and types of native/p13.cpp over every text of its alphabet, compared between string, view, deque, list, files of several buffer sizes, and nested scans of user types; narrow and wide',
        assumptions=['a source yields the same characters whenever it is read again from the same iterator (forward range)', 'stdio functions behave as the C standard says (getc, fread, ungetc: assumed contracts)'],
    ),
    'P14': dict(
        units=[dict(harness='buffers.cpp', module='buffers', specs=['FileSync', 'FileFill', 'GnuBuffer', 'GnuAdvance', 'GnuFill', 'GnuPutback', 'StdPutback', 'StdRead', 'After', 'RestView', 'RestFwd', 'RestArray'], timeout_ms=60000)],
        note='Proved for every buffer state: the remaining range is made at exactly the consumed position for views, forward ranges and arrays; a file buffer gives back exactly the characters after that position, in order, through either stdio interface, and the sync after a scan is asked for that position. Bounded: which position each reader ends on (P01 to P12 prove it over contiguous text), and stdio itself.',
        native='p14.cpp', shards=4,
        bound='every split of every text of native/p14.cpp between fields, scanned at once and field by field, over strings, views, containers and files (position and next character of the file), buffered and unbuffered',
        assumptions=['stdio functions behave as the C standard says (getc, ungetc, fread: assumed contracts)'],
    ),
    'P15': dict(
        units=[dict(harness='chrono.cpp', module='chrono', specs=lambda M, t: M.QUICK)],
        note='Proved for every member value and every pair/year combination: the setters and the combination of century, year, hour, am/pm and time zone of tm and datetime_components. Bounded: text of the fields (names, digits) and the format walk.',
        native='p15.cpp', shards=4,
        bound='every conversion with every value of one and two digits and years, months and weekdays by name, combinations of conversions, malformed and truncated texts',
    ),
    'P16': dict(
        units=[dict(harness='localized.cpp', module='localized', specs=['Thsep', 'ThsepW'], timeout_ms=60000),
               dict(harness='localread.cpp', module='localized', specs=['LRead', 'LReadU64', 'LReadW'], timeout_ms=60000),
               dict(harness='floatsep.cpp', module='localized', specs=lambda M, t: ['Handle', 'Erase'] + (['HandleW', 'EraseW'] if t != 'quick' else []), timeout_ms=60000),
               dict(harness='floatrun.cpp', module='floats', specs=lambda M, t: ['Digits', 'HexDigits'] + (['DigitsW', 'HexDigitsW'] if t != 'quick' else []), timeout_ms=60000),
               dict(harness='floats.cpp', module='floats', specs=['Regular', 'Hex', 'Options'], timeout_ms=60000)],
        note='Proved for every text, separator and point over contiguous sources: the digits of an integer without its separators, in order, and how many separators there were; sign, prefix, value or range error and end of the localized integer; digit runs with separators and the point of floating-point numbers; removal of the separators and replacement of the point before the conversion, in place. Trusted: libstdc++ strings and std::find, the conversion itself (P12). Bounded: reading separator and point out of the locale, non-contiguous sources, type erasure.',
        native='p16.cpp', shards=4,
        bound='all words up to 5 symbols (6 thorough) over digits, separators, points, signs and prefixes, eight locales (with and without grouping, separators outside ASCII in wide text), with and without L, integers of every presentation and floating-point numbers',
        assumptions=['libstdc++ strings: push_back appends, a copy has the same text, erase removes the given part; std::find gives the first match', 'the facet numpunct of the locale gives the separator, grouping and point that the locale has'],
    ),
}

TODO = 'not built yet'
NOT_APPLICABLE = {}

import proptext
for _k, _v in PROPS.items():
    _v['title'] = proptext.TEXT[_k]['title']
