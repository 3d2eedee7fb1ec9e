"""Registry: every property, its text, and the harness jobs that decide it."""
PROPS = {}
TECH = "bounded-exhaustive model checking: complete enumeration of executions of the real code against an independent reference model"
NOTE = "Exhaustive within the stated bounds: every execution of the enumerated space is run on the real code and compared step by step with a reference model that shares no code with strf. Outside the bounds it rests on the small-scope argument in DESIGN.md. Trusted: g++ 13, the reference model, the harness runtime."


def prop(pid, title, statement, over, text, why, files, mechanism, jobs, bounds, technique=TECH, note=NOTE, assumptions=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=[dict(name=a, where=b) for a, b in mechanism],
                      jobs=jobs, bounds=bounds, technique=technique, note=note, assumptions=assumptions or [])


def J(name, src, *defs, **kw):
    return dict(name=name, src=src, defs=list(defs), **kw)


UTF_FILES = ["include/strf/detail/utf.hpp", "include/strf/detail/facets/charset.hpp"]

prop("C01", "UTF transcoding and sanitizing conform to the Unicode standard",
     "For every input sequence (well-formed or not) of UTF-8, UTF-16 or UTF-32 units, transcoding to or sanitizing in any of the three UTFs yields the code points of the input, with each maximal ill-formed subpart (Unicode D93b / Table 3-7 practice) replaced by exactly one U+FFFD. Each ill-formed subpart is reported to the error notifier once, in order, with its exact position and length, and no other report is made. The flags do exactly what they say: lax surrogates are passed through as code points, and stop-on-invalid stops at the first unit of the first ill-formed subpart with that stop reason.",
     ["inputs", "configurations"],
     "every sequence of code units, over all ordered pairs of UTF-8/16/32 with every character type, all eight flag combinations",
     "the tests transcode a few dozen hand-picked sequences; ill-formed input is a combinatorial space in which each boundary (E0/ED/F0/F4 second bytes, truncation, surrogate halves at the end) has its own branch in each of nine transcoders",
     UTF_FILES, [("nine static_transcoder specializations (transcode)", "include/strf/detail/utf.hpp"), ("transcode flags / stop reasons", "include/strf/detail/facets/charset.hpp")],
     [J("utf1", "utf.cpp", "MODE=1", opt="-O2")],
     "UTF-8: all 1- and 2-byte words over all 256 bytes, all words up to length 5 over a boundary alphabet (Table 3-7 edges); UTF-16/32: all single units, all words up to length 5 over boundary alphabets; every scalar value; words of 15..65 units with one special unit at each position; x 9 transcoders x character types x 8 flag sets; output room exactly what is needed, both ends against inaccessible pages")
prop("C02", "Transcoding respects output limits, computes sizes and resumes exactly",
     "For every input, flags and output capacity, transcoding never reads or writes outside the given ranges, stops with 'insufficient space' exactly when the next whole character does not fit, and leaves the source position at that character, so restarting there with fresh room yields exactly the uninterrupted output. transcode_size reports, for every limit, the same size, source position and stop reason as a transcode into a buffer of that many units.",
     ["inputs", "histories", "configurations"],
     "every input word, every capacity from 0 to more than enough, every sequence of equal restarts, all UTF pairs and flags",
     "tests use a handful of capacities; off-by-one errors show only for particular (character length, remaining room) pairs of one transcoder, and the size functions are separate implementations of the same loop",
     UTF_FILES, [("transcode / transcode_size of every static_transcoder", "include/strf/detail/utf.hpp")],
     [J("utf2", "utf.cpp", "MODE=2", opt="-O2")],
     "words up to length 4 over boundary alphabets; every capacity 0..needed+1, every size limit, restart windows of 1..4 units; x 9 transcoders x character types x 8 flag sets; guard pages at both ends")
prop("C03", "Unsafe transcoding equals safe transcoding on valid input",
     "On every input that is valid for its encoding, unsafe_transcode and unsafe_transcode_size produce exactly the output, size, source position and stop reason that the checked functions produce, for every output capacity and every flag combination.",
     ["inputs", "configurations"],
     "every valid input word, every capacity, all UTF pairs, all flags",
     "the unsafe variants are separately written loops that the tests exercise with a few strings and ample room",
     UTF_FILES, [("unsafe_transcode / unsafe_transcode_size of every static_transcoder", "include/strf/detail/utf.hpp")],
     [J("utf3", "utf.cpp", "MODE=3", opt="-O2")],
     "all valid words up to length 4 (UTF-8: up to 4 characters) over boundary alphabets, every scalar value; every capacity 0..needed+1; x 9 transcoders x character types x 8 flag sets")
prop("C04", "Single-byte charsets map exactly as standardized, in both directions",
     "For every supported single-byte charset, each byte decodes to the code point assigned by the published mapping (unassigned bytes are invalid), and each code point encodes to that byte or, if the charset has none, is reported as unsupported and replaced by '?'. Surrogates and values above U+10FFFF are reported as invalid, not unsupported. Capacities, sizes, restarts, stop reasons and flags behave as for UTFs.",
     ["inputs", "configurations"],
     "all 256 bytes and all code points of each of the 29 single-byte charsets, with every capacity and flag combination",
     "the tests spot-check tables; an encoder that accepts one wrong code point in a million passes them",
     ["include/strf/detail/single_byte_charsets.hpp"], [("single-byte decode/encode tables and transcoders", "include/strf/detail/single_byte_charsets.hpp")],
     [J("sb%d" % i, "sb.cpp", "PART=%d" % i, opt="-O1") for i in range(4)],
     "29 charsets x (all 256 bytes in 4 contexts, words up to length 3 over boundary bytes, every code point 0..0x1100FF, words up to length 3 over boundary code points, words of 15..65 units with one special unit anywhere) x 8 flags x every capacity; char, char8_t, char32_t, wchar_t",
     assumptions=["the mapping tables of CPython's codecs (generated once into mc/data/sbtables.hpp) are the published ones"])
prop("C05", "Charset objects agree with the encodings they stand for",
     "For every charset, in its static and its dynamic form and through its function pointers, encoding one code point (or N copies of it, into a destination with any buffer geometry, refilled only when the next character does not fit), its size, validation, the replacement character, decoding of a single unit, and counting of code points agree with the encoding: unencodable code points become the replacement character, surrogates are written but do not validate, and counting gives the number of code points that transcoding yields and the position after the last one counted. Every transcoder a charset hands out (to and from UTF-32, sanitizer, by charset id) converts between exactly the named encodings.",
     ["inputs", "configurations"],
     "every code point, every code unit, every word over boundary alphabets, every charset (3 UTFs x 5 character types, 29 single-byte charsets), every buffer geometry for fills",
     "the tests check a few code points per charset and fills of one or two sizes; the fill loops have separate branches per encoded length and per remaining buffer room",
     ["include/strf/detail/facets/charset.hpp", "include/strf/detail/utf.hpp", "include/strf/detail/single_byte_charsets.hpp"],
     [("static_charset / dynamic_charset", "include/strf/detail/facets/charset.hpp"), ("encode_fill, count_codepoints", "include/strf/detail/utf.hpp")],
     [J("cs%d" % i, "charset.cpp", "PART=%d" % i, opt="-O1") for i in range(4)],
     "all code points 0..0x1100FF plus large values; all units; fills of 0..40, 63..66, 127..129, 200, 333 copies x 17 code points x 18 initial buffer rooms x 4 chunk sizes x 4 fault positions; counting on all words to length 5 (UTF) / 3 (single-byte) and runs to 65 x every limit; every (charset, charset id, character type) transcoder lookup checked against the model")
prop("C06", "Transcoding between any two charsets, direct or through UTF-32",
     "Transcoding between any pair of charsets, given statically or dynamically, with or without a direct transcoder, into a memory range, into a destination, or measuring only, yields what decoding to code points and re-encoding them yields, with the same stop reason. The reported stale source position plus code point distance always denotes the character at which the operation stopped. Into a destination, everything that fits before the destination fails is written, nothing after, and the count of units is exact; ill-formed and unsupported characters are reported in order.",
     ["inputs", "configurations", "fault_sequences"],
     "every input word over boundary alphabets at every offset around the internal pivot buffer sizes, every capacity, every destination geometry and failure point, all flag sets",
     "tests use one pair of single-byte charsets and a couple of strings; wrong positions or lost characters appear only at particular alignments of an ill-formed or long character to a 16-character pivot or to the end of an output chunk",
     ["include/strf/detail/facets/charset.hpp"], [("decode_encode, transcode, transcode_size and unsafe_ variants", "include/strf/detail/facets/charset.hpp")],
     [J("piv%d" % i, "pivot.cpp", "PART=%d" % i, opt="-O1") for i in range(6)],
     "17 charset pairs, most in 4 static/dynamic forms; all words to length 3 over boundary alphabets, each length-1 (and some length-2) word behind 16 prefix lengths 1..65 with and without a tail, repeated 20 times; every capacity (short words) or boundary capacities; ~13 initial rooms x 2 chunk sizes x 3 failure points; 8 flag sets",
     assumptions=["error reports may repeat where a pivot or output buffer is refilled (the tests require a report even when the replacement does not fit)"])

DST_OPS = "17 operations (put, write of 1..150 units or of nothing, ensure + fill + advance, filling the whole buffer, output iterator, flush, printing strings, fills, integers and mixtures)"
prop("C07", "Fixed-capacity destinations never overflow and report truncation exactly",
     "Writing any sequence of pieces to a fixed-capacity destination (C string, array, range; also through strf::to and strf::to_range) leaves exactly the first min(written, capacity) units in it when the pieces are single units or plain writes, and a prefix of what was printed otherwise. truncated is true if and only if something did not fit. The end pointer is right behind the last unit kept, C strings are null-terminated there, memory outside the range is never touched, buffer_space is the room left, good() turns false exactly at the overflow and stays so, and whatever is written afterwards is discarded. The discarder accepts everything and is never good.",
     ["histories", "configurations"],
     "every sequence of destination operations up to the depth, every capacity, every constructor, every character type",
     "the tests write one or two pieces at one or two capacities; the defects lie in writes that follow an overflow, in exact fits, and in mixtures of the write paths",
     ["include/strf/destination.hpp", "include/strf/iterator.hpp", "include/strf/output_buffer_functions.hpp", "include/strf/printing_syntax.hpp"],
     [("basic_cstr_destination, array_destination, discarder", "include/strf/destination.hpp"), ("to, to_range", "include/strf/printing_syntax.hpp")],
     [J("fix0", "dest.cpp", "MODE=7", "PART=0"), J("fix1", "dest.cpp", "MODE=7", "PART=1")],
     "all operation sequences to depth 4 (char; thorough 5) / 3 (other character types) over " + DST_OPS + " x 20 capacities (0..13, around 64 and 128) x 7 destination kinds, placed against a guard page at either end; strings of 0..140 units x capacities 0..140 x 4 user-level forms")
prop("C08", "String destinations keep everything written, in order, under any reserve policy",
     "For every sequence of writes, string appenders, string makers and sized string makers (with any size hint) and strf::append, assign and to_string (with any reserve policy) yield the original content (append) followed by exactly the units written, in order, nothing else. An appender without finish() appends the rest when destroyed. After finish() the destination is not good, and whatever is written then changes nothing. If an allocation fails, the exception propagates, the appender or maker is no longer good, and the string never has a gap: it is the original content followed by a prefix of what was written.",
     ["histories", "configurations", "fault_sequences"],
     "every sequence of destination operations up to the depth, every size hint and reserve policy, every allocation of the history failing (once or from then on)",
     "tests never fail an allocation and write pieces of a few fixed sizes; the internal 64-unit buffer makes behaviour depend on the exact sizes and order of the pieces",
     ["include/strf/to_string.hpp", "include/strf/detail/reserve_policies.hpp", "include/strf/destination.hpp"],
     [("basic_string_appender, basic_string_maker, basic_sized_string_maker", "include/strf/to_string.hpp"), ("reserve policies", "include/strf/detail/reserve_policies.hpp")],
     [J("str0", "dest.cpp", "MODE=8", "PART=0"), J("str1", "dest.cpp", "MODE=8", "PART=1", san=True)],
     "all operation sequences to depth 4 (char; thorough 5) / 3 over " + DST_OPS + " x 3 initial contents x 9 size hints x 6 ways to use the objects; all sequences to depth 3 / 2 x each of the first 7 allocations failing, once or for good; 12 user-level forms x 201 x 5 sizes; other character types under AddressSanitizer and UBSan")
prop("C09", "streambuf writers deliver exactly, count exactly and stop at the first failure",
     "For every sequence of writes and every behaviour of the streambuf (accepting only part of a write, or throwing at any call), the streambuf receives a prefix of what was written, in order and without gaps or repetition; everything if it never fails. After a failure the writer is not good and offers nothing more. finish() (and strf::to) returns the number of units accepted and success if and only if nothing failed. A writer that is destroyed without finish() flushes and lets no exception escape.",
     ["histories", "fault_sequences", "configurations"],
     "every sequence of destination operations up to the depth, every capacity at which the streambuf stops accepting, every call at which it throws",
     "tests fail the streambuf at one or two points; what matters is the combination of the failing point with buffered and direct writes",
     ["include/strf/to_streambuf.hpp"], [("basic_streambuf_writer", "include/strf/to_streambuf.hpp")],
     [J("sbuf0", "dest.cpp", "MODE=9", "PART=0"), J("sbuf1", "dest.cpp", "MODE=9", "PART=1")],
     "all operation sequences to depth 4 (char; thorough 5) / 3 / 2 over " + DST_OPS + " x ~32 acceptance limits (also unit-wise streambufs) x the first 9 calls throwing x with and without finish(); strings of 0..200 units x limits 0..210 at user level")
prop("C10", "FILE writers deliver exactly, count exactly and stop at the first failure",
     "For every sequence of writes and every point at which the file stops accepting data, the file receives a prefix of what was written, in order and without gaps; everything if it never fails. After a failure the writer is not good and writes nothing more. finish() (and strf::to, strf::wto) returns the number of whole units written and success if and only if nothing failed. A writer destroyed without finish() flushes what is left. The same holds for wide writers.",
     ["histories", "fault_sequences", "configurations"],
     "every sequence of destination operations up to the depth, every byte position at which the file fails, every character type and buffer size",
     "tests use files that never fail, or fail at one fixed point",
     ["include/strf/to_cfile.hpp"], [("cfile_writer_base, narrow_cfile_writer, wide_cfile_writer", "include/strf/to_cfile.hpp")],
     [J("cf0", "dest.cpp", "MODE=10", "PART=0"), J("cf1", "dest.cpp", "MODE=10", "PART=1")],
     "all operation sequences to depth 3 (char; thorough 4) / 2 over " + DST_OPS + " x ~20 byte limits x with and without finish() x unbuffered and buffered FILE (fopencookie); wide: sealed memory files of 12 sizes; FILEs that refuse because of their orientation, their mode or an unencodable character, strings of 1..200 units; strings of 0..200 units x limits 0..210 at user level")

PRN = "each result is printed with exact and too small capacity against an inaccessible page, into other buffer geometries, and premeasured"
prop("C13", "Integers print exactly as their format says",
     "For every integer value of every integer type and every combination of base (2, 8, 10, 16, chosen statically or at run time), precision, pad0, sign and base-prefix flags, punctuation, letter case, alignment, width and fill, the printed text is the documented one: sign or prefix, then zeros up to the precision or the pad0 width, then the digits (grouped if punctuated), padded to the width with the fill character on the side the alignment names. The text is the same whichever way the format was spelled, for every character type; it never overflows the space the destination offers, and the premeasured width is its width.",
     ["inputs", "configurations"],
     "every value of a boundary set (all values of 8 and 16 bits) x every combination of format options over boundary sets of precision, pad0, width and fill",
     "the tests print some dozens of value/format combinations; digit counting, padding and buffer reservation each depend on the exact number of digits, separators, zeros and fill characters",
     ["include/strf/detail/printable_types/int.hpp", "include/strf/detail/int_digits.hpp", "include/strf/detail/standard_lib_functions.hpp"],
     [("int printers and their init functions", "include/strf/detail/printable_types/int.hpp"), ("digit counting", "include/strf/detail/int_digits.hpp")],
     [J("int%d" % i, "ints.cpp", "PART=%d" % i) for i in range(6)],
     "values: all of int8/16 (signed and unsigned); for wider types all +-(d*10^k)+-1, +-(2^k)+-1, limits; options: base x sign/prefix x punct x 8 precisions (0..140) x 9 pad0 (0..150) x 4 alignments x 9 widths (0..160) x 5 fills of 1..4 UTF-8 units x 3 letter cases x 10 values, in up to 4 spellings; char, char8_t, char16_t, char32_t, wchar_t; " + PRN + " (thorough: all 2^32 values in 4 formats)")

FLT = ["include/strf/detail/printable_types/float.hpp"]
prop("C14", "Floats without precision print the shortest text that reads back exactly",
     "Every float and double printed without a precision, in general, fixed, scientific or hexadecimal notation, prints the text that denotes exactly that value with the fewest significant digits, and of those the one nearest to it; reading it back gives the same bits (for decimal notations under round-to-nearest). General notation picks fixed or scientific, whichever takes fewer characters (fixed on a tie). Zeros, subnormals, infinities and NaNs included; the sign of zero is kept.",
     ["inputs"],
     "every double exponent with thousands of significands, a systematic fraction of all floats (thorough: all 2^32 floats), every short decimal in the whole exponent range with its neighbours",
     "the tests print some dozens of numbers; table-driven shortest conversion has a separate multiplier per exponent and several carry branches that single wrong table entries or rare ties break",
     FLT + ["include/strf/detail/dragonbox.hpp", "include/strf/detail/int_digits.hpp"],
     [("shortest decimal conversion (Dragonbox) and its tables", "include/strf/detail/dragonbox.hpp"), ("layout of the digits", "include/strf/detail/printable_types/float.hpp")],
     [J("flt0", "floats.cpp", "PART=0", opt="-O2"), J("flt1", "floats.cpp", "PART=1", opt="-O2"), J("fltroom", "floats.cpp", "PART=7")],
     "double: all 2048 exponents x ~11 000 significands (all one- and two-bit patterns, runs, ends, equidistant); all d*10^k with d < 10000, k in -330..308 with both neighbours; all digit counts; float: one sixteenth of all values plus all exponents x 16 384 significands; expected digits from std::to_chars, and read back with std::from_chars; 1..17 digits x 50 exponents x 4 notations, both signs, into every room in front of a guard page (thorough: 16 times the double significands, d < 100000, all floats)",
     assumptions=["libstdc++'s std::to_chars and std::from_chars are right"])
prop("C15", "Floats print exactly as their precision, notation and flags say",
     "For every floating-point value and every combination of notation, precision, show-point, sign, pad0, letter case, alignment, width and fill, the printed text is the documented one: the shortest decimal (hexadecimal: the exact value) rounded to the precision, ties to even, carried properly; trailing zeros kept or dropped as the notation and the show-point flag say; pad0 zeros between sign and digits; NaN and infinity without zeros. The text is the same whichever way the format was spelled, for every character type; it never overflows the space the destination offers, and the premeasured width is its width.",
     ["inputs", "configurations"],
     "every short decimal at many exponents x every notation x every precision; boundary values x every option combination",
     "the tests print some hundreds of value/format combinations; rounding carries, dropped zeros, size reservation and widths depend on the combination of digit count, exponent, precision and flags",
     FLT, [("init_*_dec / init_hex, rounding and print functions", "include/strf/detail/printable_types/float.hpp")],
     [J("flt%d" % i, "floats.cpp", "PART=%d" % i, opt="-O2") for i in range(2, 7)],
     "rounding: d*10^k with d < 100000, k in -16..14 x 3 notations x precisions 0..6; 12 long digit patterns x 17 digit counts x 46 exponents x precisions 0..20; hexadecimal: all 4096 leading nibble patterns x 13 positions x 10 exponents; options: 30 values x 4 notations x 12 precisions (-7..150) x show-point x 3 signs x 7 pad0 (0..140) x 4 alignments x 7 widths (0..150) x 4 fills x 3 letter cases, in up to 4 spellings; float and double, char, char8_t, char16_t, char32_t, wchar_t; " + PRN,
     assumptions=["libstdc++'s std::to_chars is right", "the precision rounds the shortest decimal, not the exact binary value (the tests require it)"])
prop("C16", "Digits are grouped, separated and pointed as the numpunct facet says",
     "For every grouping (1 to 6 groups of 1 to 31 digits, the last repeated or not), thousands separator and decimal point, every punctuated integer in base 2, 8, 10 or 16 and every punctuated floating-point number prints its integral digits split from the least significant one in groups of those sizes, with the separator between groups and the decimal point encoded in the destination's charset. A separator that the charset cannot encode is left out. Zeros added by precision or pad0 are not grouped, separators count in the width, and the premeasured size and width are right. separators_count, any_separator, distribute, the iterator, equality, and every way to build a grouping (list, string, creator, with invalid input giving an empty grouping) agree with the same groups; the predefined facets named after locales have the conventions glibc gives those locales.",
     ["inputs", "configurations"],
     "every grouping of up to two groups of any size and every one of up to six over a set of sizes x every digit count x separators and decimal points of every encoded length, encodable or not",
     "tests print some dozens of numbers with a few groupings; where separators fall, and how much room they take, depends on digit count, grouping, encoded size, trailing zeros and rounding together",
     ["include/strf/detail/facets/numpunct.hpp", "include/strf/detail/int_digits.hpp", "include/strf/detail/printable_types/int.hpp", "include/strf/detail/printable_types/float.hpp"],
     [("digits_grouping, digits_grouping_creator, digits_distribution, numpunct", "include/strf/detail/facets/numpunct.hpp"), ("write_int_little_sep / write_int_big_sep", "include/strf/detail/int_digits.hpp"), ("print_amplified_integer_*", "include/strf/detail/printable_types/float.hpp")],
     [J("pct%d" % i, "punct.cpp", "PART=%d" % i) for i in range(9)],
     "the 287 predefined facets on which strf and glibc 2.39 agree x 1..20 digits; groupings: all with <= 2 groups (1..31), <= 6 groups over {1,2,3,5,31}, each with the last repeated or final; API: digit counts 0..330, creator: all push sequences to length 3 over 18 values and runs to 9; integers: all digit counts (base 10: 1..20, 16: 1..16, 8: 1..22, 2: selection of 1..64) x 8 separators (1-4 units, surrogate, out of range) x 5 option mixes, in UTF-8, UTF-16, UTF-32, windows-1252, ASCII; floats: ~90 values up to 1e308 incl. carries x 4 notations x 5 precisions x 7 decimal points; " + PRN)
prop("C18", "Width calculators measure and cut strings as documented",
     "For every string in every charset (ill-formed ones included) and every limit, std_width_calc's width is the sum over extended grapheme clusters (UAX #29) of the documented width of the first code point, ill-formed subparts counting as U+FFFD, cut to the limit; width_as_u32len and width_as_fast_u32len count code points and fast_width counts units, up to the limit as documented (saturating at the largest width). str_width_and_pos returns the documented width and the last position whose prefix fits in the limit, never inside a character or grapheme cluster. Non-positive limits give zero width and the beginning. char_width returns the documented width of every character.",
     ["inputs", "configurations"],
     "every word over representatives of all grapheme-cluster classes, every code point in every class context, every word over well-formed and ill-formed units, every charset and limit",
     "the tests check a few clusters; the segmentation is a hand-written state machine over generated ranges of code points, interrupted every 32 code points",
     ["include/strf/detail/facets/width_calculator.hpp", "include/strf/detail/ch32_width_and_gcb_prop", "include/strf/detail/utf.hpp"],
     [("std_width_calc_func state machine; std_width_calc_t, fast_width_t, width_as_*u32len_t", "include/strf/detail/facets/width_calculator.hpp"), ("code point ranges", "include/strf/detail/ch32_width_and_gcb_prop")],
     [J("wid%d" % i, "width.cpp", "PART=%d" % i) for i in range(3)],
     "grapheme classes: all words of length <= 4 over 18 class representatives in UTF-8/16/32, length 5 (thorough: 6) in UTF-32, words of length <= 3-4 after 26..33, 60..64, 94..96 code points (internal buffer boundaries), clusters of up to 66 code points across boundaries; all limits around the end, fractional, negative and extreme; all 1.1M code points (assigned up to Unicode 13) in 55 contexts; all calculators: words to length 4 (thorough 5) over 9-15 tokens incl. ill-formed, strings of 5..140 and up to 70 000 units, 16 charsets, static and dynamic",
     assumptions=["perl 5.38's Unicode database gives the grapheme break classes (restricted to code points assigned by Unicode 13)"])
prop("C19", "width_t arithmetic is exact Q16.16 arithmetic, saturating where it says so",
     "For all widths and integers, +, - and unary minus are exact whenever the result is representable, * and / are the exact result truncated towards zero, sat_add, sat_sub and sat_mul (with widths and integers of any type) give the exact result clamped to the range, comparisons (with widths and integers of any type, even far out of range) have the sign of the exact difference, conversions from integers saturate, floor and ceil round as named, round rounds to nearest (ties towards zero), and a _w literal is the multiple of 1/65536 nearest to the decimal number it spells.",
     ["inputs"],
     "every pair of a boundary set and of a lattice, every boundary integer of every type, every int16 with every boundary width, (nearly) all 2^32 widths for unary operations, 220 literals",
     "the tests check a dozen sums and products; overflow and rounding errors appear only at particular magnitudes and signs",
     ["include/strf/width_t.hpp"], [("width_t operators, sat_*, compare, mp_fixed_point_parser", "include/strf/width_t.hpp")],
     [J("wt0", "widtht.cpp", "PART=0"), J("wt1", "widtht.cpp", "PART=1", opt="-O2"), J("wtsan", "widtht.cpp", "PART=0", "SMALL", san=True)],
     "~700 boundary widths squared, all multiples of 1/8 in -16..16 squared, a lattice of 1000 x 1000 over the whole range; ~700 widths x boundary values of int16..int64 and unsigned x all 65 536 int16; unary operations on 2^32/5 widths plus all those around each half and whole (thorough: all 2^32); also under UBSan",
     assumptions=["truncation towards zero and ties of round() towards zero are as implemented (undocumented)"])

prop("C26", "Strings print verbatim, converted or sanitized exactly as formatted",
     "For every string in every source charset (static or dynamic, from the facets or named in the format) and every destination charset, the printed text is: the source units themselves if no conversion is asked for, or if transcode() names the same charset; otherwise what the transcoder between the two charsets yields, sanitized also between equal charsets with sani(); unsafe_transcode() equals it on valid input. A precision first cuts the string where the width calculator (on the source charset) says, never inside a character or grapheme cluster; alignment then adds fill characters for the difference between the wanted and the measured width. Every ill-formed sequence and every character the destination lacks is reported to the error notifier, in order, when the string is printed.",
     ["inputs", "configurations"],
     "every word over well-formed and ill-formed tokens x every conversion policy x precisions x alignments x width calculators, for 21 pairs of charsets and character types",
     "the tests print a dozen strings, mostly well-formed; precision cuts, ill-formed ends, equal and dynamic charsets and fills combine in 24 separate printer classes",
     ["include/strf/detail/printable_types/string.hpp", "include/strf/detail/facets/charset.hpp", "include/strf/detail/facets/width_calculator.hpp"],
     [("strcpy / transcode / unsafe_transcode printers, aligned and not; printer variants for dynamic charsets", "include/strf/detail/printable_types/string.hpp")],
     [J("strs%d" % i, "strings.cpp", "PART=%d" % i) for i in range(11)],
     "21 (source, destination) pairs over UTF-8/16/32, ISO-8859-1/3, windows-1252 and all character types, 6 of them dynamic; all words of length <= 3 over 6-12 tokens (all option combinations to length 1, a fixed half to an eighth of them beyond; thorough: one length more), words of 15..130 characters with one special token at each place; 7 policies x 9 precisions x 3 alignments x 6 widths x 4 fills x 4 width calculators and the default one; " + PRN + ", also with every limit of the premeasured width",
     assumptions=["through a pivot (single-byte to or from UTF-8/16) a report may be repeated where the internal buffer ends, and the two kinds of reports may interleave differently (as in C06)"])

prop("C11", "Exceptions of user code, destinations and allocation propagate unharmed",
     "If user code that strf calls (error notifiers, width calculators, iterators and functions of ranges, make_printer of printables and overriders, printers), recycle() of a destination, or an allocation throws, at any of the calls made during a print, the same exception leaves the print call; nothing more is printed after it; what the destination, string or streambuf got is a prefix of the full text; std::terminate is not called; nothing leaks; and the same objects can print again, with the same result as if nothing had happened.",
     ["fault_sequences", "inputs", "configurations"],
     "every printable and printing form, every call of user code, every recycle and every allocation throwing",
     "tests make nothing throw; a noexcept in the wrong place, a catch or a state changed before the call that throws shows only when the one call in question fails",
     ["include/strf/printing_syntax.hpp", "include/strf/to_string.hpp", "include/strf/to_streambuf.hpp", "include/strf/destination.hpp", "include/strf/detail/utf.hpp", "include/strf/detail/printable_types/string.hpp", "include/strf/detail/printable_types/char.hpp", "include/strf/detail/printable_types/float.hpp", "include/strf/detail/printable_types/range.hpp", "include/strf/detail/printable_types/tr_string.hpp"],
     [("printing_syntax", "include/strf/printing_syntax.hpp"), ("printers and their polymorphic storage", "include/strf/detail/printers_tuple.hpp"), ("repeat_sequence", "include/strf/detail/utf.hpp"), ("string destinations and their creators", "include/strf/to_string.hpp")],
     [J("exc%d%d" % (w, p), "faults.cpp", "FAM=0", "WHAT=%d" % w, "PART=%d" % p) for w in range(4) for p in range(8)],
     "51 argument lists that cover every kind of printable (29 with user code) x char, char16_t, wchar_t, char8_t x {to, line, join, tr} x 7 initial rooms (thorough: every one up to 140) x 2 recycle geometries x recycle throwing before or after it flushes x every call throwing; to_string, append and assign with and without reserve, to_range with 5 capacities, streambufs and measuring x every call and allocation throwing; each followed by a print without fault")
prop("C27", "What is printed does not depend on the room the destination offers",
     "For all printables, formats and facets, the text that reaches a destination is the same however much room it has at first and however much each recycle() makes available (at least strf::min_destination_buffer_size units), and whether the arguments are printed in one call or one by one. If the destination turns bad at any recycle(), what it has got is a prefix of that text, and no unit is ever written outside the room offered.",
     ["configurations", "fault_sequences", "inputs"],
     "every initial room, every geometry of the recycled rooms, every recycle turning the destination bad",
     "the tests print to a large buffer and to one recycled geometry; printers choose between writing at once and writing piecewise by the exact room left",
     ["include/strf/destination.hpp", "include/strf/output_buffer_functions.hpp", "include/strf/detail/utf.hpp", "include/strf/detail/printable_types/int.hpp", "include/strf/detail/printable_types/float.hpp", "include/strf/detail/printable_types/string.hpp", "include/strf/detail/printable_types/char.hpp", "include/strf/detail/printable_types/range.hpp"],
     [("destination", "include/strf/destination.hpp"), ("write, write_fill, put", "include/strf/output_buffer_functions.hpp"), ("printers", "include/strf/detail/printable_types/int.hpp")],
     [J("room%d%d" % (w, p), "faults.cpp", "FAM=1", "WHAT=%d" % w, "PART=%d" % p) for w in range(4) for p in range(8)],
     "51 argument lists that cover every kind of printable, texts of 20 to 5000 units x char, char16_t, wchar_t, char8_t x {to, line, join, one by one, tr} x every initial room up to 300 (70 for the secondary forms) and around the full size x 14 geometries of recycled rooms, buffers in front of a guard page; and x the destination turning bad at every one of the first 40 recycles")
prop("C28", "User-defined printables get exactly the value, formats and facets given",
     "A printable type added by users (printable_def or get_printable_def, with make_printer(), print() or both, printed by itself or as other printables, with formats of its own, or overridden by a facet) prints, wherever it stands (argument, join, aligned join, tr-string argument, inner facets pack, range element, function result, temporary), exactly as its make_printer or print does for that value with the formats set and the facets that apply to its representative. A value whose forwarded_type is a reference is never copied and still alive when it is printed; printers are alive when called, may be called repeatedly, and are all destroyed; sizes and widths added to the premeasurements, in any of the documented ways, add up.",
     ["configurations", "inputs", "operation_sequences"],
     "every pair of kinds and forms of user-defined printables in every kind of context, and every kind in every form of range and temporary",
     "the tests and examples define a handful of printable types, most forwarded by value, and print them as plain arguments; what is copied, kept by reference or dropped on the way differs per context and compiler",
     ["include/strf/detail/printable_def.hpp", "include/strf/detail/printing_helpers.hpp", "include/strf/detail/value_and_format.hpp", "include/strf/detail/printers_tuple.hpp", "include/strf/detail/premeasurements.hpp", "include/strf/detail/printable_types/join.hpp", "include/strf/detail/printable_types/range.hpp"],
     [("printable_def_of, fmt, make_printer", "include/strf/detail/printable_def.hpp"), ("print or make_printer, value or value_and_format", "include/strf/detail/printing_helpers.hpp"), ("value_and_format", "include/strf/detail/value_and_format.hpp")],
     [J("user0_%d" % p, "user.cpp", "WHAT=0", "PART=%d" % p) for p in range(21)] + [J("user%d_%d" % (w, p), "user.cpp", "WHAT=%d" % w, "PART=%d" % p, **(dict(san=True) if w == 2 else {})) for w in (1, 2, 3) for p in range(7)]
     + [J("user%d_%d" % (w, p), "user.cpp", "WHAT=%d" % w, "PART=%d" % p, **(dict(san=True) if p == 8 else {})) for w in (4, 5) for p in range(10)],
     "7 kinds of user-defined types x {plain, fmt(), formatted} in ordered pairs (char: all 441; char16_t: 147) x 4 x 4 text lengths x {arguments, join, joins aligned in 7 widths, tr-string, inner pack, nested}; singly, for 4 character types: temporaries in 8 contexts, ranges of 0..4 elements plain, separated, formatted, as array, through 6 functions, in joins; each printed into every room with and without premeasuring; wchar_t under AddressSanitizer and UBSan; and with 3 more kinds that have print() only (by value, by reference with formats, overridden), all pairs of the 10 kinds (char: 300 pairs of forms; char16_t: 100) as arguments, in joins, inner packs, ranges and .tr() strings (held as polymorphic printers), into 5 sizes of array, 6 first buffers and 3 ways of making a string, without premeasuring")
prop("C29", "Format functions compose: each sets its option, the last call wins",
     "Every sequence of the documented format functions that compiles gives an object whose observers (get_int_format, get_float_format, get_alignment_format, width, count) and printed text are those of the record obtained by applying each function's documented effect in turn: a function changes its own option only, a later call overrides an earlier one, setting a format to its default clears it and nothing else. The functions of namespace strf (left, hex, pad0, sani, ...) equal the members they stand for, fmt() of a formatted value is that value, a call on a const lvalue leaves it unchanged, and giving a formatted object another value keeps its formats. This holds for integers, floating-point numbers, strings, characters, booleans, pointers, joins, ranges and user-defined printables.",
     ["operation_sequences", "configurations"],
     "every object reachable from fmt(x) by format functions, of any length of call chain (the graph of types and formats is finite and explored completely), every function on every one of them in every value category",
     "each format function is written once per formatter class (some 15 types per printable), so that option x function x previous state is a matrix of which tests touch a few diagonal cells",
     ["include/strf/detail/format_functions.hpp", "include/strf/detail/value_and_format.hpp", "include/strf/detail/printable_def.hpp", "include/strf/detail/printable_types/int.hpp", "include/strf/detail/printable_types/float.hpp", "include/strf/detail/printable_types/string.hpp", "include/strf/detail/printable_types/char.hpp", "include/strf/detail/printable_types/range.hpp"],
     [("alignment and quantity format specifiers, functions of namespace strf", "include/strf/detail/format_functions.hpp"), ("integer format specifiers", "include/strf/detail/printable_types/int.hpp"), ("floating-point format specifiers", "include/strf/detail/printable_types/float.hpp"), ("string precision and transcoding", "include/strf/detail/printable_types/string.hpp"), ("value_and_format, fmt_replace", "include/strf/detail/value_and_format.hpp")],
     [J("fmtfn%d" % p, "fmtfn.cpp", "PART=%d" % p, **(dict(san=True) if p == 3 else {})) for p in range(11)] + [J("fmtfnc%d" % p, "fmtfn.cpp", "PART=%d" % p, cxx="clang++") for p in (2, 3, 4)],
     "roots: int, unsigned long long, double, string, char, char32_t, bool, pointer, join, ranges of short, long and float, user-defined printables with three orders of format specifiers; 16 to 43 calls per state (2-4 argument values per option); the whole reachable graph (up to 54 000 states and 2.5 million calls per root), each call on an rvalue and, where it compiles, on an lvalue and a const lvalue; up to 5 values printed per state; g++ and clang++")
prop("C30", "Premeasurements accumulate sizes and widths exactly, up to the limit",
     "For every limit and every sequence of add_width, checked_add_width, saturate_width and add_size, the observers of every kind of premeasurements object (accumulated_width, remaining_width, has_remaining_width, remaining_width_greater_than, accumulated_size) give the values of the documented equations, and nothing that is not demanded accumulates. measure() adds the width of its arguments exactly, up to the limit, and a size that the printed text never exceeds; it makes a printer for every argument if the size is demanded, only until the width limit is reached if the width alone is demanded, and for none otherwise.",
     ["operation_sequences", "inputs"],
     "every sequence of operations up to a depth from every limit; every sequence of up to three arguments x kinds of premeasurements x limits x starting points",
     "the tests use premeasurements only through printers, with few limits; saturation, limits already passed and early exits depend on the history of the accumulator",
     ["include/strf/detail/premeasurements.hpp", "include/strf/measure.hpp"],
     [("width_accumulator, size_accumulator, premeasurements", "include/strf/detail/premeasurements.hpp"), ("measure()", "include/strf/measure.hpp")],
     [J("pre%d" % p, "premeas.cpp", "PART=%d" % p) for p in range(5)] + [J("pre0s", "premeas.cpp", "PART=0", san=True)],
     "32 operations (11 widths, negative ones for checked_add_width, 6 sizes of 5 integer types), depth 3 (thorough: 5) from 14 limits incl. negative, 4 kinds of premeasurements, under UBSan too; measure(): all sequences of 0..3 of 7 kinds of arguments (integer, string, empty string, aligned, join, user-defined, transcoded) x 34 premeasurements x 4 starting points x 4 character types",
     assumptions=["add_width beyond the largest width saturates (the documentation leaves it open)"])
prop("C31", "Printing-syntax objects combine destination, policy and facets in any order",
     "Whatever chain of with(), reserve(), reserve_calc() and no_reserve() led to a printing-syntax object, on lvalues, const lvalues, temporaries or const temporaries, every printing function of it (operator(), line, tr, trline, with further facets as first arguments) makes exactly one destination with its own creator: of the requested size after reserve(n), of the measured size after reserve_calc(), without size otherwise. It prints with the last facet of each category (those in the call last of all), adds the newline iff it is a line function, finishes the destination once, returns its finish() and destroys it. The operations change only what they are documented to change: reserve(n) on a non-const object that already reserves a given space modifies it and returns it, with() without arguments and setting the same policy return the object itself, and all others leave the object unchanged.",
     ["operation_sequences", "configurations"],
     "every chain of operations in every value category up to a depth, then every printing function",
     "the tests use few chains, mostly of temporaries; each overload (by value category and by policy) is separate code, compiled only when it is used, and order and aliasing matter only in combinations",
     ["include/strf/printing_syntax.hpp", "include/strf/detail/reserve_policies.hpp", "include/strf/detail/separate_args_and_print.hpp"],
     [("printing_syntax, reserve_funcs, fpe_funcs", "include/strf/printing_syntax.hpp"), ("create_destination_and_print", "include/strf/detail/reserve_policies.hpp"), ("facets, tr-string and values told apart", "include/strf/detail/separate_args_and_print.hpp")],
     [J("syn0", "syn.cpp", "WHAT=0", "PART=0", "DEPTH=4"), J("syn0t", "syn.cpp", "WHAT=0", "PART=0", "DEPTH=5", thorough_only=True)]
     + [J("syn%d_%d" % (w, p), "syn.cpp", "WHAT=%d" % w, "PART=%d" % p, "DEPTH=3") for w, p in ((0, 1), (0, 2), (1, 1), (2, 2))]
     + [J("syn%d_3" % w, "syn.cpp", "WHAT=%d" % w, "PART=3", "DEPTH=2", **(dict(san=True) if w == 0 else {})) for w in range(4)],
     "9 operations x 4 value categories; depth 4 (thorough: 5) from one creator, depth 3 from 11 other objects (creators with and without sizes, destinations with and without finish(), every constructor and make_printing_syntax, char, char16_t and wchar_t), depth 2 from the library's own: arrays, ranges, append, to_string, to_basic_string, destination reference, FILE, streambuf, wide FILE, for 4 character types; at every node 11 calls of the printing functions",
     assumptions=["facets and creators are copyable"])
CONC = "bounded-exhaustive model checking: stateless exploration of thread schedules of the real code under a controlled scheduler (preemption points at every basic block, bounded number of preemptions), of nested calls and of histories, against the output of each print alone"
prop("C32", "Concurrent, nested and successive prints do not affect one another",
     "Several threads may print at the same time, each to its own destination, from the same constant objects (facets, packs, charsets, formatted values, joins, ranges, tr-strings, printing-syntax objects): wherever one is interrupted while others print, each destination receives exactly what it would receive alone. The same holds when user code that a print calls (the destination, an error notifier, a width calculator, a printable) itself prints something else, and whatever was printed before.",
     ["schedules", "histories"],
     "every ordered pair of print tasks and every basic block of the first at which the second takes over; pairs of preemption points; every nesting of up to three prints at every call of user code; every sequence of three prints",
     "the tests are single-threaded, never print from inside a callback, and a scratch buffer shared by mistake (static, or cached in a facet) always gives the right result there; under real threads the window is a few instructions",
     ["include/strf/detail/printable_types/float.hpp", "include/strf/detail/printable_types/int.hpp", "include/strf/detail/printable_types/string.hpp", "include/strf/detail/facets/charset.hpp", "include/strf/detail/facets/numpunct.hpp", "include/strf/detail/facets/width_calculator.hpp", "include/strf/detail/tr_printer.hpp", "include/strf/destination.hpp", "include/strf/locale.hpp"],
     [("scratch buffers of printers", "include/strf/detail/printable_types/float.hpp"), ("pivot buffers", "include/strf/detail/facets/charset.hpp"), ("width calculation", "include/strf/detail/facets/width_calculator.hpp"), ("argument tables", "include/strf/detail/printable_types/tr_string.hpp")],
     [J("conc%d" % p, "conc.cpp", "PART=%d" % p, opt="-O1 -fsanitize-coverage=trace-pc -pthread") for p in (1, 2, 3, 4)],
     "33 print tasks over every kind of printable, facet and destination, sharing const objects; one preemption: every basic block (140..2000 per task) of every task x every task; two preemptions: about 120 x 120 evenly spaced pairs of blocks per pair of tasks (thorough: all pairs); nesting depth 3 at every callback; all histories of length 3. Two persistent threads, switched by semaphores; a thread that blocks on what the other holds lets it go on",
     technique=CONC, assumptions=["the compiler's basic blocks are fine enough as interruption points: hidden state shared within one block only is not seen", "sequentially consistent memory"])
prop("C17", "Alignment and fill put each value in its field exactly",
     "For every integer, floating-point number, string, join and range element, every alignment (left, right, center), every width (fractional, negative and huge ones included) and every fill character, the output is the unaligned text with round(width - width of the text) fill characters around it (ties towards zero, none if the text is wider): all after it for left, all before it for right, half of them (rounded down) before it for center; the fill is encoded in the destination charset (its replacement if it cannot be). The operators <, >, ^, fill(), left(), right(), center() and set_alignment_format() are equivalent in any order, later ones override earlier ones, and clearing the format removes it. A format of a range applies to each of its elements. The measured width is the width of the text plus one column per fill character.",
     ["inputs", "configurations"],
     "every alignment x every width around each boundary x fills of every encoded size x every spelling, for ~60 values of every kind",
     "the tests align a handful of values in fields of one or two sizes; each printer class has its own fill arithmetic, and joins compute it from premeasured remainders",
     ["include/strf/detail/format_functions.hpp", "include/strf/detail/printable_types/int.hpp", "include/strf/detail/printable_types/float.hpp", "include/strf/detail/printable_types/string.hpp", "include/strf/detail/printable_types/join.hpp", "include/strf/detail/printable_types/range.hpp"],
     [("alignment_format_specifier_fn", "include/strf/detail/format_functions.hpp"), ("aligned_join_printer, join_printing", "include/strf/detail/printable_types/join.hpp"), ("int/double/string printers with fill", "include/strf/detail/printable_types/int.hpp")],
     [J("aln%d" % i, "align.cpp", "FAM=1", "PART=%d" % i) for i in range(4)],
     "~60 values (integers, doubles, strings, converted strings, joins of all of these nested, ranges) x 3 alignments x 21 widths (negative to 131 columns beyond the text, at and one 65536th around each half, 300, 3000) x 6 fills of 1-4 bytes x 5 spellings (all combinations for a part, a third for the rest) x width calculators; join_left, join_right, join_center and join_align with 3 contents x 15 widths x 4 fills; char, char8_t, char16_t, char32_t, wchar_t, windows-1252; " + PRN + ", also with every limit of the premeasured width")
prop("C23", "Characters, booleans and pointers print exactly as documented",
     "Every character of the destination's type prints as that very unit, every char32_t prints encoded in the destination charset (or its replacement if it cannot be), multi(n) prints it n times and measures n times its width; booleans print true/false, True/False or TRUE/FALSE after the lettercase, pointers print 0x (0X in upper case) and the hexadecimal address in the case of the lettercase; alignment and fill surround them as for any other value.",
     ["inputs", "configurations"],
     "every character unit, every code point, counts around internal block sizes x every alignment, width, fill and spelling, all lettercases, 6 charsets",
     "the tests print a few characters; encoded sizes, repeated writes across buffers and fills differ per character size and count",
     ["include/strf/detail/printable_types/char.hpp", "include/strf/detail/printable_types/bool.hpp", "include/strf/detail/printable_types/int.hpp", "include/strf/detail/facets/lettercase.hpp"],
     [("char_printer, fmt_char_printer, conv_char32_printer", "include/strf/detail/printable_types/char.hpp"), ("bool_printer", "include/strf/detail/printable_types/bool.hpp"), ("voidptr_printing", "include/strf/detail/printable_types/int.hpp")],
     [J("chr%d" % i, "align.cpp", "FAM=0", "PART=%d" % i) for i in range(4)],
     "all 256 or 65536 units (plain and aligned), all 1.1M code points (a seventeenth in some charsets), counts 0..200, 9 pointers, both booleans, 3 lettercases x 3 alignments x 21 widths x 6 fills x 5 spellings (all combinations for a part, a third for the rest) x width calculators; char, char8_t, char16_t, char32_t, wchar_t, windows-1252; " + PRN)
prop("C20", "Tr-strings substitute their arguments exactly by the documented syntax",
     "For every tr-string and every number of arguments, strf::tr() and the .tr() and .trline() members, under every reserve policy and inside any other printable, print: plain text verbatim; for each '{' as documented a comment (nothing), an escaped '{', the argument at the given position, or the next non-positional argument, up to the next '}' or the end of the string; the replacement character where the argument does not exist, each time calling the tr_error_notifier once, when printing and in order, with the whole string and the position of that '{'. The premeasured size is enough and the premeasured width is exact.",
     ["inputs", "configurations"],
     "every string up to length 7 (thorough 8) over the syntax characters x 0, 1, 2, 3 and 12 arguments of various sizes, through every entry point",
     "the tests format about 60 strings; the syntax is implemented three times (printing, measuring the size, measuring both), which must agree on every malformed string",
     ["include/strf/detail/tr_printer.hpp", "include/strf/detail/printable_types/tr_string.hpp", "include/strf/detail/reserve_policies.hpp"],
     [("tr_string_write, tr_string_size, tr_do_premeasurements, read_uint", "include/strf/detail/tr_printer.hpp"), ("printing_with_tr_string_*", "include/strf/detail/reserve_policies.hpp"), ("tr, tr_printer", "include/strf/detail/printable_types/tr_string.hpp")],
     [J("tr%d" % i, "tr.cpp", "PART=%d" % i) for i in range(4)],
     "all words of length <= 7 (thorough 8; other charsets 6, 7) over { } - 0 1 2 9 a and a wide character x argument lists of 0, 1, 2, 3, 12; all positions 0..999 with leading zeros, around 2^31, 2^32, 2^63, 2^64 and beyond; 18-25 neighbouring and ill-formed units in 12 shapes; texts of 0..200 characters around references, 0..200 references; no_reserve, reserve(n), reserve_calc x tr, trline, tr() printable, nested in joins and tr-strings; char, char8_t, char16_t, char32_t, wchar_t, windows-1252; " + PRN)
prop("C21", "Facets: the last applicable one wins, and constraints select by type",
     "A printable is affected, in each facet category, by exactly one facet: the last one in the order given that applies, or the category's default when none does. The order is: with() calls and their arguments from first to last, then leading arguments of the call (also of line, tr, trline and to_string), then strf::with() inner packs from the outermost to the innermost, which affect only what they contain; a pack stands for its elements in order, however packs, constrained facets, references and empty packs are nested. A constrained facet applies only if its filter accepts the printable's documented representative type, which is what representative_of_printable names, and is_string, is_char and is_int_number match exactly the types they document. Overriders replace the printing of overridable types and only of them. All this holds alone, formatted, in joins, ranges and tr-strings, when measuring and printing.",
     ["configurations", "operation_sequences"],
     "every sequence of up to three elements of 13 kinds of facets pack elements x tags x categories; every combination of outer, leading and two levels of inner facets; every printable type x facet category x order of constrained facets",
     "the selection is overload resolution over instantiations: each combination of packs, constraints and nestings is different code, and tests instantiate about twenty of them",
     ["include/strf/facets_pack.hpp", "include/strf/detail/printable_types/facets_pack.hpp", "include/strf/printing_syntax.hpp", "include/strf/detail/separate_args_and_print.hpp", "include/strf/detail/printable_def.hpp", "include/strf/detail/printing_helpers.hpp"],
     [("facets_pack, constrained_fpe, get_facet", "include/strf/facets_pack.hpp"), ("strf::with", "include/strf/detail/printable_types/facets_pack.hpp"), ("printing_syntax::with", "include/strf/printing_syntax.hpp"), ("separate_args", "include/strf/detail/separate_args_and_print.hpp"), ("overrider selection", "include/strf/detail/printing_helpers.hpp")],
     [J("selp0", "sel.cpp", "FAM=2", "PART=0", "CHT=char", opt="-O0"), J("sel0", "sel.cpp", "FAM=0", "PART=0", opt="-O0"), J("sel0n", "sel.cpp", "FAM=0", "PART=0", "NOVU=1", std="c++17", opt="-O0"), J("sel1", "sel.cpp", "FAM=0", "PART=1", opt="-O0"), J("selp1", "sel.cpp", "FAM=2", "PART=1", "CHT=char16_t", opt="-O0")]
     + [J("selp%d%s" % (i, c), "sel.cpp", "FAM=2", "PART=%d" % i, "CHT=" + c, opt="-O0") for i in (2, 3) for c in ("char", "char16_t")] + [J("selc%d" % i, "sel.cpp", "FAM=1", "PART=%d" % i, opt="-O0") for i in range(4)],
     "get_facet: all sequences of length <= 2 over 13 element kinds (plain, constrained, doubly constrained, packs of packs, empty, never accepting, facet_traits), of length 3 over 7, x 3 categories x 4 tags x direct, copied, moved, packed again, by reference, from lvalues, in both implementations of facets_pack (with and without variadic using); calls: 8 outer x 4 leading x 5 pairs of inner elements x 11 forms of call; printables: 10 integer and floating types x 12 formats, bool, pointer, strings, characters x lettercase, 4 numeric punctuations, width calculators, overriders, error notifiers x 8 orders and constraints x alone, in joins, inner packs, tr-strings; char and char16_t; " + PRN)
prop("C22", "Joins, ranges and user-defined printables print the concatenation of their parts",
     "However join, aligned joins, range, separated_range, fmt_range, fmt_separated_range (from any container, array, iterator pair or initializer list, with or without a transforming function), tr() and user-defined printables are nested in each other and whatever they contain, the output is what the parts print one after the other (with the separator between consecutive elements only), aligned as a whole where asked, formats of a range applying to every element; in any buffer, under any reserve policy, and the premeasured size and width (alone or together, with any limit) account for exactly the same parts.",
     ["inputs", "operation_sequences", "configurations"],
     "every tree of up to 4 nodes (thorough 5) over 15 kinds of leaves and 19 kinds of composites, built at run time from the library's own printers, and every container kind and length for ranges",
     "the tests print about 100 fixed compositions; premeasuring and printing traverse the nesting separately, with limits that change at each level",
     ["include/strf/detail/printable_types/join.hpp", "include/strf/detail/printable_types/range.hpp", "include/strf/detail/printers_tuple.hpp", "include/strf/detail/printable_def.hpp"],
     [("join_printing, aligned_join_printer", "include/strf/detail/printable_types/join.hpp"), ("range printers", "include/strf/detail/printable_types/range.hpp"), ("printers_tuple", "include/strf/detail/printers_tuple.hpp"), ("make_printer, print_printables", "include/strf/detail/printable_def.hpp")],
     [J("nest%d" % i, "nest.cpp", "PART=%d" % i) for i in range(4)],
     "trees of <= 4 nodes (thorough, char: 5; up to 4 children): leaves int, double, strings (empty, short, 70 long), char32_t, aligned and sanitized strings, formatted ranges, empty composites; composites join, 10 alignments (fractional, narrower, much wider), range, separated_range (3 separators), both with operation, 3 tr-strings; vector, list, deque, set, array, C array, initializer_list, iterators of 0..40 elements x 4 separators x formats; 5 character types; " + PRN + ", under every reserve policy, with every kind of premeasurement and limit")
prop("C25", "locale_numpunct() reflects the current locale",
     "locale_numpunct() returns a numpunct<10> with the decimal point, the thousands separator and the grouping that localeconv() describes at the time of the call, and that later locale changes do not affect. Each character is the first one of its string: ASCII as it is, others decoded from the locale's codeset (UTF-8, ISO-8859-1, -3, -15); a missing or undecodable decimal point is U+FFFD, a missing or undecodable separator turns grouping off, and in other codesets a non-ASCII point is U+FFFD and a non-ASCII separator U+00A0. Grouping is lconv's: least significant group first, the last one repeated, unless CHAR_MAX ends the grouping; more than 6 groups or larger than 31 digits are not representable. Printing with it gives what printf's ' flag does.",
     ["inputs", "configurations"],
     "every lconv built from every character and ill-formed word as point and separator, every grouping of up to two groups and many of up to six, in 8 codesets; every installed locale in every category",
     "the tests see the locales of the machine (one or two) and 12 strings; nothing in them has CHAR_MAX, ill-formed or multi-character strings, or categories of different locales",
     ["include/strf/locale.hpp", "include/strf/detail/facets/numpunct.hpp"],
     [("locale_numpunct, make_numpunct, get_decoder, decode_first_char", "include/strf/locale.hpp"), ("digits_grouping_creator", "include/strf/detail/facets/numpunct.hpp")],
     [J("loc0", "loc.cpp", "PART=0"), J("loc1", "loc.cpp", "PART=1"), J("loc0s", "loc.cpp", "PART=0", static=True)],
     "decimal point and separator: every first byte x boundary continuations up to 4 bytes (about 10,000 words), all scalar values in UTF-8 (above U+3000 a seventeenth; thorough: all), empty, several characters; groupings: all of <= 2 groups of 1..31, samples to 6 groups, each open, ended by CHAR_MAX or by a negative char, with garbage after it; 8 codeset names; separators in 1..100 digits, 6 numbers printed; installed locales C, C.utf8, en_US, de_DE, as_IN x LC_ALL, LC_NUMERIC, LC_CTYPE, LC_MONETARY x 3 base locales, 71 numbers against printf",
     assumptions=["localeconv() and nl_langinfo(CODESET) of the C library describe the locale; in part 0 both are replaced by stand-ins"])
prop("C12", "Counts, widths, precisions and lengths are exact at any magnitude",
     "Whatever its count, precision, zero padding, width or length - from 0 to beyond 2^32 where the interface accepts it - every printable prints exactly that many characters, digits, zeros or fills, in any buffer and under every reserve policy; the premeasured size never falls short of what is printed and does not wrap; the premeasured width is exact up to the maximum of width_t and saturates there, for every limit and whether or not the size is measured with it; alignment, centering and nested alignment use the true widths; a destination that is too small gets a prefix and is reported truncated; and streambuf and FILE writers deliver and count every unit.",
     ["inputs", "configurations"],
     "every integer, floating-point, character, string, range, join and tr-string printable at 38 magnitudes around every power of two to 2^18, and at 2^24, 2^30, 2^31 and 2^32 where counts allow it, x every alignment",
     "the tests print nothing longer than some thousand characters; a narrower intermediate type, a wrapped sum or a chunk loop that loses its remainder shows only at particular magnitudes",
     ["include/strf/detail/printable_types/int.hpp", "include/strf/detail/printable_types/float.hpp", "include/strf/detail/printable_types/string.hpp", "include/strf/detail/printable_types/char.hpp", "include/strf/detail/printable_types/range.hpp", "include/strf/detail/printable_types/join.hpp", "include/strf/detail/premeasurements.hpp", "include/strf/destination.hpp", "include/strf/width_t.hpp", "include/strf/to_streambuf.hpp", "include/strf/to_cfile.hpp"],
     [("size_accumulator, width_decumulator, premeasurements", "include/strf/detail/premeasurements.hpp"), ("write_fill, encode_fill", "include/strf/destination.hpp, include/strf/detail/utf.hpp"), ("fill counts in every printer", "include/strf/detail/printable_types/*.hpp")],
     [J("big%d" % i, "big.cpp", "PART=%d" % i) for i in range(6)],
     "N in 0, 1 and neighbours of 2^7..2^18 (38 values), 2^24, 2^30, 2^31-401, for multi also 2^31+5, 3*2^30 and 2^32+5; precision and pad0 of 5 integers (5 types, base 10 and 16, signs, punctuation) and 4 doubles (4 notations, punctuation); multi of 5 characters; strings of N characters of 1..4 units and 1..2 columns x 8 precisions x policies x character types; 8 compositions of N elements, sums of counts beyond 2^33; widths 0, 1, 255, 256, 4097, 16384, 32766, 32767 x 3 alignments x fills of 1..4 units; 7 limits; buffers (0, 64), (100, 257), (page, page), 4 truncating sizes; outputs above 4e7 units are printed only truncated (thorough: in full to 5e9), and multi-unit fills above 3e6 are only measured; streambuf (char, wchar_t), FILE (buffered, unbuffered), C string, array, range and string destinations: 255 to 2^32+70 units (strings: 2^31+6) printed, written at once or in pieces of 2^30+7, the sink accepting all, 2^31+1 or 2^32+1 units")
CONFIGS = [("g++ c++20 -O0, header-only", "g++", "-std=c++20 -O0 -fno-gnu-unique", False),
    ("g++ c++17 -O2, separately compiled", "g++", "-std=c++17 -O2 -fno-gnu-unique", True),
    ("g++ c++14 -O1, without compiler intrinsics", "g++", "-std=c++14 -O1 -DCFG_NOBUILTIN -fno-gnu-unique", False),
    ("g++ c++14 -O0, separately compiled", "g++", "-std=c++14 -O0 -fno-gnu-unique", True),
    ("g++ c++23 -O3 NDEBUG", "g++", "-std=c++23 -O3 -DNDEBUG -fno-gnu-unique", False),
    ("clang++ c++14 -O0", "clang++", "-std=c++14 -O0", False),
    ("clang++ c++20 -O2, separately compiled", "clang++", "-std=c++20 -O2", True),
    ("g++ c++17 -O1 -funsigned-char", "g++", "-std=c++17 -O1 -funsigned-char -fno-gnu-unique", False),
    ("clang++ c++17 -O1 -funsigned-char, separately compiled", "clang++", "-std=c++17 -O1 -funsigned-char", True),
    ("g++ c++17 -O0 freestanding", "g++", "-std=c++17 -O0 -DSTRF_FREESTANDING -DCFG_FREE -fno-gnu-unique", False),
    ("g++ c++14 -O1 freestanding with cstring, separately compiled", "g++", "-std=c++14 -O1 -DSTRF_FREESTANDING -DSTRF_WITH_CSTRING -DCFG_FREE -fno-gnu-unique", True),
    ("g++ c++17 -O1 freestanding, 16-bit wchar_t", "g++", "-std=c++17 -O1 -DSTRF_FREESTANDING -DCFG_FREE -fshort-wchar -fno-gnu-unique", False),
    ("clang++ c++20 -O1, undefined behaviour traps", "clang++", "-std=c++20 -O1 -fsanitize=undefined -fno-sanitize=alignment,vptr,function -fsanitize-trap=undefined", False)]
MORE_CONFIGS = CONFIGS[:1] + [("clang++ c++23 -O3", "clang++", "-std=c++23 -O3", False), ("g++ c++20 -Os, separately compiled", "g++", "-std=c++20 -Os -fno-gnu-unique", True),
    ("g++ c++17 -O3 -march=x86-64-v3 -fshort-enums", "g++", "-std=c++17 -O3 -march=x86-64-v3 -fshort-enums -fno-gnu-unique", False),
    ("clang++ c++14 -O2 freestanding, separately compiled", "clang++", "-std=c++14 -O2 -DSTRF_FREESTANDING -DCFG_FREE", True),
    ("g++ c++23 -O2 freestanding with cstring, -funsigned-char", "g++", "-std=c++23 -O2 -DSTRF_FREESTANDING -DSTRF_WITH_CSTRING -DCFG_FREE -funsigned-char -fno-gnu-unique", False),
    ("clang++ c++17 -O0 freestanding, 16-bit wchar_t, separately compiled", "clang++", "-std=c++17 -O0 -DSTRF_FREESTANDING -DCFG_FREE -fshort-wchar", True),
    ("g++ c++17 -O2 -ftrapv -fno-strict-aliasing -fno-exceptions -fno-rtti", "g++", "-std=c++17 -O2 -ftrapv -fno-strict-aliasing -fno-exceptions -fno-rtti -fno-gnu-unique", False),
    ("clang++ c++14 -O3, integer and undefined behaviour traps, 16-bit wchar_t freestanding", "clang++", "-std=c++14 -O3 -DSTRF_FREESTANDING -DCFG_FREE -fshort-wchar -fsanitize=undefined -fno-sanitize=alignment,vptr,function -fsanitize-trap=undefined", False),
    ("g++ c++17 -O3 freestanding", "g++", "-std=c++17 -O3 -DSTRF_FREESTANDING -DCFG_FREE -fno-gnu-unique", False),
    ("clang++ c++17 -O2 freestanding, without compiler intrinsics, -funsigned-char, separately compiled", "clang++", "-std=c++17 -O2 -DSTRF_FREESTANDING -DCFG_FREE -DCFG_NOBUILTIN -funsigned-char", True),
    ("g++ c++20 -O1 -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_DEBUG", "g++", "-std=c++20 -O1 -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_DEBUG -fno-gnu-unique", False)]
prop("C24", "Every supported build configuration behaves the same",
     "strf compiles, and prints, measures, transcodes, pads, truncates and reports errors identically, in every configuration it supports: C++14 to C++23, any optimization level, header-only or separately compiled (STRF_SEPARATE_COMPILATION with src/strf.cpp), freestanding (STRF_FREESTANDING, with or without STRF_WITH_CSTRING), signed or unsigned char, gcc or clang, and with or without the compiler's intrinsics, and 16- or 32-bit wchar_t (same code points). None of it depends on undefined behaviour.",
     ["configurations", "inputs"],
     "one catalogue of about 215,000 printed, measured, transcoded or computed results, produced by 13 configurations and compared record by record",
     "the tests are compiled once, in one configuration; code under #if (freestanding, separate compilation, language version, missing intrinsics) and code whose meaning depends on signedness, sizes or optimization is not compared with anything",
     ["src/strf.cpp", "include/strf"],
     [("STRF_SEPARATE_COMPILATION, STRF_FREESTANDING, STRF_WITH_CSTRING", "include/strf/detail/strf_def.hpp"), ("STRF_FUNC_IMPL definitions", "src/strf.cpp"), ("replacements of the C and C++ library", "include/strf/detail/standard_lib_functions.hpp")],
     [J("cfg", "cfg.cpp", libs=CONFIGS, link=["-ldl"]), J("cfgt", "cfg.cpp", libs=MORE_CONFIGS, link=["-ldl"], thorough_only=True)],
     "13 configurations, thorough 24 (listed in mc/props.py), x the whole catalogue: 4 character types x integers (every type, 15 values, every power of 2, 8, 10 and 16 and its neighbours, 3 lettercases, formats, widths, fills), groupings, floating point (every third power of two and neighbours, 24 special values x formats x precisions), strings of all words of <= 3 tokens over 9 tokens in every pair of character types, 15 charsets (every code unit, every scalar value, all 3-unit words over 12 units), ranges, joins, facets, overriders, user types, tr-strings, width_t arithmetic; each printed through a large and through a tiny buffer",
     assumptions=["two compilers on one platform: not 32-bit, not big-endian, not MSVC", "for wchar_t sizes in code units are not compared"])
