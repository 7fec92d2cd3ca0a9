CORE = "include/papilio/core.hpp"; INL = "include/papilio/core.inl"; SRC = "src/core.cpp"
FMT = "reference interpreter of the documented language; every outcome (input set and event terms) compared at the borders of its value sets"
prop("P24", "Reading text never leaves the text, whatever its bytes",
     "For any contents - truncated or overlong sequences, stray continuation bytes, lone surrogates, empty text - and any position argument, counting, indexing, iterating in both directions, searching, slicing and measuring a text read only units inside the text, never terminate the program and always come to an end.",
     ["inputs"], "for every text of every content and length up to the bound, every position argument and every character type",
     "The tests only use well-formed text; a read behind the end needs a particular unit right at the end of the buffer and usually passes unnoticed.",
     [U + "codepoint.hpp", U + "codepoint.inl", U + "string.hpp", U + "stralgo.hpp"], ["index_offset, strlen, cp_iter_impl, decoder, implement_string::cp_from_off, make_const_reference"],
     AI, "texts of unknown content up to 5 (thorough: 7) units")
prop("P02", "No format string makes formatting misbehave",
     "Whatever the characters of a format string - complete, truncated, with characters that belong to no construct - interpreting it never reads outside of the string, never runs into undefined behavior such as an overflowing number, never terminates the program and always comes to an end: it succeeds or raises an error.",
     ["inputs"], "for every format string and every argument value, for every character type",
     "The tests contain a few dozen malformed strings; a missing check for the end of the string or an overflow needs one particular character in one particular context.",
     [CORE, INL, SRC], ["basic_interpreter, basic_interpreter_base, script lexer/parser, parse_field_id, parse_chained_access, basic_format_parse_context"],
     AI, "21 template strings, an unknown unit at each position and each truncation; thorough: two unknown units, more character types")
prop("P03", "A scripted field executes exactly the branch its condition selects",
     "A scripted replacement field evaluates its conditions in order, comparing the named argument or literal with the literal as the operator says, and produces the output of the first branch whose condition is true, otherwise that of the final alternative, otherwise nothing. Branches that are not selected produce no output and access or format no argument, and the text behind the field is processed as usual.",
     ["inputs"], "for every value of the compared argument, every operator and every malformed or truncated variant of the scripts",
     "The tests evaluate some scripts with some values; the wrong branch, two branches or a lost tail needs a particular combination of operator, value and branch form.",
     [CORE, INL, SRC], ["basic_interpreter::exec_script, script lexer, condition evaluation, skip of branches"],
     AI, "script templates with all 64-bit values of the compared argument and an unknown unit at each position; " + FMT)
prop("P21", "Exactly the well-formed format strings are accepted",
     "A format string is rejected with an error if and only if it violates the documented grammar: unbalanced braces, malformed field names, indices, ranges, attribute names, scripts and literals, mixed numbering, missing arguments, out-of-range numbers. Every well-formed string is accepted, and what lies in branches that are skipped has to be well-formed as well.",
     ["inputs"], "for every string that differs from a template in one character or is a prefix of one, for every character type",
     "The grammar has far more malformed neighbours than the tests list; accepting one silently or rejecting a valid form shows only for that very string.",
     [CORE, INL, SRC], ["basic_interpreter::format, parse_field, parse_chained_access, exec_script, script_base::error"],
     AI, FMT)
prop("P22", "Every field formats the argument it names; other text is copied verbatim",
     "Text outside of replacement fields appears in the output unchanged and in order, with doubled braces written once. Each replacement field formats exactly the argument that its position, index or name and its chain of element, slice and attribute accesses select, with exactly the specification it carries, in the order of the fields.",
     ["inputs"], "for every string that differs from a template in one character, for every character type",
     "Tests compare complete outputs of some strings; a wrong argument, a lost or duplicated character or a wrong bound of a slice shows only for particular contexts.",
     [CORE, INL], ["basic_interpreter::format, parse_field_id, parse_chained_access, basic_format_args::get"],
     AI, "field templates with an unknown unit at each position; " + FMT)
SPEC = "reference implementation of the documented specification language; every outcome (input set and output terms) compared at the borders of its value sets"
prop("P07", "Format specifications are accepted and applied exactly as documented",
     "For integers, bool, characters, strings, pointers, enumerations, infinity and NaN, a format specification - fill, alignment, sign, alternate form, zero padding, width, precision and type - is accepted if and only if the documentation allows it for that kind, and the output is exactly the one it describes: padded to the width measured in display columns, on the documented side, with the sign, prefix and digits in the documented order. A width or precision taken from another argument has the same effect as the number written out, and values that are no width or precision, or no character, are reported as errors.",
     ["inputs"], "for every specification that differs from a template in one character or is a prefix of one, every dynamic width or precision, for every character type",
     "Options interact (alignment with zero padding, sign with prefix and width, precision with wide characters); the tests contain few of the combinations and hardly any malformed one.",
     [CORE, "doc/en/builtin_formatter.md"], ["std_formatter_parser, simple_formatter_parser, std_formatter_base::fill_size, int_formatter, float_formatter, codepoint_formatter, string_formatter, enum_formatter, fmt_parser_utils::parse_value"],
     AI, SPEC)
prop("P15", "Integers are printed exactly, whatever their value, type and base",
     "For every value of every integer type, including the smallest one, formatting it in base 2, 8, 10 or 16 writes its sign and exactly the digits of its magnitude, without leading zeros other than those requested, together with the requested prefix and padding.",
     ["inputs"], "for all 2^8 to 2^64 values of the eight integer types, through ten specifications",
     "The tests print a few dozen numbers; errors sit at the limits of the types and at powers of the base.",
     [CORE], ["int_formatter::format, digit_map_lower, digit_map_upper"],
     AI, SPEC)
prop("P17", "Escaped output shows every character and every invalid unit unambiguously",
     "With the debug type, tab, newline, carriage return, backslash and the surrounding kind of quote are written as their escape sequence, other control characters as their hexadecimal code point, and all other characters unchanged. Units that are not part of any character - stray or missing continuation bytes, lone surrogates, values beyond the last code point - are written as the hexadecimal value of exactly these units, and no unit before or behind them is lost, repeated or misread.",
     ["inputs"], "for every string of up to 3 units (thorough: more), well-formed or not, and every code point, for every character type",
     "The tests escape a few strings and a single invalid sequence; what follows or precedes an invalid unit decides about losing text.",
     [CORE, "doc/en/builtin_formatter.md"], ["format_context_traits::append_escaped, append_escaped_impl, append_as_esc_seq, has_esc_seq, append_hex_digits"],
     AI, "strings of unknown units; output terms compared with the documented escaping rules")
F = "include/papilio/formatter/"
prop("P20", "Composite values are written element by element",
     "A range, map, tuple, pair, optional, variant or joined range is written as its elements in order, each exactly once, each with the element specification given, with the separator between every two neighbours and the brackets of its kind around them. Strings that are elements count as one element. A specification is accepted if and only if it is one the kind knows (no brackets, map notation, text, escaped text, element specification), and an empty or valueless object is written as such.",
     ["inputs"], "for every element value and every specification that differs from a template in one character or is a prefix of one, for every character type",
     "The tests format a few lists of small numbers; separators, brackets and element specifications go wrong for empty, nested, single element or text elements and for unusual specifications.",
     [CORE, F + "tuple.hpp", F + "vocabulary.hpp", "include/papilio/format.hpp", "include/papilio/utility.hpp"], ["range_formatter, formatter<tuple_like>, formatter<std::optional>, formatter<std::variant>, formatter<joiner>, format_kind"],
     AI, SPEC)
FH = "include/papilio/format.hpp"
SC = "reference computation; every outcome (input set and observed steps as terms) compared at the borders of its value sets"
prop("P08", "Bounded, counting and lazy formatting agree with plain formatting",
     "Formatting into a limited space writes exactly the first n characters of what plain formatting produces, never more than n, leaves the returned position right behind them and reports their number. The size computed in advance is exactly the number of characters plain formatting produces, and iterating over a lazily formatted range yields exactly these characters. This holds for user-defined formatters as well, whatever way of writing to an output iterator they use.",
     ["inputs"], "for every bound, every argument value, and every way a formatter advances the output iterator",
     "The tests use two bounds and outputs of fixed length; a lost count shows only for certain writers, and a step without output only at the end of the range.",
     [FH, "src/format.cpp", CORE], ["format_to_n_wrapper, format_to_n_impl, formatted_size_counter, formatted_size_impl, formatted_range::const_iterator, basic_interpreter::run_if, run_n, vformat_to"],
     AI, SC)
prop("P13", "The locale takes effect exactly where L asks for it",
     "A locale that is passed to a formatting function is the one that a field with the L option uses, and it reaches formatters that ask for it through every level of nesting: optional values, tuples, joined ranges and formatters that format further values. Without a locale the classic one is used, and a field without the L option produces the same output whatever locale was passed.",
     ["inputs", "programs"], "for every formatting function, with and without a locale, and every kind of formatter that can use one",
     "The tests use one locale with one function; a locale that is dropped on one path or used without being asked for shows only with a locale that differs from the classic one.",
     [CORE, FH, F + "chrono.hpp", F + "vocabulary.hpp", "src/format.cpp", "include/papilio/locale.hpp"], ["locale_ref, basic_format_context::getloc, string_formatter::get_str, streamable_formatter, vformat_to_impl, formatted_size_impl, format_to_n_impl"],
     AI, "event traces of the uses of locales; " + SC)
prop("P12", "Styled text switches on exactly what the style selects, and off again",
     "A text style that is set writes one escape sequence for every selected attribute and one for the selected foreground and background colors, and nothing that was not selected; if and only if anything was selected, a reset sequence follows the text. Combining styles selects what either of them selects, in whatever order and form they are combined, and a style applies to exactly the one argument or text it was given for.",
     ["inputs"], "for every combination of attributes and colors, every way of combining them and every way of applying them",
     "The tests use a handful of combinations with a foreground color each; losing or leaking a style shows for particular combinations only.",
     ["include/papilio/color.hpp", "src/color.cpp", "src/print.cpp"], ["text_style::set, reset, operator|=, fg, bg, formatter<styled_arg>, vprint_impl"],
     AI, SC)
prop("P11", "Printing delivers the whole text once, or reports an error",
     "A successful print sends exactly the formatted text, followed by a newline where one was requested, to the destination, once and in order. When the destination takes only a part of it or fails in any way, the caller gets an error instead of a normal return, nothing is sent twice, and a text that could not be formatted leaves no partial output behind.",
     ["inputs", "faults"], "for every printing function, every argument value and every result of the system's write and flush operations",
     "The tests print to working streams only; a short write or a failing flush never happens there.",
     ["include/papilio/print.hpp", "src/print.cpp", "src/os/general.cpp", "src/os/posix.cpp"], ["print, println, vprint_impl, file_iterator, os::output_conv, os::output_nonconv"],
     AI, "the system's output functions are replaced by events with unknown results; " + SC)
prop("P09", "Values are alive when used and destroyed exactly once, errors included",
     "Every argument, element, attribute, slice or intermediate value of a chain of accesses exists at the moment it is formatted, compared or accessed further, and has the value that was given or returned by the accessor. Stored arguments that are copied, moved, swapped, overwritten or removed keep this guarantee as long as the owner exists. Every object created on the way is destroyed exactly once, also when copying an object or formatting fails.",
     ["inputs", "faults"], "for every chain of accesses and operation on stored arguments listed, objects stored in place and on the heap, and a failure of any copy",
     "The tests use objects without identity; a use after destruction reads what is left in memory and mostly looks right.",
     [CORE, INL, "include/papilio/memory.hpp", "include/papilio/utf/string.hpp"], ["basic_format_arg::handle, handle_impl_ptr, handle_impl_soo, parse_chained_access, keep_alive, parse_variable, basic_variable::convert_variant, basic_string_container, optional_unique_ptr"],
     AI, "objects that know whether they are alive, counted; accesses to released memory; " + SC)
prop("P10", "Formatting only reads what it is given, and repeats exactly",
     "The caller's objects - arguments, what they own or refer to, stored argument lists and styled or joined values - are never modified, moved from or released by formatting, measuring or accessing them, not even if it fails. Formatting the same arguments again gives the same output.",
     ["inputs", "programs"], "for every kind of argument, passed by value, reference, name or stored list, every entry point, and every access",
     "The tests format each object once and do not look at it afterwards; a string that was moved from shows only on second use.",
     [CORE, FH, INL, "include/papilio/accessor", "include/papilio/formatter", "include/papilio/color.hpp"], ["basic_format_arg, make_format_args, basic_dynamic_format_args, named_arg, basic_variable, formatters and accessors"],
     AI, "the caller's objects are frozen: a write, move or release of them, or of memory they own, is the violation; the second formatting is compared with the first")
prop("P14", "Formatting keeps no hidden state",
     "What a formatting function does depends on its arguments only: apart from the caller's objects it modifies nothing that outlives the call, and does not use functions of the C and C++ libraries that keep or change state of the whole program. Concurrent, nested and repeated calls with different objects thus cannot affect each other.",
     ["programs", "schedules"], "for every function of the library, reachable in any program",
     "The tests run in one thread, one call after another, and cannot see a static buffer that is overwritten by another thread or a nested call.",
     [CORE, FH, "src", "include/papilio"], ["all functions and all variables of static or thread storage duration"],
     "interprocedural effect analysis over LLVM IR", "every variable that outlives a call is constant after its guarded initialization: all of its uses are followed, through calls, and none is a write")
prop("P18", "Containers and owning pointers behave like the standard's, errors included",
     "After every operation a container of the library holds exactly the elements, in the order, that a standard vector or map would hold, also when the arguments are its own elements; access out of range and overfilling are reported as errors. Every element is destroyed exactly once, nothing is used after its destruction or outside the container's memory, and all memory is returned, also when copying or moving an element fails. An owning pointer releases exactly what it owns, once, with the deleter that came with it.",
     ["inputs", "faults"], "for every operation listed, sizes around the inline and dynamic capacity, every element value, and a failure of any copy, move or allocation",
     "The tests put numbers into containers; leaks, double destruction and lost elements show only for elements with identity, at changes between inline and dynamic memory, and in failing moves.",
     ["include/papilio/container.hpp", "include/papilio/memory.hpp", "src/container.cpp"], ["small_vector, fixed_vector, fixed_flat_map, compressed_pair, optional_unique_ptr, optional_ptr"],
     AI, "elements that know whether they are alive, counted; accesses outside or after the release of memory; " + SC)
prop("P16", "Indices, slices and attributes select exactly the documented element",
     "An index selects the element at that position, counted from the end if negative; a slice selects the elements from its first to before its last position, both counted from the end if negative and cut at the ends; a named key or attribute selects the element or value with exactly that name. What does not exist yields an empty value or an error as documented, never another element or memory outside of the object.",
     ["inputs"], "for every index, both bounds of every slice, every length and content of the accessed strings, ranges, tuples and maps, for every character type",
     "The tests use a few indices within range; the borders, negative positions beyond the beginning and keys that do not fit their type go wrong unnoticed.",
     ["include/papilio/accessor", "include/papilio/access.hpp", "doc/en/builtin_accessor.md", "include/papilio/utf/string.hpp", "include/papilio/utility.hpp"], ["string_accessor, map_accessor, tuple_accessor, range accessors, index_range::normalize, str_ref_base::index_by_cp, substr, cp_begin, get_slice"],
     AI, SC)
