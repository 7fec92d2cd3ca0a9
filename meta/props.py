#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json; run it after editing."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of LLVM IR compiled from the headers (interval / bit-slice domain, unknown inputs, widening at loop heads)"
U = "include/papilio/utf/"
P = []
def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, **kw):
    P.append((pid, title, statement, over, text, why, files, mechanism, technique, note, kw))

prop("P01", "Errors always reach the caller; they never terminate the program",
     "Any exception raised while formatting, parsing a format string, accessing an argument or converting text - by the library itself or by user code it calls (copy and move constructors, accessors, formatters, stream insertion) - propagates to the caller of the public function. It never terminates the program by crossing a non-throwing boundary, and it is never caught and dropped inside the library.",
     ["inputs", "programs"], "for every format string, argument type (including user types whose operations throw), character type and public entry point",
     "The tests raise a handful of parse errors through a handful of entry points; which call paths end at a noexcept boundary depends on every combination of entry point, character type, argument type and the place the error is raised, and hitting one kills the test process.",
     ["include/papilio/core.hpp", "include/papilio/format.hpp", U + "string.hpp", "include/papilio/container.hpp", "include/papilio/access.hpp"],
     ["noexcept specifications of every function between a throw and the public API", "try/catch blocks that release storage and rethrow"],
     "interprocedural exception-flow analysis over LLVM IR", "every instantiation made by the harness; no bound on inputs")
prop("P04", "Text is counted, indexed, iterated and sliced in code points",
     "For every well-formed text, length, indexing, iteration in both directions, at(), reverse indexing, substr and slicing all agree on the same sequence of code points: element k is the k-th code point and its position is the sum of the sizes of the code points before it. strlen() treats bytes that begin no code point and lone surrogates as the selected behavior says (replace, ignore, stop, exception). Bytes and code units are classified (leading, trailing, surrogate, digit, space) as the encodings define.",
     ["inputs"], "for every UTF-8 text of 4 bytes, UTF-16 text of 3 units and UTF-32 text of 2 or 3 units, through every primitive",
     "The tests use a few fixed strings; a wrong class boundary or size only shows for particular bytes, positions or mixtures of sequence lengths.",
     [U + "codepoint.hpp", U + "string.hpp", "src/utf/codepoint.cpp"], ["byte_count, is_leading_byte/is_trailing_byte, index_offset, codepoint_iterator, basic_string_ref and basic_string_container"],
     AI, "all texts of the stated sizes; outcome boxes compared cell by cell with the encodings' definitions")
prop("P05", "Transcoding preserves every scalar value bit for bit",
     "Converting a code point between UTF-8, UTF-16, UTF-32 and wide text - decoding, encoding, or appending it to a buffer or output - yields exactly the code units the encoding defines for that scalar value and reports exactly the number of units consumed and produced. An unpaired high surrogate in UTF-16 input is reported as an error instead of being decoded.",
     ["inputs"], "for every scalar value, through every decoder, encoder and append path",
     "The tests convert a few sample characters; a wrong mask or shift is only visible for values that have the affected bits set.",
     [U + "codec.hpp", U + "codepoint.hpp", U + "codepoint.inl"], ["decoder and encoder specializations", "codepoint::append_to / conversions"],
     AI, "all scalar values; results are linear forms over bit slices of the input, compared on a basis of every cell")
prop("P06", "Estimated width is two exactly in the documented ranges",
     "The estimated display width of a code point is 2 for every code point in the documented intervals (East Asian wide characters, emoji blocks and so on, as in the standard's field width rule) and 1 for every other code point.",
     ["inputs"], "for every code point up to U+10FFFF",
     "The tests look up a few characters; an interval bound that is off by one is visible for single code points only.",
     [U + "codepoint.inl", U + "codepoint.hpp"], ["codepoint::estimate_width"],
     AI, "all code points; value sets compared with the documented intervals")
NA = []
exec(open(os.path.join(R, "meta", "more.py")).read()) if os.path.exists(os.path.join(R, "meta", "more.py")) else None

def main():
    with open(os.path.join(R, "properties.jsonl"), "w") as f:
        for pid, title, st, over, text, why, files, mech, tech, note, kw in P:
            assert len(title) <= 80, pid
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": mech, **kw}}) + "\n")
    na = {p for p, _ in NA}
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [
        {"property": p[0], "quick_cmd": "python3 check.py %s --tier quick" % p[0], "thorough_cmd": "python3 check.py %s --tier thorough" % p[0],
         "evidence_file": "evidence/%s.json" % p[0], "technique": p[8], "level": "other", "level_note": p[9] + "; see DESIGN.md"} for p in P if p[0] not in na],
        "not_applicable": [{"property": p, "reason": r} for p, r in NA]}
    with open(os.path.join(R, "MANIFEST.json"), "w") as f:
        f.write(json.dumps(m, indent=1) + "\n")
if __name__ == "__main__":
    main()
