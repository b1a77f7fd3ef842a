#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording is reviewable)."""
import json, os
A, CH, D, EN, ET, HE, L, NS = ("src/additive.rs", "src/chinese.rs", "src/digital.rs", "src/enumerated.rs",
    "src/ethiopic.rs", "src/hebrew.rs", "src/lib.rs", "src/nominalstring.rs")
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "A nominal string behaves exactly like the ordinary text built the same way",
  "After any sequence of creating (empty, reverse-optimised, from a character, from text), appending characters or text, prepending characters, cloning, in-place edits of the text, and conversions, the nominal string's text is exactly the text the same operations give on an ordinary string, and is valid UTF-8. An empty string made for prepending and an ordinary empty one are indistinguishable in text under equal operations, before, at and after the switch from inline to heap storage. A clone is independent of its original.",
  ["histories", "inputs"], "every sequence of string operations, every character width (1-4 bytes), every text length from 0 to well past the inline capacity and past 255 bytes",
  "The two tests push ASCII only, at most four operations, and the 'reverse' boundary cases are built with a forward string, so reverse-mode append, multi-byte characters and mixed sequences are never exercised.",
  [NS], [("inline push / push_str / push_front in both fill directions and the inline-to-heap switch", NS)],
  [("length", "low 7 bits: inline byte length; top bit: filled from the end", NS)], ["Deref to str", "From<NominalString> for String"])

p("C02", "No sequence of safe calls reaches undefined behaviour",
  "No sequence of safe API calls, on any input, reads uninitialised or out-of-bounds memory, forms references to uninitialised data, leaks or double-frees memory, or otherwise performs undefined behaviour. This holds on 32-bit and 64-bit and on little- and big-endian targets, with and without heap support.",
  ["histories", "inputs", "configurations"], "every sequence of safe calls, on every supported target class and feature set",
  "A unit test passes when undefined behaviour happens to give the right answer; the tests also never combine reverse storage, multi-byte characters and unsafe copies at every length.",
  [NS], [("unsafe slice construction over MaybeUninit storage", NS), ("raw copy in inline push_str", NS), ("unchecked UTF-8 views", NS)],
  [("bytes", "partly initialised inline buffer", NS)], ["Miri, AddressSanitizer, valgrind memcheck reports"])

p("C03", "Text of at most 62 bytes stays on the stack, with no heap allocation",
  "With heap support enabled, every nominal string built by the library's own formatting, from a character or a text slice, or by pushes onto an empty string is stored inline exactly as long as its text is at most 62 bytes, and producing it performs no heap allocation at all; longer text is on the heap. Taking the heap string out succeeds exactly for heap-stored strings, returns that very allocation, and otherwise gives the inline string back unchanged; a nominal string always occupies 64 bytes on 64-bit targets.",
  ["inputs", "histories"], "every system, nominal, integer type and string operation history",
  "Tests look at is_inline only at 62 and 63 ASCII bytes for hand-built strings; nothing counts allocations or looks at formatted results.",
  [NS, CH, A, D], [("inline capacity test before each push", NS), ("From<&str> length test", NS)], [("MaybeInline", "inline or heap representation", NS)],
  ["is_inline", "try_into_string", "a counting global allocator"])

p("C04", "Without heap support results are the same or a clean out-of-memory error",
  "Built without heap support, formatting any nominal in any system gives the same text as the build with heap support whenever that text is at most 62 bytes, and otherwise an out-of-memory error carrying that nominal (or the error the other build reports for it); errors of the build with heap support are errors of this build too, and of the same kind unless the text ran out of room first. A push that does not fit reports the error and leaves the string unchanged and usable. Neither formatting nor pushing ever panics or allocates in that build.",
  ["configurations", "inputs", "histories"], "every system (including user-defined symbol sets), nominal, integer type and push history in the build without the heap feature",
  "No test runs without the heap feature at all (that configuration is only type-checked).",
  [NS, L, A, EN, D, ET, HE, CH], [("cfg(not(feature = \"alloc\")) branches", NS), ("with_nominal error conversion", L)], [], ["try_format_nominal", "try_push*", "counting allocator"])

p("C05", "Equality, ordering and display depend only on the text",
  "Comparing a nominal string with a nominal string, string slice or owned string for equality or order gives exactly what comparing the texts gives, however either text is stored (inline forward, inline reversed, heap). Displaying it, with any width, fill, alignment and precision, prints exactly what displaying the text prints.",
  ["inputs", "configurations"], "every pair of texts and storage forms, every comparison operator and format specification",
  "Tests use == against string literals only; no ordering, no cross-representation comparison and no format specification is exercised.",
  [NS], [("PartialEq / PartialOrd / Ord / Display impls delegating to the text", NS)], [], ["operators and format!"])

p("C06", "Systems with a zero digit write exact positional notation",
  "For every collection of N >= 2 digits whose first digit is zero, built-in or user-defined, the text of a number is its base-N representation, most significant digit first, with no leading zero digit (zero is the single zero digit). Asking such a collection to count from one changes nothing.",
  ["inputs"], "every nominal of every integer type up to its maximum, every collection size and digit choice, including sizes next to the integer type's maximum",
  "Five literals in base 10 and 16 are tested; no large values, no other bases or integer types.",
  [D], [("repeated division loop of the DigitCollection formatter", D)], [], ["try_format_nominal"])

p("C07", "Alphabetic systems enumerate every string of symbols in order",
  "For every collection of N >= 1 symbols without a zero digit, the k-th nominal (k counted from 0, or from 1 when the collection counts from one) is the k-th non-empty string over the symbols, ordered by length and then alphabetically (a..z, aa, ab, ..). When counting from one, zero is reported as having no symbol, and every other number gives what the number below it gives when counting from zero.",
  ["inputs"], "every nominal of every integer type up to its maximum, every alphabet size, zero- and one-based, including alphabets larger than the integer type can count",
  "Only a, AA, Z and AA are tested on 26 letters; carries beyond two letters, other alphabets and type limits are never reached.",
  [D], [("subtract-one handling in the DigitCollection formatter", D), ("OneBased", D)], [], ["try_format_nominal"])

p("C08", "Single-symbol collections hand whole numbers to their fallback",
  "A collection limited to single symbols formats a number as one symbol exactly when the number is within its range (first symbol for 0, or for 1 when it counts from one), and otherwise formats the entire number with its fallback collection, recursively, or reports the number as out of bounds when there is no fallback. In particular the CJK heavenly stems cover 1-10 and the earthly branches 1-12, with every other positive number in CJK decimal and zero having no symbol. Restricting such a collection or asking it to count from one keeps this behaviour for the resulting range.",
  ["inputs"], "every nominal and integer type, every collection size, counting mode, and fallback chain",
  "No test formats a fixed collection or a fallback at all.",
  [D], [("fixed()/Fallback handling at the start of the formatter", D), ("CjkHeavenlyStem, CjkEarthlyBranch", D), ("OneBased / Restrict forwarding", D)], [], ["try_format_nominal"])

p("C09", "Digit collections combine exactly as their parts say",
  "Chaining two collections gives all digits of the first followed by all digits of the second, counting the way the first does; restricting to n keeps the first n digits (all of them if there are fewer) and the counting mode; counting from one keeps the digits and any zero digit and only drops zero-based counting. Nested combinations obey the same laws, and formatting with the combination equals formatting with a plain collection that lists the resulting digits.",
  ["inputs", "programs"], "every nesting of chain, restrict and one-based over collections of every size, every index and every nominal",
  "Only hexadecimal (one chain, one restrict) is tested, on two numbers.",
  [D], [("Chain, Restrict, OneBased impls of DigitCollection", D)], [], ["len/digit/has_zero_digit/zero_based/is_empty", "try_format_nominal"])

p("C10", "Built-in digit systems use exactly their script's symbols",
  "Every built-in digit system formats every number with exactly the symbols of its documented script in the documented order: the ten Unicode decimal digits of each numeric script, 0-9 then A-F/a-f for hexadecimal, the CJK digits, stems and branches, and the Latin, Greek, Hiragana, Katakana (both orders) and Hangeul alphabets. The number of symbols and the zero/one-based counting mode are the documented ones, and aliases (Urdu, Khmer) are identical to the system they alias.",
  ["inputs"], "every built-in digit system, every symbol position, every nominal",
  "Only Decimal, LetterUpper/Lower and two hexadecimal values are tested; about 35 symbol tables have no test.",
  [D], [("impl_digit_set! tables", D)], [], ["digit()", "try_format_nominal"])

p("C11", "Additive sets write the exact greedy sum or report an error",
  "For every additive symbol set, the text of a number is the greedy sum: symbols in descending value order, each repeated as often as it still fits, and the values of the written symbols add up to exactly the number. A number the greedy sum cannot reach exactly is reported as out of bounds, zero uses the set's zero symbol or is reported as having no symbol, and symbols too large for the integer type do not matter. Creating a set panics exactly when its values are not strictly descending.",
  ["inputs", "programs"], "every symbol set (size, values up to 128 bits, texts) and every nominal of every integer type",
  "Only Roman numerals exercise additive formatting; no user-defined set is tested, in particular none without a unit symbol.",
  [A], [("AdditiveSet::new ordering assertion", A), ("greedy loop", A)], [], ["AdditiveSet::new", "try_format_nominal"])

p("C12", "Roman numerals denote exactly their number",
  "Both Roman systems write zero as N and every other number in standard subtractive notation below 4,000; from 4,000 on, an overlined symbol counts a thousand times its plain value, thousands that need at most three plain M keep them, and millions repeat an overlined M. Reading the text back (subtractive pairs subtract, everything else adds) gives the number, no plain or overlined symbol group is non-canonical, and the lower-case system is exactly the upper-case one in lower case.",
  ["inputs"], "every nominal of every integer type whose numeral fits in memory",
  "Tests check 0-5, 4000, 2,000,000 and 63,000,000; most table entries (for example 90,000 and 900,000) are never reached.",
  [A], [("RomanLower / RomanUpper symbol tables", A)], [], ["try_format_nominal"])

p("C13", "Armenian and Georgian numerals denote exactly their number",
  "The Armenian systems write a positive number with the letters of the Armenian alphabet in their traditional values (1-9, 10-90, 100-900, 1000-9000) and Georgian likewise with its letters (up to 10000), highest value first, one letter per non-zero decimal digit below 10,000 (20,000 for Georgian); beyond that the highest letter repeats. No other characters appear, zero has no symbol, and upper-case Armenian is exactly lower-case Armenian in upper case.",
  ["inputs"], "every nominal of every integer type whose numeral fits in memory",
  "There is no test for these systems at all.",
  [A], [("ArmenianUpper / ArmenianLower / Georgian tables", A)], [], ["try_format_nominal"])

p("C14", "Japanese and Korean numerals denote exactly their number",
  "The formal and informal Japanese, the Hangeul formal and the formal and informal Hanja systems write each non-zero decimal digit of a number below 10,000 as its digit followed by the unit of its place, highest place first, with no mark for empty places, and zero as the system's zero symbol. Formal systems always write the digit one before a unit and informal systems never do; from 10,000 on the nine-thousand group repeats first.",
  ["inputs"], "every nominal of every integer type whose numeral fits in memory",
  "There is no test for these systems at all.",
  [A], [("JapaneseFormal/Informal, HangeulFormal, HanjaFormal/Informal tables", A)], [], ["try_format_nominal"])

p("C15", "Hebrew numerals denote exactly their number",
  "Hebrew writes a positive number with letters in descending value (tav = 400 repeated as needed, then hundreds, tens, units), so that the letter values add up to the number. The final 15 and 16 are always written tet-vav and tet-zayin with a gershayim between the two letters, for every number ending so, and a number written with a single letter, and only such a number, is wrapped in geresh and gershayim. Zero has no symbol.",
  ["inputs"], "every nominal of every integer type whose numeral fits in memory",
  "Tests check 1, 15, 16 and 997; compound endings such as 115 or 416, single-letter hundreds and narrow integer types are not reached.",
  [HE], [("symbol loop with 15/16 and single-symbol handling", HE)], [], ["try_format_nominal"])

p("C16", "Ethiopic numerals denote exactly their number",
  "Ethiopic formatting follows the CSS ethiopic-numeric algorithm for every positive number: two-digit groups from the right, group marks alternating between hundred (odd groups, omitted when the group is zero) and ten-thousand (even groups above the first), and a digit one dropped before a hundred mark or in the leading group. Reading the text back gives the number; the number one is the single digit one and zero has no symbol.",
  ["inputs"], "every nominal of every integer type up to its maximum",
  "Five literals are tested; deep groups, zero groups in each position and 128-bit values are not.",
  [ET], [("group loop and remove_digits rule", ET)], [], ["try_format_nominal"])

p("C17", "Chinese numerals denote exactly their number in the chosen scale",
  "For every Chinese system and every scale (short, myriad, mid, long), reading the text back with the scale's unit values gives exactly the number that was formatted: in the short scale each large unit is ten times the one before, in the myriad scale ten thousand times, in the mid scale (after the first two) a hundred million times, and in the long scale each is the square of the one before. Zero is the single zero character, and every number in the scale's range is formatted.",
  ["inputs", "configurations"], "every nominal of every integer type, all four systems, both usages, all four scales",
  "Twenty-two values per variant are tested, only for 128-bit integers; most digit patterns, narrower integer types and the formal systems are not.",
  [CH], [("format_short_rank / format_scaled_rank recursion", CH), ("scale tables", CH)], [], ["try_format_nominal"])

p("C18", "Chinese zero marks and the leading ten are canonical",
  "A Chinese numeral above one digit reads as a high part, a unit and a low part (recursively, for the units of its scale and for thousand, hundred and ten). In every Chinese system and scale exactly one zero character is written between a unit and its non-zero low part when the low part is smaller than a tenth of that unit (so 101, 10 001 and 1 0000 0010 have one, 2000 1000 and 110 have none), and no other zero is written: never two in a row, never at the end, never at the start except for the number zero itself. Informal systems omit the digit one in front of ten exactly when it would start the text; formal systems never omit a digit.",
  ["inputs", "configurations"], "every nominal of every integer type, all four systems, both usages, all four scales",
  "The tested values contain no empty group followed by a full group and no formal system.",
  [CH], [("last_char_is_zero / no_prefix bookkeeping", CH), ("omit_digit rule", CH)], [("last_char_is_zero", "whether the text so far ends in a zero mark", CH)], ["try_format_nominal"])

p("C19", "Chinese variants differ only in their characters",
  "For every number and scale, simplified and traditional, and ordinary and financial, variants give the same text up to replacing each character by its counterpart (digits, ten, hundred, thousand and the large units), and formal and informal differ only by a leading ten. Choosing usage and scale works in any order, the last scale chosen wins, and each system's default is the ordinary usage in the myriad scale.",
  ["inputs", "configurations"], "every nominal, all systems, every sequence of option calls",
  "Formal systems and most option combinations are never formatted by a test.",
  [CH], [("character tables", CH), ("impl_chinese_options!", CH)], [("ChineseOptions", "usage and scale", CH)], ["try_format_nominal", "option builders"])

p("C20", "Chinese scales are total up to their stated limit",
  "The myriad, mid and long scales format every nominal of every integer type without error. The short scale formats every number below 10^15 and reports every larger number as out of bounds, carrying that number; narrow integer types give the same results as wide ones.",
  ["inputs", "configurations"], "every nominal of every integer type, all systems and scales, with emphasis on the neighbourhood of every unit and of each type's maximum",
  "Out-of-bounds is tested on two values for one variant and only for 128-bit integers.",
  [CH], [("rank factor checks", CH), ("short-scale rank limit", CH)], [], ["try_format_nominal"])

p("C21", "Enumerated sets give exactly the listed symbol or an error",
  "An enumerated set of N symbols formats exactly the numbers 0..N-1 (1..N for a zeroless set) as the symbol at that position; any larger number is out of bounds, carrying the number, and zero in a zeroless set has no symbol. The circled numbers cover exactly 0-50 and the double-circled ones 1-10, each with the Unicode symbol of that value. No number of any width ever aliases another.",
  ["inputs", "programs"], "every symbol list and every nominal of every integer type, including values beyond the pointer width",
  "There is no test for enumerated sets.",
  [EN], [("index computation and bounds test", EN), ("symbol tables", EN)], [], ["try_format_nominal"])

p("C22", "Infallible formatting equals fallible formatting with a decimal fallback",
  "For every built-in system and user-defined symbol set and every nominal, infallible formatting returns exactly the fallible result when there is one and otherwise the nominal in plain decimal digits (0 when zero has no symbol), and it never panics. A no-zero-symbol error occurs only for the nominal zero, out-of-bounds and out-of-memory errors carry exactly the requested nominal, and with heap support formatting never reports out of memory. Converting an error to decimal, or unwrapping a result to decimal, gives the same text.",
  ["inputs"], "every system, nominal and integer type, including type maxima",
  "One fallback (zero in one-based letters) is shown in an example; no other error path is checked.",
  [L, D, A, EN, ET, HE, CH], [("Error::into_decimal, UnwrapOrDecimal, NominalSystem::format_nominal", L)], [], ["format_nominal/try_format_nominal/to_nominal/try_to_nominal"])

p("C23", "The result does not depend on the integer type",
  "Formatting the same number as any integer type that can hold it (8 to 128 bits and pointer-sized) gives the same text or the same kind of error, in every built-in system and every user-defined symbol set, even when the set's size or symbol values exceed what the narrower type can hold.",
  ["inputs", "configurations"], "every number, every pair of integer types, every system, including sets of 255-257 and 65535-65537 symbols and pointer widths of 32 and 64 bits",
  "Tests use u32 almost exclusively; no number is formatted in two types.",
  [L, D, A, EN, ET, HE, CH], [("T::try_from conversions and their failure branches", D), ("impl_positive_integer!", L)], [], ["try_format_nominal"])

p("C24", "Every way of invoking a system gives the same result",
  "Formatting through the nominal or through the system, directly or through any nesting of boxed or reference-counted (single- or multi-threaded) trait objects or a plain trait-object reference, gives identical results and errors, including for user-defined systems that replace the default infallible formatting.",
  ["inputs", "programs"], "every system, nominal, integer type, entry point and smart pointer",
  "One number is formatted through each pointer; errors and overridden methods are not.",
  [L], [("NominalSystem impls for Box, Rc, Arc", L), ("Nominal default methods", L)], [], ["to_nominal/try_to_nominal/format_nominal/try_format_nominal"])

p("C25", "Distinct numbers never share a nominal",
  "Within one built-in system and configuration, or one user-defined set of distinct single-character symbols, two different numbers that are both formatted successfully never produce the same text, so a list formatted with one system never contains the same label twice.",
  ["inputs", "histories"], "every pair of distinct nominals within each system",
  "Tests never compare the labels of different numbers.",
  [D, A, EN, ET, HE, CH], [("each system's formatter", "src/")], [], ["recorded (system, number, text) log"])

p("C26", "Formatting is pure and safe to share between threads",
  "Formatting the same number with the same system always gives the same result, whatever was formatted before and however many threads format concurrently with shared systems. Shared use performs no data race, and nominal strings may be moved to, read from and dropped on other threads without changing their text.",
  ["schedules", "histories"], "every interleaving of concurrent formatting calls and every call history",
  "All tests are single-threaded within one system and format each value once.",
  [L, D, A, EN, ET, HE, CH, NS], [("absence of shared mutable state", "src/"), ("static DIGITS tables", D)], [], ["ThreadSanitizer and Miri reports", "recorded results"])

p("C27", "User-defined symbol sets never make formatting panic or hang",
  "For every user-defined digit collection whose digits exist for all positions below its length, whatever its length (zero and one included), counting mode, single-symbol limit and chain of fallbacks (if that chain ends), formatting any number returns a result after a number of queries to the collection proportional to the characters written, and asks only for positions below the length. A collection that cannot represent the number (empty, or a lone zero digit and a positive number) reports it as out of bounds; an empty symbol set of any kind never panics.",
  ["inputs", "programs"], "every lawful digit collection, additive and enumerated set, every nominal of every integer type whose text fits in memory",
  "No user-defined collection is tested.",
  [D, A, EN], [("DigitCollection formatter loop", D)], [], ["calls to the collection's digit function", "returned results"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
