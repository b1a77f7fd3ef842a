"""What the cases of each property are, and what makes one count as distinct
and non-trivial (goes into the evidence files), with the assumptions."""

VALS = ("Numbers per system and integer type: every number from 0 up (dense prefix), every power of the base, of two and of ten and every "
        "symbol value with its neighbours, the maxima of all six integer types with their neighbours, numbers built from digit patterns with "
        "many zeros and repeats, numbers derived from the integer literals in the crate's source, and random numbers of every bit length. Types: u8, u16, u32, u64, u128, usize. ")
ONCE = "A case is one (system, integer type, number); repeats within a unit are removed before running, so each counts once. "
MODEL = "The oracle is an independent specification of the system, written from the property text and the Unicode/CSS tables, not from the code. "

M_ORACLE = "the harness's own specification of each numeral system is right (it was written independently of the code and the two agree everywhere observed)"
M_CAP = "systems whose text grows with the number itself (additive repetition) are observed only up to texts of a bounded length"
M_SAMPLE = "what was not executed was not observed: 128-bit numbers are sampled, not enumerated"
M_TOOL = "rustc, std and the allocator behave; the counting allocator only counts and forwards"

ABOUT = {
 "C01": ("A case is one history: a start (empty, reverse, char, text, owned text) and a sequence of pushes, front pushes, clones, in-place edits and "
         "conversions (clone_from included), run on a nominal string and on a String side by side, compared after every step. All one- and two-step continuations from "
         "every length 0..66 with characters of 1-4 bytes are run systematically, the rest is random and biased to lengths around 62. Distinct: by the "
         "hash of the whole history; trivial (no operation) histories are not counted.", [M_SAMPLE, M_TOOL]),
 "C02": ("Cases as in C01 (string histories), plus formatting of every system at sampled numbers with the text read back and edited in place, plus "
         "comparisons and displays, and formatting of collections and systems that break their contract (lying lengths, changing answers, panics midway). The same program runs natively (leak accounting), under AddressSanitizer, under valgrind memcheck (both builds) "
         "and under Miri (x86_64, i686 32-bit, s390x big-endian; with recursive validation of references on a part), each run listed separately. "
         "Distinct: per run, by history or (system, type, number).",
         ["Miri, AddressSanitizer and valgrind report what they claim to report", M_SAMPLE, "Miri runs interpret a small slice of the workload each time; the slice moves with the seed"]),
 "C03": ("Histories as in C01 and " + VALS + ONCE + "At every step the counting allocator's events, is_inline and the outcome of try_into_string are compared with the text length.",
         [M_TOOL, M_SAMPLE, M_CAP]),
 "C04": ("Every call is made in the build with heap support, recorded, then repeated in the build without and compared entry by entry: " + VALS + ONCE +
         "Also push histories as in C01 in the build without heap support, with the allocator counting.", [M_TOOL, M_SAMPLE, M_CAP]),
 "C05": ("A case is one pair of texts (equal, prefix, one character changed, extended, reversed, unrelated), each built in up to five storage forms, every operator "
         "on every pair of forms; or one text displayed with fixed and computed width/precision/fill/alignment. All pairs of twelve short texts always run. Distinct: by the pair of texts.",
         [M_TOOL, M_SAMPLE]),
 "C06": (VALS + ONCE + "Systems: every built-in numeric script, fixed combinations with 2..65,537 digits, random user-defined collections (chained, restricted, one-based, plain), and collections of computed digits with lengths around every integer limit up to usize::MAX. " + MODEL, [M_ORACLE, M_SAMPLE]),
 "C07": (VALS + ONCE + "Systems: every built-in alphabet, alphabets of 1..65,537 symbols around every type's limit, and random user-defined collections counted from 0 and from 1. " + MODEL, [M_ORACLE, M_SAMPLE, M_CAP]),
 "C08": (VALS + ONCE + "Systems: the CJK stems and branches, single-symbol collections of many sizes, and random ones with fallback chains, restricted and one-based. " + MODEL, [M_ORACLE, M_SAMPLE]),
 "C09": ("A case is one combination (nested chain/restrict/one-based) whose length, digits, modes and limits are read and compared with the laws, or one (combination, type, number) "
         "formatted with the combination and with a plain collection listing the resulting digits. Parts record the positions they are asked for. " + VALS, [M_ORACLE, M_SAMPLE]),
 "C10": (VALS + ONCE + "For every built-in digit system the digits are read one by one and formatted texts are checked for the exact script symbols, against tables written as Unicode code points.", [M_ORACLE, M_SAMPLE]),
 "C11": (VALS + "Also sums of a few symbol values with their neighbours. " + ONCE + "Systems: random additive sets with 0..300 symbols, values up to 128 bits, texts of 0 to 90 bytes, with and without unit and zero symbols, some with a symbol that is empty. "
         "Separately, value lists given to AdditiveSet::new, strictly descending or not. " + MODEL, [M_ORACLE, M_SAMPLE, M_CAP]),
 "C12": (VALS + ONCE + "Plus every residue modulo 1,000,000. The text must equal the specification's and read back to the number by an independent reader. " + MODEL, [M_ORACLE, M_SAMPLE, M_CAP]),
 "C13": (VALS + ONCE + "Plus every residue modulo 10,000. The letters must add up to the number. " + MODEL, [M_ORACLE, M_SAMPLE, M_CAP]),
 "C14": (VALS + ONCE + "Plus every residue modulo 10,000. " + MODEL, [M_ORACLE, M_SAMPLE, M_CAP]),
 "C15": (VALS + ONCE + "Plus every residue modulo 400 at sixty heights. The text must read back to the number. " + MODEL, [M_ORACLE, M_SAMPLE, M_CAP]),
 "C16": (VALS + ONCE + "The text must equal the CSS algorithm's and read back to the number. " + MODEL, [M_ORACLE, M_SAMPLE]),
 "C17": (VALS + ONCE + "All four systems x formal/informal x four scales. An independent recursive reader must return the number from the text with its zero marks removed.", [M_ORACLE, M_SAMPLE]),
 "C18": (VALS + ONCE + "All four systems x formal/informal x four scales. The sequence of zero marks, digits, tens and units must be the canonical one for the number; the leading-ten rule is checked on its own.", [M_ORACLE, M_SAMPLE]),
 "C19": (VALS + ONCE + "Each number is formatted in all eight variants of a scale and mapped character by character; and every sequence of option calls up to length 5 (quick) or 7 (thorough) is compared with the canonical way to the same configuration.", [M_ORACLE, M_SAMPLE]),
 "C20": (VALS + ONCE + "All four systems x formal/informal x four scales, each result compared with the stated range and with the same number as u128.", [M_SAMPLE]),
 "C21": (VALS + ONCE + "Systems: the circled and double-circled numbers and user-defined lists of 0..70,000 symbols with and without zero, with numbers that alias the index modulo 2^8..2^64. " + MODEL, [M_ORACLE, M_SAMPLE]),
 "C22": (VALS + ONCE + "Systems: every built-in in every configuration and random user-defined digit, additive and enumerated sets. Both ways of formatting are called and compared; the payload of every error is read. Error conversions are called on their own.", [M_SAMPLE, M_CAP]),
 "C23": (VALS + ONCE + "Each number is formatted as u128 and as every type that can hold it; the results are compared. The same program is repeated under Miri for a 32-bit target, where usize is 32 bits wide.", [M_SAMPLE, M_CAP]),
 "C24": ("A case is one (system, type, number) formatted through every entry point and every pointer nesting (&, &dyn, Box, Rc, Arc, nested, generic and dyn, with up to 70 other owners and weak references about), and for user-defined systems that override the infallible or only the fallible method. "
         "Results, errors and infallible texts are compared with the direct call. " + ONCE, [M_SAMPLE]),
 "C25": (VALS + ONCE + "All texts of one system and type are logged, and the log is searched afterwards for one text with two numbers. For thousands of the larger numbers all those one step away in any one place, or with two neighbouring places exchanged, are logged too.", [M_SAMPLE, M_CAP]),
 "C26": ("A case is one (system, type, number). It is formatted first by all threads at once, alone, then over and over by all threads in different orders (random, clustered, a few numbers of one system hammered), with strings sent between threads, and once more alone; "
         "every result is compared with the one alone. Each system is also called 70 to 1,400 times in a row with one number and with two in turn, called inside its own calls and after calls cut short, hammered by all threads (8 and 70) on a few numbers at once, and first used by all threads at the same moment in over a thousand fresh processes. The same program runs under ThreadSanitizer and under Miri with several schedules.",
         ["schedules are those the kernel and Miri's seeded scheduler produced", M_SAMPLE]),
 "C27": (VALS + ONCE + "Systems: random lawful user-defined collections (0..65,537 digits) that count and check the positions they are asked for, and empty or one-symbol sets of every kind. A panic, a call over 20 s of CPU time or 1 GiB, a position at or past the length, or more queries than characters allow is a violation.",
         [M_SAMPLE, M_CAP]),
}
