#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the list here, then run it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

CE = ["include/char_encoding.h", "src/char_encoding.cpp"]
prop("C01", "UTF-8 encoding round-trips every 32-bit character value",
 "Every 32-bit character value except the end marker 0xFFFFFFFF and the reserved illegal-byte markers 0x80000000-0x800000FF encodes to between one and six bytes, exactly as many as the length functions announce (by value, by first byte, by encoded text), the first byte being a start byte and all others continuation bytes, in the shortest standard form. Decoding those bytes returns the same value and advances by exactly that length, whatever bytes follow. The illegal-byte markers encode as their one raw byte, and a padded zero of any announced length decodes to zero.",
 ["inputs"], "for all 2^32 character values, each followed by any byte",
 "The tests sample the smallest and largest value of each encoded length; the property quantifies over all 2^32 values.",
 CE, [("UTF8Put/UTF8Get/UTF8Len/UTF8CorrectLen", "include/char_encoding.h"), ("UTF8PutPaddedZero", "include/char_encoding.h")])
prop("C02", "Decoding any bytes is total, and backing up mirrors going forward",
 "Any NUL-terminated byte string decodes from its start into a sequence of characters without ever reading beyond the NUL: a complete sequence yields one character, and every byte that does not start a complete sequence yields alone its illegal-byte marker, so that the characters' lengths add up to the string. Backing up from any position reached that way returns exactly the previous such position, never passes the given limit, and returns null at the limit; backing up from inside a complete character returns its start. The length function for encoded text always equals the distance decoding advances, and peeking never moves.",
 ["inputs"], "for all byte strings, well-formed or not, and all positions in them",
 "Tests hold a few dozen well-formed strings; malformed, truncated and stray-byte strings in all combinations, traversed both ways, are not sampled.",
 CE, [("UTF8Get illegal path", "include/char_encoding.h"), ("UTF8Backup", "include/char_encoding.h"), ("UTF8Len(const UTF8*)", "include/char_encoding.h"), ("UTF8Peek", "include/char_encoding.h")])
prop("C03", "UTF-16 encoding round-trips every Unicode character in both byte orders",
 "Every Unicode character that is not a surrogate is stored in as many UTF-16 units as its announced length, as itself below 0x10000 and otherwise as a standard high/low surrogate pair, in native or in swapped byte order. Reading those units back with the same byte order returns the same character and consumes exactly those units, and byte-swapping twice is the identity.",
 ["inputs", "configurations"], "for all Unicode characters, both byte orders, all 65536 units",
 "There is no UTF-16 test at all.",
 ["include/char_encoding.h"], [("UTF16Put/UTF16Get/UTF16Len/UTF16Swab", "include/char_encoding.h"), ("UCS4HighSurrogate/UCS4LowSurrogate", "include/char_encoding.h")])
prop("C04", "Character class, digit value and case depend on the character alone",
 "Digit value, alphabetic, white space and letter case tests, and upper/lower/title case conversion of a character are functions of that character only: the answer never depends on which characters were queried before or concurrently. Digit values are 0-9 in increasing order within each block of Unicode digits (including the ideographic zero U+3007 and the Hangzhou numerals U+3021-U+3029, which count 1-9), hexadecimal adds A-F/a-f, and -1 is returned for everything else; the conversions follow the Unicode case tables, leave other characters unchanged, and any character with a case conversion is alphabetic. White space is space, tab, newline, carriage return, no-break space, U+2000-U+200B, U+2028, U+2029 and U+3000.",
 ["inputs", "histories", "schedules"], "for all characters, after any history of earlier queries, on any thread",
 "Each query leaves a memo behind that the next one consults; tests query a handful of characters in one fixed order.",
 CE + ["src/case_conversions.c"], [("per-function memo of the last range", "src/char_encoding.cpp"), ("range tables", "src/case_conversions.c")],
 [("last_memo", "index of the last range that matched, shared by all callers", "src/char_encoding.cpp")])
prop("C05", "Guarded text pointers behave as pointers and never leave the text",
 "A NUL-guarded pointer behaves as a plain pointer over a NUL-terminated string (stepping by bytes, or by whole characters for the UTF-8 kind) except that no forward movement goes beyond the NUL; a fully guarded pointer additionally never moves before the position it was constructed at. This holds for every movement operator (++, --, both forms, +=, -=, + and -), however far the requested movement would go, and end-of-text and start-of-text are reported exactly there.",
 ["inputs", "histories"], "for all strings and all sequences of pointer movements",
 "The only test moves one unguarded-at-start pointer forward over one string.",
 ["include/char_ptr.h", "include/utf8_ptr.h"], [("NulGuardedCharPtr/GuardedCharPtr", "include/char_ptr.h"), ("NulGuardedUTF8Ptr/GuardedUTF8Ptr", "include/utf8_ptr.h")])

SV = ["include/strval.h", "include/array.h", "include/refcount.h"]
prop("C06", "Strings are independent values: mutating one never changes another",
 "Whatever sequence of copying, assigning, slicing, concatenating, appending, inserting, prepending, repeating, case-converting and dropping of strings is performed, every string variable always holds exactly the characters that the same operations on plain character sequences would give it. In particular no operation on one variable alters a copy or substring held in another (nor characters outside the substring it works on), even when operands share storage or are the same variable.",
 ["histories"], "for all sequences of string operations over several variables that share storage",
 "strval tests only check that a tiny program exits 0; sharing, offsets and in-place mutation interact only over multi-step histories with aliases.",
 SV, [("StrVal::Unshare/copyBody", "include/strval.h"), ("StrVal::insert/operator+ contiguous-slice shortcut", "include/strval.h"), ("Ref counting", "include/refcount.h")],
 [("body/offset/num_chars", "shared content and the slice of it a StrVal denotes", "include/strval.h")])
prop("C07", "String indexing is by character and independent of earlier accesses",
 "The i-th character of a string, its length, its byte length, its UTF-8 text (with or without NUL termination) and any substring, head, tail or shortened form denote the same characters as indexing the plain sequence of decoded characters, including strings that contain malformed UTF-8, which count one character per bad byte. The answers do not depend on the order of earlier accesses or on earlier mutations, and out-of-range requests are clamped or answered with an empty string as documented.",
 ["inputs", "histories"], "for all strings of mixed character widths, all sequences of indexed accesses, substrings and intervening mutations",
 "The position bookmark makes each access depend on the previous ones; tests never index a non-ASCII string in different orders.",
 SV, [("StrBody::nthChar forward/backward search", "include/strval.h"), ("StrVal bookmark", "include/strval.h"), ("StrBody::countChars", "include/strval.h")],
 [("mark", "cached (character, byte) position in the body", "include/strval.h"), ("num_chars", "lazily counted length of a body", "include/strval.h")])
prop("C08", "String search and comparison agree with the character sequences",
 "Forward and backward searches of a string for a character, a substring, any of a set, or none of a set, from the start or from any given position, return the position a naive scan of the character sequences returns, or -1. Equality holds exactly when the characters are equal, and ordering is a strict total order that agrees with comparing the strings' UTF-8 bytes lexicographically, a proper prefix being smaller; neither reads outside the operands, which may be slices of one another.",
 ["inputs"], "for all pairs of strings and slices up to the bound, and all start positions",
 "No test calls a search function or compares slices of unequal length.",
 SV, [("StrVal::find/rfind/findAny/rfindAny/findNot/rfindNot", "include/strval.h"), ("StrVal::compare", "include/strval.h")])
prop("C09", "Text to 32-bit integer conversion is exact or reports why not",
 "Converting a string to a 32-bit integer skips surrounding white space, accepts one sign, recognises 0b/0x prefixes and a leading-zero octal when no radix is given, and returns the exact value of the digits in the radix whenever it fits in 32 signed bits, with error 0 and the whole string scanned. Otherwise the error says which problem occurred: no digits, not a number, trailing text after the number (with the value and the count of characters scanned up to it), overflow whenever the value does not fit, or an illegal radix.",
 ["inputs", "configurations"], "for all strings over the significant characters, all radixes",
 "One or two fixed strings are converted by the existing tests; sign, blank, prefix, digit, overflow and tail combinations are not covered.",
 ["include/strval.h", "include/error.h"], [("StrVal::asInt32", "include/strval.h"), ("Digit", "include/strval.h")])
prop("C10", "JSON string escaping is valid JSON and decodes to the same text",
 "The JSON form of a string of Unicode characters (any code point up to U+10FFFF except surrogates, including NUL, control characters and quotes) is legal inside a JSON string literal by RFC 8259, and a JSON parser decodes it to exactly the original characters. It never changes the string it was taken from, and never aborts.",
 ["inputs"], "for all Unicode characters and all short strings and slices of them",
 "Tests print JSON of a few ASCII strings without checking it.",
 ["include/strval.h"], [("StrBody::toJSON", "include/strval.h"), ("StrVal::asJSON", "include/strval.h")])
prop("C11", "Variant JSON output is valid and carries exactly the variant's data",
 "The JSON produced for any nesting of null, integers, strings, string arrays, variant arrays and string-keyed maps is one syntactically valid JSON value that parses back to the same nested data, in the compact, single-line and indented layouts alike. The layouts differ only in white space outside strings.",
 ["inputs", "configurations"], "for all nested variants up to the bound, all layouts",
 "The variant test prints JSON for one value of each kind and checks nothing.",
 ["include/variant.h", "include/strval.h"], [("Variant::as_json", "include/variant.h")])
prop("C12", "String transformation, case conversion and joining apply character by character",
 "Transforming a string presents each character exactly once, in order, from the position after the given one, replaces the characters the callback consumed by the string it returned, copies everything else unchanged, and stops transforming when the callback consumes nothing. Upper and lower case conversion of strings equals converting each character, and joining an array of strings equals concatenating them with the joiner between neighbours.",
 ["inputs", "programs"], "for all strings, start positions and callback behaviours (consume 0, 1 or 2 characters, return any replacement)",
 "No test calls transform, join or case conversion on non-ASCII text.",
 SV, [("StrBody::transform", "include/strval.h"), ("StrBody::toLower/toUpper", "include/strval.h"), ("StringArray::join", "include/strval.h")])
prop("C13", "Arrays are independent values: mutating one never changes another",
 "Whatever sequence of copying, slicing, concatenating, element assignment, appending, inserting (at any position, also of overlapping or identical arrays), removing, shifting, unshifting, pulling, reversing, clearing and conditional deletion is performed, every array variable always holds exactly the elements that the same operations on plain lists would give it. No operation alters another array variable even when they share storage.",
 ["histories"], "for all sequences of array operations over several variables that share storage",
 "array_test performs one fixed sequence and checks only that the program exits 0.",
 ["include/array.h", "include/refcount.h"], [("Array::Unshare", "include/array.h"), ("contiguous-slice shortcuts of insert and +", "include/array.h"), ("ArrayBody::insert/remove/resize", "include/array.h")],
 [("body/offset/num_elements", "shared storage and the slice of it an Array denotes", "include/array.h")])
prop("C14", "Array searching, comparison and functional methods agree with plain lists",
 "Linear search forward and backward (by element or by predicate, from any position), detection, all/any/one, selection, mapping, folding, visiting and binary search give on every array or slice the result they would give on the plain list of its elements, each visiting elements in order and leaving the array unchanged. Comparison is the lexicographic order in which a proper prefix is smaller, consistent with equality; all of these are defined on empty arrays.",
 ["inputs"], "for all arrays and slices up to the bound, all predicates on the element domain, all start positions",
 "The functional methods are exercised at most once each, never on empty arrays or slices.",
 ["include/array.h"], [("find/rfind/detect/all/any/one/select/map/inject/each/bsearch/compare", "include/array.h")])
prop("C15", "Copy-on-write maps are independent values",
 "Whatever sequence of copying, inserting, putting, removing, clearing and looking up is performed on several maps, each always holds exactly the entries that the same operations on independent ordinary maps would give it: insert keeps an existing entry, put replaces it, and no operation alters a copy. Enumeration, keys, values, selection, mapping, folding and the all/any/one tests visit exactly these entries in key order.",
 ["histories"], "for all sequences of map operations over several variables that share storage",
 "No test exercises a shared map at all.",
 ["include/cowmap.h"], [("CowMap::Unshare", "include/cowmap.h"), ("CowMap::put/insert/remove", "include/cowmap.h")],
 [("body", "shared std::map of entries", "include/cowmap.h")])
prop("C16", "Variants hold, copy and convert values without loss or leak",
 "A variant always reports the type and returns exactly the value last stored in it, through any sequence of construction, copying, assignment (also to itself) and conversion among variants, and copies are independent. Converting between integer widths and between integers and strings preserves the value exactly and changes the reported type accordingly; a conversion that would lose information or makes no sense is refused by assertion rather than yielding a wrong value, and no stored value is leaked or released twice.",
 ["histories", "inputs"], "for all sequences of variant operations over several variables; for all source types, target types and boundary values",
 "variant_test only prints one value per type; conversions between types and reassignment sequences are not checked.",
 ["include/variant.h"], [("Variant::coerce/must_be", "include/variant.h"), ("Variant copy, assignment and coerce_none", "include/variant.h")],
 [("_type/u", "tag and union of the stored value", "include/variant.h")])
prop("C17", "Error numbers preserve set and code and are always negative",
 "An error number built from any message set (0-65535) and message code (0-16383) is negative, non-zero, returns that set and that code, and differs from every error number built from another pair; zero means no error, and rebuilding from the integer value gives the same number. An error object returns the number, text and parameters it was created with through any copying and assignment.",
 ["inputs", "histories"], "for all 2^30 set/code pairs; all short sequences of copies and assignments of errors",
 "err_test prints one error.",
 ["include/error.h"], [("ErrNum bit layout", "include/error.h"), ("Error body reference", "include/error.h")])
prop("C18", "Values shared between threads stay correct under every interleaving",
 "When several threads each copy, read, slice, mutate and drop their own string, array, map, variant and error variables that share storage, every thread sees exactly the results it would see running alone, in every interleaving. No memory is accessed by two threads without synchronisation when one access writes, and shared storage is released exactly once, after its last user.",
 ["schedules"], "for all interleavings of two or three threads up to the preemption bound, over the operations of each value type",
 "No test shares a value between threads, and a free-running test would meet only a few of the interleavings.",
 ["include/refcount.h", "include/strval.h", "include/array.h", "include/cowmap.h", "include/variant.h", "include/error.h"],
 [("atomic reference count, delete on last release", "include/refcount.h"), ("Unshare before mutation", "include/array.h"), ("lazy character count", "include/strval.h")],
 [("ref_count", "number of variables using a body", "include/refcount.h")])
prop("C19", "Every started thread is joined exactly once and nobody waits forever",
 "Each started thread runs its body exactly once, sees itself as the current thread, and is returned by exactly one join or any-join after it has ended, whatever the interleaving of starting, running, ending and joining threads. Join returns only after that thread has ended; an any-join returns an ended thread that nobody joined yet, waits while all unjoined threads still run, and returns null (without waiting) when no unjoined thread other than the main one remains; no joiner waits forever.",
 ["schedules"], "for all interleavings up to the preemption bound of one to three threads, started and joined individually or by any-join from one or two joiners",
 "thread_test is built but not part of the reliable tests (it crashes intermittently), and samples single schedules.",
 ["include/thread.h", "src/thread.cpp"], [("Thread::resume/ThreadProc/join/joinAny", "src/thread.cpp"), ("ended_threads_condition and ended_count", "src/thread.cpp")],
 [("threads", "map of live threads by id", "src/thread.cpp"), ("ended_count", "ended but unjoined threads", "src/thread.cpp")])
prop("C20", "Latches exclude, conditions wake, and timed waits honour their timeout",
 "At most one thread at a time is between entering (or successfully probing) a latch and leaving it, a probe never waits and succeeds exactly when the latch is free, and only the holder is told that it holds the latch. A thread waiting on a condition releases its latch while waiting and holds it again on return; a signal wakes at least one waiter and a broadcast wakes all; a timed wait returns with zero time left once its delay has passed, not before, unless it is woken.",
 ["schedules"], "for all interleavings up to the preemption bound of two or three threads using a latch and a condition, including all timeout placements",
 "There are no latch or condition tests.",
 ["include/lockfree.h", "src/lockfree.cpp", "include/condition.h", "src/condition.cpp"], [("Latch over an error-checking mutex", "include/lockfree.h"), ("Condition over a condition variable", "src/condition.cpp")],
 [("initialised/attr", "shared mutex attributes set up by the first latch", "src/lockfree.cpp")])
prop("C21", "Prefix-operator regular expressions match as their grammar defines",
 "For every pattern in the documented prefix-operator syntax (literals, any, escapes, classes, repetition ? * + and possessive groups, alternation, look-ahead & and !, anchors) and every subject text, matching at a position succeeds or fails and, on success, consumes exactly what the standard greedy, possessive (PEG) reading of the pattern prescribes. Searching finds the first position from the start at which the pattern matches, and matching neither reads beyond the text's end or before its start, nor runs forever.",
 ["inputs", "programs"], "for all patterns and subjects up to the bound over the pattern and subject alphabets",
 "The pexexp cases are a fixed list of about two hundred pattern/subject pairs.",
 ["include/pegexp.h"], [("Pegexp::match_here/match_sequence/match_atom", "include/pegexp.h"), ("skip_atom", "include/pegexp.h"), ("char_class", "include/pegexp.h")],
 [("State.pc/text", "position in the pattern and in the subject", "include/pegexp.h")])
prop("C22", "Pattern captures report exactly the text of successful groups",
 "Every named group that takes part in a successful match is reported to the match context exactly once per time it matched, in the order matched, with its name and exactly the text it matched; groups inside branches that were abandoned, and inside look-aheads, leave no report behind. The context never influences whether the pattern matches.",
 ["inputs", "programs"], "for all patterns with labelled groups and all subjects up to the bound",
 "Existing cases print captures of a few patterns only.",
 ["include/pegexp.h"], [("context capture and rollback", "include/pegexp.h")])
prop("C23", "Grammar parsing follows PEG semantics, and left recursion fails cleanly",
 "Parsing a text with a set of named rules succeeds or fails, and consumes, exactly as PEG semantics prescribe for the rules' patterns with rule names replaced by calls of those rules. A rule that calls itself without having consumed anything fails there instead of recursing forever, every rule is found by exactly its name, and a parse with captures reports the farthest position that it really reached (a successful one at least its end), and which atoms of which rules would have had to match there.",
 ["inputs", "programs"], "for all grammars of up to three rules and all subjects up to the bound",
 "peg_test is one fixed grammar, and is not in the reliable test list.",
 ["include/peg.h", "include/pegexp.h"], [("Peg::lookup", "include/peg.h"), ("Peg::recurse left-recursion guard", "include/peg.h")])
prop("C24", "Parse results contain exactly the captured items of the successful parse",
 "A successful parse with captures yields a nested value that holds, for each rule that matched, exactly the items its capture list names: single items directly, repeated items as an array in order of matching, and nothing from abandoned alternatives, failed repetitions or look-aheads. The same grammar, text and captures always give the same result.",
 ["inputs", "programs"], "for all small grammars with captures and all subjects up to the bound",
 "peg_test prints one parse tree without comparing it.",
 ["include/peg_ast.h", "include/peg.h"], [("PegContext captures and rollback", "include/peg_ast.h"), ("PegMatch", "include/peg_ast.h")])
RX = ["rx/rxcompile.cpp", "rx/rxmatch.cpp", "rx/strregex.h"]
prop("C25", "Regular expressions find the leftmost-longest match",
 "For every regular expression of the supported features and every text, a search succeeds exactly when some substring is described by the expression, and reports the leftmost such substring, and the longest of those starting there. This includes alternation, all repetition forms, classes and their negations, shorthand and property classes, anchors, group nesting and negative look-ahead.",
 ["inputs", "programs"], "for all expressions up to the bounded size and all texts up to the bounded length over the alphabet",
 "rxmatch_test holds a fixed table of expression/text pairs.",
 RX, [("RxMatch parallel thread simulation", "rx/rxmatch.cpp"), ("RxCompiler", "rx/rxcompile.cpp")])
prop("C26", "Regular expression captures delimit text the groups really matched",
 "After a successful match, capture zero delimits the whole match, and every named or numbered capture that is set delimits a piece of the text inside the match that its group matches at that position. The captures together describe one way to match: there is a path through the expression on which each group was last passed over exactly its capture. Repeating a match on the same text gives the same result.",
 ["inputs", "programs"], "for all expressions with groups up to the bounded size and all texts up to the bounded length",
 "A handful of capture cases are in the test table.",
 RX, [("RxoCaptureStart/RxoCaptureEnd, RxResult", "rx/rxmatch.cpp")])
prop("C27", "Compiling and running a regular expression is total and bounded",
 "For every string given as a regular expression, the compiler either reports an error or produces a program; malformed expressions (unbalanced groups, bad repetition counts, unterminated classes, operators with nothing to repeat) are rejected. Compiling and matching never abort, read or write outside their buffers, leak, or fail to terminate, whatever the expression, the enabled feature set and the text, and compiling is deterministic.",
 ["inputs", "configurations"], "for all strings over the syntax alphabet up to the bounded length, all subjects up to the bound, several feature masks",
 "rxcompile_test compiles a fixed table of expressions.",
 RX, [("RxCompiler::scanRegex and bounds on the program", "rx/rxcompile.cpp"), ("RxMatch station bounds", "rx/rxmatch.cpp")])
prop("C28", "The features of regular expressions can be selected",
 "A regular expression is read with exactly the features selected for it: where a feature is not enabled, the characters that would have used it stand for themselves (an escaped character for itself, a special group is an error), and the meaning of the rest is unaffected; where a feature is rejected, an expression that uses it fails to compile with an error, and every other expression compiles and matches as if the feature were merely enabled or not. The options for shell-like wildcards and extended white space mean what they are documented to.",
 ["inputs", "configurations"], "for all expressions to the bounded size, under each single and paired change and rejection of the features",
 "rxcompile_test and rxmatch_test run with one selection of features.",
 RX, [("RxFeature", "rx/strregex.h"), ("RxCompiler::supported, scanRegex", "rx/rxcompile.cpp")])
prop("C29", "A compiled regular expression serves several threads at once",
 "Any number of threads may match with one compiled program, look at its groups, compile expressions, and use copies of one result at the same time; each thread sees exactly what it would see alone. Changing a copy of a result never changes the other copies, there is no data race, nothing is used after it is released or released twice, and when the last user is gone all storage is released.",
 ["schedules", "inputs"], "for all interleavings of two (and three) threads within a preemption bound, all expressions and texts of a small set, all operations",
 "No test matches on more than one thread.",
 RX + ["include/refcount.h"], [("RxProgram const matching", "rx/strregex.h"), ("RxResult, RxResultBody: copy on write captures", "rx/rxmatch.cpp")])
prop("C30", "A compiled expression is a plain C string that can be stored and run elsewhere",
 "Whatever the expression, its compiled program contains no NUL before its end, so a copy made as a C string (or printed by dump as a listing, which walks exactly its instructions, with every jump going to an instruction) is the entire program; programs made from such copies, owned or not, find the same matches, captures, and group names as the original, after the compiler, the expression and the original program are gone. One compiler gives the same program each time it is asked, also after a failed or abandoned scan, and results outlive the program that made them.",
 ["inputs", "histories"], "for all expressions up to the bound, and repetition counts, character codes and program sizes around every change of encoding",
 "rxcompile_test prints a few programs, and none is stored and run from a copy.",
 RX + ["rx/rxdump.cpp"], [("RxCompiler::compile, emit", "rx/rxcompile.cpp"), ("zigzag and UTF-8 coded operands", "rx/rxcompile.cpp"), ("RxProgram ownership", "rx/rxmatch.cpp"), ("RxCompiler::dump, RxDump", "rx/rxdump.cpp")])
prop("C31", "Matching a regular expression takes linear time and bounded memory",
 "The work done to match a regular expression grows no faster than in proportion to the length of the text (with a further power for each level of nested negative look-ahead), whatever the expression and the text, and the heap memory and stack in use while matching are independent of the length of the text. In particular nested and adjacent repetitions, alternatives that match the same text, counted repetitions and captures do not cause exponential or quadratic runs, in ASCII or other text.",
 ["inputs"], "for all expressions up to the bound, on growing texts made from each of a set of words",
 "The tests' texts are a few characters long, and nothing measures how work grows.",
 RX + ["include/strval.h"], [("RxMatch: at most one thread for each state", "rx/rxmatch.cpp"), ("StrVal bookmarks", "include/strval.h")])
prop("C32", "Prefix expressions match and grammars parse without allocating memory",
 "Matching a Pegexp and parsing with a Peg grammar, with contexts that do not capture, never allocate heap memory, whatever the expression or grammar, the text and the source type, and whether the match succeeds or fails. The stack used does not grow with the text, except through rules that call themselves, and a Pegexp's work grows at most with the power of the text's length given by its repetitions and look-aheads.",
 ["inputs", "programs"], "for all patterns and grammars of two rules up to the bound, on several texts",
 "No test measures allocation or work.",
 ["include/pegexp.h", "include/peg.h"], [("Pegexp::match_here, match_sequence, match_repeat", "include/pegexp.h"), ("Peg contexts", "include/peg.h")])
prop("C33", "Copies and parts of values share storage, and scanning strings is efficient",
 "Copying, assigning, passing and returning a string, array, map or variant, and taking a part of a string or array, copies no contents: it allocates nothing and takes the same time whatever the size. A change to a value that has its storage to itself happens in place. Going through a string by index in either direction, in small steps, or searching it from either end, takes time proportional to its length, whatever its characters and whether it is a whole string or part of another.",
 ["inputs", "histories"], "for all operations on values of a range of sizes, whole, sliced and shared, in ASCII and in multi-byte text",
 "Nothing in the tests measures the cost of an operation.",
 SV + ["include/cowmap.h", "include/variant.h"], [("StrRef and ArrayR copy constructors, substr, slice", "include/strval.h"), ("StrVal bookmarks", "include/strval.h"), ("Unshare", "include/array.h")],
 [("mark", "cached (character, byte) position in the body", "include/strval.h")])
prop("C34", "Formatting a string puts each argument in the place of its conversion",
 "StrVal::format(format, args) returns the text of the format in which each conversion is replaced by its argument: %s by the characters of a string, %d, %f and %g by the value in the form that JSON gives it; everything else is kept as it is, including a % that ends the format and any character of any width. Arguments are used in turn, each once, by conversions and by each * that gives a size or precision, or, if written %n$, the argument of that number (the first is 1). The text of an argument is never taken for conversions. The format and the arguments are not changed, and the result shares nothing with them that a later change could affect.",
 ["inputs"], "for all formats over an alphabet up to the bound, with arguments of the types they ask for",
 "One line of the tests formats one string, and nothing looks at the result.",
 ["include/strformat.h", "include/variant.h", "include/strval.h"], [("StrVal::format", "include/strformat.h"), ("Variant::as_json, as_strval, operator<<", "include/variant.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
