"""Which harness configurations decide which property, and with which bounds."""
FAST = ["-O2"]

HARNESSES = {
    "char": {"main": "h_char.cpp", "repo": ["src/char_encoding.cpp"]},
    "char_fast": {"main": "h_char.cpp", "repo": ["src/char_encoding.cpp"], "flags": ["-O2"]},
    "array": {"main": "h_array.cpp"},
    "map": {"main": "h_map.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp"]},
    "format": {"main": "h_format.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp"], "shim": "throwing"},
    "variant": {"main": "h_variant.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp"],
                "shim": "throwing"},
    "pegexp": {"main": "h_pegexp.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp"]},
    "pegexp_fast": {"main": "h_pegexp.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp"], "flags": ["-O2"]},
    "peg": {"main": "h_peg.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp"]},
    "peg_fast": {"main": "h_peg.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp"], "flags": ["-O2"]},
    "rx": {"main": "h_rx.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp", "rx/rxcompile.cpp", "rx/rxmatch.cpp", "rx/rxdump.cpp"], "shim": "throwing"},
    "rx_fast": {"main": "h_rx.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp", "rx/rxcompile.cpp", "rx/rxmatch.cpp", "rx/rxdump.cpp"], "shim": "throwing", "flags": ["-O2"]},
    "error": {"main": "h_error.cpp", "flags": ["-O2"]},
    "error_asan": {"main": "h_error.cpp"},
    "thread": {"main": "sched_main.cpp", "so": ["sc_thread.cpp"], "repo": ["src/thread.cpp", "src/condition.cpp", "src/lockfree.cpp"]},
    "latch": {"main": "sched_main.cpp", "so": ["sc_latch.cpp"], "repo": ["src/lockfree.cpp"]},
    "cond": {"main": "sched_main.cpp", "so": ["sc_latch.cpp"], "defs": ["-DWITH_CONDITION"], "repo": ["src/thread.cpp", "src/condition.cpp", "src/lockfree.cpp"]},
    "share": {"main": "sched_main.cpp", "so": ["sc_share.cpp"], "repo": ["src/char_encoding.cpp", "src/variant.cpp"]},
    "sc_rx": {"main": "sched_main.cpp", "so": ["sc_rx.cpp"], "repo": ["src/char_encoding.cpp", "src/variant.cpp", "rx/rxcompile.cpp", "rx/rxmatch.cpp"]},
    "work": {"main": "h_work.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp", "rx/rxcompile.cpp", "rx/rxmatch.cpp"], "extra": ["work_hook.cpp"],
             "uninstrumented": ["work_hook.cpp"], "own_flags": ["-O2"], "flags": ["-O1", "-fno-builtin", "-fsanitize-coverage=trace-pc"],
             "link_flags": ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "strlen", "malloc", "calloc", "realloc")]},
    "str": {"main": "h_str.cpp", "repo": ["src/char_encoding.cpp", "src/variant.cpp"]},
}


def cfg(harness, config, what="", time=600, **params):
    return {"harness": harness, "config": config, "params": params, "what": what, "time": time}


CHECKS = {}
PEGEXP_ANY = [cfg("pegexp", "pegexp_any_string", "every string over %s to length %d as an expression, in exact buffers" % (w, n), set=s, len=n)
              for s, n, w in ((0, 6, "a(|)?*![ and backslash"), (1, 6, "ax{u-]:[ and backslash"), (2, 6, "a\\1<;:_)1`&+"))]
CHECKS["C21"] = {
    "quick": [cfg("pegexp_fast", "pegexp_tokens", "every expression of up to 5 of 17 tokens, on every text to length 2 over a, b, newline, e-acute, 1", tokens=5, text=2),
              cfg("pegexp_fast", "pegexp_tokens", "up to 6 of 9 tokens: operators on operators", set=2, tokens=6, text=3, small=1),
              cfg("pegexp_fast", "pegexp_tokens", "up to 8 of 6 tokens: nested groups and alternatives", set=3, tokens=8, text=4, small=1),
              cfg("pegexp_fast", "pegexp_tokens", "up to 4 of 17 tokens, on texts taken by the byte", tokens=4, text=3, kinds=8),
              cfg("pegexp_fast", "pegexp_tokens", "up to 5 of 14 tokens, bytes beyond ASCII among them, on texts taken by the byte", set=5, tokens=5, text=2, kinds=8),
              cfg("pegexp_fast", "pegexp_atoms", "every ASCII character, escape and 76 classes in 17 frames, on each ASCII and 28 other characters"),
              cfg("pegexp_fast", "pegexp_escapes", "every octal and hexadecimal escape, each digit in each place of Unicode escapes, in 14 frames"),
              cfg("pegexp_fast", "pegexp_classes", "classes of up to 5 of 13 items, negated or not", items=13, max=5),
              cfg("pegexp_fast", "pegexp_classes", "classes of up to 9 of 4 items", items=4, max=9)] + PEGEXP_ANY,
    "thorough": [cfg("pegexp_fast", "pegexp_tokens", "every expression of up to 5 of 17 tokens, on every text to length 4", tokens=5, text=4, time=1500),
              cfg("pegexp_fast", "pegexp_tokens", "up to 6 of 17 tokens", tokens=6, text=2, time=1500),
              cfg("pegexp_fast", "pegexp_tokens", "up to 8 of 9 tokens: operators on operators", set=2, tokens=8, text=4, small=1, time=1500),
              cfg("pegexp_fast", "pegexp_tokens", "up to 10 of 6 tokens: nested groups and alternatives", set=3, tokens=10, text=5, small=1, time=1500),
              cfg("pegexp_fast", "pegexp_tokens", "up to 5 of 17 tokens, on texts taken by the byte", tokens=5, text=3, kinds=8),
              cfg("pegexp_fast", "pegexp_tokens", "up to 5 of 14 tokens, bytes beyond ASCII among them, on texts taken by the byte", set=5, tokens=5, text=3, kinds=8),
              cfg("pegexp_fast", "pegexp_atoms", "every ASCII character, escape and 76 classes in 17 frames, on each ASCII and 28 other characters"),
              cfg("pegexp", "pegexp_atoms", "the same under AddressSanitizer"),
              cfg("pegexp", "pegexp_escapes", "every octal and hexadecimal escape, each digit in each place of Unicode escapes, in 14 frames"),
              cfg("pegexp_fast", "pegexp_classes", "classes of up to 6 of 13 items, negated or not", items=13, max=6, time=1500),
              cfg("pegexp_fast", "pegexp_classes", "classes of up to 10 of 4 items", items=4, max=10, time=1500)] +
              [dict(c, params=dict(c["params"], len=7), time=1500) for c in PEGEXP_ANY],
    "rule": "one case per expression and text",
    "assumptions": ["beyond ASCII, character classes mean what UCS4IsAlphabetic and the like answer, which C04 checks",
                    "expressions to which the documentation gives no meaning are only checked for containment and termination"],
}
CHECKS["C22"] = {
    "quick": [cfg("pegexp_fast", "pegexp_tokens", "up to 7 of 9 tokens with captures", set=1, tokens=7, text=3, small=1, kinds=7),
              cfg("pegexp_fast", "pegexp_tokens", "up to 8 of 8 tokens with captures, repetitions and look-aheads", set=4, tokens=8, text=4, small=1, kinds=7),
              cfg("pegexp", "pegexp_tokens", "up to 4 of 17 tokens, under AddressSanitizer", tokens=4, text=2, kinds=7)],
    "thorough": [cfg("pegexp_fast", "pegexp_tokens", "up to 9 of 9 tokens with captures", set=1, tokens=9, text=4, small=1, kinds=7, time=1500),
              cfg("pegexp_fast", "pegexp_tokens", "up to 9 of 8 tokens with captures, repetitions and look-aheads", set=4, tokens=9, text=5, small=1, kinds=7, time=1500),
              cfg("pegexp_fast", "pegexp_tokens", "up to 6 of 17 tokens", tokens=6, text=2, kinds=7, time=1500)],
    "rule": "one case per expression and text",
    "assumptions": ["an iteration that captures without consuming is not compared"],
}
def peg(what, time=600, harness="peg_fast", **p):
    return cfg(harness, "peg_grammars", what, time=time, **p)


NAMES = lambda n: cfg("peg_fast", "peg_names", "every %d of 18 rule names in 2(n+1) orders, each of the 18 called" % n, rules=n)
CHECKS["C23"] = {
    "quick": [peg("TOP of up to 4 and r of up to 3 of 10 tokens, each text over a, b to length 3", TOP=4, r=3, mode=7),
              peg("recursion to TOP: up to 3 and 4 of 12 tokens", set=1, rset=1, TOP=3, r=4, mode=7),
              peg("three rules of up to 3, 2 and 2 tokens", s=1, TOP=3, r=2, mode=7, sset=1, s_max=2),
              peg("TOP of up to 4, r up to 2, texts with line ends to length 4", TOP=4, r=2, text=4, newline=1, mode=7),
              peg("TOP of up to 3 and r of up to 2 tokens, under AddressSanitizer", harness="peg", TOP=3, r=2, mode=7), NAMES(4)],
    "thorough": [peg("TOP of up to 4 and r of up to 4 of 10 tokens, each text over a, b to length 4", TOP=4, r=4, text=4, mode=7, time=1500),
              peg("recursion to TOP: up to 4 and 4 of 12 tokens", set=1, rset=1, TOP=4, r=4, mode=7, time=1500),
              peg("three rules of up to 3 tokens each", s=1, TOP=3, r=3, mode=7, sset=1, time=1500, s_max=3),
              peg("TOP of up to 6 and r of up to 2 tokens", set=1, TOP=6, r=2, mode=7, time=1500),
              peg("TOP of up to 4 and r of up to 3 tokens, under AddressSanitizer", harness="peg", TOP=4, r=3, mode=7, time=1500), NAMES(6)],
    "rule": "one case per grammar and text; grammars whose evaluation takes more than 20000 calls are left out",
    "assumptions": ["the reference in ref_peg.h and h_peg.cpp states PEG semantics for prefix expressions and rule calls"],
}
CHECKS["C24"] = {
    "quick": [peg("labelled atoms and calls: up to 4 and 3 of 9 tokens, each text over a, b to length 3", set=3, rset=3, TOP=4, r=3, captop=6, cap=4, mode=14),
              peg("captured and labelled calls, options, look-ahead: up to 4 of 12 and 3 of 9 tokens", set=2, rset=3, TOP=4, r=3, captop=2, cap=2, mode=14),
              peg("different capture lists, with labels that start alike", set=4, rset=3, TOP=4, r=2, captop=26, cap=38, mode=14),
              peg("nested captures of three rules", set=2, rset=2, sset=3, s=1, TOP=3, r=2, s_max=2, captop=2, cap=34, mode=14),
              peg("one rule of up to 7 of 7 tokens: labelled groups, repetitions and alternatives", set=5, TOP=7, r=0, captop=2, mode=14),
              peg("calls with + and ?: TOP of up to 6 and r of up to 2 tokens", set=7, rset=3, TOP=6, r=2, captop=2, cap=2, mode=14),
              peg("labelled atoms with + and ?: one rule of up to 7 of 9 tokens", set=8, TOP=7, r=0, captop=2, mode=14),
              peg("up to 3 and 2 tokens, under AddressSanitizer", harness="peg", set=3, rset=3, TOP=3, r=2, captop=2, cap=2, mode=14)],
    "thorough": [peg("labelled atoms and calls: up to 5 and 4 of 9 tokens, each text over a, b to length 4", set=3, rset=3, TOP=5, r=4, text=4, captop=6, cap=4, mode=14, time=1500),
              peg("captured and labelled calls, options, look-ahead: up to 4 of 12 and 4 of 9 tokens", set=2, rset=3, TOP=4, r=4, captop=2, cap=2, mode=14, time=1500),
              peg("different capture lists, with labels that start alike", set=4, rset=3, TOP=5, r=3, captop=26, cap=38, mode=14, time=1500),
              peg("nested captures of three rules", set=2, rset=2, sset=3, s=1, TOP=3, r=3, s_max=3, captop=2, cap=34, mode=14, time=1500),
              peg("one rule of up to 9 of 7 tokens: labelled groups, repetitions and alternatives", set=5, TOP=9, r=0, text=4, captop=2, mode=14, time=1500),
              peg("calls with + and ?: TOP of up to 6 and r of up to 4 tokens", set=7, rset=7, TOP=6, r=4, captop=2, cap=2, mode=14, time=1500),
              peg("labelled atoms with + and ?: one rule of up to 8 of 9 tokens", set=8, TOP=8, r=0, captop=2, text=4, mode=14, time=1500),
              peg("up to 4 and 3 tokens, under AddressSanitizer", harness="peg", set=3, rset=3, TOP=4, r=3, captop=2, cap=2, mode=14, time=1500)],
    "rule": "one case per grammar with capture lists and text",
    "assumptions": ["a rule's capture list names every label its pattern gives an atom (what happens to others is not documented)", "look-aheads are not labelled"],
}
def rx(what, harness="rx_fast", config="rx_expressions", **p):
    return cfg(harness, config, what, **p)


RX_ANY = [rx("every string over %s to length %d as an expression, in exact buffers" % (w, n), "rx", "rx_any_string", set=s, len=n, **k)
          for s, n, w, k in ((0, 6, "a()|*{,2}", {}), (1, 6, "a[]^-\\?(.", {}), (2, 6, "(?<a>:!)|", {}), (3, 5, "a\\x1u0 *)", {}), (4, 6, "\\p{s}+d[", {}),
                             (5, 6, "space, newline and #(a)*|{, with extended syntax", {"features": 0x200FFFFF}), (6, 6, "{3,}0 -1 and newline, after an a", {"prefix": 1}))]
CHECKS["C25"] = {
    "quick": [rx("every expression of up to 5 of 19 tokens, on every text over a, b to length 3, from each offset", set=0, tokens=5, text=3),
              rx("up to 4 of 19 tokens, on every text over a, b, newline to length 4", set=0, tokens=4, texts=1, text=4),
              rx("up to 8 of 7 tokens: nested groups and repetitions", set=1, tokens=8, text=4),
              rx("up to 7 of 9 tokens: counted repetitions", set=2, tokens=7, text=4),
              rx("up to 8 of 6 tokens: nested counted repetitions", set=7, tokens=8, text=5),
              rx("up to 6 of 9 tokens: anchors and look-aheads", set=3, tokens=6, texts=1, text=3),
              rx("up to 3 of 15 tokens: characters, on every text to length 3 over 7 characters", set=6, tokens=3, texts=2, text=3),
              rx("each ASCII and 19 other characters, as literals, escapes and in classes, every octal, hexadecimal and many Unicode escapes, in 9 frames, on each of those characters", config="rx_atoms"),
              rx("classes of up to 5 of 14 items, negated or not", config="rx_classes", items=14, max=5),
              rx("classes of up to 7 of 6 items", config="rx_classes", items=6, max=7),
              rx("classes of up to 9 of 4 items", config="rx_classes", items=4, max=9),
              rx("classes of up to 80 characters or ranges in 4 orders", config="rx_classes", long=80),
              rx("26 x 26 repetition counts around every limit, on 15 lengths", "rx", "rx_counts")],
    "thorough": [rx("every expression of up to 6 of 19 tokens, on every text over a, b to length 3, from each offset", set=0, tokens=6, text=3, time=1500),
              rx("up to 5 of 19 tokens, on every text over a, b, newline to length 4", set=0, tokens=5, texts=1, text=4, time=1500),
              rx("up to 10 of 7 tokens: nested groups and repetitions", set=1, tokens=10, text=4, time=1500),
              rx("up to 9 of 9 tokens: counted repetitions", set=2, tokens=9, text=5, time=1500),
              rx("up to 11 of 6 tokens: nested counted repetitions", set=7, tokens=11, text=6, time=1500),
              rx("up to 8 of 9 tokens: anchors and look-aheads", set=3, tokens=8, texts=1, text=3, time=1500),
              rx("up to 4 of 15 tokens: characters, on every text to length 3 over 7 characters", set=6, tokens=4, texts=2, text=3, time=1500),
              rx("atoms", config="rx_atoms"), rx("repetition counts", "rx", "rx_counts"),
              rx("classes of up to 6 of 14 items, negated or not", config="rx_classes", items=14, max=6, time=1500),
              rx("classes of up to 9 of 6 items", config="rx_classes", items=6, max=9, time=1500),
              rx("classes of up to 300 characters or ranges in 4 orders", config="rx_classes", long=300, time=1500)],
    "rule": "one case per expression, text and offset",
    "assumptions": ["beyond ASCII, white space and digits are what UCS4IsWhite and UCS4Digit answer, which C04 checks",
                    "expressions to which the documentation gives no meaning (see ref_rx.h) are only checked by C27"],
}
CHECKS["C26"] = {
    "quick": [rx("every expression of up to 7 of 10 tokens with two named groups, on every text over a, b to length 3, from each offset", set=4, tokens=7, text=3),
              rx("up to 7 of 9 tokens, with look-aheads and counts", set=5, tokens=7, text=3),
              rx("up to 6 of 10 tokens, under AddressSanitizer", "rx", set=4, tokens=6, text=3),
              rx("up to 260 named groups, and as deeply nested as allowed", "rx", "rx_limits"),
              rx("sequences of each length to 140 in 21 frames, some captured", "rx", "rx_sizes", count=140)],
    "thorough": [rx("every expression of up to 9 of 10 tokens with two named groups", set=4, tokens=9, text=4, time=1500),
              rx("up to 9 of 9 tokens, with look-aheads and counts", set=5, tokens=9, text=4, time=1500),
              rx("up to 7 of 10 tokens, under AddressSanitizer", "rx", set=4, tokens=7, text=4, time=1500),
              rx("up to 260 named groups, and as deeply nested as allowed", "rx", "rx_limits")],
    "rule": "one case per expression, text and offset",
    "assumptions": ["of several ways to match, any may be captured, as long as all captures are of the same one"],
}
CHECKS["C27"] = {
    "quick": RX_ANY + [rx("nesting to depth 20, 260 groups, 260 alternatives, expressions with exponentially many paths", "rx", "rx_limits"),
              rx("repetition counts around every limit", "rx", "rx_counts"),
              rx("programs around a sequence of each length to 140", "rx", "rx_sizes", count=140),
              rx("of lengths 240 to 540", "rx", "rx_sizes", **{"from": 240, "count": 300, "at": 1}),
              rx("of wide characters", "rx", "rx_sizes", count=300, wide=1, at=1),
              rx("of lengths 16375 to 16386, where offsets exceed 16 bits", "rx", "rx_sizes", **{"from": 16375, "count": 12, "at": 1}),
              rx("every expression of up to 4 of 19 tokens, under AddressSanitizer", "rx", set=0, tokens=4, text=2)],
    "thorough": [dict(x, params=dict(x["params"], len=7), time=1500) for x in RX_ANY] + [
              rx("nesting to depth 20, 260 groups, 260 alternatives, expressions with exponentially many paths", "rx", "rx_limits"),
              rx("repetition counts around every limit", "rx", "rx_counts"),
              rx("programs around a sequence of each length to 600", "rx", "rx_sizes", count=600, time=1500),
              rx("of lengths 600 to 2200", "rx", "rx_sizes", time=1500, **{"from": 600, "count": 1600, "at": 1}),
              rx("of wide characters", "rx", "rx_sizes", count=1200, wide=1, at=1, time=1500),
              rx("of mixed characters", "rx", "rx_sizes", count=1200, wide=2, at=1, time=1500),
              rx("of lengths 16350 to 16400", "rx", "rx_sizes", time=1500, **{"from": 16350, "count": 50, "at": 1}),
              rx("of lengths 8180 to 8200", "rx", "rx_sizes", time=1500, **{"from": 8180, "count": 20, "at": 1}),
              rx("of lengths 8180 to 8196, wide", "rx", "rx_sizes", time=1500, **{"from": 8180, "count": 16, "at": 1, "wide": 1}),
              rx("every expression of up to 5 of 19 tokens, under AddressSanitizer", "rx", set=0, tokens=5, text=2, time=1500)],
    "rule": "one case per expression, feature selection and text",
    "assumptions": ["an execution that takes more than 20 s does not terminate"],
}
CHECKS["C28"] = {
    "quick": [rx("every expression of up to 2 of 23 tokens, with each feature and each pair changed or rejected, on 26 texts", "rx", "rx_features", tokens=2),
              rx("every string over a space, newline and #(a)*|{ with extended syntax", "rx", "rx_any_string", set=5, len=5, features=0x200FFFFF),
              rx("every string over tab, return, space, newline and #ab with extended syntax", "rx", "rx_any_string", set=7, len=6, features=0x200FFFFF),
              rx("every string over a space and a*[]#^ and backslash with extended syntax", "rx", "rx_any_string", set=8, len=6, features=0x200FFFFF),
              rx("up to 4 of 19 tokens, with ? as the wildcard", features=0x10FFFFF, set=0, tokens=4, text=3),
              rx("up to 4 of 19 tokens, with * as in the shell", features=0x20FFFFF, set=0, tokens=4, text=3),
              rx("every string over a()|*{,2}, less groups", "rx", "rx_any_string", set=0, len=5, features=0xFDFFF),
              rx("every string over a()|*{,2}, less repetition", "rx", "rx_any_string", set=0, len=5, features=0xFF5FF),
              rx("every string over (?<a>:!)|, rejecting captures", "rx", "rx_any_string", set=2, len=5, reject=0x4000),
              rx("every string over (?<a>:!)|, less look-aheads and ?", "rx", "rx_any_string", set=2, len=5, features=0xEFEFF)],
    "thorough": [rx("every expression of up to 3 of 23 tokens, with each feature and each pair changed or rejected, on 26 texts", "rx_fast", "rx_features", tokens=3, time=1500),
              rx("every string over a space, newline and #(a)*|{ with extended syntax", "rx", "rx_any_string", set=5, len=7, features=0x200FFFFF, time=1500),
              rx("every string over tab, return, space, newline and #ab with extended syntax", "rx", "rx_any_string", set=7, len=8, features=0x200FFFFF, time=1500),
              rx("every string over a space and a*[]#^ and backslash with extended syntax", "rx", "rx_any_string", set=8, len=7, features=0x200FFFFF, time=1500),
              rx("up to 5 of 19 tokens, with ? as the wildcard", features=0x10FFFFF, set=0, tokens=5, text=3, time=1500),
              rx("up to 5 of 19 tokens, with * as in the shell", features=0x20FFFFF, set=0, tokens=5, text=3, time=1500),
              rx("every string over a()|*{,2}, less groups", "rx", "rx_any_string", set=0, len=7, features=0xFDFFF, time=1500),
              rx("every string over a()|*{,2}, less repetition", "rx", "rx_any_string", set=0, len=7, features=0xFF5FF, time=1500),
              rx("every string over (?<a>:!)|, rejecting captures", "rx", "rx_any_string", set=2, len=7, reject=0x4000, time=1500),
              rx("every string over (?<a>:!)|, less look-aheads and ?", "rx", "rx_any_string", set=2, len=7, features=0xEFEFF, time=1500)],
    "rule": "one case per expression, feature selection and text",
    "assumptions": ["options marked TBD in strregex.h that have no implementation (AnyExcludesNL, CaseInsensitive) are left out"],
}
def wk(config, what, **p): return cfg("work", config, what, **p)
RXP = ((0, "of 19 tokens", 4, 5), (1, "about repetition counts", 5, 6), (2, "about group names and captures", 4, 5), (3, "about jumps", 6, 7))
CHECKS["C30"] = {
    "quick": [rx("up to %d tokens of set %d, %s" % (q, s, w), "rx", "rx_program", set=s, tokens=q) for s, w, q, t in RXP] +
             [rx("the same in programs whose jumps are long", "rx", "rx_program", set=0, tokens=2, times=70),
              rx("the same, after more jumps", "rx", "rx_program", set=2, tokens=2, times=300),
              rx("the same, between counts", "rx", "rx_program", set=1, tokens=3, times=20),
              rx("expressions of 36 forms, each of size 0 to 263", "rx", "rx_program_limits", n=264)],
    "thorough": [rx("up to %d tokens of set %d, %s" % (t, s, w), "rx", "rx_program", set=s, tokens=t, time=1500) for s, w, q, t in RXP] +
             [rx("the same in programs whose jumps are long", "rx", "rx_program", set=0, tokens=3, times=70, time=1500),
              rx("the same, after more jumps", "rx", "rx_program", set=2, tokens=3, times=300, time=1500),
              rx("the same, between counts", "rx", "rx_program", set=1, tokens=4, times=20, time=1500),
              rx("expressions of 36 forms, each of size 0 to 1039", "rx", "rx_program_limits", n=1040, time=1500)],
    "rule": "one case per expression",
}
WRX = ((0, "18 tokens", 4, 5), (1, "a, b, repetition, alternatives and groups", 7, 8), (2, "counts", 6, 7), (3, "look-aheads", 6, 7), (4, "captures", 6, 7), (5, "multi-byte text", 5, 6))
WORK_ASSUMPTIONS = ["work is counted in basic blocks of the code under test, and memory handled by memcpy and its like; allocations as calls of operator new and malloc",
    "growth is judged from three lengths of text, each twice the one before"]
CHECKS["C31"] = {
    "quick": [wk("work_rx", "expressions of up to %d of %s, on 14 texts of 36, 72 and 144 characters" % (q, w), set=s, tokens=q) for s, w, q, t in WRX],
    "thorough": [wk("work_rx", "expressions of up to %d of %s, on 14 texts of 36 to 288 characters" % (t, w), set=s, tokens=t, more=1, time=1500) for s, w, q, t in WRX],
    "rule": "one case per expression, word that is repeated, and way to match", "assumptions": WORK_ASSUMPTIONS,
}
CHECKS["C32"] = {
    "quick": [wk("work_pegexp", "expressions of up to 4 of 21 tokens, on 4 texts, 3 kinds of source", tokens=4),
              wk("work_pegexp", "up to 6 of 9 tokens", set=1, tokens=6),
              wk("work_peg", "grammars of two rules, of up to 4 of 13 and 2 of 10 tokens, on 8 texts", TOP=4, r=2),
              wk("work_peg", "of up to 3 tokens each", TOP=3, r=3)],
    "thorough": [wk("work_pegexp", "expressions of up to 5 of 21 tokens, on 4 texts, 3 kinds of source", tokens=5, time=1500),
              wk("work_pegexp", "up to 8 of 9 tokens", set=1, tokens=8, time=1500),
              wk("work_peg", "grammars of two rules, of up to 5 of 13 and 2 of 10 tokens, on 8 texts", TOP=5, r=2, time=1500),
              wk("work_peg", "of up to 4 and 3 tokens", TOP=4, r=3, time=1500)],
    "rule": "one case per expression or grammar, text, source and way to match", "assumptions": WORK_ASSUMPTIONS,
}
CHECKS["C33"] = {
    "quick": [wk("work_strings", "36 operations on whole strings and parts of five kinds, of 40 lengths to 1000", sizes=40, step=23),
              wk("work_collections", "copies, parts, changes and lookups of arrays, maps and variants, 40 lengths to 850", sizes=40, step=21)],
    "thorough": [wk("work_strings", "36 operations on whole strings and parts of five kinds, of every length to 2000", sizes=2000, step=1, time=1500),
              wk("work_collections", "copies, parts, changes and lookups of arrays, maps and variants, every length to 1000", sizes=1000, step=1, time=1500)],
    "rule": "one case per operation, kind of value and size", "assumptions": WORK_ASSUMPTIONS,
}
CHECKS["C34"] = {
    "quick": [cfg("format", "formats", "every format of up to 5 of 11 characters, each with 4 sets of arguments", set=0, len=5),
              cfg("format", "formats", "up to 6 of %, s, d, 1 and $", set=1, len=6),
              cfg("format", "formats", "up to 6 of %, d, *, ., 0 and x", set=2, len=6),
              cfg("format", "format_pieces", "up to 3 of 24 conversions and texts, and a last %", pieces=3),
              cfg("format", "format_sizes", "each character as the text, and formats of up to 300 characters or 60 arguments", n=300)],
    "thorough": [cfg("format", "formats", "every format of up to 6 of 11 characters, each with 4 sets of arguments", set=0, len=6, time=1500),
              cfg("format", "formats", "up to 8 of %, s, d, 1 and $", set=1, len=8, time=1500),
              cfg("format", "formats", "up to 8 of %, d, *, ., 0 and x", set=2, len=8, time=1500),
              cfg("format", "format_pieces", "up to 4 of 24 conversions and texts, and a last %", pieces=4, time=1500),
              cfg("format", "format_sizes", "each character as the text, and formats of up to 2000 characters or 60 arguments", n=2000, time=1500)],
    "rule": "one case per format and set of arguments",
    "assumptions": ["sizes and precisions are read, with the arguments they take, but do nothing, as the code notes (REVISIT)",
                    "conversions other than s, d, f and g, incomplete ones, and numbered ones among others, are only checked for containment"],
}
CHECKS["C01"] = {
    "quick": [cfg("char_fast", "codepoints", "all 2^32 character values, each decoded before a continuation byte, the first 2^21 before 6 different bytes", followers=1),
              cfg("char", "padded_zero", "padded zeroes of each length before each byte")],
    "thorough": [cfg("char_fast", "codepoints", "all 2^32 character values, each decoded before 6 different bytes", followers=6),
                 cfg("char", "padded_zero", "padded zeroes of each length before each byte")],
    "rule": "one case per character value; every value is distinct",
    "assumptions": ["the reference encoder in h_char.cpp states the documented format"],
}
CHECKS["C02"] = {
    "quick": [cfg("char", "text", "all byte strings over 13 boundary bytes to length 5", alphabet=13, len=5),
              cfg("char", "text_all_bytes", "all byte strings to length 2", len=2),
              cfg("char", "text_long", "runs of 9 bytes over 4 bytes", alphabet=4, len=9)],
    "thorough": [cfg("char", "text", "all byte strings over 20 boundary bytes to length 5", alphabet=20, len=5, time=1500),
                 cfg("char", "text", "all byte strings over 9 boundary bytes to length 7", alphabet=9, len=7, time=1500),
                 cfg("char", "text_all_bytes", "all byte strings to length 3", len=3, time=1500),
                 cfg("char", "text_long", "runs of 10 bytes over 5 bytes", alphabet=5, len=10, time=1500)],
}
CHECKS["C03"] = {
    "quick": [cfg("char", "utf16", "all Unicode characters, both byte orders"),
              cfg("char", "utf16_units", "all 65536 units")],
}
CHECKS["C04"] = {
    "quick": [cfg("char_fast", "all_characters", "all characters, each function"),
              cfg("char_fast", "all_classes", "all characters and 32768 beyond them, each of 16 tests made from those"),
              cfg("char_fast", "query_pairs", "each property-bearing character after each other one"),
              cfg("char", "query_sequences", "mixed sequences of 3 queries", chars=8, depth=3)],
    "thorough": [cfg("char_fast", "all_characters", "all characters, each function"),
              cfg("char_fast", "all_classes", "all characters and 32768 beyond them, each of 16 tests made from those"),
                 cfg("char_fast", "query_pairs", "each character up to U+10FFF after each property-bearing one", all=1),
                 cfg("char", "query_sequences", "mixed sequences of 4 queries", chars=12, depth=4)],
}
CHECKS["C05"] = {
    "quick": [cfg("char", "pointers", "pointer movements, depth 3", depth=3),
              cfg("char", "utf8_pointer_chars", "characters seen through pointers", len=4)],
    "thorough": [cfg("char", "pointers", "pointer movements, depth 5", depth=5, time=1500),
                 cfg("char", "utf8_pointer_chars", "characters seen through pointers", len=5)],
}
CHECKS["C13"] = {
    "quick": [cfg("array", "array_ops", "12 arrangements of shared storage, every sequence of 2 operations", depth=2, all=1),
              cfg("array", "array_growth", "arrays of up to 40 elements grown past their room", len=40)],
    "thorough": [cfg("array", "array_ops", "12 arrangements of shared storage, every sequence of 2 operations", depth=2, all=1),
                 cfg("array", "array_ops", "every sequence of 3 operations", depth=3, all=1, time=3000),
                 cfg("array", "array_growth", "arrays of up to 80 elements grown past their room", len=80)],
}
CHECKS["C14"] = {
    "quick": [cfg("array", "array_search", "every list of up to 6 of 3 values, 4 ways to hold it", values=3, len=6),
              cfg("array", "array_bsearch", "every sorted list of up to 8 elements", len=8),
              cfg("array", "array_compare", "every pair of lists", values=3, len=4, lists=2), cfg("array", "array_compare", "every triple of lists", values=2, len=3, lists=3),
              cfg("str", "string_array_compare", "every pair of arrays of up to 3 of 5 strings, searched for each", texts=5, len=3)],
    "thorough": [cfg("array", "array_search", "every list of up to 9 of 3 values", values=3, len=9),
                 cfg("array", "array_bsearch", "every sorted list of up to 11 elements", len=11),
                 cfg("array", "array_compare", "every pair of lists", values=3, len=5, lists=2, time=1500),
                 cfg("array", "array_compare", "every triple of lists", values=2, len=4, lists=3),
                 cfg("str", "string_array_compare", "every pair of arrays of up to 3 of 6 strings, searched for each", texts=6, len=3)],
}
CHECKS["C06"] = {
    "quick": [cfg("str", "string_ops", "14 arrangements of shared storage, every sequence of 2 operations", depth=2, all=1)],
    "thorough": [cfg("str", "string_ops", "14 arrangements of shared storage, every sequence of 2 operations", depth=2, all=1),
                 cfg("str", "string_ops", "every sequence of 3 operations", depth=3, all=0, time=3000)],
}
CHECKS["C07"] = {
    "quick": [cfg("str", "string_indexing", "all byte strings of up to 4 of 9 bytes, 6 ways to hold them", alphabet=9, len=4),
              cfg("str", "string_indexing", "all byte strings of up to 5 of 6 bytes", alphabet=6, len=5),
              cfg("str", "string_bookmarks", "strings of 8 to 10 characters, every sequence of 2 accesses or changes", len=10, depth=2, pieces=3, pattern=2)],
    "thorough": [cfg("str", "string_indexing", "all byte strings of up to 6 of 9 bytes, 6 ways to hold them", alphabet=9, len=6, time=1500),
                 cfg("str", "string_bookmarks", "strings of 10 to 12 characters, every sequence of 3 accesses or changes", len=12, depth=3, pieces=4, pattern=2, time=1500)],
}
CHECKS["C08"] = {
    "quick": [cfg("str", "string_search", "every text of up to 5 of 3 characters, every needle of up to 3", alphabet=3, len=5, needle=3),
              cfg("str", "string_search", "every text of up to 4 of 4 bytes, every needle of up to 3", alphabet=4, len=4, needle=3, bytes=1),
              cfg("str", "string_compare", "every pair", alphabet=4, len=4), cfg("str", "string_compare", "every pair of byte strings", alphabet=4, len=3, bytes=1)],
    "thorough": [cfg("str", "string_search", "every text of up to 7 of 3 characters, every needle of up to 4", alphabet=3, len=7, needle=4, time=1500),
              cfg("str", "string_search", "every text of up to 6 of 4 bytes, every needle of up to 3", alphabet=4, len=6, needle=3, bytes=1, time=1500),
              cfg("str", "string_compare", "every pair", alphabet=4, len=4), cfg("str", "string_compare", "every pair of byte strings", alphabet=4, len=4, bytes=1)],
}
CHECKS["C09"] = {
    "quick": [cfg("str", "string_numbers", "every text of up to 5 of 9 characters, in 10 radices", alphabet=9, len=5),
              cfg("str", "string_numbers", "every text of up to 4 of 18 characters, in 10 radices", alphabet=18, len=4),
              cfg("str", "number_magnitudes", "about every power of 2 and of the radix, in every radix")],
    "thorough": [cfg("str", "string_numbers", "every text of up to 6 of 9 characters, in 10 radices", alphabet=9, len=6, time=1500),
                 cfg("str", "string_numbers", "every text of up to 5 of 18 characters, in 10 radices", alphabet=18, len=5, time=1500),
              cfg("str", "number_magnitudes", "about every power of 2 and of the radix, in every radix")],
}
CHECKS["C10"] = {
    "quick": [cfg("str", "json_all_characters", "every Unicode character"),
              cfg("str", "json_strings", "every text of up to 4 of 14 characters, 6 ways to hold it", alphabet=13, len=4)],
    "thorough": [cfg("str", "json_all_characters", "every Unicode character"),
              cfg("str", "json_strings", "every text of up to 5 of 14 characters, 6 ways to hold it", alphabet=13, len=5)],
}
CHECKS["C12"] = {
    "quick": [cfg("str", "string_transform", "every behaviour of the callback on every text of up to 4 characters", alphabet=3, len=4, replies=5),
              cfg("str", "string_case", "every text of up to 4 of 12 characters", alphabet=12, len=4), cfg("str", "string_case_all", "every character"),
              cfg("str", "string_join", "up to 5 strings", len=5)],
    "thorough": [cfg("str", "string_transform", "every behaviour of the callback on every text of up to 5 characters", alphabet=3, len=5, replies=4, time=1500),
              cfg("str", "string_case", "every text of up to 5 of 12 characters", alphabet=12, len=5, time=1500), cfg("str", "string_case_all", "every character"),
              cfg("str", "string_join", "up to 6 strings", len=6)],
}
CHECKS["C15"] = {
    "quick": [cfg("map", "map_ops", "5 arrangements of shared maps, every sequence of 2 operations", depth=2, keys=3),
              cfg("map", "map_ops", "every sequence of 4 insertions, replacements, removals, clearings and assignments", depth=4, keys=2, core=1),
              cfg("map", "map_ops_strings", "the same with strings as keys and values", depth=2, keys=3)],
    "thorough": [cfg("map", "map_ops", "every sequence of 3 operations", depth=3, keys=2, time=3000),
              cfg("map", "map_ops", "every sequence of 5 insertions, replacements, removals, clearings and assignments", depth=5, keys=2, core=1, time=1500),
              cfg("map", "map_ops", "every sequence of 2 operations", depth=2, keys=4, time=1500),
              cfg("map", "map_ops_strings", "every sequence of 2 operations, strings as keys and values", depth=2, keys=4)],
}
CHECKS["C16"] = {
    "quick": [cfg("variant", "variant_ops", "3 variants, every sequence of 2 operations", depth=2, nums=7, texts=5),
              cfg("variant", "variant_ops", "3 variants, every sequence of 3 operations", depth=3, nums=2, texts=2),
              cfg("variant", "variant_conversions", "every sequence of 4 conversions of 42 values", depth=4)],
    "thorough": [cfg("variant", "variant_ops", "3 variants, every sequence of 3 operations", depth=3, nums=7, texts=5, time=1500),
              cfg("variant", "variant_ops", "3 variants, every sequence of 4 operations", depth=4, nums=1, texts=1, time=3000),
              cfg("variant", "variant_conversions", "every sequence of 5 conversions of 42 values", depth=5)],
}
CHECKS["C11"] = {
    "quick": [cfg("variant", "variant_json", "every value nested to depth 2, up to 2 elements, 5 layouts", depth=2, wide=2, strings=2, keys=2, ints=1),
              cfg("variant", "variant_json", "every value nested to depth 1, up to 3 elements", depth=1, wide=3, strings=7, keys=4, ints=3),
              cfg("variant", "variant_json", "every value nested to depth 4, up to 1 element", depth=4, wide=1, strings=7, keys=4, ints=3)],
    "thorough": [cfg("variant", "variant_json", "every value nested to depth 2, up to 2 elements, 5 layouts", depth=2, wide=2, strings=4, keys=3, ints=2, time=3000),
              cfg("variant", "variant_json", "every value nested to depth 1, up to 4 elements", depth=1, wide=4, strings=4, keys=4, ints=2, time=1500),
              cfg("variant", "variant_json", "every value nested to depth 6, up to 1 element", depth=6, wide=1, strings=7, keys=4, ints=3)],
}
CHECKS["C17"] = {
    "quick": [cfg("error", "error_numbers", "all 2^30 pairs of set and message"),
              cfg("error_asan", "error_objects", "3 errors, every sequence of 4 operations", depth=4)],
    "thorough": [cfg("error", "error_numbers", "all 2^30 pairs of set and message"),
              cfg("error_asan", "error_objects", "3 errors, every sequence of 6 operations", depth=6)],
    "rule": "one case per pair; every pair is distinct",
}
SCHED_ASSUMPTIONS = [
    "threads switch only at synchronisation operations and at accesses to memory that another thread could know of; races between such points are found by vector clocks in any one of the orders",
    "no weak-memory reordering of atomics beyond what the happens-before race detector reports",
    "pthread primitives behave as sched_main.cpp models them: error-checking mutexes, conditions with a choice of the woken thread, virtual time"]
KINDS = ["strings", "arrays", "string_arrays", "maps", "variants", "errors"]
CHECKS["C18"] = {
    "quick": [cfg("share", "shared_" + k, "two threads and the main one share one value, one preemption", preemptions=1, counters=0, main=0) for k in KINDS] +
             [cfg("share", "shared_" + k, "one thread and the main one, which works too, one preemption", preemptions=1, counters=0, main=1, threads=1) for k in KINDS] +
             [cfg("share", "shared_" + k, "two threads, two preemptions", preemptions=2, counters=0, main=0) for k in ("errors", "arrays")] +
             [cfg("share", "shared_" + k, "one thread and the main one, two preemptions", preemptions=2, counters=0, main=1, threads=1) for k in ("errors", "arrays", "maps")] +
             [cfg("share", "conversions", "conversions of unrelated strings, one preemption", preemptions=1)],
    "thorough": [cfg("share", "conversions", "conversions of unrelated strings, two preemptions", preemptions=2, time=2000)] +
             [cfg("share", "shared_" + k, "two threads, two preemptions", preemptions=2, counters=0, main=0, time=2000) for k in KINDS] +
             [cfg("share", "shared_" + k, "one thread and the main one, two preemptions", preemptions=2, counters=0, main=1, threads=1, time=2000) for k in KINDS] +
             [cfg("share", "shared_" + k, "two threads, one preemption, switching at every counting", preemptions=1, counters=1, main=0, time=2000) for k in KINDS] +
             [cfg("share", "shared_" + k, "one thread and the main one, two operations each, one preemption", preemptions=1, counters=0, main=1, threads=1, depth=2, time=2000) for k in KINDS] +
             [cfg("share", "shared_" + k, "three threads, one preemption", preemptions=1, counters=0, threads=3, main=0, time=2000) for k in ("errors", "arrays")],
    "rule": "one execution per schedule and choice of operations", "assumptions": SCHED_ASSUMPTIONS + ["with counters=0, increments and decrements of reference counts are not points of preemption: they commute, except for the last"],
}
CHECKS["C29"] = {
    "quick": [cfg("sc_rx", "shared_result", "two threads and the main one with copies of a result, two preemptions", preemptions=2, counters=0),
              cfg("sc_rx", "shared_program", "two threads with one program, 7 expressions, 6 texts, 4 operations, one preemption", preemptions=1, counters=0),
              cfg("sc_rx", "shared_expression", "two threads that compile, one preemption", preemptions=1, counters=0)],
    "thorough": [cfg("sc_rx", "shared_result", "two threads and the main one with copies of a result, three preemptions", preemptions=3, counters=0, time=2000),
              cfg("sc_rx", "shared_result", "three threads and the main one, one preemption", preemptions=1, counters=0, threads=3, time=2000),
              cfg("sc_rx", "shared_result", "two threads and the main one, switching at every counting", preemptions=2, counters=1, time=2000),
              cfg("sc_rx", "shared_program", "two threads with one program, switching at every counting, one preemption", preemptions=1, counters=1, time=2000),
              cfg("sc_rx", "shared_program", "two threads with one program, two preemptions", preemptions=2, counters=0, time=3000),
              cfg("sc_rx", "shared_expression", "two threads that compile, two preemptions", preemptions=2, counters=0, time=2000)],
    "rule": "one execution per schedule and choice of operations", "assumptions": CHECKS["C18"]["assumptions"],
}
CHECKS["C19"] = {
    "quick": [cfg("thread", "threads_mixed", "up to two threads of 4 kinds, joined singly or any, one preemption", preemptions=1, bodies=4),
              cfg("thread", "threads_mixed", "one thread of 6 kinds, three preemptions", preemptions=3, threads=1),
              cfg("thread", "two_joiners", "two joiners of any", preemptions=1),
              cfg("thread", "join_and_any", "a joiner of one, another of any", preemptions=1),
              cfg("thread", "start_fails", "a thread that can't be started", preemptions=1),
              cfg("thread", "same_id", "an id used again", preemptions=1),
              cfg("thread", "self_starting", "threads that start themselves and others", preemptions=1)],
    "thorough": [cfg("thread", "threads_mixed", "up to two threads of 6 kinds, one preemption", preemptions=1, time=1500),
              cfg("thread", "threads_mixed", "one thread of 6 kinds, five preemptions", preemptions=5, threads=1, time=1500),
              cfg("thread", "threads_mixed", "up to two threads of 4 kinds, two preemptions", preemptions=2, bodies=3, time=3000),
              cfg("thread", "threads_mixed", "up to three threads, no preemption but at waits", preemptions=0, threads=3, time=1500),
              cfg("thread", "two_joiners", "two joiners of any", preemptions=2, time=1500),
              cfg("thread", "join_and_any", "a joiner of one, another of any", preemptions=2, time=1500),
              cfg("thread", "start_fails", "a thread that can't be started", preemptions=3, time=1500),
              cfg("thread", "same_id", "an id used again", preemptions=3, time=1500),
              cfg("thread", "self_starting", "threads that start themselves and others", preemptions=2, sub=1, time=1500)],
    "rule": "one execution per schedule and choice of operations", "assumptions": SCHED_ASSUMPTIONS,
}
LATCH = [("latch", "latch_ops", "two threads, two of 5 operations each", dict(depth=2)), ("latch", "latch_ops", "three threads, one operation each", dict(depth=1, threads=3)),
         ("latch", "latch_ops", "two threads and the main one", dict(depth=1, main=1)), ("latch", "first_latch", "threads that make the first latches", dict(threads=3)),
         ("latch", "two_latches", "two latches", {}), ("cond", "condition_loop", "up to two waiters for a condition to hold", {}), ("cond", "wake_waiters", "up to two waiters, woken", {}),
         ("cond", "wake_one", "two waiters, one signal", {}), ("cond", "two_conditions", "waiters for two conditions", {}),
         ("cond", "timed_wait", "12 delays, 4 phases of the clock, woken at 7 times", {}), ("cond", "timed_loop", "a loop of timed waits", {})]
CHECKS["C20"] = {
    "quick": [cfg(h, c, w + ", two preemptions", preemptions=2, **p) for h, c, w, p in LATCH] +
             [cfg("cond", "condition_loop", "up to two waiters, one spurious wakeup", preemptions=1, spurious=1),
              cfg("cond", "timed_wait", "with one spurious wakeup", preemptions=1, spurious=1)],
    "thorough": [cfg(h, c, w + ", three preemptions", preemptions=3, time=1500, **p) for h, c, w, p in LATCH] +
             [cfg("latch", "latch_ops", "two threads, three of 5 operations each", preemptions=2, depth=3, time=1500),
              cfg("cond", "condition_loop", "up to three waiters", preemptions=1, threads=3, time=1500),
              cfg("cond", "condition_loop", "up to two waiters, two spurious wakeups", preemptions=2, spurious=2, time=1500),
              cfg("cond", "timed_wait", "with two spurious wakeups", preemptions=2, spurious=2, phases=6, time=1500)],
    "rule": "one execution per schedule and choice of operations", "assumptions": SCHED_ASSUMPTIONS,
}
for _t, _p in (("quick", 2), ("thorough", 4)):
    CHECKS["C04"][_t].append(cfg("share", "concurrent_queries", "two threads asking at once, %d preemptions" % _p, preemptions=_p, depth=2, chars=6, time=1500))
# Sizes: the same statements on lengths that the exhaustive configurations do not reach
for _id, _q, _t in (
    ("C06", [("string_sizes", "every operation with texts of every length to 36 and 24, 6 ways to hold them", dict(n=36, k=24)),
             ("string_sizes", "with lengths about powers of 2 to 1025", dict(n=1, k=1, bign=15, bigk=13)),
             ("string_sizes", "with short strings added to some of up to 70000 characters", dict(n=0, k=2, bign=23)),
             ("string_sizes", "with up to 70000 characters added to short strings", dict(n=2, k=0, bigk=23))],
            [("string_sizes", "every operation with texts of every length to 100 and 70", dict(n=100, k=70)), ("string_sizes", "with lengths to 70000 and 2047", dict(n=2, k=2, bign=23, bigk=16))]),
    ("C07", [("string_sizes_index", "each character and many slices of texts of every length to 140, and to 70000, in 6 orders", dict(n=140, bign=23))],
            [("string_sizes_index", "each character and many slices of texts of every length to 600, and to 70000, in 6 orders", dict(n=600, bign=23))]),
    ("C08", [("string_sizes_search", "texts of up to 36 characters with periods to 5, needles of up to 20 that almost match", dict(n=36, k=20)),
             ("string_sizes_compare", "texts of every length to 140, and to 70000, and the same with one character changed", dict(n=140, bign=23))],
            [("string_sizes_search", "texts of up to 90 characters with periods to 9, needles of up to 50 that almost match", dict(n=90, k=50, periods=9)),
             ("string_sizes_compare", "texts of every length to 400, and to 70000, and the same with one character changed", dict(n=400, bign=23))]),
    ("C09", [("number_sizes", "up to 140, and 2048, leading zeros, blanks and digits", dict(n=140, bign=17))], [("number_sizes", "up to 600, and 70000, leading zeros, blanks and digits", dict(n=600, bign=23))]),
    ("C10", [("json_sizes", "8 characters in 5 places of texts of every length to 70, and to 2047", dict(n=70, bign=16))], [("json_sizes", "texts of every length to 400, and to 70000", dict(n=400, bign=23))]),
    ("C12", [("string_sizes_transform", "8 transformations of texts of every length to 70, and to 2047", dict(n=70, bign=16))], [("string_sizes_transform", "texts of every length to 400, and to 70000", dict(n=400, bign=20))])):
    CHECKS[_id]["quick"] += [cfg("str", c, w, **p) for c, w, p in _q]
    CHECKS[_id]["thorough"] += [cfg("str", c, w, time=1500, **p) for c, w, p in _t]
CHECKS["C13"]["quick"] += [cfg("array", "array_sizes", "17 operations on arrays of up to 66 elements with up to 40, 5 ways to hold them", n=66, k=40),
                           cfg("array", "array_sizes", "with numbers of elements about powers of 2 to 4096", n=0, k=0, bign=16, bigk=16), cfg("array", "array_sizes", "and up to 70000", n=1, k=2, bign=19)]
CHECKS["C13"]["thorough"] += [cfg("array", "array_sizes", "17 operations on arrays of up to 200 elements with up to 80, 5 ways to hold them", n=200, k=80, time=1500), cfg("array", "array_sizes", "with numbers of elements about powers of 2 to 70000", n=2, k=2, bign=19, bigk=19, time=1500)]
CHECKS["C14"]["quick"] += [cfg("array", "array_sizes_search", "8 patterns of up to 100 elements, and about powers of 2 to 4096", n=100, bign=16)]
CHECKS["C14"]["thorough"] += [cfg("array", "array_sizes_search", "8 patterns of up to 600 elements, and to 70000", n=600, bign=19, time=1500)]
CHECKS["C11"]["quick"] += [cfg("variant", "variant_json_sizes", "7 kinds of large value, to 120 elements or levels", n=120)]
CHECKS["C11"]["thorough"] += [cfg("variant", "variant_json_sizes", "7 kinds of large value, to 200 elements or levels", n=200, time=1500)]
CHECKS["C15"]["quick"] += [cfg("map", "map_sizes", "maps of up to 150 entries built in 4 orders, 9 operations", n=150)]
CHECKS["C15"]["thorough"] += [cfg("map", "map_sizes", "maps of up to 300 entries built in 4 orders, 9 operations", n=300, time=1500)]
CHECKS["C16"]["quick"] += [cfg("variant", "variant_magnitudes", "every pair of conversions of numbers about each power of 2 and 10", depth=2), cfg("variant", "variant_sizes", "variants of up to 120 elements", n=120)]
CHECKS["C16"]["thorough"] += [cfg("variant", "variant_magnitudes", "every sequence of 3 conversions of numbers about each power of 2 and 10", depth=3, time=1500), cfg("variant", "variant_sizes", "variants of up to 300 elements", n=300, time=1500)]
_PX = "16 constructs of up to %d parts in 8 frames, on long texts"
CHECKS["C21"]["quick"] += [cfg("pegexp_fast", "pegexp_sizes", _PX % 100, n=100)]
CHECKS["C22"]["quick"] += [cfg("pegexp", "pegexp_sizes", _PX % 40 + ", under AddressSanitizer", n=40)]
CHECKS["C21"]["thorough"] += [cfg("pegexp_fast", "pegexp_sizes", _PX % 300, n=300, time=1500)]
CHECKS["C22"]["thorough"] += [cfg("pegexp", "pegexp_sizes", _PX % 100 + ", under AddressSanitizer", n=100, time=1500)]
_PG = "13 families of grammars of up to %d rules, levels or captures, on long texts"
CHECKS["C23"]["quick"] += [cfg("peg", "peg_sizes", _PG % 40 + ", under AddressSanitizer", n=40)]
CHECKS["C24"]["quick"] += [cfg("peg_fast", "peg_sizes", _PG % 150, n=150)]
CHECKS["C23"]["thorough"] += [cfg("peg", "peg_sizes", _PG % 120 + ", under AddressSanitizer", n=120, time=1500)]
CHECKS["C24"]["thorough"] += [cfg("peg_fast", "peg_sizes", _PG % 190, n=190, time=1500)]
_RX = "16 families of expressions of up to %d parts, on texts to 62 characters"
CHECKS["C25"]["quick"] += [rx(_RX % 58, config="rx_longer", n=58)]
CHECKS["C26"]["quick"] += [rx(_RX % 40 + ", under AddressSanitizer", "rx", "rx_longer", n=40)]
CHECKS["C25"]["thorough"] += [rx(_RX % 80, config="rx_longer", n=80, time=1500)]
CHECKS["C26"]["thorough"] += [rx(_RX % 60 + ", under AddressSanitizer", "rx", "rx_longer", n=60, time=1500)]
