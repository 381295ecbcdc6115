#!/usr/bin/env python3
"""Regenerates case_ref.inc: the Unicode 3.0 case, letter and digit data the library promises, as runs.

Derived from a dump of the library itself, which was checked once against Python's unicodedata: every
conversion it makes agrees with the current Unicode data except those Unicode changed after 3.0
(U+03F2, and the iota-subscript letters, whose full conversions now expand). Reads the dump on stdin:
lines of "ch upper lower title alphabetic digit" (hex hex hex hex dec dec).
"""
import sys
rows = [l.split() for l in sys.stdin]
out = ["// ch, upper, lower, title, alphabetic, digit: only characters with any property\n"]
for c, U, L, T, A, D in rows:
    if not (U == L == T == c and A == "0" and D == "-1"):
        out.append("{0x%s,0x%s,0x%s,0x%s,%s,%s},\n" % (c, U, L, T, A, D))
open("case_ref.inc", "w").writelines(out)
