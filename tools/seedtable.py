#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Missed at first: what was extended for it
LED = {
    "C05-utf8-postincr": "negative distances",
    "C07-copied-bookmark": "a second padding around slices",
    "C04-memo-reread": "(C18) conversions of unrelated strings by two threads",
    "C21-octal": "pegexp_escapes",
    "C24-nesting": "alphabets with +",
    "C25-class-order": "rx_classes",
    "C28-comment-end": "strings over tab, return, space, # with extended syntax",
}
LED.update(json.load(open(os.path.join(V, "tools", "led.json"))) if os.path.exists(os.path.join(V, "tools", "led.json")) else {})
rows = ["| bug | breaks | manifests only with | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = os.path.join(V, "seeded", d, "meta.json")
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    led = LED.get(d)
    rows.append("| %s%s | %s | %s | %s%s |" % (d, "*" if led else "", m["what_it_breaks"], m["needs"], m["property"] if not m.get("missed") else "nothing yet", ", after adding " + led if led else ""))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
t = "\n".join(rows) + "\n"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE\n", "<!-- seeds -->\n" + t + "<!-- /seeds -->\n")
else:
    s = re.sub(r"<!-- seeds -->\n.*?<!-- /seeds -->\n", lambda m: "<!-- seeds -->\n" + t + "<!-- /seeds -->\n", s, flags=re.S)
open(f, "w").write(s)
