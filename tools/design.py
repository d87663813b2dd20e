#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (property list with spaces and oracles)."""
import os, re, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    src = open(HERE + "/checks/%s.cpp" % i).read()
    m = re.search(r'return mc::main\(c, v, \{ "%s",\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"' % i, src)
    out.append("### %s %s\n\n%s\n\n*Enumerated:* %s.\n\n*Oracle:* %s.\n\n*Beyond tests:* %s\n" % (i, p["title"], p["statement"], m.group(1).rstrip("."), m.group(2), p["why_tests_cant"]))
d = open(HERE + "/DESIGN.md").read()
a, b = "<!-- properties -->\n", "<!-- end properties -->\n"
if a not in d: d += a + b
d = d[:d.index(a)] + a + "\n" + "\n".join(out) + "\n" + d[d.index(b):]
open(HERE + "/DESIGN.md", "w").write(d)

# table of the planted bugs
first = {"P21-reimport-stale", "P17-eval-symbol-global", "P01-arg-index", "P18-def-first", "P02-string-paren", "P36-dst", "P37-globals-undefined", "P33-large-double", "P25-nul", "P21-ext"}
rows = ["| change | caught by | needs | breaks |", "|---|---|---|---|"]
for s in sorted(os.listdir(HERE + "/seeded")) if os.path.isdir(HERE + "/seeded") else []:
    m = json.load(open(HERE + "/seeded/%s/meta.json" % s))
    rows.append("| %s | %s%s | %s | %s |" % (s, m["property"], " (after strengthening)" if s in first else "", m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
d = open(HERE + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- end seeds -->\n"
if a not in d: d += a + b
if len(rows) > 2: d = d[:d.index(a)] + a + "\n" + "\n".join(rows) + "\n\n" + d[d.index(b):]
open(HERE + "/DESIGN.md", "w").write(d)
