#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {
    "c04-octal-wraps": "was left open as protoc accepts it; now judged",
    "c04-surrogate-escape": "was left open as protoc accepts it; now judged",
    "c16-mark-by-path": "files were only asked for by name; now also by path",
    "c21-import-mark-before-shadow": "no shadowed paths in histories; histories on disk added",
    "c23-name-suffix": "no confusable names in sets; stream added",
    "c06-aggregate-comment": "no `#` comments in layouts; added",
    "c17-io-not-found-hidden": "failing resolvers knew one kind of I/O error; now eight",
    "c07-wide-column": "no lines of more than 65,535 columns; large texts added",
    "c03-import-index-byte": "never more than 255 imports; large texts added",
    "c07-deep-path": "nesting stopped below it; large texts added",
    "c08-long-comment": "comments were short; large texts added",
    "c05-many-reserved": "lists were short; large texts added",
    "c10-double-default-f32": "defaults of floats were compared as single precision",
    "c11-map-entry-options": "options of map entries were compared by C09 alone",
    "c17-cycle-text": "cycles were short; large graphs added",
    "c15-import-scan": "files with 2,000 imports at most; families with 16,000 added",
    "c16-deep-import-flag": "graphs were in memory; graphs on disk added",
    "c19-many-files": "programs of at most five files; large programs added",
    "c20-json-name-groups": "names of programs were too plain; more kinds added",
    "c22-utf8-after-bom": "no control characters at the end of contents; added",
}
rows = ["| bug | property | needs | first |", "|-|-|-|-|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['needs'].replace('|', chr(92) + '|')} | {'missed: ' + FIRST[n] if n in FIRST else 'caught'} |")
p = V + "/DESIGN.md"
s = open(p).read()
head = s[: s.index("<!-- seeded -->")]
open(p, "w").write(head + "<!-- seeded -->\n\n" + "\n".join(rows) + "\n")
