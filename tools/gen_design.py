#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the property table, the harness list and the table of planted bugs."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
docs = {}
for f in sorted(glob.glob(V + "/harness/props/*.go")):
    lines = open(f).read().split("\n")
    for i, l in enumerate(lines):
        m = re.match(r"func ([A-Z]\d\d_\w+)\(\)", l)
        if not m: continue
        j, c = i - 1, []
        while j >= 0 and lines[j].startswith("//"):
            c.insert(0, lines[j][2:].strip()); j -= 1
        t = " ".join(c)
        docs[m.group(1)] = t.split(" : ", 1)[1] if " : " in t else t
def part(name, text):
    global s
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + text.strip() + "\n" + s[j:]
s = open(V + "/DESIGN.md").read()
part("PROPS", "| id | property | main bound | harnesses |\n|----|----|----|----|\n" + "\n".join(
    "| %s | %s | %s | %d |" % (p["id"], p["title"], p["quantifier"]["text"], sum(1 for d in docs if d.startswith(p["id"] + "_"))) for p in props))
part("HARNESSES", "\n".join("* **%s** %s\n%s" % (p["id"], p["title"], "\n".join("  * `%s`: %s" % (d, docs[d]) for d in sorted(docs) if d.startswith(p["id"] + "_"))) for p in props))
R = json.load(open(V + "/tools/seeded_results.json"))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    r = R.get(d, {})
    how = r.get("by") or ""
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), "caught" if r.get("caught") else "MISSED", how.replace("|", "/")[:90]))
part("SEEDED", "%d planted, %d caught by the quick check of their property.\n\n| bug | property | needs | result | first report |\n|----|----|----|----|----|\n" % (len(rows), sum("| caught |" in r for r in rows)) + "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
