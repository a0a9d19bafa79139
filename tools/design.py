#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md (bounds of each check, table of planted bugs) from checks/ and seeded/."""
import glob, json, os, re, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = {c.get("property") or c.get("id"): c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}


def bounds(i):
    s = open(os.path.join(V, "checks", i + ".cpp")).read()
    m = re.search(r'ck\.bounds = ((?:\s*"(?:[^"\\]|\\.)*")+)', s)
    return "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))).replace("\\\\", "\\")


notes_file = os.path.join(V, "tools", "design_notes.py")
why = runpy.run_path(notes_file)
out = []
for p in props:
    i = p["id"]
    notes = why.get("NOTES", {}).get(i, "")
    out.append("### %s %s\n\n*Property.* %s\n\n*Enumerated.* %s.\n" % (i, p["title"], p["statement"], bounds(i)))
    if notes: out.append("*Oracle and notes.* %s\n" % notes)
    w = p["why_tests_cant"]
    if w: out.append("*Why tests cannot settle it.* %s\n" % w)
per = "\n".join(out)
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"]))
tab = "| planted change | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(sorted(rows, key=lambda r: r.split("|")[2]))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- properties -->\n).*?(<!-- end -->)", lambda m: m.group(1) + per + "\n" + m.group(2), s, flags=re.S)
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- end -->)", lambda m: m.group(1) + tab + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)
