#!/usr/bin/env python3
"""Writes DESIGN.md: design.in.md with the harnesses' bounds put in (from their doc comments)."""
import re, glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = {p["id"]: p for p in map(json.loads, open("properties.jsonl"))}
text = open("design.in.md").read()
def bounds(m):
    i = m.group(1)
    out = ["### %s %s" % (i, props[i]["title"]), ""]
    body = m.group(2).strip()
    if body:
        out += [body, ""]
    for f in sorted(glob.glob("harness/zz_verif_%s*.go" % i.lower())):
        s = open(f).read()
        for h in re.finditer(r'((?:^//[^\n]*\n)+)func (ZZ_\w+)\(', s, re.M):
            d = " ".join(l[2:].strip() for l in h.group(1).splitlines())
            d = re.sub(r"^ZZ_\w+( \(thorough only\))?:", r"\1:", d).strip()
            out.append("- `%s`%s" % (h.group(2), (" " + d) if d.startswith("(") else d))
    return "\n".join(out) + "\n"
text = re.sub(r"^@(C\d\d)\n((?:(?!@C|## ).*\n)*)", lambda m: bounds(m) + "\n", text, flags=re.M)
def caught(m):
    out = []
    for d in sorted(glob.glob("seeded/*/meta.json")):
        j = json.load(open(d))
        out.append("| %s | %s | %s | %s |" % (d.split("/")[1], j["property"], j["what_it_breaks"], j["needs"]))
    return "| id | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(out) + "\n"
text = re.sub(r"^@seeded\n", caught, text, flags=re.M)
open("DESIGN.md", "w").write(text)
