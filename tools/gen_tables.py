#!/usr/bin/env python3
"""Fills the sub-check and planted-bug tables of DESIGN.md from sources and seeded/."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sub, order = {}, []
for f in sorted(glob.glob(ROOT + "/harness/src/props/*.rs") + [ROOT + "/loomcheck/src/main.rs"]):
    s = open(f).read()
    for m in re.finditer(r'name: "(c\d\d-[^"]+)",(.*?)strategy', s, re.S):
        b = m.group(2)
        rule = re.search(r'rule:\s*"((?:[^"\\]|\\.|\\\n)*)"', b)
        n = [re.search(k + r':\s*([^,]+),', b) for k in ("quick", "thorough")]
        num = lambda x: x.group(1).strip().replace("_", ",") if x else "?"
        sub[m.group(1)] = (num(n[0]), num(n[1]), re.sub(r'\\\n\s*', '', rule.group(1)) if rule else (re.search(r'rule:\s*(\w+)', b) or [0, "?"])[1])
    for m in re.finditer(r'const (\w+): &str = "((?:[^"\\]|\\.|\\\n)*)"', s):
        for k, (q, t, r) in list(sub.items()):
            if r == m.group(1):
                sub[k] = (q, t, re.sub(r'\\\n\s*', '', m.group(2)))
    for m in re.finditer(r'exhaustive(?:_within)?\(\s*"(c\d\d-[^"]+)",\s*"((?:[^"\\]|\\.|\\\n)*)"', s):
        sub[m.group(1)] = ("all", "all", re.sub(r'\\\n\s*', '', m.group(2)))
rows = ["| sub-check | quick | thorough | one case, and when it is non-trivial |", "|---|---|---|---|"]
rows += ["| %s | %s | %s | %s |" % (k, *sub[k]) for k in sorted(sub)]
bugs = ["| bug | breaks | needs |", "|---|---|---|"]
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    bugs.append("| %s | %s: %s | %s |" % (d.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"]))
p = ROOT + "/DESIGN.md"
t = open(p).read()
for tag, r in (("subchecks", rows), ("seeded", bugs)):
    t = re.sub(r"<!-- %s -->\n(\|.*\n)*" % tag, lambda _: "<!-- %s -->\n" % tag + "\n".join(r) + "\n", t)
open(p, "w").write(t)
print(len(rows) - 2, len(bugs) - 2)
