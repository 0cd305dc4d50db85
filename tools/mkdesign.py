#!/usr/bin/env python3
"""Generates DESIGN.md from design.md, design_props.py, the spaces of the
harness (gpegmc spaces > FILE, given as argument), KNOWN_FINDINGS and seeded/."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
exec(open(os.path.join(here, "design_props.py")).read())
exec(open(os.path.join(here, "notes.py")).read())
exec(open(os.path.join(here, "caught.py")).read())
props = {}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); props[p["id"]] = p
def merge(q, t):
    if not q: return t + " (thorough only)"
    if not t or q == t: return q
    a, b = re.split(r"(\s+)", q), re.split(r"(\s+)", t)
    if len(a) == len(b):
        def tok(x, y):
            if x == y: return x
            m, n = re.match(r"^(.*?)(\d+)(\D*)$", x), re.match(r"^(.*?)(\d+)(\D*)$", y)
            if m and n and m[1] == n[1] and m[3] == n[3]: return f"{m[1]}{m[2]}→{n[2]}{m[3]}"
            return f"{x}→{y}"
        return "".join(tok(x, y) for x, y in zip(a, b))
    return f"{q} — thorough: {t}"
def esc(s): return s.replace("<", "\\<").replace("*", "\\*").replace("|", "\\|").replace("\n", "\\n").replace("_", "\\_")
out = []
for i in sorted(props):
    d = D[i]
    out.append(f"### {i} {props[i]['title']}\n\n*Level:* model checking ({NOTES[i][0]}).\n\n{d[0]}\n\n*Beyond tests:* {d[1]}" + (f"\n\n*Not covered:* {d[2]}" if d[2] else ""))
P = "\n\n".join(out)
sp = []
for e in json.load(open(sys.argv[1])):
    sp.append(f"**{e['ID']}**\n")
    for a in e["Assume"] or []: sp.append(f"- assumption: {esc(a)}")
    for s in e["Spaces"]: sp.append(f"- `{s['Name']}`: {esc(merge(s['Quick'], s['Thorough']))}")
    sp.append("")
fx = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(os.path.join(root, "KNOWN_FINDINGS")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.append(f"| {m[1]} | {m[2]} | {m[3].replace('|', chr(92)+'|')} |")
sd = ["| change | property | reported by | note |", "|---|---|---|---|"]
n = 0
for x in sorted(os.listdir(os.path.join(root, "seeded"))):
    meta = json.load(open(os.path.join(root, "seeded", x, "meta.json"))); n += 1
    sd.append(f"| {x} | {meta['property']} | {CAUGHT.get(x, '**none**')} | {WHAT.get(x, '')} |")
t = open(os.path.join(here, "design.md")).read()
for k, v in [("PROPS", P), ("FIXES", "\n".join(fx)), ("NSEEDS", str(n)), ("SEEDS", "\n".join(sd)), ("MUTATION", MUTATION.strip()), ("SPACES", "\n".join(sp))]:
    t = t.replace(f"@@{k}@@", v)
open(os.path.join(root, "DESIGN.md"), "w").write(t)
