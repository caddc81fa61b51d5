#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, a section per property (from
tools/props.py, the checks' own rules and tools/design_notes.md), and
tools/design_tail.md."""
import glob, json, os, re
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules, assume, cases = {}, {}, {}
for f in sorted(glob.glob(root + "/harness/checks/p*.go")):
    s = open(f).read()
    for m in re.finditer(r'Prop:\s*"(P\d+)"', s):
        part = s[m.start():]
        r = re.search(r'Rule:\s*("(?:[^"\\]|\\.)*")', part)
        rules[m.group(1)] = json.loads(r.group(1))
        a = re.search(r'Assume:\s*\[\]string\{(.*?)\},\n', part, re.S)
        assume[m.group(1)] = [json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', a.group(1))] if a else []
        cases[m.group(1)] = re.findall(r'Repeat\(e, "([^"]+)", e\.N\((\d+), (\d+)\)', part[:2500])
notes, cur = {}, None
for l in open(root + "/tools/design_notes.md"):
    m = re.match(r"## (P\d+)", l)
    if m:
        cur = m.group(1)
        notes[cur] = ""
    elif cur:
        notes[cur] += l
seeds = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
out = open(root + "/tools/design_head.md").read().rstrip() + "\n\n## The properties\n"
for p in PROPS:
    i = p["id"]
    out += f"\n### {i} {p['title']}\n\n*Property.* {p['statement']}\n\n"
    out += f"*Code.* " + "; ".join(f"{a} ({b})" for a, b in p["mech"]) + ".\n\n"
    out += f"*Decided by.* {p['technique'][0].upper() + p['technique'][1:]}. "
    r = rules[i]
    out += r[0].upper() + r[1:] + ".\n\n"
    if assume[i]:
        out += "*Assumes.* " + "; ".join(assume[i]) + ".\n\n"
    if cases[i]:
        out += "*Executions (quick / thorough).* " + ", ".join(f"{n}: {q} / {t}" for n, q, t in cases[i]) + ".\n\n"
    out += f"*Why the tests cannot settle it.* {p['why']} Quantified over: {p['qtext']}.\n"
    if notes.get(i, "").strip():
        out += "\n*Notes.* " + notes[i].strip() + "\n"
    if i in seeds:
        out += "\n*Planted changes.* " + " ".join(f"`{n}`: {d['what_it_breaks']} (needs: {d['needs']})." for n, d in seeds[i]) + "\n"
out += "\n" + open(root + "/tools/design_tail.md").read().rstrip() + "\n"
open(root + "/DESIGN.md", "w").write(out)
print("DESIGN.md:", len(out.split()), "words;", sum(map(len, seeds.values())), "seeds")
