#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between the marker comments)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, NOT_APPLICABLE, HOW
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        out.append(f"### {i} {p['title']}\nNot applicable: {NOT_APPLICABLE[i]}\n")
        continue
    pl = PLAN[i]
    es = [x["entry"] for x in pl["quick"]]
    cost = ""
    try:
        e = json.load(open(os.path.join(V, "tools/cost.json")))[i]
        cost = f"  \n*cost (quick)*: {e['paths']} paths, {e['queries']} solver queries, {e['wall']} s after the build"
    except Exception:
        pass
    out.append(f"### {i} {p['title']}\n*decided by*: {HOW[i]}  \n*entries*: {', '.join(es)}  \n*bounds*: {pl['bounds']}  \n"
               f"*outside*: {pl['outside']}{cost}\n")
seeds = []
res = {}
f = os.path.join(V, "tools/caught.json")
if os.path.exists(f):
    res = json.load(open(f))
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(s, '')} |")
t = open(os.path.join(V, "DESIGN.md")).read()
def put(t, name, body):
    return re.sub(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m.group(1) + body + "\n" + m.group(2), t, flags=re.S)
t = put(t, "properties", "\n".join(out))
t = put(t, "seeds", "| id | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
