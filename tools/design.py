"""Fill the generated parts of DESIGN.md (property sections, planted-bug table) between markers."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
M = {c["property"]: c for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]}
D = json.load(open(ROOT + "/tools/design_notes.json")) if os.path.exists(ROOT + "/tools/design_notes.json") else {}
def block(name, text):
    global t
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    new = a + "\n" + text + "\n" + b
    if a in t:
        t = t[: t.index(a)] + new + t[t.index(b) + len(b):]
    else:
        t = t.replace("@" + name + "@", new)
t = open(ROOT + "/DESIGN.md").read()
s = []
for p in P:
    c = M.get(p["id"])
    s.append(f"## {p['id']} {p['title']}\n\n{p['statement']}\n")
    if c:
        s.append(f"*Decided by*: {c['technique']}. {c['level_note'][0].upper() + c['level_note'][1:]}.\n")
    s.append(f"*Beyond the tests*: {p['why_tests_cant']}\n")
    if p["id"] in D:
        s.append(D[p["id"]] + "\n")
block("PROPS", "\n".join(s))
rows = ["| bug | property | caught by its quick check | needs |", "|---|---|---|---|"]
R = json.load(open(ROOT + "/tools/bug_results.json")) if os.path.exists(ROOT + "/tools/bug_results.json") else {}
for b in sorted(os.listdir(ROOT + "/seeded")):
    if os.path.exists(f"{ROOT}/seeded/{b}/meta.json"):
        m = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
        rows.append(f"| {b} | {m['property']} | {R.get(b, '?')} | {m['needs']} |")
block("BUGS", "\n".join(rows))
open(ROOT + "/DESIGN.md", "w").write(t)
