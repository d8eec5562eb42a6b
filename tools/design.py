#!/opt/venv/bin/python
"""Fill the generated parts of DESIGN.md (from tools/design.in.md)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True
props = ""
for fn in sorted(os.listdir(f"{HERE}/harnesses")):
    if not (fn.startswith("c") and fn.endswith(".py")):
        continue
    m = importlib.import_module("harnesses." + fn[:-3])
    M = m.META
    bounds, funcs, stubs = [], [], []
    for h in m.HARNESSES:
        for acc, new in ((bounds, [h.bounds]), (funcs, h.functions), (stubs, h.stubs)):
            for x in new:
                if x not in acc:
                    acc.append(x)
    paths = q = 0
    wall = "?"
    try:
        with open(f"{HERE}/evidence/{m.PROPERTY}.json") as f:
            ev = json.load(f)
        paths = ev["coverage"]["states"]
        q = ev["coverage"]["solver_queries"]
    except Exception:
        pass
    props += f"### {m.PROPERTY}: {M['title']}\n\n{M['statement']}\n\n"
    props += f"* Symbolic: {M['quantifier']}.\n"
    props += "* Bounds: " + "; ".join(bounds[:6]) + ("; ..." if len(bounds) > 6 else "") + f" ({len(m.HARNESSES)} harnesses).\n"
    props += "* Code executed: " + ", ".join(funcs) + ".\n"
    if stubs:
        props += "* Environment modelled: " + "; ".join(stubs[:8]) + ".\n"
    if M.get("design"):
        props += f"* Oracle: {M['design']}\n"
    if M.get("note"):
        props += f"* Limits: {M['note']}\n"
    if paths:
        props += f"* Size (quick tier): about {paths} paths, {q} solver queries.\n"
    props += f"* Why tests cannot: {M['why']}\n\n"
kf = json.load(open(f"{HERE}/known_findings.json"))
fixed = "\n".join("* " + s.removeprefix("fixed: ") for s in kf["fixed"])
finds = "\n".join(f"* {f['id']} ({f['property']}, harness {f['harness']}): {f['what']}" for f in kf["findings"])
seeded = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
try:
    caught = json.load(open(f"{HERE}/tools/caught.json"))
except FileNotFoundError:
    caught = {}
for d in sorted(os.listdir(f"{HERE}/seeded")):
    j = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    seeded += f"| {d} | {j['property']} | {j['needs']} | {caught.get(d, '?')} |\n"
t = open(f"{HERE}/tools/design.in.md").read()
na = "none"
try:
    na = "\n".join(f"* {n['definition']['id']} ({n['definition']['title']}): {n['reason']}" for n in json.load(open(f"{HERE}/tools/not_applicable.json")))
except FileNotFoundError:
    pass
for k, v in (("PROPS", props), ("FIXED", fixed), ("FINDINGS", finds), ("SEEDED", seeded), ("NA", na)):
    t = t.replace(f"%{k}%", v)
open(f"{HERE}/DESIGN.md", "w").write(t)
