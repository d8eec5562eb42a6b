#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from the harness modules' META."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True

NOT_APPLICABLE = []
na = os.path.join(HERE, "tools", "not_applicable.json")
if os.path.exists(na):
    with open(na) as f:
        NOT_APPLICABLE = json.load(f)

props, checks = [], []
for fn in sorted(os.listdir(os.path.join(HERE, "harnesses"))):
    if not (fn.startswith("c") and fn.endswith(".py")):
        continue
    m = importlib.import_module("harnesses." + fn[:-3])
    M = m.META
    assert len(M["title"]) <= 80, M["title"]
    props.append(dict(
        id=m.PROPERTY, title=M["title"], statement=M["statement"],
        quantifier=dict(over=M.get("over", ["inputs"]), text=M["quantifier"]),
        why_tests_cant=M["why"],
        anchors=dict(files=M["files"], mechanism=[
            dict(name=n, where=w) for n, w in M["mechanism"]]),
    ))
    checks.append(dict(
        property=m.PROPERTY,
        quick_cmd=f"./check.py {m.PROPERTY} --tier quick",
        thorough_cmd=f"./check.py {m.PROPERTY} --tier thorough",
        technique="bounded symbolic execution of the real Python source, "
                  "decided by z3, counterexamples replayed on the real code",
        level="model_checking",
        level_note=M["note"],
        evidence_file=f"evidence/{m.PROPERTY}.json",
    ))
for n in NOT_APPLICABLE:
    props.append(n["definition"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1, setup_cmd="/opt/venv/bin/python check.py --selftest",
        checks=checks,
        not_applicable=[dict(property=n["definition"]["id"], reason=n["reason"])
                        for n in NOT_APPLICABLE],
        notes="See DESIGN.md.  No hooks in /repo; the checks load /repo's "
              "working tree on every run.",
    ), f, indent=1)
try:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
    for path, schema in (("MANIFEST.json", "MANIFEST"),):
        jsonschema.validate(json.load(open(os.path.join(HERE, path))),
                            json.load(open(f"/root/.vp/{schema}.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, s)
    print(len(props), "properties,", len(checks), "checks: valid")
except ImportError:
    pass
