#!/opt/venv/bin/python
"""
check.py <property> [--tier quick|thorough]     decide one property
check.py --replay <file>                        replay a counterexample
"""
from __future__ import annotations

import argparse
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = HERE
    e["PYTHONHASHSEED"] = "0"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e


def sub(args, timeout):
    p = subprocess.Popen(
        [PY, "-m", "symex.job", *map(str, args)], cwd=HERE, env=env(),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
        start_new_session=True,
    )
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return -1, "timeout"
    return p.returncode, err


def do_replay(module, h, tier, batch, work, tag, timeout=240):
    """Replay inputs on the unmodified code, in a fresh process."""
    if not batch:
        return []
    inp, out = (os.path.join(work, f"{h.name}.{tag}.{x}") for x in ("in", "out"))
    with open(inp, "w") as f:
        json.dump(batch, f)
    rc, err = sub(["replay", module, h.name, tier, inp, out], timeout)
    try:
        with open(out) as f:
            res = json.load(f)
    except (OSError, ValueError):
        res = []
    while len(res) < len(batch):
        res.append({"status": "error", "detail": [f"rc={rc} {err[-500:]}"],
                    "checks": 0})
        if rc == 0:
            break
    return res[: len(batch)]


def run_harness(module, h, tier, seed, work):
    out = os.path.join(work, f"{h.name}.json")
    budget = h.budget_thorough if tier == "thorough" else h.budget
    rc, err = sub(["explore", module, h.name, tier, seed, out], budget + 120)
    try:
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError):
        return dict(harness=h.name, fatal=f"rc={rc} {err[-1500:]}")
    r["cex_replay"] = do_replay(
        module, h, tier, [c["inputs"] for c in r["cex"]], work, "cex")
    r["witness_replay"] = do_replay(
        module, h, tier, r["witnesses"], work, "wit")
    r["cut_replay"] = do_replay(
        module, h, tier, r["cut_witnesses"], work, "cut")
    return r


def find_module(prop):
    for fn in sorted(os.listdir(os.path.join(HERE, "harnesses"))):
        if fn.lower().startswith(prop.lower()) and fn.endswith(".py"):
            return fn[:-3]
    raise SystemExit(f"no harness module for {prop}")


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        return replay_file(a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    module = find_module(a.property)
    sys.path.insert(0, REPO)
    mod = importlib.import_module(f"harnesses.{module}")
    prop = mod.PROPERTY
    hs = [h for h in mod.HARNESSES if tier in h.tiers
          and (a.only is None or h.name == a.only)]
    work = tempfile.mkdtemp(prefix=f"sx{prop}")
    try:
        workers = min(8, max(1, len(hs)))
        with cf.ThreadPoolExecutor(workers) as pool:
            results = list(pool.map(
                lambda h: run_harness(module, h, tier, seed, work), hs))
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    return report(prop, mod, hs, results, tier, seed, t0, a)


def report(prop, mod, hs, results, tier, seed, t0, a):
    known = known_findings(prop)
    violations, spurious, broken, incon = [], [], [], []
    undecided = []
    enc, samples = set(), []
    tot = {k: 0 for k in (
        "paths", "cut", "infeasible", "forks", "queries", "checks", "unsat",
        "trivial", "unknown", "n_errors")}
    solver_s, replays_ok = 0.0, 0
    perh = {}
    for h, r in zip(hs, results):
        if r.get("fatal"):
            broken.append((h.name, r["fatal"]))
            perh[h.name] = {"error": r["fatal"][-400:]}
            continue
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        enc |= set(r["encoded"])
        for c, rep in zip(r["cex"], r["cex_replay"]):
            if rep["status"] == "violation":
                violations.append((h, rep["detail"][0], c["inputs"]))
            else:
                soft = bool(c["flags"]) or "unexpected exception" in c["label"]
                (incon if soft else spurious).append(
                    (h.name, c["label"], c["inputs"], rep))
        for w, rep in zip(r["witnesses"], r["witness_replay"]):
            if rep["status"] == "violation":
                violations.append((h, rep["detail"][0], w))
            elif rep["status"] == "ok":
                replays_ok += 1
            elif rep["status"] != "assume":
                incon.append((h.name, "witness replay", w, rep))
        n_cut_ok = 0
        for w, rep in zip(r["cut_witnesses"], r["cut_replay"]):
            if rep["status"] == "violation":
                violations.append((h, rep["detail"][0], w))
            elif rep["status"] == "ok":
                n_cut_ok += 1
        if r["witnesses"]:
            samples.append({"harness": h.name, "path_inputs": r["witnesses"][0]})
        reached = r["checks"] > 0
        vac = not reached or (r["paths"] == 0 and not r["cex"])
        if vac:
            undecided.append(h.name)
            why = ("vacuous: no path reached the property "
                   f"{r['engine_errors'][:1]} {r['notes']}")
            if n_cut_ok or any(x["status"] == "ok" for x in r["witness_replay"]):
                incon.append((h.name, why, {}, {}))
            else:
                broken.append((h.name, why))
        perh[h.name] = {
            "functions": h.functions, "bounds": h.bounds, "stubs": h.stubs,
            "assumptions": h.assumptions,
            "paths": r["paths"], "paths_cut_by_bound": r["cut"],
            "paths_ended_by_assumption": r["infeasible"],
            "forks": r["forks"], "solver_queries": r["queries"],
            "property_queries": r["checks"],
            "discharged_unsat": r["unsat"] - r["trivial"],
            "discharged_by_simplifier": r["trivial"],
            "unknown": r["unknown"], "solver_s": r["solver_s"],
            "wall_s": r["wall_s"], "all_paths_within_bounds": bool(
                r["exhausted"] and not r["cut"] and not r["unknown"]
                and not r["n_errors"]),
            "reachability_witness": r["witnesses"][:1],
            "path_replays_ok": sum(
                1 for x in r["witness_replay"] if x["status"] == "ok"),
            "notes": r["notes"],
        }
        if a.v:
            print(json.dumps({k: v for k, v in perh[h.name].items()
                              if k not in ("functions", "bounds", "stubs",
                                           "assumptions")}))
            print(h.name, "wall", r["wall_s"])
            for e in r["engine_errors"][:2]:
                print(e)
            for c, rep in zip(r["cex"], r["cex_replay"]):
                print("CEX", c, rep)
    # partition violations by known findings
    fresh, matched = [], {}
    for h, label, inputs in violations:
        k = next((k for k in known if matches(k, h.name, label, inputs)), None)
        if k is not None:
            matched[k["id"]] = k
        else:
            fresh.append((h, label, inputs))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    code = 0
    seen = set()
    for h, label, inputs in fresh:
        if (h.name, label) in seen:
            continue
        seen.add((h.name, label))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}-{h.name}-{len(seen)}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "module": mod.__name__.split(".")[-1],
                       "harness": h.name, "tier": tier, "label": label,
                       "inputs": inputs,
                       "how": f"python {HERE}/check.py --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}  [{h.name}: {label}] "
              f"inputs={json.dumps(inputs)[:400]}")
        code = 1
    for n, why in broken:
        print(f"ERROR harness={n}: {why[-600:]}")
    for n, label, inputs, rep in spurious:
        print(f"UNREPRODUCED harness={n} label={label} "
              f"inputs={json.dumps(inputs)[:300]} replay={rep}")
    if len(incon) > 5:
        print(f"INCONCLUSIVE: {len(incon)} (first 5 shown)")
    for n, label, inputs, rep in incon[:5]:
        print(f"INCONCLUSIVE harness={n} label={label} "
              f"{json.dumps(inputs)[:200]} {str(rep)[-300:]}")
    if code == 0 and len(undecided) + sum(
        1 for r in results if r.get("fatal")
    ) == len(hs):
        code = 2        # nothing at all could be decided
    if code == 0 and spurious:
        print(f"UNDECIDED: {len(spurious)} solver counterexample(s) that the "
              "real code does not reproduce")
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "explanation": (
                "Bounded symbolic execution of the functions listed per "
                "harness, loaded from /repo's working tree; every feasible "
                "path is a state of the execution tree; z3 decides each "
                "branch and each property query for all values."),
            "states": tot["paths"], "transitions": tot["forks"],
            "traces_validated_against_impl": replays_ok,
            "samples": samples[:6],
            "exhaustive": all(
                p.get("all_paths_within_bounds", False) for p in perh.values()),
            "solver": "z3 " + z3v(), "solver_s": round(solver_s, 2),
            "solver_queries": tot["queries"],
            "property_queries": tot["checks"],
            "property_queries_discharged": tot["unsat"],
            "unknown": tot["unknown"],
            "counterexamples_not_reproduced": len(spurious),
            "inconclusive": [
                {"harness": n, "label": l} for n, l, _, _ in incon][:20],
            "harnesses": perh,
            "encoded_modules": sorted(enc),
            "harness_errors": [n for n, _ in broken],
            "undecided_harnesses": undecided,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + sorted(
            {x for h in hs for x in h.assumptions}),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{prop} {tier}: {tot['paths']} paths, {tot['checks']} property "
          f"queries ({tot['unsat']} discharged), {tot['queries']} solver "
          f"queries in {solver_s:.1f}s, {replays_ok} paths replayed on the "
          f"real code, wall {time.time()-t0:.1f}s, exit {code}")
    return code


def selftest():
    """everything the checks need is importable"""
    sys.path.insert(0, REPO)
    rc, err = sub(["selftest", "-", "-", "-", "-", "-"], 300)
    if rc != 0:
        print(err[-2000:])
        return 1
    for fn in sorted(os.listdir(os.path.join(HERE, "harnesses"))):
        if fn.startswith("c") and fn.endswith(".py"):
            importlib.import_module(f"harnesses.{fn[:-3]}")
    print("selftest ok")
    return 0


def z3v():
    try:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def matches(k, harness, label, inputs):
    if k["harness"] != harness or k["label"] not in label:
        return False
    cond = k.get("when")
    if cond is None:
        return True
    try:
        return bool(eval(cond, {"__builtins__": {
            "len": len, "any": any, "all": all, "abs": abs}}, dict(i=inputs)))
    except Exception:
        return False


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    sys.path.insert(0, REPO)
    mod = importlib.import_module(f"harnesses.{d['module']}")
    h = next(h for h in mod.HARNESSES if h.name == d["harness"])
    work = tempfile.mkdtemp(prefix="sxr")
    res = do_replay(d["module"], h, d["tier"], [d["inputs"]], work, "x")
    print(json.dumps(res, indent=1))
    if res[0]["status"] == "violation":
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
