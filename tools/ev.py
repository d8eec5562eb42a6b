"""Per-harness statistics of the last run: ev.py C11"""
import json, sys
d = json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))
hs = d["coverage"]["harnesses"]
for h in hs if isinstance(hs, list) else [dict(v, name=k) for k, v in hs.items()]:
    print(h["name"], *[f"{k}={h.get(k)}" for k in ("paths", "property_queries", "discharged_unsat", "path_replays_ok", "wall_s")],
          "" if h.get("all_paths_within_bounds") else f"NOT ALL PATHS {h.get('notes')} {h.get('limits')}")
