"""Write a planted bug to /verif/seeded and confirm it: the patch applies,
the stable tests pass with it, demo.sh passes without and fails with it; then
run the property's check against it.  Development tool; no check uses it."""
import json
import os
import subprocess
import sys

REPO = f"/tmp/seedrepo{os.getpid()}"    # a scratch copy
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "VERIF_REPO": REPO}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          env=ENV, **kw)


def tests():
    out = f"{REPO}.json"
    for f in ("build", "test"):
        with open(f"{REPO}.{f}.sh", "w") as g:
            g.write(open(f"/opt/vp/{f}.sh").read().replace("/repo", REPO))
    r = sh(f"bash {REPO}.build.sh && bash {REPO}.test.sh {out}")
    assert os.path.exists(out), r.stdout[-500:] + r.stderr[-500:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    res = sorted(stable - set(json.load(open(out))["passed"]))
    os.remove(out)
    return res


def seed(id_, prop, edits, needs, breaks, demo, check=True, props=None):
    sh(f"rm -rf {REPO}; git clone -q /repo {REPO}")
    d = f"/verif/seeded/{id_}"
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/demo.py", "w") as f:
        f.write(demo)
    with open(f"{d}/demo.sh", "w") as f:
        f.write('#!/bin/bash\nset -e\nexport PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    with open(f"{d}/meta.json", "w") as f:
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), f,
                  indent=1)
    try:
        for fn, old, new in edits:
            p = f"{REPO}/{fn}"
            s = open(p).read()
            assert s.count(old) == 1, (fn, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        with open(f"{d}/patch.diff", "w") as f:
            f.write(sh(f"git -C {REPO} diff").stdout)
        failed = tests()
        r1 = sh(f"bash {d}/demo.sh", cwd=REPO)
        out = dict(id=id_, tests_broken=failed, demo_patched=r1.returncode)
        if check:
            for p in props or [prop]:
                c = sh(f"/opt/venv/bin/python check.py {p}", cwd="/verif")
                out["check_" + p] = c.returncode
                out["lines"] = c.stdout.strip().split("\n")[-3:]
    finally:
        sh(f"git -C {REPO} checkout -- .")
    r0 = sh(f"bash {d}/demo.sh", cwd=REPO)
    sh(f"rm -rf {REPO} {REPO}.*")
    out["demo_base"] = r0.returncode
    if r0.returncode:
        out["err"] = r0.stderr[-600:]
    out["demo_err"] = r1.stderr.strip()[-200:]
    ok = (not failed and r1.returncode != 0 and r0.returncode == 0)
    out["VALID"] = ok
    print(json.dumps(out, indent=1), flush=True)
    return out
