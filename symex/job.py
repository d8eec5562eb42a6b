"""
Worker entry points (each runs in its own process):

  python -m symex.job explore <module> <harness> <tier> <seed> <out.json>
  python -m symex.job replay  <module> <harness> <tier> <in.json> <out.json>
"""
from __future__ import annotations

import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def load(module, harness):
    sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.insert(1, HERE)
    mod = importlib.import_module(f"harnesses.{module}")
    for h in mod.HARNESSES:
        if h.name == harness:
            return mod, h
    raise SystemExit(f"no harness {harness}")


def explore(module, harness, tier, seed, out):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from . import rewrite, ops, core, api
    sys.path.insert(0, REPO)
    rewrite.install()
    mod, h = load(module, harness)
    # import everything that the harness needs before CUR is set
    from . import arrays, dense, frames, paths, rec  # noqa: F401  (register numpy/pandas handlers)
    if getattr(mod, "SYMBOLIC_KEYS", False):
        from . import mdict
        mdict.install()
    if getattr(mod, "FITS", False):
        from . import fits  # noqa: F401
    if getattr(mod, "XML_FILES", False):
        from . import xmltree  # noqa: F401
    if getattr(mod, "PICTURES", False):
        from . import pictures  # noqa: F401
    if hasattr(mod, "setup"):
        mod.setup()
    import pdr
    assert os.path.abspath(pdr.__file__).startswith(os.path.abspath(REPO)), pdr.__file__
    thorough = tier == "thorough"
    budget = h.budget_thorough if thorough else h.budget
    ex = core.Explorer(
        budget_s=budget, max_paths=h.max_paths * (10 if thorough else 1),
        enum_cap=h.enum_cap, seed=int(seed),
    )
    params = {**h.params, **(h.params_thorough if thorough else {})}
    errors = []
    timed = {"e": 0}
    scratch = tempfile.mkdtemp(prefix="sxexplore")

    def body():
        sx = api.SymSx(ex, tier, scratch)
        try:
            h.fn(sx, **params)
        except Exception as err:
            ex.note(f"path ended by {type(err).__name__} in harness/engine")
            timed["e"] += 1
            if len(errors) < 5:
                errors.append("".join(traceback.format_tb(err.__traceback__))[-1400:] + type(err).__name__ + ": " + safe(err))
            if unusable(err):
                sx.fail(unusable(err))

    fatal = None
    try:
        ex.explore(body)
    except Exception:
        fatal = traceback.format_exc()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res = dict(
        harness=h.name, fatal=fatal, paths=ex.n_paths, cut=ex.n_cut,
        infeasible=ex.n_infeasible, forks=ex.n_forks, queries=ex.n_queries,
        checks=ex.n_checks, unsat=ex.n_unsat, trivial=ex.n_trivial,
        unknown=ex.n_unknown, solver_s=round(ex.solver_s, 3),
        wall_s=round(getattr(ex, "wall_s", 0), 3), exhausted=ex.exhausted,
        cex=ex.cex, witnesses=thin(ex.witnesses, h.replay_cap),
        cut_witnesses=[{**w, "!partial": True} for w in ex.cut_witnesses], notes=ex.notes,
        engine_errors=errors, n_errors=timed["e"],
        encoded=sorted(rewrite.ENCODED),
    )
    with open(out, "w") as f:
        json.dump(res, f)


def unusable(err):
    """a label if the harness could not make use of what the code returned,
    None if it may be that the code's interface is another"""
    if isinstance(err, AttributeError):
        obj = getattr(err, "obj", None)
        if obj is not None and (
            type(obj).__module__.startswith(("pdr", "symex", "harnesses"))
            or type(obj).__name__ == "module" or isinstance(obj, type)
        ):
            return None
    elif isinstance(err, TypeError):
        if "argument" in safe(err):
            return None
    elif not isinstance(err, (KeyError, IndexError, ValueError)):
        return None
    if "replay lacks input" in safe(err):
        return None
    return f"unexpected exception {type(err).__name__} on use of the result"


def safe(err):
    try:
        from .core import has_sym
    except ImportError:  # no solver in a replay
        return str(err)[:300]
    return "?" if any(has_sym(a) for a in err.args) else str(err)[:300]


def thin(ws, cap):
    if len(ws) <= cap:
        return ws
    step = len(ws) / cap
    return [ws[int(i * step)] for i in range(cap)]


def replay(module, harness, tier, inp, out):
    mod, h = load(module, harness)
    from . import api
    with open(inp) as f:
        batch = json.load(f)
    params = {**h.params, **(h.params_thorough if tier == "thorough" else {})}
    results = []
    for inputs in batch:
        scratch = tempfile.mkdtemp(prefix="sxreplay")
        sx = api.ConcSx(inputs, tier, scratch)
        try:
            h.fn(sx, **params)
            status = "violation" if sx.violations else "ok"
            detail = sx.violations
        except api.Assume:
            status, detail = "assume", []
        except Exception as err:
            status, detail = "error", [traceback.format_exc()[-2000:]]
            if sx.violations or unusable(err):
                status = "violation"
                detail = sx.violations + [unusable(err) or "unexpected exception"]
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        results.append({"status": status, "detail": detail,
                        "checks": sx.n_checks})
        with open(out, "w") as f:
            json.dump(results, f)
    with open(out, "w") as f:
        json.dump(results, f)


def selftest(*_):
    """the proxies agree with the solver on a trivial program"""
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from . import core, api
    ex = core.Explorer(budget_s=20)

    def body():
        sx = api.SymSx(ex)
        n = sx.int("n", 0, 100)
        m = n * 2 + 1
        sx.check(m % 2 == 1, "odd")
        sx.check(m < 100, "small")

    ex.explore(body)
    assert ex.n_unsat == 1 and [c["label"] for c in ex.cex] == ["small"], ex.cex
    assert ex.cex[0]["inputs"]["n"] >= 50


if __name__ == "__main__":
    if sys.argv[1] == "selftest":
        selftest()
        sys.exit(0)
    if sys.argv[1] == "explore":
        explore(*sys.argv[2:])
    else:
        replay(*sys.argv[2:])
