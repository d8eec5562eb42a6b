"""dbg.py <module> <harness> [n]: explore in-process, show tracebacks behind
counterexamples and cut paths"""
import sys, tempfile, traceback, shutil, os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE); sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from symex import rewrite, core, api
rewrite.install()
from importlib import import_module
m = import_module("harnesses." + sys.argv[1])
h = [h for h in m.HARNESSES if h.name == sys.argv[2]][0]
from symex import arrays, dense, frames, paths, rec
if getattr(m, "SYMBOLIC_KEYS", False):
    from symex import mdict
    mdict.install()
if getattr(m, "FITS", False):
    from symex import fits
if getattr(m, "XML_FILES", False):
    from symex import xmltree
if getattr(m, "PICTURES", False):
    from symex import pictures
import pdr
n = int(sys.argv[3]) if len(sys.argv) > 3 else 2
scr = tempfile.mkdtemp()
ex = core.Explorer(budget_s=30, enum_cap=h.enum_cap)
ex.max_cex = n
orig = core.Limit.__init__ if "__init__" in core.Limit.__dict__ else None
cuts = []
od = core.Explorer.cut_witness
def cw(self):
    cuts.append(traceback.format_exc()[-1800:])
    od(self)
core.Explorer.cut_witness = cw
def body():
    sx = api.SymSx(ex, "quick", scr)
    k = len(ex.cex)
    h.fn(sx, **h.params)
    if len(ex.cex) > k:
        print("CEX", ex.cex[-1]); print((sx.last_tb or "")[-2500:])
ex.explore(body)
shutil.rmtree(scr)
for c in list(dict.fromkeys(cuts))[:n]:
    print("CUT", c)
print("paths", ex.n_paths, "cut", ex.n_cut, "inf", ex.n_infeasible, "q", ex.n_queries, "solver", ex.solver_s, "wall", ex.wall_s, ex.exhausted, ex.notes, "checks", ex.n_checks, ex.n_unsat)
