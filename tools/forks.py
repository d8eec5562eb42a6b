import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0,os.environ.get('VERIF_REPO','/repo'))
from symex import rewrite, ops, core, api
rewrite.install()
from collections import Counter; import tempfile; SCR=tempfile.mkdtemp()
C=Counter()
od=core.Explorer.decide; op=core.Explorer.pick
import traceback
def d(self,e):
    n=len(self.trail)
    r=od(self,e)
    if len(self.trail)>n and self.trail[-1]['alt']:
        fr=[f for f in traceback.extract_stack() if 'symex' not in f.filename and 'forks.py' not in f.filename][-1]
        C[(fr.filename[-30:],fr.lineno)]+=1
    return r
core.Explorer.decide=d
def p(self,e,f,cap=None):
    n=len(self.trail)
    r=op(self,e,f,cap)
    if len(self.trail)>n:
        fr=[f for f in traceback.extract_stack() if 'symex' not in f.filename and 'forks.py' not in f.filename][-1]
        C[("PICK",fr.filename[-30:],fr.lineno)]+=1
    return r
core.Explorer.pick=p
from importlib import import_module
m=import_module('harnesses.'+sys.argv[1]); h=[h for h in m.HARNESSES if len(sys.argv)<3 or h.name==sys.argv[2]][0]
from symex import arrays, dense, frames, paths, rec
if getattr(m,'SYMBOLIC_KEYS',False):
    from symex import mdict; mdict.install()
if getattr(m,'XML_FILES',False):
    from symex import xmltree
ex=core.Explorer(budget_s=20,enum_cap=h.enum_cap)
import pdr
ex.explore(lambda: h.fn(api.SymSx(ex,'quick',SCR),**h.params))
print(ex.n_paths,ex.n_queries,ex.solver_s,ex.wall_s,ex.exhausted)
for k,v in C.most_common(20): print(k,v)
from collections import Counter; import tempfile; SCR=tempfile.mkdtemp()
