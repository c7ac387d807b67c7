import sys
import os
sys.path[:0]=['/verif',os.environ.get('ELGAS_REPO','/repo'),'/opt/venv/lib/python3.12/site-packages']
import structlog, logging
structlog.configure(wrapper_class=structlog.make_filtering_bound_logger(50))
import importlib, pkgutil, contracts
mods=[m.name for m in pkgutil.iter_modules(contracts.__path__)]
for m in mods: importlib.import_module('contracts.'+m)
from dv import verify, vlib
lib=verify.Library()
pat=sys.argv[1:]
def one(job):
    n,case=job
    t=verify.Task(lib,n,case)
    r=verify.verify(t,search_s=5)
    out="%-12s %-45s ob=%d/%d paths=%d/%d q=%d solver=%.1f native=%d wall=%.1f"%(r.status,r.name,r.stats.discharged,r.stats.obligations,r.paths_ok,r.stats.paths,r.stats.queries,r.stats.solver_s,r.native,r.wall)
    if r.status!='proved':
        out+="\n   reasons %s\n   failed %s\n   viol %s"%(r.reasons,r.failed[:3],{k:(vlib.text_of(v)[:600]) for k,v in (r.violation or {}).items()})
        if t.loopy: out+="\n   coupling %s"%(t.coupling,)
    return out
jobs=[]
for n,o in list(lib.contracts.items())+list(lib.harnesses.items()):
    if pat and not any(p in n or p in o.props for p in pat): continue
    if n in lib.missing: print("MISSING",n); continue
    cases=o.kw.get("cases")
    jobs+=[(n,c) for c in (range(len(cases)) if cases else [None])]
import os
J=int(os.environ.get("J","1"))
if J>1:
    import multiprocessing as mp
    with mp.get_context("fork").Pool(J,maxtasksperchild=4) as pool:
        for o in pool.imap(one,jobs): print(o,flush=True)
else:
    for j in jobs: print(one(j),flush=True)
