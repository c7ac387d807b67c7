#!/usr/bin/env python3
"""Runs the verifier for one property on /repo's current source.

  python3-vt -B check.py C03 [--thorough]      discharge the obligations of a property
  python3-vt -B check.py --replay FILE         run a recorded failing input on the real code
  python3-vt -B check.py --list                tasks and their properties
"""
import argparse
import base64
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import pkgutil
import re
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ELGAS_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO, "/opt/venv/lib/python3.12/site-packages"]
sys.setrecursionlimit(20000)

import structlog  # noqa: E402

structlog.configure(wrapper_class=structlog.make_filtering_bound_logger(50))

CHECKER = "python3-vt -B check.py"


BROKEN = {}  # property -> why its contracts cannot be loaded


def load():
    import contracts

    for m in sorted(m.name for m in pkgutil.iter_modules(contracts.__path__)):
        try:
            importlib.import_module("contracts." + m)
        except Exception as e:
            # a name the contracts speak about is gone, or the package cannot be imported
            text = open(os.path.join(HERE, "contracts", m + ".py")).read()
            for prop in set(re.findall(r"\bC\d\d\b", text)):
                BROKEN.setdefault(prop, (e, traceback.format_exc()))
    from dv import verify

    return verify.Library()


LIB = None


def child(job):
    name, case, without, cfg = job
    from dv import verify

    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    try:
        t = verify.Task(LIB, name, case, without)
        cross = None
        if cfg.get("cross"):
            from dv import cross as cr

            cross = cr.Cross(cfg["cross"])
        r = verify.verify(t, budget=cfg["budget"], native_s=cfg["native_s"], native_n=cfg["native_n"], seed=cfg["seed"], search_s=cfg["search_s"])
        if cross is not None:
            r.cross = cross.close()
    except MemoryError:
        r = verify.Result(name if case is None else "%s#%d" % (name, case))
        r.note("memory limit")
    except BaseException as e:
        r = verify.Result(name if case is None else "%s#%d" % (name, case))
        r.note("internal error: %s" % "".join(traceback.format_exception_only(type(e), e)).strip())
        r.note(traceback.format_exc()[-600:])
    if r.violation:
        from dv import vlib

        v = r.violation
        for k in ("args", "table"):
            try:
                p = base64.b64encode(pickle.dumps(v[k])).decode()
            except Exception:
                p = None
            v[k + "_repr"] = vlib.text_of(v[k])[:4000]
            v[k] = p
        v["case"] = case
        v["base"] = name
    r.without = sorted(without)
    r.base, r.case = name, case
    return r


def units(name):
    o = LIB.contracts.get(name) or LIB.harnesses[name]
    cases = o.kw.get("cases")
    return [(name, i) for i in range(len(cases))] if cases else [(name, None)]


class Run:
    def __init__(self, prop, cfg, jobs):
        self.prop, self.cfg = prop, cfg
        self.results = {}  # (name, case, without) -> Result
        self.pool = mp.get_context("fork").Pool(jobs, maxtasksperchild=1)
        self.deadline = time.time() + cfg["total"]

    def run(self, jobs):
        """jobs: set of (name, case, without)"""
        todo = [j for j in sorted(jobs, key=lambda j: (j[0], -1 if j[1] is None else j[1], sorted(j[2]))) if j not in self.results]
        hs = [(j, self.pool.apply_async(child, ((j[0], j[1], j[2], self.cfg),))) for j in todo]
        for j, h in hs:
            try:
                self.results[j] = h.get(timeout=max(1.0, self.deadline - time.time()))
            except mp.TimeoutError:
                from dv import verify

                r = verify.Result(j[0])
                r.note("overall time limit")
                r.base, r.case, r.without = j[0], j[1], sorted(j[2])
                self.results[j] = r
        return todo

    def close(self):
        self.pool.terminate()

    def closure(self, roots, without=frozenset()):
        """verifies the tasks and every contract they rely on"""
        seen = set()
        work = set(roots)
        while work:
            self.run({(n, c, without) for n, c in work})
            seen |= work
            nxt = set()
            for n, c in work:
                for u in self.results[(n, c, without)].used:
                    if u in without:
                        continue
                    for x in units(u):
                        if x not in seen:
                            nxt.add(x)
            work = nxt
        return seen


def main():
    global LIB
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        return replay(a.replay)
    try:
        LIB = load()
    except Exception as e:
        # the package cannot be imported, or a class the contracts speak about is gone
        print("cannot load the contracts against the current source:", "".join(traceback.format_exception_only(type(e), e)).strip())
        return load_failure(a.prop, e, t0, a.thorough)
    if a.prop in BROKEN:
        e, trace = BROKEN[a.prop]
        print("cannot load the contracts against the current source:", trace)
        return load_failure(a.prop, e, t0, a.thorough)
    if a.list:
        for n, o in list(LIB.contracts.items()) + list(LIB.harnesses.items()):
            print(n, " ".join(o.props), "MISSING" if n in LIB.missing else "")
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    cfg = dict(budget=150.0, native_s=1.5, native_n=400, search_s=25.0, seed=seed, total=660.0, cross=0)
    if thorough:
        cfg = dict(budget=600.0, native_s=40.0, native_n=20000, search_s=120.0, seed=seed, total=3400.0, cross=40)
    return decide(a.prop, cfg, thorough, t0, a.jobs)


def decide(prop, cfg, thorough, t0, jobs):
    own = [n for n, o in list(LIB.contracts.items()) + list(LIB.harnesses.items()) if prop in o.props]
    missing = [n for n in own if n in LIB.missing]
    own = [n for n in own if n not in LIB.missing]
    if not own:
        print("no obligations for", prop)
        return 2
    run = Run(prop, cfg, jobs)
    try:
        roots = [u for n in own for u in units(n)]
        ownset = set(roots)
        allset = run.closure(roots)
        final = {u: run.results[(u[0], u[1], frozenset())] for u in allset}
        # dependencies that are not themselves part of the property and failed:
        # verify what relies on them against their bodies instead
        for _ in range(4):
            bad = {u[0] for u, r in final.items() if u[0] in LIB.contracts and r.status != "proved"}
            redo = set()
            for u, r in final.items():
                if u in ownset and r.status == "violated":
                    continue
                b = bad & set(r.used) - set(r.without)
                if b:
                    redo.add((u, frozenset(b | set(r.without))))
            if not redo:
                break
            run.run({(u[0], u[1], w) for u, w in redo})
            for u, w in redo:
                final[u] = run.results[(u[0], u[1], w)]
                for d in final[u].used:
                    for x in units(d):
                        if x not in final and d not in w:
                            run.run({(x[0], x[1], frozenset())})
                            final[x] = run.results[(x[0], x[1], frozenset())]
        # drop dependencies nobody relies on any more
        need = set(ownset)
        work = list(ownset)
        while work:
            u = work.pop()
            for d in final[u].used:
                for x in units(d):
                    if x not in need and x in final:
                        need.add(x)
                        work.append(x)
        final = {u: r for u, r in final.items() if u in need}
    finally:
        run.close()
    return report(prop, final, ownset, missing, cfg, thorough, t0)


def report(prop, final, own, missing, cfg, thorough, t0):
    known = known_findings(prop)
    alarms, notes, findings = [], [], []
    for u, r in sorted(final.items(), key=lambda x: (x[0] not in own, x[0][0], x[0][1] or 0)):
        if r.status == "proved":
            continue
        mine = u in own
        if r.status == "violated" and mine:
            k = [f for f in known if f["task"] == r.name and f["what"] in r.violation["message"]]
            if k:
                findings.append(k[0])
            else:
                alarms.append((r, True))
        elif r.status == "refuted" and mine:
            alarms.append((r, False))
        else:
            notes.append(r)
    st = dict(obligations=0, discharged=0, trivial=0, queries=0, paths=0, native=0)
    solver = 0.0
    back = {}
    for r in final.values():
        for k in ("obligations", "discharged", "trivial", "queries", "paths"):
            st[k] += getattr(r.stats, k)
        st["native"] += r.native
        solver += r.stats.solver_s
        for k, v in r.stats.backends.items():
            back[k] = back.get(k, 0) + v
    full = all(r.status == "proved" for r in final.values()) and not missing
    from dv.trust import ASSUMPTIONS, TRUSTED

    inl = sorted({f for r in final.values() for f in r.inlined})
    under = sorted({r.base for u, r in final.items() if u[0] in LIB.contracts})
    cov = dict(
        obligations=st["obligations"],
        discharged=st["discharged"],
        checker_cmd="%s %s%s" % (CHECKER, prop, " --thorough" if thorough else ""),
        trusted_base=TRUSTED,
        back_end="z3 (python3-vt)",
        back_end_counts=back,
        solver_seconds=round(solver, 2),
        solver_queries=st["queries"],
        paths=st["paths"],
        functions_under_contract=under,
        functions_verified_by_body=inl,
        proof_tasks=[dict(task=r.name, status=r.status, obligations=r.stats.obligations, discharged=r.stats.discharged, paths=r.stats.paths, seconds=round(r.wall, 2), relies_on=sorted(r.used), verified_with_bodies_of=r.without) for u, r in sorted(final.items(), key=lambda x: x[1].name)],
        native_runs=st["native"],
        all_obligations_discharged=full,
    )
    cross = [r.cross for r in final.values() if getattr(r, "cross", None)]
    if cross:
        tot = {}
        for c in cross:
            for k, v in c.items():
                tot[k] = tot.get(k, 0) + v
        cov["second_solver"] = tot
    if notes or missing:
        cov["not_proved_bounded_only"] = [dict(task=r.name, status=r.status, reasons=r.reasons, failed=r.failed[:3], bounded=r.bounded) for r in notes]
        cov["missing_functions"] = missing
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=cfg["seed"], level="proof" if full else "other", coverage=cov, assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(alarms))
    if not full:
        cov["explanation"] = "Some obligations were not discharged on this tree; for those tasks only the bounded search named in not_proved_bounded_only was made."
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged in %d tasks, %.1f s solver, %.1f s" % (prop, st["discharged"], st["obligations"], len(final), solver, time.time() - t0))
    for r in notes:
        print("  not proved (bounded only): %s [%s] %s" % (r.name, r.status, "; ".join([str(x)[:300] for x in r.reasons[:2]] + [f["obligation"] for f in r.failed[:2]])))
    for m in missing:
        print("  function under contract is gone:", m)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not alarms:
        return 0
    alarms.sort(key=lambda x: not x[1])
    for r, real in alarms[:3]:
        print("VIOLATION property=%s replay=%s%s" % (prop, write_replay(prop, r, real), "" if real else " no-failing-input-found"))
        if real:
            print("   failed obligation: %s: %s" % (r.name, str(r.violation["obligation"])[:300]))
            print("   %s: %s" % (r.violation["how"], r.violation["message"][:600]))
            print("   input: %s" % r.violation["args_repr"][:600])
        else:
            print("   failed obligation: %s: %s" % (r.name, r.failed[0]["obligation"] if r.failed else r.reasons))
    return 1


def write_replay(prop, r, real):
    d = os.path.join(HERE, "out")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((r.name + prop).encode()).hexdigest()[:8]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    data = dict(property=prop, task=r.name, base=r.base, case=r.case, failed_obligations=r.failed, notes=r.reasons)
    if real:
        data["violation"] = r.violation
        data["how_to_replay"] = "cd /verif && %s --replay %s" % (CHECKER, p)
    else:
        data["verifier_output"] = dict(status=r.status, failed=r.failed, reasons=r.reasons, bounded=r.bounded, obligations=r.stats.obligations, discharged=r.stats.discharged)
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def replay(path):
    global LIB
    d = json.load(open(path))
    LIB = load()
    from dv import verify

    v = d.get("violation")
    if not v or not v.get("args"):
        print(json.dumps(d, indent=1))
        print("no failing input recorded")
        return 0
    t = verify.Task(LIB, d["base"], d["case"])
    args = pickle.loads(base64.b64decode(v["args"]))
    table = pickle.loads(base64.b64decode(v["table"])) if v.get("table") else {}
    msg = t.native(args, table, v.get("seed", 0))
    print("%s: %s" % (d["task"], msg or "passes"))
    print("input:", v["args_repr"])
    return 1 if msg else 0


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            # finding: property=C01 task=<name> | <part of the message>
            if l.startswith("finding: property=%s " % prop):
                t, w = l.split("task=", 1)[1].split("|", 1)
                out.append(dict(task=t.strip(), what=w.strip()))
    return out


def load_failure(prop, e, t0, thorough):
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    p = os.path.join(HERE, "out", "%s-load.json" % prop)
    with open(p, "w") as f:
        json.dump(dict(property=prop, verifier_output=traceback.format_exc()), f, indent=1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(dict(property=prop, tier="thorough" if thorough else "quick", seed=1, level="other", coverage=dict(explanation="the contracts could not be loaded: %s" % e), wall_s=round(time.time() - t0, 2), violations=1), f)
    print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    return 1


if __name__ == "__main__":
    sys.exit(main())
