"""Loop rule: lockstep of a specification loop with a loop of the program.

A specification loop declares the variables it changes, its invariant and ghost values.
Concrete runs of both sides suggest, for every variable (field, buffer, iterator position)
the program loop changes, the specification value it always equals: the coupling
invariant.  It is then proved: it holds when both loops are reached, and one iteration of
both from an arbitrary state satisfying it ends in a state satisfying it again.  Nothing
is unrolled, so this covers every number of iterations.
"""
import ast
import types

import z3

from . import core, vlib
from . import models as M
from . import symlib
from .core import *
from .interp import BRK, CNT, ExcVal, FrameVal, Func, IterObj, Ret


class SpecStop(BaseException):
    """the specification has done one loop iteration"""


class RealStop(BaseException):
    """the program has done one loop iteration"""


class Trace:
    def __init__(self, spec):
        self.spec = spec
        self.runs = []  # [key, heads]
        self.open = []

    def hook(self, it, node, fr, itobj, again=False):
        if self.spec:
            ann = annotations(node)
            if ann is None:
                return NotImplemented
            if not again:
                self.runs.append(["spec", []])
                self.open.append((id(fr), node, len(self.runs) - 1))
            snap = {k: freeze(v) for k, v in eval_ghosts(it, ann, fr).items()}
        else:
            if not again:
                occ = sum(1 for r in self.runs if r[0][:3] == nodekey(node))
                self.runs.append([nodekey(node) + (occ,), []])
                self.open.append((id(fr), node, len(self.runs) - 1))
            snap = {p: freeze(v) for p, v in walk_frame(fr, itobj).items()}
        for f, n, k in reversed(self.open):
            if f == id(fr) and n is node:
                self.runs[k][1].append(snap)
                break
        return NotImplemented


def nodekey(node):
    return (getattr(node, "file", ""), node.lineno, node.col_offset)


# ------------------------------------------------------------------ annotations
class Ann:
    def __init__(self):
        self.vars, self.objs, self.invs, self.ghosts, self.dec = [], [], [], [], None


_ann_cache = {}


def annotations(node):
    if id(node) in _ann_cache:
        return _ann_cache[id(node)][1]
    a = None
    for s in node.body:
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)):
            break
        n = s.value.func.id
        if n == "loopvar":
            a = a or Ann()
            a.vars += [(k.arg, k.value) for k in s.value.keywords]
        elif n == "loopobj":
            a = a or Ann()
            a.objs += [(s.value.args[0], k.arg, k.value) for k in s.value.keywords]
        elif a is None:
            break
        elif n == "invariant":
            a.invs.append(s.value.args[0])
        elif n == "ghosts":
            a.ghosts += [(k.arg, k.value) for k in s.value.keywords]
        elif n == "decreases":
            a.dec = s.value.args[0]
        else:
            break
    _ann_cache[id(node)] = (node, a)
    return a


def eval_ghosts(it, ann, fr):
    g = {}
    for n, _ in ann.vars:
        if n in fr.locals:
            g[n] = clone(fr.locals[n])
    for o, f, _ in ann.objs:
        obj = it.eval(o, fr)
        g[ast.unparse(o) + "." + f] = clone(obj.fields[f])
    for n, e in ann.ghosts:
        g[n] = clone(it.eval(e, fr))
    return g


def clone(v):
    if isinstance(v, SList):
        return SList(v.token, v.plen, v.items, v.elem)
    if isinstance(v, MBytes):
        return v.seq
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    return v


# ------------------------------------------------------------------ state of a frame
def freeze(v, depth=0):
    if depth > 5:
        return "deep"
    if isinstance(v, (Seq, MBytes)):
        n = to_native(v.seq if isinstance(v, MBytes) else v)
        return bytes(n) if isinstance(n, (bytes, bytearray)) else n if not isinstance(n, Seq) else n.key()
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return tuple((repr(k), freeze(x, depth + 1)) for k, x in v.items())
    if isinstance(v, Inst):
        return ("inst", v.cls.__name__, tuple((k, freeze(x, depth + 1)) for k, x in sorted(v.fields.items())))
    if isinstance(v, ExcVal):
        return ("exc", v.cls.__name__)
    if isinstance(v, Func):
        return ("func", id(v.node))
    if isinstance(v, IterObj):
        return ("iter", v.kind, freeze(v.pos, depth + 1))
    if isinstance(v, App):
        return ("app", v.fn, freeze(v.args, depth + 1))
    if isinstance(v, FrameVal):
        return ("frame", v.g)
    if isinstance(v, SDT):
        return freeze(list(v.f.values()) + [v.zone])
    if v is None or isinstance(v, (int, float)):
        return v
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


def walk_frame(fr, itobj):
    out = {}
    seen = {}
    if itobj is not None:
        walk(itobj, ("$iter",), out, seen, 0)
    f = fr
    pre = 0
    while f is not None and pre < 4:
        for n, v in f.locals.items():
            if n.startswith("$"):
                continue
            walk(v, ("L%d" % pre, n), out, seen, 0)
        f = f.parent
        pre += 1
    return out


def walk(v, path, out, seen, depth):
    if depth > 6:
        return
    if isinstance(v, Inst):
        first = id(v) not in seen
        out[path + ("#id",)] = seen.setdefault(id(v), "/".join(map(str, path)))
        if not first:
            return
        for k, x in v.fields.items():
            walk(x, path + (k,), out, seen, depth + 1)
    elif isinstance(v, MBytes):
        out[path + ("@",)] = v
    elif isinstance(v, IterObj):
        if id(v) in seen:
            return
        seen[id(v)] = "it"
        out[path + ("pos",)] = v.pos if isinstance(v.pos, int) or not z3.is_expr(v.pos) else sint_of(v.pos, 0)
        if isinstance(v.src, (IterObj, Inst, MBytes)):
            walk(v.src, path + ("src",), out, seen, depth + 1)
        elif isinstance(v.src, (list, tuple)) and v.kind in ("zip", "chain", "map"):
            for j, x in enumerate(v.src):
                if isinstance(x, (IterObj, Inst, MBytes)):
                    walk(x, path + ("src", j), out, seen, depth + 1)
        if isinstance(v.extra, IterObj):
            walk(v.extra, path + ("extra",), out, seen, depth + 1)
    elif isinstance(v, dict) and len(v) <= 60 and all(isinstance(k, str) for k in v) and any(isinstance(x, (Inst, MBytes)) for x in v.values()):
        for k, x in v.items():
            walk(x, path + ("[%s]" % k,), out, seen, depth + 1)
    else:
        out[path] = v


def locate(fr, itobj, path):
    """container of the last step"""
    if path[0] == "$iter":
        o = itobj
        rest = path[1:]
    else:
        f = fr
        for _ in range(int(path[0][1:])):
            f = f.parent
        if len(path) == 2:
            return f, path[1]
        o = f.locals[path[1]]
        rest = path[2:]
    for s in rest[:-1]:
        o = step(o, s)
    return o, rest[-1]


def step(o, s):
    if isinstance(o, Inst):
        return o.fields[s]
    if isinstance(o, IterObj):
        return getattr(o, s)
    if isinstance(o, (list, tuple)):
        return o[s]
    if isinstance(o, dict):
        return o[s[1:-1]]
    raise ToolError("loop state path")


def assign(fr, itobj, path, v):
    o, last = locate(fr, itobj, path)
    if last == "@":
        if v is POISON:
            o.seq = None
            return
        o.seq = M.seqify(v)
        return
    if isinstance(o, Inst):
        o.fields[last] = v
    elif isinstance(o, IterObj):
        if v is POISON:
            raise ToolError("iterator position has no counterpart in the specification")
        setattr(o, last, idx(v) if last == "pos" else v)
    elif isinstance(o, dict):
        o[last[1:-1]] = v
    elif hasattr(o, "locals"):
        o.locals[last] = v
    else:
        raise ToolError("loop state assignment")


def idx(v):
    if isinstance(v, SInt):
        return simp(to_int_term(v))
    return v


# ------------------------------------------------------------------ coupling
def discover(spec_runs, real_runs):
    """spec_runs, real_runs: per sample the list of loop runs. -> list per spec loop"""
    n = max((len(r) for r in spec_runs), default=0)
    out = []
    for k in range(n):
        cands = None
        sp = []
        for s, r in zip(spec_runs, real_runs):
            if len(s) <= k:
                continue
            heads = s[k][1]
            keys = [x[0] for x in r if len(x[1]) == len(heads)]
            cands = [x for x in (cands if cands is not None else keys) if x in keys]
            sp.append((heads, {x[0]: x[1] for x in r}))
        if not cands:
            out.append(None)
            continue
        best = None
        for key in cands:
            m = couple([(h, rr[key]) for h, rr in sp])
            if best is None or m["score"] > best["score"]:
                m["key"] = key
                best = m
        out.append(best)
    return out


def couple(pairs):
    paths = {}
    modified = set()
    always = None
    for sh, rh in pairs:
        ks = set()
        for s in rh:
            ks |= set(s)
        for p in ks:
            vals = [s.get(p, "<absent>") for s in rh]
            if any(not eq(v, vals[0]) for v in vals[1:]):
                modified.add(p)
        for s in rh:
            always = set(s) if always is None else always & set(s)
    dead = set()  # rebound objects: everything below is unknown
    for p in modified:
        if p[-1] == "#id":
            dead.add(p[:-1])
    mapping, unknown = {}, set()
    for p in sorted(modified, key=str):
        if any(p[: len(d)] == d for d in dead):
            continue
        if always is None or p not in always:
            unknown.add(p)
            continue
        cand = []
        gs = None
        for sh, rh in pairs:
            for s in sh:
                gs = list(s) if gs is None else [g for g in gs if g in s]
        for g in gs or []:
            if all(eq(s[g], r[p]) for sh, rh in pairs for s, r in zip(sh, rh)):
                cand.append(g)
        if cand:
            nm = [g for g in cand if g.split(".")[-1] == [x for x in p if x != "@"][-1]]
            mapping[p] = (nm or cand)[0]
        else:
            unknown.add(p)
    return dict(mapping=mapping, unknown=unknown, dead=dead, modified=modified, score=len(mapping) - 0.1 * len(unknown) - 0.1 * len(dead))


def eq(a, b):
    try:
        if isinstance(a, (bytes, str)) != isinstance(b, (bytes, str)):
            return False
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        return bool(a == b)
    except Exception:
        return False


# ------------------------------------------------------------------ symbolic lockstep
class SpecLoops:
    def __init__(self):
        self.loops = []
        self.active = None
        self.stopped = False

    def hook(self, it, node, fr, itobj, again=False):
        ann = annotations(node)
        if ann is None:
            return NotImplemented
        C = core.C
        if again:
            rec = self.active
            if rec is None or rec["node"] is not node:
                raise ToolError("nested specification loops")
            if rec["mode"] == "final":
                raise PathEnd()
            for e in ann.invs:
                prove_cond(it, it.eval(e, fr), "loop invariant %s is preserved (specification)" % ast.unparse(e))
            if ann.dec is not None:
                prove_cond(it, M.compare(it, ast.Lt, it.eval(ann.dec, fr), rec["dec"]), "variant decreases (specification)")
            rec["g1"] = eval_ghosts(it, ann, fr)
            self.stopped = True
            raise SpecStop()
        rec = {"node": node, "fr": fr}
        rec["g0"] = eval_ghosts(it, ann, fr)
        for e in ann.invs:
            prove_cond(it, it.eval(e, fr), "loop invariant %s holds initially (specification)" % ast.unparse(e))
        k = len(self.loops)
        rec["mode"] = "step" if C.branch(z3.Bool("step%d" % k)) else "final"
        C.havocked = True
        for n, te in ann.vars:
            fr.locals[n] = symlib.havoc(it, it.eval(te, fr), "h%d:%s" % (k, n))
        for o, f, te in ann.objs:
            it.eval(o, fr).fields[f] = symlib.havoc(it, it.eval(te, fr), "h%d:%s.%s" % (k, ast.unparse(o), f))
        for e in ann.invs:
            c = it.eval(e, fr)
            if isinstance(c, SBool):
                C.assume(c.t)
            elif not M.truth(it, c):
                raise PathEnd()
        if ann.dec is not None:
            rec["dec"] = it.eval(ann.dec, fr)
            if rec["mode"] == "step":
                prove_cond(it, M.compare(it, ast.GtE, rec["dec"], 0), "variant is not negative (specification)")
        rec["gh"] = eval_ghosts(it, ann, fr)
        self.loops.append(rec)
        self.active = rec
        if rec["mode"] == "final":
            return NotImplemented  # runs on: test false, or an exit inside the body
        r = it.while_from(node, fr)
        raise PathEnd()  # step mode, but the loop was left


def prove_cond(it, c, what):
    C = core.C
    if isinstance(c, SBool):
        C.prove(c.t, what)
    else:
        C.prove(M.truth(it, c), what)


class RealLoops:
    def __init__(self, specloops, coupling):
        self.spec = specloops
        self.coupling = coupling
        self.k = 0
        self.counts = {}
        self.cur = None
        self.extra = 0

    def hook(self, it, node, fr, itobj, again=False):
        C = core.C
        if again:
            cur = self.cur
            if cur is None or cur["node"] is not node or cur["fr"] is not fr:
                return NotImplemented
            rec = cur["rec"]
            if rec["mode"] == "final":
                self.extra += 1
                if self.extra > 3:
                    raise ToolError("program loop does not stop with the specification loop")
                return NotImplemented
            now = walk_frame(fr, itobj)
            cp = cur["cp"]
            if globals_changed(it) or set(it.overlay) != cur["overlay"]:
                raise ToolError("the loop changes module state")
            for p, g in cp["mapping"].items():
                if p not in now:
                    raise ToolError("loop state vanished: %s" % (p,))
                v = now[p]
                symlib.prove_equal(it, v.seq if isinstance(v, MBytes) else v, rec["g1"][g], "loop coupling %s = %s preserved" % (show(p), g))
            for p, v in now.items():
                if p in cp["mapping"] or p in cp["unknown"] or p[:1] == ("L0",) and len(p) == 2 and p not in cur["keep"] or any(p[: len(d)] == d for d in cp["dead"]):
                    continue
                if p not in cur["keep"]:
                    if p[0].startswith("L") and (p[0], p[1]) not in cur["roots"]:
                        continue  # a temporary of the loop body
                    raise ToolError("loop changes %s in a way that no test run shows" % show(p))
                old, oldv = cur["keep"][p]
                if not unchanged(v, old, oldv):
                    raise ToolError("loop changes %s in a way that no test run shows" % show(p))
            raise RealStop()
        nk = nodekey(node)
        occ = self.counts.get(nk, 0)
        self.counts[nk] = occ + 1
        k = self.k
        if k >= len(self.spec.loops) or k >= len(self.coupling) or self.coupling[k] is None:
            return NotImplemented
        cp = self.coupling[k]
        if cp["key"] != nk + (occ,):
            return NotImplemented
        self.k += 1
        rec = self.spec.loops[k]
        now = walk_frame(fr, itobj)
        for p, g in cp["mapping"].items():
            if p not in now:
                raise ToolError("loop state missing: %s" % show(p))
            v = now[p]
            symlib.prove_equal(it, v.seq if isinstance(v, MBytes) else v, rec["g0"][g], "loop coupling %s = %s holds initially" % (show(p), g))
        for p, g in cp["mapping"].items():
            assign(fr, itobj, p, clone(rec["gh"][g]))
        for p in cp["unknown"]:
            if p in now:
                assign(fr, itobj, p, POISON)
        for d in cp["dead"]:
            if len(d) >= 2 and (d + ("#id",)) in now:
                assign(fr, itobj, d, POISON)
        keep = {}
        for p, v in now.items():
            if p in cp["mapping"] or p in cp["unknown"] or any(p[: len(d)] == d for d in cp["dead"]):
                continue
            keep[p] = (v, v.seq if isinstance(v, MBytes) else list(v) if isinstance(v, list) else None)
        self.cur = dict(node=node, fr=fr, rec=rec, cp=cp, keep=keep, overlay=set(it.overlay), roots={(p[0], p[1]) for p in now if p[0].startswith("L")})
        if isinstance(node, ast.While):
            r = it.while_from(node, fr)
        else:
            r = it.for_from(node, fr, itobj)
        if rec["mode"] == "step":
            C.inexact.append("loop lockstep")
            C.prove(False, "program loop ends where the specification loop goes on")
        return r

    def finish(self):
        """called when the program ended although the specification is inside a loop step"""
        C = core.C
        C.inexact.append("loop lockstep")


def unchanged(v, old, oldv):
    if isinstance(v, MBytes):
        return v is old and (v.seq is oldv or v.seq.key() == oldv.key()) or (isinstance(oldv, Seq) and v.seq.key() == oldv.key())
    if isinstance(v, list):
        return v is old and len(v) == len(oldv) and all(x is y for x, y in zip(v, oldv))
    if v is old:
        return True
    try:
        return M.vkey(v) == M.vkey(old)
    except Exception:
        return False


def show(p):
    return ".".join(str(x) for x in p if not (isinstance(x, str) and x.startswith("L") and x[1:].isdigit()))


def globals_changed(it):
    """module-level containers (or mutable defaults), globals or class attributes changed by the run"""
    if it.written:
        return True
    for nat, w in list(it.copies.values()):
        if isinstance(nat, (list, dict, set, bytearray)):
            n = M.to_py(w)
            if n is M.NOTNATIVE:
                if isinstance(nat, dict) and isinstance(w, dict) and list(w) == list(nat) and not any(isinstance(x, (SInt, Seq, SBool)) for x in w.values()):
                    continue
                if isinstance(nat, list) and isinstance(w, list) and len(w) == len(nat) and not any(isinstance(x, (SInt, Seq, SBool)) for x in w):
                    continue
                return True
            try:
                if not (n == nat):
                    return True
            except Exception:
                return True
    return False
