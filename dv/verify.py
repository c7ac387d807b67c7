"""Discharging contracts and harnesses, and turning refutations into failing inputs."""
import base64
import copy
import importlib
import inspect
import os
import pickle
import random
import signal
import sys
import time
import traceback
import types

import z3

from . import core, loops, vlib
from . import models as M
from . import symlib
from .core import *
from .interp import ExcVal, Func, Interp, PyRaise

symlib.install()

# nothing may depend on where the computer is: native runs use a time zone that shows it
os.environ["TZ"] = "AAA-5:45BBB-6:45,M3.5.0,M10.5.0/3"
time.tzset()


# ------------------------------------------------------------------ targets
class Missing(Exception):
    pass


def resolve(path):
    """dotted name -> (callable object, owner class or None, attribute name)"""
    parts = path.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        owner = None
        for p in parts[i:]:
            owner = o
            try:
                o = inspect.getattr_static(o, p) if isinstance(o, type) else getattr(o, p)
            except AttributeError:
                raise Missing(path)
        return o, owner if isinstance(owner, type) else None, parts[-1]
    raise Missing(path)


def raw_function(o):
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    return o if isinstance(o, types.FunctionType) else None


class CallSite:
    """contract application at calls"""

    def __init__(self, contract, fn):
        self.c = contract
        self.fn = fn
        self.name = contract.name
        self.next = None

    def apply(self, it, args, kwargs):
        c = self.c
        spec = it.lift(c.summary_fn or c.spec)
        try:
            real = it.bind_args(it.lift(self.fn), args, kwargs)
        except PyRaise:
            real = None
        names = [a.arg for a in spec.node.args.args]
        if real is not None and set(names) == set(real):
            vals = [real[n] for n in names]
        elif real is not None and len(names) == len(real):
            vals = list(real.values())
        else:
            return self.fallback(it, args, kwargs)
        for n, v in zip(names, vals):
            T = c.params.get(n)
            if isinstance(T, vlib.T) and not symlib.accepts(it, T, v):
                return self.fallback(it, args, kwargs)
        it.used_contracts.add(c.name)
        try:
            return it.call_func(spec, vals, {})
        except PyRaise as e:
            if e.exc.cls is vlib.Reject:
                raise ToolError("contract of %s does not say which exception" % c.name)
            if e.exc.cls is vlib.Unspecified:
                raise ToolError("contract of %s does not cover the call" % c.name)
            raise

    def fallback(self, it, args, kwargs):
        if self.next is not None:
            return self.next.apply(it, args, kwargs)
        it.inlined.add("%s.%s" % (self.fn.__module__, self.fn.__qualname__))
        return it.call_func(it.lift(self.fn), args, kwargs)


def has_loopvar(fn):
    import ast

    from .interp import SRC

    node = SRC.node(fn)
    return any(isinstance(n, ast.While) and loops.annotations(n) is not None for n in ast.walk(node))


class Library:
    """all contracts and harnesses"""

    def __init__(self):
        symlib.install_opaque()
        self.contracts = {c.name: c for c in vlib.CONTRACTS}
        self.harnesses = {h.name: h for h in vlib.HARNESSES}
        self.sites = {}
        self.missing = set()
        for c in vlib.CONTRACTS:
            if isinstance(c.target, str):
                try:
                    o, owner, attr = resolve(c.target)
                except Missing:
                    self.missing.add(c.name)
                    continue
                f = raw_function(o)
                c.fn, c.owner, c.attr = f, owner, attr
                c.is_prop = isinstance(o, property)
                if f is None or not c.kw["use"]:
                    continue
                if has_loopvar(c.spec) and c.summary_fn is None:
                    continue
                s = CallSite(c, f)
                s.next = self.sites.get(f)
                self.sites[f] = s
            else:
                c.fn, c.owner, c.attr, c.is_prop = None, None, None, False
                if c.kw["use"] and (not has_loopvar(c.spec) or c.summary_fn):
                    self.sites[c.target] = CallSite(c, c.target)

    def site_map(self, without=()):
        out = {}
        for f, s in self.sites.items():
            chain = []
            while s is not None:
                if s.name not in without:
                    chain.append(s)
                s = s.next
            if chain:
                prev = None
                for x in reversed(chain):
                    y = CallSite(x.c, x.fn)
                    y.next = prev
                    prev = y
                out[f] = prev
        return out


# ------------------------------------------------------------------ results
class Result:
    def __init__(self, name):
        self.name = name
        self.status = "unknown"  # proved | violated | refuted | unknown
        self.stats = Stats()
        self.reasons = []
        self.failed = []  # obligations refuted but not replayed
        self.violation = None
        self.used = set()
        self.inlined = set()
        self.paths_ok = 0
        self.native = 0
        self.wall = 0.0
        self.proved_labels = set()
        self.assumptions = set()
        self.bounded = None
        self.model_ints = set()

    def note(self, r):
        if r not in self.reasons and len(self.reasons) < 12:
            self.reasons.append(r)


class NativeFail(Exception):
    pass


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        # processor time; waiting for something counts, too, but other load on the machine does not
        signal.signal(signal.SIGPROF, _alarm)
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_PROF, self.s)
        signal.setitimer(signal.ITIMER_REAL, self.s * 4)
        # the stack the program finds is as deep as usual
        depth, f = 0, sys._getframe()
        while f is not None:
            depth, f = depth + 1, f.f_back
        self.stack = sys.getrecursionlimit()
        sys.setrecursionlimit(depth + 1000)

    def __exit__(self, *a):
        sys.setrecursionlimit(self.stack)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


# ------------------------------------------------------------------ task
class Task:
    """one contract or harness (or one case of it)"""

    def __init__(self, lib, name, case=None, without=()):
        self.lib = lib
        self.case = case
        o = lib.contracts.get(name) or lib.harnesses[name]
        self.without = frozenset(without) | set(o.kw.get("inline") or ())
        self.base = name
        self.name = name if case is None else "%s#%d" % (name, case)
        self.is_contract = name in lib.contracts
        self.obj = lib.contracts.get(name) or lib.harnesses[name]
        self.params = dict(self.obj.params)
        if case is not None:
            first = next(iter(inspect.signature(self.obj.fn).parameters))
            self.params = {first: vlib.Const(self.obj.kw["cases"][case]), **{k: v for k, v in self.params.items() if k != first}}
        self.coupling = None
        self.loopy = self.is_contract and has_loopvar(self.obj.spec)

    # ------------------------------------------------ native execution
    def order(self):
        fn = self.obj.spec if self.is_contract else self.obj.fn
        return list(inspect.signature(fn).parameters)

    def sample(self, rng):
        d = {}
        g = self.obj.kw.get("gen")
        given = {}
        if g and type(rng) is vlib.Guided:
            given = vlib.within(vlib.All(self.params), g, rng)
        elif g:
            given = g(rng)
        for n in self.order():
            d[n] = given[n] if n in given else self.params[n].sample(rng)
        return d

    def real_native(self, args):
        c = self.obj
        if c.fn is None and callable(c.target):
            return c.target(*args.values())
        names = list(args)
        if c.owner is not None and names and names[0] in ("self", "cls"):
            o = args[names[0]]
            if c.is_prop:
                return getattr(o, c.attr)
            return getattr(o, c.attr)(*[args[n] for n in names[1:]])
        if c.owner is not None:
            return getattr(c.owner, c.attr)(*args.values())
        return c.fn(*args.values())

    def native(self, args, table=None, seed=0, timeout=6.0, hints=None):
        """Runs the task natively; returns None or a message describing the failure."""
        self.phase = "real"
        self.more = random.Random(seed + 1)
        oracle = vlib.Oracle(table, vlib.Guided(seed, *hints) if hints else random.Random(seed))
        self.table = oracle.table
        vlib.set_oracle(oracle)
        try:
            with limit(timeout):
                if not self.is_contract:
                    try:
                        self.obj.fn(*args.values())
                    except vlib.Skip:
                        return None
                    except vlib.CheckFailed as e:
                        return str(e)
                    except Hang:
                        raise
                    except Exception as e:
                        return "unexpected %s: %s at %s" % (type(e).__name__, str(e)[:200], _where(e))
                    return None
                return self._native_contract(args, oracle, seed)
        except Hang:
            oracle.undo()
            if self.phase == "spec":
                return None
            if self.is_contract and not self.spec_answers(args, oracle, seed, timeout):
                return None
            return "no answer within %gs (endless loop)" % timeout
        finally:
            oracle.undo()
            vlib.set_oracle(vlib.Oracle())

    def spec_answers(self, args, oracle, seed, timeout):
        """the specification ends for arguments for which the program does not"""
        c = self.obj
        a = copy.deepcopy(args)
        random.seed(seed)
        try:
            with limit(timeout):
                if c.kw["setup"]:
                    c.kw["setup"](*a.values())
                c.native_spec(*a.values())
        except (Hang, vlib.Skip, vlib.Unspecified):
            return False
        except BaseException:
            return True
        finally:
            oracle.undo()
        return True

    def _native_contract(self, args, oracle, seed):
        c = self.obj
        a_real, a_spec = copy.deepcopy(args), copy.deepcopy(args)
        msg = self._compared(args, a_real, a_spec, oracle, seed)
        kept = [n for n, v in a_real.items() if isinstance(self.params.get(n), vlib.Obj) and vlib.remembers(v)]
        if msg or not kept or self.more is None or not self.returned:
            return msg
        # attributes no contract speaks of: what they hold may show in later calls
        for i in range(8):
            try:
                args = self.sample(self.more)
            except (ValueError, IndexError, OverflowError, TypeError):
                return None
            b_real, b_spec = copy.deepcopy(args), copy.deepcopy(args)
            for n in kept:
                if c.kw["mutable"]:
                    self.assign(self.params[n], args[n], a_real[n], a_spec[n])
                b_real[n], b_spec[n] = a_real[n], a_spec[n]
                args[n] = copy.deepcopy(a_real[n])
            msg = self._compared(args, b_real, b_spec, oracle, seed + i)
            if not msg and not self.returned:
                return None
            if msg:
                return "%s (in call %d of the same object, with %s)" % (msg, i + 2, vlib._short({n: v for n, v in args.items() if n not in kept}))
        return None

    def assign(self, T, given, *objects):
        """gives some attributes of objects new values"""
        for k in T.fields:
            if self.more.random() < 0.5 and hasattr(given, k):
                for o in objects:
                    try:
                        setattr(o, k, copy.deepcopy(getattr(given, k)))
                    except (AttributeError, TypeError):
                        pass

    more = None

    def _compared(self, args, a_real, a_spec, oracle, seed):
        c = self.obj
        self.returned = False
        if c.kw["setup"]:
            try:
                c.kw["setup"](*a_real.values())
            except vlib.Skip:
                return None
        random.seed(seed)
        self.phase = "real"
        try:
            real = ("ok", self.real_native(a_real))
        except vlib.CheckFailed as e:
            return str(e)
        except vlib.Skip:
            return None
        except Exception as e:
            real = ("raise", e)
        finally:
            oracle.undo()
        oracle.witness = None
        if c.witness_fn and real[0] == "ok":
            try:
                oracle.witness = c.witness_fn(real[1], *copy.deepcopy(args).values())
            except Exception as e:
                return "result has the wrong shape: %s (%r)" % (vlib._short(real[1]), e)
        try:
            if c.kw["setup"]:
                c.kw["setup"](*a_spec.values())
            self.phase = "spec"
            spec = ("ok", c.native_spec(*a_spec.values()))
        except vlib.Skip:
            return None
        except (vlib.Unspecified, RecursionError):
            return None
        except vlib.CheckFailed as e:
            return str(e)
        except Hang:
            raise
        except Exception as e:
            spec = ("raise", e)
        oracle.undo()
        self.returned = real[0] == "ok"
        return compare_native(spec, real, a_spec, a_real, c.kw["frame"])

    # ------------------------------------------------ symbolic execution
    def make_args(self, it):
        d = {}
        for n in self.order():
            T = self.params.get(n)
            if T is None:
                raise ToolError("parameter %s has no type" % n)
            d[n] = symlib.sym(it, T, n)
        core.C.params.append(d)
        return d

    def run_symbolic(self, ctx, res, inline_all=False):
        sites = {} if inline_all else self.lib.site_map(self.without)
        if not self.is_contract:
            it = Interp(sites)
            self.its = [it]
            args = self.make_args(it)
            ctx.params[-1] = {k: M.deep(v, {}) for k, v in args.items()}
            try:
                it.call_func(it.lift(self.obj.fn), list(args.values()), {})
            except PyRaise as e:
                ctx.prove(False, "no unexpected exception (%s at %s)" % (e.exc.cls.__name__, e.where))
            if loops.globals_changed(it):
                raise ToolError("the calls change module state")
            return
        c = self.obj
        base = Interp(sites)
        args = self.make_args(base)
        ctx.params[-1] = {k: M.deep(v, {}) for k, v in args.items()}
        memo_s, memo_r = {}, {}
        a_spec = {k: M.deep(v, memo_s) for k, v in args.items()}
        a_real = {k: M.deep(v, memo_r) for k, v in args.items()}
        its, itr = Interp({}), Interp(sites)
        self.its = [itr]
        itr.inline = {c.fn if c.fn is not None else c.target}
        sl = loops.SpecLoops() if self.loopy else None
        rl = None
        if self.loopy and not inline_all:
            its.loop_hook = sl.hook
            rl = loops.RealLoops(sl, self.coupling or [])
            itr.loop_hook = rl.hook
        if c.witness_fn:
            real = self.run_real(itr, a_real)
            if real is None:
                return
            wit = None
            if real[0] == "ok":
                try:
                    w = its.call_func(its.lift(c.witness_fn), [real[1]] + [M.deep(v, {}) for v in args.values()], {})
                    its.overlay["$witness"] = w
                except PyRaise as e:
                    ctx.prove(False, "result has the required shape (%s)" % e.exc.cls.__name__)
            spec = self.run_spec(its, a_spec)
            if spec is None:
                return
        else:
            spec = self.run_spec(its, a_spec)
            if spec is None:
                return
            real = self.run_real(itr, a_real)
            if real is None:
                return
        if spec[0] == "step":
            rl.finish()
            ctx.prove(False, "program ends although the specification loop goes on")
        compare_symbolic(itr, spec, real, a_spec, a_real, c.kw["frame"])
        if c.summary_fn and not c.is_logic and spec[0] != "step":
            memo = {}
            a_sum = {k: M.deep(v, memo) for k, v in args.items()}
            summ = self.run_spec(its, a_sum, c.summary_fn)
            if summ is not None:
                f = c.kw["frame"]
                compare_symbolic(its, spec, summ, a_spec, a_sum, list(f) if isinstance(f, tuple) else f and "always", "summary")
        if not inline_all and loops.globals_changed(itr):
            raise ToolError("the call changes module state")

    def run_spec(self, it, args, fn=None):
        c = self.obj
        try:
            if c.kw["setup"]:
                it.call_func(it.lift(c.kw["setup"]), list(args.values()), {})
            return ("ok", it.call_func(it.lift(fn or c.spec), list(args.values()), {}))
        except PyRaise as e:
            if e.exc.cls is vlib.Unspecified or e.exc.cls is vlib.Skip:
                return None
            return ("raise", e.exc)
        except loops.SpecStop:
            return ("step", None)

    def run_real(self, it, args):
        c = self.obj
        try:
            if c.kw["setup"]:
                it.call_func(it.lift(c.kw["setup"]), list(args.values()), {})
            names = list(args)
            if c.fn is None:
                return ("ok", it.call(c.target, list(args.values()), {}))
            if c.owner is not None and names and names[0] in ("self", "cls"):
                f = it.getattr(args[names[0]], c.attr)
                if c.is_prop:
                    return ("ok", f)
                return ("ok", it.call(f, [args[n] for n in names[1:]], {}))
            if c.owner is not None:
                return ("ok", it.call(it.getattr(c.owner, c.attr), list(args.values()), {}))
            return ("ok", it.call(c.fn, list(args.values()), {}))
        except PyRaise as e:
            return ("raise", e.exc, e.where)
        except loops.RealStop:
            return None

    # ------------------------------------------------ loop coupling
    def find_coupling(self, res, seed):
        c = self.obj
        rng = random.Random(seed * 7919 + 17)
        spec_runs, real_runs = [], []
        tries = hangs = 0
        t0 = time.time()
        while len(spec_runs) < 14 and tries < 120 and time.time() - t0 < 20:
            tries += 1
            args = self.sample(rng)
            if _size(args) > 60:
                continue
            oracle = vlib.Oracle(None, random.Random(tries))
            vlib.set_oracle(oracle)
            ctx = Ctx((), None)
            core.set_ctx(ctx)
            ts, tr = loops.Trace(True), loops.Trace(False)
            try:
                for side, tracer in (("spec", ts), ("real", tr)):
                    it = Interp({})
                    it.concrete = True
                    it.fuel = 200000
                    it.loop_hook = tracer.hook
                    vals = [_lift_arg(it, v) for v in copy.deepcopy(args).values()]
                    a = dict(zip(args, vals))
                    with limit(8.0):
                        r = self.run_spec(it, a) if side == "spec" else self.run_real(it, a)
            except Hang:
                res.note("coupling: no answer for a sample")
                hangs += 1
                if hangs > 1:
                    break
                continue
            except (PathEnd, ToolError, core.Failed, vlib.Skip) as e:
                if isinstance(e, (ToolError, core.Failed)):
                    res.note("coupling: %s" % e)
                continue
            finally:
                vlib.set_oracle(vlib.Oracle())
            if not ts.runs:
                continue
            if max(len(r[1]) for r in ts.runs) < 2 and rng.random() < 0.7:
                continue
            spec_runs.append(ts.runs)
            real_runs.append(tr.runs)
        self.coupling = loops.discover(spec_runs, real_runs)
        return self.coupling


def _lift_arg(it, v):
    it.copies = {}
    return _lift(it, v, {})


def _lift(it, v, memo):
    if id(v) in memo:
        return memo[id(v)]
    t = type(v)
    if t is bytearray:
        r = MBytes(from_native(bytes(v)))
    elif t is list:
        r = []
        memo[id(v)] = r
        r.extend(_lift(it, x, memo) for x in v)
        return r
    elif t is dict:
        r = {k: _lift(it, x, memo) for k, x in v.items()}
    elif t is tuple:
        r = tuple(_lift(it, x, memo) for x in v)
    elif isinstance(v, (str, bytes)) and t not in (str, bytes):
        r = from_native(v)
        r = Seq(r.kind, r.segs, t)
    else:
        r = it.wrap(v)
    memo[id(v)] = r
    return r


def _size(args):
    try:
        return len(pickle.dumps(args)) // 8
    except Exception:
        return len(vlib.text_of(args)) // 8


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "%s:%d" % (tb[-1].filename, tb[-1].lineno) if tb else "?"


# ------------------------------------------------------------------ comparing outcomes
def compare_native(spec, real, a_spec, a_real, frame):
    if spec[0] == "raise":
        if real[0] != "raise":
            return "must raise %s, but returned %s" % (_exc_name(spec[1]), vlib._short(real[1]))
        if not isinstance(spec[1], vlib.Reject) and not isinstance(real[1], type(spec[1])):
            return "must raise %s, but raised %s" % (_exc_name(spec[1]), vlib._short(real[1]))
        if frame == "always" or isinstance(frame, list):
            return _frame_native(a_spec, a_real, frame)
        return None
    if real[0] == "raise":
        return "raised %s at %s instead of returning %s" % (vlib._short(real[1]), _where(real[1]), vlib._short(spec[1]))
    if not vlib.alike(spec[1], real[1]):
        return "returned %s instead of %s" % (vlib._short(real[1]), vlib._short(spec[1]))
    if frame:
        return _frame_native(a_spec, a_real, frame)
    return None


def _exc_name(e):
    return "an exception" if isinstance(e, vlib.Reject) else type(e).__name__


def at_path(args, path):
    """value of an argument or (a.b.c) of an attribute of it"""
    n, *rest = path.split(".")
    v = args[n]
    for k in rest:
        v = v.fields[k] if isinstance(v, Inst) else getattr(v, k)
    return v


def framed(args, frame):
    """the parts of the arguments that the contract describes afterwards"""
    if isinstance(frame, (tuple, list)):
        return {p: at_path(args, p) for p in frame}
    return args


def _frame_native(a, b, frame=True):
    a, b = framed(a, frame), framed(b, frame)
    for n in a:
        if not vlib.alike(a[n], b[n]):
            return "argument %s is left as %s instead of %s" % (n, vlib._short(b[n]), vlib._short(a[n]))
    return None


def compare_symbolic(it, spec, real, a_spec, a_real, frame, label="result"):
    C = core.C
    if spec[0] == "raise":
        want = spec[1].cls
        if real[0] != "raise":
            C.prove(False, "%s: must raise %s" % (label, want.__name__))
        elif want is vlib.Reject:
            C.prove(True, "raises")
        else:
            C.prove(issubclass(real[1].cls, want), "%s: must raise %s (raises %s)" % (label, want.__name__, real[1].cls.__name__))
        if frame == "always" or isinstance(frame, list):
            a_spec, a_real = framed(a_spec, frame), framed(a_real, frame)
            for n in a_spec:
                symlib.prove_equal(it, a_real[n], a_spec[n], "state of %s after the exception" % n)
        return
    if real[0] == "raise":
        C.prove(False, "%s: must return (raises %s at %s)" % (label, real[1].cls.__name__, real[2] if len(real) > 2 else ""))
        return
    symlib.prove_equal(it, real[1], spec[1], label)
    if frame:
        a_spec, a_real = framed(a_spec, frame), framed(a_real, frame)
        for n in a_spec:
            symlib.prove_equal(it, a_real[n], a_spec[n], "state of argument %s" % n)


# ------------------------------------------------------------------ exploration
def explore(task, res, deadline, max_paths=20000, limits=None, inline_all=False, stop_at=6, refute_only=False):
    """Discharges all obligations on all paths.  True if everything was discharged."""
    work = [()]
    clean = True
    unconfirmed = 0
    while work:
        if time.time() > deadline:
            res.note("time limit")
            return False
        if res.stats.paths >= max_paths:
            res.note("path limit")
            return False
        prefix = work.pop()
        ctx = Ctx(prefix, res.stats, deadline)
        if limits:
            ctx.limits = list(limits)
        ctx.fold_defs = bool(task.obj.kw.get("fold_defs"))
        core.set_ctx(ctx)
        res.stats.paths += 1
        tool = None
        task.its = []
        try:
            task.run_symbolic(ctx, res, inline_all)
            res.paths_ok += 1
        except PathEnd:
            pass
        except Failed as f:
            clean = False
            note_model(res, ctx)
            ok = confirm(task, res, ctx, str(f), limits)
            if ok:
                return False
            res.failed.append(dict(obligation=str(f), inexact=sorted(set(ctx.inexact))[:6], havoc=ctx.havocked))
            unconfirmed += 1
            if unconfirmed >= stop_at:
                res.note("stopped after %d refuted obligations" % unconfirmed)
                return False
        except ToolError as e:
            clean = False
            res.note(str(e))
            unconfirmed += 0.34
            if unconfirmed >= stop_at:
                return False
        except RecursionError:
            clean = False
            res.note("recursion limit")
        except z3.Z3Exception as e:
            clean = False
            res.note("solver: %s" % e)
        except MemoryError:
            raise
        except Exception as e:
            clean = False
            res.note("internal error: %s at %s" % (repr(e)[:200], _where(e)))
            unconfirmed += 0.34
            if unconfirmed >= stop_at:
                return False
        for it in task.its:
            res.used |= it.used_contracts
            res.inlined |= it.inlined
        for i in range(len(prefix), len(ctx.log)):
            v, alt = ctx.log[i]
            if alt:
                work.append(tuple(x for x, _ in ctx.log[:i]) + (not v,))
    return clean


def note_model(res, ctx):
    m = ctx.last_model
    if m is None:
        return
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v) and 3 < v.as_long() <= 70000 and len(res.model_ints) < 40:
                res.model_ints.add(v.as_long())


def confirm(task, res, ctx, what, limits=None):
    """Replays the solver's model on the real code."""
    models = [ctx.last_model] if ctx.last_model is not None else []
    # a small model replays best: bound unknown lengths
    for m in list(models):
        small = small_model(ctx)
        if small is not None:
            models.insert(0, small)
    for m in models:
        try:
            args = {k: symlib.conc(m, v) for k, v in ctx.params[-1].items()}
            table = {}
            for name, idx, v in ctx.nondets:
                try:
                    key = (name,) + tuple(symlib.conc(m, i) for i in idx)
                    table.setdefault(key, symlib.conc(m, v))
                except (symlib.Uninhabited, TypeError):
                    pass
            msg = None
            for seed in range(3):
                msg = task.native(args, table, seed)
                if msg:
                    break
        except (symlib.Uninhabited, AttributeError, z3.Z3Exception, MemoryError) as e:
            continue
        if msg:
            res.status = "violated"
            res.violation = dict(task=task.name, obligation=what, message=msg, args=args, table=table, seed=seed, how="solver model replayed on the real code")
            return True
    return False


def small_model(ctx):
    lens = {}

    def visit(v, d=0):
        if d > 6:
            return
        if isinstance(v, (Seq, MBytes)):
            s = v.seq if isinstance(v, MBytes) else v
            n = s.length()
            if not isinstance(n, int):
                lens[n.get_id()] = n
        elif isinstance(v, Inst):
            for x in v.fields.values():
                visit(x, d + 1)
        elif isinstance(v, (list, tuple)):
            for x in v:
                visit(x, d + 1)
        elif isinstance(v, dict):
            for x in v.values():
                visit(x, d + 1)

    visit(ctx.params[-1] if ctx.params else {})
    for _, _, v in ctx.nondets:
        visit(v)
    if not lens:
        return None
    goal = ctx.goal_neg
    for b in (4, 16, 64, 300, 70000):
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*ctx.pc)
        if goal is not None:
            s.add(goal)
        s.add(*[n <= b for n in lens.values()])
        if s.check() == z3.sat:
            return s.model()
    return None


def native_search(task, res, seconds, count, seed, hints=None):
    """Random and boundary inputs against the real code (bounded)."""
    rng = random.Random(seed * 1000003 + 5)
    t0 = time.time()
    n = 0
    last = None
    failures = 0
    while n < count and time.time() - t0 < seconds:
        s = rng.randrange(1 << 30)
        if last is not None and n % 5 == 4:
            # the same again, or nearly so: what the program keeps between calls shows
            args = copy.deepcopy(last)
            if args and n % 3:
                k = rng.choice(list(args))
                try:
                    args[k] = task.params[k].sample(rng)
                except Exception:
                    failures += 1
            last = None
            keep = copy.deepcopy(args)
            msg = task.native(args, None, s)
            n += 1
            if msg:
                msg2 = task.native(copy.deepcopy(keep), None, s, timeout=30.0)
                if not msg2 and msg.startswith("no answer"):
                    continue
                res.status = "violated"
                res.violation = dict(task=task.name, obligation="native run", message=msg2 or (msg + " (depends on earlier calls)"), args=keep, table={}, seed=s, how="run on the real code")
                break
            continue
        g = hints if hints and n % 4 else None
        try:
            args = task.sample(vlib.Guided(s, *g) if g else rng)
        except Exception as e:
            # the changed program does not make such an input any more
            failures += 1
            if failures > 100:
                res.note("no input could be made: %s" % type(e).__name__)
                break
            continue
        keep = last = copy.deepcopy(args)
        msg = task.native(args, None, s, hints=g)
        n += 1
        if msg:
            table = dict(task.table) if g else {}
            msg2 = task.native(copy.deepcopy(keep), table, s, timeout=30.0)
            if not msg2 and (g or msg.startswith("no answer")):
                continue
            res.status = "violated"
            res.violation = dict(task=task.name, obligation="native run", message=msg2 or (msg + " (depends on earlier calls)"), args=keep, table=table, seed=s, how="run on the real code")
            break
    res.native += n
    return res.status == "violated"


def hints_of(task, res):
    """Numbers and texts of the functions a task depends on, and of the models of its failed
    obligations: what a failing input is likely made of."""
    import ast

    from .interp import SRC

    fns = set()
    if task.is_contract and getattr(task.obj, "fn", None):
        fns.add(task.obj.fn)
    for n in list(res.inlined) + [c.target for c in (task.lib.contracts.get(u) for u in res.used) if c and isinstance(c.target, str)]:
        try:
            f = raw_function(resolve(n)[0])
        except Missing:
            continue
        if f is not None:
            fns.add(f)
    ints, texts = [], []
    for f in fns:
        if not f.__module__.startswith("elgas"):
            continue
        try:
            node = SRC.node(f)
        except Exception:
            continue
        for x in ast.walk(node):
            v = x.value if isinstance(x, ast.Constant) else None
            if isinstance(x, ast.Name):
                v = f.__globals__.get(x.id)
            if type(v) is int:
                ints.append(v)
            elif type(v) is bytes and v:
                texts.append(v)
            elif type(v) is str and isinstance(x, ast.Constant) and 0 < len(v) < 10 and v.isascii():
                texts.append(v.encode())
    ints += list(res.model_ints)
    ints = sorted({x for x in ints if 3 < x <= 70000} | {x + 1 for x in ints if x in (255, 1023, 2047, 4095, 8191)})
    return (ints, sorted(set(texts))) if ints or texts else None


def verify(task, budget=120.0, native_s=1.5, native_n=400, seed=1, search_s=25.0, thorough=False):
    t0 = time.time()
    res = Result(task.name)
    try:
        random.seed(seed)
        # a short native run keeps the models of the built-ins honest; the obligations decide
        pre = None
        if native_search(task, res, native_s, native_n, seed):
            pre, res.status, res.violation = res.violation, "unknown", None
        if task.loopy:
            task.find_coupling(res, seed)
        clean = explore(task, res, time.time() + 20.0 if pre else t0 + budget, stop_at=1 if pre else 6)
        if res.status == "violated":
            return res
        if pre:
            res.status, res.violation = "violated", pre
            if res.failed:
                pre["obligation"] = res.failed[0]["obligation"]
            elif clean:
                pre["obligation"] = "discharged from the contracts of %s, which do not all hold" % ", ".join(sorted(res.used)) if res.used else "discharged, but the real code fails: a model of the verifier is wrong"
            else:
                pre["obligation"] = "not discharged: %s" % "; ".join(map(str, res.reasons[:2]))
            return res
        if clean and res.paths_ok and res.stats.obligations:
            res.status = "proved"
            return res
        if clean:
            res.note("vacuous: no path reaches an obligation")
        exact = [f for f in res.failed if not f["inexact"] and not f["havoc"]]
        # bounded refutation and native search
        b0 = time.time()
        st = res.stats
        bres = Result(task.name)
        for lim in (3, 7):
            if time.time() - b0 > search_s:
                break
            if task.loopy or any(f["inexact"] or f["havoc"] for f in res.failed) or res.reasons:
                explore(task, bres, min(b0 + search_s, time.time() + search_s * 0.6), limits=[lim], inline_all=True, stop_at=4)
                if bres.status == "violated":
                    res.status, res.violation = "violated", bres.violation
                    res.violation["how"] = "bounded refutation, replayed on the real code"
                    return res
        res.model_ints |= bres.model_ints
        if native_search(task, res, search_s, 200000, seed + 1, hints_of(task, res)):
            return res
        res.bounded = dict(native_runs=res.native, bounded_paths=bres.stats.paths, seconds=round(time.time() - b0, 1))
        res.status = "refuted" if exact else "unknown"
        return res
    except ToolError as e:
        res.note(str(e))
        return res
    finally:
        res.wall = time.time() - t0
