"""Symbolic meaning of the specification vocabulary."""
import datetime as _dt
from ast import Eq as ast_Eq
import enum
import fractions
import struct
import types

import z3

from . import core, vlib
from .core import *
from .interp import BoundMethod, ExcVal, FrameVal, Func, IterObj, MethodRef, PyRaise, py_raise
from . import models as M


# ------------------------------------------------------------------ values of a type
def sym(it, T, name):
    C = core.C
    if isinstance(T, vlib.Sampled):
        return sym(it, T.base, name)
    if isinstance(T, vlib.Bytes):
        if T.hi is not None and T.hi == T.lo:
            n = T.lo
        else:
            n = z3.Int("len<%s>" % name)
            C.add(n >= T.lo)
            if T.hi is not None:
                C.add(n <= T.hi)
            if C.limits:
                top = T.lo + C.limits[0]
                C.add(n <= (top if T.hi is None else min(top, T.hi)))
                n = concretize(n, T.lo, top if T.hi is None else min(top, T.hi))
        b = Base(name, n)
        C.memo[("base", name)] = b
        s = mkseq("s" if T.text else "b", [Sub(b, 0, n)], T.cls)
        if isinstance(n, int) and n == 0:
            s = M.out_seq(s)
            return MBytes(from_native(b"")) if T.mutable else s
        return MBytes(s) if T.mutable else s
    if isinstance(T, vlib.UInt):
        lo, hi = T.lo, T.hi
        if lo is not None and lo == hi:
            return lo
        if lo is not None and lo >= 0 and hi is not None and hi < (1 << 64):
            w = bv_width(hi)
            t = z3.BitVec("v<%s>" % name, w)
            if lo > 0:
                C.add(z3.UGE(t, lo))
            if hi < (1 << w) - 1:
                C.add(z3.ULE(t, hi))
            return mkint("bv", t, lo, hi)
        t = z3.Int("i<%s>" % name)
        if lo is not None:
            C.add(t >= lo)
        if hi is not None:
            C.add(t <= hi)
        return mkint("int", t, lo, hi)
    if isinstance(T, vlib.Bool):
        return SBool(z3.Bool("p<%s>" % name))
    if isinstance(T, vlib.Enum):
        vals = sorted({int(m) for m in T.cls})
        w = bv_width(vals[-1])
        t = z3.BitVec("e<%s>" % name, w)
        C.add(M.in_set(t, vals) if w <= 8 else z3.Or([t == v for v in vals]))
        return SInt("bv", t, vals[0], vals[-1], T.cls)
    if isinstance(T, vlib.Const):
        return it.wrap(T.v)
    if isinstance(T, vlib.OneOf):
        k = C.choose([z3.Bool("alt%d<%s>" % (j, name)) for j in range(len(T.alts))])
        return sym(it, T.alts[k], name)
    if isinstance(T, vlib.Tup):
        return tuple(sym(it, t, "%s.%d" % (name, j)) for j, t in enumerate(T.ts))
    if isinstance(T, vlib.Listing):
        if T.of is not None:
            n = z3.Int("n<%s>" % name)
            C.add(n >= 0)
            return SList(name, n, (), "text" if isinstance(T.of, vlib.Bytes) and T.of.text else None)
        return [sym(it, t, "%s.%d" % (name, j)) for j, t in enumerate(T.ts)]
    if isinstance(T, vlib.Obj):
        fields = {k: sym(it, t, "%s.%s" % (name, k)) if isinstance(t, vlib.T) else it.wrap(t) for k, t in T.fields.items()}
        if vlib.unknown_fields(T.cls):
            try:
                return it.call(T.cls, [], fields)
            except PyRaise as e:
                raise ToolError("%s cannot be made (%s)" % (T.cls.__name__, e.exc.cls.__name__))
        o = Inst(T.cls)
        o.fields.update(fields)
        return o
    if isinstance(T, vlib.Made):
        return it.call(T.make, [sym(it, t, "%s.%s" % (name, k)) for k, t in T.parts.items()], {})
    if isinstance(T, vlib.DateTime):
        rng = dict(year=(T.lo, T.hi), month=(1, 12), day=(1, 31), hour=(0, 23), minute=(0, 59), second=(0, 59))
        f = {k: sym(it, vlib.UInt(a, b), "%s.%s" % (name, k)) for k, (a, b) in rng.items()}
        if T.micro:
            f["microsecond"] = sym(it, vlib.UInt(0, 999999), "%s.us" % name)
        d = M.make_datetime_assume(it, f)
        if T.aware:
            d.zone = z3.Bool("zone<%s>" % name)
        return d
    if isinstance(T, vlib.Real):
        t = z3.Real("r<%s>" % name)
        if T.lo is not None:
            C.add(t >= T.lo)
        return SReal(t)
    if isinstance(T, vlib.Float):
        b = Base(name, 8)
        C.memo[("base", name)] = b
        e = z3.Concat(z3.Extract(6, 0, b.at(7)), z3.Extract(7, 4, b.at(6)))
        C.add(e != 0x7FF)
        return App("FLOATd", (mkseq("b", [U(b.at(j)) for j in range(8)]),), float)
    raise ToolError("symbolic %r" % (T,))


def havoc(it, T, name):
    """arbitrary value of a loop variable"""
    C = core.C
    if isinstance(T, vlib.Listing):
        n = z3.Int("n<%s>" % name)
        C.add(n >= 0)
        return SList(name, n)
    return sym(it, T, name)


def accepts(it, T, v):
    """Does a call-site argument satisfy the parameter type (precondition of the contract)?"""
    if isinstance(T, vlib.Sampled):
        return accepts(it, T.base, v)
    if isinstance(T, vlib.Bytes):
        if isinstance(v, App) or not M.is_seq(v):
            return False
        if T.mutable and not isinstance(v, MBytes):
            # a contract for a bytearray that does not change it also holds for bytes
            pass
        s = M.seqify(v)
        if s.kind != ("s" if T.text else "b"):
            return False
        n = s.length()
        if T.lo > 0 and not core.C.known(ile(T.lo, n)):
            return False
        if T.hi is not None and not core.C.known(ile(n, T.hi)):
            return False
        return True
    if isinstance(T, vlib.UInt):
        if isinstance(v, bool) or not isinstance(v, (int, SInt)):
            return False
        for b, op in ((T.lo, ast_ge), (T.hi, ast_le)):
            if b is not None and not core.C.known(op(v, b)):
                return False
        return True
    if isinstance(T, vlib.Bool):
        return isinstance(v, (bool, SBool))
    if isinstance(T, vlib.Real):
        return isinstance(v, SReal) and (T.lo is None or core.C.known(v.t >= T.lo))
    if isinstance(T, vlib.Enum):
        return isinstance(v, T.cls) or (isinstance(v, SInt) and v.cls is T.cls)
    if isinstance(T, vlib.Const):
        return M.to_py(v) == T.v
    if isinstance(T, vlib.OneOf):
        return any(accepts(it, a, v) for a in T.alts)
    if isinstance(T, vlib.Obj):
        return isinstance(v, Inst) and issubclass(v.cls, T.cls) and all(k in v.fields and (not isinstance(t, vlib.T) or accepts(it, t, v.fields[k])) for k, t in T.fields.items())
    if isinstance(T, vlib.Made):
        return T.like is not None and accepts(it, T.like, v)
    if isinstance(T, vlib.DateTime):
        if isinstance(v, _dt.datetime):
            return T.holds(v)
        return isinstance(v, SDT) and (T.aware or v.zone is None or core.C.known(z3.Not(v.zone))) and core.C.known(ast_ge(v.f["year"], T.lo)) and core.C.known(ast_le(v.f["year"], T.hi))
    if isinstance(T, vlib.Float):
        return isinstance(v, (float, App))
    return True


def ast_ge(a, b):
    import ast

    return core.as_cond(M.int_cmp(ast.GtE, a, b))


def ast_le(a, b):
    import ast

    return core.as_cond(M.int_cmp(ast.LtE, a, b))


def known_equal(it, a, b):
    if M.isnum(a) and M.isnum(b):
        return core.C.known(core.as_cond(M.int_cmp(ast_Eq, a, b)))
    return M.vkey(a) == M.vkey(b)


def surely_same(it, a, b, depth=0, seen=()):
    """a and b are equal in the sense of vlib.same on this path (False: perhaps not)"""
    C = core.C
    if a is b:
        return True
    if a is POISON or b is POISON or depth > 14:
        return False
    if isinstance(a, Inst) and isinstance(b, Inst):
        if (id(a), id(b)) in seen:
            return True
        seen = seen + ((id(a), id(b)),)
        return a.cls is b.cls and set(a.fields) == set(b.fields) and all(surely_same(it, a.fields[k], b.fields[k], depth + 1, seen) for k in a.fields)
    if isinstance(a, Inst) or isinstance(b, Inst):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(surely_same(it, x, y, depth + 1, seen) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(surely_same(it, a[k], b[k], depth + 1, seen) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b
    if isinstance(a, App) and isinstance(b, App):
        return M.vkey(a) == M.vkey(b)
    if isinstance(a, App) or isinstance(b, App):
        return False
    c = M.value_eq(it, a, b)
    if isinstance(c, SBool):
        return C.known(c.t)
    return c is True


# ------------------------------------------------------------------ obligations: equality
def prove_equal(it, a, b, what, depth=0, seen=None):
    """Obligation a == b in the sense of vlib.same."""
    C = core.C
    if a is b:
        C.prove(True, what)
        return
    if a is POISON or b is POISON:
        raise ToolError("loop head value unknown in: " + what)
    if depth > 14:
        raise ToolError("deep comparison")
    if M.isnum(a) and M.isnum(b):
        import ast

        c = M.int_cmp(ast.Eq, a, b)
        C.prove(core.as_cond(c), what)
        return
    if isinstance(a, SReal) or isinstance(b, SReal):
        import ast

        c = M.real_cmp(ast.Eq, a, b)
        C.prove(False if c is None else core.as_cond(c), what)
        return
    if isinstance(a, App) and a.fn == "TXT" or isinstance(b, App) and b.fn == "TXT":
        pass
    elif M.is_seq(a) and M.is_seq(b):
        seq_prove_eq(M.seqify(a), M.seqify(b), what)
        return
    if isinstance(a, Inst) and isinstance(b, Inst):
        seen = seen or set()
        if (id(a), id(b)) in seen:
            return
        seen = seen | {(id(a), id(b))}
        if a.cls is not b.cls:
            C.prove(False, "%s: class %s instead of %s" % (what, a.cls.__name__, b.cls.__name__))
        if {k for k in a.fields if not vlib.unknown_attribute(a.cls, k)} != {k for k in b.fields if not vlib.unknown_attribute(b.cls, k)}:
            C.prove(False, "%s: attributes differ" % what)
        more = []
        for k in a.fields:
            if vlib.unknown_attribute(a.cls, k):
                more.append(k)
            else:
                prove_equal(it, a.fields[k], b.fields[k], "%s.%s" % (what, k), depth + 1, seen)
        for k in more:
            if k not in b.fields or not surely_same(it, a.fields[k], b.fields[k]):
                raise ToolError("no contract speaks of attribute %s of %s" % (k, a.cls.__name__))
        return
    if isinstance(a, SList) or isinstance(b, SList):
        if isinstance(a, SList) and isinstance(b, SList) and a.token == b.token and len(a.items) == len(b.items):
            for j, (x, y) in enumerate(zip(a.items, b.items)):
                prove_equal(it, x, y, "%s[+%d]" % (what, j), depth + 1, seen)
            C.prove(True, what)
            return
        C.inexact.append("unbounded list")
        C.prove(False, what + ": lists")
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        C.prove(len(a) == len(b), what + ": number of elements")
        for j, (x, y) in enumerate(zip(a, b)):
            prove_equal(it, x, y, "%s[%d]" % (what, j), depth + 1, seen)
        return
    if isinstance(a, dict) and isinstance(b, dict):
        C.prove(set(a) == set(b), what + ": keys")
        for k in a:
            prove_equal(it, a[k], b[k], "%s[%r]" % (what, k), depth + 1, seen)
        return
    if isinstance(a, (SDT, _dt.datetime)) and isinstance(b, (SDT, _dt.datetime)):
        if M.zone_of(a) is not M.zone_of(b):
            C.prove(M.is_aware(a) == M.is_aware(b), "%s: time zone" % what)
        fa, fb = M.dt_fields(a), M.dt_fields(b)
        for k in fa:
            prove_equal(it, fa[k], fb[k], "%s.%s" % (what, k), depth + 1, seen)
        return
    if isinstance(a, App) and a.fn.startswith("spec:") or isinstance(b, App) and b.fn.startswith("spec:"):
        if isinstance(a, App) and isinstance(b, App) and a.fn == b.fn and M.vkey(a) == M.vkey(b):
            C.prove(True, what)
            return
        prove_equal(it, unfold(it, a), unfold(it, b), what, depth + 1, seen)
        return
    if isinstance(a, App) or isinstance(b, App):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.fn.startswith("FLOAT") and isinstance(y, float):
                bb = struct.pack("<" + x.fn[5], y)
                seq_prove_eq(M.seqify(x.args[0]), from_native(bb), what)
                return
        if isinstance(a, App) and isinstance(b, App):
            if M.vkey(a) == M.vkey(b):
                C.prove(True, what)
                return
            if a.fn == b.fn and len(a.args) == len(b.args):
                if not a.fn.startswith("FLOAT"):
                    C.inexact.append("opaque function " + a.fn)
                for x, y in zip(a.args, b.args):
                    prove_equal(it, x, y, what, depth + 1, seen)
                return
            if a.fn.startswith("FLOAT") and b.fn.startswith("FLOAT"):
                C.prove(False, what + ": floating point width")
                return
            C.inexact.append("opaque values")
            C.prove(False, what)
            return
        o = a if isinstance(b, App) else b
        if o is None or isinstance(o, (Inst, bool)) or (M.is_seq(o) and (b if o is a else a).type is not str):
            C.prove(False, what)
            return
        C.inexact.append("opaque value")
        C.prove(False, what)
        return
    if isinstance(a, FrameVal) and isinstance(b, FrameVal):
        prove_equal(it, a.g, b.g, what, depth + 1, seen)
        return
    if isinstance(a, ExcVal) and isinstance(b, ExcVal):
        C.prove(a.cls is b.cls, what + ": exception class")
        return
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        C.prove(bool(a == b) if not isinstance(a, (SInt,)) and not isinstance(b, SInt) else False, what)
        return
    na, nb = M.to_py(a), M.to_py(b)
    if na is not M.NOTNATIVE and nb is not M.NOTNATIVE:
        C.prove(vlib.same(na, nb), what)
        return
    if isinstance(a, (Func, BoundMethod, MethodRef, IterObj)) or isinstance(b, (Func, BoundMethod, MethodRef, IterObj)):
        raise ToolError("comparison of functions or iterators in: " + what)
    C.prove(False, what + ": kinds of value differ")


def unfold(it, v):
    """definition of a folded specification function"""
    if isinstance(v, App) and v.fn.startswith("spec:"):
        k = ("unfold", M.vkey(v))
        C = core.C
        if k not in C.memo:
            try:
                C.memo[k] = it.call_func(it.lift(v.extra), list(v.args), {})
            except PyRaise as e:
                raise ToolError("%s raises %s" % (v.fn, e.exc.cls.__name__))
        return C.memo[k]
    return v


# ------------------------------------------------------------------ logic folds
class FoldState:
    def __init__(self):
        self.bounds = {}


def _prefix_fn(kind, base):
    return z3.Function("P%s<%s>" % (kind, base.key), z3.IntSort(), z3.BitVecSort(8))


def _term(i):
    return z3.IntVal(i) if isinstance(i, int) else i


def _boundary(kind, base, i):
    """prefix value at index i, with the step axiom to neighbouring known indices"""
    C = core.C
    f = _prefix_fn(kind, base)
    d = C.memo.setdefault(("fold", kind, base.key), {})
    k = tkey(i)
    if k not in d:
        d[k] = i
        for o in list(d.values()):
            for lo, hi in ((o, i), (i, o)):
                t = z3.simplify(_term(isub(hi, lo)))
                if z3.is_int_value(t):
                    if t.as_long() == 1:
                        _step(kind, base, lo, hi)
                else:
                    _step(kind, base, lo, hi, t == 1)
    return f(_term(i))


def _step(kind, base, lo, hi, cond=None):
    f = _prefix_fn(kind, base)
    b = base.at(lo)
    c = f(_term(hi)) == (f(_term(lo)) ^ b if kind == "X" else f(_term(lo)) + b)
    core.C.add(c if cond is None else z3.Implies(cond, c))


def fold_group(kind, data):
    s = M.seqify(data)
    acc = z3.BitVecVal(0, 8)
    op = (lambda a, b: a ^ b) if kind == "X" else (lambda a, b: a + b)
    inv = (lambda a, b: a ^ b) if kind == "X" else (lambda a, b: a - b)
    for g in s.segs:
        if isinstance(g, bytes):
            for x in g:
                acc = op(acc, z3.BitVecVal(x, 8))
        elif isinstance(g, U):
            acc = op(acc, g.t)
        else:
            if isinstance(g.len, int) and g.len <= 64:
                for j in range(g.len + 1):
                    _boundary(kind, g.base, iadd(g.off, j))
            acc = op(acc, inv(_boundary(kind, g.base, iadd(g.off, g.len)), _boundary(kind, g.base, g.off)))
            if not isinstance(g.len, int):
                core.C.add(z3.Implies(g.len == 0, _boundary(kind, g.base, iadd(g.off, g.len)) == _boundary(kind, g.base, g.off)))
    core.C.inexact.append("fold of unbounded data") if any(isinstance(g, Sub) for g in s.segs) else None
    return byte_value(acc)


def _drc_step(r, b):
    return z3.RotateLeft(r, z3.BitVecVal(1, 8)) ^ b


def _crc_step(r, b):
    r = r ^ z3.ZeroExt(8, b)
    for _ in range(8):
        r = z3.If(z3.Extract(0, 0, r) == 1, z3.LShR(r, 1) ^ 0xA001, z3.LShR(r, 1))
    return r


_STEPS = {
    "D": z3.Function("drc_step", z3.BitVecSort(8), z3.BitVecSort(8), z3.BitVecSort(8)),
    "C": z3.Function("crc_step", z3.BitVecSort(16), z3.BitVecSort(8), z3.BitVecSort(16)),
}


def _opaque_step(kind, r, b):
    """The step of a fold as a logic function; its definition is instantiated at r, b where
    the task needs it (the functions that compute the fold themselves)."""
    C = core.C
    r, b = z3.simplify(r), z3.simplify(b)
    define = _drc_step if kind == "D" else _crc_step
    if z3.is_bv_value(r) and z3.is_bv_value(b):
        v = z3.simplify(define(r, b))
        key = ("stepval", kind, r.as_long(), b.as_long())
        if key not in C.memo:
            # the value may be needed where r, b are known only on some path
            C.memo[key] = v
            C.add(_STEPS[kind](r, b) == v)
        return v
    t = _STEPS[kind](r, b)
    if C.fold_defs or C.limits:
        if ("stepdef", t.get_id()) not in C.memo:
            C.memo[("stepdef", t.get_id())] = t
            C.add(t == define(r, b))
    else:
        C.inexact.append("step of the fold kept opaque")
    return t


def fold_seq(kind, data):
    C = core.C
    s = M.seqify(data)
    w, init = (8, 0) if kind == "D" else (16, 0xFFFF)
    acc = z3.BitVecVal(init, w)
    if all(isinstance(g, bytes) for g in s.segs):
        return (vlib.fold_drc if kind == "D" else vlib.fold_crc)(b"".join(s.segs))
    for g in s.segs:
        if isinstance(g, bytes):
            for x in g:
                acc = _opaque_step(kind, acc, z3.BitVecVal(x, 8))
        elif isinstance(g, U):
            acc = _opaque_step(kind, acc, g.t)
        elif isinstance(g.len, int) and g.len <= 24:
            for j in range(g.len):
                acc = _opaque_step(kind, acc, g.base.at(iadd(g.off, j)))
        else:
            f = z3.Function("F%s<%s>" % (kind, g.base.key), z3.IntSort(), z3.IntSort(), z3.BitVecSort(w), z3.BitVecSort(w))
            acc = z3.simplify(acc)
            C.memo[("keep", acc.get_id())] = acc
            d = C.memo.setdefault(("fold", kind, g.base.key, tkey(g.off), acc.get_id()), {})
            ends = [iadd(g.off, j) for j in range(g.len + 1)] if isinstance(g.len, int) and g.len <= 40 else [g.off, iadd(g.off, g.len)]
            for e in ends:
                if tkey(e) in d:
                    continue
                d[tkey(e)] = e
                C.add(z3.Implies(_term(e) == _term(g.off), f(_term(g.off), _term(e), acc) == acc))
                for o in list(d.values()):
                    for lo, hi in ((o, e), (e, o)):
                        t = z3.simplify(_term(isub(hi, lo)))
                        if z3.is_int_value(t) and t.as_long() != 1:
                            continue
                        C.add(z3.Implies(z3.And(t == 1, _term(lo) >= _term(g.off)), f(_term(g.off), _term(hi), acc) == _opaque_step(kind, f(_term(g.off), _term(lo), acc), g.base.at(lo))))
            acc = f(_term(g.off), _term(ends[-1]), acc)
            C.inexact.append("fold of unbounded data")
    return mkint("bv", acc)


UNESCAPE_LEMMA = "lemma unescape(escape(body + 0D)) = body + 0D"


# ------------------------------------------------------------------ models of the vocabulary
def install_opaque():
    F = M.FUNCS
    for f, typ in vlib.OPAQUE.items():

        def folded(it, *a, f=f, typ=typ):
            if it.concrete or all(M.to_py(x) is not M.NOTNATIVE for x in a):
                return it.call_func(it.lift(f), list(a), {})
            return App("spec:" + f.__name__, tuple(M.deep(x, {}) for x in a), typ, f)

        F[f] = folded


def install():
    F = M.FUNCS

    def m(native):
        def deco(f):
            F[native] = f
            return f

        return deco

    @m(vlib.check)
    def _check(it, cond, what="check"):
        C = core.C
        if isinstance(cond, SBool):
            C.prove(cond.t, what)
        elif isinstance(cond, bool):
            C.prove(cond, what)
        else:
            C.prove(M.truth(it, cond), what)

    @m(vlib.check_eq)
    def _check_eq(it, a, b, what="values differ"):
        prove_equal(it, a, b, what)

    @m(vlib.require)
    def _require(it, cond):
        C = core.C
        if isinstance(cond, SBool):
            C.assume(cond.t)
        elif not M.truth(it, cond):
            raise PathEnd()

    @m(vlib.same)
    def _same(it, a, b, depth=0):
        return surely_same(it, a, b)

    F[vlib.snapshot] = lambda it, v: M.deep(v, {})

    @m(vlib.beyond_proof)
    def _beyond_proof(it, why):
        if not it.concrete:
            raise ToolError(why)

    @m(vlib.nondet)
    def _nondet(it, name, T, *idx):
        C = core.C
        if it.concrete:
            from .verify import _lift_arg

            return _lift_arg(it, vlib.nondet(name, T, *[M.to_py(i) for i in idx]))
        key = "%s@%s" % (name, ",".join(M.vkey(i) for i in idx))
        k = ("nondet", key)
        if k not in C.memo:
            for other, oidx, v in C.nondets:
                if other == name and len(oidx) == len(idx) and all(known_equal(it, x, y) for x, y in zip(idx, oidx)):
                    C.memo[k] = v
                    return v
            C.memo[k] = sym(it, T, key)
            C.nondets.append((name, idx, C.memo[k]))
        return C.memo[k]

    @m(vlib.term)
    def _term(it, name, *args):
        return App("term:" + name, args, vlib.Term)

    @m(vlib.choice)
    def _choice(it, name, T):
        C = core.C
        if it.concrete:
            from .verify import _lift_arg

            return _lift_arg(it, vlib.choice(name, T))
        w = it.overlay.get("$witness")
        if w is not None and name in w:
            v = w[name]
            check_type(it, T, v, "range of the chosen " + name)
            return v
        C.inexact.append("free choice " + name)
        return sym(it, T, C.fresh("choice:" + name))

    for f in (vlib.loopvar, vlib.loopobj, vlib.ghosts, vlib.decreases):
        F[f] = lambda it, *a, **k: None
    F[vlib.invariant] = lambda it, c: None
    F[vlib.pending] = lambda it, v: v

    @m(vlib.patch)
    def _patch(it, obj, name, value):
        if isinstance(obj, types.ModuleType):
            it.overlay[(id(obj.__dict__), name)] = value
        elif isinstance(obj, type):
            it.overlay[(obj, name)] = value
        else:
            raise ToolError("patch target")

    @m(vlib.under)
    def _under(it, depth, fn):
        stack, it.stack = it.stack, []
        it.overlay["ghost_stack"] = depth
        try:
            return it.call(fn, [], {})
        finally:
            it.stack = stack
            del it.overlay["ghost_stack"]

    @m(vlib.frame_at)
    def _frame_at(it, i, depth):
        return M.ghost_frame(it, i, depth)

    F[vlib.fold_xor] = lambda it, d: fold_group("X", d)
    F[vlib.fold_sum] = lambda it, d: fold_group("S", d)
    F[vlib.fold_drc] = lambda it, d: fold_seq("D", d)
    F[vlib.fold_crc] = lambda it, d: fold_seq("C", d)

    @m(vlib.bytemap)
    def _bytemap(it, data, table):
        return M.out_seq(seq_map_b(M.seqify(data), vlib.TABLES[table]))

    @m(vlib.unescape)
    def _unescape(it, data):
        C = core.C
        s = M.seqify(data)
        n = to_native(s)
        if not isinstance(n, Seq):
            return it.native_call(vlib.unescape, [n], {})
        g = s.segs
        if len(g) == 2 and g[1] == b"\r" and isinstance(g[0], Sub) and isinstance(g[0].base, MapBase) and g[0].base.table == vlib.TABLES["escape"] and same_term(g[0].off, 0) and same_term(g[0].len, g[0].base.length):
            it.used_contracts.add(UNESCAPE_LEMMA)
            return M.out_seq(mkseq("b", list(g[0].base.inner.segs) + [b"\r"]))
        if len(g) > 1:
            # parts that are empty on this path must not make a difference
            s = drop_empty(s)
            g = s.segs
        key = "unescape(%s)" % s.key()
        if isinstance(g[-1], bytes) and g[-1][-1] != 0x1B:
            # proved with the contract of return_characters
            it.used_contracts.add("elgas.utils.return_characters")
            ok = True
        else:
            ok = C.branch(z3.Bool("ok<%s>" % key))
        C.inexact.append("unescape of unknown data")
        if not ok:
            py_raise(IndexError)
        b = C.memo.get(("base", key))
        if b is None:
            n = z3.Int("len<%s>" % key)
            C.add(z3.And(n >= 0, n <= s.length(), 2 * n >= s.length()))
            b = Base(key, n)
            C.memo[("base", key)] = b
        return M.out_seq(mkseq("b", [Sub(b, 0, b.length)]))

    @m(vlib.has_byte)
    def _has(it, data, byte):
        return M.seq_find(it, M.seqify(data), from_native(bytes([byte]))) is not None

    @m(vlib.first_index)
    def _first(it, data, byte):
        r = M.seq_find(it, M.seqify(data), from_native(bytes([byte])))
        return -1 if r is None else sint_of(r, 0)

    @m(vlib.last_index)
    def _last(it, data, byte):
        r = M.seq_rfind(it, M.seqify(data), from_native(bytes([byte])))
        return -1 if r is None else sint_of(r, 0)

    @m(vlib.aes_cbc)
    def _aes(it, key, iv, data):
        return M.out_seq(M.crypt(App("CTX", (App("AES", (M.seqify(key),)), App("CBC", (M.seqify(iv),)), "encryptor")), M.seqify(data)))

    @m(vlib.aes_cbc_inv)
    def _aesi(it, key, iv, data):
        return M.out_seq(M.crypt(App("CTX", (App("AES", (M.seqify(key),)), App("CBC", (M.seqify(iv),)), "decryptor")), M.seqify(data)))

    @m(vlib.float_le)
    def _fl(it, data, fmt):
        return M.struct_unpack(it, "<" + fmt, data)[0]


def seq_map_b(s, table):
    return M.seq_map(Seq("b", s.segs), table)


def check_type(it, T, v, what):
    C = core.C
    if isinstance(T, vlib.Bytes):
        if not M.is_seq(v):
            C.prove(False, what)
        s = M.seqify(v)
        C.prove(s.kind == ("s" if T.text else "b"), what)
        C.prove(core._conj([_b(ile(T.lo, s.length())), _b(ile(s.length(), T.hi)) if T.hi is not None else z3.BoolVal(True)]), what)
        return
    if isinstance(T, vlib.UInt):
        for b, op in ((T.lo, ast_ge), (T.hi, ast_le)):
            if b is not None:
                C.prove(op(v, b), what)
        return
    raise ToolError("range of a choice")


def _b(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


# ------------------------------------------------------------------ model -> native values
class Uninhabited(Exception):
    pass


def conc(model, v, cap=300000, memo=None):
    """native value of a symbolic value under a model"""
    memo = {} if memo is None else memo
    if isinstance(v, SInt):
        n = model.eval(v.t, model_completion=True).as_long()
        return v.cls(n) if v.cls else n
    if isinstance(v, SReal):
        x = model.eval(v.t, model_completion=True)
        if not z3.is_rational_value(x):
            raise Uninhabited("irrational number")
        x = fractions.Fraction(x.as_string())
        # exact, so that a replay does not differ by rounding errors
        try:
            return float(x) if fractions.Fraction(float(x)) == x else x
        except OverflowError:
            return x
    if isinstance(v, SBool):
        return z3.is_true(model.eval(v.t, model_completion=True))
    if isinstance(v, MBytes):
        if id(v) not in memo:
            memo[id(v)] = bytearray(conc(model, v.seq, cap))
        return memo[id(v)]
    if isinstance(v, Seq):
        out = bytearray()
        for g in v.segs:
            if isinstance(g, bytes):
                out += g
            elif isinstance(g, U):
                out.append(model.eval(g.t, model_completion=True).as_long())
            else:
                n = _ev(model, g.len)
                o = _ev(model, g.off)
                if n > cap:
                    raise Uninhabited("%d bytes" % n)
                if n > 3000:
                    out += _long(model, g.base, o, n)
                else:
                    for j in range(n):
                        out.append(model.eval(z3.Select(g.base.arr, z3.IntVal(o + j)), model_completion=True).as_long())
        b = bytes(out)
        if v.kind == "s":
            b = b.decode("latin-1")
        return v.cls(b) if v.cls else b
    if isinstance(v, Inst):
        if id(v) not in memo:
            o = v.cls.__new__(v.cls)
            memo[id(v)] = o
            for k, x in v.fields.items():
                o.__dict__[k] = conc(model, x, cap, memo)
        return memo[id(v)]
    if isinstance(v, SDT):
        f = {k: conc(model, x) for k, x in v.f.items()}
        if v.zone is not None and z3.is_true(model.eval(v.zone, model_completion=True)):
            f["tzinfo"] = _dt.timezone(_dt.timedelta(hours=-3, minutes=-30))
        return _dt.datetime(**f)
    if isinstance(v, App):
        if v.fn.startswith("FLOAT"):
            return struct.unpack("<" + v.fn[5], conc(model, M.seqify(v.args[0])))[0]
        raise Uninhabited(v.fn)
    if isinstance(v, list):
        return [conc(model, x, cap, memo) for x in v]
    if isinstance(v, tuple):
        return tuple(conc(model, x, cap, memo) for x in v)
    if isinstance(v, dict):
        return {k: conc(model, x, cap, memo) for k, x in v.items()}
    if isinstance(v, (Func, BoundMethod, MethodRef, SList, IterObj)):
        raise Uninhabited(type(v).__name__)
    return v


def _long(model, base, o, n):
    """long arrays: default value plus the explicit entries of the model"""
    a = model.eval(base.arr, model_completion=True)
    ent = {}
    while z3.is_store(a):
        k = a.arg(1)
        if z3.is_int_value(k):
            ent.setdefault(k.as_long(), a.arg(2).as_long())
        a = a.arg(0)
    d = 0
    if z3.is_const_array(a) or a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        d = a.arg(0).as_long()
    b = bytearray([d]) * n
    for k, x in ent.items():
        if o <= k < o + n:
            b[k - o] = x
    return bytes(b)


def _ev(model, t):
    return t if isinstance(t, int) else model.eval(t, model_completion=True).as_long()
