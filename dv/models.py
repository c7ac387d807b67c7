"""Semantics of Python built-ins and library functions over symbolic values.

These are the trusted models of the verifier: each is an exact description of the
CPython behaviour for the inputs it accepts and raises ToolError otherwise.
"""
import ast
import math
import builtins
import copy as _copy
import datetime as _dt
import enum
import fractions
import functools
import operator
import random
import struct
import sys
import time
import types

import z3

from . import core
from .core import *
from .interp import (
    BoundMethod,
    CodeVal,
    ExcVal,
    FrameVal,
    Func,
    IterObj,
    MethodRef,
    PyRaise,
    RangeVal,
    Super,
    interpretable,
    own_class,
    py_raise,
)

NOTNATIVE = object()
WS_B = b" \t\n\r\x0b\x0c"


# ------------------------------------------------------------------ native bridge
def to_py(v):
    """native value if v is fully concrete"""
    if isinstance(v, MBytes):
        n = to_native(v.seq)
        return bytearray(n) if not isinstance(n, Seq) else NOTNATIVE
    if isinstance(v, (SInt, SReal, SBool, Seq, Inst, App, SList, SDT, IterObj, Func, BoundMethod, MethodRef, ExcVal, Super, FrameVal, CodeVal)) or v is POISON:
        if isinstance(v, Seq):
            n = to_native(v)
            return n if not isinstance(n, Seq) else NOTNATIVE
        return NOTNATIVE
    if isinstance(v, RangeVal):
        if all(isinstance(x, int) for x in (v.a, v.b, v.step)):
            return range(v.a, v.b, v.step)
        return NOTNATIVE
    if type(v) in (list, tuple, set, frozenset):
        l = [to_py(x) for x in v]
        if any(x is NOTNATIVE for x in l):
            return NOTNATIVE
        return type(v)(l)
    if type(v) is dict:
        d = {}
        for a, b in v.items():
            b = to_py(b)
            if b is NOTNATIVE or to_py(a) is NOTNATIVE:
                return NOTNATIVE
            d[a] = b
        return d
    return v


def from_py(it, v):
    if type(v) is bytearray:
        return MBytes(from_native(bytes(v)))
    if type(v) is list:
        return [from_py(it, x) for x in v]
    if type(v) is tuple:
        return tuple(from_py(it, x) for x in v)
    if type(v) is dict:
        return {a: from_py(it, b) for a, b in v.items()}
    if type(v) is memoryview:
        return bytes(v)
    return v


DENY = ("os.", "posix.", "shutil.", "subprocess.", "_io.", "io.", "socket.", "_socket.", "serial", "time.", "random.", "threading", "_thread", "signal", "builtins.open", "builtins.input", "builtins.eval", "builtins.exec", "sys.exit")


def native_allowed(f, name):
    n = name
    if n.startswith("os.path.") or n.startswith("posixpath."):
        return True
    return not any(n.startswith(d) for d in DENY)


def is_seq(v):
    return isinstance(v, (Seq, MBytes, bytes, str)) or type(v) is bytearray


def need_seq(v, message):
    """a byte or text value is required; nothing is known of the contents of an abstract text"""
    if not is_seq(v):
        if isinstance(v, App) and v.type in (str, bytes, bytearray, object):
            raise ToolError("contents of an abstract text")
        py_raise(TypeError, message)


def seqify(v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, MBytes):
        return v.seq
    return from_native(v)


def out_seq(s):
    return to_native(s)


def class_of(v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SInt):
        return v.cls or int
    if isinstance(v, SReal):
        return float
    if isinstance(v, Seq):
        return v.cls or (bytes if v.kind == "b" else str)
    if isinstance(v, MBytes):
        return bytearray
    if isinstance(v, SList):
        return list
    if isinstance(v, SDT):
        return _dt.datetime
    if isinstance(v, App):
        return v.type
    if isinstance(v, ExcVal):
        return v.cls
    if isinstance(v, (Func,)):
        return types.FunctionType
    if isinstance(v, (BoundMethod, MethodRef)):
        return types.MethodType
    if isinstance(v, RangeVal):
        return range
    if isinstance(v, IterObj):
        return type(iter([]))
    return type(v)


def hashable(it, k):
    n = to_py(k)
    if n is NOTNATIVE:
        if isinstance(k, Inst):
            return k
        raise ToolError("symbolic dictionary key")
    return n


# ------------------------------------------------------------------ truth / equality
def truth(it, v):
    if isinstance(v, bool):
        return v
    if isinstance(v, SBool):
        return core.C.branch(v.t)
    if isinstance(v, SInt):
        return core.C.branch(int_ne0(v))
    if isinstance(v, SReal):
        return core.C.branch(v.t != 0)
    if isinstance(v, Seq):
        return not core.C.branch(ieq(v.length(), 0))
    if isinstance(v, MBytes):
        return not core.C.branch(ieq(v.seq.length(), 0))
    if isinstance(v, SList):
        return bool(v.items) or not core.C.branch(ieq(v.plen, 0))
    if isinstance(v, Inst):
        b, o = it.class_lookup(v.cls, "__bool__")
        if o is not None:
            return truth(it, it.call(b, [v], {}))
        b, o = it.class_lookup(v.cls, "__len__")
        if o is not None:
            return truth(it, it.call(b, [v], {}))
        return True
    if isinstance(v, App):
        if v.type in (str, bytes):
            raise ToolError("truth of an opaque text")
        if v.type is object or v.type in (float, int, bool):
            t = z3.Bool("TRUTH<%s>" % vkey(v))
            core.C.inexact.append("truth of an opaque value")
            return core.C.branch(t)
        return True
    if isinstance(v, RangeVal):
        return truth(it, compare(it, ast.Lt, v.a, v.b))
    if isinstance(v, (Func, BoundMethod, MethodRef, ExcVal, SDT, IterObj, FrameVal)):
        return True
    if v is POISON:
        raise ToolError("loop head value unknown")
    return bool(v)


def int_ne0(v):
    if v.kind == "bv":
        return v.t != 0
    return v.t != 0


def vkey(v):
    """structural key of a value (terms by id)"""
    if isinstance(v, bool):
        return "B%s" % v
    if isinstance(v, enum.Enum):
        return "E%s.%s" % (type(v).__name__, v.name)
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, SInt):
        core.C.memo[("keep", v.t.get_id())] = v.t
        return "t%d" % v.t.get_id()
    if isinstance(v, SReal):
        core.C.memo[("keep", v.t.get_id())] = v.t
        return "r%d" % v.t.get_id()
    if isinstance(v, SBool):
        core.C.memo[("keep", v.t.get_id())] = v.t
        return "b%d" % v.t.get_id()
    if isinstance(v, (Seq, MBytes, bytes, str)):
        return seqify(v).key()
    if isinstance(v, App):
        return "%s(%s)" % (v.fn, ",".join(vkey(a) for a in v.args))
    if isinstance(v, (list, tuple)):
        return "[%s]" % ",".join(vkey(a) for a in v)
    if isinstance(v, Inst):
        return "%s{%s}" % (v.cls.__name__, ",".join("%s=%s" % (a, vkey(b)) for a, b in sorted(v.fields.items())))
    if isinstance(v, SDT):
        return "DT(%s)" % ",".join(vkey(x) for x in list(v.f.values()) + ([] if v.zone is None else [v.zone]))
    if isinstance(v, SList):
        return "SL(%s,%s)" % (v.token, ",".join(vkey(x) for x in v.items))
    if isinstance(v, z3.ExprRef):
        core.C.memo[("keep", v.get_id())] = v
        return "z%d" % v.get_id()
    if v is None or isinstance(v, (float, _dt.datetime, _dt.timedelta, type)):
        return repr(v)
    return "o%d:%r" % (id(v), type(v))


def num(v):
    """bool-like -> int-like"""
    if isinstance(v, SBool):
        return SInt("bv", z3.If(v.t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
    return v


def isnum(v):
    return isinstance(v, (int, SInt, SBool))


def real_term(v):
    """z3 term of a number, None for anything else and for infinities"""
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, float):
        return z3.RealVal(str(fractions.Fraction(v))) if math.isfinite(v) else None
    if isnum(v):
        return z3.ToReal(to_int_term(v))
    return None


def real_cmp(op, a, b):
    """comparison of numbers one of which is a symbolic real; None if the other is no number"""
    for x, y, o in ((a, b, op), (b, a, {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(op, op))):
        if isinstance(y, float) and not math.isfinite(y):
            return OPC[o](0.0, y)
    x, y = real_term(a), real_term(b)
    if x is None or y is None:
        return None
    return mkbool(OPC[op](x, y))


OPC = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def real_op(it, op, a, b):
    x, y = real_term(a), real_term(b)
    if x is None or y is None:
        raise ToolError("real arithmetic")
    if op is ast.Add:
        return core.mkreal(x + y)
    if op is ast.Sub:
        return core.mkreal(x - y)
    if op is ast.Mult and (z3.is_rational_value(z3.simplify(x)) or z3.is_rational_value(z3.simplify(y))):
        return core.mkreal(x * y)
    if op is ast.Div and z3.is_rational_value(z3.simplify(y)):
        if not isinstance(b, SReal) and b == 0:
            py_raise(ZeroDivisionError)
        return core.mkreal(x / y)
    if op in (ast.FloorDiv, ast.Mod) and z3.is_rational_value(z3.simplify(y)) and not isinstance(b, SReal) and b > 0:
        q = z3.ToReal(z3.ToInt(x / y))
        return core.mkreal(q if op is ast.FloorDiv else x - q * y)
    raise ToolError("arithmetic of real numbers: %s" % op.__name__)


def lin_of(v):
    """v as a linear form over bit-vector atoms (exact: no operation has overflowed)"""
    if isinstance(v, int):
        return {None: int(v)} if v else {}
    e = core.C.memo.get(("lin", v.t.get_id()))
    if e is not None:
        return e[0]
    core.C.memo[("keep", v.t.get_id())] = v.t
    # a zero-extended term is its own atom
    t = v.t
    while z3.is_app_of(t, z3.Z3_OP_CONCAT) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
        t = t.arg(1)
        e = core.C.memo.get(("lin", t.get_id()))
        if e is not None:
            return e[0]
    core.C.memo[("keep", t.get_id())] = t
    return {t.get_id(): 1}


def set_lin(r, parts):
    if not isinstance(r, SInt):
        return r
    out = {}
    for k, v in parts:
        for i, c in lin_of(v).items():
            out[i] = out.get(i, 0) + k * c
            if not out[i]:
                del out[i]
    core.C.memo[("lin", r.t.get_id())] = (out, r.t)
    return r


def int_cmp(op, a, b):
    a, b = num(a), num(b)
    if op is ast.Eq and isinstance(a, SInt) and isinstance(b, SInt) and a.kind == b.kind == "bv" and lin_of(a) == lin_of(b):
        return True
    if isinstance(a, int) and isinstance(b, int):
        return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
    if op is ast.Gt:
        return int_cmp(ast.Lt, b, a)
    if op is ast.GtE:
        return int_cmp(ast.LtE, b, a)
    la, ha = int_bounds(a)
    lb, hb = int_bounds(b)
    if None not in (la, ha, lb, hb):
        if op is ast.Eq and (ha < lb or hb < la):
            return False
        if op is ast.NotEq and (ha < lb or hb < la):
            return True
        if op is ast.Lt and ha < lb:
            return True
        if op is ast.Lt and la >= hb:
            return False
        if op is ast.LtE and ha <= lb:
            return True
        if op is ast.LtE and la > hb:
            return False
    ka = a.kind if isinstance(a, SInt) else "c"
    kb = b.kind if isinstance(b, SInt) else "c"
    if "int" not in (ka, kb) and (ka != "c" or a >= 0) and (kb != "c" or b >= 0):
        w = max(a.t.size() if ka == "bv" else bv_width(a), b.t.size() if kb == "bv" else bv_width(b))
        x, y = to_bv(a, w), to_bv(b, w)
        t = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: z3.ULT(x, y), ast.LtE: lambda: z3.ULE(x, y)}[op]()
    else:
        if op is ast.Eq and {ka, kb} == {"int", "bv"}:
            i, v = (a, b) if ka == "int" else (b, a)
            e = core.C.memo.get(("b2i", i.t.get_id()))
            if e is not None:
                w = max(e[1].size(), v.t.size())
                return mkbool(z3.ZeroExt(w - e[1].size(), e[1]) == to_bv(v, w))
        x, y = to_int_term(a), to_int_term(b)
        t = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y}[op]()
    return mkbool(t)


def value_eq(it, a, b):
    """a == b as bool / SBool (may fork)"""
    if a is b and not isinstance(a, float):
        return True
    if isnum(a) and isnum(b):
        return int_cmp(ast.Eq, a, b)
    if isinstance(a, SReal) or isinstance(b, SReal):
        r = real_cmp(ast.Eq, a, b)
        return False if r is None else r
    if is_seq(a) and is_seq(b):
        c = seq_cond_eq(seqify(a), seqify(b))
        return mkbool(c) if not isinstance(c, bool) else c
    if isinstance(a, Inst) or isinstance(b, Inst):
        if not isinstance(a, Inst):
            a, b = b, a
        raw, owner = it.class_lookup(a.cls, "__eq__")
        if owner is not None and owner is not object and isinstance(raw, types.FunctionType):
            r = it.call(raw, [a, b], {})
            if r is NotImplemented:
                return False
            return r
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not truth(it, value_eq(it, x, y)):
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        for k in a:
            if not truth(it, value_eq(it, a[k], b[k])):
                return False
        return True
    if isinstance(a, (SDT, _dt.datetime)) and isinstance(b, (SDT, _dt.datetime)):
        if zone_of(a) is not zone_of(b) and is_aware(a) != is_aware(b):
            return False
        fa, fb = dt_fields(a), dt_fields(b)
        for k in fa:
            if not truth(it, value_eq(it, fa[k], fb[k])):
                return False
        return True
    if isinstance(a, App) or isinstance(b, App):
        if isinstance(a, App) and isinstance(b, App) and a.fn == b.fn and len(a.args) == len(b.args):
            if vkey(a) == vkey(b):
                return True
        core.C.inexact.append("equality of opaque values")
        return SBool(z3.Bool("EQV<%s;%s>" % tuple(sorted((vkey(a), vkey(b))))))
    if isinstance(a, SList) or isinstance(b, SList):
        if isinstance(a, SList) and isinstance(b, SList) and a.token == b.token and len(a.items) == len(b.items):
            return all(truth(it, value_eq(it, x, y)) for x, y in zip(a.items, b.items))
        raise ToolError("comparison of an unbounded list")
    for x in (a, b):
        if isinstance(x, (SInt, SBool, Seq, MBytes, SDT)):
            return False
    for x in (a, b):
        if isinstance(x, (ExcVal, Func, BoundMethod, MethodRef)):
            return a is b
    if isinstance(a, IterObj) or isinstance(b, IterObj):
        return a is b
    if isinstance(a, FrameVal) or isinstance(b, FrameVal):
        return isinstance(a, FrameVal) and isinstance(b, FrameVal) and value_eq(it, a.g, b.g)
    try:
        return bool(a == b)
    except Exception as e:
        raise ToolError("comparison %r" % e)


def identical(it, a, b):
    if a is b:
        return True
    if isinstance(a, SBool) and isinstance(b, bool):
        return mkbool(a.t if b else z3.Not(a.t))
    if isinstance(b, SBool) and isinstance(a, bool):
        return identical(it, b, a)
    for x in (a, b):
        if x is None or isinstance(x, (type, Inst, Func)) or x is NotImplemented:
            return False
    if isinstance(a, (BoundMethod,)) or isinstance(b, BoundMethod):
        return False
    if isinstance(a, SReal) or isinstance(b, SReal):
        raise ToolError("identity of real numbers")
    if isnum(a) and isnum(b):
        if isinstance(a, (SInt,)) or isinstance(b, SInt):
            core.C.inexact.append("identity of integers")
            return int_cmp(ast.Eq, a, b)
        return a == b and type(a) is type(b)
    return False


def compare(it, op, a, b):
    if op is ast.Is:
        return identical(it, a, b)
    if op is ast.IsNot:
        return unop(it, ast.Not, identical(it, a, b))
    if op is ast.Eq:
        return value_eq(it, a, b)
    if op is ast.NotEq:
        return unop(it, ast.Not, value_eq(it, a, b))
    if op is ast.In:
        return contains(it, b, a)
    if op is ast.NotIn:
        return unop(it, ast.Not, contains(it, b, a))
    if isnum(a) and isnum(b):
        return int_cmp(op, a, b)
    if isinstance(a, SReal) or isinstance(b, SReal):
        r = real_cmp(op, a, b)
        if r is None:
            py_raise(TypeError, "ordering of a number and something else")
        return r
    if isinstance(a, (SDT, _dt.datetime)) and isinstance(b, (SDT, _dt.datetime)) and (isinstance(a, SDT) or isinstance(b, SDT)):
        if zone_of(a) is not zone_of(b) and is_aware(a) != is_aware(b):
            py_raise(TypeError, "can't compare offset-naive and offset-aware datetimes")
        la = list(dt_fields(a).values())
        lb = list(dt_fields(b).values())
        for x, y in zip(la, lb):
            if truth(it, int_cmp(ast.Lt, x, y)):
                return op in (ast.Lt, ast.LtE)
            if truth(it, int_cmp(ast.Gt, x, y)):
                return op in (ast.Gt, ast.GtE)
        return op in (ast.LtE, ast.GtE)
    x, y = to_py(a), to_py(b)
    if x is NOTNATIVE or y is NOTNATIVE:
        if a is None or b is None:
            py_raise(TypeError, "ordering with None")
        if isinstance(a, App) or isinstance(b, App):
            core.C.inexact.append("ordering of opaque values")
            return SBool(z3.Bool("ORD%s<%s;%s>" % (op.__name__, vkey(a), vkey(b))))
        if is_seq(a) and is_seq(b):
            xs, ys = seq_bytes(seqify(a)), seq_bytes(seqify(b))
            if xs is not None and ys is not None and len(xs) == len(ys) and xs:
                ta, tb = z3.Concat(*xs) if len(xs) > 1 else xs[0], z3.Concat(*ys) if len(ys) > 1 else ys[0]
                return mkbool({ast.Lt: z3.ULT, ast.LtE: z3.ULE, ast.Gt: z3.UGT, ast.GtE: z3.UGE}[op](ta, tb))
        raise ToolError("ordering of symbolic values")
    try:
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](x, y)
    except TypeError as e:
        py_raise(TypeError, str(e))


def contains(it, c, x):
    if isinstance(c, MethodRef) and c.name in ("keys", "values"):
        c = call_method(it, c.obj, c.name, [], {})
    if isinstance(c, type) and issubclass(c, enum.Enum):
        if isnum(x):
            return contains(it, tuple(int(m) for m in c), x)
        raise ToolError("membership in enum")
    if is_seq(c):
        s = seqify(c)
        if isnum(x):
            x = mkseq("b", [U(to_bv(x, 8))]) if not isinstance(x, int) else from_native(bytes([x]))
        xs = seqify(x)
        if xs.kind != s.kind:
            py_raise(TypeError, "in")
        return seq_find(it, s, xs) is not None
    if isinstance(c, (list, tuple, set, frozenset, dict)):
        n = to_py(x)
        if isinstance(c, (set, frozenset, dict)) and n is not NOTNATIVE:
            try:
                return n in c
            except TypeError as e:
                py_raise(TypeError, str(e))
        for y in c:
            if truth(it, value_eq(it, y, x)):
                return True
        return False
    if isinstance(c, RangeVal):
        if c.step == 1 and isnum(x):
            return truth(it, int_cmp(ast.LtE, c.a, x)) and truth(it, int_cmp(ast.Lt, x, c.b))
        raise ToolError("in range with step")
    if isinstance(c, range) and isnum(x):
        if c.step == 1:
            return truth(it, int_cmp(ast.LtE, c.start, x)) and truth(it, int_cmp(ast.Lt, x, c.stop))
        return contains(it, tuple(c), x)
    if isinstance(c, Inst):
        raw, o = it.class_lookup(c.cls, "__contains__")
        if o is not None:
            return it.call(raw, [c, x], {})
    if isinstance(c, (IterObj,)):
        for y in it.iterate(c):
            if truth(it, value_eq(it, y, x)):
                return True
        return False
    if isinstance(c, types.MappingProxyType):
        return contains(it, dict(c), x)
    n, m = to_py(c), to_py(x)
    if n is NOTNATIVE or m is NOTNATIVE:
        raise ToolError("membership test")
    try:
        return m in n
    except TypeError as e:
        py_raise(TypeError, str(e))


# ------------------------------------------------------------------ arithmetic
def unop(it, op, v):
    if op is ast.Not:
        if isinstance(v, SBool):
            return mkbool(z3.Not(v.t))
        return not truth(it, v)
    v = num(v)
    if isinstance(v, SInt):
        if op is ast.UAdd:
            return SInt(v.kind, v.t, v.lo, v.hi)
        if op is ast.USub:
            return mkint("int", -to_int_term(v), None if v.hi is None else -v.hi, None if v.lo is None else -v.lo)
        if op is ast.Invert:
            return mkint("int", -to_int_term(v) - 1, None if v.hi is None else -v.hi - 1, None if v.lo is None else -v.lo - 1)
    if isinstance(v, SReal):
        if op is ast.Invert:
            py_raise(TypeError, "bad operand")
        return v if op is ast.UAdd else core.mkreal(-v.t)
    n = to_py(v)
    if n is NOTNATIVE:
        if isinstance(v, App):
            return App("NEG", (v,), v.type)
        raise ToolError("unary operator")
    try:
        return {ast.UAdd: operator.pos, ast.USub: operator.neg, ast.Invert: operator.invert}[op](n)
    except TypeError as e:
        py_raise(TypeError, str(e))


OPN = {
    ast.Add: operator.add,
    ast.Sub: operator.sub,
    ast.Mult: operator.mul,
    ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod,
    ast.Div: operator.truediv,
    ast.Pow: operator.pow,
    ast.LShift: operator.lshift,
    ast.RShift: operator.rshift,
    ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_,
    ast.BitXor: operator.xor,
}


def binop(it, op, a, b):
    sym = isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool))
    if sym and isnum(a) and isnum(b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            x = z3.BoolVal(a) if isinstance(a, bool) else a.t
            y = z3.BoolVal(b) if isinstance(b, bool) else b.t
            return mkbool({ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op](x, y))
        return int_op(it, op, num(a), num(b))
    if isinstance(a, SReal) or isinstance(b, SReal):
        if not all(isnum(x) or isinstance(x, (SReal, float)) for x in (a, b)):
            py_raise(TypeError, "unsupported operand")
        return real_op(it, op, a, b)
    if is_seq(a) and is_seq(b) and op is ast.Add:
        ka = "s" if (isinstance(a, str) or (isinstance(a, Seq) and a.kind == "s")) else "b"
        kb = "s" if (isinstance(b, str) or (isinstance(b, Seq) and b.kind == "s")) else "b"
        if ka != kb:
            py_raise(TypeError, "can't concat")
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return a + b
        r = concat(ka, [seqify(a), seqify(b)])
        return MBytes(r) if isinstance(a, MBytes) else out_seq(r)
    if op is ast.Mult and (is_seq(a) or is_seq(b)) and (isnum(a) or isnum(b)):
        if isnum(a):
            a, b = b, a
        if isinstance(b, int):
            r = concat(seqify(a).kind, [seqify(a)] * max(0, b))
        else:
            s = seqify(a)
            bs = seq_bytes(s)
            if bs is not None and len(bs) == 1 and b.lo is not None and b.lo >= 0 and z3.is_bv_value(bs[0]):
                return rep_seq(s.kind, bs[0].as_long(), b, isinstance(a, MBytes))
            lo, hi = int_bounds(b)
            if lo is None or hi is None or hi - lo > 64:
                raise ToolError("repetition")
            n = concretize(to_int_term(b), lo, hi)
            r = concat(s.kind, [s] * max(0, n))
        return MBytes(r) if isinstance(a, MBytes) else out_seq(r)
    if isinstance(a, list) and isinstance(b, list) and op is ast.Add:
        return a + b
    if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
        return a + b
    if isinstance(a, (list, tuple)) and isinstance(b, int) and op is ast.Mult:
        return a * b
    if isinstance(a, list) and isinstance(b, SInt) and op is ast.Mult:
        n = concretize(to_int_term(b), *int_bounds(b))
        return a * n
    if isinstance(a, SList) and isinstance(b, list) and op is ast.Add:
        return SList(a.token, a.plen, a.items + b)
    if op is ast.Add and isinstance(a, (_dt.datetime, SDT)) and isinstance(b, App) and b.type is _dt.timedelta:
        no_zone(a)
        return App("DTADD", (a, b), _dt.datetime)
    if op is ast.Add and isinstance(b, (_dt.datetime, SDT)) and isinstance(a, App) and a.type is _dt.timedelta:
        no_zone(b)
        return App("DTADD", (b, a), _dt.datetime)
    if op is ast.Sub and isinstance(a, (_dt.datetime, SDT)) and isinstance(b, App) and b.type is _dt.timedelta:
        no_zone(a)
        return App("DTSUB", (a, b), _dt.datetime)
    if op is ast.BitOr and (isinstance(a, type) or isinstance(b, type)):
        return a | b
    if op is ast.Mod and (isinstance(a, (str, Seq)) and not isnum(a)):
        return App("FMT", ("%", a, b), str)
    x, y = to_py(a), to_py(b)
    if x is NOTNATIVE or y is NOTNATIVE:
        if isinstance(a, Inst):
            nm = {ast.Add: "__add__", ast.Sub: "__sub__"}.get(op)
            raw, o = it.class_lookup(a.cls, nm) if nm else (None, None)
            if o is not None:
                return it.call(raw, [a, b], {})
        if (isinstance(a, App) and a.type is float) or (isinstance(b, App) and b.type is float):
            return App("F" + op.__name__, (a, b), float)
        ta, tb = class_of(a), class_of(b)
        if (ta in (str, bytes, bytearray) and (tb in (int, bool, type(None), list))) or (a is None or b is None):
            py_raise(TypeError, "unsupported operand")
        raise ToolError("operator %s on %s and %s" % (op.__name__, ta, tb))
    try:
        return from_py(it, OPN[op](x, y))
    except Exception as e:
        raise PyRaise(ExcVal(type(e), e.args))


def rep_seq(kind, byte, n, mutable):
    b = Base("rep%d*%s" % (byte, vkey(n)), to_int_term(n))
    b.at = lambda i: z3.BitVecVal(byte, 8)
    b.absent = lambda x: x != byte
    s = mkseq(kind, [Sub(b, 0, simp(to_int_term(n)))])
    return MBytes(s) if mutable else s


def _bound(f, *bs):
    vals = []
    for a in bs:
        if a is None:
            return None
        vals.append(a)
    return f(*vals)


def int_op(it, op, a, b):
    la, ha = int_bounds(a)
    lb, hb = int_bounds(b)
    isbv = (isinstance(a, int) or a.kind == "bv") and (isinstance(b, int) or b.kind == "bv")
    nonneg = la is not None and la >= 0 and lb is not None and lb >= 0
    wa = bv_width(a) if isinstance(a, int) and a >= 0 else (a.t.size() if isinstance(a, SInt) and a.kind == "bv" else None)
    wb = bv_width(b) if isinstance(b, int) and b >= 0 else (b.t.size() if isinstance(b, SInt) and b.kind == "bv" else None)
    if op is ast.Add:
        lo = _bound(lambda x, y: x + y, la, lb)
        hi = _bound(lambda x, y: x + y, ha, hb)
        if isbv and nonneg and max(wa, wb) < 160:
            w = max(1, hi.bit_length())
            x, y = z3.simplify(to_bv(a, max(wa, wb))), z3.simplify(to_bv(b, max(wa, wb)))
            if possible_bits(x) & possible_bits(y) == 0:
                return mkint("bv", _narrow(x | y, w), lo, hi)
            r = mkint("bv", to_bv(a, w) + to_bv(b, w) if w >= max(wa, wb) else _narrow(to_bv(a, max(wa, wb)) + to_bv(b, max(wa, wb)), w), lo, hi)
            return set_lin(r, [(1, a), (1, b)])
        return mkint("int", to_int_term(a) + to_int_term(b), lo, hi)
    if op is ast.Sub:
        lo = _bound(lambda x, y: x - y, la, hb)
        hi = _bound(lambda x, y: x - y, ha, lb)
        if isbv and nonneg and lo is not None and lo >= 0:
            w = max(wa, wb)
            return mkint("bv", to_bv(a, w) - to_bv(b, w), lo, hi)
        return mkint("int", to_int_term(a) - to_int_term(b), lo, hi)
    if op is ast.Mult:
        if isbv and nonneg and wa + wb <= 160:
            w = wa + wb
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y > 0 and y & (y - 1) == 0 and isinstance(x, SInt):
                    n = y.bit_length() - 1
                    return mkint("bv", z3.Concat(x.t, z3.BitVecVal(0, n)) if n else x.t, la * lb, ha * hb)
            r = mkint("bv", to_bv(a, w) * to_bv(b, w), la * lb, ha * hb)
            if isinstance(a, int):
                return set_lin(r, [(a, b)])
            if isinstance(b, int):
                return set_lin(r, [(b, a)])
            return r
        if isinstance(a, SInt) and isinstance(b, SInt) and not isbv:
            raise ToolError("non-linear arithmetic")
        lo = hi = None
        if None not in (la, ha, lb, hb):
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
        return mkint("int", to_int_term(a) * to_int_term(b), lo, hi)
    if op in (ast.FloorDiv, ast.Mod):
        if isinstance(b, int):
            if b == 0:
                py_raise(ZeroDivisionError)
            if b < 0:
                raise ToolError("negative divisor")
            if isbv and nonneg:
                w = max(wa, wb)
                x, y = to_bv(a, w), to_bv(b, w)
                if op is ast.FloorDiv:
                    return mkint("bv", z3.UDiv(x, y), la // b, ha // b)
                return mkint("bv", _narrow(z3.URem(x, y), min(w, bv_width(b))), 0, min(b - 1, ha))
            x = to_int_term(a)
            if op is ast.FloorDiv:
                return mkint("int", core.int_divmod(x, b)[0], None if la is None else la // b, None if ha is None else ha // b)
            return mkint("int", core.int_divmod(x, b)[1], 0, b - 1)
        if isbv and nonneg and lb > 0:
            w = max(wa, wb)
            x, y = to_bv(a, w), to_bv(b, w)
            return mkint("bv", z3.UDiv(x, y) if op is ast.FloorDiv else z3.URem(x, y))
        raise ToolError("division by a symbolic value")
    if op is ast.Div:
        return App("DIV", (a, b), float)
    if op in (ast.LShift, ast.RShift):
        if isinstance(b, int):
            if b < 0:
                py_raise(ValueError, "negative shift count")
            if isinstance(a, SInt) and a.kind == "int":
                if op is ast.LShift:
                    return mkint("int", a.t * (1 << b), None if la is None else la << b, None if ha is None else ha << b)
                return mkint("int", core.int_divmod(a.t, 1 << b)[0], None if la is None else la >> b, None if ha is None else ha >> b)
            if op is ast.LShift:
                if wa + b > 512:
                    raise ToolError("wide shift")
                return mkint("bv", to_bv(a, wa + b) << b, la << b, ha << b)
            if b >= wa:
                return 0
            return mkint("bv", z3.Extract(wa - 1, b, a.t), la >> b, ha >> b)
        if nonneg and hb is not None and hb <= 64 and wa is not None and wb is not None:
            if op is ast.LShift:
                w = wa + hb
                return mkint("bv", to_bv(a, w) << to_bv(b, w), 0, ha << hb)
            w = max(wa, wb)
            return mkint("bv", z3.LShR(to_bv(a, w), to_bv(b, w)), 0, ha)
        raise ToolError("symbolic shift")
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if op is ast.BitAnd:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y >= 0 and isinstance(x, SInt) and x.kind == "int":
                    if y & (y + 1) == 0:
                        if y == 0:
                            return 0
                        if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= y:
                            return x
                        k = y.bit_length()
                        if k <= 64:
                            t = to_bv(SInt("int", core.int_divmod(x.t, y + 1)[1], 0, y), k)
                            return mkint("bv", t)
                        return mkint("int", core.int_divmod(x.t, y + 1)[1], 0, y)
                    k = y.bit_length()
                    t = to_bv(SInt("int", core.int_divmod(x.t, 1 << k)[1], 0, (1 << k) - 1), k)
                    return mkint("bv", t & z3.BitVecVal(y, k))
                if isinstance(y, int) and y < 0 and isinstance(x, SInt) and x.kind == "bv":
                    return mkint("bv", x.t & z3.BitVecVal(y & ((1 << x.t.size()) - 1), x.t.size()))
        if nonneg and ha is not None and hb is not None:
            w = max(bv_width(ha), bv_width(hb), wa or 1, wb or 1)
            x, y = to_bv(a, w), to_bv(b, w)
            if op is ast.BitAnd:
                r = x & y
                m = min(bv_width(ha), bv_width(hb))
                return mkint("bv", _narrow(r, m), 0, min(ha, hb))
            r = (x | y) if op is ast.BitOr else (x ^ y)
            m = max(bv_width(ha), bv_width(hb))
            return mkint("bv", _narrow(r, m), 0, (1 << m) - 1)
        raise ToolError("bit operation on a possibly negative value")
    if op is ast.Pow:
        if isinstance(a, int) and isinstance(b, SInt) and a == 2:
            return int_op(it, ast.LShift, 1, b)
        if isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = binop(it, ast.Mult, r, a)
            return r
    raise ToolError("integer operator %s" % op.__name__)


def possible_bits(t):
    """mask of the bits of a bit-vector term that are not syntactically zero"""
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_app_of(t, z3.Z3_OP_CONCAT):
        m = 0
        for c in t.children():
            m = (m << c.size()) | possible_bits(c)
        return m
    if z3.is_app_of(t, z3.Z3_OP_BOR):
        m = 0
        for c in t.children():
            m |= possible_bits(c)
        return m
    return (1 << t.size()) - 1


def _narrow(t, w):
    if t.size() > w:
        return z3.Extract(w - 1, 0, t)
    return t


def inplace(it, op, a, b):
    if isinstance(a, MBytes):
        if op is ast.Add:
            if isinstance(b, (Seq, bytes, MBytes)):
                if isinstance(b, Seq) and b.kind == "s":
                    py_raise(TypeError, "can't concat str to bytearray")
                a.seq = concat("b", [a.seq, seqify(b)])
                return a
            if is_seq(b) or isnum(b) or b is None:
                py_raise(TypeError, "can't concat")
            call_method(it, a, "extend", [b], {})
            return a
        if op is ast.Mult:
            r = binop(it, op, a, b)
            a.seq = r.seq
            return a
    if isinstance(a, list) and op is ast.Add:
        a.extend(it.iterate(b))
        return a
    if isinstance(a, SList) and op is ast.Add:
        a.items.extend(it.iterate(b))
        return a
    if isinstance(a, set) and op in (ast.BitOr,):
        a |= to_py(b)
        return a
    if isinstance(a, dict) and op is ast.BitOr:
        a.update(b)
        return a
    return binop(it, op, a, b)


# ------------------------------------------------------------------ subscripts
def idx_term(it, i):
    if isinstance(i, (bool, int)):
        return int(i)
    if isinstance(i, SBool):
        i = num(i)
    if isinstance(i, SInt):
        return simp(to_int_term(i))
    if i is None or is_seq(i) or isinstance(i, App):
        py_raise(TypeError, "indices must be integers")
    if isinstance(i, Inst):
        py_raise(TypeError, "indices must be integers")
    raise ToolError("index %r" % (i,))


def norm_index(it, i, n, exc=IndexError):
    """index term within 0..n-1, or raises"""
    t = idx_term(it, i)
    C = core.C
    if isinstance(t, int):
        if t >= 0:
            if C.branch(ile(n, t)):
                py_raise(exc, "index out of range")
            return t
        t2 = iadd(n, t)
        if C.branch(z3.IntVal(n) + t < 0 if isinstance(n, int) else n + t < 0):
            py_raise(exc, "index out of range")
        return t2
    if C.branch(t < 0):
        t = iadd(t, n)
        if C.branch(t < 0 if not isinstance(t, int) else t < 0):
            py_raise(exc, "index out of range")
        return t
    if C.branch(ile(n, t)):
        py_raise(exc, "index out of range")
    return t


def slice_bounds(it, sl, n):
    C = core.C

    def clamp(v, default):
        if v is None:
            return default
        t = idx_term(it, v)
        if isinstance(t, int):
            if t >= 0:
                if isinstance(n, int):
                    return min(t, n)
                return t if C.branch(ile(t, n)) else n
            if isinstance(n, int):
                return max(0, n + t)
            return 0 if C.branch(ile(n, -t)) else iadd(n, t)
        if C.branch(t < 0):
            t = iadd(t, n)
            return 0 if C.branch(ile(t, 0)) else t
        return t if C.branch(ile(t, n)) else n

    a = clamp(sl.start, 0)
    b = clamp(sl.stop, n)
    if same_term(a, b):
        return a, a
    if isinstance(a, int) and a == 0:
        return a, b
    if same_term(b, n):
        return a, b
    if C.branch(ile(b, a)):
        return a, a
    return a, b


def seq_slice(it, s, sl):
    n = s.length()
    if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1):
        if not isinstance(sl.step, int):
            raise ToolError("symbolic slice step")
        if sl.step == 0:
            py_raise(ValueError, "slice step cannot be zero")
        if not isinstance(n, int):
            raise ToolError("slice step on unbounded data")
        bs = seq_bytes(s)
        st, en = to_py(sl.start), to_py(sl.stop)
        if st is NOTNATIVE or en is NOTNATIVE:
            raise ToolError("slice with step")
        return mkseq(s.kind, [U(t) for t in bs[slice(st, en, sl.step)]])
    a, b = slice_bounds(it, sl, n)
    if same_term(a, b):
        return mkseq(s.kind, [])
    if isinstance(a, int) and a == 0 and same_term(b, n):
        return Seq(s.kind, s.segs)
    return seq_cut(s, a, b)


def getitem(it, o, i):
    if is_seq(o):
        if isinstance(o, (str, bytes)):
            ni = to_py_slice(i)
            if ni is not NOTNATIVE:
                try:
                    return o[ni]
                except Exception as e:
                    raise PyRaise(ExcVal(type(e), e.args))
        s = seqify(o)
        if isinstance(i, slice):
            r = seq_slice(it, s, i)
            return MBytes(r) if isinstance(o, MBytes) else out_seq(r)
        k = norm_index(it, i, s.length())
        t = seq_at(s, k)
        if s.kind == "s":
            return out_seq(mkseq("s", [U(z3.simplify(t))]))
        return byte_value(t)
    if isinstance(o, (list, tuple)):
        ni = to_py_slice(i)
        if ni is not NOTNATIVE:
            if not isinstance(ni, (int, slice)):
                py_raise(TypeError, "list indices must be integers or slices")
            try:
                return o[ni]
            except IndexError:
                py_raise(IndexError, "list index out of range")
        if isinstance(i, slice):
            raise ToolError("symbolic slice of a list")
        k = norm_index(it, i, len(o))
        if isinstance(k, int):
            return o[k]
        if all(isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in o):
            w = max(bv_width(max(o)), 1)
            if isinstance(i, SInt) and i.kind == "bv" and len(o) > (i.hi or 0) and i.t.size() <= 10:
                return mkint("bv", mux(i.t, list(o) if len(o) == 1 << i.t.size() else list(o)[: 1 << i.t.size()], w), min(o), max(o))
            t = z3.BitVecVal(o[-1], w)
            for j in range(len(o) - 2, -1, -1):
                t = z3.If(k == j, z3.BitVecVal(o[j], w), t)
            return mkint("bv", t, min(o), max(o))
        for j in range(len(o) - 1):
            if core.C.branch(k == j):
                return o[j]
        return o[-1]
    if isinstance(o, SList):
        if isinstance(i, int) and i < 0 and -i <= len(o.items):
            return o.items[i]
        raise ToolError("element of an unbounded list")
    if isinstance(o, (dict, types.MappingProxyType)):
        n = to_py(i)
        if n is not NOTNATIVE:
            try:
                if n in o:
                    return it.wrap(o[n])
            except TypeError as e:
                py_raise(TypeError, str(e))
            if hasattr(type(o), "__missing__"):
                raise ToolError("defaultdict")
            py_raise(KeyError, n)
        if isinstance(i, Inst):
            if i in o:
                return o[i]
            py_raise(KeyError, "inst")
        for k in o:
            if truth(it, value_eq(it, k, i)):
                return it.wrap(o[k])
        py_raise(KeyError, "symbolic")
    if isinstance(o, type):
        if issubclass(o, enum.Enum):
            n = to_py(i)
            if n is NOTNATIVE:
                raise ToolError("enum by symbolic name")
            try:
                return o[n]
            except KeyError:
                py_raise(KeyError, n)
        return o  # generic alias
    if isinstance(o, Inst):
        raw, own = it.class_lookup(o.cls, "__getitem__")
        if own is not None:
            return it.call(raw, [o, i], {})
        py_raise(TypeError, "not subscriptable")
    if isinstance(o, RangeVal):
        if isinstance(i, int) and i >= 0:
            return binop(it, ast.Add, o.a, binop(it, ast.Mult, i, o.step))
        raise ToolError("range index")
    if o is None or isinstance(o, (SInt, SReal, SBool, bool, int, float, SDT)):
        py_raise(TypeError, "object is not subscriptable")
    if isinstance(o, App):
        raise ToolError("subscript of an opaque value")
    n, m = to_py(o), to_py_slice(i)
    if n is NOTNATIVE or m is NOTNATIVE:
        raise ToolError("subscript")
    try:
        return from_py(it, n[m])
    except Exception as e:
        raise PyRaise(ExcVal(type(e), e.args))


def to_py_slice(i):
    if isinstance(i, slice):
        p = [to_py(x) for x in (i.start, i.stop, i.step)]
        return NOTNATIVE if any(x is NOTNATIVE for x in p) else slice(*p)
    return to_py(i)


def byte_of(it, v, what="byte must be in range(0, 256)"):
    """value -> bv8 term, raising ValueError / TypeError as bytearray does"""
    v = num(v)
    if isinstance(v, int):
        if not 0 <= v <= 255:
            py_raise(ValueError, what)
        return z3.BitVecVal(int(v), 8)
    if isinstance(v, SInt):
        lo, hi = int_bounds(v)
        if lo is None or lo < 0 or hi is None or hi > 255:
            if not truth(it, int_cmp(ast.LtE, 0, v)) or not truth(it, int_cmp(ast.LtE, v, 255)):
                py_raise(ValueError, what)
            if v.kind == "int":
                return to_bv(SInt("int", v.t, 0, 255), 8)
        return to_bv(v, 8)
    if v is None or is_seq(v) or isinstance(v, (float, tuple, list, Inst, SDT)) or (isinstance(v, App) and v.type in (float, str, bytes)):
        py_raise(TypeError, "an integer is required")
    raise ToolError("byte value %r" % (v,))


def setitem(it, o, i, v):
    if isinstance(o, MBytes):
        s = o.seq
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise ToolError("slice assignment with step")
            a, b = slice_bounds(it, i, s.length())
            if not is_seq(v):
                v = mkseq("b", [U(byte_of(it, x)) for x in it.iterate(v)])
            o.seq = concat("b", [seq_cut(s, 0, a) if not same_term(a, 0) else mkseq("b", []), seqify(v), seq_cut(s, b, s.length()) if not same_term(b, s.length()) else mkseq("b", [])])
            return
        k = norm_index(it, i, s.length())
        t = byte_of(it, v)
        k1 = iadd(k, 1)
        o.seq = concat("b", [seq_cut(s, 0, k), mkseq("b", [U(t)]), seq_cut(s, k1, s.length())])
        return
    if isinstance(o, list):
        n = to_py_slice(i)
        if n is NOTNATIVE:
            if isinstance(i, SInt):
                k = norm_index(it, i, len(o))
                k = concretize(k, 0, len(o) - 1)
                o[k] = v
                return
            raise ToolError("symbolic list assignment")
        try:
            if isinstance(n, slice):
                o[n] = it.iterate(v)
            else:
                o[n] = v
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
        return
    if isinstance(o, dict):
        n = to_py(i)
        if n is NOTNATIVE:
            if isinstance(i, Inst):
                o[i] = v
                return
            if isinstance(i, SInt) and i.cls:
                for m in i.cls:
                    if truth(it, value_eq(it, m, i)):
                        o[m] = v
                        return
            raise ToolError("symbolic dictionary key")
        o[n] = v
        return
    if isinstance(o, Inst):
        raw, own = it.class_lookup(o.cls, "__setitem__")
        if own is not None:
            it.call(raw, [o, i, v], {})
            return
    if is_seq(o) or isinstance(o, tuple) or o is None:
        py_raise(TypeError, "does not support item assignment")
    raise ToolError("item assignment on %r" % (class_of(o),))


def delitem(it, o, i):
    if isinstance(o, MBytes):
        s = o.seq
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise ToolError("slice deletion with step")
            a, b = slice_bounds(it, i, s.length())
            o.seq = concat("b", [seq_cut(s, 0, a) if not same_term(a, 0) else mkseq("b", []), seq_cut(s, b, s.length()) if not same_term(b, s.length()) else mkseq("b", [])])
            return
        k = norm_index(it, i, s.length())
        o.seq = concat("b", [seq_cut(s, 0, k) if not same_term(k, 0) else mkseq("b", []), seq_cut(s, iadd(k, 1), s.length())])
        return
    if isinstance(o, (list, dict)):
        n = to_py_slice(i)
        if n is NOTNATIVE:
            raise ToolError("symbolic deletion")
        try:
            del o[n]
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
        return
    raise ToolError("deletion")


# ------------------------------------------------------------------ iteration
def get_iter(it, v):
    if isinstance(v, IterObj):
        return v
    if isinstance(v, (Seq, MBytes, bytes, str)):
        return IterObj("seq", v)
    if isinstance(v, (list, tuple)):
        return IterObj("list", v)
    if isinstance(v, range):
        return IterObj("range", RangeVal(v.start, v.stop, v.step))
    if isinstance(v, RangeVal):
        return IterObj("range", v)
    if isinstance(v, dict):
        return IterObj("list", list(v))
    if isinstance(v, (set, frozenset)):
        return IterObj("list", sorted(v, key=repr))
    if isinstance(v, type) and issubclass(v, enum.Enum):
        return IterObj("list", list(v))
    if isinstance(v, SList):
        raise ToolError("iteration over an unbounded list")
    if isinstance(v, Inst):
        raw, own = it.class_lookup(v.cls, "__iter__")
        if own is not None:
            return get_iter(it, it.call(raw, [v], {}))
        raw, own = it.class_lookup(v.cls, "__next__")
        if own is not None:
            return IterObj("next", v)
        py_raise(TypeError, "not iterable")
    if v is None or isinstance(v, (int, SInt, SReal, SBool, float, Func, SDT)):
        py_raise(TypeError, "object is not iterable")
    if isinstance(v, App):
        raise ToolError("iteration over an opaque value")
    try:
        return IterObj("list", [from_py(it, x) for x in list(v)])
    except TypeError:
        py_raise(TypeError, "not iterable")


def iter_next(it, o):
    """(True, value) or (False, None)"""
    C = core.C
    if isinstance(o, Inst):
        return iter_next(it, IterObj("next", o))
    if o.pos is None:
        return False, None
    if o.kind == "seq":
        s = seqify(o.src)  # a bytearray may change while it is iterated
        n = s.length()
        p = o.pos if isinstance(o.pos, int) else simp(o.pos)
        if C.branch(ile(n, p)):
            o.pos = None
            return False, None
        t = seq_at(s, p)
        o.pos = iadd(p, 1)
        return True, (out_seq(mkseq("s", [U(t)])) if s.kind == "s" else byte_value(t))
    if o.kind == "list":
        if isinstance(o.src, SList):
            raise ToolError("iteration over an unbounded list")
        if not isinstance(o.pos, int):
            raise ToolError("symbolic position in a list")
        if o.pos >= len(o.src):
            o.pos = None
            return False, None
        v = o.src[o.pos]
        o.pos += 1
        return True, v
    if o.kind == "range":
        r = o.src
        if not isinstance(r.step, int) or r.step == 0:
            raise ToolError("range step")
        p = o.pos if isinstance(o.pos, int) else sint_of(o.pos, 0)
        cur = binop(it, ast.Add, r.a, binop(it, ast.Mult, p, r.step))
        more = int_cmp(ast.Lt, cur, r.b) if r.step > 0 else int_cmp(ast.Gt, cur, r.b)
        if not truth(it, more):
            o.pos = None
            return False, None
        o.pos = iadd(o.pos, 1)
        return True, cur
    if o.kind == "enumerate":
        ok, v = iter_next(it, o.src)
        if not ok:
            o.pos = None
            return False, None
        p = o.pos
        o.pos = iadd(p, 1)
        return True, (binop(it, ast.Add, sint_of(p, 0) if not isinstance(p, int) else p, o.extra), v)
    if o.kind == "zip":
        vals = []
        for s in o.src:
            ok, v = iter_next(it, s)
            if not ok:
                o.pos = None
                return False, None
            vals.append(v)
        return True, tuple(vals)
    if o.kind == "map":
        vals = []
        for s in o.src:
            ok, v = iter_next(it, s)
            if not ok:
                o.pos = None
                return False, None
            vals.append(v)
        return True, it.call(o.extra, vals, {})
    if o.kind == "filter":
        while True:
            ok, v = iter_next(it, o.src)
            if not ok:
                o.pos = None
                return False, None
            if truth(it, v if o.extra is None else it.call(o.extra, [v], {})):
                return True, v
    if o.kind == "rev":
        s = seqify(o.src)
        n = s.length()
        if C.branch(ile(n, o.pos)):
            o.pos = None
            return False, None
        t = seq_at(s, isub(isub(n, 1), o.pos))
        o.pos = iadd(o.pos, 1)
        return True, (out_seq(mkseq("s", [U(t)])) if s.kind == "s" else byte_value(t))
    if o.kind == "chain":
        while o.src:
            ok, v = iter_next(it, o.src[0])
            if ok:
                return True, v
            o.src = o.src[1:]
        o.pos = None
        return False, None
    if o.kind == "callable":
        v = it.call(o.src, [], {})
        if truth(it, value_eq(it, v, o.extra)):
            o.pos = None
            return False, None
        return True, v
    if o.kind == "next":
        raw, own = it.class_lookup(o.src.cls, "__next__")
        try:
            return True, it.call(raw, [o.src], {})
        except PyRaise as e:
            if issubclass(e.exc.cls, StopIteration):
                return False, None
            raise
    if o.kind == "chunks":
        s = seqify(o.src)
        n = s.length()
        if C.branch(ile(n, o.pos)):
            o.pos = None
            return False, None
        v = it.call(o.extra[1], [out_seq(seq_cut(s, o.pos, iadd(o.pos, o.extra[0])))], {})
        o.pos = iadd(o.pos, o.extra[0])
        return True, v
    raise ToolError("iterator %s" % o.kind)


def comp_shortcut(it, e, fr):
    return None


# ------------------------------------------------------------------ searching / mapping
def seq_find(it, s, pat, start=0, memo=True):
    """Position of the first occurrence of pat in s at or after start, or None (forks)."""
    C = core.C
    pb = seq_bytes(pat)
    if pb is None:
        raise ToolError("search for an unbounded pattern")
    if not pb:
        return start
    if len(pb) > 1:
        b = seq_bytes(s)
        if b is None:
            raise ToolError("multi-byte search in unbounded data")
        for j in range(idx_const(start), len(b) - len(pb) + 1):
            if C.branch(core._conj([x == y for x, y in zip(b[j : j + len(pb)], pb)])):
                return j
        return None
    byte = z3.simplify(pb[0])
    key = ("find", s.key(), byte.get_id(), str(start))
    C.memo[("keep", byte.get_id())] = byte
    if key in C.memo:
        return C.memo[key]
    r = _find1(s, byte, start)
    C.memo[key] = r
    return r


def idx_const(x):
    if not isinstance(x, int):
        raise ToolError("symbolic start index")
    return x


def _find1(s, byte, start):
    C = core.C
    cut = s if same_term(start, 0) else seq_cut(s, start, s.length())
    pos = start
    const = byte.as_long() if z3.is_bv_value(byte) else None
    for g in cut.segs:
        n = seg_len(g)
        if isinstance(g, bytes):
            if const is not None:
                j = g.find(bytes([const]))
                if j >= 0:
                    return iadd(pos, j)
            else:
                for j, x in enumerate(g):
                    if C.branch(byte == x):
                        return iadd(pos, j)
        elif isinstance(g, U):
            if C.branch(z3.simplify(g.t == byte)):
                return pos
        else:
            if const is not None and g.base.absent(const):
                pos = iadd(pos, n)
                continue
            if const is not None and _no_fact(g.base, g.off, iadd(g.off, n), const):
                pos = iadd(pos, n)
                continue
            if isinstance(n, int) and n <= 64:
                for j in range(n):
                    if C.branch(z3.simplify(g.base.at(iadd(g.off, j)) == byte)):
                        return iadd(pos, j)
            else:
                p = z3.Bool(C.fresh("has"))
                k = z3.Int(C.fresh("pos"))
                if C.branch(p):
                    C.assume(z3.And(k >= 0, k < n, g.base.at(iadd(g.off, k)) == byte))
                    if const is not None:
                        add_nofact(g.base, g.off, iadd(g.off, k), const)
                    return iadd(pos, k)
                if const is not None:
                    add_nofact(g.base, g.off, iadd(g.off, n), const)
        pos = iadd(pos, n)
    return None


def _no_fact(base, lo, hi, byte):
    C = core.C
    for bk, a, b, c in C.nofacts:
        if bk == base.key and c == byte:
            if C.known(z3.And(a <= lo, hi <= b)):
                return True
    return False


def seq_rfind(it, s, pat):
    C = core.C
    pb = seq_bytes(pat)
    if pb is None or len(pb) != 1 or not z3.is_bv_value(pb[0]):
        raise ToolError("rfind pattern")
    const = pb[0].as_long()
    key = ("rfind", s.key(), const)
    if key in C.memo:
        return C.memo[key]
    end = s.length()
    r = None
    for g in reversed(s.segs):
        n = seg_len(g)
        beg = isub(end, n)
        if isinstance(g, bytes):
            j = g.rfind(bytes([const]))
            if j >= 0:
                r = iadd(beg, j)
                break
        elif isinstance(g, U):
            if C.branch(z3.simplify(g.t == const)):
                r = beg
                break
        elif not g.base.absent(const):
            if isinstance(n, int) and n <= 64:
                hit = False
                for j in range(n - 1, -1, -1):
                    if C.branch(z3.simplify(g.base.at(iadd(g.off, j)) == const)):
                        r = iadd(beg, j)
                        hit = True
                        break
                if hit:
                    break
            else:
                p = z3.Bool(C.fresh("has"))
                k = z3.Int(C.fresh("rpos"))
                off = g.off if not isinstance(g.off, int) else z3.IntVal(g.off)
                if C.branch(p):
                    C.assume(z3.And(k >= 0, k < n, g.base.at(iadd(g.off, k)) == const))
                    add_nofact(g.base, off + k + 1, iadd(g.off, n), const)
                    r = iadd(beg, k)
                    break
                add_nofact(g.base, off, iadd(g.off, n), const)
        end = beg
    C.memo[key] = r
    return r


def seq_map(s, table, split=False):
    """concatenation of table[b] for the bytes b of s (table: 256 byte strings)"""
    C = core.C
    if all(t == bytes([i]) for i, t in enumerate(table)):
        return Seq(s.kind, s.segs)
    if not split and len({len(t) for t in table}) > 1 and not all(isinstance(g, bytes) for g in s.segs):
        if not any(isinstance(g, Sub) and isinstance(g.base, MapBase) and not g.base.one for g in s.segs):
            C.inexact.append("byte by byte image of unknown data")
            return mkseq(s.kind, _mapseg(mkseq(s.kind, s.segs), tuple(table)))
    segs = []
    todo = []
    for g in s.segs:
        if isinstance(g, Sub) and isinstance(g.len, int) and g.len <= 1:
            todo.extend(U(g.base.at(iadd(g.off, j))) for j in range(g.len))
        else:
            todo.append(g)
    for g in todo:
        if isinstance(g, bytes):
            segs.append(b"".join(table[x] for x in g))
        elif isinstance(g, U):
            lens = sorted({len(t) for t in table})
            if len(lens) == 1:
                for j in range(lens[0]):
                    segs.append(U(z3.simplify(mux(g.t, [t[j] for t in table], 8))))
            else:
                done = False
                for L in lens:
                    vals = [i for i, t in enumerate(table) if len(t) == L]
                    cond = in_set(g.t, vals)
                    if L == lens[-1] or C.branch(cond):
                        if L == lens[-1]:
                            pass
                        for j in range(L):
                            segs.append(U(z3.simplify(mux(g.t, [t[j] if len(t) == L else 0 for t in table], 8))))
                        done = True
                        break
        else:
            b = g.base
            if isinstance(b, MapBase) and same_term(g.off, 0) and same_term(g.len, b.length):
                t2 = tuple(b"".join(table[x] for x in t) for t in b.table)
                segs.extend(_mapseg(b.inner, t2))
            else:
                inner = mkseq(s.kind, [g])
                segs.extend(_mapseg(inner, tuple(table)))
    return mkseq(s.kind, segs)


def in_set(t, vals):
    """bv8 term in a set of values"""
    vs = set(vals)
    n = 1 << t.size()
    return mux(t, [1 if i in vs else 0 for i in range(n)], 1) == 1


def _mapseg(inner, table):
    C = core.C
    ident = all(t == bytes([i]) for i, t in enumerate(table))
    if ident:
        return list(inner.segs)
    import hashlib

    h = hashlib.sha1(repr(table).encode()).hexdigest()[:12]
    key = "map%s(%s)" % (h, inner.key())
    b = C.memo.get(("base", key))
    if b is None:
        n = inner.length()
        if all(len(t) == 1 for t in table):
            ln = n
        else:
            ln = z3.Int("len<%s>" % key)
            mn, mx = min(len(t) for t in table), max(len(t) for t in table)
            C.add(z3.And(ln >= n * mn, ln <= n * mx))
        b = MapBase(key, inner, table, ln)
        C.memo[("base", key)] = b
    return [Sub(b, 0, b.length)]


def unfold_maps(a, b):
    """Splits off the first byte of mapped ropes so that both sides can be aligned."""
    C = core.C
    for _ in range(4):
        changed = False
        for x, y, first in ((a, b, True), (b, a, False)):
            keys = {g.base.key for g in y.segs if isinstance(g, Sub)}
            for j, g in enumerate(x.segs):
                if not _full_map(g) or g.base.key in keys:
                    continue
                i0 = g.base.inner.segs[0]
                if not isinstance(i0, Sub):
                    continue
                for h in list(y.segs) + [None]:
                    if h is None:
                        off = C.known(ile(i0.len, 2))
                    else:
                        if not _full_map(h) or h.base.table != g.base.table:
                            continue
                        i1 = h.base.inner.segs[0]
                        if not isinstance(i1, Sub) or i0.base is not i1.base:
                            continue
                        off = C.known(ieq(isub(i1.off, i0.off), 1))
                    if off:
                        if C.branch(ieq(i0.len, 0)):
                            new = []
                        else:
                            new = list(seq_map(mkseq(x.kind, [U(i0.base.at(i0.off))]), g.base.table, split=True).segs)
                            new += list(seq_map(mkseq(x.kind, [Sub(i0.base, iadd(i0.off, 1), isub(i0.len, 1))]), g.base.table).segs)
                        z = mkseq(x.kind, list(x.segs[:j]) + new + list(x.segs[j + 1 :]), x.cls)
                        if first:
                            a = z
                        else:
                            b = z
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
        if not changed:
            break
    return a, b


def _full_map(g):
    return isinstance(g, Sub) and isinstance(g.base, MapBase) and not g.base.one and same_term(g.off, 0) and same_term(g.len, g.base.length) and len(g.base.inner.segs) == 1


def ident_table():
    return [bytes([i]) for i in range(256)]


def seq_strip(it, s, side, chars):
    """strip bytes in chars from the sides 'l', 'r' or 'lr'"""
    C = core.C
    segs = list(s.segs)

    def edge(segs, left):
        while segs:
            g = segs[0] if left else segs[-1]
            i = 0 if left else -1
            if isinstance(g, bytes):
                t = g.lstrip(chars) if left else g.rstrip(chars)
                if t:
                    segs[i] = t
                    return True
                segs.pop(i)
            elif isinstance(g, U):
                if C.branch(in_set(g.t, list(chars))):
                    segs.pop(i)
                else:
                    return True
            else:
                return False
        return True

    done = {"l": True, "r": True}
    for sd in side:
        done[sd] = edge(segs, sd == "l")
    rest = mkseq(s.kind, segs)
    need = "".join(sd for sd in "lr" if sd in side and not done[sd])
    if not need:
        return rest
    n = rest.length()
    if isinstance(n, int) and n <= 0:
        return rest
    # opaque strip of what remains
    if len(rest.segs) == 1 and isinstance(rest.segs[0], Sub):
        g = rest.segs[0]
        b = g.base
        if isinstance(b, StripBase) and same_term(g.off, 0) and same_term(g.len, b.length) and b.chars == chars:
            need2 = "".join(sd for sd in "lr" if sd in need or sd in b.side)
            if need2 == b.side:
                return rest
            return _strip_base(b.inner, need2, chars)
    return _strip_base(rest, need, chars)


def _strip_base(inner, side, chars):
    C = core.C
    key = "strip%s%s(%s)" % (side, chars.hex(), inner.key())
    b = C.memo.get(("base", key))
    if b is None:
        n = inner.length()
        off = z3.Int("soff<%s>" % key)
        ln = z3.Int("slen<%s>" % key)
        C.add(z3.And(off >= 0, ln >= 0, off + ln <= n))
        if "l" not in side:
            C.add(off == 0)
        if "r" not in side:
            C.add(off + ln == n)
        C.inexact.append("strip of unknown content")
        b = StripBase(key, inner, side, chars, ln, off)
        C.memo[("base", key)] = b
    return mkseq(inner.kind, [Sub(b, 0, b.length)])


def hex_seq(s, kind="s"):
    b = seq_bytes(s)
    if b is None:
        inner = s
        return mkseq(kind, _mapseg(Seq("b", s.segs), tuple(b"%02x" % i for i in range(256))))
    segs = []
    for t in b:
        for hi in (True, False):
            nib = z3.Extract(7, 4, t) if hi else z3.Extract(3, 0, t)
            nib = z3.simplify(nib)
            ch = z3.simplify(mux(nib, list(b"0123456789abcdef"), 8))
            if not z3.is_bv_value(ch):
                core.C.memo[("hexdigit", ch.get_id())] = (nib, ch)
            segs.append(U(ch))
    return mkseq(kind, segs)


def parse_int(it, s, base=10):
    """int(text)"""
    C = core.C
    b = seq_bytes(s)
    if b is None:
        raise ToolError("int() of unbounded text")
    if not b:
        py_raise(ValueError, "invalid literal")
    if len(b) > 24:
        raise ToolError("int() of long text")
    special = [i for i in range(256) if (chr(i).isspace() or chr(i) in "_+-" or (chr(i).isdigit() and not 48 <= i <= 57))] + [ord(x) for x in "xXoObB" if base == 0]
    digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    vals = []
    ok = {ord(c): i for i, c in enumerate(digits)}
    ok.update({ord(c.upper()): i for i, c in enumerate(digits)})
    good, odd = [], []
    for t in b:
        e = C.memo.get(("hexdigit", t.get_id()))
        if e is not None and base in (10, 16):
            # a digit made by hex()
            if base == 10:
                good.append(z3.ULE(e[0], 9))
            vals.append(e[0])
            continue
        good.append(in_set(t, list(ok)))
        odd.append(in_set(t, special))
        vals.append(mux(t, [ok.get(i, 0) for i in range(256)], max(1, (base - 1).bit_length())))
    if not C.branch(z3.And(good)):
        if odd and C.branch(z3.Or(odd)):
            raise ToolError("int() of text with special characters")
        py_raise(ValueError, "invalid literal for int()")
    r = 0
    for v in vals:
        d = mkint("bv", v, 0, base - 1)
        r = int_op(it, ast.Add, int_op(it, ast.Mult, r, base), d) if not isinstance(r, int) or r or True else d
    return r


def int_to_text(it, v):
    """str(v)"""
    if isinstance(v, int):
        return str(v)
    lo, hi = int_bounds(v)
    if lo == 0 and hi == 255 and v.kind == "bv" and v.t.size() == 8:
        key = "dec<%d>" % v.t.get_id()
        b = core.C.memo.get(("base", key))
        if b is None:
            b = core.C.memo[("base", key)] = core.NumBase(key, v.t)
            core.C.memo[("keep", v.t.get_id())] = v.t
        return mkseq("s", [Sub(b, 0, b.length)])
    if lo is not None and hi is not None and hi - lo <= 400:
        return tabulate(it, lambda x: str(int(x)), v)
    return App("STR", (SInt(v.kind, v.t, v.lo, v.hi),), str)


def tabulate(it, fn, v):
    """fn applied to a small-range integer; result as a value (forks on exceptions/length/type)"""
    C = core.C
    lo, hi = int_bounds(v)
    if lo is None or hi is None or hi - lo > 400:
        raise ToolError("function of a large-range integer")
    groups = {}
    for x in range(lo, hi + 1):
        try:
            r = fn(v.cls(x) if v.cls else x)
            k = (type(r), len(r) if isinstance(r, (str, bytes)) else None)
        except Exception as e:
            r = e
            k = (type(e), "exc")
        groups.setdefault(k, {})[x] = r
    keys = list(groups)

    def cond(k):
        g = groups[k]
        xs = sorted(g)
        # ranges
        parts = []
        st = pv = xs[0]
        for x in xs[1:] + [None]:
            if x is None or x != pv + 1:
                parts.append((st, pv))
                st = x
            pv = x
        out = []
        for a, b in parts:
            c1 = int_cmp(ast.LtE, a, v)
            c2 = int_cmp(ast.LtE, v, b)
            out.append(z3.And(*[z3.BoolVal(c) if isinstance(c, bool) else c.t for c in (c1, c2)]))
        return z3.Or(*out) if len(out) > 1 else out[0]

    for k in keys[:-1]:
        if C.branch(cond(k)):
            break
    else:
        k = keys[-1]
    g = groups[k]
    if k[1] == "exc":
        e = next(iter(g.values()))
        raise PyRaise(ExcVal(type(e), e.args))
    w = max(1, hi.bit_length())
    if lo >= 0:
        bv = to_bv(v, w)
        if bv.size() > 9:
            raise ToolError("tabulation width")

        def pick(f, width):
            dflt = f(next(iter(g.values())))
            return z3.simplify(mux(bv, [f(g[x]) if x in g else dflt for x in range(1 << bv.size())], width))

    else:
        iv = to_int_term(v)

        def pick(f, width):
            xs = sorted(g)
            t = z3.BitVecVal(f(g[xs[-1]]), width)
            for x in xs[:-1]:
                t = z3.If(iv == x, z3.BitVecVal(f(g[x]), width), t)
            return t

    r0 = next(iter(g.values()))
    if isinstance(r0, (str, bytes)):
        n = len(r0)
        kind = "s" if isinstance(r0, str) else "b"
        enc = (lambda s: s.encode("latin-1")) if kind == "s" else (lambda s: s)
        return out_seq(mkseq(kind, [U(pick(lambda s, j=j: enc(s)[j], 8)) for j in range(n)]))
    if isinstance(r0, bool):
        return mkbool(pick(int, 1) == 1)
    if isinstance(r0, int):
        mn, mx = min(g.values()), max(g.values())
        if mn < 0:
            raise ToolError("tabulated negative")
        return mkint("bv", pick(int, bv_width(mx)), mn, mx)
    raise ToolError("tabulated %r" % type(r0))


# ------------------------------------------------------------------ text formatting (opaque)
def format_value(it, v, conversion, spec):
    if conversion in (-1, 115) and (spec == "" or spec is None):
        if isinstance(v, (str, Seq)) and not (isinstance(v, Seq) and v.kind == "b"):
            if not (isinstance(v, str) and type(v) is not str):
                return Seq(v.kind, v.segs) if isinstance(v, Seq) else v
        if isinstance(v, SInt) and v.cls is None or (type(v) is int):
            return int_to_text(it, v)
    if conversion == 114 and (isinstance(v, (Inst,)) or own_class(class_of(v))):
        return call_repr(it, v)
    if conversion == -1 and isinstance(v, Inst):
        return call_str(it, v)
    n, sp = to_py(v), to_py(spec)
    if n is NOTNATIVE or sp is NOTNATIVE:
        if isinstance(v, SInt) and sp is not NOTNATIVE and conversion == -1:
            lo, hi = int_bounds(v)
            if lo is not None and hi is not None and hi - lo <= 400:
                return tabulate(it, lambda x: format(int(x), sp), v)
        return App("FMT", (conversion, spec, v), str)
    try:
        return format({-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conversion](n), sp)
    except Exception as e:
        raise PyRaise(ExcVal(type(e), e.args))


def join_text(it, parts):
    if all(isinstance(p, (str, Seq)) for p in parts):
        try:
            return out_seq(concat("s", [seqify(p) for p in parts]))
        except ToolError:
            pass
    out = []
    for p in parts:
        if isinstance(p, App) and p.fn == "TXT":
            out.extend(p.args)
        elif not (isinstance(p, str) and p == ""):
            out.append(p)
    return App("TXT", tuple(out), str)


def call_repr(it, v):
    if isinstance(v, (Inst, Seq)) or own_class(type(v)):
        cls = class_of(v)
        raw, own = it.class_lookup(cls, "__repr__")
        if own is not None and isinstance(raw, types.FunctionType):
            if isinstance(v, Inst) and raw.__code__.co_filename.startswith("<attrs generated"):
                return attrs_repr(it, v, cls, own)
            return it.call(raw, [v], {})
        if isinstance(v, Inst):
            return App("REPR", (v,), str)
    n = to_py(v)
    if is_seq(v) and n is NOTNATIVE and not isinstance(v, MBytes):
        return App("REPR", (Seq(v.kind, v.segs),), str)
    if isinstance(v, (list, tuple, dict)):
        if isinstance(v, dict):
            return App("TXT", tuple(x for k, y in v.items() for x in (call_repr(it, k), call_repr(it, y))), str)
        return App("TXT", tuple(call_repr(it, x) for x in v), str)
    if n is NOTNATIVE:
        return App("REPR", (v,), str)
    return repr(n)


def attrs_repr(it, v, cls, own):
    """the representation generated by attrs"""
    if any(isinstance(f, ReprFrame) and f.obj is v for f in it.stack):
        return "..."
    it.stack.append(ReprFrame(v))
    try:
        parts = [cls.__qualname__.rsplit(">.", 1)[-1], "("]
        for a in _attr.fields(own):
            if a.repr is False:
                continue
            x = it.getattr(v, a.name)
            parts += ["" if len(parts) == 2 else ", ", a.name + "=", call_repr(it, x) if a.repr is True else it.call(a.repr, [x], {})]
        return join_text(it, parts + [")"])
    finally:
        it.stack.pop()


class ReprFrame:
    name = "__repr__"
    locals = {}

    def __init__(self, obj):
        self.obj = obj


def call_str(it, v):
    if isinstance(v, Inst):
        raw, own = it.class_lookup(v.cls, "__str__")
        if own is not None and isinstance(raw, types.FunctionType):
            return it.call(raw, [v], {})
        return call_repr(it, v)
    if isinstance(v, SInt):
        return int_to_text(it, SInt(v.kind, v.t, v.lo, v.hi))
    if isinstance(v, SBool):
        return "True" if truth(it, v) else "False"
    if isinstance(v, Seq) and v.kind == "s":
        return Seq("s", v.segs)
    if isinstance(v, App) and v.type is str:
        return v
    n = to_py(v)
    if n is NOTNATIVE:
        return App("FMT", (-1, "", v), str)
    return str(n)


# ------------------------------------------------------------------ attributes of symbolic values
def sym_getattr(it, o, name):
    if isinstance(o, SDT):
        if name in o.f:
            return o.f[name]
        if name in ("tzinfo",):
            return App("TZ", (o.zone,), _dt.tzinfo) if o.zone is not None and core.C.branch(o.zone) else None
        if name == "fold":
            return 0
        if name in ("min", "max", "resolution"):
            return getattr(_dt.datetime, name)
        if not hasattr(_dt.datetime, name):
            py_raise(AttributeError, name)
        return MethodRef(o, name)
    if isinstance(o, SInt):
        if o.cls is not None:
            if name == "value":
                return SInt(o.kind, o.t, o.lo, o.hi)
            if name == "name":
                return App("ENUMNAME", (o,), str)
            raw, owner = it.class_lookup(o.cls, name)
            if owner is not None and interpretable(owner.__module__):
                return it.bind(raw, owner, o, o.cls)
        if name == "real" or name == "numerator":
            return o
        if not hasattr(int, name):
            py_raise(AttributeError, name)
        return MethodRef(o, name)
    if isinstance(o, RangeVal):
        if name == "start":
            return o.a
        if name == "stop":
            return o.b
        if name == "step":
            return o.step
        return MethodRef(o, name)
    if isinstance(o, App):
        if isinstance(o.extra, dict) and name in o.extra:
            return o.extra[name]
        if o.fn == "STRUCT" and name in ("unpack", "pack", "unpack_from", "size", "iter_unpack"):
            if name == "size":
                return struct.calcsize(o.args[0])
            return MethodRef(o, name)
        if o.type is not object and not hasattr(o.type, name) and o.fn not in ("CIPHER", "CTX", "AES", "CBC"):
            py_raise(AttributeError, name)
        if o.type is _dt.datetime and name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            return App("DT." + name, (o,), int)
        return MethodRef(o, name)
    if isinstance(o, IterObj):
        return MethodRef(o, name)
    cls = class_of(o)
    if own_class(cls):
        raw, owner = it.class_lookup(cls, name)
        if owner is not None and own_class(owner):
            return it.bind(raw, owner, o, cls)
    if name == "__class__":
        return cls
    if not hasattr(cls, name):
        py_raise(AttributeError, name)
    return MethodRef(o, name)


# ------------------------------------------------------------------ methods
def call_method(it, o, name, args, kw):
    mod = type(o).__module__ or ""
    if mod.startswith("structlog"):
        if name in ("bind", "new", "unbind", "try_unbind"):
            return o
        return None
    if name.startswith("super:"):
        name = name[6:]
        if name == "__repr__":
            return App("REPR", (Seq(seqify(o).kind, seqify(o).segs),), str) if is_seq(o) else App("RAWREPR", (o,), str)
        if name in ("__str__",) and is_seq(o):
            return o
        if is_seq(o):
            o = Seq(seqify(o).kind, seqify(o).segs)
    if isinstance(o, Inst):
        if name in ("__init__", "__init_subclass__"):
            return None
        if name == "__repr__":
            return App("REPR", (o,), str)
        if name == "__eq__":
            return o is args[0]
        if name == "__setattr__":
            o.fields[args[0]] = args[1]
            return None
        if name == "__getattribute__":
            return it.getattr(o, args[0])
        if name == "__hash__":
            return id(o)
        raise ToolError("method %s of %s" % (name, o.cls.__name__))
    if isinstance(o, ExcVal):
        if name == "with_traceback":
            return o
        if name in ("__init__",):
            o.args = tuple(args)
            return None
        if name == "add_note":
            return None
        raise ToolError("method %s of an exception" % name)
    if isinstance(o, type):
        # unbound method or classmethod of a builtin
        f = getattr(o, name)
        return it.call(f, args, kw)
    if isinstance(o, (bytes, str)) or (isinstance(o, (int, float)) and not isinstance(o, bool)) or type(o) in (list, dict, set, tuple, frozenset, bool):
        pass
    if is_seq(o):
        nat = to_py(o)
        if nat is not NOTNATIVE and not isinstance(o, MBytes):
            a = [to_py(x) for x in args]
            k = {x: to_py(y) for x, y in kw.items()}
            if not any(x is NOTNATIVE for x in a) and not any(x is NOTNATIVE for x in k.values()):
                if name not in ("join",) or not isinstance(args[0], IterObj):
                    try:
                        return from_py(it, getattr(nat, name)(*a, **k))
                    except Exception as e:
                        raise PyRaise(ExcVal(type(e), e.args))
        return seq_method(it, o, name, args, kw)
    if isinstance(o, (SInt, SBool)) or (isinstance(o, int)):
        return int_method(it, o, name, args, kw)
    if isinstance(o, list):
        return list_method(it, o, name, args, kw)
    if isinstance(o, SList):
        if name == "append":
            o.items.append(args[0])
            return None
        if name == "extend":
            o.items.extend(it.iterate(args[0]))
            return None
        if name == "pop" and o.items and (not args or args[0] == -1):
            return o.items.pop()
        if name == "copy":
            return SList(o.token, o.plen, o.items, o.elem)
        raise ToolError("method %s of an unbounded list" % name)
    if isinstance(o, (dict, types.MappingProxyType)):
        return dict_method(it, o, name, args, kw)
    if isinstance(o, (SDT,)):
        return dt_method(it, o, name, args, kw)
    if isinstance(o, App):
        return app_method(it, o, name, args, kw)
    if isinstance(o, IterObj):
        if name == "__next__":
            ok, v = iter_next(it, o)
            if not ok:
                py_raise(StopIteration)
            return v
        if name == "__iter__":
            return o
        raise ToolError("iterator method %s" % name)
    if isinstance(o, (RangeVal,)):
        raise ToolError("range method")
    if isinstance(o, tuple) and name == "index":
        for j, x in enumerate(o):
            if truth(it, value_eq(it, x, args[0])):
                return j
        py_raise(ValueError)
    if isinstance(o, set) and name in ("add", "discard"):
        getattr(o, name)(hashable(it, args[0]))
        return None
    if isinstance(o, (set, frozenset, tuple, float, _dt.datetime, _dt.timedelta)) or o is None:
        a = [to_py(x) for x in args]
        k = {x: to_py(y) for x, y in kw.items()}
        if any(x is NOTNATIVE for x in a + list(k.values())):
            if isinstance(o, _dt.datetime):
                return dt_method(it, o, name, args, kw)
            raise ToolError("method %s" % name)
        try:
            return from_py(it, getattr(o, name)(*a, **k))
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
    if type(o).__name__ == "Struct" and type(o).__module__ == "_struct":
        if name == "unpack":
            return struct_unpack(it, o.format, *args)
        if name == "pack":
            return struct_pack(it, o.format, *args)
        if name == "unpack_from":
            return struct_unpack_from(it, o.format, *args, **kw)
    if isinstance(o, random.Random):
        f = FUNCS.get(getattr(random, name, None))
        if f:
            return f(it, *args, **kw)
        raise ToolError("random.%s" % name)
    try:
        f = getattr(o, name)
    except AttributeError:
        py_raise(AttributeError, name)
    if isinstance(f, types.MethodType):
        return it.call(f.__func__, [o] + list(args), kw)
    return it.native_call(f, args, kw)


def norm_sub_args(it, s, args):
    """start/end arguments of find & friends"""
    if len(args) == 1:
        return s, 0
    st = args[1]
    if len(args) > 2 and args[2] is not None:
        raise ToolError("end argument")
    a, _ = slice_bounds(it, slice(st, None), s.length())
    return s, a


def seq_method(it, o, name, args, kw):
    s = seqify(o)
    C = core.C
    mut = isinstance(o, MBytes)
    K = s.kind

    def ret(x):
        return MBytes(x) if mut else out_seq(x)

    if name in ("startswith", "endswith"):
        if len(args) != 1:
            raise ToolError(name)
        if isinstance(args[0], tuple):
            return any(truth(it, seq_method(it, o, name, [p], {})) for p in args[0])
        p = seqify(args[0]) if is_seq(args[0]) else py_raise(TypeError, name)
        if p.kind != K:
            py_raise(TypeError, name)
        pb = seq_bytes(p)
        if pb is None:
            n, m = s.length(), p.length()
            if not C.branch(ile(m, n)):
                return False
            return value_eq(it, seq_cut(s, 0, m) if name == "startswith" else seq_cut(s, isub(n, m), n), Seq(K, p.segs))
        if not pb:
            return True
        n = s.length()
        if not C.branch(ile(len(pb), n)):
            return False
        if name == "startswith":
            c = core._conj([seq_at(s, j) == x for j, x in enumerate(pb)])
        else:
            c = core._conj([seq_at(s, isub(n, len(pb) - j)) == x for j, x in enumerate(pb)])
        return mkbool(c) if not isinstance(c, bool) else c
    if name in ("find", "index"):
        p = args[0]
        if isnum(p) and K == "b":
            p = mkseq("b", [U(byte_of(it, p))])
        else:
            need_seq(p, name)
        s2, st = norm_sub_args(it, s, args)
        if seqify(p).kind != K:
            py_raise(TypeError, name)
        r = seq_find(it, s2, seqify(p), st)
        if r is None:
            if name == "find":
                return -1
            py_raise(ValueError, "subsection not found")
        return sint_of(r, 0)
    if name in ("rfind", "rindex"):
        if len(args) > 1:
            raise ToolError(name)
        p = args[0]
        if isnum(p) and K == "b":
            p = mkseq("b", [U(byte_of(it, p))])
        r = seq_rfind(it, s, seqify(p))
        if r is None:
            if name == "rfind":
                return -1
            py_raise(ValueError, "subsection not found")
        return sint_of(r, 0)
    if name in ("partition", "rpartition"):
        p = seqify(args[0])
        r = seq_find(it, s, p) if name == "partition" else seq_rfind(it, s, p)
        e = mkseq(K, [])
        if r is None:
            t = (s, e, e) if name == "partition" else (e, e, s)
        else:
            t = (seq_slice(it, s, slice(None, sint_of(r))), p, seq_slice(it, s, slice(binop(it, ast.Add, sint_of(r), len(seq_bytes(p))), None)))
        return tuple(ret(x) for x in t)
    if name in ("split", "rsplit") and args and (len(args) > 1 or "maxsplit" in kw):
        mx = args[1] if len(args) > 1 else kw["maxsplit"]
        if mx == 1:
            p = seqify(args[0])
            r = seq_find(it, s, p) if name == "split" else seq_rfind(it, s, p)
            if r is None:
                return [ret(s)]
            return [ret(seq_slice(it, s, slice(None, sint_of(r)))), ret(seq_slice(it, s, slice(binop(it, ast.Add, sint_of(r), len(seq_bytes(p))), None)))]
        raise ToolError("split")
    if name == "count" and len(args) == 1:
        b = seq_bytes(s)
        if b is None:
            raise ToolError("count over unbounded data")
        p = args[0]
        pb = [byte_of(it, p)] if isnum(p) else seq_bytes(seqify(p))
        if len(pb) != 1:
            raise ToolError("count")
        n = 0
        for t in b:
            n = binop(it, ast.Add, n, mkbool(t == pb[0]))
        return n
    if name == "replace":
        if len(args) != 2 or kw:
            raise ToolError("replace with count")
        a, b = seqify(args[0]), seqify(args[1])
        a, b = to_native(a), to_native(b)
        if isinstance(a, Seq) or isinstance(b, Seq):
            raise ToolError("replace with symbolic pattern")
        if isinstance(a, str):
            a, b = a.encode("latin-1"), b.encode("latin-1")
        if len(a) != 1:
            nb = seq_bytes(s)
            if nb is None or not a:
                raise ToolError("replace of a %d-byte pattern in unbounded data" % len(a))
            out, j = [], 0
            while j < len(nb):
                if j + len(a) <= len(nb) and C.branch(core._conj([x == y for x, y in zip(nb[j : j + len(a)], a)])):
                    out.append(b)
                    j += len(a)
                else:
                    out.append(U(nb[j]))
                    j += 1
            return ret(mkseq(K, out))
        t = ident_table()
        t[a[0]] = b
        return ret(seq_map(s, t))
    if name == "translate":
        if K == "b" and len(args) == 1:
            tb = to_py(args[0])
            if isinstance(tb, (bytes, bytearray)) and len(tb) == 256:
                return ret(seq_map(s, [bytes([x]) for x in tb]))
        if K == "s" and isinstance(args[0], dict):
            t = ident_table()
            for k, v in args[0].items():
                k = k if isinstance(k, int) else ord(k)
                if 0 <= k < 256:
                    t[k] = b"" if v is None else (v.encode("latin-1") if isinstance(v, str) else bytes([v]))
            return ret(seq_map(s, t))
        raise ToolError("translate")
    if name in ("strip", "lstrip", "rstrip"):
        side = {"strip": "lr", "lstrip": "l", "rstrip": "r"}[name]
        if args and args[0] is not None:
            ch = to_native(seqify(args[0]))
            if isinstance(ch, Seq):
                raise ToolError("strip characters")
            ch = ch if isinstance(ch, bytes) else ch.encode("latin-1")
        elif K == "b":
            ch = WS_B
        else:
            ch = bytes(i for i in range(256) if chr(i).isspace())
        return ret(seq_strip(it, s, side, bytes(sorted(set(ch)))))
    if name in ("removeprefix", "removesuffix"):
        p = seqify(args[0])
        if truth(it, seq_method(it, o, "startswith" if name == "removeprefix" else "endswith", [args[0]], {})):
            n = len(seq_bytes(p))
            return ret(seq_slice(it, s, slice(n, None) if name == "removeprefix" else (slice(None, -n) if n else slice(None))))
        return ret(s)
    if name == "decode":
        enc = args[0] if args else kw.get("encoding", "utf-8")
        return decode_seq(it, s, enc, (args[1] if len(args) > 1 else kw.get("errors", "strict")))
    if name == "encode":
        enc = args[0] if args else kw.get("encoding", "utf-8")
        return encode_seq(it, s, enc)
    if name == "hex" and not args:
        return out_seq(hex_seq(s))
    if name == "join":
        parts = [seqify(x) if is_seq(x) else (x if isinstance(x, App) else py_raise(TypeError, "join")) for x in it.iterate(args[0])]
        if any(isinstance(p, App) for p in parts):
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.append(to_native(s))
                out.append(p if isinstance(p, App) else to_native(p))
            return join_text(it, [x for x in out])
        if any(p.kind != K for p in parts):
            py_raise(TypeError, "join")
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(s)
            out.append(p)
        return ret(concat(K, out))
    if name == "__len__":
        return sint_of(s.length(), 0)
    if name == "__getitem__":
        return getitem(it, o, args[0])
    if name == "__repr__":
        return App("REPR", (Seq(K, s.segs),), str)
    if name == "__str__" and K == "s":
        return Seq(K, s.segs)
    if name == "__eq__":
        return value_eq(it, o, args[0]) if is_seq(args[0]) else NotImplemented
    if name == "__contains__":
        return contains(it, o, args[0])
    if name == "__add__":
        return binop(it, ast.Add, o, args[0])
    if name == "tobytes":
        return out_seq(s)
    if name in ("zfill", "rjust", "ljust"):
        w = args[0]
        fill = to_native(seqify(args[1])) if len(args) > 1 else (" " if K == "s" else b" ")
        n = s.length()
        if not isinstance(w, int) or not isinstance(n, int) or name == "zfill" and n and False:
            raise ToolError(name)
        if name == "zfill":
            fill = "0" if K == "s" else b"0"
            if n and not z3.is_bv_value(seq_bytes(s)[0]):
                if C.branch(in_set(seq_bytes(s)[0], list(b"+-"))):
                    raise ToolError("zfill with sign")
        pad = from_native(fill * max(0, w - n))
        return ret(concat(K, [s, pad] if name == "ljust" else [pad, s]))
    if name in ("upper", "lower") and K == "s":
        b = seq_bytes(s)
        if b is not None:
            return ret(seq_map(s, [getattr(chr(i), name)().encode("latin-1") if i < 128 else bytes([i]) for i in range(256)])) if all(C.known(z3.ULT(t, 128)) for t in b) else _te("case of non-ASCII")
    if name in ("isdigit", "isdecimal", "isascii", "isalnum", "isspace", "isnumeric", "isprintable"):
        b = seq_bytes(s)
        if b is not None:
            tests = [i for i in range(256) if (getattr(chr(i), name)() if K == "s" else getattr(bytes([i]), name)())]
            if not b:
                return name in ("isascii", "isprintable")
            return mkbool(z3.And(*[in_set(t, tests) for t in b]))
    if name == "format":
        return App("FMT", ("format", o) + tuple(args) + tuple(kw.values()), str)
    if name == "__iter__":
        return get_iter(it, o)
    if not mut:
        if name in ("append", "extend", "pop", "insert", "clear"):
            py_raise(AttributeError, name)
        raise ToolError("method %s of %s" % (name, "text" if K == "s" else "bytes"))
    # bytearray mutators
    if name == "append":
        if len(args) != 1:
            py_raise(TypeError, "append")
        o.seq = concat("b", [s, mkseq("b", [U(byte_of(it, args[0]))])])
        return None
    if name == "extend":
        v = args[0]
        if is_seq(v):
            v = seqify(v)
            if v.kind != "b":
                py_raise(TypeError, "expected iterable of integers; got: 'str'")
            o.seq = concat("b", [s, v])
        else:
            if isinstance(v, IterObj) and v.kind == "seq" and seqify(v.src).kind == "b" and v.pos is not None:
                o.seq = concat("b", [s, seq_slice(it, seqify(v.src), slice(sint_of(v.pos), None))])
                v.pos = None
                return None
            vals = it.iterate(v)
            o.seq = concat("b", [s, mkseq("b", [U(byte_of(it, x)) for x in vals])])
        return None
    if name == "pop":
        i = args[0] if args else -1
        n = s.length()
        if C.branch(ieq(n, 0)):
            py_raise(IndexError, "pop from empty bytearray")
        k = norm_index(it, i, n)
        t = seq_at(s, k)
        parts = []
        if not same_term(k, 0):
            parts.append(seq_cut(s, 0, k))
        k1 = iadd(k, 1)
        if not same_term(k1, n):
            parts.append(seq_cut(s, k1, n))
        o.seq = concat("b", parts)
        return byte_value(t)
    if name == "insert":
        t = byte_of(it, args[1])
        a, _ = slice_bounds(it, slice(args[0], None), s.length())
        o.seq = concat("b", [seq_cut(s, 0, a) if not same_term(a, 0) else mkseq("b", []), mkseq("b", [U(t)]), seq_cut(s, a, s.length()) if not same_term(a, s.length()) else mkseq("b", [])])
        return None
    if name == "clear":
        o.seq = mkseq("b", [])
        return None
    if name in ("copy", "__copy__"):
        return MBytes(s)
    if name == "reverse":
        b = seq_bytes(s)
        if b is None:
            raise ToolError("reverse")
        o.seq = mkseq("b", [U(t) for t in reversed(b)])
        return None
    if name == "remove":
        r = seq_find(it, s, mkseq("b", [U(byte_of(it, args[0]))]))
        if r is None:
            py_raise(ValueError, "value not found in bytearray")
        delitem(it, o, sint_of(r))
        return None
    raise ToolError("method %s of bytearray" % name)


def _te(m):
    raise ToolError(m)


def decode_seq(it, s, enc, errors="strict"):
    enc = str(enc).lower().replace("_", "-")
    if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1"):
        return out_seq(mkseq("s", s.segs))
    if enc in ("ascii", "us-ascii", "utf-8", "utf8"):
        # exact for pure ASCII; anything else leaves the model
        if errors != "strict":
            raise ToolError("decode with errors=%s" % errors)
        b = seq_bytes(s)
        if b is None:
            raise ToolError("decode of unbounded data as %s" % enc)
        for t in b:
            if core.C.branch(z3.UGE(t, 128)):
                if enc in ("ascii", "us-ascii"):
                    py_raise(UnicodeDecodeError, "ascii", b"", 0, 1, "")
                core.C.inexact.append("utf-8")
                raise ToolError("utf-8 decoding of non-ASCII data")
        return out_seq(mkseq("s", s.segs))
    raise ToolError("codec %s" % enc)


def encode_seq(it, s, enc):
    enc = str(enc).lower().replace("_", "-")
    if s.kind != "s":
        py_raise(AttributeError, "encode")
    if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
        return out_seq(mkseq("b", s.segs))
    b = seq_bytes(s)
    if b is None:
        raise ToolError("encode of unbounded text as %s" % enc)
    if enc in ("ascii", "us-ascii", "utf-8", "utf8"):
        out = []
        for t in b:
            if core.C.branch(z3.UGE(t, 128)):
                if enc.startswith("utf"):
                    out.append(U(z3.simplify(z3.BitVecVal(0xC0, 8) | z3.LShR(t, 6))))
                    out.append(U(z3.simplify(z3.BitVecVal(0x80, 8) | (t & 0x3F))))
                    continue
                py_raise(UnicodeEncodeError, "ascii", "", 0, 1, "")
            out.append(U(t))
        return out_seq(mkseq("b", out))
    raise ToolError("codec %s" % enc)


def int_method(it, o, name, args, kw):
    if name == "to_bytes":
        n = args[0] if args else kw.get("length", 1)
        order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
        if kw.get("signed"):
            raise ToolError("signed to_bytes")
        o = num(o)
        if isinstance(o, int) and isinstance(n, int):
            try:
                return int(o).to_bytes(n, order)
            except Exception as e:
                raise PyRaise(ExcVal(type(e), e.args))
        if not isinstance(n, int):
            raise ToolError("symbolic length")
        return int_to_bytes(it, o, n, order)
    if name == "bit_length":
        lo, hi = int_bounds(o)
        return tabulate(it, lambda x: int(x).bit_length(), o)
    if name in ("__index__", "__int__"):
        return num(o)
    if name == "__repr__" or name == "__str__":
        return int_to_text(it, num(o))
    if name == "from_bytes":
        return FUNCS[int.from_bytes](it, *args, **kw)
    OPS = {"__add__": ast.Add, "__xor__": ast.BitXor, "__and__": ast.BitAnd, "__or__": ast.BitOr, "__sub__": ast.Sub, "__mul__": ast.Mult, "__mod__": ast.Mod}
    if name in OPS:
        return binop(it, OPS[name], o, args[0])
    if name == "__eq__":
        return value_eq(it, o, args[0])
    n = to_py(o)
    a = [to_py(x) for x in args]
    if n is not NOTNATIVE and not any(x is NOTNATIVE for x in a):
        try:
            return from_py(it, getattr(n, name)(*a, **kw))
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
    if not hasattr(int, name):
        py_raise(AttributeError, name)
    raise ToolError("int method %s" % name)


def int_to_bytes(it, o, n, order):
    lo, hi = int_bounds(o)
    if lo is None or lo < 0:
        if truth(it, int_cmp(ast.Lt, o, 0)):
            py_raise(OverflowError, "can't convert negative int to unsigned")
    lim = (1 << (8 * n)) - 1
    if hi is None or hi > lim:
        if truth(it, int_cmp(ast.Gt, o, lim)):
            py_raise(OverflowError, "int too big to convert")
    if n == 0:
        return b""
    if o.kind == "int":
        o = SInt("int", o.t, 0, lim)
    t = to_bv(o, 8 * n)
    segs = [U(z3.simplify(z3.Extract(8 * i + 7, 8 * i, t))) for i in range(n)]
    if order == "big":
        segs.reverse()
    elif order != "little":
        raise ToolError("byte order")
    return out_seq(mkseq("b", segs))


def int_from_bytes(it, data, byteorder="big", *, signed=False):
    if not is_seq(data):
        if isinstance(data, (list, tuple, IterObj)):
            data = mkseq("b", [U(byte_of(it, x)) for x in it.iterate(data)])
        else:
            py_raise(TypeError, "cannot convert to bytes")
    s = seqify(data)
    if s.kind != "b":
        py_raise(TypeError, "cannot convert str to bytes")
    n = to_native(s)
    if not isinstance(n, Seq):
        return int.from_bytes(n, byteorder, signed=bool(signed))
    b = seq_bytes(s)
    if b is None:
        # length symbolic: fork if it is small
        ln = s.length()
        for v in range(0, 17):
            if core.C.branch(ln == v):
                return int_from_bytes(it, mkseq("b", [U(core.seq_at(s, i)) for i in range(v)]), byteorder, signed=signed)
        raise ToolError("from_bytes of unbounded data")
    if not b:
        return 0
    if byteorder == "little":
        b = list(reversed(b))
    elif byteorder != "big":
        raise ToolError("byte order")
    t = z3.Concat(*b) if len(b) > 1 else b[0]
    if signed:
        w = t.size()
        if core.C.branch(z3.Extract(w - 1, w - 1, t) == 1):
            return mkint("int", z3.BV2Int(t) - (1 << w), -(1 << (w - 1)), -1)
        return mkint("bv", t, 0, (1 << (w - 1)) - 1)
    return mkint("bv", t)


def list_method(it, o, name, args, kw):
    if name == "append":
        o.append(args[0])
        return None
    if name == "extend":
        o.extend(it.iterate(args[0]))
        return None
    if name == "pop":
        i = to_py(args[0]) if args else -1
        if i is NOTNATIVE:
            raise ToolError("symbolic pop")
        try:
            return o.pop(i)
        except IndexError:
            py_raise(IndexError, "pop from empty list")
    if name == "insert":
        i = to_py(args[0])
        if i is NOTNATIVE:
            raise ToolError("symbolic insert")
        o.insert(i, args[1])
        return None
    if name == "clear":
        o.clear()
        return None
    if name == "copy":
        return list(o)
    if name == "reverse":
        o.reverse()
        return None
    if name in ("index", "count", "remove"):
        hits = [j for j, x in enumerate(o) if truth(it, value_eq(it, x, args[0]))]
        if name == "count":
            return len(hits)
        if not hits:
            py_raise(ValueError, "not in list")
        if name == "index":
            return hits[0]
        del o[hits[0]]
        return None
    if name == "sort":
        n = to_py(o)
        if n is NOTNATIVE or "key" in kw and not isinstance(kw["key"], types.BuiltinFunctionType):
            raise ToolError("sort of symbolic values")
        n.sort(**kw)
        o[:] = n
        return None
    if name == "__len__":
        return len(o)
    if name == "__iter__":
        return get_iter(it, o)
    if not hasattr(list, name):
        py_raise(AttributeError, name)
    raise ToolError("list method %s" % name)


def dict_method(it, o, name, args, kw):
    if name == "get":
        try:
            return getitem(it, o, args[0])
        except PyRaise as e:
            if e.exc.cls is KeyError:
                return args[1] if len(args) > 1 else kw.get("default")
            raise
    if name == "items":
        return [(k, it.wrap(v)) for k, v in o.items()]
    if name == "keys":
        return list(o)
    if name == "values":
        return [it.wrap(v) for v in o.values()]
    if name == "pop":
        try:
            v = getitem(it, o, args[0])
        except PyRaise as e:
            if e.exc.cls is KeyError and len(args) > 1:
                return args[1]
            raise
        k = to_py(args[0])
        if k is NOTNATIVE:
            raise ToolError("symbolic key removal")
        del o[k]
        return v
    if name == "setdefault":
        k = hashable(it, args[0])
        if k not in o:
            o[k] = args[1] if len(args) > 1 else None
        return o[k]
    if name == "update":
        if args:
            src = args[0]
            if isinstance(src, dict):
                o.update(src)
            else:
                for kv in it.iterate(src):
                    k, v = it.iterate(kv)
                    o[hashable(it, k)] = v
        o.update(kw)
        return None
    if name == "copy":
        return dict(o)
    if name == "clear":
        o.clear()
        return None
    if name == "__contains__":
        return contains(it, o, args[0])
    if name == "__getitem__":
        return getitem(it, o, args[0])
    if name == "__len__":
        return len(o)
    raise ToolError("dict method %s" % name)


# ------------------------------------------------------------------ datetime
def dt_fields(d):
    if isinstance(d, SDT):
        return d.f
    return dict(year=d.year, month=d.month, day=d.day, hour=d.hour, minute=d.minute, second=d.second, microsecond=d.microsecond)


def zone_of(d):
    return d.zone if isinstance(d, SDT) else d.tzinfo


def no_zone(d):
    if zone_of(d) is not None and (not isinstance(d, SDT) or core.C.branch(d.zone)):
        raise ToolError("arithmetic of times with a time zone")


def is_aware(d):
    """of two times in unequal zones; two zones need not differ"""
    if isinstance(d, SDT):
        if d.zone is None or not core.C.branch(d.zone):
            return False
        raise ToolError("comparison of time zones")
    return d.tzinfo is not None


DT_NAMES = ("year", "month", "day", "hour", "minute", "second", "microsecond")


def make_datetime(it, *args, **kw):
    f = dict(zip(DT_NAMES, args))
    if len(args) > 7:
        raise ToolError("datetime arguments")
    for k, v in kw.items():
        if k in f or k not in DT_NAMES + ("tzinfo", "fold"):
            py_raise(TypeError, "datetime argument %s" % k)
        if k == "tzinfo" and v is not None:
            raise ToolError("tzinfo")
        if k in DT_NAMES:
            f[k] = v
    for k in ("year", "month", "day"):
        if k not in f:
            py_raise(TypeError, "function missing required argument")
    for k in ("hour", "minute", "second", "microsecond"):
        f.setdefault(k, 0)
    f = {k: f[k] for k in DT_NAMES}
    if all(isinstance(v, int) for v in f.values()):
        try:
            return _dt.datetime(**f)
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
    for v in f.values():
        if not isnum(v):
            py_raise(TypeError, "an integer is required")
    rng = dict(year=(1, 9999), month=(1, 12), hour=(0, 23), minute=(0, 59), second=(0, 59), microsecond=(0, 999999), day=(1, 31))
    for k in DT_NAMES:
        a, b = rng[k]
        ok = truth(it, int_cmp(ast.LtE, a, f[k])) and truth(it, int_cmp(ast.LtE, f[k], b))
        if not ok:
            py_raise(ValueError, k + " out of range")
    # days in month, as one condition
    d, m, y = (to_int_term(num(f[k])) if not isinstance(f[k], int) else z3.IntVal(f[k]) for k in ("day", "month", "year"))
    leap = z3.Or(z3.And(y % 4 == 0, y % 100 != 0), y % 400 == 0)
    short = z3.Or(m == 4, m == 6, m == 9, m == 11)
    ok = z3.And(z3.Implies(short, d <= 30), z3.Implies(m == 2, d <= z3.If(leap, z3.IntVal(29), z3.IntVal(28))))
    if not core.C.branch(ok):
        py_raise(ValueError, "day is out of range for month")
    return SDT(**{k if k != "microsecond" else "micro": v for k, v in f.items()})


def make_datetime_assume(it, f):
    """an existing date and time with the given fields (already within their ranges)"""
    d, m, y = (to_int_term(num(f[k])) if not isinstance(f[k], int) else z3.IntVal(f[k]) for k in ("day", "month", "year"))
    leap = z3.Or(z3.And(y % 4 == 0, y % 100 != 0), y % 400 == 0)
    short = z3.Or(m == 4, m == 6, m == 9, m == 11)
    core.C.assume(z3.And(z3.Implies(short, d <= 30), z3.Implies(m == 2, d <= z3.If(leap, z3.IntVal(29), z3.IntVal(28)))))
    return SDT(f["year"], f["month"], f["day"], f["hour"], f["minute"], f["second"], f.get("microsecond", 0))


DT_CODES = {"Y": "year", "m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second"}


def dt_text(it, o, fmt):
    """strftime with numeric directives only"""
    f = dt_fields(o)
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] != "%":
            out.append(fmt[i])
            i += 1
            continue
        c = fmt[i + 1:i + 2]
        if c == "y":
            out.append(format_value(it, binop(it, ast.Mod, f["year"], 100), -1, "02d"))
        elif c == "Y":
            if not truth(it, int_cmp(ast.LtE, 1000, f["year"])):
                raise ToolError("strftime of early years")
            out.append(format_value(it, f["year"], -1, ""))
        elif c in DT_CODES:
            out.append(format_value(it, f[DT_CODES[c]], -1, "02d"))
        else:
            return App("DT.strftime", (o, fmt), str)
        i += 2
    return join_text(it, out)


def dt_method(it, o, name, args, kw):
    if name == "replace":
        f = dict(dt_fields(o))
        f.update(dict(zip(DT_NAMES, args)))
        f.update(kw)
        r = make_datetime(it, **f)
        if zone_of(o) is not None and "tzinfo" not in kw:
            if not isinstance(r, SDT):
                raise ToolError("constant time with a time zone")
            r.zone = o.zone
        return r
    if name == "strftime" and len(args) == 1 and isinstance(args[0], str):
        return dt_text(it, o, args[0])
    if name in ("isoformat", "strftime", "__str__", "__repr__", "ctime", "__format__"):
        return App("DT." + name, (o,) + tuple(args), str)
    if name == "date" or name == "time":
        return App("DT." + name, (o,), object)
    if name == "timetuple":
        f = dt_fields(o)
        names = dict(tm_year="year", tm_mon="month", tm_mday="day", tm_hour="hour", tm_min="minute", tm_sec="second")
        return App("TIMETUPLE", (o,), time.struct_time, {a: f[b] for a, b in names.items()})
    if name == "utctimetuple":
        raise ToolError(name)
    if name == "weekday":
        return App("DT.weekday", (o,), int)
    raise ToolError("datetime method %s" % name)


def make_timedelta(it, *args, **kw):
    n = [to_py(x) for x in args]
    k = {a: to_py(b) for a, b in kw.items()}
    if not any(x is NOTNATIVE for x in n + list(k.values())):
        try:
            return _dt.timedelta(*n, **k)
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    f = dict(zip(names, args))
    f.update(kw)
    f = {a: b for a, b in f.items() if not (isinstance(b, int) and b == 0)}
    if set(f) - set(names):
        py_raise(TypeError, "timedelta argument")
    for v in f.values():
        if not isnum(v):
            raise ToolError("timedelta argument")
    # normalise to seconds (exact for integer arguments)
    if set(f) <= {"days", "seconds", "minutes", "hours", "weeks"}:
        t = 0
        for a, b in f.items():
            t = binop(it, ast.Add, t, binop(it, ast.Mult, num(b), {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 604800}[a]))
        return App("TDSEC", (t,), _dt.timedelta)
    raise ToolError("timedelta units")


def app_method(it, o, name, args, kw):
    if o.fn == "CIPHER":
        if name in ("encryptor", "decryptor"):
            return cipher_context(it, o, name)
    if o.fn == "CTX":
        if name in ("update", "finalize"):
            return cipher_step(it, o, name, args)
    if o.fn == "STRUCT":
        if name == "unpack":
            return struct_unpack(it, o.args[0], *args)
        if name == "pack":
            return struct_pack(it, o.args[0], *args)
        if name == "unpack_from":
            return struct_unpack_from(it, o.args[0], *args, **kw)
    if o.fn == "SUPPRESS":
        raise ToolError("suppress")
    if o.type is float and name in ("is_integer", "hex"):
        return App("FLT." + name, (o,), object)
    if o.type is _dt.datetime and name in ("isoformat", "strftime", "__str__"):
        return App("DT." + name, (o,) + tuple(args), str)
    if o.type is str and name in ("strip", "lstrip", "rstrip", "upper", "lower", "encode", "replace"):
        return App("TXT." + name, (o,) + tuple(args), bytes if name == "encode" else str)
    raise ToolError("method %s of %s" % (name, o.fn))


# ------------------------------------------------------------------ cipher
def make_cipher(it, algo, mode, *a, **kw):
    if not (isinstance(algo, App) and algo.fn == "AES" and isinstance(mode, App) and mode.fn in ("CBC", "ECB")):
        raise ToolError("cipher algorithm or mode")
    if mode.fn == "CBC":
        iv = seqify(mode.args[0])
        if not core.C.branch(ieq(iv.length(), 16)):
            py_raise(ValueError, "Invalid IV size for CBC.")
    return App("CIPHER", (algo, mode))


def make_aes(it, key):
    need_seq(key, "key must be bytes-like")
    n = seqify(key).length()
    ok = core.C.branch(ieq(n, 16)) or core.C.branch(ieq(n, 24)) or core.C.branch(ieq(n, 32))
    if not ok:
        py_raise(ValueError, "Invalid key size")
    return App("AES", (seqify(key),))


def make_cbc(it, initialization_vector):
    need_seq(initialization_vector, "iv must be bytes-like")
    return App("CBC", (seqify(initialization_vector),))


def make_ecb(it):
    return App("ECB", ())


def cipher_context(it, o, name):
    return App("CTX", (o.args[0], o.args[1], name), object, {"$buf": [], "$done": False, "$emitted": False})


def cipher_step(it, o, name, args):
    st = o.extra
    if st["$done"]:
        py_raise(ValueError, "Context was already finalized.")
    if name == "update":
        s = seqify(args[0])
        if s.kind != "b":
            py_raise(TypeError, "data must be bytes")
        if st["$buf"]:
            # streaming over several updates: only the concatenation is known
            st["$buf"].append(s)
            raise ToolError("several update calls")
        st["$buf"].append(s)
        n = s.length()
        aligned = core.C.branch((n % 16 == 0) if isinstance(n, int) else (n % 16 == 0))
        if not aligned:
            st["$bad"] = True
            return out_seq(mkseq("b", [Sub(Base("partial<%s>" % s.key(), z3.Int("plen<%s>" % s.key())), 0, z3.Int("plen<%s>" % s.key()))]))
        return out_seq(crypt(o, s))
    if args:
        py_raise(TypeError, "finalize")
    st["$done"] = True
    if st.get("$bad"):
        py_raise(ValueError, "The length of the provided data is not a multiple of the block length.")
    return b""


def crypt(o, s):
    C = core.C
    algo, mode, direction = o.args
    enc = direction == "encryptor"
    if same_term(s.length(), 0):
        return mkseq("b", [])
    ks = algo.args[0].key()
    ms = mode.fn + (mode.args[0].key() if mode.args else "")
    inv = DecBase if enc else EncBase
    # inverse cancels
    if len(s.segs) == 1 and isinstance(s.segs[0], Sub):
        g = s.segs[0]
        b = g.base
        if type(b) is inv and same_term(g.off, 0) and (same_term(g.len, b.length) or C.known(ieq(g.len, b.length))) and b.k == ks and b.iv == ms:
            return b.plain
    key = "%s<%s;%s;%s>" % ("E" if enc else "D", ks, ms, s.key())
    b = C.memo.get(("base", key))
    if b is None:
        b = (EncBase if enc else DecBase)(key, ks, ms, s, s.length())
        C.memo[("base", key)] = b
        C.inexact.append("AES is uninterpreted")
    return mkseq("b", [Sub(b, 0, b.length)])


# ------------------------------------------------------------------ struct
def struct_items(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "@"
    if fmt and fmt[0] in "<>=!@":
        order, fmt = fmt[0], fmt[1:]
    if order in "@=":
        # native little endian on this platform; '@' also aligns
        if order == "@" and len(fmt) > 1 and any(c not in "Bbcsx0123456789?" for c in fmt):
            raise ToolError("native alignment in struct format")
        order = "<"
    import re

    out = []
    for n, c in re.findall(r"(\d*)([a-zA-Z?])", fmt.replace(" ", "")):
        if c == "s":
            out.append(("s", int(n or 1)))
        else:
            out.extend([(c, 1)] * int(n or 1))
    return "little" if order == "<" else "big", out


SIZES = {"b": 1, "B": 1, "?": 1, "c": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "x": 1, "e": 2}


def struct_unpack(it, fmt, data):
    need_seq(data, "a bytes-like object is required")
    order, items = struct_items(fmt)
    total = sum(n if c == "s" else SIZES[c] for c, n in items)
    s = seqify(data)
    if not core.C.branch(ieq(s.length(), total)):
        py_raise(struct.error, "unpack requires a buffer of %d bytes" % total)
    out = []
    pos = 0
    for c, n in items:
        w = n if c == "s" else SIZES[c]
        f = seq_cut(s, pos, pos + w) if w else mkseq("b", [])
        pos += w
        if c == "x":
            continue
        if c == "s":
            out.append(out_seq(f))
        elif c == "c":
            out.append(out_seq(f))
        elif c in "fde":
            out.append(float_from(it, f, c, order))
        elif c == "?":
            out.append(unop(it, ast.Not, value_eq(it, int_from_bytes(it, f, order), 0)))
        else:
            out.append(int_from_bytes(it, f, order, signed=c.islower()))
    return tuple(out)


def float_from(it, f, c, order):
    b = seq_bytes(f)
    if b is None:
        b = [core.seq_at(f, i) for i in range(SIZES[c])]
    if order == "big":
        b = list(reversed(b))
    n = to_native(mkseq("b", [U(t) for t in b]))
    if not isinstance(n, Seq):
        return struct.unpack("<" + c, n)[0]
    return App("FLOAT" + c, (n,), float)


def struct_unpack_from(it, fmt, buffer, offset=0):
    order, items = struct_items(fmt)
    total = sum(n if c == "s" else SIZES[c] for c, n in items)
    s = seqify(buffer)
    off = idx_term(it, offset)
    if not core.C.branch(ile(iadd(off, total), s.length())):
        py_raise(struct.error, "unpack_from requires a buffer")
    return struct_unpack(it, fmt, seq_cut(s, off, iadd(off, total)))


def struct_pack(it, fmt, *vals):
    order, items = struct_items(fmt)
    vals = list(vals)
    segs = []
    for c, n in items:
        if c == "x":
            segs.append(b"\0")
            continue
        if not vals:
            py_raise(struct.error, "pack expected more items")
        v = vals.pop(0)
        if c == "s":
            s = seqify(v)
            ln = s.length()
            if not isinstance(ln, int):
                raise ToolError("pack of unbounded data")
            segs.extend(mkseq("b", seq_cut(s, 0, min(n, ln)).segs).segs if ln else ())
            segs.append(b"\0" * max(0, n - ln))
            continue
        if c in "fde":
            x = to_py(v)
            if x is NOTNATIVE:
                raise ToolError("pack of an opaque float")
            segs.append(struct.pack(("<" if order == "little" else ">") + c, x))
            continue
        if c == "?":
            segs.append(b"\1" if truth(it, v) else b"\0")
            continue
        if not isnum(v):
            py_raise(struct.error, "required argument is not an integer")
        if c.islower():
            raise ToolError("signed pack")
        try:
            r = int_to_bytes(it, v, SIZES[c], order) if isinstance(v, (SInt, SBool)) and not isinstance(v, SBool) else int(v).to_bytes(SIZES[c], order)
        except PyRaise as e:
            py_raise(struct.error, "argument out of range")
        except OverflowError:
            py_raise(struct.error, "argument out of range")
        segs.extend(seqify(r).segs)
    if vals:
        py_raise(struct.error, "too many items")
    return out_seq(mkseq("b", segs))


# ------------------------------------------------------------------ builtin functions
FUNCS = {}


def model(*natives):
    def deco(f):
        for n in natives:
            FUNCS[n] = f
        return f

    return deco


@model(len)
def m_len(it, v):
    if is_seq(v):
        return sint_of(seqify(v).length(), 0)
    if isinstance(v, SList):
        return sint_of(iadd(v.plen, len(v.items)), 0)
    if isinstance(v, (list, tuple, dict, set, frozenset, types.MappingProxyType)):
        return len(v)
    if isinstance(v, RangeVal):
        if v.step == 1:
            return m_max(it, 0, binop(it, ast.Sub, v.b, v.a))
        raise ToolError("len(range)")
    if isinstance(v, Inst):
        raw, own = it.class_lookup(v.cls, "__len__")
        if own is not None:
            return it.call(raw, [v], {})
        py_raise(TypeError, "no len()")
    if isinstance(v, type) and issubclass(v, enum.Enum):
        return len(v)
    if v is None or isinstance(v, (int, SInt, SReal, SBool, float, SDT, ExcVal, IterObj)) or (isinstance(v, App) and v.type in (float, int)):
        py_raise(TypeError, "object has no len()")
    if isinstance(v, App):
        raise ToolError("len of an opaque value")
    try:
        return len(v)
    except TypeError as e:
        py_raise(TypeError, str(e))


@model(isinstance)
def m_isinstance(it, v, t):
    if isinstance(t, tuple):
        return any(m_isinstance(it, v, x) for x in t)
    if isinstance(t, types.UnionType):
        return any(m_isinstance(it, v, x) for x in t.__args__)
    c = class_of(v)
    if not isinstance(t, type):
        try:
            return issubclass(c, t)
        except TypeError as e:
            raise ToolError("isinstance")
    if c is object and isinstance(v, App):
        raise ToolError("isinstance of an opaque value")
    try:
        return issubclass(c, t)
    except TypeError as e:
        py_raise(TypeError, str(e))


@model(issubclass)
def m_issubclass(it, a, b):
    return issubclass(a, b)


@model(callable)
def m_callable(it, v):
    if isinstance(v, Inst):
        return it.class_lookup(v.cls, "__call__")[1] is not None
    if isinstance(v, (Func, BoundMethod, MethodRef)):
        return True
    if isinstance(v, (SInt, SReal, Seq, MBytes, SBool)):
        return False
    return callable(v)


@model(getattr)
def m_getattr(it, o, name, *d):
    name = to_py(name)
    if name is NOTNATIVE:
        raise ToolError("getattr with symbolic name")
    if d:
        return it.getattr(o, name, d[0], True)
    return it.getattr(o, name)


@model(setattr, object.__setattr__)
def m_setattr(it, o, name, v):
    it.setattr(o, to_py(name), v) if not isinstance(o, Inst) else o.fields.__setitem__(to_py(name), v)


@model(hasattr)
def m_hasattr(it, o, name):
    try:
        it.getattr(o, to_py(name))
        return True
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise


@model(print)
def m_print(it, *a, **k):
    return None


@model(id, hash)
def m_id(it, v):
    raise ToolError("id()/hash()")


@model(repr)
def m_repr(it, v):
    return call_repr(it, v)


@model(abs)
def m_abs(it, v):
    if isnum(v):
        return v if truth(it, int_cmp(ast.GtE, v, 0)) else unop(it, ast.USub, v)
    if isinstance(v, SReal):
        return v if truth(it, real_cmp(ast.GtE, v, 0)) else unop(it, ast.USub, v)
    n = to_py(v)
    if n is NOTNATIVE:
        return App("ABS", (v,), float)
    return abs(n)


@model(min)
def m_min(it, *a, **kw):
    return _minmax(it, a, kw, ast.Lt)


@model(max)
def m_max(it, *a, **kw):
    return _minmax(it, a, kw, ast.Gt)


def _minmax(it, a, kw, op):
    vals = it.iterate(a[0]) if len(a) == 1 else list(a)
    if set(kw) - {"default", "key"}:
        raise ToolError("min/max arguments")
    if not vals:
        if "default" in kw:
            return kw["default"]
        py_raise(ValueError, "empty")
    key = kw.get("key")
    best = vals[0]
    kb = it.call(key, [best], {}) if key else best
    for v in vals[1:]:
        k = it.call(key, [v], {}) if key else v
        if truth(it, compare(it, op, k, kb)):
            best, kb = v, k
    return best


@model(ord)
def m_ord(it, c):
    s = seqify(c)
    b = seq_bytes(s)
    if b is None or len(b) != 1:
        py_raise(TypeError, "ord() expected a character")
    return byte_value(b[0])


@model(chr)
def m_chr(it, v):
    if isinstance(v, int):
        return chr(v)
    lo, hi = int_bounds(v)
    if lo is not None and lo >= 0 and hi is not None and hi <= 255:
        return out_seq(mkseq("s", [U(to_bv(v, 8))]))
    raise ToolError("chr")


@model(hex, bin, oct)
def m_hexbin(it, v):
    raise ToolError("hex()/bin()")


FUNCS[hex] = lambda it, v: hex(v) if isinstance(v, int) else tabulate(it, hex, v)
FUNCS[bin] = lambda it, v: bin(v) if isinstance(v, int) else tabulate(it, bin, v)
FUNCS[oct] = lambda it, v: oct(v) if isinstance(v, int) else tabulate(it, oct, v)


@model(divmod)
def m_divmod(it, a, b):
    return (binop(it, ast.FloorDiv, a, b), binop(it, ast.Mod, a, b))


@model(pow)
def m_pow(it, a, b, m=None):
    r = binop(it, ast.Pow, a, b)
    return r if m is None else binop(it, ast.Mod, r, m)


@model(round)
def m_round(it, v, n=None):
    x, y = to_py(v), to_py(n)
    if x is NOTNATIVE or y is NOTNATIVE:
        if isinstance(v, App) and v.type is float:
            return App("ROUND", (v, n), float if n is not None else int)
        if isinstance(v, SInt):
            return v
        raise ToolError("round")
    try:
        return round(x) if n is None else round(x, y)
    except Exception as e:
        raise PyRaise(ExcVal(type(e), e.args))


def float_special(v):
    """condition: the opaque float is NaN or infinite"""
    if v.fn == "ROUND" and isinstance(v.args[1], int) and v.args[1] >= 0:
        return float_special(v.args[0])
    if v.fn in ("FLOATf", "FLOATd"):
        s = seqify(v.args[0])
        if v.fn == "FLOATf":
            return z3.Concat(z3.Extract(6, 0, core.seq_at(s, 3)), z3.Extract(7, 7, core.seq_at(s, 2))) == 0xFF
        return z3.Concat(z3.Extract(6, 0, core.seq_at(s, 7)), z3.Extract(7, 4, core.seq_at(s, 6))) == 0x7FF
    raise ToolError("finiteness of a computed float")


def m_isfinite(it, v):
    if isinstance(v, App) and v.type is float:
        return mkbool(z3.Not(float_special(v)))
    if isnum(v) and to_py(v) is NOTNATIVE:
        return True
    n = to_py(v)
    if n is NOTNATIVE:
        py_raise(TypeError, "must be real number")
    try:
        return math.isfinite(n)
    except TypeError as e:
        py_raise(TypeError, str(e))


FUNCS[math.isfinite] = m_isfinite


@model(format)
def m_format(it, v, spec=""):
    return format_value(it, v, -1, spec)


@model(iter)
def m_iter(it, v, *sentinel):
    if sentinel:
        return IterObj("callable", v, 0, sentinel[0])
    return get_iter(it, v)


@model(next)
def m_next(it, v, *d):
    ok, x = iter_next(it, v)
    if ok:
        return x
    if d:
        return d[0]
    py_raise(StopIteration)


@model(sorted)
def m_sorted(it, v, **kw):
    l = it.iterate(v)
    n = to_py(l)
    if n is NOTNATIVE or kw.get("key") is not None:
        raise ToolError("sorted of symbolic values")
    return from_py(it, sorted(n, **kw))


@model(any)
def m_any(it, v):
    g = get_iter(it, v)
    n = 0
    while True:
        ok, x = iter_next(it, g)
        if not ok:
            return False
        if truth(it, x):
            return True
        n += 1
        if n > it.unroll:
            raise ToolError("unbounded any()")


@model(all)
def m_all(it, v):
    g = get_iter(it, v)
    n = 0
    while True:
        ok, x = iter_next(it, g)
        if not ok:
            return True
        if not truth(it, x):
            return False
        n += 1
        if n > it.unroll:
            raise ToolError("unbounded all()")


def prelude(name):
    def f(it, *a, **k):
        from . import prelude as P

        return it.call_func(it.lift(getattr(P, name)), list(a), k)

    return f


FUNCS[sum] = prelude("sum_")
FUNCS[functools.reduce] = prelude("reduce_")


@model(int.from_bytes)
def m_from_bytes(it, *a, **k):
    if "bytes" in k:
        a = (k.pop("bytes"),) + a
    return int_from_bytes(it, *a, **k)


@model(bytes.fromhex, bytearray.fromhex)
def m_fromhex(it, v):
    need_seq(v, "fromhex")
    s = seqify(v)
    b = seq_bytes(s)
    if b is None:
        raise ToolError("fromhex of unbounded text")
    C = core.C
    dig = {ord(c): i for i, c in enumerate("0123456789abcdef")}
    dig.update({ord(c): i + 10 for i, c in enumerate("ABCDEF")})
    nib = []
    for t in b:
        if not C.branch(in_set(t, list(dig))):
            if C.branch(in_set(t, list(WS_B))):
                raise ToolError("fromhex with blanks")
            py_raise(ValueError, "non-hexadecimal number found")
        nib.append(mux(t, [dig.get(i, 0) for i in range(256)], 4))
    if len(nib) % 2:
        py_raise(ValueError, "non-hexadecimal number found")
    return out_seq(mkseq("b", [U(z3.simplify(z3.Concat(nib[i], nib[i + 1]))) for i in range(0, len(nib), 2)]))


FUNCS[struct.unpack] = struct_unpack
FUNCS[struct.pack] = struct_pack
FUNCS[struct.unpack_from] = struct_unpack_from
FUNCS[_dt.datetime.fromisoformat] = lambda it, s: it.native_call(_dt.datetime.fromisoformat, [s], {})

OPERATORS = {
    operator.add: ast.Add,
    operator.sub: ast.Sub,
    operator.xor: ast.BitXor,
    operator.or_: ast.BitOr,
    operator.and_: ast.BitAnd,
    operator.mul: ast.Mult,
    operator.mod: ast.Mod,
    operator.floordiv: ast.FloorDiv,
    operator.lshift: ast.LShift,
    operator.rshift: ast.RShift,
}
for _f, _o in OPERATORS.items():
    FUNCS[_f] = lambda it, a, b, _o=_o: binop(it, _o, a, b)
for _f, _o in {operator.eq: ast.Eq, operator.ne: ast.NotEq, operator.lt: ast.Lt, operator.le: ast.LtE, operator.gt: ast.Gt, operator.ge: ast.GtE, operator.is_: ast.Is, operator.is_not: ast.IsNot}.items():
    FUNCS[_f] = lambda it, a, b, _o=_o: compare(it, _o, a, b)
FUNCS[operator.not_] = lambda it, a: unop(it, ast.Not, a)
FUNCS[operator.getitem] = lambda it, a, b: getitem(it, a, b)
FUNCS[operator.contains] = lambda it, a, b: contains(it, a, b)


# random: unconstrained values of the documented range
def fresh_byte(it, name, lo=0, hi=255):
    t = z3.BitVec(core.C.fresh(name), 8)
    if lo > 0 or hi < 255:
        core.C.add(z3.And(z3.UGE(t, lo), z3.ULE(t, hi)))
    return t


@model(random.randint)
def m_randint(it, a, b):
    return m_randrange(it, a, binop(it, ast.Add, b, 1))


@model(random.randrange)
def m_randrange(it, a, b=None, step=1):
    if b is None:
        a, b = 0, a
    if step != 1:
        raise ToolError("randrange step")
    core.C.inexact.append("random value")
    if isinstance(a, int) and isinstance(b, int):
        if b <= a:
            py_raise(ValueError, "empty range")
        if a >= 0:
            w = bv_width(b - 1)
            t = z3.BitVec(core.C.fresh("rand"), w)
            core.C.add(z3.And(z3.UGE(t, a), z3.ULE(t, b - 1)))
            return mkint("bv", t, a, b - 1)
        t = z3.Int(core.C.fresh("rand"))
        core.C.add(z3.And(t >= a, t < b))
        return mkint("int", t, a, b - 1)
    raise ToolError("symbolic random range")


@model(random.choice)
def m_choice(it, pop):
    core.C.inexact.append("random value")
    if is_seq(pop):
        n = to_native(seqify(pop))
        if isinstance(n, Seq):
            raise ToolError("choice from symbolic data")
        if not n:
            py_raise(IndexError, "empty")
        b = n.encode("latin-1") if isinstance(n, str) else n
        t = z3.BitVec(core.C.fresh("choice"), 8)
        core.C.add(in_set(t, list(b)))
        return mkseq("s", [U(t)]) if isinstance(n, str) else byte_value(t)
    l = it.iterate(pop)
    k = m_randrange(it, len(l))
    return getitem(it, l, k)


@model(random.choices)
def m_choices(it, pop, weights=None, cum_weights=None, k=1):
    if not isinstance(k, int):
        raise ToolError("choices count")
    return [m_choice(it, pop) for _ in range(k)]


@model(random.random)
def m_random(it):
    return App("RANDOM", (core.C.fresh("r"),), float)


@model(random.getrandbits)
def m_getrandbits(it, n):
    return m_randrange(it, 1 << n)


def m_randbytes(it, n):
    core.C.inexact.append("random value")
    n = idx_term(it, n)
    if isinstance(n, int):
        return out_seq(mkseq("b", [U(fresh_byte(it, "rb")) for _ in range(n)]))
    b = Base(core.C.fresh("randbytes"), n)
    return mkseq("b", [Sub(b, 0, n)])


import os as _os
import secrets as _secrets

FUNCS[random.randbytes] = m_randbytes
FUNCS[_os.urandom] = m_randbytes
FUNCS[_secrets.token_bytes] = m_randbytes
FUNCS[_secrets.choice] = m_choice
FUNCS[_secrets.randbelow] = lambda it, n: m_randrange(it, n)

import typing as _typing

def m_object_new(it, cls, *args, **kw):
    if not (isinstance(cls, type) and (own_class(cls) or interpretable(cls.__module__))) or issubclass(cls, (BaseException, enum.Enum, str, bytes, int, list, dict, tuple)):
        raise ToolError("object.__new__ of %r" % (cls,))
    return Inst(cls)


FUNCS[object.__new__] = m_object_new
FUNCS[_typing.cast] = lambda it, t, v: v


@model(_copy.copy)
def m_copy(it, v):
    if isinstance(v, MBytes):
        return MBytes(v.seq)
    if isinstance(v, Inst):
        n = Inst(v.cls)
        n.fields.update(v.fields)
        return n
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    return v


@model(_copy.deepcopy)
def m_deepcopy(it, v, memo=None):
    return deep(v, {})


def deep(v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, MBytes):
        r = MBytes(v.seq)
        memo[id(v)] = r
        return r
    if isinstance(v, Inst):
        r = Inst(v.cls)
        memo[id(v)] = r
        for a, b in v.fields.items():
            r.fields[a] = deep(b, memo)
        return r
    if isinstance(v, SList):
        r = SList(v.token, v.plen, [deep(x, memo) for x in v.items], v.elem)
        memo[id(v)] = r
        return r
    if type(v) is list:
        r = []
        memo[id(v)] = r
        r.extend(deep(x, memo) for x in v)
        return r
    if type(v) is tuple:
        return tuple(deep(x, memo) for x in v)
    if type(v) is dict:
        r = {}
        memo[id(v)] = r
        for a, b in v.items():
            r[a] = deep(b, memo)
        return r
    return v


import attr as _attr


@model(_attr.evolve)
def m_evolve(it, inst, **changes):
    kw = {}
    for a in _attr.fields(inst.cls):
        if not a.init:
            continue
        alias = a.alias
        kw[alias] = changes.pop(alias) if alias in changes else inst.fields[a.name]
    kw.update(changes)
    return call_class(it, inst.cls, [], kw)


@model(_attr.asdict)
def m_asdict(it, inst, recurse=True, **kw):
    def conv(v):
        if isinstance(v, Inst) and recurse and _attr.has(v.cls):
            return m_asdict(it, v)
        if isinstance(v, list):
            return [conv(x) for x in v]
        return v

    return {a.name: conv(inst.fields[a.name]) for a in _attr.fields(inst.cls)}


import inspect as _inspect
import binascii as _binascii

FUNCS[_binascii.hexlify] = lambda it, v: out_seq(hex_seq(seqify(v), "b"))
FUNCS[_binascii.unhexlify] = lambda it, v: m_fromhex(it, v)


@model(sys._getframe)
def m_getframe(it, d=0):
    d = to_py(d) if not isinstance(d, SInt) else d
    if not isinstance(d, SInt) and (isinstance(d, bool) or not isinstance(d, int)):
        py_raise(TypeError, "an integer is required")
    if truth(it, int_cmp(ast.Lt, d, 0)):
        d = 0
    f = frame_from(it, binop(it, ast.Sub, d, len(real_frames(it))))
    if f is None:
        py_raise(ValueError, "call stack is not deep enough")
    return f


@model(_inspect.currentframe)
def m_currentframe(it):
    return m_getframe(it, 0)


def real_frames(it):
    return [f for f in it.stack if f.name != "<comp>"]


def frame_from(it, g):
    """the frame with number g, None beyond the last: callers of the function that was called
    by vlib.under count from 0, the calls below that function from -1 downwards"""
    for j in range(1, len(real_frames(it)) + 1):
        if truth(it, int_cmp(ast.Eq, g, -j)):
            return FrameVal(-j)
    return ghost_frame(it, g, it.overlay.get("ghost_stack", 0))


def ghost_frame(it, g, depth):
    return None if truth(it, int_cmp(ast.GtE, g, depth)) else FrameVal(g)


def frame_name(it, f):
    if not isinstance(f.g, SInt) and f.g < 0:
        return real_frames(it)[-f.g - 1].name
    from . import vlib

    return "__repr__" if truth(it, FUNCS[vlib.nondet](it, "repr", vlib.Bool(), f.g)) else "other"


def m_monotonic(it):
    c = it.overlay.get("ghost_clock")
    if c is None:
        # arbitrary non-decreasing clock
        last = it.overlay.get("$last_time")
        t = z3.Real(core.C.fresh("now"))
        if last is not None:
            core.C.add(t >= last)
        it.overlay["$last_time"] = t
        core.C.params.append(("clock", SReal(t)))
        return SReal(t)
    return it.call(c, [], {})


FUNCS[time.monotonic] = m_monotonic
FUNCS[time.time] = m_monotonic
FUNCS[time.perf_counter] = m_monotonic
FUNCS[time.sleep] = lambda it, s: None

MODULE_ATTRS = {}


# ------------------------------------------------------------------ classes
def call_class(it, cls, args, kw):
    if cls in (int, bool, str, bytes, bytearray, list, tuple, dict, set, frozenset, range, enumerate, zip, map, filter, reversed, type, memoryview, object, slice, float, property, super):
        return CLS[cls](it, *args, **kw)
    if issubclass(cls, enum.Enum):
        return make_enum(it, cls, args, kw)
    if issubclass(cls, BaseException):
        e = ExcVal(cls, args)
        raw, owner = it.class_lookup(cls, "__init__")
        if isinstance(raw, types.FunctionType) and interpretable(owner.__module__):
            it.call(raw, [e] + list(args), kw)
        return e
    if cls is _dt.datetime:
        return make_datetime(it, *args, **kw)
    if cls is _dt.timedelta:
        return make_timedelta(it, *args, **kw)
    f = FUNCS.get(cls)
    if f is not None:
        return f(it, *args, **kw)
    from . import vlib

    if issubclass(cls, vlib.T):
        return cls(*args, **kw)
    if issubclass(cls, (str, bytes)) and own_class(cls):
        raw, owner = it.class_lookup(cls, "__new__")
        if isinstance(raw, (staticmethod, types.FunctionType)) and own_class(owner):
            raise ToolError("custom __new__")
        base = str if issubclass(cls, str) else bytes
        v = CLS[base](it, *args, **kw)
        if isinstance(v, App):
            raise ToolError("opaque text in a subclass")
        s = seqify(v)
        return Seq(s.kind, s.segs, cls)
    if cls.__module__ == "contextlib" and cls.__name__ in ("suppress", "nullcontext", "closing"):
        return App("CM:" + cls.__name__, tuple(args))
    if cls.__module__ == "struct" or cls is struct.Struct:
        return App("STRUCT", (to_py(args[0]),))
    if own_class(cls) or interpretable(cls.__module__):
        import marshmallow

        if issubclass(cls, marshmallow.Schema):
            from . import schema_model

            return schema_model.make(it, cls, args, kw)
        raw, owner = it.class_lookup(cls, "__new__")
        if owner is not object and owner is not None and own_class(owner):
            raise ToolError("custom __new__ in %s" % cls.__name__)
        o = Inst(cls)
        raw, owner = it.class_lookup(cls, "__init__")
        if isinstance(raw, (types.FunctionType, Func)):
            if "__dataclass_fields__" in cls.__dict__ and owner is cls and raw.__code__.co_filename == "<string>":
                dataclass_init(it, o, cls, args, kw)
            else:
                it.call(raw, [o] + list(args), kw)
        elif args or kw:
            py_raise(TypeError, "%s() takes no arguments" % cls.__name__)
        return o
    if issubclass(cls, types.SimpleNamespace):
        raise ToolError("SimpleNamespace")
    return it.native_call(cls, args, kw)


def dataclass_init(it, o, cls, args, kw):
    import dataclasses

    fs = [f for f in dataclasses.fields(cls) if f.init]
    names = [f.name for f in fs if not f.kw_only]
    vals = dict(zip(names, args))
    if len(args) > len(names):
        py_raise(TypeError, "too many arguments")
    for k, v in kw.items():
        if k in vals or k not in [f.name for f in fs]:
            py_raise(TypeError, "argument %s" % k)
        vals[k] = v
    for f in dataclasses.fields(cls):
        if f.name in vals:
            o.fields[f.name] = vals[f.name]
        elif f.default is not dataclasses.MISSING:
            o.fields[f.name] = it.wrap(f.default)
        elif f.default_factory is not dataclasses.MISSING:
            o.fields[f.name] = it.call(f.default_factory, [], {})
        elif f.init:
            py_raise(TypeError, "missing argument %s" % f.name)
    raw, owner = it.class_lookup(cls, "__post_init__")
    if owner is not None:
        it.call(raw, [o], {})


def make_enum(it, cls, args, kw):
    if len(args) != 1 or kw:
        raise ToolError("enum call")
    v = args[0]
    if isinstance(v, SInt) and v.cls is cls:
        return v
    if isinstance(v, (SInt, SBool)):
        v = num(v)
        vals = sorted(int(m) for m in cls)
        missing, _ = it.class_lookup(cls, "_missing_")
        conds = []
        for x in vals:
            c = int_cmp(ast.Eq, v, x)
            if c is True:
                return cls(x)
            if c is not False:
                conds.append(c.t)
        if not conds:
            py_raise(ValueError, "not a valid %s" % cls.__name__)
        if v.kind == "bv" and v.t.size() <= 8:
            cond = in_set(v.t, vals)
        else:
            cond = z3.Or(conds)
        if not core.C.branch(cond):
            m = cls.__dict__.get("_missing_")
            if m is not None:
                r = it.call(BoundMethod(m.__func__, cls), [v], {})
                if r is not None:
                    return r
            py_raise(ValueError, "not a valid %s" % cls.__name__)
        r = SInt(v.kind, v.t, max(v.lo or 0, vals[0]), vals[-1] if v.hi is None else min(v.hi, vals[-1]), cls)
        return r
    n = to_py(v)
    if n is NOTNATIVE:
        raise ToolError("enum of %r" % (v,))
    try:
        return cls(n)
    except ValueError as e:
        py_raise(ValueError, str(e))


def c_int(it, v=0, base=None, **kw):
    if base is None and "base" in kw:
        base = kw["base"]
    if is_seq(v):
        n = to_py(v)
        if n is not NOTNATIVE:
            try:
                return int(n) if base is None else int(n, base)
            except Exception as e:
                raise PyRaise(ExcVal(type(e), e.args))
        return parse_int(it, seqify(v), 10 if base is None else base)
    if isinstance(v, SBool):
        return num(v)
    if isinstance(v, SInt):
        return SInt(v.kind, v.t, v.lo, v.hi)
    if isinstance(v, SReal):
        return core.mkint("int", z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if isinstance(v, App):
        if v.fn == "STR":
            return v.args[0]
        if v.type is int:
            return v
        if v.type is float:
            return App("TRUNC", (v,), int)
        raise ToolError("int() of an opaque value")
    if isinstance(v, Inst):
        raw, own = it.class_lookup(v.cls, "__int__")
        if own:
            return it.call(raw, [v], {})
        py_raise(TypeError, "int()")
    n = to_py(v)
    if n is NOTNATIVE:
        py_raise(TypeError, "int()")
    try:
        return int(n) if base is None else int(n, base)
    except Exception as e:
        raise PyRaise(ExcVal(type(e), e.args))


def c_bool(it, v=False):
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return mkbool(int_ne0(v))
    if isinstance(v, SReal):
        return mkbool(v.t != 0)
    if is_seq(v):
        c = ieq(seqify(v).length(), 0)
        return (not c) if isinstance(c, bool) else mkbool(z3.Not(c))
    return truth(it, v)


def c_str(it, v="", *a, **kw):
    enc = a[0] if a else kw.get("encoding")
    if enc is not None:
        return decode_seq(it, seqify(v), enc)
    if is_seq(v) and seqify(v).kind == "b":
        return App("REPR", (v if isinstance(v, MBytes) else Seq("b", v.segs),), str) if to_py(v) is NOTNATIVE else str(to_py(v))
    return call_str(it, v)


def c_bytes(it, v=b"", *a, **kw):
    return out_seq(_mk_bytes(it, v, a, kw))


def c_bytearray(it, v=b"", *a, **kw):
    return MBytes(_mk_bytes(it, v, a, kw))


def _mk_bytes(it, v, a, kw):
    if is_seq(v):
        s = seqify(v)
        if s.kind == "s":
            enc = a[0] if a else kw.get("encoding")
            if enc is None:
                py_raise(TypeError, "string argument without an encoding")
            return seqify(encode_seq(it, s, enc))
        return Seq("b", s.segs)
    if isnum(v):
        v = num(v)
        if isinstance(v, int):
            if v < 0:
                py_raise(ValueError, "negative count")
            return from_native(bytes(v))
        lo, hi = int_bounds(v)
        if truth(it, int_cmp(ast.Lt, v, 0)):
            py_raise(ValueError, "negative count")
        return seqify(rep_seq("b", 0, SInt(v.kind, v.t, 0, v.hi), False))
    if v is None or isinstance(v, (float, SDT)):
        py_raise(TypeError, "cannot convert to bytes")
    if isinstance(v, Inst):
        raw, own = it.class_lookup(v.cls, "__bytes__")
        if own is not None:
            return seqify(it.call(raw, [v], {}))
    if isinstance(v, IterObj) and v.kind == "seq" and v.pos is not None and seqify(v.src).kind == "b":
        r = seq_slice(it, seqify(v.src), slice(sint_of(v.pos), None))
        v.pos = None
        return r
    if isinstance(v, App):
        raise ToolError("bytes() of an opaque value")
    return mkseq("b", [U(byte_of(it, x, "bytes must be in range(0, 256)")) for x in it.iterate(v)])


def c_list(it, *a):
    if not a:
        return []
    if isinstance(a[0], SList):
        return SList(a[0].token, a[0].plen, a[0].items, a[0].elem)
    if isinstance(a[0], IterObj) and a[0].kind == "list" and a[0].pos == 0 and isinstance(a[0].src, SList):
        a[0].pos = None
        return a[0].src
    return it.iterate(a[0])


def c_tuple(it, *a):
    return tuple(it.iterate(a[0])) if a else ()


def c_dict(it, *a, **kw):
    d = {}
    if a:
        if isinstance(a[0], (dict, types.MappingProxyType)):
            d.update((k, it.wrap(v)) for k, v in a[0].items())
        else:
            for kv in it.iterate(a[0]):
                k, v = it.iterate(kv)
                d[hashable(it, k)] = v
    d.update(kw)
    return d


def c_set(it, *a):
    return set(hashable(it, x) for x in it.iterate(a[0])) if a else set()


def c_range(it, *a):
    for x in a:
        if not isnum(x):
            py_raise(TypeError, "range")
    a = [num(x) for x in a]
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = [a[0], a[1], 1]
    if all(isinstance(x, int) for x in a):
        if a[2] == 0:
            py_raise(ValueError, "range() arg 3 must not be zero")
        return range(*a)
    return RangeVal(*a)


def c_reversed(it, v):
    if is_seq(v):
        return IterObj("rev", v)
    if isinstance(v, (range,)):
        return IterObj("list", list(reversed(v)))
    return IterObj("list", list(reversed(it.iterate(v))))


def c_type(it, *a):
    if len(a) != 1:
        raise ToolError("type() with three arguments")
    c = class_of(a[0])
    if c is object and isinstance(a[0], App):
        raise ToolError("type of an opaque value")
    return c


def c_memoryview(it, v):
    return v if isinstance(v, MBytes) else seqify(v)


def c_float(it, v=0.0):
    if isinstance(v, SReal) or isinstance(v, App) and v.type is float:
        return v
    if isinstance(v, App) and v.fn == "STRF":
        return v.args[0]
    if is_seq(v) and to_py(v) is NOTNATIVE or isinstance(v, App):
        raise ToolError("float() of a text")
    if v is None or isinstance(v, (Inst, list, tuple, dict)):
        py_raise(TypeError, "float()")
    n = to_py(v)
    if n is NOTNATIVE:
        return App("FLOATOF", (v,), float)
    try:
        return float(n)
    except Exception as e:
        raise PyRaise(ExcVal(type(e), e.args))


CLS = {
    int: c_int,
    bool: c_bool,
    str: c_str,
    bytes: c_bytes,
    bytearray: c_bytearray,
    list: c_list,
    tuple: c_tuple,
    dict: c_dict,
    set: c_set,
    frozenset: lambda it, *a: frozenset(c_set(it, *a)),
    range: c_range,
    enumerate: lambda it, v, start=0: IterObj("enumerate", get_iter(it, v), 0, start),
    zip: lambda it, *a, strict=False: IterObj("zip", [get_iter(it, x) for x in a]),
    map: lambda it, f, *a: IterObj("map", [get_iter(it, x) for x in a], 0, f),
    filter: lambda it, f, a: IterObj("filter", get_iter(it, a), 0, f),
    reversed: c_reversed,
    type: c_type,
    memoryview: c_memoryview,
    object: lambda it: Inst(object),
    slice: lambda it, *a: slice(*a),
    float: c_float,
    property: lambda it, *a: _te("property()"),
    super: lambda it, *a: Super(a[0], a[1]) if len(a) == 2 else _te("super()"),
}

import itertools as _itertools

FUNCS[_itertools.chain] = lambda it, *a: IterObj("chain", [get_iter(it, x) for x in a])
FUNCS[_itertools.chain.from_iterable] = lambda it, a: IterObj("chain", [get_iter(it, x) for x in it.iterate(a)])


def m_islice(it, v, *a):
    g = get_iter(it, v)
    a = [to_py(x) for x in a]
    if any(x is NOTNATIVE for x in a):
        raise ToolError("islice")
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0] or 0, a[1], (a[2] if len(a) > 2 else 1) or 1)
    if stop is None:
        raise ToolError("unbounded islice")
    out = []
    for j in range(stop):
        ok, x = iter_next(it, g)
        if not ok:
            break
        if j >= start and (j - start) % step == 0:
            out.append(x)
    return IterObj("list", out)


FUNCS[_itertools.islice] = m_islice
FUNCS[_itertools.accumulate] = prelude("accumulate_")
FUNCS[_itertools.takewhile] = prelude("takewhile_")
FUNCS[_itertools.dropwhile] = prelude("dropwhile_")

try:
    from cryptography.hazmat.primitives.ciphers import Cipher as _Cipher
    from cryptography.hazmat.primitives.ciphers import algorithms as _alg
    from cryptography.hazmat.primitives.ciphers import modes as _modes

    FUNCS[_Cipher] = make_cipher
    FUNCS[_alg.AES] = make_aes
    FUNCS[_modes.CBC] = make_cbc
    FUNCS[_modes.ECB] = make_ecb
except ImportError:
    pass


def context_manager(it, cm, item, fr, body):
    if isinstance(cm, App) and cm.fn.startswith("CM:"):
        if cm.fn == "CM:suppress":
            try:
                return body()
            except PyRaise as e:
                if it.exc_match(e.exc, tuple(cm.args)):
                    return None
                raise
        if cm.fn == "CM:nullcontext":
            if item.optional_vars is not None:
                it.assign(item.optional_vars, cm.args[0] if cm.args else None, fr)
            return body()
        if cm.fn == "CM:closing":
            if item.optional_vars is not None:
                it.assign(item.optional_vars, cm.args[0], fr)
            try:
                r = body()
            except PyRaise:
                it.call(it.getattr(cm.args[0], "close"), [], {})
                raise
            it.call(it.getattr(cm.args[0], "close"), [], {})
            return r
    if isinstance(cm, Inst):
        ent = it.getattr(cm, "__enter__")
        ext = it.getattr(cm, "__exit__")
        v = it.call(ent, [], {})
        if item.optional_vars is not None:
            it.assign(item.optional_vars, v, fr)
        try:
            r = body()
        except PyRaise as e:
            if truth(it, it.call(ext, [e.exc.cls, e.exc, None], {})):
                return None
            raise
        it.call(ext, [None, None, None], {})
        return r
    if type(cm).__module__ in ("_thread", "threading"):
        return body()
    raise ToolError("context manager %r" % (class_of(cm),))


def _install_schema():
    try:
        import marshmallow
    except ImportError:
        return
    from . import schema_model

    FUNCS[marshmallow.Schema.dump] = schema_model.m_dump
    FUNCS[marshmallow.Schema.load] = schema_model.m_load


_install_schema()
