"""Model of marshmallow schemas (dump and load of one object)."""
import types

import marshmallow as ma
from marshmallow import fields as mf
from marshmallow import missing

from . import core
from . import models as M
from .core import *
from .interp import ExcVal, IterObj, PyRaise, py_raise

PLAIN = {"_declared_fields", "_hooks", "opts", "Meta"}


def make(it, cls, args, kw):
    if args or kw:
        raise ToolError("arguments of a schema")
    check_class(cls)
    return Inst(cls)


def check_class(cls):
    hooks = {a for hs in cls._hooks.values() for a, _, _ in hs}
    for k in cls.__mro__:
        if k is ma.Schema:
            break
        for n in k.__dict__:
            if n in PLAIN or n in hooks or n in ("__module__", "__abstractmethods__", "_abc_impl", "__parameters__", "__orig_bases__", "__doc__", "__qualname__", "__firstlineno__", "__static_attributes__", "__annotations__"):
                continue
            if hasattr(ma.Schema, n):
                raise ToolError("schema %s redefines %s" % (cls.__name__, n))
    for tag, hs in cls._hooks.items():
        if hs and tag not in ("pre_dump", "post_dump", "pre_load", "post_load"):
            raise ToolError("schema hook %s" % tag)
    o = cls.opts
    for n in ("fields", "exclude", "additional", "include", "dump_only", "load_only"):
        if getattr(o, n, None):
            raise ToolError("schema option %s" % n)


def hooks(it, inst, tag, data, kw):
    for name, many, hkw in inst.cls._hooks.get(tag, ()):
        if many or hkw.get("pass_original"):
            raise ToolError("schema hook with options")
        data = it.call(it.getattr(inst, name), [data], dict(kw, many=False))
    return data


def invalid(f, key="invalid"):
    py_raise(ma.ValidationError, key)


def check_field(f):
    if f.validators or f.dump_only or f.load_only:
        raise ToolError("field with validators or restricted direction")


# ------------------------------------------------------------------ dump
def m_dump(it, inst, obj, *, many=None):
    if not isinstance(inst, Inst) or many:
        raise ToolError("dump of many objects")
    check_class(inst.cls)
    obj = hooks(it, inst, "pre_dump", obj, {})
    out = {}
    for name, f in inst.cls._declared_fields.items():
        check_field(f)
        if not f._CHECK_ATTRIBUTE:
            raise ToolError("computed field")
        a = name if f.attribute is None else f.attribute
        v = get_value(it, obj, a)
        if v is missing:
            if f.dump_default is missing:
                continue
            if callable(f.dump_default):
                raise ToolError("default function")
            v = it.wrap(f.dump_default)
        v = dump_value(it, f, v)
        if v is not missing:
            out[f.data_key if f.data_key is not None else name] = v
    return hooks(it, inst, "post_dump", out, {})


def get_value(it, obj, name):
    if "." in name:
        raise ToolError("dotted attribute")
    if isinstance(obj, dict):
        if name in obj:
            return obj[name]
        return missing
    try:
        return it.getattr(obj, name)
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return missing
        raise


def number(it, f, v):
    """f._format_num(value)"""
    if isinstance(f, mf.Integer):
        if f.strict:
            raise ToolError("strict integer field")
        return M.c_int(it, v)
    return M.c_float(it, v)


NUMBERS = (mf.Integer, mf.Number, mf.Float)


def dump_value(it, f, v):
    t = type(f)
    if t in NUMBERS:
        if v is None:
            return None
        r = number(it, f, v)
        return number_text(it, r) if f.as_string else r
    if t is mf.String:
        if v is None:
            return None
        if M.is_seq(v) and M.seqify(v).kind == "b":
            return M.decode_seq(it, M.seqify(v), "utf-8")
        return M.c_str(it, v)
    if t is mf.Boolean:
        if v is None or v is True or v is False or isinstance(v, SBool):
            return v
        if isinstance(v, int) or type(v) is str:
            return True if v in f.truthy else False if v in f.falsy else bool(v)
        raise ToolError("truth value of another type")
    if t is mf.List:
        if v is None:
            return None
        return each(it, lambda x: dump_value(it, f.inner, x), f.inner, v)
    if t is mf.Nested:
        if v is None:
            return None
        return m_dump(it, nested(f), v)
    raise ToolError("schema field %s" % t.__name__)


def number_text(it, r):
    if isinstance(r, App) and r.type is float:
        return App("STRF", (r,), str)
    if isinstance(r, (int, SInt)):
        return M.int_to_text(it, r)
    n = M.to_py(r)
    if n is M.NOTNATIVE:
        raise ToolError("text of a number")
    return str(n)


def nested(f):
    n = f.nested
    if f.only is not None or f.exclude or f.many or f.unknown is not None or not (isinstance(n, type) and issubclass(n, ma.Schema)):
        raise ToolError("nested schema with options")
    check_class(n)
    return Inst(n)


def each(it, fn, inner, v):
    check_field(inner)
    if isinstance(v, SList):
        # elements of an unbounded list of texts: the field keeps texts as they are
        if type(inner) is mf.String and v.elem == "text":
            r = SList(v.token, v.plen, [fn(x) for x in v.items])
            r.elem = v.elem
            return r
        raise ToolError("unbounded list in a schema")
    return [fn(x) for x in it.iterate(v)]


# ------------------------------------------------------------------ load
def m_load(it, inst, data, *, many=None, partial=None, unknown=None):
    if not isinstance(inst, Inst) or many or partial:
        raise ToolError("load with options")
    check_class(inst.cls)
    data = hooks(it, inst, "pre_load", data, {"partial": None})
    if not isinstance(data, dict):
        py_raise(ma.ValidationError, "Invalid input type.")
    out = {}
    known = set()
    for name, f in inst.cls._declared_fields.items():
        check_field(f)
        key = f.data_key if f.data_key is not None else name
        known.add(key)
        v = data.get(key, missing)
        v = load_field(it, f, v)
        if v is not missing:
            k = f.attribute or name
            if "." in k:
                raise ToolError("dotted attribute")
            out[k] = v
    unknown = unknown or inst.cls.opts.unknown
    for k in data:
        if k not in known:
            if unknown == ma.RAISE:
                py_raise(ma.ValidationError, "Unknown field.")
            if unknown == ma.INCLUDE:
                out[k] = data[k]
    return hooks(it, inst, "post_load", out, {"partial": None})


def load_field(it, f, v):
    if v is missing:
        if f.required:
            invalid(f, "required")
        if f.load_default is missing:
            return missing
        if callable(f.load_default):
            raise ToolError("default function")
        return it.wrap(f.load_default)
    if v is None:
        if not f.allow_none:
            invalid(f, "null")
        return None
    return load_value(it, f, v)


def load_value(it, f, v):
    t = type(f)
    if t in NUMBERS:
        if v is True or v is False or isinstance(v, SBool):
            invalid(f)
        try:
            r = number(it, f, v)
        except PyRaise as e:
            if issubclass(e.exc.cls, (TypeError, ValueError, OverflowError)):
                invalid(f)
            raise
        if t is mf.Float and not f.allow_nan and not M.truth(it, float_finite(it, r)):
            invalid(f, "special")
        return r
    if t is mf.String:
        if isinstance(v, App) and v.type is str:
            return v
        if not M.is_seq(v):
            invalid(f)
        if M.seqify(v).kind == "b":
            return M.decode_seq(it, M.seqify(v), "utf-8")
        return M.c_str(it, v)
    if t is mf.Boolean:
        if v is True or v is False or isinstance(v, SBool):
            return v
        if isinstance(v, int) or type(v) is str:
            if v in f.truthy:
                return True
            if v in f.falsy:
                return False
            invalid(f)
        raise ToolError("truth value of another type")
    if t is mf.List:
        if not isinstance(v, (list, SList)):
            if isinstance(v, (tuple, IterObj)):
                raise ToolError("loading of an iterable")
            invalid(f)
        return each(it, lambda x: load_field(it, f.inner, x), f.inner, v)
    if t is mf.Nested:
        return m_load(it, nested(f), v)
    raise ToolError("schema field %s" % t.__name__)


def float_finite(it, v):
    import math

    return M.FUNCS[math.isfinite](it, v)
