"""Symbolic interpreter for the Python code under verification.

It executes the syntax tree of the *current* source text of every function (re-read from
the files on each run).  Nothing is translated by hand: a construct it does not know
raises ToolError, which is reported as "not decided".
"""
import ast
import builtins
import enum
import inspect
import linecache
import sys
import types

import z3

from . import core
from .core import *


class ExcVal:
    def __init__(self, cls, args=(), cause=None):
        self.cls, self.args, self.cause = cls, tuple(args), cause
        self.fields = {}

    def __repr__(self):
        return "%s%r" % (self.cls.__name__, self.args)


class Func:
    """function of the program"""

    __slots__ = ("node", "globals", "closure", "cells", "name", "qualname", "defaults", "kwdefaults", "defcls", "native", "module", "is_gen", "attrs")

    def __init__(self, node, globals_, closure, cells, name, qualname, defaults, kwdefaults, defcls=None, native=None):
        self.node, self.globals, self.closure, self.cells = node, globals_, closure, cells
        self.name, self.qualname = name, qualname
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.defcls = defcls
        self.native = native
        self.module = globals_.get("__name__", "")
        self.is_gen = None
        self.attrs = {}

    def __repr__(self):
        return "<fn %s>" % self.qualname


class BoundMethod:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class MethodRef:
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class FrameVal:
    """result of sys._getframe; see models.frame_from"""

    def __init__(self, g):
        self.g = g


class CodeVal:
    def __init__(self, name):
        self.name = name


class IterObj:
    """iterator with an explicit position"""

    __slots__ = ("kind", "src", "pos", "extra")

    def __init__(self, kind, src, pos=0, extra=None):
        self.kind, self.src, self.pos, self.extra = kind, src, pos, extra

    def __repr__(self):
        return "<iter %s %r @%r>" % (self.kind, self.src, self.pos)


class RangeVal:
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step


class Frame:
    __slots__ = ("locals", "globals", "parent", "func", "name", "globalnames", "nonlocals", "cells", "serial", "yields")

    def __init__(self, func, parent=None):
        self.locals = {}
        self.globals = func.globals
        self.parent = parent
        self.func = func
        self.name = func.name
        self.globalnames = ()
        self.nonlocals = ()
        self.cells = func.cells
        self.yields = None


class _Sig:
    def __init__(self, n):
        self.n = n


BRK, CNT = _Sig("break"), _Sig("continue")


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def py_raise(cls, *args):
    raise PyRaise(ExcVal(cls, args))


# ------------------------------------------------------------------ source lookup
class SourceIndex:
    def __init__(self):
        self.files = {}
        self.funcs = {}

    def module(self, filename):
        if filename not in self.files:
            lines = linecache.getlines(filename)
            if not lines:
                raise ToolError("no source for %s" % filename)
            tree = ast.parse("".join(lines), filename)
            idx = {}
            for parent in ast.walk(tree):
                for n in ast.iter_child_nodes(parent):
                    n.parent = parent
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ln = min([n.lineno] + [d.lineno for d in n.decorator_list])
                    idx.setdefault((ln, n.name), []).append(n)
                elif isinstance(n, ast.Lambda):
                    idx.setdefault((n.lineno, "<lambda>"), []).append(n)
                n.file = filename
            self.files[filename] = (tree, idx)
        return self.files[filename]

    def node(self, fn):
        code = fn.__code__
        if code in self.funcs:
            return self.funcs[code]
        _, idx = self.module(code.co_filename)
        c = idx.get((code.co_firstlineno, code.co_name)) or []
        if len(c) > 1:
            c2 = [n for n in c if self._same(n, code)]
            c = c2 or c
        if not c:
            raise ToolError("no source node for %s" % fn.__qualname__)
        self.funcs[code] = c[0]
        return c[0]

    @staticmethod
    def _same(n, code):
        if not isinstance(n, ast.Lambda):
            return True
        cols = [p[2] for p in code.co_positions() if p[2] is not None and p[0] == n.body.lineno]
        return bool(cols) and min(cols) >= n.col_offset and max(cols) <= n.end_col_offset


SRC = SourceIndex()
ANNOTATIONS = ("loopvar", "loopobj", "invariant", "ghosts", "decreases")

INTERPRETED = ("elgas", "contracts", "dv.vlib", "dv.prelude", "attr.validators", "attr._make", "attr.setters", "attr.converters", "functools")


def interpretable(mod):
    mod = mod or ""
    for p in INTERPRETED:
        if mod == p or mod.startswith(p + "."):
            return True
    return False


def own_class(cls):
    """class whose instances are represented symbolically"""
    if not isinstance(cls, type):
        return False
    m = cls.__module__ or ""
    if m == "dv.vlib":
        return cls.__name__ == "Outcome" or issubclass(cls, BaseException)
    return m == "elgas" or m.startswith("elgas.") or m.startswith("contracts")


class Interp:
    def __init__(self, contracts=None, target=None):
        self.contracts = contracts or {}  # native function -> Contract
        self.inline = set()  # functions whose contract must not be used
        self.stack = []
        self.used_contracts = set()
        self.inlined = set()
        self.models_used = set()
        self.loop_hook = None
        self.steps = 0
        self.fuel = 3_000_000
        self.overlay = {}  # path-local globals / class attributes
        self.written = set()  # those the program has assigned
        self.copies = {}
        self.concrete = False
        self.unroll = 700
        from . import models

        self.m = models
        self._dispatch_e = {}
        self._dispatch_s = {}
        for k in dir(self):
            if k.startswith("e_"):
                self._dispatch_e[getattr(ast, k[2:])] = getattr(self, k)
            elif k.startswith("s_"):
                self._dispatch_s[getattr(ast, k[2:])] = getattr(self, k)

    # -------------------------------------------------------------- helpers
    def wrap(self, v):
        """path-local copy of a mutable object of the native world"""
        t = type(v)
        if t in (int, str, bytes, bool, float, type(None), types.FunctionType, types.ModuleType, type):
            return v
        if t in (list, dict, set, bytearray) or (own_class(t) and not isinstance(v, (type, enum.Enum)) and not isinstance(v, (str, bytes, int, BaseException)) and hasattr(v, "__dict__")):
            k = id(v)
            if k in self.copies:
                return self.copies[k][1]
            if t is list:
                n = []
                self.copies[k] = (v, n)
                n.extend(self.wrap(x) for x in v)
            elif t is dict:
                n = {}
                self.copies[k] = (v, n)
                n.update((a, self.wrap(b)) for a, b in v.items())
            elif t is set:
                n = set(v)
                self.copies[k] = (v, n)
            elif t is bytearray:
                n = MBytes(from_native(bytes(v)))
                self.copies[k] = (v, n)
            else:
                n = Inst(t)
                self.copies[k] = (v, n)
                for a, b in v.__dict__.items():
                    n.fields[a] = self.wrap(b)
            return n
        if t is tuple:
            return tuple(self.wrap(x) for x in v)
        return v

    def lift(self, fn):
        """native function -> Func"""
        node = SRC.node(fn)
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                cells[n] = c
        return Func(node, fn.__globals__, None, cells, fn.__name__, fn.__qualname__, fn.__defaults__ or (), fn.__kwdefaults__ or {}, native=fn)

    # -------------------------------------------------------------- names
    def load(self, name, fr):
        f = fr
        if name not in fr.globalnames:
            while f is not None:
                if name in f.locals:
                    v = f.locals[name]
                    if v is POISON:
                        raise ToolError("value of %s at a loop head is unknown" % name)
                    return v
                if f.cells and name in f.cells:
                    key = ("cell", id(f.cells[name]))
                    if key in self.overlay:
                        return self.overlay[key]
                    try:
                        return self.wrap(f.cells[name].cell_contents)
                    except ValueError:
                        py_raise(NameError, name)
                f = f.parent
        return self.load_global(name, fr.globals, fr)

    def load_global(self, name, g, fr=None):
        key = (id(g), name)
        if key in self.overlay:
            return self.overlay[key]
        if name in g:
            return self.wrap(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if fr is not None and name in self._assigned_names(fr.func):
            py_raise(UnboundLocalError, name)
        py_raise(NameError, name)

    def _assigned_names(self, func):
        return ()

    def store(self, name, v, fr):
        if name in fr.globalnames:
            self.overlay[(id(fr.globals), name)] = v
            self.written.add((id(fr.globals), name))
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals:
                    f.locals[name] = v
                    return
                if f.cells and name in f.cells:
                    self.overlay[("cell", id(f.cells[name]))] = v
                    return
                f = f.parent
            if fr.cells and name in fr.cells:
                self.overlay[("cell", id(fr.cells[name]))] = v
                return
            raise ToolError("nonlocal %s" % name)
        fr.locals[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.m.setitem(self, o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.iterate(v, limit=None if star else len(t.elts) + 1)
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < i + after:
                    py_raise(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, list(vals[i : len(vals) - after]), fr)
                for e, x in zip(t.elts[i + 1 :], vals[len(vals) - after :]):
                    self.assign(e, x, fr)
            else:
                if len(vals) != len(t.elts):
                    py_raise(ValueError, "unpack")
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
        else:
            raise ToolError("assignment target %s" % type(t).__name__)

    # -------------------------------------------------------------- attributes
    def class_lookup(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1 :]
        for c in mro:
            if (c, name) in self.overlay:
                return self.overlay[(c, name)], c
            if name in c.__dict__:
                return c.__dict__[name], c
        return None, None

    def bind(self, raw, owner, obj, cls):
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, classmethod):
            return BoundMethod(raw.__func__, cls)
        if isinstance(raw, property):
            if obj is None:
                return raw
            if raw.fget is None:
                py_raise(AttributeError, "unreadable")
            return self.call(raw.fget, [obj], {})
        if isinstance(raw, (types.FunctionType, Func)):
            return raw if obj is None else BoundMethod(raw, obj)
        tn = type(raw).__name__
        if tn == "cached_property" and obj is not None:
            v = self.call(raw.func, [obj], {})
            if isinstance(obj, Inst):
                obj.fields[raw.attrname] = v
            return v
        if tn in ("member_descriptor",) and isinstance(obj, Inst):
            py_raise(AttributeError, "slot")
        if tn == "_lru_cache_wrapper":
            return raw if obj is None else BoundMethod(raw, obj)
        if tn in ("wrapper_descriptor", "method_descriptor", "classmethod_descriptor", "builtin_function_or_method", "method-wrapper", "slot wrapper"):
            return MethodRef(obj, raw.__name__) if obj is not None else raw
        return self.wrap(raw)

    def getattr(self, o, name, default=None, has_default=False):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if has_default and issubclass(e.exc.cls, AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Inst):
            raw, owner = self.class_lookup(o.cls, name)
            if isinstance(raw, property):
                return self.bind(raw, owner, o, o.cls)
            if name in o.fields:
                v = o.fields[name]
                if v is POISON:
                    raise ToolError("value of attribute %s at a loop head is unknown" % name)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.fields
            if owner is not None:
                return self.bind(raw, owner, o, o.cls)
            ga, _ = self.class_lookup(o.cls, "__getattr__")
            if ga is not None:
                return self.call(ga, [o, name], {})
            py_raise(AttributeError, name)
        if isinstance(o, Super):
            cls = o.obj if isinstance(o.obj, type) else self.m.class_of(o.obj)
            raw, owner = self.class_lookup(cls, name, after=o.cls)
            if owner is None:
                py_raise(AttributeError, name)
            if isinstance(o.obj, type):
                if isinstance(raw, classmethod):
                    return BoundMethod(raw.__func__, o.obj)
                return self.bind(raw, owner, None, cls)
            if owner in (object, str, bytes, Exception, BaseException, int):
                return MethodRef(o.obj, "super:" + name) if not isinstance(o.obj, (Inst,)) else MethodRef(o, name)
            return self.bind(raw, owner, o.obj, cls)
        if isinstance(o, ExcVal):
            if name == "args":
                return o.args
            if name == "__class__":
                return o.cls
            if name == "__cause__":
                return o.cause
            if name in o.fields:
                return o.fields[name]
            raw, owner = self.class_lookup(o.cls, name)
            if owner is not None:
                return self.bind(raw, owner, o, o.cls)
            py_raise(AttributeError, name)
        if isinstance(o, FrameVal):
            if name == "f_code":
                return CodeVal(self.m.frame_name(self, o))
            if name == "f_back":
                return self.m.frame_from(self, self.m.binop(self, ast.Add, o.g, 1))
            raise ToolError("frame attribute %s" % name)
        if isinstance(o, CodeVal):
            if name == "co_name":
                return o.name
            raise ToolError("code attribute %s" % name)
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            py_raise(AttributeError, name)
        if isinstance(o, BoundMethod):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, (SInt, SReal, SBool, Seq, MBytes, App, SList, SDT, RangeVal, IterObj)):
            return self.m.sym_getattr(self, o, name)
        if isinstance(o, type):
            if (o, name) in self.overlay:
                return self.overlay[(o, name)]
            if interpretable(o.__module__):
                raw, owner = self.class_lookup(o, name)
                if owner is not None and owner is not object and owner is not type:
                    if not issubclass(o, enum.Enum) or isinstance(raw, (types.FunctionType, classmethod, staticmethod)):
                        if interpretable(owner.__module__):
                            return self.bind(raw, owner, None, o)
            try:
                v = getattr(o, name)
            except AttributeError:
                py_raise(AttributeError, name)
            return v
        if isinstance(o, types.ModuleType):
            if (id(o.__dict__), name) in self.overlay:
                return self.overlay[(id(o.__dict__), name)]
            if (o.__name__, name) in self.m.MODULE_ATTRS:
                return self.m.MODULE_ATTRS[(o.__name__, name)](self)
            try:
                return self.wrap(getattr(o, name))
            except AttributeError:
                py_raise(AttributeError, name)
        if type(o) in (list, dict, set, tuple, frozenset):
            return MethodRef(o, name)
        if isinstance(o, (str, bytes)) or isinstance(o, (int, float)):
            if isinstance(o, enum.Enum) or own_class(type(o)):
                raw, owner = self.class_lookup(type(o), name)
                if owner is not None and interpretable(owner.__module__):
                    return self.bind(raw, owner, o, type(o))
                if isinstance(o, enum.Enum):
                    try:
                        v = getattr(o, name)
                    except AttributeError:
                        py_raise(AttributeError, name)
                    if not callable(v):
                        return v
            if not hasattr(o, name):
                py_raise(AttributeError, name)
            v = getattr(o, name)
            if not callable(v):
                return v
            return MethodRef(o, name)
        # other native objects
        mod = type(o).__module__ or ""
        if mod.startswith("structlog"):
            return MethodRef(o, name)
        try:
            v = getattr(o, name)
        except AttributeError:
            py_raise(AttributeError, name)
        if isinstance(v, types.MethodType) and v.__self__ is o:
            return BoundMethod(v.__func__, o)
        return self.wrap(v)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            raw, owner = self.class_lookup(o.cls, name)
            if isinstance(raw, property):
                if raw.fset is None:
                    py_raise(AttributeError, name)
                self.call(raw.fset, [o, v], {})
                return
            sa, owner = self.class_lookup(o.cls, "__setattr__")
            if sa is not None and owner is not object and isinstance(sa, types.FunctionType):
                self.call(sa, [o, name, v], {})
                return
            o.fields[name] = v
        elif isinstance(o, type):
            self.overlay[(o, name)] = v
            self.written.add((o, name))
        elif isinstance(o, types.ModuleType):
            self.overlay[(id(o.__dict__), name)] = v
            self.written.add((id(o.__dict__), name))
        elif isinstance(o, ExcVal):
            if name == "__cause__":
                o.cause = v
            else:
                o.fields[name] = v
        elif isinstance(o, Func):
            o.attrs[name] = v
        elif isinstance(o, (SInt, SReal, Seq, MBytes, SBool, str, bytes, int, list, dict, tuple, type(None))):
            py_raise(AttributeError, name)
        else:
            raise ToolError("attribute assignment on %r" % type(o))

    # -------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundMethod):
            if isinstance(f.func, (types.FunctionType, Func)):
                return self.call(f.func, [f.self] + list(args), kwargs)
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, MethodRef):
            return self.m.call_method(self, f.obj, f.name, list(args), kwargs)
        if isinstance(f, types.MethodType):
            if f.__func__.__module__ == "random":
                mod = self.m.FUNCS.get(f)
                if mod is not None:
                    return mod(self, *args, **kwargs)
            return self.call(f.__func__, [self.wrap(f.__self__)] + list(args), kwargs)
        if isinstance(f, types.FunctionType):
            c = self.contracts.get(f)
            if c is not None and f not in self.inline and not self.concrete:
                self.used_contracts.add(c.name)
                return c.apply(self, args, kwargs)
            mod = self.m.FUNCS.get(f)
            if mod is not None:
                return mod(self, *args, **kwargs)
            if interpretable(f.__module__):
                if f.__module__ == "elgas" or (f.__module__ or "").startswith("elgas."):
                    self.inlined.add("%s.%s" % (f.__module__, f.__qualname__))
                return self.call_func(self.lift(f), args, kwargs)
            return self.native_call(f, args, kwargs)
        if isinstance(f, type):
            return self.m.call_class(self, f, list(args), kwargs)
        if isinstance(f, Inst):
            raw, owner = self.class_lookup(f.cls, "__call__")
            if owner is None:
                py_raise(TypeError, "not callable")
            return self.call(raw, [f] + list(args), kwargs)
        mod = None
        try:
            mod = self.m.FUNCS.get(f)
        except TypeError:
            pass
        if mod is not None:
            return mod(self, *args, **kwargs)
        if type(f).__name__ == "_lru_cache_wrapper":
            core.C.inexact.append("cached function treated as uncached")
            return self.call(f.__wrapped__, args, kwargs)
        if type(f).__name__ == "partial":
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, [self.wrap(a) for a in f.args] + list(args), kw)
        if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)) and getattr(f, "__self__", None) is not None and not isinstance(f.__self__, types.ModuleType):
            # bound builtin method, e.g. "".join
            s = f.__self__
            if not isinstance(s, type):
                return self.m.call_method(self, s, f.__name__, list(args), kwargs)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            return self.m.call_method(self, args[0], f.__name__, list(args[1:]), kwargs)
        call = type(f).__dict__.get("__call__")
        if isinstance(call, types.FunctionType) and interpretable(type(f).__module__):
            return self.call_func(self.lift(call), [f] + list(args), kwargs)
        if not callable(f) and not isinstance(f, (SInt, SReal, Seq)):
            py_raise(TypeError, "object is not callable")
        return self.native_call(f, args, kwargs)

    def native_call(self, f, args, kwargs):
        a = [self.m.to_py(x) for x in args]
        k = {n: self.m.to_py(x) for n, x in kwargs.items()}
        if any(x is self.m.NOTNATIVE for x in a) or any(x is self.m.NOTNATIVE for x in k.values()):
            raise ToolError("no model for %s with symbolic arguments" % (getattr(f, "__qualname__", None) or f,))
        name = "%s.%s" % (getattr(f, "__module__", ""), getattr(f, "__qualname__", f))
        if not self.m.native_allowed(f, name):
            raise ToolError("native call of %s" % name)
        try:
            r = f(*a, **k)
        except Exception as e:
            raise PyRaise(ExcVal(type(e), e.args))
        return self.m.from_py(self, r)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(pos, args):
            loc[n] = v
        if len(args) > len(pos):
            if not a.vararg:
                py_raise(TypeError, "%s() takes %d arguments but %d were given" % (f.name, len(pos), len(args)))
            loc[a.vararg.arg] = tuple(args[len(pos) :])
        elif a.vararg:
            loc[a.vararg.arg] = ()
        extra = {}
        for n, v in kwargs.items():
            if n in loc and n in pos:
                py_raise(TypeError, "multiple values for argument %s" % n)
            if n in pos or n in kwonly:
                loc[n] = v
            elif a.kwarg:
                extra[n] = v
            else:
                py_raise(TypeError, "%s() got an unexpected keyword argument %s" % (f.name, n))
        if a.kwarg:
            loc[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (len(pos) - nd)
                if j < 0:
                    py_raise(TypeError, "%s() missing argument %s" % (f.name, n))
                loc[n] = self.wrap(f.defaults[j]) if f.native else f.defaults[j]
        for n in kwonly:
            if n not in loc:
                if n not in f.kwdefaults:
                    py_raise(TypeError, "%s() missing keyword argument %s" % (f.name, n))
                loc[n] = self.wrap(f.kwdefaults[n]) if f.native else f.kwdefaults[n]
        return loc

    def call_func(self, f, args, kwargs):
        fr = Frame(f, f.closure)
        fr.locals = self.bind_args(f, args, kwargs)
        if isinstance(f.node, ast.AsyncFunctionDef):
            raise ToolError("async function")
        if len(self.stack) > 180:
            raise ToolError("recursion too deep in %s" % f.qualname)
        if f.is_gen is None:
            f.is_gen = not isinstance(f.node, ast.Lambda) and _has_yield(f.node)
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if f.is_gen:
                core.C.inexact.append("generator evaluated eagerly")
                fr.yields = []
                self.block(f.node.body, fr)
                return IterObj("list", fr.yields)
            r = self.block(f.node.body, fr)
            if isinstance(r, Ret):
                return r.v
            return None
        finally:
            self.stack.pop()

    # -------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            r = self.exec(s, fr)
            if r is not None:
                return r
        return None

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.fuel:
            raise ToolError("step limit")
        if self.steps & 1023 == 0:
            core.C.tick()
        h = self._dispatch_s.get(type(s))
        if h is None:
            raise ToolError("statement %s" % type(s).__name__)
        return h(s, fr)

    def s_Expr(self, s, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ANNOTATIONS and fr.func.module.startswith("contracts"):
            return  # evaluated by the loop rule
        self.eval(v, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            self.store(t.id, self.m.inplace(self, type(s.op), cur, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.m.inplace(self, type(s.op), cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            cur = self.m.getitem(self, o, i)
            self.m.setitem(self, o, i, self.m.inplace(self, type(s.op), cur, self.eval(s.value, fr)))
        else:
            raise ToolError("augmented assignment")

    def s_Return(self, s, fr):
        return Ret(None if s.value is None else self.eval(s.value, fr))

    def s_Pass(self, s, fr):
        return None

    def s_Break(self, s, fr):
        return BRK

    def s_Continue(self, s, fr):
        return CNT

    def s_Global(self, s, fr):
        fr.globalnames = tuple(fr.globalnames) + tuple(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def s_If(self, s, fr):
        return self.block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            py_raise(AssertionError)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.locals:
                    del fr.locals[t.id]
                else:
                    py_raise(NameError, t.id)
            elif isinstance(t, ast.Subscript):
                self.m.delitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Inst) and t.attr in o.fields:
                    del o.fields[t.attr]
                else:
                    py_raise(AttributeError, t.attr)
            else:
                raise ToolError("del")

    def s_Import(self, s, fr):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.locals[a.asname] = m
            else:
                fr.locals[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, s, fr):
        import importlib

        if s.level:
            pkg = fr.globals.get("__package__") or ""
            base = pkg.rsplit(".", s.level - 1)[0] if s.level > 1 else pkg
            m = importlib.import_module(base + ("." + s.module if s.module else ""))
        else:
            m = importlib.import_module(s.module)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = importlib.import_module(m.__name__ + "." + a.name)
            fr.locals[a.asname or a.name] = v

    def s_FunctionDef(self, s, fr):
        fr.locals[s.name] = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            fr.locals[s.name] = self.call(self.eval(d, fr), [fr.locals[s.name]], {})

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.eval(d, fr) for d in a.defaults)
        kwd = {}
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[n.arg] = self.eval(d, fr)
        f = Func(node, fr.globals, fr, fr.cells, name, fr.func.qualname + ".<locals>." + name, defaults, kwd)
        return f

    def s_ClassDef(self, s, fr):
        raise ToolError("class definition inside a function")

    def s_Raise(self, s, fr):
        if s.exc is None:
            for f in reversed(self.stack):
                e = f.locals.get("$exc")
                if e:
                    raise PyRaise(e[-1])
            py_raise(RuntimeError, "No active exception to reraise")
        e = self.eval(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [], {})
        if isinstance(e, BaseException):
            e = ExcVal(type(e), e.args)
        if not isinstance(e, ExcVal):
            py_raise(TypeError, "exceptions must derive from BaseException")
        if s.cause is not None:
            c = self.eval(s.cause, fr)
            e.cause = c
        raise PyRaise(e, (getattr(s, "file", ""), s.lineno))

    def s_Try(self, s, fr):
        def inner():
            try:
                r = self.block(s.body, fr)
            except PyRaise as pe:
                exc = pe.exc
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, fr)
                        ok = self.exc_match(exc, t)
                    if ok:
                        if h.name:
                            fr.locals[h.name] = exc
                        fr.locals.setdefault("$exc", []).append(exc)
                        try:
                            return self.block(h.body, fr)
                        finally:
                            fr.locals["$exc"].pop()
                            if h.name:
                                fr.locals.pop(h.name, None)
                raise
            if r is None and s.orelse:
                return self.block(s.orelse, fr)
            return r

        if not s.finalbody:
            return inner()
        try:
            r = inner()
        except PyRaise as pe:
            fr.locals.setdefault("$exc", []).append(pe.exc)
            try:
                r2 = self.block(s.finalbody, fr)
            finally:
                fr.locals["$exc"].pop()
            if r2 is not None:
                return r2
            raise
        r2 = self.block(s.finalbody, fr)
        return r2 if r2 is not None else r

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if not isinstance(t, type):
            raise ToolError("exception pattern")
        return issubclass(exc.cls, t)

    def s_With(self, s, fr):
        def go(items):
            if not items:
                return self.block(s.body, fr)
            it = items[0]
            cm = self.eval(it.context_expr, fr)
            r = self.m.context_manager(self, cm, it, fr, lambda: go(items[1:]))
            return r

        return go(s.items)

    def s_While(self, s, fr):
        if self.loop_hook is not None:
            r = self.loop_hook(self, s, fr, None)
            if r is not NotImplemented:
                return r
        return self.while_from(s, fr)

    def while_from(self, s, fr):
        n = 0
        while True:
            if not self.truth(self.eval(s.test, fr)):
                return self.block(s.orelse, fr)
            r = self.block(s.body, fr)
            if r is BRK:
                return None
            if isinstance(r, Ret):
                return r
            n += 1
            if n > self.unroll:
                raise ToolError("loop at line %d needs an invariant (unrolled %d times)" % (s.lineno, n))
            if self.loop_hook is not None:
                x = self.loop_hook(self, s, fr, None, True)
                if x is not NotImplemented:
                    return x

    def s_For(self, s, fr):
        it = self.m.get_iter(self, self.eval(s.iter, fr))
        if self.loop_hook is not None:
            r = self.loop_hook(self, s, fr, it)
            if r is not NotImplemented:
                return r
        return self.for_from(s, fr, it)

    def for_from(self, s, fr, it):
        n = 0
        while True:
            ok, v = self.m.iter_next(self, it)
            if not ok:
                return self.block(s.orelse, fr)
            self.assign(s.target, v, fr)
            r = self.block(s.body, fr)
            if r is BRK:
                return None
            if isinstance(r, Ret):
                return r
            n += 1
            if n > self.unroll:
                raise ToolError("loop at line %d needs an invariant (unrolled %d times)" % (s.lineno, n))
            if self.loop_hook is not None:
                x = self.loop_hook(self, s, fr, it, True)
                if x is not NotImplemented:
                    return x

    def s_Match(self, s, fr):
        v = self.eval(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.eval(c.guard, fr))):
                return self.block(c.body, fr)
        return None

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.m.compare(self, ast.Eq, v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.m.compare(self, ast.Is, v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                fr.locals[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, fr) for x in p.patterns)
        raise ToolError("match pattern %s" % type(p).__name__)

    # -------------------------------------------------------------- expressions
    def truth(self, v):
        return self.m.truth(self, v)

    def eval(self, e, fr):
        h = self._dispatch_e.get(type(e))
        if h is None:
            raise ToolError("expression %s" % type(e).__name__)
        return h(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def eval_index(self, e, fr):
        if isinstance(e, ast.Slice):
            return slice(*[None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)])
        return self.eval(e, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.m.getitem(self, o, self.eval_index(e.slice, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.eval_list(e.elts, fr))

    def e_List(self, e, fr):
        return list(self.eval_list(e.elts, fr))

    def e_Set(self, e, fr):
        vals = self.eval_list(e.elts, fr)
        if all(self.m.to_py(v) is not self.m.NOTNATIVE for v in vals):
            return set(self.m.to_py(v) for v in vals)
        return tuple(vals)  # membership only

    def eval_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                kk = self.m.hashable(self, self.eval(k, fr))
                d[kk] = self.eval(v, fr)
        return d

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.m.binop(self, type(e.op), a, self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        return self.m.unop(self, type(e.op), v)

    def e_BoolOp(self, e, fr):
        v = None
        is_and = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            if self.truth(v) != is_and:
                return v
        return self.eval(e.values[-1], fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            res = self.m.compare(self, type(op), left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            cls = None
            while f is not None and cls is None:
                if f.cells and "__class__" in f.cells:
                    cls = f.cells["__class__"].cell_contents
                f = f.parent
            if cls is None:
                raise ToolError("super() outside a class")
            first = fr.func.node.args
            self_ = fr.locals[(first.posonlyargs + first.args)[0].arg]
            return Super(cls, self_)
        f = self.eval(e.func, fr)
        if e.args and isinstance(e.args[0], ast.GeneratorExp):
            if f in (builtins.next, builtins.any, builtins.all) and len(e.args[0].generators) == 1 and not e.keywords:
                return self.first_of(f, e, fr)
            if self.drains(f):
                e.args[0].drained = True
        args = self.eval_list(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, dict):
                    raise ToolError("** of a non-dict")
                for a, b in d.items():
                    if a in kw:
                        py_raise(TypeError, "multiple values")
                    kw[a] = b
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if f is builtins.locals or f is builtins.globals or f is builtins.vars:
            raise ToolError("locals()/globals()")
        return self.call(f, args, kw)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.name == "<comp>":
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.e_FormattedValue(p, fr))
        return self.m.join_text(self, parts)

    def e_FormattedValue(self, e, fr):
        v = self.eval(e.value, fr)
        spec = "" if e.format_spec is None else self.e_JoinedStr(e.format_spec, fr)
        return self.m.format_value(self, v, e.conversion, spec)

    def e_Yield(self, e, fr):
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        f.yields.append(None if e.value is None else self.eval(e.value, fr))
        if len(f.yields) > 4000:
            raise ToolError("generator too long")
        return None

    def e_YieldFrom(self, e, fr):
        fr.yields.extend(self.iterate(self.eval(e.value, fr)))
        return None

    def e_Starred(self, e, fr):
        raise ToolError("starred expression")

    def comp(self, gens, fr, emit):
        f = Frame(fr.func, fr)
        f.name = "<comp>"
        f.cells = None

        def go(i):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            src = self.eval(g.iter, f if i else fr)
            it = self.m.get_iter(self, src)
            n = 0
            while True:
                ok, v = self.m.iter_next(self, it)
                if not ok:
                    break
                self.assign(g.target, v, f)
                if all(self.truth(self.eval(c, f)) for c in g.ifs):
                    go(i + 1)
                n += 1
                if n > self.unroll:
                    raise ToolError("comprehension over unbounded data")

        go(0)

    def drains(self, f):
        """The callee takes every element before it does anything else."""
        if isinstance(f, MethodRef):
            return True
        return any(f is x for x in (list, tuple, set, frozenset, dict, bytes, bytearray, sum, sorted, min, max))

    def first_of(self, f, e, fr):
        """next, any and all stop at the first element they want"""
        r = self.comp_loop(e.args[0], fr, f)
        if f is builtins.any:
            return bool(r)
        if f is builtins.all:
            return not r
        if r:
            return r[0]
        if len(e.args) > 1:
            return self.eval(e.args[1], fr)
        py_raise(StopIteration, "")

    def comp_loop(self, e, fr, first=None):
        """A comprehension as a loop, so that the loop rule applies to it."""
        g = e.generators[0]
        name = "as_loop" if first is None else "as_loop_" + first.__name__
        node = getattr(e, name, None)
        if node is None:
            elt = e.elt if first in (None, builtins.next) else ast.Constant(True)
            add = ast.Expr(ast.Call(ast.Attribute(ast.Name(".acc", ast.Load()), "append", ast.Load()), [elt], []))
            body = [add] if first is None else [add, ast.Break()]
            if first is builtins.any:
                body = [ast.If(e.elt, body, [])]
            if first is builtins.all:
                body = [ast.If(ast.UnaryOp(ast.Not(), e.elt), body, [])]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            node = ast.For(g.target, g.iter, body, [])
            own = [node]
            for n in own:
                ast.copy_location(n, e)
                own += [c for c in ast.iter_child_nodes(n) if not hasattr(c, "lineno") and isinstance(c, (ast.stmt, ast.expr))]
            node.file = getattr(e, "file", "")
            setattr(e, name, node)
        f = Frame(fr.func, fr)
        f.name = "<comp>"
        f.cells = None
        f.locals[".acc"] = []
        it = self.m.get_iter(self, self.eval(g.iter, fr))
        if self.loop_hook is None or self.loop_hook(self, node, f, it) is NotImplemented:
            self.for_from(node, f, it)
        return f.locals[".acc"]

    def e_ListComp(self, e, fr):
        r = self.m.comp_shortcut(self, e, fr)
        if r is not None:
            return r
        if len(e.generators) == 1 and self.loop_hook is not None:
            return self.comp_loop(e, fr)
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.eval(e.elt, f)))
        return out

    def e_GeneratorExp(self, e, fr):
        r = self.m.comp_shortcut(self, e, fr)
        if r is not None:
            return r
        if not getattr(e, "drained", False):
            core.C.inexact.append("generator evaluated eagerly")
        if len(e.generators) == 1 and self.loop_hook is not None:
            return IterObj("list", self.comp_loop(e, fr))
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.eval(e.elt, f)))
        return IterObj("list", out)

    def e_SetComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.eval(e.elt, f)))
        return set(self.m.hashable(self, x) for x in out)

    def e_DictComp(self, e, fr):
        out = {}

        def emit(f):
            out[self.m.hashable(self, self.eval(e.key, f))] = self.eval(e.value, f)

        self.comp(e.generators, fr, emit)
        return out

    def iterate(self, v, limit=None):
        """all elements as a list"""
        it = self.m.get_iter(self, v)
        out = []
        while True:
            ok, x = self.m.iter_next(self, it)
            if not ok:
                return out
            out.append(x)
            if limit is not None and len(out) >= limit:
                return out
            if len(out) > self.unroll:
                raise ToolError("unbounded iteration")


def _has_yield(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False
