"""Specification vocabulary.

Contracts and harnesses are ordinary Python that uses these primitives.  They are
interpreted symbolically to prove a property and run natively to replay a counterexample.
"""
import ast as _ast
import copy as _copy
import inspect as _inspect
import json as _json
import os as _os
import random as _random
import struct as _struct
import sys as _sys
import textwrap as _textwrap


class CheckFailed(BaseException):
    """A check of a harness does not hold (native run)."""


class Skip(BaseException):
    """The precondition of a harness does not hold (native run)."""


class Reject(Exception):
    """In a contract: the function must raise some exception."""


class Unspecified(Exception):
    """In a contract: nothing is promised for these arguments."""


class Outcome:
    def __init__(self, ok, value, exc):
        self.ok = ok
        self.value = value
        self.exc = exc

    def raised(self, cls=Exception):
        return not self.ok and isinstance(self.exc, cls)


def outcome(fn, *args):
    """Result or exception of a call."""
    try:
        return Outcome(True, fn(*args), None)
    except Exception as e:
        return Outcome(False, None, e)


# ------------------------------------------------------------------ native state
class Oracle:
    """Values of the environment in a native run."""

    def __init__(self, table=None, rng=None):
        self.table = dict(table or {})
        self.rng = rng or _random.Random(0)
        self.witness = None
        self.patches = []
        self.defined = []
        self.streaks = self.rng.random() < 0.3  # the environment tends to repeat itself
        self.last = {}

    def get(self, key, T):
        if key not in self.table:
            was = self.last.get(key[0])
            if self.streaks and was is not None and was[0] is T and self.rng.random() < 0.75:
                self.table[key] = _copy.deepcopy(was[1])
            else:
                self.table[key] = T.sample(self.rng)
            self.last[key[0]] = (T, self.table[key])
        return self.table[key]

    def undo(self):
        for obj, name, old, had in reversed(self.patches):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self.patches = []


ORACLE = Oracle()


def set_oracle(o):
    global ORACLE
    ORACLE = o


def check(cond, what="check"):
    if not cond:
        raise CheckFailed(what)


def check_eq(a, b, what="values differ"):
    if not alike(a, b):
        raise CheckFailed("%s: %s != %s" % (what, _short(a), _short(b)))


def text_of(v, depth=0):
    """for messages; asks no object of the program for its representation, as that may not end"""
    try:
        if isinstance(v, (bytes, str)):
            return (bytes if isinstance(v, bytes) else str).__repr__(v)
        if depth > 6:
            return "..."
        if isinstance(v, (list, tuple)):
            return "[("[isinstance(v, tuple)] + ", ".join(text_of(x, depth + 1) for x in v) + "])"[isinstance(v, tuple)]
        if isinstance(v, dict):
            return "{" + ", ".join(text_of(k, depth + 1) + ": " + text_of(x, depth + 1) for k, x in v.items()) + "}"
        if isinstance(v, BaseException):
            return "%s(%s)" % (type(v).__name__, ", ".join(text_of(x, depth + 1) for x in v.args))
        if type(v).__module__.split(".")[0] in ("elgas", "contracts", "dv") and isinstance(getattr(v, "__dict__", None), dict) and not isinstance(v, (int, type)) and not callable(v):
            return "%s(%s)" % (type(v).__name__, ", ".join("%s=%s" % (k, text_of(x, depth + 1)) for k, x in v.__dict__.items()))
        return repr(v)
    except Exception:
        return "<%s>" % type(v).__name__


def _short(v):
    r = text_of(v)
    return r if len(r) < 400 else r[:400] + "..."


def require(cond):
    if not cond:
        raise Skip()


KNOWN = _json.load(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "known.json")))


def unknown_attribute(cls, name):
    """An attribute that the classes of the original tree do not have: no contract speaks of it."""
    if not isinstance(cls, type):
        return False
    mro = [c.__module__ + "." + c.__qualname__ for c in cls.__mro__]
    if mro[0] not in KNOWN:
        return False
    return not any(name in KNOWN.get(m, ()) for m in mro)


def unknown_fields(cls):
    """attributes of an attrs class or dataclass that no contract speaks of"""
    fields = [a.name for a in getattr(cls, "__attrs_attrs__", ())] + list(getattr(cls, "__dataclass_fields__", ()))
    return [f for f in fields if unknown_attribute(cls, f)]


def remembers(v):
    """the object has, or may have, attributes that no contract speaks of"""
    fields = [a.name for a in getattr(type(v), "__attrs_attrs__", ())] + list(getattr(type(v), "__dataclass_fields__", ()))
    return bool(unknown_fields(type(v))) or any(k not in fields and unknown_attribute(type(v), k) for k in getattr(v, "__dict__", ()))


def alike(a, b):
    """same, but for attributes that no contract speaks of"""
    return same(a, b, 0, True)


def snapshot(v):
    """A deep copy."""
    return _copy.deepcopy(v)


def beyond_proof(why):
    """The proof ends here (without success); native runs go on."""


def same(a, b, depth=0, lax=False):
    """Equality of values as the prover compares them."""
    if a is b:
        return True
    if depth > 12:
        return True
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, str) and isinstance(b, str):
        return str(a) == str(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, depth + 1, lax) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k], depth + 1, lax) for k in a) or (set(a) == set(b) and all(same(a[k], b[k], depth + 1, lax) for k in a))
    if isinstance(a, BaseException) and isinstance(b, BaseException):
        return type(a) is type(b)
    if type(a) is type(b) and hasattr(a, "__dict__") and not isinstance(a, type) and not callable(a) and not isinstance(a, (int, str, bytes)):
        m = type(a).__module__
        if m.startswith("elgas") or m.startswith("contracts"):
            x, y = a.__dict__, b.__dict__
            if lax:
                x, y = ({k: v for k, v in d.items() if not unknown_attribute(type(a), k)} for d in (x, y))
            return same(x, y, depth + 1, lax)
    try:
        return bool(a == b)
    except Exception:
        return False


def nondet(name, T, *idx):
    """A value of the environment: a function of its name and index."""
    return ORACLE.get((name,) + tuple(idx), T)


class Term:
    """A value of which only its arguments are known."""

    def __init__(self, name, args):
        self.name, self.args = name, args

    def __eq__(self, other):
        return isinstance(other, Term) and self.name == other.name and same(self.args, other.args)

    def __repr__(self):
        return "%s%r" % (self.name, self.args)

    __hash__ = None


def term(name, *args):
    """Opaque value made from the arguments."""
    return Term(name, args)


def choice(name, T):
    """A value the specified function may choose freely."""
    if ORACLE.witness is not None and name in ORACLE.witness:
        v = ORACLE.witness[name]
        if not T.holds(v):
            raise CheckFailed("the chosen %s is outside its range" % name)
        return v
    return T.sample(ORACLE.rng)


def loopvar(**types):
    """Types of the variables a specification loop changes."""


def loopobj(obj, **types):
    """Fields of an environment object that a specification loop changes."""


def invariant(cond):
    if not cond:
        raise CheckFailed("loop invariant of the specification")


def ghosts(**values):
    """Further values that program variables may be coupled with."""


def decreases(value):
    """Variant of a specification loop."""


def patch(obj, name, value):
    """Replaces an attribute of a module or class for this run."""
    had = name in getattr(obj, "__dict__", {})
    ORACLE.patches.append((obj, name, obj.__dict__.get(name), had))
    setattr(obj, name, value)


def under(depth, fn):
    """fn() at the top of depth further calls of arbitrary functions: the i-th caller of fn is
    a function named __repr__ exactly if nondet("repr", Bool(), i)."""

    def named(i):
        return __repr__ if nondet("repr", Bool(), i) else other

    def __repr__(i):
        return fn() if i == 0 else named(i - 1)(i - 1)

    def other(i):
        return fn() if i == 0 else named(i - 1)(i - 1)

    return fn() if depth == 0 else named(depth - 1)(depth - 1)


def frame_at(i, depth):
    """The frame of the i-th caller of fn in under(depth, fn); None after the last (symbolic only)."""


# ------------------------------------------------------------------ logic functions
def fold_xor(data):
    """exclusive-or of all bytes"""
    r = 0
    for b in data:
        r ^= b
    return r


def fold_sum(data):
    """sum of all bytes modulo 256"""
    return sum(data) % 256


def fold_drc(data):
    r = 0
    for b in data:
        r = ((r << 1) & 0xFF | r >> 7) ^ b
    return r


def fold_crc(data):
    """CRC-16 register, polynomial 0xA001 reflected, start 0xFFFF"""
    r = 0xFFFF
    for b in data:
        r ^= b
        for _ in range(8):
            r = (r >> 1) ^ 0xA001 if r & 1 else r >> 1
    return r


_ESC = [bytes([i]) for i in range(256)]
_ESC[0x1B] = b"\x1b\x1b"
_ESC[0x0D] = b"\x1b\x0e"
_ESC[0x8D] = b"\x1b\x0f"
TABLES = {"escape": tuple(_ESC)}
_SP = [bytes([i]) for i in range(256)]
_SP[0] = b" "
TABLES["nul_to_space"] = tuple(_SP)


def bytemap(data, table):
    """concatenation of the images of all bytes"""
    t = TABLES[table]
    return b"".join(t[b] for b in bytes(data))


OPAQUE = {}


def opaque(typ):
    """A total specification function that the prover keeps folded until it is compared."""

    def deco(fn):
        OPAQUE[fn] = typ
        return fn

    return deco


def same_byte(a, b):
    return a == b


def aes_cbc(key, iv, data):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    e = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
    return e.update(bytes(data)) + e.finalize()


def aes_cbc_inv(key, iv, data):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    e = Cipher(algorithms.AES(key), modes.CBC(iv)).decryptor()
    return e.update(bytes(data)) + e.finalize()


def unescape(data):
    """one left-to-right pass"""
    data = bytes(data)
    out = bytearray()
    i = 0
    n = len(data)
    while i < n:
        b = data[i]
        if b != 0x1B:
            out.append(b)
            i += 1
            continue
        if i + 1 >= n:
            raise IndexError()
        c = data[i + 1]
        out += {0x1B: b"\x1b", 0x0E: b"\r", 0x0F: b"\x8d"}.get(c, bytes([0x1B, c]))
        i += 2
    return bytes(out)


def has_byte(data, byte):
    return byte in bytes(data)


def first_index(data, byte):
    return bytes(data).find(bytes([byte]))


def last_index(data, byte):
    return bytes(data).rfind(bytes([byte]))


def float_le(data, fmt):
    return _struct.unpack("<" + fmt, bytes(data))[0]


def pending(value):
    return value


# ------------------------------------------------------------------ guided sampling
class Guided(_random.Random):
    """Random choices that prefer numbers and texts found in the program and in the models of
    failed obligations.  What it makes is still checked against the declared types."""

    def __init__(self, seed, ints=(), texts=()):
        super().__init__(seed)
        k = super().random()
        self.p = 0.0 if k < 0.1 else (0.1 if k < 0.5 else 0.5)
        self.calm = super().random() < 0.5
        ints, texts = list(ints), list(texts)
        if ints:
            n = 1 + int(3 * super().random())
            big = [x for x in ints if x > 3000]
            pick = [ints[int(len(ints) * super(Guided, self).random())] for _ in range(n)]
            if big and super().random() < 0.9:
                pick = [x for x in pick if x <= 8200] or pick[:1]
            self.ints = pick
        else:
            self.ints = []
        self.texts = texts
        self.off = 0 if super().random() < 0.5 else 4

    def hit(self):
        return bool(self.ints) and super().random() < self.p

    def near(self, lo=None, hi=None):
        h = self.ints[int(len(self.ints) * super().random())]
        if super().random() < 0.2:
            h *= 1 + int(3 * super().random()) if abs(h) < 3000 else 1
        if self.off:
            h += int(9 * super().random()) - 4
        if (lo is None or h >= lo) and (hi is None or h <= hi):
            return h
        return None

    def random(self):
        x = super().random()
        return 0.06 + 0.94 * x if getattr(self, "calm", False) else x

    def choice(self, seq):
        if type(seq) is list and seq and type(seq[0]) is int and self.hit():
            h = self.near(0 if min(seq) >= 0 else None)
            if h is not None:
                return h
        return super().choice(seq)

    def randint(self, a, b):
        if self.hit():
            h = self.near(a, b)
            if h is not None:
                return h
        return super().randint(a, b)

    def randrange(self, a, b=None, step=1):
        if step == 1 and self.hit():
            h = self.near(*((0, a - 1) if b is None else (a, b - 1)))
            if h is not None:
                return h
        return super().randrange(a, b, step) if b is not None else super().randrange(a)

    def randbytes(self, n):
        r = super().randbytes(n)
        if self.texts and n and super().random() < self.p * 0.5:
            t = self.texts[int(len(self.texts) * super().random())]
            i = int((n + 1) * super().random())
            if len(t) <= n:
                i = min(i, n - len(t))
                r = r[:i] + t + r[i + len(t) :]
        return r


def within(base, make, rng):
    """A guided sample stays within its declared type."""
    if type(rng) is not Guided:
        return make(rng)
    for i in range(12):
        try:
            v = make(rng)
            if base.holds(v) or type(v) is float:
                return v
        except (ValueError, IndexError, OverflowError, TypeError):
            pass
        rng.p *= 0.6
    rng.p = 0.0
    return make(rng)


class All:
    """types of named values"""

    def __init__(self, ts):
        self.ts = ts

    def holds(self, d):
        return all(n not in self.ts or self.ts[n].holds(v) for n, v in d.items())


# ------------------------------------------------------------------ types
SPECIAL = [0x00, 0x01, 0x02, 0x0D, 0x0E, 0x0F, 0x1B, 0x20, 0x7F, 0x80, 0x8D, 0xFE, 0xFF, 0x0A, 0x85, 0xA0, 0x84, 0x86, 0x87, 0x09]
LENGTHS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 20, 24, 30, 31, 32, 33, 46, 47, 48, 62, 63, 64, 65, 78, 127, 128, 129, 200, 240, 241, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 65518, 65519, 65520, 65521, 65535, 65536, 65537]


def sample_bytes(rng, lo, hi):
    k = rng.random()
    h = rng.near(lo, hi) if type(rng) is Guided and rng.hit() else None
    if h is not None:
        n = h
    elif k < 0.5:
        n = rng.randint(lo, lo + 20 if hi is None else min(hi, lo + 20))
    elif k < 0.985:
        c = [x for x in LENGTHS if x >= lo and (hi is None or x <= hi) and x <= 1100] or [lo]
        n = rng.choice(c)
        if rng.random() < 0.1 and hi is not None:
            n = hi if hi < 3000 else n
    else:
        c = [x for x in LENGTHS if x >= lo and (hi is None or x <= hi)] or [lo]
        n = rng.choice(c)
    m = rng.random()
    if n > 3000:
        b = rng.randbytes(n)
    elif m < 0.25:
        b = bytes(rng.choice(SPECIAL) for _ in range(n))
    elif m < 0.35:
        b = bytes([rng.choice(SPECIAL)]) * n
    elif m < 0.55:
        b = bytes(rng.choice(SPECIAL) if rng.random() < 0.3 else rng.randrange(256) for _ in range(n))
    elif m < 0.65:
        a = rng.sample(range(256), 2)
        b = bytes(rng.choice(a) for _ in range(n))
    else:
        b = rng.randbytes(n)
    return b


class T:
    def __init_subclass__(cls):
        sample = cls.__dict__.get("sample")
        if sample is not None:
            cls.sample = lambda self, rng: within(self, lambda r: sample(self, r), rng)


class Bytes(T):
    def __init__(self, n=None, lo=0, hi=None, mutable=False, text=False, cls=None):
        if n is not None:
            lo = hi = n
        self.lo, self.hi, self.mutable, self.text, self.cls = lo, hi, mutable, text, cls

    def sample(self, rng):
        b = sample_bytes(rng, self.lo, self.hi)
        if self.text:
            b = b.decode("latin-1")
        if self.cls:
            return self.cls(b)
        return bytearray(b) if self.mutable else b

    def holds(self, v):
        return isinstance(v, str if self.text else (bytes, bytearray)) and len(v) >= self.lo and (self.hi is None or len(v) <= self.hi)


def ByteArray(n=None, lo=0, hi=None):
    return Bytes(n, lo, hi, mutable=True)


def Text(n=None, lo=0, hi=None, cls=None):
    return Bytes(n, lo, hi, text=True, cls=cls)


class UInt(T):
    def __init__(self, lo=0, hi=None):
        self.lo, self.hi = lo, hi

    def sample(self, rng):
        lo, hi = self.lo, self.hi
        c = []
        if type(rng) is Guided and rng.hit():
            h = rng.near(lo, hi)
            if h is not None:
                return h
        for b in (0, 1, 2, 7, 8, 9, 10, 15, 16, 49, 50, 99, 100, 127, 128, 249, 250, 255, 256, 257, 999, 1000, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65534, 65535, 65536, 16777215, 16777216, 2**31 - 1, 2**31, 2**32 - 1, 2**32):
            for x in (b, -b):
                if (lo is None or x >= lo) and (hi is None or x <= hi):
                    c.append(x)
        for x in (lo, hi):
            if x is not None:
                c.append(x)
        a = -(1 << 20) if lo is None else lo
        z = max(a, 1 << 20) if hi is None else hi
        if type(rng) is Guided and hi is None:
            # such numbers may be numbers of rounds
            c = [x for x in c if x <= 4096]
            z = max(a, 4096)
        k = rng.random()
        if k < 0.45 and c:
            return rng.choice(c)
        if k < 0.6:
            return rng.randint(a, min(z, a + 300))
        return rng.randint(a, z)

    def holds(self, v):
        return isinstance(v, int) and (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi)


def Int(lo=None, hi=None):
    return UInt(lo, hi)


Byte = UInt(0, 255)
U16 = UInt(0, 65535)
U32 = UInt(0, 2**32 - 1)


class Bool(T):
    def sample(self, rng):
        return rng.random() < 0.5

    def holds(self, v):
        return v is True or v is False


class Enum(T):
    def __init__(self, cls):
        self.cls = cls

    def sample(self, rng):
        return rng.choice(list(self.cls))

    def holds(self, v):
        return isinstance(v, self.cls)


class Const(T):
    def __init__(self, v):
        self.v = v

    def sample(self, rng):
        return self.v

    def holds(self, v):
        return v == self.v


class OneOf(T):
    def __init__(self, *alts):
        self.alts = [a if isinstance(a, T) else Const(a) for a in alts]

    def sample(self, rng):
        return rng.choice(self.alts).sample(rng)

    def holds(self, v):
        return any(a.holds(v) for a in self.alts)


def Opt(t):
    return OneOf(Const(None), t)


class Tup(T):
    def __init__(self, *ts):
        self.ts = ts

    def sample(self, rng):
        return tuple(t.sample(rng) for t in self.ts)

    def holds(self, v):
        return isinstance(v, tuple) and len(v) == len(self.ts) and all(t.holds(x) for t, x in zip(self.ts, v))


class Listing(T):
    """list of given element types; of any length with elements of one type (of=...);
    list of unknown content when used for a loop variable"""

    def __init__(self, *ts, of=None):
        self.ts = ts
        self.of = of

    def sample(self, rng):
        if self.of is not None:
            return [self.of.sample(rng) for _ in range(rng.choice([0, 1, 2, 5]))]
        return [t.sample(rng) for t in self.ts]

    def holds(self, v):
        return isinstance(v, list)


class Obj(T):
    """Instance of a class with given attribute types, made without calling it."""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def sample(self, rng):
        fields = {k: t.sample(rng) if isinstance(t, T) else t for k, t in self.fields.items()}
        if unknown_fields(self.cls):
            try:
                return self.cls(**fields)
            except Exception:
                pass
        o = self.cls.__new__(self.cls)
        o.__dict__.update(fields)
        return o

    def holds(self, v):
        return isinstance(v, self.cls)


class Made(T):
    """Object made by a function of the specification from given parts (so attributes that
    the specification does not know get the values the program gives them).
    like: what the contract needs of an argument at a call site."""

    def __init__(self, make, like=None, **parts):
        self.make, self.like, self.parts = make, like, parts

    def sample(self, rng):
        return self.make(*[t.sample(rng) for t in self.parts.values()])

    def holds(self, v):
        return self.like is None or self.like.holds(v)


class DateTime(T):
    """with aware=True also times that know their time zone"""

    def __init__(self, lo=2000, hi=2099, micro=False, aware=False):
        self.lo, self.hi, self.micro, self.aware = lo, hi, micro, aware

    def sample(self, rng):
        import datetime

        while True:
            try:
                return datetime.datetime(rng.choice([self.lo, self.hi, rng.randint(self.lo, self.hi)]), rng.choice([1, 2, 12, rng.randint(1, 12)]), rng.choice([1, 28, 29, 30, 31, rng.randint(1, 31)]), rng.choice([0, 23, 9, 10, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, rng.randint(0, 999999)]) if self.micro else 0, tzinfo=datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 60, -210, 345, 720]))) if self.aware and rng.random() < 0.25 else None)
            except ValueError:
                pass

    def holds(self, v):
        import datetime

        return isinstance(v, datetime.datetime) and self.lo <= v.year <= self.hi and (self.aware or v.tzinfo is None)


class Float(T):
    """any finite double"""

    def sample(self, rng):
        return rng.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e300, rng.uniform(-1e6, 1e6), rng.uniform(-1, 1)])

    def holds(self, v):
        return isinstance(v, float)


class Real(T):
    """any number; rounding errors are ignored"""

    def __init__(self, lo=None):
        self.lo = lo

    def sample(self, rng):
        # exact in binary, so that sums and differences are exact, too
        x = rng.choice([0, 1, rng.randrange(100), rng.randrange(2000), rng.randrange(1 << 20)]) + rng.choice([0, 0, 0.5, 0.25, rng.randrange(16) / 16, rng.randrange(4096) / 4096, 1 / 4096, 4095 / 4096])
        if self.lo is None and rng.random() < 0.3:
            return -x
        return x if self.lo is None else self.lo + x

    def holds(self, v):
        import fractions

        return isinstance(v, (int, float, fractions.Fraction)) and (self.lo is None or v >= self.lo)


class Sampled(T):
    """Same symbolic type, but native samples come from a generator function."""

    def __init__(self, base, gen):
        self.base, self.gen = base, gen

    def sample(self, rng):
        if type(rng) is Guided:
            if not isinstance(self.base, Bool) and rng.hit() and rng.random() < 0.3:
                return self.base.sample(rng)
            return within(self.base, self.gen, rng)
        return self.gen(rng)

    def holds(self, v):
        return self.base.holds(v)


# ------------------------------------------------------------------ registration
CONTRACTS = []
HARNESSES = []


class Contract:
    def __init__(self, target, props, params, spec, kw):
        self.target = target
        self.props = props
        self.params = params
        self.spec = spec
        self.summary_fn = None
        self.witness_fn = None
        self.kw = kw
        self.name = kw.get("name") or (target if isinstance(target, str) else spec.__name__)

    def summary(self, fn):
        self.summary_fn = fn
        return self

    def logic(self, fn):
        """The function itself is a logic function (of the same name); nothing to compare."""
        self.summary_fn = fn
        self.is_logic = True
        return self

    is_logic = False

    def witness(self, fn):
        self.witness_fn = fn
        return self

    def __call__(self, *a, **k):
        return self.native_spec(*a, **k)

    @property
    def native_spec(self):
        """The specification without its loop annotations (they cost time, natively)."""
        if self._native is None:
            self._native = strip(self.spec)
        return self._native

    _native = None


def strip(fn):
    src = _inspect.getsource(fn)
    tree = _ast.parse(_textwrap.dedent(src))
    f = tree.body[0]
    f.decorator_list = []
    names = ("loopvar", "loopobj", "invariant", "ghosts", "decreases")
    n = 0
    for w in _ast.walk(f):
        if isinstance(w, _ast.While):
            keep = [s for s in w.body if not (isinstance(s, _ast.Expr) and isinstance(s.value, _ast.Call) and isinstance(s.value.func, _ast.Name) and s.value.func.id in names)]
            n += len(w.body) - len(keep)
            w.body = keep or [_ast.Pass()]
    if not n:
        return fn
    _ast.fix_missing_locations(tree)
    ns = {}
    exec(compile(tree, "<%s>" % fn.__name__, "exec"), fn.__globals__, ns)
    return ns[f.name]


def _props(p):
    return tuple(p.split()) if isinstance(p, str) else tuple(p or ())


def contract(target, props="", name=None, use=True, frame=True, setup=None, inline=(), gen=None, fold_defs=False, mutable=False, **params):
    """Contract of one function of the program: an executable specification.

    target: dotted name of the function (its contract is used at call sites), or a
    function of the specification that calls the program (lemma).
    mutable: attributes of the arguments may be assigned between calls.
    """

    def deco(fn):
        c = Contract(target, _props(props), params, fn, dict(name=name, use=use, frame=frame, setup=setup, inline=inline, gen=gen, fold_defs=fold_defs, mutable=mutable))
        CONTRACTS.append(c)
        return c

    return deco


class Harness:
    def __init__(self, props, params, fn, kw):
        self.props, self.params, self.fn, self.kw = props, params, fn, kw
        self.name = kw.get("name") or "%s.%s" % (fn.__module__.split(".")[-1], fn.__name__)


def harness(props, name=None, cases=None, inline=(), gen=None, **params):
    """Proof obligation over calls of the program.

    gen: native inputs (a function from rng to a dict of the parameters).
    cases: list of values for the first parameter, one obligation set for each.
    """

    def deco(fn):
        HARNESSES.append(Harness(_props(props), params, fn, dict(name=name, cases=cases, inline=inline, gen=gen)))
        return fn

    return deco
