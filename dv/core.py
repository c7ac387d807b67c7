"""Symbolic values, byte/text ropes and the path context of the deductive verifier.

Integers are exact (mathematical): bit-vector terms are widened before they can
overflow, everything else is a z3 Int.  Byte strings of unbounded length are ropes of
segments over uninterpreted bases; equality of ropes is decided by aligning segments and
asking the solver for each aligned piece.
"""
import time
import z3

z3.set_param("timeout", 20000)


class ToolError(Exception):
    """The tool cannot decide (unsupported construct, bound exceeded ...)."""


class PathEnd(BaseException):
    """Ends the exploration of the current path (infeasible or nothing left to show)."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc, tb=None):
        self.exc = exc
        self.where = tb


class Failed(Exception):
    """An obligation was refuted on this path."""


C = None  # the current context


# ------------------------------------------------------------------ context
class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.backends = {}

    def add(self, o):
        for k in ("obligations", "discharged", "trivial", "queries", "solver_s", "paths"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.backends.items():
            self.backends[k] = self.backends.get(k, 0) + v


class Ctx:
    def __init__(self, prefix=(), stats=None, deadline=None, concrete=None):
        self.prefix = list(prefix)
        self.log = []  # (value, alternative_possible)
        self.pc = []
        self.solver = z3.SolverFor("QF_AUFBVLIA") if False else z3.Solver()
        self.solver.set("timeout", 800)
        self.counter = {}
        self.stats = stats or Stats()
        self.deadline = deadline
        self.memo = {}
        self.i2b = {}
        self.bnd = {}
        self.inexact = []  # reasons why a model of this path may be spurious
        self.params = []  # harness parameters: (name, value)
        self.nofacts = []  # (basekey, lo, hi, byte)
        self.reads = {}  # basekey -> index terms read
        self.cut = False
        self.goal_fail = None
        self.last_model = None
        self.nondets = []  # (name, index values, value)
        self.limits = []  # bounds on every unbounded length (bounded refutation only)
        self.havocked = False
        self.facts = {}
        self.lia = None  # solver with the linear integer constraints only
        self.model = None  # a model of the path condition, if one is at hand
        self.fold_defs = False  # definitions of fold steps wanted
        self.goal_neg = None

    # fresh names, deterministic per path
    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return "%s!%d" % (name, n) if n else name

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise ToolError("time limit")

    def _check(self, *a, hard=False):
        """incremental solver first; where it gives up, a fresh one on the whole query"""
        self.tick()
        t = time.time()
        self.used = self.solver
        r = self.solver.check(*a)
        if r == z3.unknown:
            for make in (z3.Solver, lambda: z3.Then("simplify", "solve-eqs", "smt").solver()):
                s = make()
                s.set("timeout", 15000 if hard else 4000)
                s.add(*self.pc)
                s.add(*a)
                r = s.check()
                self.used = s
                if r != z3.unknown or not hard:
                    break
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def linear(self, c):
        """True/False if the linear integer part of the path implies c / its negation"""
        if not is_linear(c):
            return None
        s = self.lia
        if s is None:
            s = self.lia = z3.Solver()
            s.set("timeout", 300)
            for x in self.pc:
                if is_linear(x):
                    s.add(x)
        self.tick()
        t = time.time()
        r = None
        if s.check(z3.Not(c)) == z3.unsat:
            r = True
        elif s.check(c) == z3.unsat:
            r = False
        self.stats.solver_s += time.time() - t
        return r

    def add(self, c):
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            return
        if c is False:
            c = z3.BoolVal(False)
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_not(c) and z3.is_not(c.arg(0)):
            c = c.arg(0).arg(0)
        if c.get_id() in self.facts:
            return
        self.facts[c.get_id()] = c
        self.pc.append(c)
        self.solver.add(c)
        if self.lia is not None and is_linear(c):
            self.lia.add(c)
        if self.model is not None and self._eval(c) is not True:
            self.model = None

    def _syntactic(self, c):
        """True/False if c or its negation was added to the path as it stands"""
        if c.get_id() in self.facts:
            return True
        if z3.is_not(c):
            if c.arg(0).get_id() in self.facts:
                return False
            return None
        n = z3.Not(c)
        return False if n.get_id() in self.facts else None

    def _eval(self, c):
        """value of c in the known model of the path"""
        if self.model is None:
            return None
        try:
            v = self.model.eval(c, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def assume(self, c):
        c = as_cond(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        if len(self.log) < len(self.prefix):
            # a replayed assumption is known to be satisfiable
            self.add(c)
            return
        self.add(c)
        if self.model is None:
            t = self._check()
            if t == z3.unsat:
                raise PathEnd()
            if t == z3.sat:
                self.model = self.used.model()

    def branch(self, c):
        c = as_cond(c)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if z3.is_not(c) and z3.is_not(c.arg(0)):
            c = c.arg(0).arg(0)
        i = len(self.log)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.log.append((v, False))
            self.add(c if v else z3.Not(c))
            return v
        v = self._syntactic(c)
        if v is not None:
            self.log.append((v, False))
            return v
        v = self.linear(c)
        if v is not None:
            self.log.append((v, False))
            self.add(c if v else z3.Not(c))
            return v
        mv = self._eval(c)
        m = self.model
        if mv is not True:
            t = self._check(c)
            if t == z3.unsat:
                self.log.append((False, False))
                self.add(z3.Not(c))
                return False
            m = self.used.model() if t == z3.sat else None
        if mv is not False and self._check(z3.Not(c)) == z3.unsat:
            self.log.append((True, False))
            self.add(c)
            return True
        self.log.append((True, True))
        self.model = m
        self.add(c)
        return True

    def known(self, c):
        """Is c implied by the path? (no fork)"""
        c = as_cond(c)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.log)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.log.append((v, False))
            return v
        v = self._syntactic(c)
        if v is None:
            v = self._eval(c) is not False and (self.linear(c) or self._check(z3.Not(c)) == z3.unsat)
        self.log.append((v, False))
        return v

    def choose(self, conds):
        """Forks over mutually exclusive exhaustive conditions; returns the index."""
        for i, c in enumerate(conds[:-1]):
            if self.branch(c):
                return i
        return len(conds) - 1

    def prove(self, c, what):
        """Discharges one obligation on the current path."""
        self.stats.obligations += 1
        c = as_cond(c)
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
        if c is True:
            self.stats.discharged += 1
            self.stats.trivial += 1
            self.stats.backends["syntactic"] = self.stats.backends.get("syntactic", 0) + 1
            return
        if c is False:
            r = self._check(hard=True)
            if r == z3.unsat:
                self.stats.discharged += 1
                raise PathEnd()
            if r == z3.sat:
                self.last_model = self.used.model()
                raise Failed(what)
            raise ToolError("solver gave unknown for obligation: %s" % what)
        r = z3.unsat if self.linear(c) else self._check(z3.Not(c), hard=True)
        if r == z3.unsat:
            self.stats.discharged += 1
            self.stats.backends["z3"] = self.stats.backends.get("z3", 0) + 1
            if HOOK:
                HOOK(self.pc, c, what)
            return
        if r == z3.sat:
            self.last_model = self.used.model()
            self.goal_neg = z3.Not(c)
            raise Failed(what)
        raise ToolError("solver gave unknown for obligation: %s" % what)


HOOK = None


def set_ctx(c):
    global C
    C = c


def ctx():
    return C


# ------------------------------------------------------------------ scalars
class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % self.t


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


_LIN = {
    z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT,
    z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_ANUM, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ITE,
}
_LINEAR = {}


def is_linear(c):
    """boolean combination of linear comparisons of integer variables"""
    k = c.get_id()
    r = _LINEAR.get(k)
    if r is not None:
        return r[0]
    d = c.decl().kind() if z3.is_app(c) else None
    if d == z3.Z3_OP_UNINTERPRETED:
        r = c.num_args() == 0 and (z3.is_int(c) or z3.is_bool(c))
    elif d in _LIN:
        ch = c.children()
        r = (z3.is_int(c) or z3.is_bool(c)) and all(is_linear(x) for x in ch)
        if r and d == z3.Z3_OP_MUL:
            r = sum(not z3.is_int_value(x) for x in ch) <= 1
    else:
        r = False
    _LINEAR[k] = (r, c)
    return r


def as_cond(c):
    if isinstance(c, bool):
        return c
    if isinstance(c, SBool):
        return c.t
    return c


class SInt:
    """Exact integer.  kind 'bv': unsigned bit-vector; kind 'int': z3 Int."""

    __slots__ = ("kind", "t", "lo", "hi", "cls")

    def __init__(self, kind, t, lo=None, hi=None, cls=None):
        self.kind = kind
        self.t = t
        if kind == "bv":
            m = (1 << t.size()) - 1
            lo = 0 if lo is None else max(lo, 0)
            hi = m if hi is None else min(hi, m)
        self.lo = lo
        self.hi = hi
        self.cls = cls  # symbolic member of an IntEnum

    def __repr__(self):
        return "SInt(%s%s)" % (self.t, ":" + self.cls.__name__ if self.cls else "")


class SReal:
    """Exact real number (a float whose rounding errors are ignored)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SReal(%s)" % self.t


def mkreal(t):
    return SReal(z3.simplify(t))


def bv_width(n):
    return max(1, n.bit_length())


def mkint(kind, t, lo=None, hi=None):
    t = z3.simplify(t)
    if kind == "bv" and z3.is_bv_value(t):
        return t.as_long()
    if kind == "int" and z3.is_int_value(t):
        return t.as_long()
    if lo is not None and lo == hi:
        return lo
    return SInt(kind, t, lo, hi)


def is_int(v):
    return isinstance(v, SInt) or (isinstance(v, int))


def to_int_term(v):
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int):
        return z3.IntVal(int(v))
    if isinstance(v, SInt):
        if v.kind == "int":
            return v.t
        c = C
        key = v.t.get_id()
        src = c.i2b.get(key)
        if src is not None:
            return src[0]
        n = z3.BV2Int(v.t)
        n = z3.simplify(n)
        if key not in c.bnd:
            c.bnd[key] = v.t
            c.add(z3.And(n >= 0, n <= (1 << v.t.size()) - 1))
        return n
    return v  # a z3 Int term


def to_bv(v, w):
    """Bit-vector of width w >= the width of v (v known to fit)."""
    if isinstance(v, SBool):
        return z3.If(v.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, int):
        return z3.BitVecVal(int(v), w)
    if v.kind == "bv":
        s = v.t.size()
        if s < w:
            return z3.ZeroExt(w - s, v.t)
        if s > w:
            return z3.Extract(w - 1, 0, v.t)
        return v.t
    return int_as_bv(v.t, w, v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < (1 << w))


def int_as_bv(t, w, fits):
    """Bit-vector of an Int term (modulo 2**w): a fresh vector b with t == BV2Int(b), which
    solvers treat as a linear sum of bits."""
    c = C
    t = z3.simplify(t)
    e = c.memo.get(("b2i", t.get_id()))
    if e is not None and (fits or e[1].size() >= w):
        s = e[1].size()
        return e[1] if s == w else (z3.ZeroExt(w - s, e[1]) if s < w else z3.Extract(w - 1, 0, e[1]))
    if z3.is_int_value(t):
        return z3.BitVecVal(t.as_long(), w)
    if not fits:
        t = int_divmod(t, 1 << w)[1]
        return int_as_bv(t, w, True)
    b = z3.BitVec(c.fresh("bits%d" % w), w)
    c.add(z3.And(t == z3.BV2Int(b), t >= 0, t <= (1 << w) - 1))
    c.memo[("b2i", t.get_id())] = (t, b)
    c.i2b[b.get_id()] = (t, b)
    return b


def int_bounds(v):
    if isinstance(v, bool):
        return int(v), int(v)
    if isinstance(v, int):
        return int(v), int(v)
    if isinstance(v, SBool):
        return 0, 1
    if isinstance(v, SInt):
        return v.lo, v.hi
    return None, None


def simp(t):
    """canonical Int term or python int"""
    if isinstance(t, int):
        return t
    if isinstance(t, SInt):
        t = to_int_term(t)
    t = z3.simplify(t, som=True)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def _linear(t, k, out):
    """adds k*t to the linear form out = {id: [coefficient, term]}, constant under None"""
    if z3.is_int_value(t):
        out[None][0] += k * t.as_long()
    elif z3.is_add(t):
        for c in t.children():
            _linear(c, k, out)
    elif z3.is_sub(t):
        c = t.children()
        _linear(c[0], k, out)
        for x in c[1:]:
            _linear(x, -k, out)
    elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
        _linear(t.arg(0), -k, out)
    elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        _linear(t.arg(1), k * t.arg(0).as_long(), out)
    elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
        _linear(t.arg(0), k * t.arg(1).as_long(), out)
    else:
        e = out.setdefault(t.get_id(), [0, t])
        e[0] += k


def int_divmod(t, b):
    """(t // b, t % b) for an Int term and a constant b > 0, through one quotient and
    remainder per linear core of t, so that solvers see linear facts only"""
    c = C
    out = {None: [0, None]}
    _linear(z3.simplify(t, som=True), 1, out)
    const = out.pop(None)[0]
    quo = z3.IntVal(0)
    core = []
    for i in sorted(out):
        k, x = out[i]
        s = k % b
        if s > b // 2:
            s -= b
        q = (k - s) // b
        if q:
            quo = quo + q * x
        if s:
            core.append((s, x))
    if not core:
        return z3.simplify(quo + const // b), z3.IntVal(const % b)
    if len(core) == 1:
        sign = 1 if core[0][0] > 0 else -1
    else:
        sign = 1
    u = z3.simplify(z3.Sum([sign * s * x if sign * s != 1 else x for s, x in core]))
    key = ("divmod", u.get_id(), b)
    if key not in c.memo:
        n = c.fresh("divmod%d" % b)
        q, r = z3.Int(n + "q"), z3.Int(n + "r")
        c.add(z3.And(u == b * q + r, r >= 0, r <= b - 1))
        c.memo[key] = (q, r, u)
    q, r, _ = c.memo[key]
    qc, rc = const // b, const % b
    if sign > 0:
        over = r >= b - rc if rc else z3.BoolVal(False)
        rem = z3.If(over, r + (rc - b), r + rc)
        quo = quo + q + qc + z3.If(over, z3.IntVal(1), z3.IntVal(0))
    else:
        under = r > rc
        rem = z3.If(under, rc - r + b, rc - r)
        quo = quo - q + qc + z3.If(under, z3.IntVal(-1), z3.IntVal(0))
    return z3.simplify(quo), z3.simplify(rem)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a + b)


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a - b)


def sint_of(t, lo=None, hi=None):
    """Int term or python int -> value"""
    if isinstance(t, int):
        return t
    return mkint("int", t, lo, hi)


def same_term(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if same_term(a, b):
        return True
    return a == b if not isinstance(a, int) else b == a


def ile(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if same_term(a, b):
        return True
    return z3.simplify(z3.IntVal(a) <= b if isinstance(a, int) else a <= b)


# ------------------------------------------------------------------ sequences
class Base:
    """Uninterpreted source of bytes. at(i) gives the byte at index i (an Int term)."""

    def __init__(self, key, length=None):
        self.key = key
        self.length = length  # Int term / int: indices 0..length-1 are meaningful
        self.arr = z3.Array("A<%s>" % key, z3.IntSort(), z3.BitVecSort(8))

    def at(self, i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        t = z3.simplify(z3.Select(self.arr, i))
        c = C
        if c is not None and c.nofacts is not None:
            r = c.reads.setdefault(self.key, {})
            k = t.get_id()
            if k not in r and len(r) < 200:
                r[k] = (i, t)
                for bk, lo, hi, byte in c.nofacts:
                    if bk == self.key:
                        c.add(z3.Implies(z3.And(lo <= i, i < hi), t != byte))
        return t

    def absent(self, byte):
        """byte can never occur"""
        return False

    def __repr__(self):
        return "<%s>" % self.key


def add_nofact(base, lo, hi, byte):
    """the byte does not occur at the positions lo..hi-1 of the base"""
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    C.nofacts.append((base.key, lo, hi, byte))
    for i, t in list(C.reads.get(base.key, {}).values()):
        C.add(z3.Implies(z3.And(lo <= i, i < hi), t != byte))


class NumBase(Base):
    """Decimal text of a number 0..255 (1 to 3 digits)."""

    def __init__(self, key, t):
        super().__init__(key, z3.If(z3.ULT(t, 10), 1, z3.If(z3.ULT(t, 100), z3.IntVal(2), z3.IntVal(3))))
        texts = [str(i).encode() for i in range(256)]
        self.digits = [mux(t, [x[j] if j < len(x) else 0 for x in texts], 8) for j in range(3)]

    def at(self, i):
        if isinstance(i, int):
            return self.digits[min(max(i, 0), 2)]
        return z3.If(i <= 0, self.digits[0], z3.If(i == 1, self.digits[1], self.digits[2]))

    def absent(self, x):
        return z3.Or(z3.ULT(x, 48), z3.UGT(x, 57)) if not isinstance(x, int) else not 48 <= x <= 57


class MapBase(Base):
    """Concatenation of table[b] for every byte b of a rope."""

    def __init__(self, key, inner, table, length):
        super().__init__(key, length)
        self.inner = inner
        self.table = table
        self.one = all(len(t) == 1 for t in table)

    def at(self, i):
        if self.one:
            return z3.simplify(mux(seq_at(self.inner, i), [t[0] for t in self.table], 8))
        return super().at(i)

    def absent(self, byte):
        return all(byte not in t for t in self.table)


class EncBase(Base):
    def __init__(self, key, k, iv, plain, length):
        super().__init__(key, length)
        self.k, self.iv, self.plain = k, iv, plain


class DecBase(EncBase):
    pass


class StripBase(Base):
    def __init__(self, key, inner, side, chars, length, off):
        super().__init__(key, length)
        self.inner, self.side, self.chars, self.off = inner, side, chars, off

    def at(self, i):
        return seq_at(self.inner, iadd(self.off, i))


class U:
    """one symbolic byte / latin-1 character"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "U(%s)" % self.t


class Sub:
    __slots__ = ("base", "off", "len")

    def __init__(self, base, off, length):
        self.base, self.off, self.len = base, off, length

    def __repr__(self):
        return "%s[%s:+%s]" % (self.base, self.off, self.len)


class Seq:
    """Immutable symbolic byte ('b') or latin-1 text ('s') string."""

    __slots__ = ("kind", "segs", "cls", "_len", "_key")

    def __init__(self, kind, segs, cls=None):
        self.kind = kind
        self.segs = segs
        self.cls = cls
        self._len = None
        self._key = None

    def length(self):
        if self._len is None:
            n = 0
            for s in self.segs:
                n = iadd(n, seg_len(s))
            self._len = n
        return self._len

    def key(self):
        if self._key is None:
            out = []
            for s in self.segs:
                if isinstance(s, bytes):
                    out.append(s.hex())
                elif isinstance(s, U):
                    out.append("U%d" % s.t.get_id())
                    C.memo[("keep", s.t.get_id())] = s.t
                else:
                    for t in (s.off, s.len):
                        if not isinstance(t, int):
                            C.memo[("keep", t.get_id())] = t
                    out.append("%s[%s+%s]" % (s.base.key, tkey(s.off), tkey(s.len)))
            self._key = self.kind + ":" + "|".join(out)
        return self._key

    def __repr__(self):
        return "Seq%s%s" % (self.kind, list(self.segs))


def tkey(t):
    return str(t) if isinstance(t, int) else "#%d" % t.get_id()


def seg_len(s):
    if isinstance(s, bytes):
        return len(s)
    if isinstance(s, U):
        return 1
    return s.len


def mkseq(kind, segs, cls=None, keep=False):
    out = []
    for s in segs:
        if isinstance(s, bytes):
            if not s:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] = out[-1] + s
                continue
        elif isinstance(s, U):
            if z3.is_bv_value(s.t):
                b = bytes([s.t.as_long()])
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + b
                    continue
                s = b
        elif isinstance(s, Sub):
            if isinstance(s.len, int) and s.len == 0:
                continue
            if out and isinstance(out[-1], Sub) and out[-1].base is s.base and same_term(iadd(out[-1].off, out[-1].len), s.off):
                out[-1] = Sub(s.base, out[-1].off, iadd(out[-1].len, s.len))
                continue
        out.append(s)
    return Seq(kind, tuple(out), cls)


def from_native(v):
    if isinstance(v, (bytes, bytearray)):
        return Seq("b", (bytes(v),) if v else (), type(v) if type(v) not in (bytes, bytearray) else None)
    if isinstance(v, str):
        try:
            b = v.encode("latin-1")
        except UnicodeEncodeError:
            raise ToolError("text outside latin-1")
        return Seq("s", (b,) if b else (), type(v) if type(v) is not str else None)
    raise ToolError("not a sequence: %r" % (v,))


def to_native(s):
    """Seq with only literal content -> native bytes/str, else the Seq"""
    if not s.segs:
        v = b""
    elif len(s.segs) == 1 and isinstance(s.segs[0], bytes):
        v = s.segs[0]
    else:
        return s
    if s.kind == "s":
        v = v.decode("latin-1")
    return s.cls(v) if s.cls else v


def concat(kind, parts, cls=None):
    segs = []
    for p in parts:
        segs.extend(p.segs)
    return mkseq(kind, segs, cls)


def byte_term(v):
    """value -> bv8 term (value known to be 0..255)"""
    return to_bv(v, 8)


def byte_value(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return SInt("bv", t)


def seq_cut(s, a, b):
    """s[a:b] for 0 <= a <= b <= len, forking where boundaries are undetermined."""
    segs = []
    pos = 0
    for g in s.segs:
        n = seg_len(g)
        end = iadd(pos, n)
        # skip segments entirely before a
        if not same_term(a, 0 if isinstance(a, int) else a) or True:
            if C.branch(ile(end, a)) if not same_term(end, a) else True:
                pos = end
                continue
        if same_term(pos, b) or C.branch(ile(b, pos)):
            break
        # at the ends of s the cut is inside, so nothing need be decided
        if same_term(a, pos):
            lo = 0
        elif isinstance(pos, int) and pos == 0 and not isinstance(g, bytes):
            lo = 0 if C.known(ile(a, 0)) else a
        else:
            lo = 0 if C.branch(ile(a, pos)) else isub(a, pos)
        if same_term(end, b):
            hi = n
        elif g is s.segs[-1] and not isinstance(g, bytes):
            hi = n if C.branch(ile(end, b)) else isub(b, pos)
        else:
            hi = n if C.branch(ile(end, b)) else isub(b, pos)
        segs.append(seg_cut(g, lo, hi))
        pos = end
    return mkseq(s.kind, segs)


def seg_cut(g, lo, hi):
    if isinstance(g, U):
        return g
    if isinstance(g, bytes):
        lo, hi = concretize(lo, 0, len(g)), concretize(hi, 0, len(g))
        return g[lo:hi]
    return Sub(g.base, iadd(g.off, lo), isub(hi, lo))


def concretize(t, lo, hi):
    """fork over the values lo..hi of an Int term"""
    if isinstance(t, int):
        return t
    if hi - lo > 300:
        raise ToolError("too many cases for an index")
    for v in range(lo, hi):
        if C.branch(t == v):
            return v
    C.add(t == hi)
    return hi


def seq_at(s, i):
    """byte term at index i (0 <= i < len assumed)"""
    pos = 0
    for k, g in enumerate(s.segs):
        n = seg_len(g)
        end = iadd(pos, n)
        if k == len(s.segs) - 1 or C.branch(z3.Not(ile(end, i)) if not isinstance(ile(end, i), bool) else not ile(end, i)):
            r = isub(i, pos)
            if isinstance(g, U):
                return g.t
            if isinstance(g, bytes):
                if isinstance(r, int):
                    if not 0 <= r < len(g):
                        raise PathEnd()
                    return z3.BitVecVal(g[r], 8)
                if len(g) == 1:
                    return z3.BitVecVal(g[0], 8)
                return lit_select(g, r)
            return g.base.at(iadd(g.off, r))
        pos = end
    raise PathEnd()


def lit_select(g, r):
    t = z3.BitVecVal(g[-1], 8)
    if len(g) > 600:
        raise ToolError("symbolic index into long literal")
    for j in range(len(g) - 2, -1, -1):
        t = z3.If(r == j, z3.BitVecVal(g[j], 8), t)
    return t


def mux(bv, table, w):
    """table[bv] for an 8-bit (or k-bit) vector, as a balanced multiplexer"""
    k = bv.size()
    if len(table) != 1 << k:
        table = list(table) + [table[-1]] * ((1 << k) - len(table))
    if z3.is_bv_value(bv):
        return z3.BitVecVal(table[bv.as_long()], w)
    mk = (bv.get_id(), tuple(table), w)
    if mk in _MUX:
        return _MUX[mk][0]
    bits = [z3.Extract(i, i, bv) == 1 for i in range(k)]
    cache = {}

    def go(lo, n, bit):
        if n == 1:
            return z3.BitVecVal(table[lo], w)
        key = tuple(table[lo : lo + n])
        if len(set(key)) == 1:
            return z3.BitVecVal(key[0], w)
        kk = (key, bit)
        if kk not in cache:
            h = n // 2
            a = go(lo, h, bit - 1)
            b = go(lo + h, h, bit - 1)
            cache[kk] = z3.If(bits[bit], b, a)
        return cache[kk]

    if len(_MUX) > 20000:
        _MUX.clear()
    r = go(0, 1 << k, k - 1)
    _MUX[mk] = (r, bv)
    return r


_MUX = {}  # terms are shared between paths; both key and result are kept alive


def seq_bytes(s):
    """list of byte terms for a rope of concrete length (else None)"""
    n = s.length()
    if not isinstance(n, int):
        return None
    out = []
    for g in s.segs:
        if isinstance(g, bytes):
            out.extend(z3.BitVecVal(x, 8) for x in g)
        elif isinstance(g, U):
            out.append(g.t)
        else:
            out.extend(g.base.at(iadd(g.off, j)) for j in range(g.len))
    return out


def fix_len(s):
    """If the length of s is determined by the path, make it concrete."""
    return s


def seq_cond_eq(a, b):
    """Condition term for a == b usable as a branch condition."""
    if a.kind != b.kind:
        return False
    if a.key() == b.key():
        return True
    la, lb = a.length(), b.length()
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
        return _conj([x == y for x, y in zip(seq_bytes(a), seq_bytes(b))])
    # one concrete length: condition is len equal and bytes equal (forks on the length)
    if isinstance(la, int) or isinstance(lb, int):
        c, s, n = (a, b, la) if isinstance(la, int) else (b, a, lb)
        if n > 4096:
            raise ToolError("long comparison")
        if not C.branch(ieq(s.length(), n)):
            return False
        return _conj([x == seq_at(s, j) for j, x in enumerate(seq_bytes(c))])
    if not C.branch(ieq(la, lb)):
        return False
    if len(a.segs) > 1 or len(b.segs) > 1:
        # parts that are empty on this path
        a, b = drop_empty(a), drop_empty(b)
        if a.key() == b.key():
            return True
    if same_seq(a, b):
        return True
    C.inexact.append("comparison of two unbounded byte strings")
    earlier = C.memo.setdefault("comparisons", [])
    for x, y, nm in earlier:
        if same_seq(a, x) and same_seq(b, y) or same_seq(a, y) and same_seq(b, x):
            return nm
    nm = z3.Bool("EQ<%s;%s>" % tuple(sorted((a.key(), b.key()))))
    earlier.append((a, b, nm))
    return nm


def same_seq(a, b):
    """the same parts, as far as the path says"""
    if len(a.segs) != len(b.segs):
        return False
    for g, h in zip(a.segs, b.segs):
        if isinstance(g, bytes) or isinstance(h, bytes):
            if not (isinstance(g, bytes) and isinstance(h, bytes) and g == h):
                return False
        elif isinstance(g, U) or isinstance(h, U):
            if not (isinstance(g, U) and isinstance(h, U) and g.t.eq(h.t)):
                return False
        elif g.base is not h.base:
            return False
    return all(C.known(ieq(g.off, h.off)) and C.known(ieq(g.len, h.len)) for g, h in zip(a.segs, b.segs) if isinstance(g, Sub))


def drop_empty(s):
    return mkseq(s.kind, [g for g in s.segs if not isinstance(g, Sub) or not C.known(ieq(g.len, 0))])


def _conj(l):
    l = [z3.simplify(x) for x in l]
    if any(z3.is_false(x) for x in l):
        return False
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return True
    return z3.And(l) if len(l) > 1 else l[0]


def seq_prove_eq(a, b, what):
    """Obligation a == b (may fork)."""
    if a.kind != b.kind:
        return C.prove(False, what + ": bytes versus text")
    if a.key() == b.key():
        return C.prove(True, what)
    if any(isinstance(g, Sub) and isinstance(g.base, MapBase) for g in a.segs + b.segs):
        from .models import unfold_maps

        a, b = unfold_maps(a, b)
        if a.key() == b.key():
            return C.prove(True, what)
    C.prove(ieq(a.length(), b.length()), what + ": length")
    xs, ys = list(a.segs), list(b.segs)
    goals = []
    guard = 0
    while xs or ys:
        guard += 1
        if guard > 5000:
            raise ToolError("rope alignment did not end")
        if not xs or not ys:
            g = (xs or ys)[0]
            C.prove(ieq(seg_len(g), 0), what + ": length of tail")
            (xs or ys).pop(0)
            continue
        x, y = xs[0], ys[0]
        lx, ly = seg_len(x), seg_len(y)
        if isinstance(x, Sub) and isinstance(y, Sub) and x.base is y.base and same_term(x.off, y.off) and same_term(lx, ly):
            xs.pop(0), ys.pop(0)
            continue
        if isinstance(x, bytes) and isinstance(y, bytes):
            n = min(lx, ly)
            if x[:n] != y[:n]:
                goals.append(z3.BoolVal(False))
                break
            _adv(xs, x, n)
            _adv(ys, y, n)
            continue
        # single bytes against anything
        if not isinstance(x, Sub) or not isinstance(y, Sub):
            if isinstance(x, Sub) and C.branch(ieq(lx, 0)):
                xs.pop(0)
                continue
            if isinstance(y, Sub) and C.branch(ieq(ly, 0)):
                ys.pop(0)
                continue
            n = 1
            for v in (x, y):
                if isinstance(v, bytes):
                    n = len(v)
            if isinstance(x, U) or isinstance(y, U):
                n = 1
            if n > 1:
                o = y if isinstance(x, bytes) else x
                lo = seg_len(o)
                if isinstance(lo, int):
                    n = min(n, lo)
                elif not C.branch(ile(n, lo)):
                    n = 1
            for j in range(n):
                goals.append(_segbyte(x, j) == _segbyte(y, j))
            _adv(xs, x, n)
            _adv(ys, y, n)
            continue
        # Sub against Sub
        if C.branch(ieq(lx, 0)):
            xs.pop(0)
            continue
        if C.branch(ieq(ly, 0)):
            ys.pop(0)
            continue
        if same_term(lx, ly) or C.branch(ieq(lx, ly)):
            n = lx
        elif C.branch(ile(lx, ly)):
            n = lx
        else:
            n = ly
        if x.base is y.base and (same_term(x.off, y.off) or C.known(ieq(x.off, y.off))):
            pass
        elif (
            type(x.base) is type(y.base)
            and isinstance(x.base, EncBase)
            and (x.base.k, x.base.iv) == (y.base.k, y.base.iv)
            and same_term(x.off, y.off)
            and same_term(x.off, 0)
            and C.known(z3.And(_cond(ieq(n, x.base.length)), _cond(ieq(n, y.base.length))))
        ):
            # one key, one vector: equal (for CBC also: only) if the inputs are
            seq_prove_eq(x.base.plain, y.base.plain, what)
        elif isinstance(n, int) and n <= 2048:
            for j in range(n):
                goals.append(_segbyte(x, j) == _segbyte(y, j))
        else:
            k = z3.Int(C.fresh("k"))
            C.add(z3.And(k >= 0, k < n))
            C.inexact.append("skolem index")
            goals.append(x.base.at(iadd(x.off, k)) == y.base.at(iadd(y.off, k)))
            for b_, o_ in ((x.base, x.off), (y.base, y.off)):
                nofact_instantiate(b_, iadd(o_, k))
        _adv(xs, x, n)
        _adv(ys, y, n)
    g = _conj(goals)
    C.prove(g, what)


def _cond(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def _segbyte(g, j):
    if isinstance(g, U):
        return g.t
    if isinstance(g, bytes):
        return z3.BitVecVal(g[j], 8)
    return g.base.at(iadd(g.off, j))


def _adv(l, g, n):
    l.pop(0)
    if isinstance(g, U):
        return
    if isinstance(g, bytes):
        if g[n:]:
            l.insert(0, g[n:])
        return
    r = isub(g.len, n)
    if isinstance(r, int) and r == 0:
        return
    l.insert(0, Sub(g.base, iadd(g.off, n), r))


def nofact_instantiate(base, i):
    for bk, lo, hi, byte in C.nofacts:
        if bk == base.key:
            C.add(z3.Implies(z3.And(lo <= i, i < hi), base.at(i) != byte))


# ------------------------------------------------------------------ other values
class MBytes:
    """bytearray"""

    __slots__ = ("seq", "__weakref__")

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return "bytearray(%r)" % (self.seq,)


class Inst:
    """instance of a program class"""

    def __init__(self, cls):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "fields", {})

    def __repr__(self):
        return "<%s %s>" % (self.cls.__name__, self.fields)


class App:
    """Opaque value: uninterpreted function applied to values; type is a python type."""

    __slots__ = ("fn", "args", "type", "extra")

    def __init__(self, fn, args, type_=object, extra=None):
        self.fn, self.args, self.type, self.extra = fn, tuple(args), type_, extra

    def __repr__(self):
        return "%s%r" % (self.fn, self.args)


class TabVal:
    """A value that is a function of one small-range integer: table over its domain."""

    __slots__ = ("var", "table")

    def __init__(self, var, table):
        self.var, self.table = var, table

    def __repr__(self):
        return "Tab(%r)" % (self.var,)


class SList:
    """list with an opaque prefix (loop induction) followed by known elements"""

    __slots__ = ("token", "plen", "items", "elem")

    def __init__(self, token, plen, items=(), elem=None):
        self.token, self.plen, self.items, self.elem = token, plen, list(items), elem

    def __repr__(self):
        return "SList(%s,%s)" % (self.token, self.items)


class SDT:
    """datetime with symbolic fields; zone is a condition: it is aware of some time zone"""

    def __init__(self, year, month, day, hour, minute, second, micro=0, zone=None):
        self.zone = zone
        self.f = dict(year=year, month=month, day=day, hour=hour, minute=minute, second=second, microsecond=micro)

    def __repr__(self):
        return "SDT(%s)" % self.f


class Poison:
    """value of a variable that is not live at a loop head"""

    def __repr__(self):
        return "<poison>"


POISON = Poison()
