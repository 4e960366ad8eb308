"""Symbolic values, path exploration and proof obligations.

The real functions of wulfric are executed on symbolic values; every branch on a symbolic
condition splits the path, every contract clause becomes an obligation under the path condition.
Numbers are mathematical reals/integers (not floats).
"""

import math
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from .ring import Q, Ring, TooBig


class Unsupported(BaseException):
    """The engine cannot execute this construct symbolically."""


class Restart(BaseException):
    """a candidate invariant was dropped: the harness is run again"""


class PathEnd(BaseException):
    """This path is finished (infeasible, or cut at a loop head)."""


class Poison:
    """Value of a variable that is not described by a loop invariant."""

    def __init__(self, why):
        self.__dict__["_why"] = why

    def _no(self, *a, **k):
        raise Unsupported("use of a value that no loop invariant describes: " + self.__dict__["_why"])

    __getattr__ = __call__ = __getitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = _no
    __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _no
    __hash__ = __float__ = __int__ = __index__ = __contains__ = __format__ = __str__ = _no


# ------------------------------------------------------------------------------------- context
class Obligation:
    __slots__ = ("label", "status", "backend", "time", "path", "where", "model", "detail", "goal")

    def as_dict(self):
        return {k: getattr(self, k, None) for k in self.__slots__ if k != "goal"}


def disjunction(paths):
    """Or of conjunctions; pairs that differ in the sign of one condition are joined to one"""

    def flat(f):
        if z3.is_and(f):
            for x in f.children():
                yield from flat(x)
        elif z3.is_not(f) and z3.is_not(f.arg(0)):
            yield from flat(f.arg(0).arg(0))
        elif not z3.is_true(f):
            yield f

    terms = {}
    cubes = []
    for p in paths:
        cube = {}
        for f in p:
            for x in flat(f):
                neg = z3.is_not(x)
                a = x.arg(0) if neg else x
                terms[a.get_id()] = a
                cube[a.get_id()] = not neg
        cubes.append(cube)
    again = True
    while again:
        again = False
        for i in range(len(cubes)):
            for j in range(i):
                a, b = cubes[i], cubes[j]
                if a.keys() != b.keys():
                    if a.items() <= b.items() or b.items() <= a.items():
                        cubes[j] = a if a.items() <= b.items() else b
                        del cubes[i]
                        again = True
                        break
                    continue
                d = [k for k in a if a[k] != b[k]]
                if len(d) <= 1:
                    cubes[j] = {k: v for k, v in a.items() if k not in d}
                    del cubes[i]
                    again = True
                    break
            if again:
                break
    f = z3.Or([z3.And([terms[k] if v else z3.Not(terms[k]) for k, v in c.items()]) for c in cubes])
    if all(z3.is_const(t) for t in terms.values()):
        PROPOSITIONAL[f.get_id()] = f
    return f


PROPOSITIONAL = {}  # formulas without arithmetic


FLAGS = {}  # Boolean constants and their names


class Prefix(list):
    """decisions of a path, and the joins it has gone through"""

    def __init__(self, xs, merges):
        super().__init__(xs)
        self.merges = merges


class Ctx:
    """One execution path."""

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.merges = list(getattr(prefix, "merges", ()))
        self.merged = 0
        self.merge_base = None
        self.trace = []
        self.pc = []  # assumptions and decisions
        self.facts = []  # definitional facts of atoms
        self.ring = Ring()
        self.n = 0
        self.atoms = {}
        self.inputs = {}
        self.pending = []
        self.lin = Linear(self.ring)
        self.lra = z3.Solver()
        self.lra.set("timeout", 2000)
        self.lra_added = 0
        self.lra_facts = 0
        self.cosines = []
        self.arccosines = []
        self.known = {}
        self.tokens = {}
        self.notes = []
        self.loops = {}
        self.registered = []
        self.root_hints = []

    # -------------------------------------------------------------- bookkeeping
    def fresh(self, name, sort="real"):
        self.n += 1
        nm = f"{name}!{self.n}"
        return z3.Int(nm) if sort == "int" else (z3.Bool(nm) if sort == "bool" else z3.Real(nm))

    def fact(self, f):
        self.facts.append(f)

    def assume(self, f):
        f = zbool(f)
        g = z3.simplify(f)
        if z3.is_true(g):
            return
        if z3.is_false(g):
            raise PathEnd()
        self.pc.append(f)

    def feasible(self):
        """end the path if it is seen to be infeasible"""
        if self.lra_unsat(z3.BoolVal(True)):
            raise PathEnd()

    def _sync(self):
        if self.lra is None:
            self.lra = z3.Solver()
            self.lra.set("timeout", 2000)
            self.lra_added = self.lra_facts = 0
        while self.lra_added < len(self.pc):
            self.lra.add(self.lin.formula(self.pc[self.lra_added]))
            self.lra_added += 1
        while self.lra_facts < len(self.facts):
            self.lra.add(self.lin.formula(self.facts[self.lra_facts]))
            self.lra_facts += 1

    def lra_unsat(self, *extra):
        """True if pc and facts and extra are unsatisfiable in the linear abstraction."""
        self._sync()
        fs = [self.lin.formula(f) for f in extra]
        self._sync()
        return self.lra.check(*fs) == z3.unsat if fs else self.lra.check() == z3.unsat

    def decide(self, cond):
        k = len(self.trace)
        key = FLAGS.get(cond.get_id(), (None, None))[1]
        if key is None:
            scond = z3.simplify(cond)
            if z3.is_true(scond):
                return True
            if z3.is_false(scond):
                return False
            key = scond.sexpr()
            if cond.num_args() == 0:
                FLAGS[cond.get_id()] = cond, key
        if key in self.known:
            return self.known[key]
        if k < len(self.prefix):
            v, forced = self.prefix[k]
        else:
            if k > self.engine.max_depth:
                raise Unsupported(f"more than {self.engine.max_depth} decisions on one path")
            forced = True
            try:
                no_t = self.lra_unsat(cond)
                no_f = (not no_t) and self.lra_unsat(z3.Not(cond))
            except TooBig:
                no_t = no_f = False
            if not no_t and not no_f and self.engine.nl_feasibility:
                no_t = self._nl_unsat(cond)
                if not no_t:
                    no_f = self._nl_unsat(z3.Not(cond))
            if no_t:
                v = False
            elif no_f:
                v = True
            else:
                v, forced = True, False
                self.engine.push(self, self.trace + [(False, False)])
        self.trace.append((v, forced))
        self.known[key] = v
        self.pc.append(cond if v else z3.Not(cond))
        nkey = f"(not {key})" if cond.get_id() in FLAGS else z3.simplify(z3.Not(cond)).sexpr()
        self.known[nkey] = not v
        return v

    def _nl_unsat(self, cond):
        s = z3.Solver()
        s.set("timeout", self.engine.nl_feasibility)
        s.add(*self.pc, *self.facts, cond)
        return s.check() == z3.unsat

    # -------------------------------------------------------------- merging of paths
    def merge_from_here(self):
        """paths that reach the same loop head in the same state are joined from now on (what they
        assumed since now becomes a disjunction)"""
        self.merge_base = (len(self.pc), len(self.facts), dict(self.known))

    def merge(self, order, key):
        n, nf, known = self.merge_base
        if len(self.facts) > nf:
            raise Unsupported("paths with new definitions can not be joined")
        if self.merged < len(self.merges):
            k, f = self.merges[self.merged]
            if k != key:
                raise Unsupported("replay of a joined path differs")
            self.merged += 1
            del self.pc[n:]
            self.pc.append(f)
            self.known = dict(known)
            self.lra = None
            return
        self.engine.waiting.setdefault((order, key), []).append((self.pc[n:], list(self.trace), list(self.merges)))
        raise PathEnd()

    # -------------------------------------------------------------- choices without a condition
    def choose(self, n, what=""):
        """Nondeterministic choice of 0..n-1 (all explored)."""
        for i in range(n - 1):
            k = len(self.trace)
            if k < len(self.prefix):
                v = self.prefix[k][0]
            else:
                v = True
                self.engine.push(self, self.trace + [(False, False)])
            self.trace.append((v, False))
            if v:
                return i
        return n - 1


CUR = None  # the context of the current path


def ctx():
    if CUR is None:
        raise Unsupported("symbolic operation outside of a path")
    return CUR


# --------------------------------------------------------------------------------- conversions
def to_fraction(x):
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("nan or inf")
        f = Fraction(x).limit_denominator(1000)
        if abs(float(f) - x) <= 4e-16 * max(abs(x), 1e-300):
            return f
        return Fraction(repr(x))
    raise Unsupported(f"conversion of {type(x).__name__} to a number")


def zreal(x):
    if isinstance(x, SReal):
        e = x.e
        return z3.ToReal(e) if e.is_int() else e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    f = to_fraction(x)
    return z3.RealVal(f)


def znum(x):
    """Int-sorted if possible"""
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, SBool):
        return z3.IntVal(int(bool(x)))
    f = to_fraction(x)
    return z3.IntVal(int(f)) if f.denominator == 1 and isinstance(x, (int, np.integer, bool, np.bool_)) else z3.RealVal(f)


def zbool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"{type(x).__name__} as a condition")


def is_sym(x):
    return isinstance(x, (SReal, SBool))


def has_sym(x, depth=0):
    if isinstance(x, (SReal, SBool, Sym)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(i) for i in x.flat)
    if isinstance(x, (list, tuple)) and depth < 5:
        if getattr(x, "sym", None) is not None or getattr(x, "loop", None) is not None:
            return True
        return any(has_sym(i, depth + 1) for i in x)
    return False


class Sym:
    """Base of other symbolic objects (sequences, strings)."""


class SBool:
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zbool(o)))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return mkbool(self.e == zbool(o))
        if isinstance(o, (int, float, np.integer, np.floating, SReal)):
            return int(bool(self)) == o
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return mkbool(self.e != zbool(o))
        if isinstance(o, (int, float, np.integer, np.floating, SReal)):
            return int(bool(self)) != o
        return NotImplemented

    def _num(self):
        return SReal(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __format__(self, spec):
        return "<bool>"

    def __repr__(self):
        return f"SBool({self.e})"


def mkbool(e):
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(e)


def _const(e):
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def mknum(e):
    return SReal(e)


class SReal:
    """Symbolic number (z3 term of sort Int or Real)."""

    __slots__ = ("e", "pi")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, e, pi=False):
        self.e = e
        self.pi = pi

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ------------------------------------------------------------ arithmetic
    @staticmethod
    def _lift(o, op, swap, self):
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = op(o[i], self) if swap else op(self, o[i])
            return out
        return NotImplemented

    @staticmethod
    def _ok(o):
        return isinstance(o, (SReal, int, float, Fraction, np.integer, np.floating, bool, np.bool_, SBool))

    def _bin(self, o, kind, swap=False):
        if isinstance(o, SBool):
            o = int(bool(o))
        a, b = (o, self) if swap else (self, o)
        ea, eb = znum(a), znum(b)
        if ea.is_int() != eb.is_int():
            ea = z3.ToReal(ea) if ea.is_int() else ea
            eb = z3.ToReal(eb) if eb.is_int() else eb
        ca, cb = _const(ea), _const(eb)
        pi = (a.pi if isinstance(a, SReal) else False) or (b.pi if isinstance(b, SReal) else False)
        if ca is not None and cb is not None:
            r = ca + cb if kind == "+" else ca - cb if kind == "-" else ca * cb
            return SReal(z3.IntVal(int(r)) if ea.is_int() else z3.RealVal(r))
        if kind == "+":
            if ca == 0:
                return SReal(eb, pi)
            if cb == 0:
                return SReal(ea, pi)
            return SReal(ea + eb, pi)
        if kind == "-":
            if cb == 0:
                return SReal(ea, pi)
            if ca == 0:
                return SReal(-eb, pi)
            return SReal(ea - eb, pi)
        if kind == "*":
            if ca == 0 or cb == 0:
                return SReal(z3.IntVal(0) if ea.is_int() else z3.RealVal(0))
            if ca == 1:
                return SReal(eb, pi)
            if cb == 1:
                return SReal(ea, pi)
            r = ea * eb
            return _clean_pi(r) if pi else SReal(r)

    def __add__(self, o):
        return self._bin(o, "+") if self._ok(o) else self._lift(o, lambda x, y: x + y, False, self)

    def __radd__(self, o):
        return self._bin(o, "+", True) if self._ok(o) else self._lift(o, lambda x, y: x + y, True, self)

    def __sub__(self, o):
        return self._bin(o, "-") if self._ok(o) else self._lift(o, lambda x, y: x - y, False, self)

    def __rsub__(self, o):
        return self._bin(o, "-", True) if self._ok(o) else self._lift(o, lambda x, y: x - y, True, self)

    def __mul__(self, o):
        return self._bin(o, "*") if self._ok(o) else self._lift(o, lambda x, y: x * y, False, self)

    def __rmul__(self, o):
        return self._bin(o, "*", True) if self._ok(o) else self._lift(o, lambda x, y: x * y, True, self)

    def _div(self, o, swap=False):
        a, b = (o, self) if swap else (self, o)
        ea, eb = zreal(a), zreal(b)
        cb = _const(eb)
        pi = (a.pi if isinstance(a, SReal) else False) or (b.pi if isinstance(b, SReal) else False)
        if cb is not None:
            if cb == 0:
                defined(z3.BoolVal(False), "division by zero")
                raise ZeroDivisionError("division by zero")
            ca = _const(ea)
            if ca is not None:
                return SReal(z3.RealVal(ca / cb))
            if cb == 1:
                return SReal(ea, pi)
            return SReal(ea * z3.RealVal(1 / cb), pi)
        defined(eb != 0, "division: denominator is not zero")
        if _const(ea) == 0:
            return SReal(z3.RealVal(0))
        r = ea / eb
        return _clean_pi(r) if pi else SReal(r)

    def __truediv__(self, o):
        return self._div(o) if self._ok(o) else self._lift(o, lambda x, y: x / y, False, self)

    def __rtruediv__(self, o):
        return self._div(o, True) if self._ok(o) else self._lift(o, lambda x, y: x / y, True, self)

    def __pow__(self, n):
        if isinstance(n, SReal):
            c = _const(n.e)
            if c is None:
                raise Unsupported("symbolic exponent")
            n = c
        n = to_fraction(n)
        if n.denominator == 1:
            n = int(n)
            if n == 0:
                return SReal(z3.RealVal(1))
            if n < 0:
                return 1 / (self ** (-n))
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        return root(self, n)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __mod__(self, o):
        return sym_mod(self, o)

    def __rmod__(self, o):
        return sym_mod(o, self)

    def __floordiv__(self, o):
        return sym_floor(self / o)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        c = _const(self.e)
        if c is not None:
            return SReal(z3.RealVal(-c) if not self.e.is_int() else z3.IntVal(int(-c)))
        return SReal(-self.e, self.pi)

    def __pos__(self):
        return self

    def __abs__(self):
        return sym_abs(self)

    def __round__(self, n=None):
        if n is not None and n != 0:
            raise Unsupported("round to decimals")
        return sym_round(self)

    def __floor__(self):
        return sym_floor(self)

    def __trunc__(self):
        return sym_trunc(self)

    # ------------------------------------------------------------ comparison
    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = self._cmp(o[i], f)
            return out
        if not self._ok(o):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            big = 1 if o > 0 else -1
            return bool(f(0, big))
        a, b = znum(self), znum(o)
        if a.is_int() != b.is_int():
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        return mkbool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    # ------------------------------------------------------------ concretisation
    def _concrete(self):
        c = _const(z3.simplify(self.e))
        if c is None:
            try:
                c = ctx().ring.const_value(self.e)
            except TooBig:
                c = None
        return c

    def __float__(self):
        c = self._concrete()
        if c is None:
            raise Unsupported("float() of a symbolic number by foreign code")
        return float(c)

    def __int__(self):
        c = self._concrete()
        if c is None:
            raise Unsupported("int() of a symbolic number by foreign code")
        return int(c)

    def __index__(self):
        c = self._concrete()
        if c is None or c.denominator != 1:
            raise Unsupported("symbolic number as an index")
        return int(c)

    def __hash__(self):
        c = self._concrete()
        if c is None:
            raise Unsupported("hash of a symbolic number")
        return hash(c)

    def __format__(self, spec):
        c = CUR
        if c is not None and c.engine.render is not None:
            return c.engine.render(self, spec)
        return "<number>"

    def __repr__(self):
        return "<number>"

    __str__ = __repr__

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def sqrt(self):
        return root(self, Fraction(1, 2))

    def is_integer(self):
        return True if self.e.is_int() else mkbool(z3.IsInt(self.e))

    def copy(self):
        return self

    def astype(self, *_):
        return self


PI_Z = z3.Real("PI")
PI = SReal(PI_Z, pi=True)


def _clean_pi(e):
    """Cancel PI if possible (angles are kept in degrees)."""
    try:
        ring = ctx().ring if CUR is not None else Ring()
        q = ring.conv(e)
        keys = {v for p in (q.n, q.d) for m in p for v, _ in m}
        if "PI" not in keys:
            return SReal(ring_to_z3(ring, q))
        if "PI" in keys and len(q.n) <= 4 and len(q.d) <= 1:
            return SReal(ring_to_z3(ring, q), pi=True)
    except TooBig:
        pass
    return SReal(e, pi=True)


def ring_to_z3(ring, q):
    def poly(p):
        terms = []
        for m, c in sorted(p.items(), key=lambda t: str(t[0])):
            t = None
            for v, k in m:
                a = ring.atoms[v]
                a = z3.ToReal(a) if a.is_int() else a
                for _ in range(k):
                    t = a if t is None else t * a
            if t is None:
                t = z3.RealVal(c)
            elif c != 1:
                t = z3.RealVal(c) * t
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    n = poly(q.n)
    if len(q.d) == 1 and () in q.d and q.d[()] == 1:
        return n
    return n / poly(q.d)


# ------------------------------------------------------------------------- definitional atoms
def defined(cond, what):
    c = CUR
    if c is None:
        return
    c.engine.obligation(c, cond, "defined: " + what, definedness=True)


def atom(kind, arg):
    """canonical key of kind(arg)"""
    c = ctx()
    try:
        return (kind, c.ring.canon(arg))
    except TooBig:
        return (kind, arg.sexpr())


def sym_abs(x):
    e = znum(x)
    k = _const(e)
    if k is not None:
        return SReal(z3.RealVal(abs(k)) if not e.is_int() else z3.IntVal(int(abs(k))))
    c = ctx()
    # known sign
    key = atom("abs", e)
    if key in c.atoms:
        return SReal(c.atoms[key])
    nkey = atom("abs", -e)
    if nkey in c.atoms:
        return SReal(c.atoms[nkey])
    try:
        if c.lra_unsat(e < 0):
            return SReal(e)
        if c.lra_unsat(e > 0):
            return SReal(-e)
    except TooBig:
        pass
    v = c.fresh("abs", "int" if e.is_int() else "real")
    c.atoms[key] = v
    c.fact(z3.And(v >= 0, z3.Or(v == e, v == -e), v >= e, v >= -e, z3.Implies(e >= 0, v == e), z3.Implies(e <= 0, v == -e)))
    try:
        c.ring.add_rule(v, 2, zreal(SReal(e)) * zreal(SReal(e)))
    except TooBig:
        pass
    return SReal(v)


def root(x, n, squares=False):
    """x**n for a fractional n (x >= 0; squares: x is a sum of squares)"""
    e = zreal(x)
    n = Fraction(n).limit_denominator(64)
    c = _const(e)
    if c is None and CUR is not None:
        try:
            c = CUR.ring.const_value(e)
        except TooBig:
            c = None
    if c is not None and c >= 0 and n == Fraction(1, 2):
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            return SReal(z3.RealVal(Fraction(p, q)))
    k = ctx()
    if n < 0:
        return 1 / root(x, -n)
    if n == Fraction(1, 2):
        sq = _square(k, e)
        if sq is not None:
            return sym_abs(SReal(sq))
        for h in k.root_hints:
            try:
                if k.ring.equal(e, h * h):
                    return SReal(h)
            except TooBig:
                pass
    if not squares:
        defined(e >= 0, "root of a non-negative number")
    base = Fraction(1, n.denominator)
    key = atom(f"root{n.denominator}", e)
    if key in k.atoms:
        v = k.atoms[key]
    else:
        v = k.fresh("root")
        k.atoms[key] = v
        p = v
        for _ in range(n.denominator - 1):
            p = p * v
        k.fact(z3.And(v >= 0, p == e, z3.Implies(e > 0, v > 0), z3.Implies(e == 0, v == 0)))
        # monotonicity against other roots
        for kk, vv in list(k.atoms.items()):
            if kk[0] == "__rootarg" and kk[1] == n.denominator:
                oe, ov = vv
                k.fact(z3.And((oe < e) == (ov < v), (oe == e) == (ov == v)))
        k.atoms[("__rootarg", n.denominator, len(k.atoms))] = (e, v)
        try:
            k.ring.add_rule(v, n.denominator, e)
        except TooBig:
            pass
    r = SReal(v)
    return r if n.numerator == 1 else r ** n.numerator


def _square(k, e):
    """s with s**2 == e, if e is the square of a monomial modulo the ring"""
    try:
        q = k.ring.reduce(k.ring.conv(e)).norm()
    except TooBig:
        return None
    if len(q.n) != 1 or len(q.d) != 1:
        return None
    out = []
    for p in (q.n, q.d):
        ((m, c),) = p.items()
        if c < 0 or any(x % 2 for _, x in m):
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        out.append({tuple((v, x // 2) for v, x in m): Fraction(a, b)})
    return ring_to_z3(k.ring, Q(*out))


def norm_bounds(parts):
    """the norm by its linear bounds in place of its square (opt-in)"""
    c = ctx()
    d = c.fresh("norm")
    c.ring.atom_key(d)
    size = [z3.If(i >= 0, i, -i) for i in map(zreal, parts)]
    c.fact(z3.And(*(d >= i for i in size), d <= z3.Sum(size)))
    return SReal(d)


def squares_of(e):
    """the terms of a sum of squares, or None"""
    if e.decl().kind() == z3.Z3_OP_ADD:
        out = []
        for t in e.children():
            q = squares_of(t)
            if q is None:
                return None
            out += q
        return out
    if _const(e) == 0:
        return []
    a = e.children()
    if e.decl().kind() == z3.Z3_OP_MUL and len(a) == 2 and z3.eq(a[0], a[1]):
        return [SReal(a[0])]
    return None


def sqrt(x, squares=False):
    if ctx().loops.get("linear") and isinstance(x, SReal):
        parts = squares_of(zreal(x))
        if parts:
            return norm_bounds(parts)
    return root(x, Fraction(1, 2), squares)


def integers_apart(e):
    """(e', k): e = e' + k with k a sum of integer terms of e (opt-in: exact, the solver is left with fewer integers)"""
    if not ctx().loops.get("linear"):
        return e, None
    rest, ints = [], []

    def walk(t, q):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            for i in t.children():
                walk(i, q)
        elif k == z3.Z3_OP_SUB:
            a = t.children()
            walk(a[0], q)
            for i in a[1:]:
                walk(i, -q)
        elif k == z3.Z3_OP_UMINUS:
            walk(t.arg(0), -q)
        elif k == z3.Z3_OP_MUL and len(t.children()) == 2 and _const(t.arg(0)) is not None:
            walk(t.arg(1), q * _const(t.arg(0)))
        elif k == z3.Z3_OP_TO_REAL and q.denominator == 1:
            ints.append((t.arg(0), int(q)))
        else:
            rest.append((t, q))

    walk(e, Fraction(1))
    if not ints:
        return e, None
    total = {}
    for t, q in rest:
        total[t] = total.get(t, 0) + q
    e1 = z3.Sum([z3.RealVal(0)] + [z3.RealVal(str(q)) * t for t, q in total.items() if q])
    return z3.simplify(e1), z3.simplify(z3.Sum([q * t for t, q in ints]))


def nearby(key, name, e, sort, bounds):
    """the number of that key: a fresh number related to e by the bounds (which do not change with an integer shift)"""
    c = ctx()
    if key not in c.atoms:
        v = c.fresh(name, sort)
        e1, k = integers_apart(e)
        c.fact(bounds(z3.ToReal(v) if sort == "int" else v, e1))
        c.atoms[key] = v if k is None else v + (k if sort == "int" else z3.ToReal(k))
    return SReal(c.atoms[key])


def sym_floor(x):
    e = znum(x)
    if e.is_int():
        return SReal(e)
    k = _const(e)
    if k is not None:
        return SReal(z3.IntVal(math.floor(k)))
    c = ctx()
    key = atom("floor", e)
    if c.loops.get("linear"):
        return nearby(key, "floor", e, "int", lambda v, e: z3.And(v <= e, e < v + 1))
    if key not in c.atoms:
        v = c.fresh("floor", "int")
        c.atoms[key] = v
        c.fact(z3.And(z3.ToReal(v) <= e, e < z3.ToReal(v) + 1))
    return SReal(c.atoms[key])


def sym_trunc(x):
    e = znum(x)
    if e.is_int():
        return SReal(e)
    k = _const(e)
    if k is not None:
        return SReal(z3.IntVal(math.trunc(k)))
    c = ctx()
    key = atom("trunc", e)
    if key not in c.atoms:
        v = c.fresh("trunc", "int")
        c.atoms[key] = v
        t = z3.ToReal(v)
        c.fact(z3.And(z3.Implies(e >= 0, z3.And(t <= e, e < t + 1)), z3.Implies(e < 0, z3.And(t - 1 < e, e <= t))))
    return SReal(c.atoms[key])


def sym_round(x):
    e = znum(x)
    if e.is_int():
        return SReal(e)
    c = ctx()
    key = atom("round", e)
    if c.loops.get("linear"):
        h = z3.RealVal("1/2")
        return nearby(key, "round", e, "int", lambda v, e: z3.And(v - h <= e, e <= v + h))
    if key not in c.atoms:
        v = c.fresh("round", "int")
        c.atoms[key] = v
        h = z3.RealVal("1/2")
        c.fact(z3.And(z3.ToReal(v) - h <= e, e <= z3.ToReal(v) + h))
    return SReal(c.atoms[key])


def sym_decimals(x, d):
    """x to d decimals: some number within half of a unit of the last decimal (all that is used)"""
    e = zreal(x)
    if _const(e) is not None:
        raise Unsupported("round to decimals of a constant")
    key = atom(f"decimals{d}", e)
    h = z3.RealVal(str(Fraction(1, 2) / Fraction(10) ** d))
    return nearby(key, "decimals", e, "real", lambda v, e: z3.And(v - h <= e, e <= v + h))


def choice(cond, x, y):
    """x if cond else y, for numbers, without a case split"""
    c = ctx()
    cond = zbool(cond)
    k = z3.simplify(cond)
    if z3.is_true(k):
        return x
    if z3.is_false(k):
        return y
    a, b = zreal(x), zreal(y)
    if z3.eq(z3.simplify(a), z3.simplify(b)):
        return x
    v = c.fresh("choice")
    c.ring.atom_key(v)
    c.fact(z3.And(z3.Implies(cond, v == a), z3.Implies(z3.Not(cond), v == b)))
    return SReal(v)


def sym_mod(x, m):
    a, b = SReal(znum(x)), SReal(znum(m))
    k = _const(b.e)
    if k is None:
        raise Unsupported("symbolic modulus")
    if k <= 0:
        raise Unsupported("non-positive modulus")
    if k == 1 and a.e.is_int():
        return SReal(z3.IntVal(0))
    return a - k * sym_floor(a / k)


# ------------------------------------------------------------------------- trigonometry
def _degrees(x):
    """angle in radians -> Q (degrees), with the constant part split off"""
    c = ctx()
    d = z3.simplify(z3.RealVal(180)) * zreal(x) / PI_Z
    return c.ring.reduce(c.ring.conv(d)).norm()


EXACT = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}


def _cs_const(deg):
    """(cos, sin) of a constant number of degrees"""
    deg = deg % 360
    q, r = divmod(deg, 90)
    if r == 0:
        c, s = 1, 0
    elif r == 30:
        c, s = sqrt(SReal(z3.RealVal(3))) / 2, SReal(z3.RealVal(Fraction(1, 2)))
    elif r == 60:
        c, s = SReal(z3.RealVal(Fraction(1, 2))), sqrt(SReal(z3.RealVal(3))) / 2
    elif r == 45:
        c = sqrt(SReal(z3.RealVal(2))) / 2
        s = c
    else:
        return None
    for _ in range(int(q)):
        c, s = -s, c
    return c, s


def _cs_bounds(deg):
    """rigorous rational bounds of cos and sin of a constant (interval arithmetic of mpmath)"""
    from mpmath import iv

    iv.prec = 80
    x = iv.mpf(deg.numerator) / deg.denominator * iv.pi / 180
    out = []
    for t in (iv.cos(x), iv.sin(x)):
        lo, hi = (Fraction(int(v * 2**60)) / 2**60 for v in (t.a, t.b))
        out.append((lo - Fraction(1, 2**59), hi + Fraction(1, 2**59)))
    return out


def cos_sin(x):
    c = ctx()
    q = _degrees(x)
    one = {(): Fraction(1)}
    if q.d != one:
        raise Unsupported("angle that is not a polynomial in degrees")
    n = dict(q.n)
    if any(v == "PI" for m in n for v, _ in m):
        raise Unsupported("degrees used as radians")
    const = n.pop((), Fraction(0))
    if not n:
        r = _cs_const(const)
        if r is not None:
            return r
        n = {}
    quarter = 0
    if const % 90 == 0:
        quarter = int(const // 90)
        const = Fraction(0)
    if const:
        n[()] = const
    sign = 1
    if not n.get(()) or len(n) > 1:
        lead = n[max(k for k in n if k != ())] if any(k != () for k in n) else 1
        if lead < 0 and not const:
            sign = -1
            n = {m: -v for m, v in n.items()}
    key = ("cs", tuple(sorted(n.items())))
    if key in c.atoms:
        co, si = c.atoms[key]
    else:
        deg = ring_to_z3(c.ring, Q(n))
        # cos(arccos(x))
        co = si = None
        for dv, xe in c.arccosines:
            if z3.eq(z3.simplify(deg), dv):
                co = SReal(xe)
                si = sqrt(1 - co * co)
                break
        if co is None:
            cv, sv = c.fresh("cos"), c.fresh("sin")
            c.ring.add_rule(sv, 2, 1 - cv * cv)
            co, si = SReal(cv), SReal(sv)
            c.fact(z3.And(cv * cv + sv * sv == 1, cv <= 1, cv >= -1, sv <= 1, sv >= -1))
            c.fact(z3.Implies(z3.And(deg > 0, deg < 180), z3.And(sv > 0, cv < 1, cv > -1)))
            c.fact(z3.Implies(z3.And(deg > -180, deg < 0), sv < 0))
            c.fact(z3.Implies(deg == 0, z3.And(cv == 1, sv == 0)))
            c.fact(z3.Implies(deg == 180, z3.And(cv == -1, sv == 0)))
            c.fact(z3.Implies(z3.And(deg > -90, deg < 90), cv > 0))
            c.fact(z3.Implies(deg == 90, z3.And(cv == 0, sv == 1)))
            c.fact(z3.Implies(z3.And(deg > 90, deg < 270), cv < 0))
            c.fact(z3.Implies(z3.And(deg >= 0, deg <= 180, cv > 0), deg < 90))
            c.fact(z3.Implies(z3.And(deg >= 0, deg <= 180, cv == 0), deg == 90))
            c.fact(z3.Implies(z3.And(deg >= 0, deg <= 180, cv < 0), deg > 90))
            if set(n) <= {()}:
                for t, (lo, hi) in zip((cv, sv), _cs_bounds(n.get((), Fraction(0)))):
                    c.fact(z3.And(t >= z3.RealVal(str(lo)), t <= z3.RealVal(str(hi))))
            for d2, c2 in c.cosines:
                c.fact(
                    z3.Implies(
                        z3.And(deg >= 0, deg <= 180, d2 >= 0, d2 <= 180),
                        z3.And((deg < d2) == (cv > c2), (deg == d2) == (cv == c2)),
                    )
                )
            c.cosines.append((deg, cv))
        c.atoms[key] = (co, si)
    if sign < 0:
        si = -si
    for _ in range(quarter % 4):
        co, si = -si, co
    return co, si


def cos(x):
    return cos_sin(x)[0]


def sin(x):
    return cos_sin(x)[1]


def tan(x):
    a, b = cos_sin(x)
    return b / a


def arccos(x):
    c = ctx()
    e = zreal(x)
    k = _const(z3.simplify(e))
    if k is None:
        try:
            k = c.ring.const_value(e)
        except TooBig:
            k = None
    exact = {Fraction(0): 90, Fraction(1): 0, Fraction(-1): 180, Fraction(1, 2): 60, Fraction(-1, 2): 120}
    if k is not None and k in exact:
        return PI * Fraction(exact[k], 180)
    for d2, c2 in c.cosines:
        try:
            if c.ring.equal(e, c2) and c.lra_unsat(z3.Or(d2 < 0, d2 > 180)):
                return SReal(d2 * PI_Z * z3.RealVal("1/180"), pi=True)
            if c.ring.equal(e, -c2) and c.lra_unsat(z3.Or(d2 < 0, d2 > 180)):
                return SReal((180 - d2) * PI_Z * z3.RealVal("1/180"), pi=True)
        except TooBig:
            pass
    defined(z3.And(e >= -1, e <= 1), "arccos of a number in [-1, 1]")
    key = atom("arccos", e)
    if key in c.atoms:
        d = c.atoms[key]
    else:
        d = c.fresh("degrees")
        c.atoms[key] = d
        c.fact(z3.And(d >= 0, d <= 180, (e > 0) == (d < 90), (e == 0) == (d == 90), (e == 1) == (d == 0), (e == -1) == (d == 180)))
        c.fact(z3.And((2 * e > 1) == (d < 60), (2 * e < -1) == (d > 120), (2 * e == 1) == (d == 60), (2 * e == -1) == (d == 120)))
        for d2, e2 in c.arccosines:
            c.fact(z3.And((d < d2) == (e > e2), (d == d2) == (e == e2), (d + d2 == 180) == (e + e2 == 0), (d + d2 < 180) == (e + e2 > 0)))
        c.arccosines.append((d, e))
    return SReal(d * PI_Z * z3.RealVal("1/180"), pi=True)


# ------------------------------------------------------------------------- linear abstraction
class Linear:
    """Replaces every non-linear monomial (modulo ring rules) by a variable."""

    def __init__(self, ring):
        self.ring = ring
        self.memo = {}
        self.vars = {}

    def term(self, q):
        den = q.d
        dkey = None
        if not (len(den) == 1 and () in den):
            dkey = tuple(sorted(den.items()))
            scale = Fraction(1)
        else:
            scale = 1 / den[()]
        out = []
        for m, c in q.n.items():
            c = c * scale
            if m == () and dkey is None:
                out.append(z3.RealVal(c))
                continue
            key = (m, dkey)
            if key not in self.vars:
                if dkey is None and len(m) == 1 and m[0][1] == 1:
                    a = self.ring.atoms[m[0][0]]
                    self.vars[key] = z3.ToReal(a) if a.is_int() else a
                else:
                    self.vars[key] = z3.Real(f"lin!{len(self.vars)}")
            v = self.vars[key]
            out.append(v if c == 1 else z3.RealVal(c) * v)
        return z3.Sum(out) if out else z3.RealVal(0)

    def real(self, e):
        return self.term(self.ring.reduce(self.ring.conv(e)).norm())

    def formula(self, f):
        i = f.get_id()
        if i in PROPOSITIONAL:
            return f
        if i in self.memo and self.memo[i][2] == len(self.ring.rules):
            return self.memo[i][1]
        r = self._formula(f)
        self.memo[i] = (f, r, len(self.ring.rules))
        return r

    def _formula(self, f):
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_AND:
            return z3.And([self.formula(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.formula(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.formula(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.formula(ch[0]), self.formula(ch[1]))
        if k == z3.Z3_OP_ITE and z3.is_bool(f):
            return z3.If(self.formula(ch[0]), self.formula(ch[1]), self.formula(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR):
            if z3.is_bool(ch[0]):
                a, b = self.formula(ch[0]), self.formula(ch[1])
                return a == b if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) else a != b
            if z3.is_arith(ch[0]):
                t = self.real(ch[0] - ch[1])
                return t == 0 if k == z3.Z3_OP_EQ else t != 0
            return f
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            t = self.real(ch[0] - ch[1])
            return {z3.Z3_OP_LE: t <= 0, z3.Z3_OP_LT: t < 0, z3.Z3_OP_GE: t >= 0, z3.Z3_OP_GT: t > 0}[k]
        return f


# ------------------------------------------------------------------------------------- engine
class Engine:
    def __init__(self, name, z3_timeout=20000, nl_feasibility=0, max_depth=400, max_paths=20000, budget=300):
        self.name = name
        self.stack = []
        self.obligations = []
        self.paths = 0
        self.ended = 0
        self.covers = {}
        self.z3_timeout = z3_timeout
        self.nl_feasibility = nl_feasibility
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.solver_time = 0.0
        self.render = None
        self.t0 = time.time()
        self.budget = budget
        self.cache = {}
        self.harness = ""
        self.cut_whiles = False

    # -------------------------------------------------------------- running a harness
    def push(self, c, prefix):
        self.stack.append(Prefix(prefix, c.merges[: c.merged]) if c.merged else prefix)

    def release(self):
        """all paths have arrived: join those in the same state at the earliest loop head"""
        if not self.waiting:
            return False
        first = min(o for o, k in self.waiting)
        for o, k in [x for x in self.waiting if x[0] == first]:
            paths = self.waiting.pop((o, k))
            f = disjunction([p[0] for p in paths])
            self.stack.append(Prefix(paths[0][1], paths[0][2] + [(k, f)]))
        return True

    def run(self, fn, name=None):
        """Execute fn(vc) on every path."""
        global CUR
        self.harness = name or fn.__name__
        self.stack = [[]]
        self.waiting = {}
        first = len(self.obligations)
        n = 0
        while self.stack or self.release():
            n += 1
            if n > self.max_paths or time.time() - self.t0 > self.budget:
                self._plain("exploration of all paths", "unsupported", f"path or time budget exceeded after {n} paths")
                break
            prefix = self.stack.pop()
            c = Ctx(self, prefix)
            CUR = c
            c.fact(z3.And(PI_Z > z3.RealVal("3.14159"), PI_Z < z3.RealVal("3.1416")))
            try:
                fn(VC(c))
                self.paths += 1
            except PathEnd:
                self.ended += 1
            except Restart:
                del self.obligations[first:]
                self.stack = [[]]
                self.waiting = {}
                self.covers = {k: v for k, v in self.covers.items() if not k.startswith(self.harness + ":")}
                self.paths = self.ended = 0
            except Unsupported as e:
                self._plain("within reach of the engine", "unsupported", f"{e} [{_where()}]")
                if len([o for o in self.obligations[first:] if o.status == "unsupported"]) > 3:
                    break
            except RecursionError as e:
                self._plain("within reach of the engine", "unsupported", "recursion")
            except TooBig:
                self._plain("within reach of the engine", "unsupported", "polynomials too big")
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                self._plain(
                    "no unexpected exception",
                    "unsupported",
                    f"{type(e).__name__}: {str(e)[:200]} at "
                    + " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-4:])),
                )
                if len([o for o in self.obligations[first:] if o.status == "unsupported"]) > 3:
                    break
            finally:
                CUR = None
        done = self.obligations[first:]
        if not done:
            self._plain("at least one obligation", "unsupported", "harness generated no obligations (vacuous)")

    def lemma_once(self, name, fn):
        """Proves fn (a harness on a path of its own) once per run of the engine."""
        global CUR
        done = self.__dict__.setdefault("proved", {})
        if name not in done:
            saved = CUR, self.stack, self.harness
            n = len(self.obligations)
            c = Ctx(self, [])
            self.stack = []
            CUR = c
            self.harness = f"{self.harness}: lemma {name}"
            c.fact(z3.And(PI_Z > z3.RealVal("3.14159"), PI_Z < z3.RealVal("3.1416")))
            try:
                fn(VC(c))
                if self.stack:
                    self._plain("no case split in a lemma", "unsupported", "")
            finally:
                CUR, self.stack, self.harness = saved
            done[name] = all(o.status == "discharged" for o in self.obligations[n:])
        return done[name]

    def _plain(self, label, status, detail):
        o = Obligation()
        o.label = f"{self.harness}: {label}"
        o.status = status
        o.backend = "-"
        o.time = 0.0
        o.path = self.paths
        o.where = ""
        o.model = None
        o.detail = detail
        self.obligations.append(o)
        return o

    # -------------------------------------------------------------- obligations
    def quiet(self, c, goal):
        """is the goal provable on this path? (no obligation)"""
        n = len(self.obligations)
        self.obligation(c, goal, "candidate")
        ok = self.obligations[-1].status == "discharged"
        del self.obligations[n:]
        return ok

    def obligation(self, c, goal, label, definedness=False):
        t = time.time()
        o = Obligation()
        o.label = f"{self.harness}: {label}"
        o.path = self.paths
        o.where = _where()
        o.model = None
        o.detail = None
        o.backend, o.status = self._prove(c, goal, o)
        o.time = time.time() - t
        self.solver_time += o.time
        self.obligations.append(o)
        if o.status != "discharged" and not definedness:
            pass
        # the goal may be used afterwards
        if o.status == "discharged" or definedness:
            if not (z3.is_true(z3.simplify(goal))):
                c.fact(goal)
        return o.status == "discharged"

    def _prove(self, c, goal, o):
        goal0 = goal
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "simplify", "discharged"
        parts = goal0.children() if z3.is_and(goal0) else [goal0]
        left = []
        backends = set()
        if len(parts) > 6:
            try:
                if c.lra_unsat(z3.Not(z3.And(parts))):
                    return "z3-lra", "discharged"
            except TooBig:
                pass
        for g in parts:
            b = self._easy(c, g)
            if b is None:
                left.append(g)
            else:
                backends.add(b)
        if not left:
            return "+".join(sorted(backends)), "discharged"
        for g in left:
            ok, b = self._hard(c, g, o)
            if not ok:
                return b, o.status
            backends.add(b)
        return "+".join(sorted(backends)), "discharged"

    def _easy(self, c, g):
        if z3.is_true(z3.simplify(g)):
            return "simplify"
        try:
            if g.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(g.children()[0]):
                a, b = g.children()
                if c.ring.equal(a, b):
                    return "ring"
            if c.lra_unsat(z3.Not(g)):
                return "z3-lra"
            # the same goal about an equal, registered term
            k = g.decl().kind()
            neg = k == z3.Z3_OP_NOT
            h = g.children()[0] if neg else g
            if h.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = h.children()
                if z3.is_arith(a):
                    for t in c.registered:
                        if c.ring.equal(a - b, t):
                            g2 = h.decl()(t, z3.RealVal(0))
                            g2 = z3.Not(g2) if neg else g2
                            if c.lra_unsat(z3.Not(g2)):
                                return "ring+z3-lra"
        except TooBig:
            pass
        return None

    def _hard(self, c, g, o):
        s = z3.Solver()
        timeout = int(max(1500, min(self.z3_timeout, 1000 * (self.budget - (time.time() - self.t0)) / 4)))
        s.set("timeout", timeout)
        s.add(*c.pc, *c.facts, z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return True, "z3-nra"
        if r == z3.sat:
            m = s.model()
            o.model = self._model(c, m)
            o.status = "refuted"
            o.detail = f"goal {_short(g)}"
            return False, "z3-nra"
        # nlsat tactic without the facts that are irrelevant
        try:
            t = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
            t.set("timeout", timeout)
            t.add(*c.pc, *c.facts, z3.Not(g))
            r = t.check()
            if r == z3.unsat:
                return True, "z3-nlsat"
            if r == z3.sat:
                o.model = self._model(c, t.model())
                o.status = "refuted"
                o.detail = f"goal {_short(g)}"
                return False, "z3-nlsat"
        except z3.Z3Exception:
            pass
        r = cvc5_check(c.pc + c.facts + [z3.Not(g)], timeout)
        if r == "unsat":
            return True, "cvc5"
        o.status = "unknown"
        o.detail = f"goal {_short(g)} (z3: {s.reason_unknown()}, cvc5: {r})"
        return False, "z3+cvc5"

    def _model(self, c, m):
        out = {}
        for k, v in c.inputs.items():
            try:
                x = m.eval(v, model_completion=True)
                if z3.is_rational_value(x) or z3.is_int_value(x):
                    out[k] = float(x.as_fraction()) if z3.is_rational_value(x) else x.as_long()
                elif z3.is_algebraic_value(x):
                    out[k] = float(x.approx(20).as_fraction())
                else:
                    out[k] = str(x)
            except Exception as e:  # model extraction is best effort
                out[k] = f"? {e}"
        return out

    def cover(self, c, label):
        """The point must be reachable on some path (vacuity guard)."""
        self.covers.setdefault(f"{self.harness}: {label}", 0)
        self.covers[f"{self.harness}: {label}"] += 1


def cvc5_check(fs, timeout_ms):
    try:
        import cvc5

        s = z3.Solver()
        s.add(*fs)
        text = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout_ms)))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            r = cmd.invoke(slv, sm)
            if "unsat" in str(r):
                res = "unsat"
            elif "sat" in str(r).split():
                res = "sat"
        return res
    except Exception as e:
        return f"error {type(e).__name__}"


def _short(g):
    t = " ".join(str(g).split())
    return t if len(t) < 300 else t[:300] + "..."


def _where():
    import sys

    f = sys._getframe(1)
    out = []
    while f is not None:
        fn = f.f_code.co_filename
        if "/wulfric/" in fn:
            out.append(f"{fn.split('/wulfric/')[-1]}:{f.f_lineno}")
            if len(out) == 2:
                break
        f = f.f_back
    return " < ".join(out)


# ------------------------------------------------------------------------------------- harness API
class VC:
    """What a contract harness uses."""

    def __init__(self, c):
        self.c = c

    def real(self, name):
        v = z3.Real(name)
        self.c.inputs[name] = v
        self.c.ring.atom_key(v)
        return SReal(v)

    def int(self, name):
        v = z3.Int(name)
        self.c.inputs[name] = v
        self.c.ring.atom_key(v)
        return SReal(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.c.inputs[name] = v
        return SBool(v)

    def string(self, name):
        from .seq import SymStr

        v = z3.String(name)
        self.c.inputs[name] = v
        return SymStr(v)

    def reals(self, names):
        return [self.real(n) for n in names.split()]

    def vector(self, name, n=3):
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.real(f"{name}{i + 1}")
        return out

    def matrix(self, name, n=3, m=3, sort="real"):
        out = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                out[i, j] = getattr(self, sort)(f"{name}{i + 1}{j + 1}")
        return out

    def fresh(self, name="v", sort="real"):
        v = self.c.fresh(name, sort)
        if sort != "bool":
            self.c.ring.atom_key(v)
            return SReal(v)
        return SBool(v)

    def fresh_array(self, shape, name="v", sort="real"):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = self.fresh(name, sort)
        return out

    def assume(self, f):
        self.c.assume(f)

    def fact(self, f):
        self.c.fact(zbool(f))

    def prove(self, f, label):
        return self.c.engine.obligation(self.c, zbool(f), label)

    def prove_eq(self, a, b, label):
        """Equality of scalars, vectors or matrices."""
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return self.c.engine.obligation(self.c, z3.BoolVal(False), label + f" (shape {a.shape} vs {b.shape})")
        gs = []
        for i in np.ndindex(a.shape):
            gs.append(zreal(a[i]) == zreal(b[i]))
        return self.c.engine.obligation(self.c, z3.And(gs) if len(gs) > 1 else gs[0], label)

    def lemma(self, name, hyp, concl, *args):
        """Instance of a lemma over the reals: hyp and concl map numbers to formulas.  The lemma itself
        is proved once for fresh variables, its hypothesis is an obligation here."""
        import inspect

        eng = self.c.engine
        if name not in eng.__dict__.setdefault("lemmas", {}):
            vs = [SReal(z3.Real(f"lemma_{name}_{i}")) for i in range(len(args))]
            s = z3.Solver()
            s.set("timeout", eng.z3_timeout)
            f = z3.Implies(zbool(hyp(*vs)), zbool(concl(*vs)))
            s.add(z3.Not(f))
            t = time.time()
            r = s.check()
            if r == z3.unknown:
                r2 = cvc5_check([z3.Not(f)], eng.z3_timeout)
                r = z3.unsat if r2 == "unsat" else r
            o = eng._plain(f"lemma {name}", "discharged" if r == z3.unsat else "unknown", str(r))
            o.backend = "z3-nra"
            o.time = time.time() - t
            eng.solver_time += o.time
            eng.lemmas[name] = r == z3.unsat
        ok = self.prove(hyp(*args), f"hypothesis of lemma {name}")
        if ok and eng.lemmas[name]:
            self.c.fact(zbool(concl(*args)))
        return ok

    def register(self, t):
        """a term of which facts are known; obligations about ring-equal terms use them"""
        self.c.registered.append(zreal(t))

    def root_hint(self, t):
        """t >= 0 (an obligation): roots of terms equal to t*t are t"""
        if self.prove(t >= 0, "root of a square"):
            self.c.root_hints.append(zreal(t))

    def degrees(self, deg):
        """angle in radians of a number of degrees"""
        return deg * PI / 180

    def check(self, ok, label, detail=""):
        """An obligation decided by evaluation (finite, concrete)."""
        if not ok and self.c.lra_unsat(z3.BoolVal(True)):
            raise PathEnd()  # this path is not feasible
        o = self.c.engine._plain(label, "discharged" if ok else "refuted", detail)
        o.backend = "evaluation"
        o.where = _where()
        return ok

    def unreachable(self, label):
        return self.c.engine.obligation(self.c, z3.BoolVal(False), label)

    def choose(self, n):
        return self.c.choose(n)

    def pick(self, options):
        options = list(options)
        return options[self.c.choose(len(options))]

    def cover(self, label):
        self.c.engine.cover(self.c, label)

    def call(self, fn, *a, **k):
        """('ok', value) or ('raise', exception)"""
        try:
            return "ok", fn(*a, **k)
        except (Unsupported, PathEnd, TooBig, RecursionError):
            raise
        except Exception as e:
            return "raise", e


def And(*a):
    a = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
    return SBool(z3.And([zbool(x) for x in a])) if a else SBool(z3.BoolVal(True))


def Or(*a):
    a = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
    return SBool(z3.Or([zbool(x) for x in a])) if a else SBool(z3.BoolVal(False))


def Not(a):
    return SBool(z3.Not(zbool(a)))


def Implies(a, b):
    return SBool(z3.Implies(zbool(a), zbool(b)))


def Iff(a, b):
    return SBool(zbool(a) == zbool(b))


def Eq(a, b):
    return SBool(zreal(a) == zreal(b))
