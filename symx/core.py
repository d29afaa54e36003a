"""symx: symbolic execution of real code by operator overloading, decided by z3.

Values
------
S        a real (or integer) valued symbolic number, kept as a linear form over atoms
         (input variables, or non-linear sub-terms with a defining constraint).
SB       a symbolic truth value.

Truth-testing an SB forks the execution: the engine re-executes the harness with a recorded
decision prefix (depth first), after asking z3 which outcomes are feasible.
"""
import sys, os, math, time, operator
from fractions import Fraction

_Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3DIR not in sys.path:
    sys.path.append(_Z3DIR)
import z3

TOL = Fraction(1, 10**6)      # assertions are checked up to this slack (both modes)


class PathAbort(BaseException):
    """The current path is infeasible or cut by an assumption."""


class SymLimit(Exception):
    """The engine cannot represent an operation symbolically."""


class NotEncodable(BaseException):
    """The harness does not apply to this tree (the part of the code it encodes cannot be loaded by the engine)."""


class Found(BaseException):
    """stop exploring: a violation was found"""


# ---------------------------------------------------------------- atoms
_atoms = []          # id -> Atom
_atom_by_key = {}


class Atom:
    __slots__ = ("id", "name", "z", "kind", "args", "isint", "lo", "hi", "grid", "zr")

    def __init__(self, name, kind="var", args=None, isint=False, lo=None, hi=None, grid=None):
        self.name = name
        self.kind = kind
        self.args = args
        self.isint = isint
        self.lo, self.hi, self.grid = lo, hi, grid
        self.z = z3.Int(name) if isint else z3.Real(name)
        self.zr = z3.ToReal(self.z) if isint else self.z
        self.id = len(_atoms)
        _atoms.append(self)


def _atom(key, *a, **k):
    at = _atom_by_key.get(key)
    if at is None:
        at = Atom(*a, **k)
        _atom_by_key[key] = at
    return at


def _q(fr):
    return z3.RealVal(fr.numerator) if fr.denominator == 1 else z3.Q(fr.numerator, fr.denominator)


_fr_cache = {}


def _fr(x):
    """exact rational of a concrete finite number"""
    t = type(x)
    if t is Fraction:
        return x
    if t is int or t is bool:
        return Fraction(x)
    r = _fr_cache.get(x) if t is float else None
    if r is not None:
        return r
    r = Fraction(float(x)) if not isinstance(x, int) else Fraction(int(x))
    if t is float:
        if len(_fr_cache) > 20000:
            _fr_cache.clear()
        _fr_cache[x] = r
    return r


import numpy as _np
_NUMT = (int, float, Fraction, _np.integer, _np.floating, _np.bool_)


def isnum(x):
    return isinstance(x, _NUMT)


def _special(x):
    """inf/nan float?"""
    try:
        return not isinstance(x, (int, Fraction)) and not math.isfinite(x)
    except TypeError:
        return False


def _collapse(c):
    if c.denominator == 1:
        return float(c.numerator)
    return float(c)


CTX = None      # current context


def cur():
    return CTX


class S:
    __slots__ = ("t", "c", "_z", "isint", "__weakref__")

    def __init__(self, t, c, isint=False):
        self.t = t
        self.c = c
        self._z = None
        self.isint = isint

    def __reduce__(self):
        return S, (self.t, self.c, self.isint)

    # -- construction
    @staticmethod
    def of(t, c, isint=False):
        if not t:
            if isint and c.denominator == 1:
                return int(c)
            return _collapse(c)
        return S(t, c, isint)

    def key(self):
        return (tuple(sorted(self.t.items())), self.c)

    def z(self):
        if self._z is None:
            ts = []
            for a, k in self.t.items():
                za = _atoms[a].zr
                ts.append(za if k == 1 else _q(k) * za)
            if self.c != 0:
                ts.append(_q(self.c))
            self._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return self._z

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, S):
            a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
            t = dict(a)
            for k, v in b.items():
                n = t.get(k)
                if n is None:
                    t[k] = v
                else:
                    n = n + v
                    if n == 0:
                        del t[k]
                    else:
                        t[k] = n
            return S.of(t, self.c + o.c, self.isint and o.isint)
        if isinstance(o, SB):
            return self + o.num()
        if not isnum(o):
            return NotImplemented
        if _special(o):
            return float(o)
        f = _fr(o)
        if f == 0:
            return self
        return S(self.t, self.c + f, self.isint and isinstance(o, int))

    __radd__ = __add__

    def __neg__(self):
        return S({k: -v for k, v in self.t.items()}, -self.c, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, S):
            return self + (-o)
        if isinstance(o, SB):
            return self - o.num()
        if not isnum(o):
            return NotImplemented
        if _special(o):
            return -float(o)
        f = _fr(o)
        if f == 0:
            return self
        return S(self.t, self.c - f, self.isint and isinstance(o, int))

    def __rsub__(self, o):
        return (-self) + o

    def _scale(self, f, isint=False):
        if f == 0:
            return 0 if isint else 0.0
        if f == 1:
            return self if self.isint == isint else S(self.t, self.c, isint)
        return S({k: v * f for k, v in self.t.items()}, self.c * f, isint)

    def __mul__(self, o):
        if isinstance(o, S):
            return _mul(self, o)
        if isinstance(o, SB):
            return self * o.num()
        if not isnum(o):
            return NotImplemented
        if _special(o):
            if o != o:
                return float(o)
            if self > 0:
                return float(o)
            if self < 0:
                return -float(o)
            return float("nan")
        return self._scale(_fr(o), self.isint and isinstance(o, int))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, S):
            return _div(self, o)
        if isinstance(o, SB):
            return self / o.num()
        if not isnum(o):
            return NotImplemented
        if _special(o):
            return float("nan") if o != o else 0.0
        f = _fr(o)
        if f == 0:
            if _is_np(o):
                # numpy semantics: +-inf / nan
                if self > 0:
                    return math.inf
                if self < 0:
                    return -math.inf
                return math.nan
            raise ZeroDivisionError("float division by zero")
        return self._scale(1 / f)

    def __rtruediv__(self, o):
        if not isnum(o):
            return NotImplemented
        if _special(o):
            if self > 0:
                return float(o)
            return -float(o)
        if o == 0:
            if self == 0:
                raise ZeroDivisionError("division by zero")
            return 0.0
        return _div(o, self)

    def __floordiv__(self, o):
        r = self / o
        if isinstance(r, S):
            k = CTX.concretize_floor(r)
            return int(k) if (self.isint and isinstance(o, int)) else float(k)
        return r // 1

    def __rfloordiv__(self, o):
        r = o / self
        if isinstance(r, S):
            return float(CTX.concretize_floor(r))
        return r // 1

    def __mod__(self, o):
        r = self / o
        k = CTX.concretize_floor(r) if isinstance(r, S) else math.floor(r)
        return self - o * k

    def __rmod__(self, o):
        r = o / self
        k = CTX.concretize_floor(r) if isinstance(r, S) else math.floor(r)
        return o - self * k

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        if isinstance(n, (int,)) and n >= 0:
            r = 1.0
            for _ in range(n):
                r = r * self
            return r
        if isinstance(n, float) and n == int(n) and n >= 0:
            return self ** int(n)
        if n == 0.5:
            return self.sqrt()
        raise SymLimit("pow")

    def sqrt(self):
        at = _atom(("sqrt", self.key()), f"sqrt!{len(_atoms)}", kind="sqrt", args=(self,))
        return S({at.id: Fraction(1)}, Fraction(0))

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    def conjugate(self):
        return self

    # -- comparisons
    def _cmp(self, o, op, flip):
        # returns SB for  (self - o) op 0
        if isinstance(o, SB):
            o = o.num()
        if isinstance(o, S):
            d = self - o
            if not isinstance(d, S):
                return _CMP[op](d, 0)
            return SB.cmp(d, op)
        if not isnum(o):
            return NotImplemented
        if _special(o):
            return _CMP[op](0.0, float(o))
        d = self - o
        if not isinstance(d, S):
            return _CMP[op](d, 0)
        return SB.cmp(d, op)

    def __lt__(self, o):
        return self._cmp(o, "<", 0)

    def __le__(self, o):
        return self._cmp(o, "<=", 0)

    def __gt__(self, o):
        return self._cmp(o, ">", 0)

    def __ge__(self, o):
        return self._cmp(o, ">=", 0)

    def __eq__(self, o):
        r = self._cmp(o, "==", 0)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=", 0)
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __int__(self):
        return CTX.concretize_trunc(self)

    def __trunc__(self):
        return CTX.concretize_trunc(self)

    def __index__(self):
        if self.isint:
            return CTX.concretize_floor(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __floor__(self):
        return CTX.concretize_floor(self)

    def floor(self):
        return float(CTX.concretize_floor(self))

    def ceil(self):
        return float(-CTX.concretize_floor(-self))

    def rint(self):
        return float(self.__round__())

    def __ceil__(self):
        return -CTX.concretize_floor(-self)

    def __round__(self, nd=None):
        if nd is None:
            return CTX.concretize_floor(self + Fraction(1, 2))
        sc = 10 ** nd
        return CTX.concretize_floor(self * sc + Fraction(1, 2)) / sc

    def __float__(self):
        return float(CTX.concretize_value(self))

    def is_integer(self):
        return bool(self == CTX.concretize_floor(self))

    def item(self):
        return self

    def __repr__(self):
        return "S(" + "+".join(f"{v}*{_atoms[k].name}" for k, v in self.t.items()) + f"+{self.c})"

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _is_np(o):
    return type(o).__module__ == "numpy"


_CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def _mul(a, b):
    ka, kb = a.key(), b.key()
    if kb < ka:
        a, b, ka, kb = b, a, kb, ka
    # factor out: single-atom products are canonical
    at = _atom(("mul", ka, kb), f"mul!{len(_atoms)}", kind="mul", args=(a, b))
    return S({at.id: Fraction(1)}, Fraction(0))


def _div(a, b):
    """a / b, b symbolic; Python float semantics: division by zero raises"""
    if b == 0:
        raise ZeroDivisionError("float division by zero")
    if isinstance(a, S):
        # proportional forms divide to a constant
        if len(a.t) == len(b.t):
            k0 = next(iter(a.t))
            if k0 in b.t:
                r = a.t[k0] / b.t[k0]
                if a.c == r * b.c and all(k in b.t and v == r * b.t[k] for k, v in a.t.items()):
                    return _collapse(r)
        ka = a.key()
    else:
        ka = _fr(a)
    at = _atom(("div", ka, b.key()), f"div!{len(_atoms)}", kind="div", args=(a, b))
    return S({at.id: Fraction(1)}, Fraction(0))


class SB:
    """symbolic boolean: linear comparison or arbitrary z3 Bool"""
    __slots__ = ("d", "op", "zx", "_at")

    def __init__(self, d, op, zx=None, at=None):
        self.d, self.op, self.zx, self._at = d, op, zx, at

    @staticmethod
    def cmp(d, op):
        return SB(d, op)

    def z(self):
        if self.zx is None:
            z = self.d.z()
            op = self.op
            self.zx = (z < 0 if op == "<" else z <= 0 if op == "<=" else z > 0 if op == ">" else z >= 0 if op == ">=" else z == 0 if op == "==" else z != 0)
        return self.zx

    def atoms(self):
        if self._at is None:
            self._at = frozenset(self.d.t.keys()) if self.d is not None else frozenset()
        return self._at

    def neg(self):
        if self.d is not None:
            return SB(self.d, _NEG[self.op])
        return SB(None, None, z3.Not(self.zx), self._at)

    def ev(self, m):
        """evaluate under model dict (atom id -> Fraction) or None"""
        if self.d is not None:
            v = _ev(self.d, m)
            return None if v is None else _CMP[self.op](v, 0)
        return None

    def __bool__(self):
        return CTX.branch(self)

    def num(self):
        return 1 if bool(self) else 0

    # numeric behaviour of booleans
    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __int__(self):
        return self.num()

    def __float__(self):
        return float(self.num())

    def __index__(self):
        return self.num()

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return id(self)

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def logical_not(self):
        return self.neg()

    def __repr__(self):
        return f"SB({self.d if self.d is not None else self.zx} {self.op})"


def _lift(b):
    if isinstance(b, SB):
        return b
    return bool(b)


def And(*bs):
    out, at = [], frozenset()
    for b in bs:
        b = _lift(b)
        if b is False:
            return False
        if b is True:
            continue
        out.append(b)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SB(None, None, z3.And([b.z() for b in out]), frozenset().union(*[b.atoms() for b in out]))


def Or(*bs):
    out = []
    for b in bs:
        b = _lift(b)
        if b is True:
            return True
        if b is False:
            continue
        out.append(b)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SB(None, None, z3.Or([b.z() for b in out]), frozenset().union(*[b.atoms() for b in out]))


def Not(b):
    b = _lift(b)
    return (not b) if isinstance(b, bool) else b.neg()


def Implies(a, b):
    return Or(Not(a), b)


def _ev(s, m):
    if not isinstance(s, S):
        return _fr(s)
    v = s.c
    for k, f in s.t.items():
        x = m.get(k)
        if x is None:
            a = _atoms[k]
            if a.kind == "var":
                return None
            if a.kind == "mul":
                p, q = _ev(a.args[0], m), _ev(a.args[1], m)
                if p is None or q is None:
                    return None
                x = p * q
            elif a.kind == "div":
                p, q = _ev(a.args[0], m), _ev(a.args[1], m)
                if p is None or not q:
                    return None
                x = p / q
            else:
                return None
            m[k] = x
        v += f * x
    return v


def z3frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


# ---------------------------------------------------------------- contexts
class Ctx:
    """symbolic exploration of one harness"""
    sym = True

    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.qt = query_timeout_ms
        self.solver.set("timeout", query_timeout_ms)
        self.levels = []           # decisions of the solver's current scopes
        self.scope_seen = False    # has scope 0 been filled?
        self.defs = [set()]
        self.stat = dict(paths=0, aborted=0, decisions=0, queries=0, solver_s=0.0, checks=0, trivial=0, discharged=0, assert_queries=0,
                         unknown_branch=0, unknown_assert=0, concretized=0, limits=0, forks=0)
        self.violations = []
        self.reach = {}
        self.limit_msgs = {}
        self.samples = []

    # ---- path life cycle
    def start(self, prefix, model):
        global CTX
        CTX = self
        self.prefix = prefix        # list of (taken, payload)
        self.pos = 0
        self.alts = []
        self.init_model = model or {}     # values by variable name
        self.model = {} if model is not None else None
        self.pending = []
        self.vars = {}
        self._cpp_begun = False
        self._draws = {}
        self.choices = []
        self.conc_in_path = 0
        self.trace = []
        # align solver scopes
        common = 0
        while common < len(self.levels) and common < len(prefix) and self.levels[common] == prefix[common]:
            common += 1
        n = len(self.levels) - common
        if n:
            self.solver.pop(n)
            del self.levels[common:]
            del self.defs[common + 1:]
        self.skip_until = common if self.scope_seen else -1   # constraints at levels <= skip_until are already in
        self.scope_seen = True

    def _adding(self):
        return self.pos > self.skip_until

    def _define(self, atoms):
        for a in atoms:
            self._define1(a)

    def _define1(self, a):
        at = _atoms[a]
        for d in self.defs:
            if a in d:
                return
        self.defs[-1].add(a)
        if at.kind == "var":
            if at.lo is not None:
                self.solver.add(at.z >= (int(at.lo) if at.isint else _q(_fr(at.lo))))
            if at.hi is not None:
                self.solver.add(at.z <= (int(at.hi) if at.isint else _q(_fr(at.hi))))
        else:
            for x in at.args:
                if isinstance(x, S):
                    for k in x.t:
                        self._define1(k)
            zs = [x.z() if isinstance(x, S) else _q(_fr(x)) for x in at.args]
            if at.kind == "mul":
                self.solver.add(at.z == zs[0] * zs[1])
            elif at.kind == "div":
                self.solver.add(at.z * zs[1] == zs[0])
            elif at.kind == "sqrt":
                self.solver.add(at.z >= 0, at.z * at.z == zs[0])

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stat["solver_s"] += time.time() - t
        self.stat["queries"] += 1
        return r

    def _get_model(self):
        try:
            zm = self.solver.model()
            m = {}
            for d in self.defs:
                for a in d:
                    at = _atoms[a]
                    v = z3frac(zm.eval(at.z, model_completion=True))
                    if v is None:
                        return None
                    m[a] = v
            return m
        except z3.Z3Exception:
            return None

    def export_model(self, m):
        return None if m is None else {_atoms[k].name: v for k, v in m.items() if _atoms[k].kind == "var"}

    def _default_model(self):
        """make sure self.model is a model of the current path (or None)"""
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self._get_model()
            elif r == z3.unsat:
                raise PathAbort()
        return self.model

    def _model_value(self, s):
        m = self._default_model()
        if m is None:
            return None
        self._fill(s.t.keys(), m)
        return _ev(s, m)

    def _ensure_vals(self, sb):
        m = self.model
        if m is None:
            return
        self._fill(sb.atoms(), m)

    def _fill(self, atoms, m):
        for k in atoms:
            a = _atoms[k]
            if k in m:
                continue
            if a.kind == "var":
                v = self.init_model.get(a.name)
                # a variable not constrained so far may take any value in its range
                m[k] = v if v is not None else _fr(a.lo if a.lo is not None else (a.hi if a.hi is not None else 0))
            else:
                for x in a.args:
                    if isinstance(x, S):
                        self._fill(x.t.keys(), m)

    def _push(self, dec, zc):
        self.solver.push()
        self.levels.append(dec)
        self.defs.append(set())

    def branch(self, sb, payload=None):
        """decide a symbolic condition; returns a concrete bool"""
        if self.pos < len(self.prefix):
            dec = self.prefix[self.pos]
            self.pos += 1
            taken = dec[0]
            if self.pos > len(self.levels):
                self._push(dec, None)
                c = sb if taken else sb.neg()
                self._define(c.atoms())
                self.solver.add(c.z())
            return taken
        self.stat["decisions"] += 1
        self._define(sb.atoms())
        self._ensure_vals(sb)
        side = None
        m = self.model
        if m is not None:
            side = sb.ev(m)
        if side is None:
            # need to query
            r = self._check(sb.z())
            if r == z3.sat:
                side, m = True, self._get_model()
            elif r == z3.unsat:
                # forced False (path itself is feasible by invariant, or model unknown)
                if self.model is None:
                    r2 = self._check()
                    if r2 == z3.unsat:
                        raise PathAbort()
                self._take(sb, False, None, self.model)
                return False
            else:
                self.stat["unknown_branch"] += 1
                side, m = True, None
            # other side
        other = sb.neg() if side else sb
        r = self._check(other.z())
        if r != z3.unsat:
            if r == z3.unknown:
                self.stat["unknown_branch"] += 1
            om = self._get_model() if r == z3.sat else None
            self.alts.append((list(self.taken_prefix()) + [(not side, payload)], self.export_model(om)))
            self.stat["forks"] += 1
        self._take(sb, side, payload, m)
        return side

    def taken_prefix(self):
        return self.levels[:self.pos]

    def _take(self, sb, side, payload, m):
        dec = (side, payload)
        self.pos += 1
        self._push(dec, None)
        c = sb if side else sb.neg()
        self._define(c.atoms())
        self.solver.add(c.z())
        self.model = m

    # ---- concretisation by complete enumeration
    def concretize_floor(self, s):
        """floor(s) as an int: forks over every feasible value"""
        if not isinstance(s, S):
            return math.floor(s)
        n = 0
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
            else:
                x = self._model_value(s)
                if x is None:
                    raise SymLimit("no model for concretisation")
                v = math.floor(x)
            if s.isint and all(k.denominator == 1 for k in s.t.values()):
                sb = s == v
            else:
                sb = And(s >= v, s < v + 1)
            if sb is True or sb is False:
                if sb:
                    return v
            elif self.branch_val(sb, v):
                return v
            n += 1
            if n > 400:
                raise SymLimit("too many values to concretise")

    def branch_val(self, sb, v):
        if sb.d is None and self.pos >= len(self.prefix):
            # evaluated as true under the current model by construction
            self.stat["decisions"] += 1
            self._define(sb.atoms())
            m = self.model
            r = self._check(z3.Not(sb.z()))
            if r != z3.unsat:
                om = self._get_model() if r == z3.sat else None
                self.alts.append((list(self.taken_prefix()) + [(False, v)], self.export_model(om)))
                self.stat["forks"] += 1
            self._take(sb, True, v, m)
            return True
        return self.branch(sb, v)

    def concretize_trunc(self, s):
        if not isinstance(s, S):
            return int(s)
        if s.isint:
            return self.concretize_floor(s)
        if s >= 0:
            return self.concretize_floor(s)
        return -self.concretize_floor(-s)

    def concretize_value(self, s):
        """incomplete: fixes one value (recorded; the exploration is then not exhaustive)"""
        self.stat["concretized"] += 1
        self.conc_in_path += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
        else:
            v = self._model_value(s)
            if v is None:
                raise SymLimit("no model for concretisation")
            v = Fraction(v)
        sb = s == v
        if isinstance(sb, SB):
            if self.pos < len(self.prefix):
                self.branch(sb)
            else:
                self._define(sb.atoms())
                self._take(sb, True, v, self.model)
        return v

    # ---- inputs
    def real(self, name, lo, hi, grid=8):
        """symbolic real input in [lo, hi]; counterexamples are sought on multiples of 1/grid"""
        at = _atom(("v", name, lo, hi), name, lo=lo, hi=hi, grid=grid)
        self.vars[name] = at
        s = S({at.id: Fraction(1)}, Fraction(0))
        if lo == hi:
            return float(lo)
        return s

    def int(self, name, lo, hi):
        if lo == hi:
            return int(lo)
        at = _atom(("vi", name, lo, hi), name, isint=True, lo=lo, hi=hi)
        self.vars[name] = at
        return S({at.id: Fraction(1)}, Fraction(0), True)

    def pick(self, name, n):
        """nondeterministic choice in range(n); forks"""
        if n <= 0:
            raise PathAbort()
        if n == 1:
            self.choices.append(0)
            return 0
        key = f"{name}~{len(self.choices)}"
        k = self.concretize_floor(self.int(key, 0, n - 1))
        self.vars.pop(key, None)
        self.choices.append(k)
        return k

    def pickv(self, name, lst):
        return lst[self.pick(name, len(lst))]

    # ---- assumptions and assertions
    def assume(self, c):
        c = _lift(c)
        if c is True:
            return
        self.flush()
        if c is False:
            raise PathAbort()
        if self._adding():
            self._define(c.atoms())
            self.solver.add(c.z())
            if self.model is not None:
                self._ensure_vals(c)
                if c.ev(self.model) is not True:
                    self.model = None
            else:
                self.model = None
            if self.model is None and self.pos >= len(self.prefix):
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.sat:
                    self.model = self._get_model()

    def check(self, c, tag, info=None):
        self.stat["checks"] += 1
        self.reach[tag] = self.reach.get(tag, 0) + 1
        c = _lift(c)
        if c is True:
            self.stat["trivial"] += 1
            return True
        if c is False:
            self.flush()
            if self._path_feasible():
                self._violation([(True, tag, info)])
            raise PathAbort()
        self.pending.append((c, tag, info))
        return True

    def _path_feasible(self):
        return self._check() != z3.unsat

    def flush(self):
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        if self.pos <= self.skip_until:
            return      # the previous path checked the same assertions under the same constraints
        for c, _, _ in pend:
            self._define(c.atoms())
        neg = z3.Or([z3.Not(c.z()) for c, _, _ in pend]) if len(pend) > 1 else z3.Not(pend[0][0].z())
        self.stat["assert_queries"] += 1
        r = self._check(neg)
        if r == z3.unsat:
            self.stat["discharged"] += len(pend)
            return
        if r == z3.unknown:
            for p in pend:
                rr = self._check(z3.Not(p[0].z()))
                if rr == z3.unsat:
                    self.stat["discharged"] += 1
                elif rr == z3.sat:
                    self._violation([p])
                else:
                    self.stat["unknown_assert"] += 1
            return
        for p in pend:
            rr = self._check(z3.Not(p[0].z()))
            if rr == z3.unsat:
                self.stat["discharged"] += 1
            elif rr == z3.sat:
                self._violation([p])
            else:
                self.stat["unknown_assert"] += 1

    def _violation(self, ps):
        """collect replayable models of a violated assertion"""
        models = []
        c = ps[0][0]
        extra = [] if c is True else [z3.Not(c.z())]
        grids = []
        for nm, at in self.vars.items():
            if not at.isint and at.grid:
                g = z3.Int("grid!" + nm)
                grids.append(at.z * at.grid == z3.ToReal(g))
        self._define([at.id for at in self.vars.values()])
        s2 = z3.Solver()
        s2.set("timeout", 10000)
        s2.add(self.solver.assertions())
        s2.add(*extra)
        tries = []
        if c is not True and c.d is not None:
            # a clear margin first
            z = c.d.z()
            mg = {"<": z >= z3.Q(1, 2), "<=": z >= z3.Q(1, 2), ">": z <= z3.Q(-1, 2), ">=": z <= z3.Q(-1, 2)}.get(c.op)
            if mg is not None:
                tries.append(grids + [mg])
        tries.append(grids)
        tries.append([])
        for tr in tries:
            s2.push()
            s2.add(*tr)
            if s2.check() == z3.sat:
                zm = s2.model()
                m = {}
                ok = True
                for nm, at in self.vars.items():
                    v = z3frac(zm.eval(at.z, model_completion=True))
                    if v is None:
                        v = zm.eval(at.z, model_completion=True)
                        try:
                            v = Fraction(v.approx(20).numerator_as_long(), v.approx(20).denominator_as_long())
                        except Exception:
                            ok = False
                            break
                    m[nm] = str(v)
                if ok:
                    models.append(m)
            s2.pop()
        self.violations.append(dict(tag=ps[0][1], info=str(ps[0][2]) if ps[0][2] is not None else None, models=models, choices=list(self.choices)))

    # ---- tolerant comparisons for assertions
    def le(self, a, b, tol=TOL):
        d = _sub(a, b)
        return d <= tol

    def ge(self, a, b, tol=TOL):
        return self.le(b, a, tol)

    def eq(self, a, b, tol=TOL):
        if not isinstance(a, S) and not isinstance(b, S):
            if _special(a) or _special(b):
                return a == b or (a != a and b != b)
        d = _sub(a, b)
        if not isinstance(d, S):
            if _special(d):
                return False
            return abs(d) <= tol
        return And(d <= tol, d >= -tol)

    def note(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(kw)

    def model_str(self):
        m = self._default_model()
        if not m:
            return {}
        return {nm: str(_ev(S({at.id: Fraction(1)}, Fraction(0)), m) if (at.id in m) else at.lo) for nm, at in self.vars.items()}


def _sub(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return a - b
    if _special(a) or _special(b):
        if a == b:
            return 0.0
        return float(a) - float(b)
    return _fr(a) - _fr(b)


class ReplayCtx:
    """concrete re-run of a harness on the unpatched code with one assignment"""
    sym = False

    def __init__(self, model, choices):
        self.m = {k: Fraction(v) for k, v in model.items()}
        self.choices = list(choices)
        self.ci = 0
        self.failed = []
        self.reach = {}
        self.log = []
        self.vars = {}
        global CTX
        CTX = self

    def real(self, name, lo, hi, grid=8):
        v = self.m.get(name)
        if v is None:
            v = Fraction(lo)
        self.log.append((name, float(v)))
        return float(v)

    def int(self, name, lo, hi):
        v = self.m.get(name)
        if v is None:
            v = Fraction(lo)
        self.log.append((name, int(v)))
        return int(v)

    def pick(self, name, n):
        if n <= 0:
            raise PathAbort()
        if self.ci < len(self.choices):
            k = self.choices[self.ci]
        else:
            k = 0
        self.ci += 1
        if k >= n:
            k = n - 1
        return k

    def pickv(self, name, lst):
        return lst[self.pick(name, len(lst))]

    def assume(self, c):
        if not c:
            raise PathAbort()

    def check(self, c, tag, info=None):
        self.reach[tag] = self.reach.get(tag, 0) + 1
        if not c:
            self.failed.append((tag, str(info) if info is not None else ""))
            return False
        return True

    def flush(self):
        pass

    def le(self, a, b, tol=TOL):
        return float(a) - float(b) <= float(tol) * (1 + 1e-9) / 2 if not (math.isinf(a) or math.isinf(b)) else a <= b

    def ge(self, a, b, tol=TOL):
        return self.le(b, a, tol)

    def eq(self, a, b, tol=TOL):
        if math.isinf(a) or math.isinf(b) or a != a or b != b:
            return a == b or (a != a and b != b)
        return abs(float(a) - float(b)) <= float(tol) / 2

    def note(self, **kw):
        pass

    def model_str(self):
        return {}
