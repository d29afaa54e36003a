"""Loads toruseo/UXsim from the current /repo tree, prepared for symbolic execution (SYMX_MODE unset)
or for concrete replay (SYMX_MODE=concrete, nothing in the code under test is replaced except the
environment: random numbers, the plotting font, printing)."""
import zlib
import sys, os, math, builtins, warnings
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if os.path.realpath(REPO) != "/repo":       # development only: an editable install of /repo must not shadow a copy
    sys.meta_path[:] = [f for f in sys.meta_path if "ScikitBuild" not in type(f).__name__]
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
import numpy as np
from . import core
from .core import S, SB, isnum
SYM = os.environ.get("SYMX_MODE") != "concrete"

import uxsim
import uxsim.uxsim as U
import uxsim.analyzer as AN
import uxsim.utils as UT
import uxsim.scenario_reader_writer as SRW
assert os.path.realpath(uxsim.__file__).startswith(os.path.realpath(REPO)), uxsim.__file__

AN.load_font_data = lambda *a, **k: b""


# ------------------------------------------------------------------ numpy model (symbolic mode only)
def _has_sym(x, depth=3):
    if isinstance(x, (S, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (S, SB)) for e in x.flat)
    if depth and isinstance(x, (list, tuple)):
        return any(_has_sym(e, depth - 1) for e in x)
    if depth and type(x).__name__ in ("dict_values", "dict_keys", "deque", "generator"):
        return False
    return False


class NPShim:
    """numpy with float arrays modelled as object arrays that may hold symbolic reals"""

    def __init__(self):
        self.random = np.random

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def _dt(dtype):
        return dtype in (None, float, np.float64, "float", "float64", "d")

    def zeros(self, shape, dtype=None, **k):
        if self._dt(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(0.0)
            return a.view(SArr)
        return np.zeros(shape, dtype=dtype, **k)

    def zeros_like(self, x, dtype=None, **k):
        return self.zeros(np.shape(x), dtype)

    def ones(self, shape, dtype=None, **k):
        if self._dt(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(1.0)
            return a.view(SArr)
        return np.ones(shape, dtype=dtype, **k)

    def full(self, shape, v, dtype=None, **k):
        if _has_sym(v) or (self._dt(dtype) and not isinstance(v, (bool, int))):
            a = np.empty(shape, dtype=object)
            a.fill(v)
            return a.view(SArr)
        return np.full(shape, v, dtype=dtype, **k)

    def array(self, x, dtype=None, **k):
        if not isinstance(x, np.ndarray):
            x = list(x) if not isinstance(x, (int, float, S, SB)) else x
        if _has_sym(x):
            return np.array(x, dtype=object, **k).view(SArr)
        return np.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and dtype is None:
            return x
        return self.array(x, dtype, **k)

    def average(self, a, axis=None, weights=None, **k):
        if _has_sym(a) or _has_sym(weights):
            a = np.array(list(a), dtype=object)
            if axis is not None:
                return np.average(a, axis=axis, weights=weights)
            if weights is None:
                return sum(a.flat) / a.size
            w = list(np.array(list(weights), dtype=object).flat)
            tot = sum(w)
            if tot == 0:
                raise ZeroDivisionError("Weights sum to zero, can't be normalized")
            return sum(x * y for x, y in zip(a.flat, w)) / tot
        return np.average(a, axis=axis, weights=weights, **k)

    def mean(self, a, axis=None, **k):
        if _has_sym(a):
            a = np.array(list(a), dtype=object)
            if axis is None:
                return sum(a.flat) / a.size
            return a.sum(axis=axis) / a.shape[axis]
        return np.mean(a, axis=axis, **k)

    def std(self, a, **k):
        if _has_sym(a):
            a = list(a)
            m = sum(a) / len(a)
            return self.sqrt(sum((x - m) * (x - m) for x in a) / len(a))
        return np.std(a, **k)

    def isinf(self, x):
        if isinstance(x, (S, SB)):
            return False
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([(not isinstance(e, (S, SB))) and math.isinf(e) for e in x.flat], dtype=bool).reshape(x.shape)
        return np.isinf(x)

    def isnan(self, x):
        if isinstance(x, (S, SB)):
            return False
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([(not isinstance(e, (S, SB))) and math.isnan(e) for e in x.flat], dtype=bool).reshape(x.shape)
        return np.isnan(x)

    def isfinite(self, x):
        if isinstance(x, (S, SB)):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([isinstance(e, (S, SB)) or math.isfinite(e) for e in x.flat], dtype=bool).reshape(x.shape)
        return np.isfinite(x)

    def nan_to_num(self, x, copy=True, nan=0.0, **k):
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = x.copy()
            for i in np.ndindex(x.shape):
                if not isinstance(x[i], (S, SB)) and x[i] != x[i]:
                    out[i] = nan
            return out
        return np.nan_to_num(x, copy=copy, nan=nan, **k)

    def sqrt(self, x):
        if isinstance(x, S):
            return x.sqrt()
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([self.sqrt(e) for e in x.flat], dtype=object).reshape(x.shape)
        return np.sqrt(x)

    def empty(self, shape, dtype=None, **k):
        return self.zeros(shape, dtype) if self._dt(dtype) else np.empty(shape, dtype=dtype, **k)

    def empty_like(self, x, dtype=None, **k):
        return self.empty(np.shape(x), dtype)

    def ones_like(self, x, dtype=None, **k):
        return self.ones(np.shape(x), dtype)

    def full_like(self, x, v, dtype=None, **k):
        return self.full(np.shape(x), v, dtype)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if _has_sym([a, b]):
            f = np.frompyfunc(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), 2, 1)
            r = f(a, b)
            return r.astype(bool) if isinstance(r, np.ndarray) else r
        return np.isclose(a, b, rtol, atol, **k)

    def allclose(self, a, b, *x, **k):
        return bool(np.all(self.isclose(a, b, *x, **k)))

    def hypot(self, x, y):
        return self.sqrt(x * x + y * y) if _has_sym([x, y]) else np.hypot(x, y)

    def sum(self, a, axis=None, **k):
        if axis is None and not k and not isinstance(a, np.ndarray) and _has_sym(list(a) if not isinstance(a, (S, int, float)) else [a]):
            return sum(a, 0.0) if not isinstance(a, S) else a
        return np.sum(a, axis=axis, **k)

    def arange(self, *a, **k):
        if _has_sym(list(a)):
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
            n = max(0, math.ceil((hi - lo) / st))
            return np.array([lo + i * st for i in range(n)], dtype=object).view(SArr)
        return np.arange(*a, **k)

    def linspace(self, a, b, num=50, **k):
        if _has_sym([a, b]):
            num = int(num)
            if num == 1:
                return np.array([a], dtype=object)
            return np.array([a + (b - a) * i / (num - 1) for i in range(num)], dtype=object)
        return np.linspace(a, b, int(num), **k)

    def argmin(self, a, **k):
        if _has_sym(list(a) if not isinstance(a, np.ndarray) else a):
            l = list(a)
            return l.index(min(l))
        return np.argmin(a, **k)

    def argmax(self, a, **k):
        if _has_sym(list(a) if not isinstance(a, np.ndarray) else a):
            l = list(a)
            return l.index(max(l))
        return np.argmax(a, **k)

    def floor(self, x):
        if isinstance(x, S):
            return float(math.floor(x))
        return np.floor(x)

    def ceil(self, x):
        if isinstance(x, S):
            return float(math.ceil(x))
        return np.ceil(x)


class SArr(np.ndarray):
    """object array whose scalars follow numpy float semantics where the code relies on them"""

    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, "float") and _has_sym(np.asarray(self)):
            return self.copy()
        return super().astype(dtype, *a, **k)

    def std(self, *a, **k):
        if self.dtype != object or a or k:
            return super().std(*a, **k)
        if _has_sym(np.asarray(self)):
            return NP.std(list(self.flat))
        return np.asarray(self).astype(float).std()

    def __truediv__(self, o):
        if self.dtype != object:
            return super().__truediv__(o)
        b = np.broadcast_to(np.asarray(o, dtype=object), self.shape)
        out = np.empty(self.shape, dtype=object)
        for i in np.ndindex(self.shape):
            x, y = self[i], b[i]
            if (bool(y == 0) if isinstance(y, S) else y == 0):
                out[i] = float("nan") if (bool(x == 0) if isinstance(x, S) else (x == 0 or x != x)) else float("inf") * (1 if x > 0 else -1)
            else:
                out[i] = x / y
        return out.view(SArr)

    def var(self, *a, **k):
        if self.dtype == object and not a and not k:
            l = list(self.flat)
            m = sum(l) / len(l)
            return sum((x - m) * (x - m) for x in l) / len(l)
        return super().var(*a, **k)


class CSR:
    def __init__(self, m):
        self.m = np.array(m, dtype=object)

    @property
    def T(self):
        return CSR(self.m.T)

    def toarray(self):
        return self.m


def csr_matrix(m, *a, **k):
    return CSR(m)


def _edge(v):
    """scipy sparse graphs: an explicit zero of a dense matrix is no edge"""
    if isinstance(v, S):
        return bool(v != 0)
    return v != 0


def dijkstra(g, directed=True, indices=None, return_predecessors=False, **k):
    """contract model of scipy.sparse.csgraph.dijkstra: exact minimal distances, -9999 = no predecessor"""
    m = g.m if isinstance(g, CSR) else np.array(g, dtype=object)
    n = len(m)
    adj = [[(j, m[i, j]) for j in range(n) if j != i and _edge(m[i, j])] for i in range(n)]
    rows = range(n) if indices is None else ([indices] if np.isscalar(indices) else list(indices))
    D = np.full((len(rows), n), np.inf, dtype=object)
    P = np.full((len(rows), n), -9999, dtype=int)
    for r, s0 in enumerate(rows):
        dist = {s0: 0.0}
        done = set()
        while True:
            best = None
            for x in sorted(dist):
                if x not in done and (best is None or dist[x] < dist[best]):
                    best = x
            if best is None:
                break
            done.add(best)
            for j, w in adj[best]:
                if j in done:
                    continue
                if not isinstance(w, S) and math.isinf(w):
                    continue
                nd = dist[best] + w
                if j not in dist or nd < dist[j]:
                    dist[j] = nd
                    P[r, j] = best
        for x, d in dist.items():
            D[r, x] = d
    if indices is not None and np.isscalar(indices):
        D, P = D[0], P[0]
    return (D, P) if return_predecessors else D


def floyd_warshall(g, directed=True, return_predecessors=False, **k):
    return dijkstra(g, directed, None, return_predecessors)


def sfloat(x=0.0):
    if isinstance(x, (S, SB)):
        return x
    return builtins.float(x)


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        return sfloat(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, S))

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class Float(metaclass=_FloatMeta):
    """stands for the builtin `float` in modules executed symbolically"""


class MathShim:
    """the math functions that would turn a symbolic value into a float"""

    def __getattr__(self, k):
        return getattr(math, k)

    @staticmethod
    def sqrt(x):
        return x.sqrt() if isinstance(x, S) else math.sqrt(x)

    @staticmethod
    def hypot(*a):
        return MathShim.sqrt(sum(x * x for x in a)) if any(isinstance(x, S) for x in a) else math.hypot(*a)

    @staticmethod
    def dist(p, q):
        return MathShim.hypot(*[x - y for x, y in zip(p, q)])

    @staticmethod
    def fabs(x):
        return abs(x) if isinstance(x, S) else math.fabs(x)

    @staticmethod
    def fsum(x):
        return sum(x, 0.0)

    @staticmethod
    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if isinstance(a, S) or isinstance(b, S):
            x, y = abs(a), abs(b)
            return bool(abs(a - b) <= max(rel_tol * max(x, y), abs_tol))
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def isinf(x):
        return False if isinstance(x, S) else math.isinf(x)

    @staticmethod
    def isnan(x):
        return False if isinstance(x, S) else math.isnan(x)

    @staticmethod
    def isfinite(x):
        return True if isinstance(x, S) else math.isfinite(x)

    @staticmethod
    def fmod(a, b):
        if isinstance(a, S) or isinstance(b, S):
            return a - b * math.trunc(a / b)
        return math.fmod(a, b)

    @staticmethod
    def modf(a):
        if isinstance(a, S):
            n = math.trunc(a)
            return a - n, float(n)
        return math.modf(a)

    @staticmethod
    def pow(a, b):
        return a ** b if isinstance(a, S) else math.pow(a, b)


MATH = MathShim()
_MF = {getattr(math, k): getattr(MATH, k) for k in ("sqrt", "hypot", "dist", "fabs", "fsum", "isclose", "isinf", "isnan", "isfinite", "fmod", "modf", "pow")}
NP = NPShim()


def patch(mod):
    if not SYM:
        return
    d = mod.__dict__
    if "np" in d:
        d["np"] = NP
    if d.get("math") is math:
        d["math"] = MATH
    for k, v in list(d.items()):
        if callable(v) and type(v).__name__ == "builtin_function_or_method" and v in _MF:
            d[k] = _MF[v]
    d["float"] = Float
    for nm, f in (("csr_matrix", csr_matrix), ("dijkstra", dijkstra), ("floyd_warshall", floyd_warshall)):
        if nm in d:
            d[nm] = f


for _m in (U, AN, UT, SRW):
    patch(_m)


_KEPT = {}


def _kept(i):
    return _KEPT[i]


class Kept:
    """environment object shared by a world and its pickled copies"""

    def __reduce__(self):
        _KEPT[id(self)] = self
        return _kept, (id(self),)


class CtxRef(Kept):
    """the path context, for objects of the environment that may be pickled with a world"""

    def __init__(self, ctx):
        self.ctx = ctx

    def pick(self, *a):
        return self.ctx.pick(*a)

    def real(self, *a, **k):
        return self.ctx.real(*a, **k)

    def assume(self, c):
        return self.ctx.assume(c)


class KeyedRng:
    """a generator made from a seed: the n-th draw of equal seeds is the same (arbitrary) value"""

    def __init__(self, ctx, seed):
        self.ctx = ctx if isinstance(ctx, CtxRef) else CtxRef(ctx)
        d = self.ctx.ctx.__dict__.setdefault("_draws", {})
        if seed is None:
            seed = ("entropy", len([k for k in d if isinstance(k, tuple) and k[0] == "entropy"]))
            d[seed] = None
        self.seed = seed
        self.k = 0

    def _draw(self, make, *what):
        d = self.ctx.ctx.__dict__.setdefault("_draws", {})
        key = (self.seed, self.k) + what
        self.k += 1
        if key not in d:
            d[key] = make()
        return d[key]

    def pick(self, name, n):
        r = zlib.crc32(repr((self.seed, self.k)).encode()) % n      # exploration starts from different outcomes for different seeds
        return self._draw(lambda: (self.ctx.pick(name, n) + r) % n, n)

    def real(self, name, lo=None, hi=None, grid=None):
        return self._draw(lambda: self.ctx.real(f"draw{len(self.ctx.ctx._draws)}", lo, hi, grid or 8), *[x.key() if isinstance(x, S) else x for x in (lo, hi)])

    def assume(self, c):
        return self.ctx.assume(c)


class EnvRng:
    """the world's random generator as a nondeterministic environment: every outcome its contract allows"""

    def __init__(self, ctx, uniform_range=True):
        self.ctx = ctx
        self.n = 0
        self.log = []

    def random(self, size=None):
        if isinstance(self.ctx, KeyedRng):
            self.ctx.k += 1         # (the values are used for colours only: fixed, but a draw all the same)
        if size is None:
            return 0.5
        return np.full(size, 0.5)

    def choice(self, a, size=None, p=None, replace=True):
        ctx = self.ctx
        items = list(range(int(a))) if isnum(a) else list(a)
        if size is not None:
            if isinstance(items[0] if items else None, str):
                self.n += 1
                return np.array([items[self.n % len(items)]] * size)       # random name suffix, different every time
            out = [items[ctx.pick("rc", len(items))] for _ in range(int(size))]
            o = np.empty(len(out), dtype=object)
            for i, x in enumerate(out):
                o[i] = x
            return o
        if len(items) == 0:
            raise ValueError("a cannot be empty unless no samples are taken")
        if p is not None:
            p = list(p)
            ok = []
            for it, q in zip(items, p):
                if q < 0:
                    raise ValueError("Probabilities are not non-negative")
                if q > 0:
                    ok.append(it)
            items = ok
            if not items:
                raise ValueError("probabilities do not sum to 1")
        return items[ctx.pick("rc", len(items))]

    def shuffle(self, lst):
        """any permutation (equal items are interchangeable)"""
        rest = list(lst)
        out = []
        while rest:
            uniq = []
            for x in rest:
                if not any(x is y for y in uniq):
                    uniq.append(x)
            x = uniq[self.ctx.pick("rs", len(uniq))]
            out.append(x)
            for i, y in enumerate(rest):
                if y is x:
                    del rest[i]
                    break
        lst[:] = out

    def permutation(self, x):
        l = list(range(x)) if isnum(x) else list(x)
        self.shuffle(l)
        return l

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            return np.array([self.uniform(low, high) for _ in range(int(size))], dtype=object)
        if not isinstance(low, S) and not isinstance(high, S) and low == high:
            return low
        self.n += 1
        if isinstance(low, S) or isinstance(high, S):
            f = self.ctx.real(f"rng{self.n}", 0, 1)
            return low + (high - low) * f
        return self.ctx.real(f"rng{self.n}", low, high, grid=64)

    def integers(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        return low + self.ctx.pick("ri", int(high - low))


class Tape(Kept):
    """random outcomes shared by several runs: the first run draws arbitrary values, the others get the same ones"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []

    def play(self):
        return TapeCtx(self)


class TapeCtx:
    def __init__(self, tape):
        self.tape = tape
        self.i = 0

    def _next(self, kind, make):
        t, i = self.tape, self.i
        self.i += 1
        if i < len(t.items) and t.items[i][0] == kind:
            return t.items[i][1]
        if i < len(t.items):
            t.items = t.items[:i]
        t.items.append((kind, make()))
        return t.items[i][1]

    def pick(self, name, n):
        return min(self._next("pick", lambda: self.tape.ctx.pick(name, n)), n - 1)

    def real(self, name, lo=None, hi=None, grid=None):
        return self._next("real", lambda: self.tape.ctx.real(f"tape{len(self.tape.items)}", lo, hi, grid or 8))

    def assume(self, c):
        return self.tape.ctx.assume(c)


def new_world(ctx, tape=None, **kw):
    kw.setdefault("print_mode", 0)
    kw.setdefault("save_mode", 0)
    kw.setdefault("show_mode", 0)
    kw.setdefault("random_seed", 1)
    kw.setdefault("duo_noise", 0)
    W = U.World(**kw)
    if tape != "seed":                  # "seed": the generator the code makes itself
        W.rng = EnvRng(tape.play() if tape else ctx)
    return W


def num(x):
    """plain python number from numpy scalars"""
    if isinstance(x, np.generic):
        return x.item()
    return x
