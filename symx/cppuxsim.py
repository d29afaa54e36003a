"""Loads the C++ engine of the current /repo tree (compiled by symx.cppbuild) behind the repo's own wrapper."""
import os, sys, time, importlib.util, importlib.machinery, warnings
import numpy as np
from . import pyuxsim as P
from .core import S, SB, isnum, NotEncodable, And
import uxsim

OMP = False          # the OpenMP build with the instrumented memory accesses (set by want_omp before the first load)
SO = None
X = None
WR = None


def _load(name, so):
    ld = importlib.machinery.ExtensionFileLoader(name, so)
    sp = importlib.util.spec_from_file_location(name, so, loader=ld)
    m = importlib.util.module_from_spec(sp)
    ld.exec_module(m)
    return m


def want_omp():
    global OMP
    if WR is not None and not OMP:
        raise RuntimeError("another engine build is loaded in this process")
    OMP = True


def kind():
    return ("omp" if OMP else "") + ("sym" if P.SYM else "con")


def load():
    """-> (wrapper module, state access module); raises NotEncodable when the engine does not compile here"""
    global X, WR, SO
    if WR is not None:
        return WR, X
    from . import cppbuild
    so = SO = cppbuild.wait_dir(os.environ.get("SYMX_CPP_DIR"), kind())
    if so is None:
        raise NotEncodable("the C++ engine could not be compiled for this check")
    e = _load("uxsim.uxsim_cpp", so)
    sys.modules["uxsim.uxsim_cpp"] = e
    uxsim.uxsim_cpp = e
    X = _load("uxsim_symx", so)
    if P.SYM:
        X.setup(S, SB)
    import uxsim.uxsim_cpp_wrapper as wr
    P.patch(wr)
    WR = wr
    return WR, X


class Env:
    """the C++ engine's random numbers: every value the distributions' documented contract allows"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def real(self, lo, hi):
        if not isinstance(lo, S) and not isinstance(hi, S) and lo == hi:
            return lo
        self.n += 1
        if isinstance(lo, S) or isinstance(hi, S) or hi - lo > 1e6:
            r = self.ctx.real(f"rnd{self.n}", -1000, 100000)
        else:
            r = self.ctx.real(f"rnd{self.n}", min(-1000, lo), max(100000, hi))
        self.ctx.assume(And(r >= lo, r < hi))
        return r

    def fabs(self, a):
        """|a|; values closer to zero than 1e-6 but not zero are left out (stated bound)"""
        if a == 0:
            return 0.0
        if a > 0:
            self.ctx.assume(a >= 1e-6)
            return a
        self.ctx.assume(a <= -1e-6)
        return -a

    def pick(self, n):
        return self.ctx.pick("ri", n)

    def real_at(self, key, lo, hi):
        """the same generator state gives the same draw"""
        d = self.ctx.__dict__.setdefault("_draws", {})
        if key not in d:
            self.n = len(d)
            d[key] = self.real(lo, hi)
        r = d[key]
        self.ctx.assume(And(r >= lo, r < hi) if not (isnum(lo) and isnum(hi) and lo == hi) else True)
        return r

    def pick_at(self, key, n):
        d = self.ctx.__dict__.setdefault("_draws", {})
        if (key, n) not in d:
            d[key, n] = self.ctx.pick("ri", n)
        return d[key, n]

    def array(self, l):
        a = np.empty(len(l), dtype=object)
        for i, v in enumerate(l):
            a[i] = v
        return a.view(P.SArr)


def begin(ctx, tape=None):
    """a further world in the same path keeps the values of the earlier ones alive"""
    wr, x = load()
    env = Env(tape.play() if tape and tape != "seed" else ctx)
    if getattr(ctx, "_cpp_begun", False):
        x.set_env(env)
    else:
        ctx._cpp_begun = True
        x.begin(env)
    return wr, x


def new_world(ctx, tape=None, **kw):
    wr, x = begin(ctx, tape)
    kw.setdefault("print_mode", 0)
    kw.setdefault("save_mode", 0)
    kw.setdefault("show_mode", 0)
    kw.setdefault("random_seed", 1)
    kw.setdefault("duo_noise", 0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        W = P.U.World(cpp=True, **kw)
    if tape != "seed":
        W.rng = P.EnvRng(tape.play() if tape else ctx)
    return W
