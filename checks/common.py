"""Helpers of the harnesses that use the public interface of both engines."""
from symx.runner import Job
from symx.core import S, SB, And, Or, Not, Implies, isnum


def world(ctx, engine, **kw):
    kw.setdefault("duo_update_time", 10 ** 6)
    kw.setdefault("instantaneous_TT_timestep_interval", 10 ** 6)
    if engine == "py":
        from symx import pyuxsim as P
        return P.new_world(ctx, **kw)
    from symx import cppuxsim as C
    return C.new_world(ctx, **kw)


def steps(W, n=1):
    for _ in range(n):
        W.exec_simulation(duration_t2=W.DELTAT)


def job(mod, func, cfg, fns, bounds, **k):
    return Job(mod, func, cfg, fns, bounds=bounds, **k)


def both(mod, func, cfgs, fpy, fcpp, bounds):
    out = []
    for c in cfgs:
        for e in ("py", "cpp"):
            out.append(Job(mod, func, dict(engine=e, **c), fpy if e == "py" else fcpp, bounds=f"{e} engine; {bounds}; {c}"))
    return out
