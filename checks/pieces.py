"""C14: the same scenario executed step by step, in arbitrary pieces and at once."""
import warnings
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from . import scn
from .scn import SC
from .dyn import make_sim
from .logs import lname

OUT = ("x", "v", "lane", "dep", "arr", "tt", "t_in")


def same_world(ctx, a, b, where, pref=True):
    """two snapshots of the same engine are equal"""
    ctx.check(a.T == b.T, "time_step", f"{where}: {a.T} / {b.T}")
    ctx.check(list(a.veh) == list(b.veh), "vehicle_set", where)
    for nm, v in a.veh.items():
        w = b.veh[nm]
        ctx.check(v.state == w.state and v.link == w.link and v.lane == w.lane, "vehicle_state", f"{where} {nm}: {v.state},{v.link},{v.lane} / {w.state},{w.link},{w.lane}")
        for f in ("x", "v", "dep", "arr", "tt", "t_in"):
            ctx.check(ctx.eq(getattr(v, f), getattr(w, f)), "vehicle_" + f, f"{where} {nm}: {getattr(v, f)} / {getattr(w, f)}")
        p, q = (v.pref or {}, w.pref or {}) if pref else ({}, {})
        ctx.check(list(p) == list(q) and And(*[ctx.eq(p[k], q[k]) for k in p]), "vehicle_preference", f"{where} {nm}: {p} / {q}")
    for nm, l in a.link.items():
        m = b.link[nm]
        ctx.check(l.vehs == m.vehs, "vehicles_on_link", f"{where} {nm}: {l.vehs} / {m.vehs}")
        for f in ("carr", "cdep", "tti", "tta"):
            p, q = getattr(l, f), getattr(m, f)
            ctx.check(len(p) == len(q) and And(*[ctx.eq(x, y) for x, y in zip(p, q)]), "link_" + f, f"{where} {nm}: {p} / {q}")
        ctx.check(And(ctx.eq(l.cin_rem, m.cin_rem), ctx.eq(l.cout_rem, m.cout_rem)), "link_allowance", f"{where} {nm}")
    for nm, n in a.node.items():
        m = b.node[nm]
        ctx.check(n.q == m.q and n.phase == m.phase and ctx.eq(n.sig_t, m.sig_t), "node_state", f"{where} {nm}: {n.q},{n.phase},{n.sig_t} / {m.q},{m.phase},{m.sig_t}")


def same_logs(ctx, A, B, where):
    for nm, v in A.VEHICLES.items():
        w = B.VEHICLES[nm]
        for f in ("log_t", "log_x", "log_v", "log_s", "log_lane"):
            p, q = list(getattr(v, f)), list(getattr(w, f))
            ctx.check(len(p) == len(q) and And(*[ctx.eq(x, y) for x, y in zip(p, q)]), f, f"{where} {nm}: {p} / {q}")
        ctx.check(list(v.log_state) == list(w.log_state) and [lname(l) for l in v.log_link] == [lname(l) for l in w.log_link], "log_state", f"{where} {nm}")


def look(W):
    """what a user may read during a pause"""
    for v in W.VEHICLES.values():
        list(v.log_t), list(v.log_x), v.traveled_route()
    for l in W.LINKS:
        l.speed, l.num_vehicles, l.cum_arrival, l.traveltime_actual, l.actual_travel_time(3)
    W.analyzer.basic_analysis()


def flags(ctx, W, TS, where):
    ctx.check(bool(W.check_simulation_ongoing()) == (W.T < TS), "ongoing_flag", f"{where}: T={W.T} of {TS}: {W.check_simulation_ongoing()}")
    ctx.check(ctx.eq(W.TIME, W.T * W.DELTAT), "current_time", f"{where}: T={W.T} TIME={W.TIME}")


def run(ctx, W, TS, kind, val, where, order):
    """one call of exec_simulation: it must stop at the corresponding step"""
    D, T0 = W.DELTAT, W.T if W.finalized else 0
    if not W.finalized:
        ctx.check(bool(W.check_simulation_ongoing()), "ongoing_flag", "before the start")
    f = None if val is None else val // D
    last = {"until_t": f, "duration_t2": None if f is None else T0 + f - 1, "duration_t": None if f is None else T0 + f, "all": TS}[kind]
    n0 = len(order)
    try:
        r = W.exec_simulation(**({} if kind == "all" else {kind: val}))
    except Exception as e:
        if "not positive" not in str(e):
            raise
        ctx.check(last < T0, "refused_positive_duration", f"{where}: at step {T0} {kind}={val}")
        ctx.check(W.T == T0 and len(order) == n0, "refused_call_changes_nothing", f"{where}: {W.T}")
        return
    ctx.check(Or(last >= T0, T0 == TS), "accepted_non_positive_duration", f"{where}: at step {T0} {kind}={val}")
    ctx.check(W.T <= TS, "end_time_respected", f"{where}: {W.T} of {TS}")
    ctx.check(Or(And(last >= TS - 1, W.T == TS), And(last < TS - 1, ctx.eq(W.T, last + 1))), "stop_time", f"{where}: from step {T0} with {kind}={val}: at {W.T} of {TS}")
    ctx.check((r == 1) == (W.T == TS), "finished_indication", f"{where}: returned {r} at step {W.T} of {TS}")
    flags(ctx, W, TS, where)
    if order is not None and W.T >= T0 and order != ["n/a"]:
        ctx.check(order[n0:] == list(range(T0, W.T)), "each_step_once_in_order", f"{where}: {order[n0:]} from {T0} to {W.T}")


def pieces(ctx, engine="py", sc="line", det=True, cuts=("until_t", "duration_t2"), reads=True, end=False):
    spec, K, act = SC[sc](ctx)
    D = spec["opts"]["deltan"] * spec["opts"]["reaction_time"]
    from symx.pyuxsim import Tape
    tape = Tape(ctx)
    tm = ctx.real("tmax", D * K, D * (K + 2)) if end else D * (K + 1)
    spec["opts"] = dict(spec["opts"], hard_deterministic_mode=det, tmax=tm)
    spec["tape"] = tape

    def new():
        order = ["n/a"]
        if engine == "py":
            order = []
            sim = make_sim(ctx, engine, dict(spec, opts=dict(spec["opts"], user_function=lambda W: order.append(W.T))))
        else:
            sim = make_sim(ctx, engine, spec)
        return sim, order
    A, oa = new()
    W = A.W
    A.start()
    TS = W.TSIZE
    ctx.check(And(TS * D <= tm, tm < (TS + 1) * D), "number_of_steps", f"{TS} steps for end time {tm}")
    snaps = {0: A.snap()}
    while W.T < TS:
        t = W.T
        run(ctx, W, TS, "duration_t2", D, "step by step", oa)
        ctx.check(W.T == t + 1, "single_step", f"{t} -> {W.T}")
        snaps[W.T] = A.snap()
        if W.T == t:
            return
    # at once
    C, oc = new()
    run(ctx, C.W, TS, "all", None, "at once", oc)
    same_world(ctx, snaps[TS], C.snap(), "step by step / at once")
    same_logs(ctx, W, C.W, "step by step / at once")
    # in pieces
    B, ob = new()
    for i, c in enumerate(cuts):
        val = ctx.real(f"cut{i}", 0, D * (K + 3)) if c == "until_t" else ctx.real(f"cut{i}", 0, D * K)
        run(ctx, B.W, TS, c, val, f"piece {i}", ob)
        if B.W.T:
            same_world(ctx, snaps[B.W.T], B.snap(), f"after piece {i}")
            if reads:
                look(B.W)
    run(ctx, B.W, TS, "all", None, "last piece", ob)
    ctx.check(B.W.T == TS, "end_reached", str(B.W.T))
    same_world(ctx, snaps[TS], B.snap(), "in pieces")
    same_logs(ctx, W, B.W, "in pieces")
    run(ctx, B.W, TS, "all", None, "after the end", ob)
    same_world(ctx, snaps[TS], B.snap(), "after the end")


PYF = ["uxsim.uxsim:World.exec_simulation", "uxsim.uxsim:World.check_simulation_ongoing", "uxsim.uxsim:World.simulation_terminated"]
CPF = ["uxsim.uxsim_cpp_wrapper:World.exec_simulation", "uxsim.uxsim_cpp_wrapper:World.check_simulation_ongoing", "uxsim.uxsim_cpp_wrapper:World._sync_from_cpp", "uxsim/trafficpp/traffi.cpp:World::main_loop", "uxsim/trafficpp/traffi.cpp:World::check_simulation_ongoing"]


def c14(tier):
    js = []
    q = tier == "quick"
    for e in ("py", "cpp"):
        for s in SC:
            if s in ("mix", "orderdep", "bottleneck", "route") and q:
                continue
            plans = [(("until_t",), True, False)]
            if s in ("spill", "signal"):
                plans += [(("until_t", "duration_t2"), True, False), (("duration_t",), True, True)]
            if s in ("merge", "gradual", "line"):
                plans += [(("duration_t2",), False, False)]
            if s in ("params",):
                plans += [(("duration_t2", "duration_t"), True, True)]
            if not q:
                plans += [(("duration_t2", "until_t"), False, True), (("duration_t", "duration_t2"), True, False)]
            for cuts, det, end in plans:
                js.append(Job("checks.pieces", "pieces", dict(engine=e, sc=s, cuts=cuts, det=det, end=end), PYF if e == "py" else CPF,
                              bounds=f"{e} engine, scenario {s} (checks/scn.py), {'deterministic' if det else 'arbitrary random draws, the same in every run'}, 7-10 steps, pieces given by {'+'.join(cuts)} with symbolic seconds up to 3 steps past the end, then the rest"
                                     + (", symbolic end time" if end else "") + "; compared with the step-by-step and the single run of the same symbolic scenario; states and logs read during the pauses"))
    return dict(jobs=js)


CHECKS = {"C14": c14}
