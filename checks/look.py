"""C02 / C15: looking the recorded curves and travel times up by a time in seconds. C10: link parameters and current link states."""
import math
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from . import monitors as M, scn
from .scn import SC, make
from .logs import same_cell, mean, table


def drive(ctx, engine, sc, det, each=None, **o):
    sim, K, act = make(ctx, engine, sc, det, **o)
    sim.start()
    ent = {}
    a = sim.snap()
    for t in range(K):
        if t in act:
            act[t](sim.W)
            a = sim.snap()
        sim.step()
        b = sim.snap()
        for nm, l in M.entered(a, b).items():
            ent.setdefault(l, []).append((a.T, nm))
        if each:
            each(a, b)
        a = b
    return sim, a, ent


def at(lst, k):
    return lst[min(max(k, 0), len(lst) - 1)]


def idx(t, D):
    return int(math.floor(t / D))


def check_lookups(ctx, W, b, ent, ks, r, curves, times):
    D, N = b.D, b.N
    for nm, l in b.link.items():
        L = W.get_link(nm)
        steps = sorted({s for s, _ in ent.get(nm, [])})
        for k in ks:
            t = k * D + r
            t1 = t + 1.6 * D
            k1 = idx(t1, D)
            w = f"{nm} t={t} step {k}"
            if curves:
                A, B = at(l.carr, k), at(l.cdep, k)
                ctx.check(ctx.eq(L.arrival_count(t), A), "arrivals_at_time", f"{w}: {L.arrival_count(t)} expected {A}")
                ctx.check(ctx.eq(L.departure_count(t), B), "departures_at_time", f"{w}: {L.departure_count(t)} expected {B}")
                n = sum(1 for s, _ in ent.get(nm, []) if s <= min(k, b.T - 1)) * N
                if k >= 0:
                    ctx.check(ctx.eq(A, n), "arrivals_at_time", f"{w}: curve {A}, entered {n}")
                ctx.check(ctx.eq(L.num_vehicles_t(t), A - B), "vehicles_at_time", f"{w}: {L.num_vehicles_t(t)} expected {A - B}")
                ctx.check(ctx.eq(L.average_density(t) * l.L, A - B), "density_at_time", w)
                ctx.check(ctx.eq(L.inflow_between(t, t1) * (1.6 * D), at(l.carr, k1) - A), "inflow_between", w)
            if times:
                ti, ta = at(l.tti, k), at(l.tta, k)
                ctx.check(ctx.eq(L.instant_travel_time(t), ti), "instantaneous_travel_time_at_time", f"{w}: {L.instant_travel_time(t)} expected {ti}")
                ctx.check(ctx.eq(L.actual_travel_time(t), ta), "actual_travel_time_at_time", f"{w}: {L.actual_travel_time(t)} expected {ta}")
                ctx.check(ctx.eq(L.average_speed(t) * ti, l.L), "average_speed_at_time", f"{w}: {L.average_speed(t)} length {l.L} time {ti}")
                ctx.check(ctx.eq(L.average_flow(t) * ti, at(l.carr, k) - at(l.cdep, k)), "average_flow_at_time", f"{w}: {L.average_flow(t)}")
                sel = [s for s in steps if bool(And(s * D >= t, s * D < t1))]
                want = mean([at(l.tta, s) for s in sel]) if sel else l.L / l.u
                ctx.check(ctx.eq(L.average_travel_time_between(t, t1), want), "average_travel_time_between", f"{w}: {L.average_travel_time_between(t, t1)} expected {want} entries at {sel}")


def routes_of(b, n=3):
    """sequences of consecutive links"""
    out = []
    for l in b.link.values():
        seq = [l.name]
        while len(seq) < n:
            nx = [m.name for m in b.link.values() if m.a == b.link[seq[-1]].b and m.name not in seq]
            if not nx:
                break
            seq.append(nx[0])
        out.append(seq)
    out.sort(key=len, reverse=True)
    return out[:2]


def check_routes(ctx, W, b, ks, r):
    D = b.D
    for seq in routes_of(b):
        R = W.defRoute(seq)
        R2 = W.defRoute([W.get_link(x) for x in seq])
        ctx.check([l.name for l in R.links] == seq and list(R.links_name) == seq and R == R2 and len(R) == len(seq) and R[0].name == seq[0], "route_definition", f"{seq} {R.links}")
        for k in ks:
            t = k * D + r
            now, tts = t, []
            for x in seq:
                tts.append(at(b.link[x].tta, idx(now, D)))
                now = now + tts[-1]
            w = f"route {seq} t={t}"
            ctx.check(ctx.eq(R.actual_travel_time(t), sum(tts)), "route_travel_time", f"{w}: {R.actual_travel_time(t)} expected {tts}")
            tot, det = R.actual_travel_time(t, return_details=True)
            ctx.check(ctx.eq(tot, sum(tts)) and len(det) == len(tts) and And(*[ctx.eq(p, q) for p, q in zip(det, tts)]), "route_travel_time_details", f"{w}: {det} expected {tts}")
    for l in b.link.values():
        bad = [m.name for m in b.link.values() if m.a != l.b]
        if bad:
            try:
                W.defRoute([l.name, bad[0]])
            except Exception:
                continue
            ctx.check(False, "route_of_unconnected_links_refused", f"{l.name} {bad[0]}")


def lookups(ctx, engine="py", sc="line", det=True, what="curves", end=False, mid=False):
    r = ctx.real("r", 0, 5, grid=16)

    def q(b):
        ctx.assume(r < b.D)
        ks = range(-2, b.T + 3) if not end else list(range(-1, 3)) + list(range(b.T - 2, b.T + 2))
        check_lookups(ctx, sim.W, b, ent, ks, r, what == "curves", what == "times")
        if what == "routes":
            check_routes(ctx, sim.W, b, [-1, 0, 1, 2, b.T - 1], r)
        if what == "curves":
            df = sim.W.analyzer.link_cumulative_to_pandas()
            rows = [(nm, i * b.D, l.carr[i], l.cdep[i], l.tta[i], l.tti[i]) for nm, l in b.link.items() for i in range(len(l.carr))] if hasattr(df, "columns") else []
            cols = list(df.columns)
            if len(cols) == 6:
                table(ctx, df, cols, rows, "cumulative_table")
    sim, K, act = make(ctx, engine, sc, det)
    sim.start()
    ent = {}
    a = sim.snap()
    n = K
    while True:
        t = sim.W.T
        if t in act:
            act[t](sim.W)
            a = sim.snap()
        sim.step()
        b = sim.snap()
        for nm, l in M.entered(a, b).items():
            ent.setdefault(l, []).append((a.T, nm))
        a = b
        if mid and b.T == K - 2:
            q(b)
        if b.T == (sim.W.TSIZE if end else K):
            break
    q(a)


# ---------------------------------------------------------------------------------------- C10
def check_state(ctx, W, b, where):
    for nm, l in b.link.items():
        L = W.get_link(nm)
        n = len(l.vehs)
        vs = [b.veh[x].v for x in l.vehs]
        for _ in range(2):
            ctx.check(ctx.eq(L.num_vehicles, n * b.N), "current_vehicles", f"{where} {nm}: {L.num_vehicles} vehicles {l.vehs}")
            ctx.check(ctx.eq(L.density * l.L, n * b.N), "current_density", f"{where} {nm}: {L.density}")
            sp = mean(vs) if vs else l.u
            ctx.check(ctx.eq(L.speed, sp), "current_speed", f"{where} {nm}: {L.speed} expected {sp} {vs}")
            ctx.check(ctx.eq(L.flow * l.L, n * b.N * sp), "current_flow", f"{where} {nm}: {L.flow}")
            qn = sum(1 for v in vs if bool(v < l.u)) * b.N
            ctx.check(ctx.eq(L.num_vehicles_queue, qn), "current_queue", f"{where} {nm}: {L.num_vehicles_queue} expected {qn} speeds {vs}")


def check_params(ctx, L, u, kappa, lanes, tau, where):
    ctx.check(And(ctx.eq(L.u, u), ctx.eq(L.free_flow_speed, u)), "free_flow_speed", f"{where}: {L.u} {L.free_flow_speed} expected {u}")
    # with a density given per lane the attribute jam_density is only the (unused) argument
    ctx.check(And(ctx.eq(L.kappa, kappa), L.jam_density_per_lane is not None or ctx.eq(L.jam_density, kappa)), "jam_density", f"{where}: {L.kappa} {L.jam_density} expected {kappa}")
    ctx.check(L.number_of_lanes == lanes and ctx.eq(L.tau * lanes, tau), "reaction_time", f"{where}: {L.tau} {lanes} {tau}")
    ctx.check(ctx.eq(L.delta * kappa, 1), "jam_spacing", f"{where}: {L.delta} kappa {kappa}")
    ctx.check(ctx.eq(L.delta_per_lane * kappa, lanes), "jam_spacing_per_lane", f"{where}: {L.delta_per_lane} kappa {kappa} lanes {lanes}")
    ctx.check(ctx.eq(L.w * tau * kappa, lanes), "wave_speed", f"{where}: {L.w} tau {tau} kappa {kappa}")
    # capacity = u k* = w (kappa - k*)  <=>  q tau u kappa ... written without division
    ctx.check(ctx.eq(L.capacity * (u * tau * kappa + lanes), u * kappa * lanes), "capacity", f"{where}: {L.capacity}")
    ctx.check(And(ctx.eq(L.q_star, L.capacity), ctx.eq(L.k_star * u, L.capacity)), "critical_density", f"{where}: {L.q_star} {L.k_star} capacity {L.capacity}")


def states(ctx, engine="py", sc="line", det=True, every=True):
    """current link states read during pauses"""
    sim, K, act = make(ctx, engine, sc, det)
    sim.start()
    check_state(ctx, sim.W, sim.snap(), "start")
    for t in range(K):
        if t in act:
            act[t](sim.W)
            check_state(ctx, sim.W, sim.snap(), f"after the change at step {t}")
        sim.step()
        b = sim.snap()
        if every or t % 2:
            check_state(ctx, sim.W, b, f"step {t}")
            for l in b.link.values():
                check_params(ctx, sim.W.get_link(l.name), l.u, l.kappa, l.lanes, sim.W.REACTION_TIME, l.name)


def params(ctx, engine="py", per_lane=False, lanes=1, caps=False, wide=True, change=True):
    """parameters derived at creation and after changes"""
    u = ctx.real("u", 1, 50)
    k = ctx.real("k", 0.01, 1) if wide else ctx.pickv("k", [0.0625, 0.15, 0.2, 0.4])
    tau = ctx.pickv("tau", [1, 0.75, 2]) if not wide else ctx.real("tau", 0.5, 2)
    ln = 1000.0
    if not wide:
        ln = ctx.real("L", 100, 900)
    else:
        ctx.assume(u * tau * 5 <= 99)        # the number of cells of the traffic-state grid is not of interest here
    from .dyn import make_sim
    from .scn import nd
    cin, cout = (ctx.real("cin", 0, 4), ctx.real("cout", 0, 4)) if caps else (None, None)
    o = dict(deltan=5, reaction_time=tau, tmax=1000)
    l = dict(name="l", a="a", b="b", length=ln, free_flow_speed=u, number_of_lanes=lanes, capacity_in=cin, capacity_out=cout, eular_dx=100)
    l["jam_density_per_lane" if per_lane else "jam_density"] = k
    sim = make_sim(ctx, engine, dict(opts=o, nodes=[nd("a"), nd("b", 1)], links=[l]))
    L = sim.link("l")
    kk = k * lanes if per_lane else k
    check_params(ctx, L, u, kk, lanes, tau, "created")
    ctx.check(ctx.eq(L.length, ln), "length", str(L.length))
    if caps:
        ctx.check(And(ctx.eq(L.capacity_in, cin), ctx.eq(L.capacity_out, cout)), "given_capacities", f"{L.capacity_in} {L.capacity_out}")
    else:
        ctx.check(And(ctx.ge(L.capacity_in, L.capacity), ctx.ge(L.capacity_out, L.capacity)), "default_capacities_do_not_bind", f"{L.capacity_in} {L.capacity_out} {L.capacity}")
    if not change:
        return
    ctx.check(ctx.eq(L.speed, u), "current_speed", f"{L.speed}")
    u2, k2 = ctx.real("u2", 1, 50), ctx.real("k2", 0.01, 1)
    L.change_free_flow_speed(u2)
    check_params(ctx, L, u2, kk, lanes, tau, "speed changed")
    ctx.check(ctx.eq(L.speed, u2), "current_speed", f"{L.speed} expected {u2}")
    L.change_jam_density(k2)
    check_params(ctx, L, u2, k2, lanes, tau, "density changed")
    L.change_free_flow_speed(-1)
    L.change_jam_density(-0.1)
    check_params(ctx, L, u2, k2, lanes, tau, "negative values ignored")


LK = ["arrival_count", "departure_count", "inflow_between", "num_vehicles_t", "average_density"]
TK = ["instant_travel_time", "actual_travel_time", "average_speed", "average_flow", "average_travel_time_between"]


def _f(e, names, cls="Link"):
    return [f"uxsim.uxsim:{cls}." + n if e == "py" else f"uxsim.uxsim_cpp_wrapper:Cpp{cls}." + n for n in names]


def c_look(what):
    def f(tier):
        js = []
        for e in ("py", "cpp"):
            for s in SC:
                if tier == "quick" and s in ("mix", "route", "orderdep", "bottleneck", "change", "nocyc"):
                    continue
                for end in ((False, True) if s in ("line", "spill", "params") or tier != "quick" else (False,)):
                    for w in (what,) if what == "curves" else ("times", "routes"):
                        js.append(Job("checks.look", "lookups", dict(engine=e, sc=s, what=w, end=end, mid=s in ("spill", "merge", "lanes")),
                                      _f(e, LK) if w == "curves" else _f(e, TK) if w == "times" else _f(e, ["__init__", "actual_travel_time"], "Route"),
                                      bounds=f"{e} engine, scenario {s} (checks/scn.py), deterministic mode, {'run to the end' if end else 'paused after 6-9 steps'}, every query time from two steps before the start to three steps after the current one (symbolic within the step)"))
        return dict(jobs=js, deadline=(70 if what == "times" else 50) if tier == "quick" else 600)
    return f


def c10(tier):
    js = []
    for e in ("py", "cpp"):
        fn = _f(e, ["__init__", "change_free_flow_speed", "change_jam_density"]) + (["uxsim/trafficpp/traffi.cpp:Link::Link", "uxsim/trafficpp/traffi.cpp:Link::change_free_flow_speed", "uxsim/trafficpp/traffi.cpp:Link::change_jam_density"] if e == "cpp" else [])
        for pl in (False, True):
            for lanes in (1, 2, 3):
                js.append(Job("checks.look", "params", dict(engine=e, per_lane=pl, lanes=lanes, caps=lanes == 2), fn, bounds=f"{e} engine, free-flow speed 1-50 before and after a change, jam density 0.01-1 before and after a change, reaction time 0.5-2, {lanes} lane(s), per-lane density {pl}"))
        for s in SC:
            if tier == "quick" and s in ("mix", "route", "orderdep"):
                continue
            js.append(Job("checks.look", "states", dict(engine=e, sc=s), _f(e, ["speed", "density", "flow", "num_vehicles", "num_vehicles_queue"]), bounds=f"{e} engine, scenario {s} (checks/scn.py), deterministic mode, link states read at every pause, after parameter changes, and twice"))
            js.append(Job("checks.look", "states", dict(engine=e, sc=s, every=False), _f(e, ["speed", "density", "flow", "num_vehicles", "num_vehicles_queue"]), bounds=f"{e} engine, scenario {s}, link states read at every second pause"))
    return dict(jobs=js)


CHECKS = {"C02": c_look("curves"), "C15": c_look("times"), "C10": c10}
