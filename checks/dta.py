"""C23: one day of the day-to-day assignment solvers, for arbitrary link travel-time records of that day."""
import math
import numpy as np
from contextlib import contextmanager
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from .dyn import make_sim
from .scn import nd, lk, vh
from .look import at, idx


class Stop(Exception):
    pass


ROUTES = {"od": ["od"], "a": ["oa", "ad"], "b": ["ob", "bd"], "loop": ["oa", "ao", "oa", "ad"]}


def build(ctx, engine, routes, tolls, late=True):
    K = 10
    ls = []
    for nm, a, b, L in (("oa", "o", "a", 70), ("ad", "a", "d", 80), ("ob", "o", "b", 75), ("bd", "b", "d", 65), ("od", "o", "d", 150), ("ao", "a", "o", 60)):
        if nm == "ao" and ROUTES["loop"] not in routes:
            continue
        ls.append(lk(nm, a, b, L, **({"congestion_pricing": tolls[nm]} if nm in tolls else {})))
    vs = [vh(f"v{i}", "o", "d", 2 * i, route=r) for i, r in enumerate(routes)]
    if late:
        vs.append(vh("late", "o", "d", K + 2, route=["od"]))
    sim = make_sim(ctx, engine, dict(opts=dict(deltan=5, reaction_time=1, tmax=5.0 * (K + 2)), nodes=[nd("o"), nd("a", 1, 1), nd("b", 1, -1), nd("d", 2)], links=ls, vehicles=vs))
    return sim


def inject(sim, tt):
    """replace the travel-time records of the finished day"""
    W = sim.W
    for l in W.LINKS:
        if l.name not in tt:
            continue
        if sim.engine == "py":
            from symx import pyuxsim as P
            v = [tt[l.name](i) for i in range(len(l.traveltime_actual))]
            l.traveltime_actual = P.NP.array(v) if P.SYM else np.array(v, dtype=float)
        else:
            c = l._cpp_link
            n = len(list(c.get_traveltime_actual_np()))
            sim.X.set_curves(sim.w, c.id, list(c.get_cum_arrival_np()), list(c.get_cum_departure_np()), [tt[l.name](i) for i in range(n)])


class Rnd:
    """the solvers' random numbers: arbitrary draws"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def __getattr__(self, k):
        raise AttributeError(k)

    def seed(self, *a):
        pass

    def random(self):
        self.n += 1
        return self.ctx.pickv(f"u{self.n}", [0.0, 0.25, 0.75])

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randint(self, a, b):
        return a + 12345 % (b - a + 1)

    def sample(self, l, k):
        l = list(l)
        if k > len(l):
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(l.pop(self.ctx.pick("sample", len(l))))
        return out

    def shuffle(self, l):
        l[:] = self.sample(l, len(l))

    def choice(self, l):
        return l[self.ctx.pick("choice", len(l))]


@contextmanager
def solver(ctx, kind, cpp, sets):
    import sys, warnings, importlib
    from symx import pyuxsim as P
    M = importlib.import_module("uxsim.DTAsolvers.DTAsolvers")
    A = importlib.import_module("uxsim.DTAsolvers.DTAsolvers_cpp_adapter")
    Ut = importlib.import_module("uxsim.Utilities.Utilities")
    old = [(m, dict(m.__dict__)) for m in (M, A, Ut)]
    r = Rnd(ctx)
    for m in (M, A):
        m.random = r
        m.print = lambda *a, **k: None
        P.patch(m)
    P.patch(Ut)
    M.enumerate_k_random_routes = lambda W, k: {("o", "d"): [list(x) for x in sets]}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield (M.SolverDUE if kind == "due" else M.SolverDSO_D2D), Ut
        finally:
            for m, d in old:
                for k in list(m.__dict__):
                    if k not in d:
                        delattr(m, k)
                m.__dict__.update(d)


def records(ctx, links, sim0, dso):
    """piecewise constant travel-time records: entries before / from step 3"""
    tt = {}
    for l in links:
        lo = {"oa": 3.5, "ad": 4, "ob": 3.75, "bd": 3.25, "od": 7.5}[l]
        x, y = ctx.real("tt1_" + l, lo, 24), ctx.real("tt2_" + l, lo, 24)
        tt[l] = lambda i, x=x, y=y: x if i < 3 else y
    return tt


def toll_at(engine, f, t, D, n):
    if f is None:
        return 0
    if engine == "py":
        return f(t)
    return f(min(max(idx(t, D), 0), n - 1) * D)


def cost(ctx, engine, kind, W, Ut, names, t0, D, times=None):
    """travel time plus tolls (or plus externality) of a route for a departure at t0"""
    t, tot = t0, 0
    n = W.TSIZE
    for i, nm in enumerate(names):
        l = W.get_link(nm)
        x = at(list(l.traveltime_actual), idx(t, D))
        tot = tot + x
        if kind == "due":
            tot = tot + toll_at(engine, l.congestion_pricing, times[i] if times else t, D, n)
        t = t + x
    if kind == "dso":
        tot = tot + Ut.estimate_congestion_externality_route(W, W.defRoute(names), t0)
    return tot


def judge(ctx, engine, kind, W, Ut, sets, external, spec, n_swap, potential, gap, p, num, route_log, cost_log):
    D, N = W.DELTAT, W.DELTAN
    pot = changed = same = 0
    total = 0
    vehs = list(W.VEHICLES.items())
    # the records are read once per route and departure time
    for nm, v in vehs:
        R, ts = v.traveled_route()
        r = [l.name for l in R]
        nxt = spec[nm]
        where = f"{engine} {kind} vehicle {nm} travelled {r} at {ts} next {nxt} p={p} num={num}"
        if v.state != "end":
            ctx.check(not nxt or nxt == r, "unfinished_vehicle_not_swapped", where)
            continue
        ctx.check(route_log[nm] == r, "route_log", f"{where}: {route_log[nm]}")
        ctx.check(ctx.eq(cost_log[nm], ts[-1] - ts[0]), "cost_log", f"{where}: {cost_log[nm]}")
        if external and r not in sets:
            ctx.check(nxt == sets[0], "route_outside_given_set", where)
            continue
        c0 = cost(ctx, engine, kind, W, Ut, r, ts[0], D, ts)
        cs = [cost(ctx, engine, kind, W, Ut, q, ts[0], D) for q in sets]
        cheaper = [q for q, c in zip(sets, cs) if bool(c < c0)]
        ctx.check(nxt == r or nxt in cheaper, "next_route_is_own_or_cheaper", f"{where}: own cost {c0}, alternatives {list(zip(sets, cs))}")
        if nxt != r and nxt in sets:
            ctx.check(And(*[cs[sets.index(nxt)] <= c for c in cs]), "switches_to_cheapest", f"{where}: {list(zip(sets, cs))}")
        if cheaper:
            pot += 1
            best = c0 - min(cs)
            total = total + best
        if nxt != r:
            changed += 1
        elif r in cheaper:
            same += 1                # tolls at the predicted entry times make the own route look cheaper
    ctx.check(ctx.eq(potential, pot * N), "potential_swaps", f"{potential} expected {pot * N}")
    ctx.check(And(n_swap <= potential, n_swap >= changed * N, n_swap <= (changed + same) * N), "actual_swaps", f"{n_swap} changed {changed} potential {potential}")
    if p == 0 and num is None:
        ctx.check(changed == 0 and n_swap == 0, "nobody_selected", f"{n_swap}")
    if p == 1 and num is None:
        ctx.check(ctx.eq(n_swap, potential), "everybody_selected", f"{n_swap} {potential}")
    if num is not None:
        ctx.check(n_swap >= (min(num, len(vehs)) - (len(vehs) - pot)) * N, "selected_vehicles_swap", f"{n_swap} of {potential} with {num} selected among {len(vehs)}")
        ctx.check(n_swap <= num * N, "number_of_selected_vehicles", f"{n_swap} {num}")
    ctx.check(gap >= 0, "gap_nonnegative", f"{gap}")
    ctx.check(ctx.eq(gap * len(vehs), total), "gap_is_difference_to_cheapest", f"{gap} expected {total} / {len(vehs)}")


def setup(ctx, kind, nveh, dep, order, external):
    keys = {0: ["od", "a", "b"], 1: ["a", "od", "b"], 2: ["b", "a"], 3: ["a"]}[order]
    sets = [ROUTES[k] for k in keys]
    first = [ROUTES[("od", "a")[ctx.pick(f"first{i}", 2)] if i == 0 else "b"] for i in range(nveh)]
    tolls = {}
    if kind == "due":
        tl = ctx.real("toll", 0, 20)
        tolls["od"] = lambda t: tl if t < 7 else 0
        tolls["ad"] = lambda t: 3 if t < 12 else 0
    return sets, first, tolls


def day(ctx, engine="py", kind="due", nveh=2, p=0.5, num=None, external=False, order=0, dep=0):
    """the real solver, stopped when the second day would be simulated"""
    sets, first, tolls = setup(ctx, kind, nveh, dep, order, external)
    sims = []
    with solver(ctx, kind, engine == "cpp", sets) as (Solver, Ut):
        def func():
            sim = build(ctx, engine, first, tolls)
            W = sim.W
            k = len(sims)
            sims.append(sim)
            ex = W.exec_simulation
            if k == 1:
                def run(*a, **kw):
                    ex(*a, **kw)
                    inject(sim, tt)
                W.exec_simulation = run
            elif k == 2:
                def run(*a, **kw):
                    raise Stop()
                W.exec_simulation = run
            return W
        tt = records(ctx, ["oa", "ad", "ob", "bd", "od"], None, kind == "dso")
        s = Solver(func, cpp=engine == "cpp")
        kw = dict(swap_prob=p, print_progress=False, n_routes_per_od=3)
        if external:
            kw["route_sets"] = {("o", "d"): [list(r) for r in sets]}
        if num is not None:
            kw["swap_num"] = num
        try:
            s.solve(3, **kw)
        except Stop:
            pass
        W, W2 = sims[1].W, sims[2].W
        spec = {}
        for nm, v in W2.VEHICLES.items():
            if engine == "py":
                q = getattr(v, "specified_route", None)
                spec[nm] = [l if isinstance(l, str) else l.name for l in q] if q else []
            else:
                spec[nm] = [l.name for l in (v._cpp_vehicle.specified_route or [])]
        for nm, v in W.VEHICLES.items():
            if v.state != "end" and W2.VEHICLES[nm].state == "home":
                spec[nm] = [] if spec[nm] == ["od"] else spec[nm]      # func_World itself prescribes this one
        ctx.check(len(s.n_swaps) == len(s.potential_swaps) == len(s.t_gaps) == len(s.route_log) == 1, "one_record_per_day", f"{s.n_swaps}")
        judge(ctx, engine, kind, W, Ut, sets, external, spec, s.n_swaps[0], s.potential_swaps[0], s.t_gaps[0], p, num, s.route_log[0], s.cost_log[0])


def core(ctx, engine="cpp", kind="due", nveh=2, p=0.5, num=None, external=False, order=0, dep=0):
    """the C++ solver core called directly, with route sets that need not contain the travelled routes"""
    sets, first, tolls = setup(ctx, kind, nveh, dep, order, external)
    with solver(ctx, kind, True, sets) as (Solver, Ut):
        sim = build(ctx, "cpp", first, tolls)
        W, w = sim.W, sim.w
        W.exec_simulation()
        inject(sim, records(ctx, ["oa", "ad", "ob", "bd", "od"], None, kind == "dso"))
        lid = {l.name: l.id for l in W.LINKS}
        nid = {n.name: n.id for n in W.NODES}
        store = w.make_od_route_set_store({(nid["o"], nid["d"]): [[lid[x] for x in r] for r in sets]})
        res = w.route_swap_due(store, p, external, 7) if kind == "due" else w.route_swap_dso(store, p, -1 if num is None else num, external, 7)
        names = {v: k for k, v in lid.items()}
        cut = lambda a, o: [[names[int(x)] for x in list(a)[int(o[i]):int(o[i + 1])]] for i in range(len(o) - 1)]
        rs, ra = cut(res["rs_link_ids"], list(res["rs_offsets"])), cut(res["ra_link_ids"], list(res["ra_offsets"]))
        nm = list(W.VEHICLES)
        spec, rl, cl = dict(zip(nm, rs)), dict(zip(nm, ra)), dict(zip(nm, list(res["cost_actual"])))
        judge(ctx, "cpp", kind, W, Ut, sets, external, spec, res["n_swap"], res["potential_n_swap"], res["total_t_gap"] / len(nm), p, num, rl, cl)


def one(ctx, engine="cpp", kind="due", own="a", sets=("a", "b", "od"), sym=("oa", "ob"), p=1, num=None, tolls="step", nveh=1):
    """small instances explored completely: constant travel times of the day, tolls stepping at 4, 6 and 9 s on the second links"""
    names = ["oa", "ad", "ob", "bd", "od", "ao"]
    fixed = {"ao": 4.5, "oa": 5.5, "ad": 6.5, "ob": 4.5, "bd": 8.25, "od": 13.0}
    rs = [ROUTES[k] for k in sets]
    tl = {}
    if kind == "due" and tolls == "step":
        g = lambda a, b, c, d: (lambda t: a if t < 4 else b if t < 6 else c if t < 9 else d)
        tl = {"ad": g(1, 4, 2, 7), "bd": g(6, 3, 5, 0.5), "od": g(2, 0, 0, 0), "oa": g(0.5, 8, 8, 8)}
    with solver(ctx, kind, engine == "cpp", rs) as (Solver, Ut):
        tt = {}
        for l in names:
            x = ctx.real("tt_" + l, fixed[l] - 2, fixed[l] + 6) if l in sym else fixed[l]
            tt[l] = lambda i, x=x: x
        if engine == "cpp":
            sim = build(ctx, "cpp", [ROUTES[own]] * nveh, tl, late=False)
            W, w = sim.W, sim.w
            W.exec_simulation()
            inject(sim, tt)
            lid = {l.name: l.id for l in W.LINKS}
            nid = {n.name: n.id for n in W.NODES}
            store = w.make_od_route_set_store({(nid["o"], nid["d"]): [[lid[x] for x in r] for r in rs]})
            res = w.route_swap_due(store, p, False, 7) if kind == "due" else w.route_swap_dso(store, p, -1 if num is None else num, False, 7)
            nm = {v: k for k, v in lid.items()}
            cut = lambda a, o: [[nm[int(x)] for x in list(a)[int(o[i]):int(o[i + 1])]] for i in range(len(o) - 1)]
            vn = list(W.VEHICLES)
            judge(ctx, "cpp", kind, W, Ut, rs, False, dict(zip(vn, cut(res["rs_link_ids"], list(res["rs_offsets"])))), res["n_swap"], res["potential_n_swap"], res["total_t_gap"] / len(vn), p, num,
                  dict(zip(vn, cut(res["ra_link_ids"], list(res["ra_offsets"])))), dict(zip(vn, list(res["cost_actual"]))))
            return
        sims = []

        def func():
            sim = build(ctx, engine, [ROUTES[own]] * nveh, tl, late=False)
            W = sim.W
            k = len(sims)
            sims.append(sim)
            ex = W.exec_simulation

            def run(*a, **kw):
                if k == 2:
                    raise Stop()
                ex(*a, **kw)
                inject(sim, tt)
            if k:
                W.exec_simulation = run
            return W
        s = Solver(func, cpp=False)
        kw = dict(swap_prob=p, print_progress=False, n_routes_per_od=3)
        if num is not None:
            kw["swap_num"] = num
        try:
            s.solve(3, **kw)
        except Stop:
            pass
        W, W2 = sims[1].W, sims[2].W
        spec = {nm: [l if isinstance(l, str) else l.name for l in (getattr(v, "specified_route", None) or [])] for nm, v in W2.VEHICLES.items()}
        judge(ctx, engine, kind, W, Ut, rs, False, spec, s.n_swaps[0], s.potential_swaps[0], s.t_gaps[0], p, num, s.route_log[0], s.cost_log[0])


PS = "uxsim.DTAsolvers.DTAsolvers:"
CS = "uxsim/trafficpp/dta_solver.cpp:"


def c23(tier):
    q = tier == "quick"
    js = []
    for kind in ("due", "dso"):
        cfgs = [dict(p=0.5, order=0), dict(p=1, order=1), dict(p=0, order=0), dict(p=0.5, order=2, external=True), dict(p=1, order=3)]
        if kind == "dso":
            cfgs += [dict(p=0.5, num=1, order=1), dict(p=0.5, num=0, order=0)]
        for c in cfgs:
            b = f"two finished vehicles and one that never departs, routes of one or two links out of three, travel-time records symbolic before/from step 3 (up to 24 s), {'symbolic toll ending at 7 s, ' if kind == 'due' else ''}swap probability {c['p']}{', ' + str(c['num']) + ' selected' if 'num' in c else ''}{', given route sets' if c.get('external') else ''}, every draw"
            js.append(Job("checks.dta", "day", dict(kind=kind, **c), [PS + ("SolverDUE.solve" if kind == "due" else "SolverDSO_D2D.solve"), "uxsim.uxsim:Route.actual_travel_time", "uxsim.uxsim:Link.get_toll"] + (["uxsim.Utilities.Utilities:estimate_congestion_externality_route"] if kind == "dso" else []), bounds=b))
            js.append(Job("checks.dta", "core", dict(engine="cpp", kind=kind, **c), [CS + f"dta_route_swap_{kind}", CS + "dta_get_traveled_route", CS + f"dta_compute_route_cost_{kind}"], bounds="C++ solver core, " + b))
        small = [dict(own="a", sets=("b", "od"), sym=("oa", "ob"))]
        small += [dict(own="od", sets=("a", "b"), sym=("oa", "od"))]
        small += [dict(own="b", sets=("od", "a", "b"), sym=("ad", "bd"), p=0)]
        small += [dict(own="loop", sets=("a", "loop", "od"), sym=("oa", "ad"))]
        if kind == "dso":
            small += [dict(own="od", sets=("a", "b"), sym=("oa", "od"), nveh=2, num=n) for n in (1, 2)]
        for eng in ("py", "cpp"):
            for c in small:
                js.append(Job("checks.dta", "one", dict(engine=eng, kind=kind, **c), [PS + ("SolverDUE.solve" if kind == "due" else "SolverDSO_D2D.solve")] if eng == "py" else [CS + f"dta_route_swap_{kind}", CS + f"dta_compute_route_cost_{kind}"],
                              bounds=f"{c.get('nveh', 1)} vehicles on route {c['own']}, alternatives {', '.join(c['sets'])}, the day's travel times of {' and '.join(c['sym'])} symbolic (8 s range){', tolls stepping at 4, 6, 9 s' if kind == 'due' else ''}"))
        js.append(Job("checks.dta", "day", dict(engine="cpp", kind=kind, p=0.5, order=0, external=True), [f"uxsim.DTAsolvers.DTAsolvers_cpp_adapter:CppSolver{'DUE' if kind == 'due' else 'DSO_D2D'}.solve", CS + "dta_batch_enforce_routes", CS + f"dta_route_swap_{kind}"], bounds="C++ solver with given route sets"))
    return dict(jobs=js, stubs=["solver's random numbers -> arbitrary draws", "enumerate_k_random_routes -> the given route sets", "the day's link travel-time records are replaced by arbitrary ones after the (real) simulation of the day"],
                assumptions=["the externality estimate itself (a heuristic) is taken as given", "the C++ solvers need vehicle logging to be on"])


CHECKS = {"C23": c23}
