"""C09 (demand definitions) and C21 (spatial queries)."""
import math
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from .dyn import make_sim
from .scn import nd, lk

# a, b, c, d with roads; e has only an outgoing road, f only an incoming one, g none
NODES = [nd("a", 0, 0), nd("b", 3, 0), nd("c", 0, 4), nd("d", 5, 5), nd("e", -2, 1), nd("f", 6, 1), nd("g", 2, 2)]
LINKS = [lk("ab", "a", "b", 100), lk("ba", "b", "a", 100), lk("bc", "b", "c", 100), lk("cd", "c", "d", 100), lk("da", "d", "a", 100), lk("ea", "e", "a", 100), lk("bf", "b", "f", 100)]


def world(ctx, engine, rt=1, nodes=None, links=None):
    return make_sim(ctx, engine, dict(opts=dict(deltan=5, reaction_time=rt, tmax=1000), nodes=nodes or NODES, links=LINKS if links is None else links))


def vehicles(W):
    out = []
    for nm, v in W.VEHICLES.items():
        out.append((v.orig.name, v.dest.name, v.departure_time, v.departure_time_in_second, v.attribute, v.state))
    return out


def check_flow(ctx, vs, o, d, flow, t0, t1, D, N, attr, where):
    """the vehicles of one origin-destination flow: whole platoons, each departing in the first step by whose end it is due"""
    s0, s1 = int(math.floor(t0 / D)), int(math.floor(t1 / D))
    mine = [v for v in vs if v[0] == o and v[1] == d]
    last = None
    for i, v in enumerate(mine):
        w = f"{where} {o}->{d} vehicle {i}: {v} flow {flow} from {t0} to {t1}"
        dep = v[2]
        ctx.check(ctx.eq(v[3], dep * D), "departure_time_in_second", w)
        ctx.check(v[4] == attr, "attribute", w)
        ctx.check(v[5] == "home", "state", w)
        ctx.check(And(dep >= s0, dep < s1), "departure_inside_period", w)
        if last is not None:
            ctx.check(dep >= last, "departure_order", w)
        last = dep
        ctx.check(ctx.le((i + 1) * N, flow * D * (dep - s0 + 1)), "not_more_than_requested", w)
        ctx.check(ctx.ge((i + 1) * N + 1e-9, flow * D * (dep - s0)), "not_later_than_requested", w)
    tot = flow * D * max(s1 - s0, 0)
    n = N * len(mine)
    ctx.check(And(ctx.le(n, tot), tot - n < N + 1e-6) if not (isinstance(tot, (int, float)) and tot <= 0) else n == 0, "requested_volume", f"{where} {o}->{d}: {n} vehicles, requested {tot}")


def flow(ctx, engine="py", vol=False, rt=1, twice=False):
    sim = world(ctx, engine, rt)
    W, D, N = sim.W, sim.D, sim.N
    t0 = ctx.real("t0", 0, 12)
    dur = ctx.real("dur", 2, 22)
    t1 = t0 + dur
    at = {"k": 1}
    if vol:
        q = ctx.real("vol", 0, 35)
        ig = ctx.pickv("ignored_flow", [-1, 0.6])         # when a volume is given, the flow is ignored
        if ig != -1:
            ctx.assume(q > 0)
        if engine == "cpp":
            W.adddemand("a", W.get_node("b"), t0, t1, flow=ig, volume=q, attribute=at)
        else:
            W.adddemand("a", W.get_node("b"), t0, t1, ig, q, at)
        f = q / dur
        if bool(q <= 0):
            f = 0
    else:
        f = ctx.real("q", 0, 1.5)
        W.adddemand(W.get_node("a"), "b", t0, t1, f, attribute=at)
    vs = vehicles(W)
    ctx.check(all(v[:2] == ("a", "b") for v in vs), "origin_and_destination", str(vs))
    check_flow(ctx, vs, "a", "b", f, t0, t1, D, N, at, "adddemand")
    if twice:
        n = len(vs)
        W.adddemand("c", "d", 0, 10, 1.0)
        W.addVehicle("d", "a", 7.5)
        vs2 = vehicles(W)
        ctx.check([v[:3] for v in vs2[:n]] == [v[:3] for v in vs], "earlier_vehicles_kept", "")
        new = vs2[n:]
        ctx.check([v[:2] for v in new] == [("c", "d")] * 2 + [("d", "a")] and new[2][2] == 1 and len(W.VEHICLES) == n + 3, "further_demand", f"{new}")


def nearest(ctx, W, x, y, got, where):
    """got is a node of minimal distance"""
    ctx.check(got is not None and got in W.NODES, "nearest_node_exists", f"{where}: {got}")
    if got is None:
        return
    g = (got.x - x) * (got.x - x) + (got.y - y) * (got.y - y)
    for n in W.NODES:
        # |p-n|^2 - |p-g|^2 is linear in the point
        h = (n.x * n.x + n.y * n.y - got.x * got.x - got.y * got.y) - 2 * x * (n.x - got.x) - 2 * y * (n.y - got.y)
        ctx.check(h >= -1e-6, "nearest_node", f"{where} ({x},{y}): {got.name}, {n.name} is closer by {h}")


def demand_points(ctx, engine="py"):
    sim = world(ctx, engine)
    W = sim.W
    x, y = ctx.real("x", -10, 10), ctx.real("y", -10, 10)
    W.adddemand_point2point(x, y, 4.9, 5.2, 0, 20, 1.0, attribute="A")
    o = W.get_nearest_node(x, y)
    vs = vehicles(W)
    ctx.check(all(v[1] == "d" for v in vs) and len({v[0] for v in vs}) == 1, "origin_and_destination", str(vs))
    nearest(ctx, W, x, y, W.get_node(vs[0][0]), "origin")
    check_flow(ctx, vs, vs[0][0], "d", 1.0, 0, 20, sim.D, sim.N, "A", "point2point")


def elig(W, names, k):
    return [n for n in names if len(getattr(W.get_node(n), k)) > 0]


def areas(ctx, engine="py", kind="area2area", vol=False, most=24):
    """demand between areas or node lists"""
    sim = world(ctx, engine)
    W, D, N = sim.W, sim.D, sim.N
    import warnings
    warnings.simplefilter("ignore")
    rnd = kind.endswith("2area2") or kind.endswith("2nodes2")
    T0, T1 = 5, 25
    q = ctx.real("vol", 0, most if rnd else 40) if vol else ctx.real("q", 0, most / 20 if rnd else 2)
    kw = dict(volume=q) if vol else dict(flow=q)
    if vol and kind == "area2area":
        ctx.assume(q > 0)
        kw["flow"] = 1.2                                  # when a volume is given, the flow is ignored
    if kind.startswith("area"):
        r = ctx.real("r", 0, 7)
        cx, cy = (ctx.pickv("cx", [0, 2.5]), 0) if rnd else (ctx.pickv("cx", [0, 2.5, 6]), ctx.pickv("cy", [0, 1.5]))
        rd = ctx.pickv("rd", [0.5, 4, 100])
        fn = W.adddemand_area2area2 if rnd else W.adddemand_area2area
        inside = lambda x, y, rr: [n["name"] for n in NODES if bool(And(rr * rr > (n["x"] - x) ** 2 + (n["y"] - y) ** 2))]
        O, Dn = elig(W, inside(cx, cy, r), "outlinks"), elig(W, inside(3, 3, rd), "inlinks")
        nn = lambda x, y: min(NODES, key=lambda n: (n["x"] - x) ** 2 + (n["y"] - y) ** 2)["name"]
        O, Dn = O or [nn(cx, cy)], Dn or [nn(3, 3)]
        call = lambda: fn(cx, cy, r, 3, 3, rd, T0, T1, attribute="A", **kw)
    else:
        oo = ctx.pickv("os", [["a"], ["a", "b", "f"], ["e", "c"], ["b", "a", "c", "d"]])
        dd = ctx.pickv("ds", [["b"], ["b", "a"], ["f", "e", "d"], ["c", "d", "a", "b"]])
        fn = W.adddemand_nodes2nodes2 if rnd else W.adddemand_nodes2nodes
        O, Dn = elig(W, oo, "outlinks"), elig(W, dd, "inlinks")
        oo = [W.get_node(n) if i % 2 else n for i, n in enumerate(oo)]
        call = lambda: fn(oo, dd, T0, T1, attribute="A", **kw)
    ctx.assume(bool(O) and bool(Dn))
    pairs = [(o, d) for o in O for d in Dn]
    if rnd and all(o == d for o, d in pairs):
        return                                    # no valid trip exists
    call()
    vs = vehicles(W)
    where = f"{kind} {O} {Dn}"
    ctx.check(all((v[0], v[1]) in pairs for v in vs), "eligible_nodes", f"{where}: {vs}")
    total = q if vol else q * (T1 - T0)
    if not rnd:
        share = total / len(pairs) / (T1 - T0)
        for o, d in pairs:
            check_flow(ctx, vs, o, d, share, T0, T1, D, N, "A", where)
        return
    n = len(vs)
    ctx.check(And(ctx.le(n * N, total), total - n * N < N + 1e-6), "requested_volume", f"{where}: {n * N} vehicles, requested {total}")
    last = T0 // D
    for i, v in enumerate(vs):
        w = f"{where} {i}: {v}"
        ctx.check(v[0] != v[1], "origin_differs_from_destination", w)
        ctx.check(v[4] == "A", "attribute", w)
        ctx.check(And(v[2] * D >= T0 - D, v[2] * D <= T1, ctx.eq(v[3], v[2] * D), v[2] >= last), "departure_inside_period", w)
        last = v[2]
        # spread evenly: the i-th of n departs no earlier than its share of the period (to the resolution of one platoon and one step)
        ctx.check(v[2] * D + D + 1e-6 >= T0 + (T1 - T0) * i / max(n - 1, 1) and v[2] * D <= T0 + (T1 - T0) * (i + 1) / n + 1e-6, "spread_over_period", w)


def spatial(ctx, engine="py", n=3, big=False):
    """nearest node and area query for symbolic coordinates of the nodes or of the query"""
    m = 1e6 if big else 50
    x, y = ctx.real("x", -m, m), ctx.real("y", -m, m)
    pts = [(0, 0), (7, 3), (-4, 9), (7, 3), (20, -6)][:n]
    if big:
        pts = [(p * 1e4, q * 1e4) for p, q in pts]
    nodes = [nd(f"n{i}", p, q) for i, (p, q) in enumerate(pts)]
    sim = world(ctx, engine, nodes=nodes, links=[lk("l", "n0", "n1", 100)] if n > 1 else [])
    W = sim.W
    g = W.get_nearest_node(x, y)
    nearest(ctx, W, x, y, g, "query")


def area(ctx, engine="py", n=3):
    """query point on a line through symbolic coordinates, symbolic radius"""
    x, y = ctx.real("x", -20, 20), ctx.real("y", -20, 20)
    r = ctx.real("r", 0, 30)
    pts = [(0, 0), (7, 3), (-4, 9), (10, -6)][:n]
    sim = world(ctx, engine, nodes=[nd(f"n{i}", p, q) for i, (p, q) in enumerate(pts)], links=[lk("l", "n0", "n1", 100)])
    W = sim.W
    got = W.get_nodes_in_area(x, y, r)
    ctx.check(len(got) == len({g.name for g in got}), "area_no_duplicates", str(got))
    for k, (p, q) in zip(W.NODES, pts):
        d2 = (p - x) * (p - x) + (q - y) * (q - y)
        # a point exactly on the circle may be rounded either way in the real code: 1e-6 tolerance
        if k in got:
            ctx.check(d2 <= r * r + 1e-6, "node_inside_area", f"{k.name} distance^2 {d2} radius^2 {r * r}")
        else:
            ctx.check(d2 >= r * r - 1e-6, "node_outside_area", f"{k.name} distance^2 {d2} radius^2 {r * r}")


def boundary(ctx, engine="py"):
    """a node exactly on the circle is not inside"""
    k = ctx.int("k", 1, 20)
    sim = world(ctx, engine, nodes=[nd("a", 0, 0), nd("b", 3, 4)], links=[lk("l", "a", "b", 100)])
    W = sim.W
    got = [n.name for n in W.get_nodes_in_area(0, 0, k)]
    ctx.check(("a" in got) and (("b" in got) == bool(k > 5)), "strictly_inside", f"radius {k}: {got}")
    W2 = world(ctx, engine, nodes=[nd("a", 0, 0), nd("b", k, 0)], links=[lk("l", "a", "b", 100)]).W
    ctx.check([n.name for n in W2.get_nodes_in_area(0, 0, k)] == ["a"], "strictly_inside", f"{k}")


P = "uxsim.uxsim:World."
Cw = "uxsim.uxsim_cpp_wrapper:CppWorld."


def c09(tier):
    js = []
    for e in ("py", "cpp"):
        pre = P if e == "py" else Cw
        extra = ["uxsim.uxsim:Vehicle.__init__"] if e == "py" else ["uxsim/trafficpp/traffi.cpp:add_demand", "uxsim/trafficpp/traffi.cpp:Vehicle::Vehicle"]
        for vol in (False, True):
            for rt in ((1,) if tier == "quick" else (1, 1.5)):
                js.append(Job("checks.demand", "flow", dict(engine=e, vol=vol, rt=rt, twice=not vol), [pre + "adddemand", pre + "addVehicle"] + extra, bounds=f"{e} engine, period start 0-12 s and length 2-22 s (symbolic), {'volume 0-35' if vol else 'flow 0-1.5 veh/s'} (symbolic), platoon 5, time step {5 * rt} s"))
        js.append(Job("checks.demand", "demand_points", dict(engine=e), [pre + "adddemand_point2point", pre + "get_nearest_node"] + extra, bounds=f"{e} engine, 7 nodes, origin coordinates symbolic in [-10,10]^2"))
        for k in ("area2area", "nodes2nodes", "area2area2", "nodes2nodes2"):
            for vol in (False, True):
                js.append(Job("checks.demand", "areas", dict(engine=e, kind=k, vol=vol, most=14 if tier == "quick" else 24), [pre + "adddemand_" + k] + extra, bounds=f"{e} engine, 7 nodes, {'volume' if vol else 'flow'} symbolic (up to 2 platoons in the quick and 4 in the thorough tier for the randomised variants, 8 otherwise), symbolic radius / several node lists, every random choice of origins and destinations"))
    return dict(jobs=js)


def c21(tier):
    js = []
    for e in ("py", "cpp"):
        pre = P if e == "py" else Cw
        for n in (1, 3, 5):
            for big in (False, True):
                js.append(Job("checks.demand", "spatial", dict(engine=e, n=n, big=big), [pre + "get_nearest_node"], bounds=f"{e} engine, {n} nodes, query coordinates symbolic up to {1000000 if big else 50}"))
        for n in (2, 4):
            js.append(Job("checks.demand", "area", dict(engine=e, n=n), [pre + "get_nodes_in_area"], bounds=f"{e} engine, {n} nodes, query coordinates symbolic in [-20,20]^2, radius symbolic 0-30"))
        js.append(Job("checks.demand", "boundary", dict(engine=e), [pre + "get_nodes_in_area"], bounds=f"{e} engine, nodes exactly on the circle"))
    return dict(jobs=js)


CHECKS = {"C09": c09, "C21": c21}
