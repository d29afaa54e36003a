"""C11 / C12: route search and preference update, driven through exec_simulation on empty networks.
Link costs: length / free-flow speed (symbolic) plus toll at the time of the search (a fresh symbolic value per link and time)."""
from symx.core import S, And, Or, Not
from .common import world, steps, both
from symx.runner import Job

RPY = ["uxsim.uxsim:RouteChoice.route_search_all", "uxsim.uxsim:Link.get_toll", "uxsim.uxsim:Link.set_traveltime_instant", "uxsim.uxsim:World.exec_simulation", "uxsim.uxsim:World.finalize_scenario"]
RCP = ["uxsim/trafficpp/traffi.cpp:World::update_adj_time_matrix", "uxsim/trafficpp/traffi.cpp:World::route_search_all", "uxsim/trafficpp/traffi.cpp:Link::set_travel_time", "uxsim/trafficpp/traffi.cpp:World::main_loop",
       "uxsim.uxsim_cpp_wrapper:CppWorld.finalize_scenario", "uxsim.uxsim_cpp_wrapper:CppRouteChoice"]
DPY = ["uxsim.uxsim:RouteChoice.homogeneous_DUO_update", "uxsim.uxsim:Vehicle.route_pref_update", "uxsim.uxsim:World.exec_simulation"]
DCP = ["uxsim/trafficpp/traffi.cpp:World::route_choice_duo", "uxsim/trafficpp/traffi.cpp:World::route_choice_duo_gradual", "uxsim/trafficpp/traffi.cpp:World::main_loop"]

TOPO = {
    "tri": [(0, 1), (1, 2), (0, 2)],
    "diamond": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "diamond_x": [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)],
    "cycle": [(0, 1), (1, 2), (2, 0), (0, 2)],
    "parallel": [(0, 1), (0, 1), (1, 2), (0, 2)],
    "parallel3": [(0, 1), (0, 1), (0, 1), (1, 2), (0, 2)],
    "unreach": [(0, 1), (2, 1), (1, 0)],
    "line": [(2, 1), (1, 0), (2, 0)],
    "grid": [(0, 1), (1, 0), (0, 2), (2, 0), (1, 3), (3, 1), (2, 3), (3, 2)],
    "full3": [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)],
    "backbone": [(3, 0), (0, 1), (1, 2), (2, 3), (3, 1)],
}


def paths(n, edges, o, d):
    out = []

    def rec(cur, seen, p):
        if cur == d:
            out.append(list(p))
            return
        for j in range(n):
            if (cur, j) in edges and j not in seen:
                rec(j, seen | {j}, p + [(cur, j)])
    rec(o, {o}, [])
    return out


def build(ctx, engine, topo, ks=1, closed=None, tolls=(), speeds=(20,), noise=0, **kw):
    edges = TOPO[topo]
    n = max(max(e) for e in edges) + 1
    D = 5.0
    W = world(ctx, engine, deltan=5, tmax=D * (ks + 6), duo_noise=noise, **kw)
    for i in range(n):
        W.addNode(f"n{i}", i, 0)
    tollv = {}
    links = []
    for k, (a, b) in enumerate(edges):
        L = ctx.real(f"L{k}", 10, 99)
        f = None
        if k in tolls:
            tv = [ctx.real(f"toll{k}_{t}", 0, 10) for t in range(ks + 6)]
            tollv[k] = tv
            f = (lambda tv: lambda t: tv[int(round(t / D))])(tv)
        l = W.addLink(f"l{k}", f"n{a}", f"n{b}", length=L, free_flow_speed=speeds[k % len(speeds)], congestion_pricing=f, **(dict(capacity_in=0) if closed == k else {}))
        links.append((a, b, L, speeds[k % len(speeds)], l))
    W.addVehicle(f"n{edges[0][0]}", f"n{edges[0][1]}", 10 ** 6, name="far")
    return W, n, links, tollv


def cost_table(links, tollv, ts, closed, noise=1):
    c, cnt = {}, {}
    for k, (a, b, L, u, l) in enumerate(links):
        v = L / u * noise + (tollv[k][ts] if k in tollv else 0)
        c[a, b] = c.get((a, b), 0) + v
        cnt[a, b] = cnt.get((a, b), 0) + 1
    out = {e: v / cnt[e] for e, v in c.items()}
    if closed is not None:
        out.pop((links[closed][0], links[closed][1]), None)
    return out


def check_tables(ctx, n, cost, dist, nxt, tag=""):
    for i in range(n):
        for j in range(n):
            if i == j:
                ctx.check(ctx.eq(dist[i][j], 0), "zero_to_itself", f"{tag} dist[{i}][{i}]={dist[i][j]}")
                continue
            ps = paths(n, cost, i, j)
            d = dist[i][j]
            if not ps:
                ctx.check(not isinstance(d, S) and d == float("inf"), "unreachable_infinite", f"{tag} {i}->{j}: {d}")
                continue
            tot = [sum(cost[e] for e in p) for p in ps]
            if not isinstance(d, S) and d == float("inf"):
                ctx.check(False, "reachable_but_infinite", f"{tag} {i}->{j}")
                continue
            for t in tot:
                ctx.check(ctx.le(d, t), "not_above_any_path", f"{tag} {i}->{j}: {d} path {t}")
            ctx.check(Or(*[ctx.ge(d, t) for t in tot]), "attained_by_some_path", f"{tag} {i}->{j}: {d} paths {tot}")
            k = int(nxt[i][j])
            if not ctx.check((i, k) in cost, "next_is_neighbour", f"{tag} next[{i}][{j}]={k}"):
                continue
            ctx.check(ctx.eq(cost[i, k] + (dist[k][j] if k != j else 0), d), "next_starts_shortest_path", f"{tag} next[{i}][{j}]={k}: {cost[i, k]} + {dist[k][j]} vs {d}")


def search(ctx, engine="py", topo="tri", ks=1, closed=None, tolls=(), speeds=(20,), close_at=None, speed_at=None, det=False, k0=None, interval=1):
    """every step is a route update; tables must always match the current link costs"""
    W, n, links, tollv = build(ctx, engine, topo, ks=ks, closed=closed, tolls=tuple(tolls), speeds=tuple(speeds), duo_update_time=5 * interval, instantaneous_TT_timestep_interval=1, hard_deterministic_mode=det)
    cl = closed
    for s in range(ks):
        if close_at is not None and s == close_at[0]:
            links[close_at[1]][4].capacity_in = 0
            cl = close_at[1]
        if speed_at is not None and s == speed_at[0]:
            k, v = speed_at[1], speed_at[2]
            links[k][4].change_free_flow_speed(v)
            links[k] = links[k][:3] + (v,) + links[k][4:]
        steps(W)
        if s % interval == 0:
            c = cost_table(links, tollv, s, cl)
        check_tables(ctx, n, c, W.ROUTECHOICE.dist, W.ROUTECHOICE.next, f"step {s}")
    rec = W.ROUTECHOICE.dist_record
    ctx.check(sorted(rec.keys()) == [s for s in range(ks) if s % interval == 0], "record_steps", f"{sorted(rec.keys())}")
    check_last = rec[max(rec.keys())]
    for i in range(n):
        for j in range(n):
            a, b = check_last[i][j], W.ROUTECHOICE.dist[i][j]
            inf = lambda v: not isinstance(v, S) and v == float("inf")
            ctx.check((inf(a) and inf(b)) or (not inf(a) and not inf(b) and ctx.eq(a, b)), "recorded_distance", f"{i}->{j}: {a} vs {b}")


def congested(ctx, engine="py", det=True):
    """two routes; vehicles (arbitrary speeds) on the links give the instantaneous travel times"""
    from .dyn import make_sim
    D, u = 5.0, 20
    L = [ctx.real(f"L{k}", 130, 180) for k in range(3)]
    spec = dict(opts=dict(deltan=5, reaction_time=1, tmax=40, duo_update_time=5, instantaneous_TT_timestep_interval=1, hard_deterministic_mode=det),
                nodes=[dict(name="n0"), dict(name="n1", x=1), dict(name="n2", x=2)],
                links=[dict(name="l0", a="n0", b="n1", length=L[0]), dict(name="l1", a="n1", b="n2", length=L[1]), dict(name="l2", a="n0", b="n2", length=L[2])],
                vehicles=[dict(name="a", orig="n0", dest="n2", dep=1), dict(name="b", orig="n0", dest="n2", dep=1), dict(name="c", orig="n0", dest="n2", dep=1)])
    sim = make_sim(ctx, engine, spec)
    sim.run_to_step(1)
    v = {}
    for l, nm in (("l0", ["a", "b"]), ("l2", ["c"])):
        items = []
        for i, q in enumerate(nm):
            x0 = ctx.real(f"x0{q}", 1, 60)
            v[q] = ctx.real(f"v{q}", 0, 20)
            items.append(dict(name=q, x0=x0, x=x0 + v[q] * D, v=v[q]))
            if i:
                ctx.assume(And(x0 + v[q] * D <= items[0]["x"] - 25, x0 <= items[0]["x0"] - 25))
            ctx.assume(x0 + v[q] * D <= L[int(l[1])] - u * D * 0 - 1)
        sim.put_link(l, items, arrived=20)
    sim.finish()
    sim.step()
    W = sim.W
    cost = {}
    for l, nm, e, Lk in (("l0", ["a", "b"], (0, 1), L[0]), ("l2", ["c"], (0, 2), L[2])):
        av = sum(v[q] for q in nm) / len(nm)
        cost[e] = Lk / av if av > 0 else Lk / (u / 100)
    cost[1, 2] = L[1] / u
    check_tables(ctx, 3, cost, W.ROUTECHOICE.dist, W.ROUTECHOICE.next, "")
    s = sim.snap()
    for l, e in (("l0", (0, 1)), ("l2", (0, 2)), ("l1", (1, 2))):
        ctx.check(ctx.eq(s.link[l].tti[-1], cost[e]), "instantaneous_travel_time", f"{l}: {s.link[l].tti} vs {cost[e]}")


def pref_rows(W, engine, n):
    if engine == "py":
        return [list(W.ROUTECHOICE.route_pref[k]) for k in range(n)]
    from symx import cppuxsim as C
    return [list(C.X.prefs(W._cpp_world, k)) for k in range(n)]


def set_pref(W, engine, k, l, v):
    if engine == "py":
        W.ROUTECHOICE.route_pref[k][l] = v
    else:
        from symx import cppuxsim as C
        C.X.set_pref(W._cpp_world, k, l, v)


def duo(ctx, engine="py", topo="tri", ks=3, gradual=False, inject=True, tolls=(0,), interval=1, wsym=True, het=False):
    """preferences over several steps against the update rule, from arbitrary previous preferences"""
    w = ctx.real("w", 0.125, 1) if wsym else 0.5
    W, n, links, tollv = build(ctx, engine, topo, ks=ks, tolls=tuple(tolls), duo_update_time=5 * interval, duo_update_weight=w, route_choice_update_gradual=gradual, instantaneous_TT_timestep_interval=1,
                               **(dict(route_choice_principle="heterogeneous_DUO") if het else {}))
    veh = W.VEHICLES["far"]
    dest = veh.dest.id
    W.finalize_scenario()
    steps(W)
    prev = pref_rows(W, engine, n)
    nxt = W.ROUTECHOICE.next
    for k in range(n):
        for l, (a, b, *_r) in enumerate(links):
            want = 1 if int(nxt[a][k]) == b else 0
            ctx.check(ctx.eq(prev[k][l], want), "first_update_in_full", f"dest {k} link {l}: {prev[k][l]} want {want}")
    if inject:
        for k in range(n):
            reach = [l for l in range(len(links)) if prev[k][l] > 0]
            if k != dest or not reach:
                continue
            for l in range(len(links)):
                prev[k][l] = ctx.real(f"p{k}_{l}", 0.0625, 1)
                set_pref(W, engine, k, l, prev[k][l])
    for s in range(1, ks):
        if het:
            vold = dict(veh.route_pref)
        steps(W)
        nxt = W.ROUTECHOICE.next
        cur = pref_rows(W, engine, n)
        upd = gradual or s % interval == 0
        eff = (w / interval if gradual else w) if upd else 0
        for k in range(n):
            empty = all(not isinstance(p, S) and p == 0 for p in prev[k])
            for l, (a, b, *_r) in enumerate(links):
                hit = 1 if int(nxt[a][k]) == b else 0
                e = 1 if empty and upd else eff
                want = prev[k][l] + e * (hit - prev[k][l])
                ctx.check(ctx.eq(cur[k][l], want), "preference_update", f"step {s} dest {k} link {l}: {cur[k][l]} want {want}")
                ctx.check(And(ctx.ge(cur[k][l], 0), ctx.le(cur[k][l], 1)), "preference_in_range", f"{cur[k][l]}")
        if het:
            for l, (a, b, *_r) in enumerate(links):
                hit = 1 if int(nxt[a][dest]) == b else 0
                e = (1 if all(not isinstance(p, S) and p == 0 for p in vold.values()) else w) if upd else 0
                ctx.check(ctx.eq(veh.route_pref[l], vold[l] + e * (hit - vold[l])), "own_preference_update", f"step {s} link {l}: {veh.route_pref[l]} from {vold[l]}")
        elif engine == "py" and not gradual:
            for l in range(len(links)):
                ctx.check(ctx.eq(veh.route_pref[l], cur[dest][l]), "vehicle_uses_shared_preference", f"link {l}: {veh.route_pref[l]} vs {cur[dest][l]}")
        prev = cur


def c11(tier):
    q = [dict(topo="diamond_x", tolls=[3], ks=1), dict(topo="tri", tolls=[0, 2], ks=3), dict(topo="cycle", ks=2, speed_at=[1, 3, 5]), dict(topo="parallel", tolls=[1], ks=2), dict(topo="parallel3"), dict(topo="unreach"),
         dict(topo="line", ks=2, close_at=[1, 2]), dict(topo="diamond", closed=1, tolls=[0]), dict(topo="full3", ks=1, det=True), dict(topo="backbone", speeds=[20, 10]), dict(topo="tri", tolls=[0, 2], ks=4, interval=2)]
    if tier != "quick":
        q += [dict(topo="grid", ks=1), dict(topo="diamond_x", tolls=[0, 2, 4], ks=3), dict(topo="full3", ks=2, tolls=[0, 3]), dict(topo="backbone", ks=3, tolls=[1, 4]), dict(topo="diamond", ks=3, tolls=[0, 1, 2, 3], close_at=[2, 1])]
    js = both("checks.route", "search", q, RPY, RCP, "topology by name (edges in checks/route.py), lengths 10-99 m, tolls 0-10 per link and time, route update every step")
    js += both("checks.route", "congested", [dict(det=True), dict(det=False)], RPY, RCP, "two routes with 2+1 vehicles of arbitrary speed")
    return dict(jobs=js, stubs=["scipy dijkstra -> exact shortest path over symbolic weights (Python engine)"])


def c12(tier):
    q = [dict(topo="tri", ks=3), dict(topo="diamond", ks=3, tolls=[1]), dict(topo="tri", ks=4, interval=2), dict(topo="tri", ks=4, interval=2, gradual=True), dict(topo="unreach", ks=2), dict(topo="tri", ks=3, inject=False, tolls=[0, 2])]
    if tier != "quick":
        q += [dict(topo="diamond_x", ks=3, tolls=[2]), dict(topo="cycle", ks=5, tolls=[0, 3]), dict(topo="parallel", ks=4, tolls=[0]), dict(topo="full3", ks=3, tolls=[0]), dict(topo="tri", ks=7, interval=3, gradual=True)]
    js = both("checks.route", "duo", q, DPY, DCP, "previous preferences 1/16-1, update weight 1/8-1, tolls 0-10 per time")
    for k in [dict(topo="tri", ks=3, het=True), dict(topo="diamond", ks=4, interval=2, het=True, wsym=False)]:
        js.append(Job("checks.route", "duo", dict(engine="py", **k), DPY, bounds=f"py engine; {k}"))
    return dict(jobs=js)


CHECKS = {"C11": c11, "C12": c12}
