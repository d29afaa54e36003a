"""C26: route enumeration, distance and travel-time tables (uxsim.Utilities), on networks with arbitrary lengths and costs."""
from symx.core import S, And, Or, Not
from symx.runner import Job
from .common import world, steps, both
from . import route as R

NETS = dict(R.TOPO,
            par2=[(0, 1), (0, 1), (1, 2), (1, 2)],
            parmix=[(0, 1), (1, 2), (0, 1), (0, 2), (2, 1)],
            bridge=[(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3)],
            wide=[(0, 3), (0, 1), (1, 3), (0, 2), (2, 3), (3, 0)])
R.TOPO.update(NETS)


def simple_routes(edges, o, d):
    """simple routes as lists of link numbers (parallel links are different routes)"""
    out = []

    def rec(cur, seen, p):
        if cur == d:
            out.append(list(p))
            return
        for k, (a, b) in enumerate(edges):
            if a == cur and b not in seen:
                rec(b, seen | {b}, p + [k])
    rec(o, {o}, [])
    return out


def get_util():
    import sys
    import uxsim.Utilities
    from symx import pyuxsim as P
    m = sys.modules["uxsim.Utilities.Utilities"]
    P.patch(m)
    return m


def check_routes(ctx, edges, o, d, k, routes, costs, cost):
    """routes: lists of link names; cost: link number -> cost"""
    allr = simple_routes(edges, o, d)
    nm = lambda r: [f"l{i}" for i in r]
    want = min(k, len(allr))
    ctx.check(len(routes) == want, "number_of_routes", f"{len(routes)} routes for k={k}, {len(allr)} simple routes exist: {routes}")
    tot = {tuple(nm(r)): sum(cost(i) for i in r) for r in allr}
    seen = []
    for i, r in enumerate(routes):
        t = tuple(r)
        if not ctx.check(t in tot, "valid_simple_route", f"{r} is not a simple route from n{o} to n{d} of {edges}"):
            return
        ctx.check(t not in seen, "distinct_routes", f"{r} listed twice")
        seen.append(t)
        if i:
            ctx.check(ctx.le(tot[seen[i - 1]], tot[t]), "non_decreasing_cost", f"{seen[i-1]}: {tot[seen[i-1]]}, then {t}: {tot[t]}")
        if costs is not None:
            ctx.check(ctx.eq(costs[i], tot[t]), "reported_cost", f"{t}: {costs[i]} want {tot[t]}")
    if seen:
        for t in tot:
            if t not in seen:
                ctx.check(ctx.ge(tot[t], tot[seen[-1]]), "no_cheaper_route_omitted", f"{t} costs {tot[t]}, last listed {seen[-1]} costs {tot[seen[-1]]}")


def kshort(ctx, engine="py", topo="diamond_x", o=0, d=3, k=3, mode="ff"):
    M = get_util()
    edges = NETS[topo]
    changed = dict(ks=4) if mode == "t_def" else {}
    W, n, links, _ = R.build(ctx, engine, topo, duo_update_time=5, instantaneous_TT_timestep_interval=1, speeds=(20, 10), **changed)
    src, dst = f"n{o}", f"n{d}"
    if mode == "ff":
        if ctx.pick("obj", 2):
            src, dst = W.get_node(src), W.get_node(dst)
        routes, costs = M.enumerate_k_shortest_routes(W, src, dst, k=k, return_cost=True)
        ctx.check(M.enumerate_k_shortest_routes(W, src, dst, k=k) == routes, "same_routes_without_costs", f"{routes}")
        cost = lambda i: links[i][2] / links[i][3]
    elif mode == "cost":
        c = [ctx.real(f"c{i}", 0, 100) for i in range(len(edges))]
        routes, costs = M.enumerate_k_shortest_routes(W, src, dst, k=k, cost_function=lambda l: c[int(l.name[1:])], return_cost=True)
        cost = lambda i: c[i]
    elif mode == "t":
        c = [ctx.real(f"c{i}", 0, 100) for i in range(len(edges))]
        q = ctx.real("t", 0, 100)
        routes, costs = M.enumerate_k_shortest_routes_on_t(W, src, dst, q, k=k, cost_function=lambda l, t: c[int(l.name[1:])] + t, return_cost=True)
        ctx.check(M.enumerate_k_shortest_routes_on_t(W, src, dst, q, k=k, cost_function=lambda l, t: c[int(l.name[1:])] + t) == routes, "same_routes_without_costs", f"{routes}")
        cost = lambda i: c[i] + q
    else:
        W.finalize_scenario()
        steps(W, 2)
        W.get_link("l0").change_free_flow_speed(5)
        steps(W, 2)
        q = [0, 4, 7, 10, 12, 15][ctx.pick("t", 6)]
        routes, costs = M.enumerate_k_shortest_routes_on_t(W, src, dst, q, k=k, return_cost=True)
        cost = lambda i: links[i][2] / ((5 if q >= 10 else links[i][3]) if i == 0 else links[i][3])
    check_routes(ctx, edges, o, d, k, routes, costs, cost)


def isinf(v):
    return not isinstance(v, S) and v == float("inf")


def same(ctx, a, b):
    return (isinf(a) and isinf(b)) or (not isinf(a) and not isinf(b) and ctx.eq(a, b))


def table(ctx, W, n, M, fn, cost, tag, **kw):
    """a distance dictionary and matrix against the minimum over all simple paths"""
    f = getattr(M, fn)
    D = f(W, **kw)
    A = f(W, return_matrix=True, **kw)
    if isinstance(D, tuple):
        D, A = D[0], A[0]
    for i in range(n):
        for j in range(n):
            a, b = W.get_node(f"n{i}"), W.get_node(f"n{j}")
            v = D[f"n{i}", f"n{j}"]
            ctx.check(same(ctx, v, D[a, b]), "node_and_name_keys_agree", f"{tag} {i}->{j}: {v} vs {D[a, b]}")
            ctx.check(same(ctx, v, A[a.id, b.id]), "matrix_agrees", f"{tag} {i}->{j}: {v} vs {A[a.id, b.id]}")
            if i == j:
                ctx.check(ctx.eq(v, 0), "zero_to_itself", f"{tag} {i}: {v}")
                continue
            ps = R.paths(n, cost, i, j)
            if not ps or isinf(v):
                ctx.check(not ps and isinf(v), "reachability", f"{tag} {i}->{j}: {v}, paths {ps}")
                continue
            tot = [sum(cost[e] for e in p) for p in ps]
            for t in tot:
                ctx.check(ctx.le(v, t), "not_above_any_path", f"{tag} {i}->{j}: {v} path {t}")
            ctx.check(Or(*[ctx.ge(v, t) for t in tot]), "attained_by_some_path", f"{tag} {i}->{j}: {v} paths {tot}")


def mincost(ctx, edges, val):
    """cost of the cheapest of parallel links"""
    out = {}
    for k, e in enumerate(edges):
        v = val(k)
        out[e] = v if e not in out or v < out[e] else out[e]
    return out


def dist(ctx, engine="py", topo="tri"):
    M = get_util()
    W, n, links, _ = R.build(ctx, engine, topo)
    W.finalize_scenario()
    table(ctx, W, n, M, "get_shortest_path_distance_between_all_nodes", mincost(ctx, NETS[topo], lambda k: links[k][2]), "distance")


def ttable(ctx, engine="py", topo="tri", duo=5, ks=4, change=2):
    """current and recorded travel-time tables over several route updates, one link changing its speed in between"""
    M = get_util()
    edges = NETS[topo]
    W, n, links, _ = R.build(ctx, engine, topo, ks=ks, duo_update_time=duo, instantaneous_TT_timestep_interval=1, speeds=(20, 10))
    every = max(1, int(duo / 5))
    rec = {}
    fn = "get_shortest_path_instantaneous_travel_time_between_all_nodes"
    ch = ctx.pick("changed_link", len(edges)) if change else None
    for s in range(ks):
        if change and s == change:
            W.get_link(f"l{ch}").change_free_flow_speed(5)
        steps(W)
        u = lambda k: 5 if change and s >= change and k == ch else links[k][3]
        if s % every == 0:
            rec[s] = mincost(ctx, edges, lambda k: links[k][2] / u(k))
        table(ctx, W, n, M, fn, rec[max(rec)], f"current, step {s}")
    t = ctx.real("t", 0, 5 * ks)
    ts = max(x for x in rec if x * 5 <= t)
    if t >= W.TMAX:
        return
    table(ctx, W, n, M, fn + "_on_t", rec[ts], f"at t={t}", t=t)
    r = getattr(M, fn + "_on_t")(W, t, return_time=True)
    ctx.check(isinstance(r, tuple) and len(r) == 2, "returns_time", "")
    ctx.check(ctx.eq(r[1], ts * 5), "time_of_the_table", f"{r[1]} want {ts * 5}")
    table(ctx, W, n, M, fn + "_on_t", rec[ts], f"with time, t={t}", t=t, return_time=True)
    end = max(rec)
    table(ctx, W, n, M, fn + "_on_t", rec[end], "after the end", t=W.TMAX + 5)


class FewRandom:
    """uniform draws: arbitrary for the first `m`, then fixed"""

    def __init__(self, ctx, m):
        self.ctx, self.m, self.n = ctx, m, 0

    def uniform(self, a, b):
        self.n += 1
        if self.n <= self.m:
            return self.ctx.real(f"u{self.n}", 0.0625, 100)
        return 1.0 + (self.n * 37) % 50

    real = uniform

    def randint(self, a, b):
        return a

    def pick(self, n):
        return self.ctx.pick("ri", n)


def krandom(ctx, engine="py", topo="diamond", k=2, m=4):
    M = get_util()
    edges = NETS[topo]
    W, n, links, _ = R.build(ctx, engine, topo, speeds=(20, 10))
    W.finalize_scenario()
    old = M.random
    M.random = FewRandom(ctx, m)
    if engine == "cpp":
        from symx import cppuxsim as C
        env = C.Env(ctx)
        env.real = M.random.uniform
        C.X.set_env(env)
    try:
        out = M.enumerate_k_random_routes(W, k)
    finally:
        M.random = old
        if engine == "cpp":
            C.X.set_env(C.Env(ctx))
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            allr = [tuple(f"l{x}" for x in r) for r in simple_routes(edges, i, j)]
            got = [tuple(r) for r in out.get((f"n{i}", f"n{j}"), [])]
            ctx.check(bool(got) == bool(allr), "every_reachable_pair_has_a_route", f"{i}->{j}: {got}")
            ctx.check(len(got) <= k, "at_most_k_routes", f"{i}->{j}: {got}")
            ctx.check(len(set(got)) == len(got), "distinct_routes", f"{i}->{j}: {got}")
            for r in got:
                ctx.check(r in allr, "valid_simple_route", f"{i}->{j}: {r}")
            if got and all(r in allr for r in got):
                c = lambda r: sum(links[int(x[1:])][2] / links[int(x[1:])][3] for x in r)
                ctx.check(Or(*[And(*[ctx.le(c(r), c(q)) for q in allr]) for r in got]), "contains_the_free_flow_shortest", f"{i}->{j}: {got}, costs {[c(q) for q in allr]}")


def grid(ctx, engine="py"):
    M = get_util()
    W = world(ctx, engine, deltan=5, tmax=50)
    I, J = 1 + ctx.pick("imax", 3), 1 + ctx.pick("jmax", 3)
    L, u = ctx.real("L", 10, 99), ctx.pickv("u", [10, 20])
    nodes, links = M.generate_grid_network(W, I, J, length=L, free_flow_speed=u)
    ctx.check(sorted(nodes) == [(i, j) for i in range(I) for j in range(J)], "grid_nodes", f"{sorted(nodes)}")
    want = {(i, j, i + a, j + b) for i in range(I) for j in range(J) for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1)) if 0 <= i + a < I and 0 <= j + b < J}
    ctx.check(set(links) == want, "grid_links", f"{sorted(links)}")
    ctx.check(len(W.LINKS) == len(want) and len(W.NODES) == I * J, "nothing_else", f"{len(W.LINKS)} {len(W.NODES)}")
    for (a, b, c, d), l in links.items():
        ctx.check(And(ctx.eq(l.length, L), ctx.eq(l.free_flow_speed if hasattr(l, "free_flow_speed") else l.u, u)), "grid_link_parameters", f"{l.length} {l.u}")
        ctx.check((l.start_node.name, l.end_node.name) == (nodes[a, b].name, nodes[c, d].name), "grid_link_ends", f"{l}")
        ctx.check((nodes[a, b].x, nodes[a, b].y) == (a, b), "grid_position", f"{nodes[a, b].x}")


FPY = ["uxsim.Utilities.Utilities:enumerate_k_shortest_routes", "uxsim.Utilities.Utilities:enumerate_k_shortest_routes_on_t"]
FD = ["uxsim.Utilities.Utilities:get_shortest_path_distance_between_all_nodes"]
FT = ["uxsim.Utilities.Utilities:get_shortest_path_instantaneous_travel_time_between_all_nodes", "uxsim.Utilities.Utilities:get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t"]
FRP = ["uxsim.Utilities.Utilities:enumerate_k_random_routes"]
FRC = FRP + ["uxsim/trafficpp/traffi.cpp:World::enumerate_k_random_routes_cpp"]


def c26(tier):
    q = tier == "quick"
    jobs = []
    ks = [dict(topo="diamond_x", k=3, mode="ff"), dict(topo="parmix", d=1, k=2, mode="cost"), dict(topo="par2", d=2, k=3, mode="ff"), dict(topo="bridge", k=4, mode="t"), dict(topo="tri", d=2, k=1, mode="t_def"),
          dict(topo="parallel", d=2, k=2, mode="t_def"), dict(topo="wide", k=2, mode="cost")]
    if not q:
        ks += [dict(topo="grid", k=2, mode="cost"), dict(topo="parallel3", d=2, k=3, mode="cost"), dict(topo="bridge", k=3, mode="ff"), dict(topo="par2", d=2, k=2, mode="t"), dict(topo="diamond_x", k=2, mode="t_def"), dict(topo="full3", d=2, k=5, mode="cost")]
    jobs += both("checks.util", "kshort", ks, FPY, FPY + R.RCP, "networks of up to 5 nodes and 8 links, arbitrary lengths 10..99 / costs 0..100")
    jobs += both("checks.util", "dist", [dict(topo=t) for t in (["tri", "parallel3", "unreach", "diamond_x"] if q else ["tri", "parallel3", "unreach", "diamond_x", "bridge", "grid", "full3", "cycle", "parmix"])], FD, FD, "arbitrary lengths 10..99")
    jobs += both("checks.util", "ttable", [dict(topo="tri", duo=5), dict(topo="tri", duo=12, ks=5), dict(topo="diamond", duo=8, ks=3, change=1)] + ([] if q else [dict(topo="full3", duo=17, ks=7, change=3), dict(topo="diamond_x", duo=10, ks=5, change=2), dict(topo="unreach", duo=10, ks=4)]), FT + R.RPY, FT + R.RCP,
                 "arbitrary lengths 10..99 and query times, one link changing its speed")
    jobs += both("checks.util", "krandom", [dict(topo="diamond", k=2, m=4), dict(topo="parmix", k=2, m=2), dict(topo="tri", k=3, m=3), dict(topo="unreach", k=1, m=0)] + ([] if q else [dict(topo="diamond_x", k=2, m=5), dict(topo="parallel3", k=2, m=4), dict(topo="cycle", k=2, m=4)]), FRP, FRC,
                 "arbitrary lengths; the first draws of the random weights arbitrary in 0.0625..100, later ones fixed")
    jobs += both("checks.util", "grid", [{}], ["uxsim.Utilities.Utilities:generate_grid_network"], ["uxsim.Utilities.Utilities:generate_grid_network"], "grids up to 3x3")
    return dict(jobs=jobs, stubs=["scipy dijkstra -> exact model of its contract", "random.uniform / C++ uniform draws -> arbitrary values"], assumptions=["links have positive length; custom link costs are non-negative",
                "networkx is executed as it is, on symbolic weights"], method="Symbolic execution of the route and distance utilities of both engines; the oracle enumerates all simple routes.")


CHECKS = {"C26": c26}
