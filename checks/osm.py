"""C25: post-processing an imported road network and loading it into a world."""
import sys, io, itertools, contextlib, warnings, importlib
from symx.core import S, And, Or, Not
from symx.runner import Job
from .common import world, both

NAMES = "abcde"
NETS = {
    "line": [(0, 1), (1, 2), (2, 3)],
    "rline": [(3, 2), (2, 1), (1, 0)],
    "tri": [(0, 1), (1, 2), (2, 0)],
    "star": [(0, 1), (2, 0), (0, 3)],
    "twoway": [(0, 1), (1, 0), (1, 2), (2, 1)],
    "dup": [(0, 1), (0, 1), (1, 2), (0, 2)],
    "loop": [(0, 1), (1, 1), (1, 2)],
    "square": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "mid": [(1, 0), (1, 2), (3, 2), (0, 3)],
}


def module():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import uxsim.OSMImporter
        m = importlib.import_module("uxsim.OSMImporter.OSMImporter")
    from symx import pyuxsim as P
    if P.SYM:
        from .taxi import MathShim
        m.math = MathShim()
        P.patch(m)
    return m


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def sq(p, q):
    return (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1])


def one_pass(ctx, m, nodes, links, thr, bidir, tag=""):
    """one merging pass against its definition; returns its output"""
    nin, lin = [list(n) for n in nodes], [list(l) for l in links]
    on, ol = quiet(m.OSMImporter.osm_network_postprocessing, nodes, links, thr, node_merge_iteration=1, enforce_bidirectional=bidir)
    pos = {n[0]: (n[1], n[2]) for n in nin}
    short = {}
    for l in lin:
        a, b = l[1], l[2]
        if a != b and (a, b) not in short:
            short[a, b] = bool(sq(pos[a], pos[b]) <= thr * thr)
    ids = [n[0] for n in on]
    ctx.check(len(set(ids)) == len(ids) and set(ids) <= set(pos), "output_nodes_are_input_nodes", f"{tag} {ids}")
    for n in on:
        if n[0] in pos:
            ctx.check(And(ctx.eq(n[1], pos[n[0]][0]), ctx.eq(n[2], pos[n[0]][1])), "nodes_keep_their_position", f"{tag} {n}")
    pairs = [(l[1], l[2]) for l in ol]
    ctx.check(all(a in ids and b in ids for a, b in pairs), "link_ends_exist", f"{tag} nodes {ids} links {pairs}")
    ctx.check(all(a != b for a, b in pairs), "no_link_within_a_node", f"{tag} {pairs}")
    ctx.check(len(set(pairs)) == len(pairs), "one_link_per_node_pair", f"{tag} {pairs}")
    ctx.check(set(ids) == {x for p in pairs for x in p}, "every_node_is_used", f"{tag} nodes {ids} links {pairs}")
    for l in ol:
        if l[1] in pos and l[2] in pos:
            q = sq(pos[l[1]], pos[l[2]])
            L = l[5]
            ctx.check((L.q if hasattr(L, "q") else L * L) - q <= 1e-6, "link_length", f"{tag} {l}")
            ctx.check(q - (L.q if hasattr(L, "q") else L * L) <= 1e-6, "link_length", f"{tag} {l}")
    # some assignment of nodes to surviving neighbours within the threshold explains the output
    near = {v: [v] for v in pos}
    for (a, b), s in short.items():
        if s:
            near[a].append(b)
            near[b].append(a)
    V = list(pos)
    best = None
    for rep in itertools.product(*[near[v] for v in V]):
        r = dict(zip(V, rep))
        if any(r[r[v]] != r[v] for v in V) or any(r[v] != v for v in ids):
            continue
        img = {(r[l[1]], r[l[2]]) for l in lin if r[l[1]] != r[l[2]]}
        full = img | {(b, a) for a, b in img} if bidir else img
        if full == set(pairs) and (not any(short.values()) or any(r[v] != v for v in V)):
            ok = True
            for l in ol:
                src = [k for k in lin if (r[k[1]], r[k[2]]) == (l[1], l[2])]
                if src:
                    ok = ok and any(l[0] == k[0] and l[3] is k[3] and l[4] is k[4] for k in src)
                else:
                    back = [k for k in ol if (k[1], k[2]) == (l[2], l[1])]
                    ok = ok and any(l[3] is k[3] and l[4] is k[4] for k in back)
            if ok:
                best = r
                break
    ctx.check(best is not None, "merging_preserves_connectivity", f"{tag} in {[(l[0], l[1], l[2]) for l in lin]} short {short} out {[(l[0], l[1], l[2]) for l in ol]}")
    if bidir:
        ctx.check(all((b, a) in pairs for a, b in pairs), "every_link_has_a_reverse", f"{tag} {pairs}")
    return on, ol


def network(ctx, net, flat=(2, 3)):
    edges = NETS[net]
    n = max(max(e) for e in edges) + 1
    nodes = [[NAMES[i], ctx.real(f"x{i}", 0, 4) if i else 0.0, ctx.real(f"y{i}", 0, 2) if i and i not in flat else 0.0] for i in range(n)]
    links = [[f"L{k}", NAMES[a], NAMES[b], ctx.real(f"lanes{k}", 1, 4), ctx.real(f"v{k}", 5, 30)] for k, (a, b) in enumerate(edges)]
    return nodes, links


def post(ctx, net="line", iters=1, bidir=False, flat=(1, 2, 3), engine="py"):
    m = module()
    nodes, links = network(ctx, net, tuple(flat))
    thr = 1.0
    n, l = nodes, links
    for i in range(iters):
        n, l = one_pass(ctx, m, [list(x) for x in n], [list(x) for x in l], thr, bidir, f"pass {i + 1}")
    if iters > 1:
        n2, l2 = quiet(m.OSMImporter.osm_network_postprocessing, [list(x) for x in nodes], [list(x) for x in links], thr, node_merge_iteration=iters, enforce_bidirectional=bidir)
        ctx.check([x[0] for x in n2] == [x[0] for x in n], "iterations_repeat_the_pass", f"nodes {n2} vs {n}")
        ctx.check(sorted(x[:3] for x in l2) == sorted(x[:3] for x in l), "iterations_repeat_the_pass", f"links {l2} vs {l}")


def load(ctx, engine="py", net="tri"):
    """loading the lists into a world"""
    m = module()
    nodes, links = network(ctx, net, ())
    links = [l + [ctx.real(f"len{k}", 0.001, 0.01)] for k, l in enumerate(links)]
    for k, l in enumerate(links):
        l[3] = 1 + k % 3
    if ctx.pick("same_names", 2):
        for l in links:
            l[0] = "road"
    W = world(ctx, engine, deltan=5, tmax=50)
    c = ctx.pickv("coef", [111000, 50000])
    quiet(m.OSMImporter.osm_network_to_World, W, nodes, links, default_jam_density=0.18, coef_degree_to_meter=c)
    check_world(ctx, W, [(n[0], n[1], n[2]) for n in nodes], [(l[0], l[1], l[2], l[5] * c, l[4], l[3], 0.18) for l in links])


def check_world(ctx, W, nodes, links):
    ctx.check([n.name for n in W.NODES] == [n[0] for n in nodes], "all_nodes_loaded", f"{[n.name for n in W.NODES]}")
    for n, w in zip(W.NODES, nodes):
        ctx.check(And(ctx.eq(n.x, w[1]), ctx.eq(n.y, w[2])), "node_position", f"{n.name}: {n.x},{n.y} want {w}")
    if not ctx.check(len(W.LINKS) == len(links), "all_links_loaded", f"{[l.name for l in W.LINKS]} want {links}"):
        return
    ctx.check(len({l.name for l in W.LINKS}) == len(links), "link_names_unique", f"{[l.name for l in W.LINKS]}")
    for l, w in zip(W.LINKS, links):
        ctx.check(l.name.startswith(w[0]), "link_name", f"{l.name} want {w[0]}")
        ctx.check((l.start_node.name, l.end_node.name) == (w[1], w[2]), "link_ends", f"{l.name}: {l.start_node.name}->{l.end_node.name} want {w}")
        ctx.check(And(ctx.eq(l.length, w[3]), ctx.eq(l.u, w[4])), "link_length_and_speed", f"{l.name}: {l.length}, {l.u} want {w}")
        ctx.check(l.number_of_lanes == w[5], "link_lanes", f"{l.name}: {l.number_of_lanes} want {w}")
        if len(w) > 6:
            ctx.check(ctx.eq(l.kappa, w[6] * w[5]), "link_jam_density", f"{l.name}: {l.kappa} want {w}")


class FakeOx:
    """stands for osmnx: returns a prepared graph instead of downloading one"""
    __version__ = "2.0.0"

    def __init__(self, G):
        self.graph = self
        self.G = G

    def graph_from_bbox(self, **k):
        self.args = k
        return self.G


LANES = ["2", None, ["2", "3"], "x", "0"]
SPEED = ["60", None, "60 mph"]
ROAD = ["motorway", "trunk_link", "primary", "residential", ["tertiary", "service"], "road"]
DL = dict(motorway=3, trunk=3, primary=2, secondary=2, residential=1, tertiary=1, others=1)
DV = dict(motorway=100, trunk=60, primary=50, secondary=50, residential=30, tertiary=30, others=30)


def imported(ctx, engine="py"):
    """reading the attributes of downloaded roads"""
    import networkx as nx
    m = module()
    G = nx.MultiDiGraph()
    xy = {}
    for n in (11, 12, 13):
        xy[n] = (ctx.real(f"x{n}", 0, 4), ctx.real(f"y{n}", 0, 4))
        G.add_node(n, x=xy[n][0], y=xy[n][1])
    G.add_node(14, x=1.0, y=1.0)
    want = []
    road, lanes, speed = ctx.pickv("road", ROAD), ctx.pickv("lanes", LANES), ctx.pickv("speed", SPEED)
    for k, (a, b, r, n, v) in enumerate([(11, 12, road, lanes, speed), (12, 13, "secondary", "3", "45")]):
        d = dict(highway=r, name=["R", "S"] if k else "R", osmid=k)
        if n is not None:
            d["lanes"] = n
        if v is not None:
            d["maxspeed"] = v
        G.add_edge(a, b, **d)
        kind = next((x for x in DL if (x in r)), "others")
        nl = max(1, int(n)) if isinstance(n, str) and n.isdigit() else DL[kind]
        sp = (float(v) if v is not None and v.isdigit() else DV[kind]) / 3.6
        want.append((a, b, nl, sp))
    old = sys.modules.get("osmnx")
    sys.modules["osmnx"] = FakeOx(G)
    try:
        nodes, links = quiet(m.OSMImporter.import_osm_data, bbox=[0, 1, 2, 3])
    finally:
        sys.modules["osmnx"] = old
        if old is None:
            del sys.modules["osmnx"]
    ctx.check([n[0] for n in nodes] == [11, 12, 13], "imported_nodes", f"{nodes}")
    for n in nodes:
        ctx.check(And(ctx.eq(n[1], xy[n[0]][0]), ctx.eq(n[2], xy[n[0]][1])), "imported_position", f"{n}")
    ctx.check([(l[1], l[2]) for l in links] == [w[:2] for w in want], "imported_links", f"{links}")
    for l, w in zip(links, want):
        ctx.check(l[3] == w[2], "imported_lanes", f"{road} {lanes}: {l} want {w}")
        ctx.check(abs(l[4] - w[3]) < 1e-9, "imported_speed", f"{road} {speed}: {l} want {w}")


def module2():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fake = {}
        import types
        for nm in ("osmnx", "neatnet", "geopandas"):
            if nm not in sys.modules:
                fake[nm] = sys.modules[nm] = types.ModuleType(nm)
        if "shapely" not in sys.modules:
            s = types.ModuleType("shapely")
            g = types.ModuleType("shapely.geometry")
            g.Point = g.LineString = object
            s.geometry = g
            for nm, x in (("shapely", s), ("shapely.geometry", g)):
                fake[nm] = sys.modules[nm] = x
        try:
            m = importlib.import_module("uxsim.OSMImporter2.OSMImporter2")
        finally:
            for nm in fake:
                del sys.modules[nm]
    return m


DL2 = dict(motorway=3, trunk=3, primary=2, secondary=2, tertiary=2, residential=1, living_street=1, service=1, others=1)
DV2 = dict(motorway=100, trunk=80, primary=60, secondary=50, tertiary=40, residential=30, living_street=20, service=20, others=40)


def attach(ctx, engine="py", vary="attr", capacity=True):
    """OSMImporter2: nodes and links of the prepared table become nodes and links of the world"""
    import pandas as pd
    m = module2()
    W = world(ctx, engine, deltan=5, tmax=50)
    xy = [(ctx.real(f"x{i}", 0, 999), ctx.real(f"y{i}", 0, 999)) for i in range(4)]
    ends = [(0, 1), (1, 2), (2, 3), (3, 1)]
    L = [ctx.real(f"L{k}", 20, 999) for k in range(4)]
    road = ["primary", "secondary", "trunk", "residential"]
    lanes = ["2", "4", "1", "3"]
    speed = ["60", "50", "80", "30"]
    one = [True, False, True, False]
    override = False
    if vary == "attr":
        road[1] = ctx.pickv("road", ["motorway_link", "living_street", ["tertiary", "tertiary", "service"], "road"])
        lanes[1] = ctx.pickv("lanes", ["3", ["2", "4"], float("nan"), "x"])
        speed[1] = ctx.pickv("speed", ["45", ["40", "50"], float("nan")])
        one[1] = bool(ctx.pick("oneway", 2))
    elif vary == "override":
        road[1] = ctx.pickv("road", ["motorway_link", "living_street", "road"])
        one[1] = bool(ctx.pick("oneway", 2))
        override = True
    else:
        road[1] = None                                    # type estimated from the links before and after
        road[0] = ctx.pickv("before", ["primary", None, "trunk"])
        road[2] = ctx.pickv("after", ["trunk", "primary", None])
        speed[1] = lanes[1] = float("nan")
    if vary == "unknown":
        ends.append((2, 0))
        L.append(ctx.real("L4", 20, 999))
        road.append(road[2])
        lanes.append("2")
        speed.append("70")
        one.append(True)
    names = ["A", ["B", "C"], None, "D", "E"][:len(ends)]
    nodes = pd.DataFrame(dict(node_id=list(range(4)), x=pd.Series([p[0] for p in xy], dtype=object), y=pd.Series([p[1] for p in xy], dtype=object)))
    links = pd.DataFrame(dict(from_node=[a for a, b in ends], to_node=[b for a, b in ends], length=pd.Series(L, dtype=object), maxspeed=pd.Series(speed, dtype=object), lanes=pd.Series(lanes, dtype=object),
                              name=pd.Series(names, dtype=object), highway=pd.Series(road, dtype=object), oneway=one))
    custom = dict(maxspeed_by_road_type={"road": 11.0}, lanes_by_road_type={"road": 5}) if ctx.pick("custom", 2) else {}
    quiet(m._attach_osm_nodes_links, W, nodes, links, capacity, override_osm_attributes=override, **custom)
    dv = {k: v / 3.6 for k, v in DV2.items()}
    dl = dict(DL2)
    if custom:
        dv["road"], dl["road"] = 11.0, 5
    want = []
    known = list(road)
    for k, (a, b) in enumerate(ends):
        r = known[k]
        if r is None:
            near = [known[j] for j, e in enumerate(ends) if e[1] == a and known[j] is not None] + [known[j] for j, e in enumerate(ends) if e[0] == b and known[j] is not None]
            top = max((near.count(x) for x in near), default=0)
            r = [x for x in near if near.count(x) == top] or ["None"]
            known[k] = next(iter(r))
        else:
            r = [max(r, key=r.count)] if isinstance(r, list) else [r]
        opts = []
        for t in r:
            kind = next((x for x in dv if x in t), "others")
            s, n = speed[k], lanes[k]
            v = (float(s) if isinstance(s, str) else sum(map(float, s)) / len(s)) / 3.6 if isinstance(s, (str, list)) and not override else dv[kind]
            if isinstance(n, (str, list)) and not override:
                try:
                    q = int(n) if isinstance(n, str) else max(int(i) for i in n)
                except ValueError:
                    q = dl["others"]
            else:
                kind = next((x for x in dl if x in t), None)
                q = dl["others"] if kind is None else dl[kind] * (1 if one[k] else 2)
            opts.append((v, q if one[k] else max(1, q // 2)))
        nm = ["A", "B", "2", "D", "E"][k]
        want.append((nm, str(a), str(b), L[k], opts))
        if not one[k]:
            want.append((nm + "-reverse", str(b), str(a), L[k], opts))
    ctx.check([n.name for n in W.NODES] == [str(i) for i in range(4)], "all_nodes_loaded", f"{[n.name for n in W.NODES]}")
    for n, w in zip(W.NODES, xy):
        ctx.check(And(ctx.eq(n.x, w[0]), ctx.eq(n.y, w[1])), "node_position", f"{n.name}: {n.x},{n.y} want {w}")
    if not ctx.check([l.name for l in W.LINKS] == [w[0] for w in want], "all_links_loaded", f"{[l.name for l in W.LINKS]} want {[w[0] for w in want]}"):
        return
    for l, w in zip(W.LINKS, want):
        ctx.check((l.start_node.name, l.end_node.name) == w[1:3], "link_ends", f"{l.name}")
        ctx.check(ctx.eq(l.length, w[3]), "link_length_and_speed", f"{l.name}: {l.length}")
        ctx.check(any(abs(l.u - v) < 1e-9 and l.number_of_lanes == q for v, q in w[4]), "link_speed_and_lanes", f"{l.name}: {l.u} {l.number_of_lanes} want one of {w[4]}; roads {road} lanes {lanes} speeds {speed} oneway {one}")
    for n in W.NODES:
        mx = max([l.number_of_lanes for l in W.LINKS if n.name in (l.start_node.name, l.end_node.name)])
        if capacity:
            ctx.check(abs(n.flow_capacity - mx * 1.6) < 1e-9 and n.number_of_lanes == mx * 2, "node_capacity", f"{n.name}: {n.flow_capacity}, {n.number_of_lanes}, lanes {mx}")
        else:
            ctx.check(n.flow_capacity is None or n.flow_capacity == -1, "node_without_capacity", f"{n.name}: {n.flow_capacity}")


F1 = ["uxsim.OSMImporter.OSMImporter:OSMImporter.osm_network_postprocessing"]
F2 = ["uxsim.OSMImporter.OSMImporter:OSMImporter.osm_network_to_World"]
F3 = ["uxsim.OSMImporter.OSMImporter:OSMImporter.import_osm_data"]
F4 = ["uxsim.OSMImporter2.OSMImporter2:_attach_osm_nodes_links"]


def c25(tier):
    q = tier == "quick"
    cfgs = [dict(net="line"), dict(net="rline"), dict(net="tri", flat=(2,)), dict(net="star"), dict(net="dup", flat=(2,)), dict(net="loop", iters=2), dict(net="twoway", iters=2), dict(net="square", bidir=True), dict(net="line", iters=3),
            dict(net="mid", bidir=True, iters=2), dict(net="loop", bidir=True)]
    if not q:
        cfgs += [dict(net=n, bidir=b, iters=i, flat=(2, 3)) for n in NETS for b in (False, True) for i in (1, 3)]
    jobs = [Job("checks.osm", "post", c, F1, bounds=f"up to 4 nodes with arbitrary coordinates (x 0..4, y 0 or 0..2), threshold 1; {c}") for c in cfgs]
    jobs += both("checks.osm", "load", [dict(net="tri"), dict(net="dup")], F2, F2, "arbitrary coordinates, lengths and speeds")
    jobs += [Job("checks.osm", "imported", {}, F3, bounds="two roads, arbitrary coordinates, all listed attribute spellings")]
    jobs += both("checks.osm", "attach", [dict(vary="attr"), dict(vary="override"), dict(vary="unknown"), dict(vary="attr", capacity=False)], F4, F4, "four roads, arbitrary coordinates and lengths, all listed attribute spellings")
    return dict(jobs=jobs, stubs=["osmnx (download) -> prepared graph", "math.sqrt -> exact comparison of squares"], assumptions=["downloading and simplifying the map (osmnx, neatnet, geopandas) is outside the check"],
                method="Symbolic execution of the importer's own code on small networks with symbolic coordinates; a pass is compared with its definition (some assignment of nodes to neighbours within the threshold explains the output).")


CHECKS = {"C25": c25}
