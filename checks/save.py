"""C19: scenarios saved to and loaded from files."""
import copy, csv, os, tempfile, warnings
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from .dyn import make_sim
from .scn import nd, lk

FILES = {}
P = U = SRW = None


def _load():
    global P, U, SRW
    from symx import pyuxsim
    P, U, SRW = pyuxsim, pyuxsim.U, pyuxsim.SRW


def _cp(x):
    """what writing to and reading from a file does to a value: an independent copy"""
    if isinstance(x, dict):
        return {_cp(k): _cp(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return type(x)(_cp(v) for v in x)
    if isinstance(x, U.Node):
        return copy.copy(x)
    return x


class PickleModel:
    """contract model of dill (symbolic values cannot be pickled)"""

    def dump(self, obj, f, *a, **k):
        FILES[f.name] = _cp(obj)

    def load(self, f):
        return _cp(FILES[f.name])


def folder():
    d = tempfile.mkdtemp(prefix="verif_")
    return d


def clean(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)


def roundtrip(ctx, W, W2, **k):
    d = folder()
    old = SRW.pickle
    if P.SYM:
        SRW.pickle = PickleModel()
    try:
        W.save_scenario(os.path.join(d, "a.uxsim_scenario"), **k)
        W2.load_scenario(os.path.join(d, "a.uxsim_scenario"), **k)
    finally:
        SRW.pickle = old
        FILES.clear()
        clean(d)


def same(ctx, a, b):
    """equality of parameters that may be symbolic, lists or None"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and And(*[same(ctx, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    num = lambda v: isinstance(v, (int, float, S)) and not isinstance(v, bool)
    if num(a) and num(b):
        return ctx.eq(a, b)
    return type(a) == type(b) and a == b


NODE_ATTRS = ("x", "y", "signal", "signal_offset", "cycle_length", "signal_phase", "signal_t", "flow_capacity", "number_of_lanes", "flow_capacity_remain", "attribute", "user_attribute")
LINK_ATTRS = ("length", "u", "kappa", "w", "tau", "capacity", "delta", "delta_per_lane", "number_of_lanes", "free_flow_speed", "jam_density", "merge_priority", "signal_group", "capacity_in", "capacity_out",
              "capacity_in_remain", "capacity_out_remain", "eular_dx", "q_star", "k_star", "attribute", "user_attribute")


def same_network(ctx, A, B, where):
    ctx.check([n.name for n in A.NODES] == [n.name for n in B.NODES], "same_nodes", f"{where}: {B.NODES}")
    ctx.check([l.name for l in A.LINKS] == [l.name for l in B.LINKS], "same_links", f"{where}: {B.LINKS}")
    for n, m in zip(A.NODES, B.NODES):
        for k in NODE_ATTRS:
            p, q = getattr(n, k), getattr(m, k)
            ctx.check(same(ctx, p, q), "node_" + k, f"{where} {n.name}: {p} / {q}")
        ctx.check(list(n.inlinks) == list(m.inlinks) and list(n.outlinks) == list(m.outlinks) and all(l.W is m.W for l in m.inlinks.values()), "node_links", f"{where} {n.name}")
    for l, m in zip(A.LINKS, B.LINKS):
        ctx.check(l.start_node.name == m.start_node.name and l.end_node.name == m.end_node.name and m.start_node in B.NODES and m.end_node in B.NODES, "link_end_nodes", f"{where} {l.name}")
        for k in LINK_ATTRS:
            p, q = getattr(l, k), getattr(m, k)
            ctx.check(same(ctx, p, q), "link_" + k, f"{where} {l.name}: {p} / {q}")
        for t in (0, 7, 300):
            ctx.check(ctx.eq(l.get_toll(t), m.get_toll(t)), "link_toll", f"{where} {l.name} t={t}: {l.get_toll(t)} / {m.get_toll(t)}")


def same_demand(ctx, A, B, where):
    a, b = list(A.VEHICLES.values()), list(B.VEHICLES.values())
    ctx.check(len(a) == len(b), "same_number_of_vehicles", f"{where}: {len(a)} / {len(b)}")
    ctx.check(list(A.VEHICLES) == list(B.VEHICLES), "same_vehicle_names", f"{where}: {list(A.VEHICLES)} / {list(B.VEHICLES)}")
    for v, w in zip(a, b):
        i = f"{where} {v.name}: {v.orig},{v.dest},{v.departure_time} / {w.orig},{w.dest},{w.departure_time}"
        ctx.check(v.orig.name == w.orig.name and v.dest.name == w.dest.name and w.orig in B.NODES and w.dest in B.NODES, "vehicle_od", i)
        ctx.check(And(ctx.eq(v.departure_time, w.departure_time), ctx.eq(v.departure_time_in_second, w.departure_time_in_second)), "vehicle_departure", i)
        ctx.check(same(ctx, v.attribute, w.attribute), "vehicle_attribute", i)


def toll(t):
    return 3.0 if t < 100 else t / 10


NET = [nd("a", 0, 0), nd("b", 10, 0), nd("c", 20, 0), nd("d", 10, 10)]


def net_basic(ctx, W):
    W.addNode("a", ctx.real("ax", -5, 5), 0.0)
    W.addNode("b", 10, ctx.real("by", -5, 5))
    W.addNode("c", 20, 0)
    # 0.2 (the default density, omitted from the file) is covered by the other networks
    u, k = ctx.real("u", 1, 30), ctx.real("k", 0.05, 0.3)
    ctx.assume(Or(k <= 0.199, k >= 0.201))
    W.addLink("ab", "a", "b", ctx.real("L", 150, 190), free_flow_speed=u, jam_density=k, merge_priority=ctx.real("p", 0, 3))
    W.addLink("bc", W.get_node("b"), W.get_node("c"), 120, attribute={"x": [1]}, user_attribute="ua")


def net_signal(ctx, W):
    g1, g2 = ctx.real("g1", 2, 30), ctx.real("g2", 2, 30)
    kind = ctx.pickv("offset", ["none", "new", "old"])
    off = ctx.real("off", 0, 20)
    W.addNode("a", 0, 0)
    W.addNode("b", 10, 0, signal=[g1, g2], **({} if kind == "none" else {"signal_offset": off} if kind == "new" else {"signal_offset_old": off}))
    W.addNode("c", 20, 0, attribute=5)
    W.addNode("d", 10, 10)
    W.addLink("ab", "a", "b", 130, signal_group=0)
    W.addLink("db", "d", "b", 150, signal_group=ctx.pickv("sg", [1, [1], [0, 1]]))
    W.addLink("bc", "b", "c", 120, number_of_lanes=2)


def net_groups(ctx, W):
    W.addNode("a", 0, 0)
    W.addNode("b", 10, 0)
    W.addNode("c", 20, 0)
    W.addNode("d", 10, 10)
    ab = W.addLink("ab", "a", "b", 130)
    db = W.addLink("db", "d", "b", 150)
    W.addLink("bc", "b", "c", 120)
    W.get_node("b").override_signal([ctx.real("g1", 2, 30), ctx.real("g2", 2, 30)], [[ab], ["db", ab]], reset=True)


def net_caps(ctx, W):
    W.addNode("a", 0, 0)
    W.addNode("b", 10, 0, flow_capacity=ctx.real("fc", 0.2, 2.5), number_of_lanes=ctx.pickv("nl", [None, 1, 3]), user_attribute=[1, 2])
    W.addNode("c", 20, 0)
    cin = ctx.pickv("cin?", [False, True])
    kw = dict(capacity_in=ctx.real("cin", 0.3, 2), capacity_out=ctx.real("cout", 0.3, 2)) if cin else {}
    W.addLink("ab", "a", "b", 130, number_of_lanes=ctx.pickv("lanes", [1, 2]), free_flow_speed=ctx.real("u", 1, 20), **kw)
    W.addLink("bc", "b", "c", 120, congestion_pricing=toll, eular_dx=ctx.real("dx", 20, 60))


def net_zeros(ctx, W):
    """values that are zero, empty or false where the default is something else"""
    k = ctx.pick("zero", 6)
    W.addNode("a", 0, 0, attribute=0, user_attribute="")
    W.addNode("b", 10, 0, **({"flow_capacity": 0} if k == 1 else {"signal": [ctx.real("g", 2, 9), 5]} if k == 2 else {}))
    W.addNode("c", 20, 0, attribute=[], user_attribute=False)
    W.addNode("d", 10, 10, user_attribute=0.0)
    W.addLink("ab", "a", "b", 130, merge_priority=0, attribute=0, free_flow_speed=ctx.real("u", 16, 20), **({"capacity_out": 0} if k == 3 else {"signal_group": []} if k == 2 else {}))
    W.addLink("bc", "b", "c", 120, user_attribute=0, attribute={}, **({"capacity_in": 0} if k == 4 else {"congestion_pricing": toll} if k == 5 else {}))
    W.addLink("db", "d", "b", 150, attribute=False, user_attribute=0.0)


def net_lanes(ctx, W):
    W.addNode("a", 0, 0)
    W.addNode("b", 10, 0)
    W.addNode("c", 20, 0)
    kj = ctx.real("kj", 0.1, 0.3)
    l = W.addLink("ab", "a", "b", 130, number_of_lanes=2, jam_density_per_lane=kj)
    m = W.addLink("bc", "b", "c", 120, jam_density=ctx.real("k2", 0.21, 0.5))
    ch = ctx.pickv("change", ["none", "speed", "density"])
    if ch == "speed":
        l.change_free_flow_speed(ctx.real("newu", 2, 30))
        m.change_free_flow_speed(ctx.real("newu2", 2, 30))
    if ch == "density":
        l.change_jam_density(ctx.real("newk", 0.21, 0.6))
        m.change_jam_density(ctx.real("newk2", 0.21, 0.6))


def dem_simple(ctx, W):
    W.adddemand("a", W.get_node("c"), 0, ctx.real("t1", 10, 20), ctx.real("q", 0.5, 1.2), attribute="A")
    return [("adddemand", 1)]


def dem_const(ctx, W):
    W.adddemand("a", "c", 0, 15, 1, attribute=0)
    W.adddemand("d", "c", 2, 9, volume=ctx.real("vol", 6, 14), attribute=False)
    return [("adddemand", 2)]


def dem_mixed(ctx, W):
    """calls of different kinds, interleaved"""
    q = ctx.real("q", 0.5, 1.2)
    calls = ctx.pickv("calls", ["pap", "apna", "nap"])
    n = {}
    for i, c in enumerate(calls):
        if c == "a":
            W.adddemand("a", "c", 0, 20, volume=q * 20, attribute=i)
            k = "adddemand"
        elif c == "p":
            W.adddemand_point2point(0.1, 0.2, 10, 0.5, 0, 10, q, attribute=[i])
            k = "adddemand_point2point"
        else:
            W.adddemand_nodes2nodes(["a", W.get_node("b")], ["c"], 0, 15, q, attribute=i)
            k = "adddemand_nodes2nodes"
        n[k] = n.get(k, 0) + 1
    return list(n.items())


def dem_area(ctx, W):
    q = ctx.real("q", 0.3, 1.2)
    W.adddemand_area2area(0, 0, 5, 20, 0, ctx.pickv("rd", [3, 30]), 0, 20, volume=q * 20, attribute="x")
    W.adddemand_area2area2(0, 0, 5, 20, 0, 4, 0, 10, q, attribute="y")
    W.adddemand_nodes2nodes2(["a"], [W.get_node("c"), "b"], 0, 10, q)
    return [("adddemand_area2area", 1), ("adddemand_area2area2", 1), ("adddemand_nodes2nodes2", 1)]


NETS = dict(basic=net_basic, signal=net_signal, groups=net_groups, caps=net_caps, zeros=net_zeros, lanes=net_lanes)
DEMS = dict(simple=dem_simple, const=dem_const, mixed=dem_mixed, area=dem_area)


def save(ctx, net="basic", dem="simple", K=5, again=False):
    from symx.pyuxsim import Tape
    from . import pieces
    _load()
    warnings.simplefilter("ignore")
    tape = Tape(ctx)
    spec = dict(opts=dict(deltan=5, reaction_time=1, tmax=200, hard_deterministic_mode=True), nodes=[], links=[], tape=tape)
    A = make_sim(ctx, "py", spec)
    NETS[net](ctx, A.W)
    calls = DEMS[dem](ctx, A.W)
    info = {k: len(v) for k, v in A.W.demand_info.items() if k.startswith("adddemand") and len(v)}
    ctx.check(info == dict(calls), "each_demand_call_recorded_once", f"{info} calls {calls}")
    B = make_sim(ctx, "py", spec)
    roundtrip(ctx, A.W, B.W)
    same_network(ctx, A.W, B.W, "loaded")
    same_demand(ctx, A.W, B.W, "loaded")
    worlds = [(B, "loaded")]
    if again:
        C = make_sim(ctx, "py", spec)
        roundtrip(ctx, B.W, C.W, demand=False)
        same_network(ctx, A.W, C.W, "network loaded a second time")
        ctx.check(len(C.W.VEHICLES) == 0, "only_network_loaded", "")
        roundtrip(ctx, B.W, C.W, network=False)
        same_demand(ctx, A.W, C.W, "demand loaded a second time")
        worlds.append((C, "second copy"))
    A.start()
    for B, nm in worlds:
        B.start()
    for t in range(K):
        A.step()
        a = A.snap()
        for B, nm in worlds:
            B.step()
            pieces.same_world(ctx, a, B.snap(), f"{nm} step {t}")


# ------------------------------------------------------------------ CSV files
class Rows:
    """contract model of csv.reader: the fields of the rows (numbers instead of their text)"""

    def __init__(self, rows):
        self.rows = rows

    def __call__(self, f):
        return iter(self.rows[os.path.basename(f.name)])


def from_csv(ctx, engine="py", head=True, vol=False):
    _load()
    sim = make_sim(ctx, engine, dict(opts=dict(deltan=5, reaction_time=1, tmax=None), nodes=[], links=[]))
    W = sim.W
    ax, cy = ctx.real("ax", -9, 9), ctx.real("cy", -9, 9)
    L, u, k, p = ctx.real("L", 150, 190), ctx.real("u", 5, 30), ctx.real("k", 0.1, 0.4), ctx.real("p", 0, 3)
    t0, t1, q = ctx.real("t0", 0, 8), ctx.real("t1", 10, 25), ctx.real("q", 0, 1.2)
    v = ctx.real("vol", 0.5, 20)
    rows = dict(n=[["name", "x", "y"]] * head + [["a", ax, 1.5], ["b", 2, 3], ["c", 4, cy]],
                l=[["name", "start", "end", "length", "u", "kappa", "merge_priority"]] * head + [["ab", "a", "b", L, u, k, p], ["bc", "b", "c", 120, 20, 0.2, 0.5]],
                d=[["orig", "dest", "start_t", "end_t", "q"] + ["volume"] * vol] * head + [["a", "c", t0, t1, q] + [v] * vol, ["b", "c", 0, 10, 1] + ([-1] if vol else [])])
    d = folder()
    old = csv.reader
    try:
        for f, rr in rows.items():
            with open(os.path.join(d, f), "w") as o:
                o.write("" if P.SYM else "\n".join(",".join(x if isinstance(x, str) else repr(float(x)) for x in r) for r in rr) + "\n")
        if P.SYM:
            csv.reader = Rows(rows)
        W.load_scenario_from_csv(*[os.path.join(d, f) for f in "nld"], tmax=77)
    finally:
        csv.reader = old
        clean(d)
    ctx.check(W.TMAX == 77, "tmax_from_argument", str(W.TMAX))
    ctx.check([n.name for n in W.NODES] == ["a", "b", "c"] and [l.name for l in W.LINKS] == ["ab", "bc"], "rows_loaded", f"{W.NODES} {W.LINKS}")
    for n, (x, y) in zip(W.NODES, [(ax, 1.5), (2, 3), (4, cy)]):
        ctx.check(And(ctx.eq(n.x, x), ctx.eq(n.y, y)), "node_coordinates", n.name)
    for l, (a, b, LL, uu, kk, pp) in zip(W.LINKS, [("a", "b", L, u, k, p), ("b", "c", 120, 20, 0.2, 0.5)]):
        ctx.check(l.start_node.name == a and l.end_node.name == b, "link_end_nodes", l.name)
        ctx.check(And(ctx.eq(l.length, LL), ctx.eq(l.u, uu), ctx.eq(l.kappa, kk), ctx.eq(l.merge_priority, pp)), "link_parameters", f"{l.name}: {l.length} {l.u} {l.kappa} {l.merge_priority}")
    from .demand import vehicles, check_flow
    vs = vehicles(W)
    check_flow(ctx, vs, "a", "c", v / (t1 - t0) if vol else q, t0, t1, sim.D, sim.N, None, "csv")
    check_flow(ctx, vs, "b", "c", 1, 0, 10, sim.D, sim.N, None, "csv")
    ctx.check(all(x[:2] in (("a", "c"), ("b", "c")) for x in vs), "rows_loaded", str(vs))


FN = ["uxsim.scenario_reader_writer:save_scenario", "uxsim.scenario_reader_writer:load_scenario", "uxsim.scenario_reader_writer:instance_to_arg_dict", "uxsim.scenario_reader_writer:demand_info_record.<locals>.wrapper", "uxsim.uxsim:Node.__init__", "uxsim.uxsim:Link.__init__"]


def c19(tier):
    js = []
    q = tier == "quick"
    combos = [("basic", "simple", True), ("basic", "mixed", False), ("basic", "area", False), ("signal", "simple", False), ("groups", "simple", True), ("caps", "simple", False), ("lanes", "simple", False), ("zeros", "const", False)]
    if not q:
        combos += [("signal", "mixed", True), ("groups", "area", False), ("caps", "mixed", True), ("lanes", "area", False)]
    for n, d, again in combos:
        js.append(Job("checks.save", "save", dict(net=n, dem=d, again=again, K=5 if q else 7), FN,
                      bounds=f"Python engine, network '{n}' and demand '{d}' of checks/save.py with symbolic parameters; saved and loaded" + (" twice, network and demand separately the second time" if again else "") + f"; parameters, demand and the states of {5 if q else 7} simulated steps compared"))
    for e in ("py", "cpp"):
        c = "uxsim.uxsim:World." if e == "py" else "uxsim.uxsim_cpp_wrapper:CppWorld."
        for vol in (False, True):
            js.append(Job("checks.save", "from_csv", dict(engine=e, vol=vol, head=not vol), [c + f for f in ("load_scenario_from_csv", "generate_Nodes_from_csv", "generate_Links_from_csv", "generate_demand_from_csv")],
                          bounds=f"{e} engine, CSV files of 3 nodes, 2 links, 2 demand rows with symbolic numbers {'and volumes, no header' if vol else ''}"))
    return dict(jobs=js, stubs=["dill.dump / dill.load -> independent copy of the written structure (symbolic phase only; the replay writes real files)", "csv.reader -> rows of symbolic numbers (symbolic phase only; the replay reads real CSV text)"])


CHECKS = {"C19": c19}
