"""Whole scenarios started from an empty network through the public interface, with symbolic lengths, times, capacities.

SC: scenario name -> function(ctx) giving (spec for PySim/CppSim, number of steps, {step: action on the world})."""
from symx.core import S, SB, And, Or, Not, Implies
from . import monitors as M
from .dyn import make_sim


def nd(name, x=0, y=0, **k):
    return dict(name=name, x=x, y=y, **k)


def lk(name, a, b, length, **k):
    return dict(name=name, a=a, b=b, length=length, **k)


def vh(name, orig, dest, dep, **k):
    return dict(name=name, orig=orig, dest=dest, dep=dep, **k)


def opts(K, **k):
    d = dict(deltan=5, reaction_time=1, tmax=5.0 * (K + 3))
    d.update(k)
    return d


def sc_line(ctx):
    """two roads in a row, second one slower; three vehicles"""
    K = 8
    L0, L1 = ctx.real("L0", 130, 180), ctx.real("L1", 40, 90)
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2, 1)], links=[lk("l0", "a", "b", L0), lk("l1", "b", "c", L1, free_flow_speed=15)],
                vehicles=[vh("v0", "a", "c", 0), vh("v1", "a", "c", 0), vh("v2", "a", "c", 1)]), K, {}


def sc_spill(ctx):
    """queue behind a slow short road with a limited exit, spilling back onto the first one"""
    K = 9
    L0, L1 = ctx.real("L0", 60, 99), ctx.real("L1", 51, 74)
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2), nd("d", 3)],
                links=[lk("l0", "a", "b", L0), lk("l1", "b", "c", L1, free_flow_speed=5), lk("l2", "c", "d", 60, capacity_in=0.25)],
                vehicles=[vh(f"v{i}", "a", "d", i // 2) for i in range(5)]), K, {}


def sc_merge(ctx):
    """two roads merging with different priorities into a road with limited inflow"""
    K = 7
    L0, L1 = ctx.real("L0", 60, 99), ctx.real("L1", 130, 180)
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 0, 1), nd("m", 1), nd("d", 2)],
                links=[lk("l0", "a", "m", L0, merge_priority=1), lk("l1", "b", "m", L1, merge_priority=2), lk("o", "m", "d", ctx.real("Lo", 130, 180), capacity_in=0.6)],
                vehicles=[vh("v0", "a", "d", 0), vh("v1", "b", "d", 0), vh("v2", "a", "d", 1), vh("v3", "b", "d", 1)]), K, {}


def sc_diverge(ctx):
    """route choice between two routes with a toll that makes either the cheaper one, updated every second step"""
    K = 7
    tl = ctx.real("toll", 0, 12)
    return dict(opts=opts(K, duo_update_time=10, instantaneous_TT_timestep_interval=1, duo_update_weight=0.5), nodes=[nd("a"), nd("m", 1), nd("b", 2, 1), nd("d", 3)],
                links=[lk("l0", "a", "m", 60), lk("l1", "m", "d", ctx.real("L1", 130, 180), congestion_pricing=lambda t: tl if t < 20 else 0), lk("l2", "m", "b", ctx.real("L2", 60, 99)), lk("l3", "b", "d", ctx.real("L3", 60, 99))],
                vehicles=[vh(f"v{i}", "a", "d", i) for i in range(3)]), K, {}


def sc_gradual(ctx):
    """gradual preference update, congestion from a slow road"""
    K = 6
    return dict(opts=opts(K, duo_update_time=15, instantaneous_TT_timestep_interval=2, duo_update_weight=0.75, route_choice_update_gradual=True), nodes=[nd("a"), nd("b", 1, 1), nd("d", 3)],
                links=[lk("l1", "a", "d", ctx.real("L1", 130, 180), free_flow_speed=10), lk("l2", "a", "b", ctx.real("L2", 60, 99)), lk("l3", "b", "d", ctx.real("L3", 60, 99))],
                vehicles=[vh(f"v{i}", "a", "d", i) for i in range(3)]), K, {}


def sc_signal(ctx):
    """signalised crossing of two roads"""
    K = 8
    s = [ctx.real("s0", 3, 14), ctx.real("s1", 3, 14)]
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 0, 1), nd("m", 1, signal=s, signal_offset=2), nd("d", 2)],
                links=[lk("l0", "a", "m", 80, signal_group=[0]), lk("l1", "b", "m", 90, signal_group=[1]), lk("o", "m", "d", 150)],
                vehicles=[vh("v0", "a", "d", 0), vh("v1", "b", "d", 0), vh("v2", "a", "d", 2)]), K, {}


def sc_lanes(ctx):
    """two-lane road into a one-lane road, five vehicles"""
    K = 7
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2)], links=[lk("l0", "a", "b", ctx.real("L0", 130, 180), number_of_lanes=2, jam_density=0.4), lk("l1", "b", "c", ctx.real("L1", 60, 99))],
                vehicles=[vh(f"v{i}", "a", "c", 0) for i in range(5)]), K, {}


def sc_lanedest(ctx):
    """two-lane road whose end is the destination of some vehicles while others go on"""
    K = 6
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2)], links=[lk("l0", "a", "b", ctx.real("L0", 130, 180), number_of_lanes=2), lk("l1", "b", "c", ctx.real("L1", 51, 74), free_flow_speed=5)],
                vehicles=[vh(f"v{i}", "a", "b" if i % 3 else "c", 0) for i in range(5)]), K, {}


def sc_deadend(ctx):
    """a dead end that is not the destination, with and without the abort rule"""
    K = 6
    return dict(opts=opts(K), nodes=[nd("a"), nd("m", 1), nd("x", 2, 1), nd("d", 2)], links=[lk("l0", "a", "m", ctx.real("L0", 60, 99)), lk("lx", "m", "x", ctx.real("Lx", 130, 180)), lk("ld", "m", "d", 90)],
                vehicles=[vh("v0", "a", "d", 0, links_prefer=["lx"]), vh("v1", "a", "x", 0), vh("v2", "a", "d", 1, route=["l0", "lx"], trip_abort=0), vh("v3", "a", "d", 2, links_avoid=["lx"])]), K, {}


def sc_nocyc(ctx):
    """ring with a back road, cyclic routing forbidden"""
    K = 7
    return dict(opts=opts(K, no_cyclic_routing=True), nodes=[nd("a"), nd("b", 1), nd("c", 2), nd("d", 3)],
                links=[lk("ab", "a", "b", ctx.real("L0", 60, 99)), lk("ba", "b", "a", 70), lk("bc", "b", "c", ctx.real("L1", 60, 99)), lk("ca", "c", "a", 70), lk("cb", "c", "b", 75), lk("cd", "c", "d", ctx.real("L2", 130, 180))],
                vehicles=[vh("v0", "a", "d", 0), vh("v1", "c", "d", 0), vh("v2", "b", "d", 1)]), K, {}


def sc_nocycav(ctx):
    """cyclic routing forbidden together with preferred and avoided links, several of them out of the same node"""
    K = 7
    return dict(opts=opts(K, no_cyclic_routing=True), nodes=[nd("a"), nd("m", 1), nd("p", 2, 1), nd("q", 2, -1), nd("d", 3)],
                links=[lk("am", "a", "m", ctx.real("L0", 60, 99)), lk("ma", "m", "a", 72), lk("mp", "m", "p", 60), lk("mq", "m", "q", 66), lk("md", "m", "d", ctx.real("L1", 60, 99)), lk("pd", "p", "d", 70), lk("pm", "p", "m", 80), lk("qd", "q", "d", 75)],
                vehicles=[vh("v0", "a", "d", 0, links_avoid=["md", "mp"]), vh("v1", "a", "d", 1, links_prefer=["ma", "mq"], links_avoid=["mq"]), vh("v2", "a", "d", 2, links_prefer=["mp"], links_avoid=["pd"]), vh("v3", "p", "d", 0, links_avoid=["pd"])]), K, {}


def sc_choice(ctx):
    """preferred and avoided links and specified routes given while the vehicles are under way, waiting or not yet departed"""
    K = 8

    def two(W):
        W.VEHICLES["v0"].set_links_avoid(["md"])
        W.VEHICLES["v1"].set_links_prefer(["mq", "md"])
        W.VEHICLES["v3"].enforce_route(["mp", "pd"])

    def four(W):
        W.VEHICLES["v1"].set_links_avoid(["md"])
        W.VEHICLES["v2"].set_links_prefer(["mp"])
    return dict(opts=opts(K), nodes=[nd("a"), nd("m", 1), nd("p", 2, 1), nd("q", 2, 2), nd("d", 3)],
                links=[lk("am", "a", "m", ctx.real("L0", 60, 80)), lk("mp", "m", "p", 70), lk("mq", "m", "q", 73), lk("md", "m", "d", ctx.real("L1", 60, 99), capacity_in=0.25), lk("pd", "p", "d", 80), lk("qd", "q", "d", 85)],
                vehicles=[vh("v0", "a", "d", 0), vh("v1", "a", "d", 0), vh("v2", "a", "d", ctx.int("d2", 0, 1)), vh("v3", "m", "d", 3), vh("v4", "m", "d", 0)]), K, {2: two, 4: four}


def sc_route(ctx):
    """vehicles with specified routes"""
    K = 8
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2), nd("d", 3)],
                links=[lk("ab", "a", "b", ctx.real("L0", 60, 99)), lk("ba", "b", "a", 70), lk("bc", "b", "c", ctx.real("L1", 60, 99)), lk("ac", "a", "c", 65), lk("cd", "c", "d", ctx.real("L2", 60, 99)), lk("bd", "b", "d", 66)],
                vehicles=[vh("v0", "a", "d", 0, route=["ab", "ba", "ac", "cd"]), vh("v1", "a", "d", 0, route=["ab", "bd"]), vh("v2", "a", "d", 1, route=["ab", "bc", "cd"])]), K, {}


def sc_nodecap(ctx):
    """capacity-limited node and automatic node capacities"""
    K = 7
    return dict(opts=opts(K, adjust_node_capacity=True), nodes=[nd("a"), nd("b", 0, 1), nd("m", 1, flow_capacity=ctx.real("fc", 0.25, 1.5)), nd("d", 2), nd("e", 3)],
                links=[lk("l0", "a", "m", 80), lk("l1", "b", "m", 90), lk("o", "m", "d", 95), lk("p", "d", "e", 130)], vehicles=[vh("v0", "a", "e", 0), vh("v1", "b", "e", 0), vh("v2", "a", "e", 1)]), K, {}


def sc_change(ctx):
    """parameters changed while running"""
    K = 8
    u2 = ctx.pickv("u2", [5, 10, 30])
    c2 = ctx.real("c2", 0, 1)

    def slow(W):
        W.get_link("l1").change_free_flow_speed(u2)

    def jam(W):
        W.get_link("l0").change_jam_density(0.1)

    def cap(W):
        W.get_link("l1").capacity_in = c2

    def sig(W):
        W.get_node("b").override_signal([5, 10], groups=[["l0"], []], reset=True)
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2)], links=[lk("l0", "a", "b", ctx.real("L0", 130, 180)), lk("l1", "b", "c", 95)],
                vehicles=[vh("v0", "a", "c", 0), vh("v1", "a", "c", 0), vh("v2", "a", "c", 1), vh("v3", "a", "c", 3)]), K, {1: slow, 2: jam, 3: cap, 4: sig}


def sc_params(ctx):
    """other platoon size, reaction time, jam density per lane, symbolic departure"""
    K = 7
    return dict(opts=opts(K, deltan=3, reaction_time=1.5, tmax=4.5 * (K + 3)), nodes=[nd("a"), nd("b", 1), nd("c", 2)],
                links=[lk("l0", "a", "b", ctx.real("L0", 100, 150), free_flow_speed=16, jam_density_per_lane=0.15, number_of_lanes=2), lk("l1", "b", "c", 99, free_flow_speed=10, jam_density=0.1, capacity_out=0.5)],
                vehicles=[vh("v0", "a", "c", ctx.int("d0", 0, 2)), vh("v1", "a", "c", 0), vh("v2", "a", "c", ctx.int("d2", 0, 2)), vh("v3", "a", "c", 1)]), K, {}


def sc_uturn(ctx):
    """both directions between two nodes and a detour; vehicles in opposite directions"""
    K = 6
    return dict(opts=opts(K, duo_update_time=5, instantaneous_TT_timestep_interval=1), nodes=[nd("a"), nd("b", 1), nd("c", 2)],
                links=[lk("ab", "a", "b", ctx.real("L0", 60, 99)), lk("ba", "b", "a", ctx.real("L1", 60, 99)), lk("bc", "b", "c", ctx.real("L2", 130, 180)), lk("cb", "c", "b", 90)],
                vehicles=[vh("v0", "a", "c", 0), vh("v1", "c", "a", 0), vh("v2", "b", "a", 1), vh("v3", "a", "c", 1)]), K, {}


def sc_parallel(ctx):
    """parallel roads between the same nodes"""
    K = 6
    return dict(opts=opts(K, duo_update_time=5, instantaneous_TT_timestep_interval=1), nodes=[nd("a"), nd("b", 1), nd("c", 2)],
                links=[lk("p", "a", "b", ctx.real("L0", 60, 99)), lk("q", "a", "b", ctx.real("L1", 130, 180)), lk("r", "b", "c", ctx.real("L2", 51, 74), free_flow_speed=5)],
                vehicles=[vh("v0", "a", "c", 0), vh("v1", "a", "c", 0), vh("v2", "a", "c", 1), vh("v3", "a", "b", 1)]), K, {}


def sc_bottleneck(ctx):
    """symbolic exit capacity before a road of symbolic entry capacity"""
    K = 8
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2)],
                links=[lk("l0", "a", "b", 80, capacity_out=ctx.real("co", 0.125, 1.5)), lk("l1", "b", "c", 150, capacity_in=ctx.real("ci", 0.125, 1.5))],
                vehicles=[vh(f"v{i}", "a", "c", i // 2) for i in range(4)]), K, {}


def sc_merge3(ctx):
    """three roads, one of zero priority, into a two-lane road leaving through a one-lane one"""
    K = 6
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 0, 1), nd("c", 0, 2), nd("m", 1), nd("d", 2), nd("e", 3)],
                links=[lk("l0", "a", "m", 60, merge_priority=0), lk("l1", "b", "m", 70, merge_priority=ctx.pickv("pr1", [1, 3])), lk("l2", "c", "m", 80, merge_priority=2),
                       lk("o", "m", "d", ctx.real("Lo", 60, 99), number_of_lanes=2), lk("p", "d", "e", ctx.real("Lp", 51, 74), free_flow_speed=5)],
                vehicles=[vh(f"{o}{i}", o, "e", 0) for i in range(2) for o in "abc"]), K, {}


def sc_mix(ctx):
    """crossing of two two-way roads: signal, two-lane road, capacity-limited node, opposite flows, dynamic route choice"""
    K = 8
    return dict(opts=opts(K, duo_update_time=15, instantaneous_TT_timestep_interval=1), nodes=[nd("a"), nd("b", 0, 1), nd("m", 1, signal=[5, 5, 10], signal_offset=5), nd("n", 2, flow_capacity=0.75), nd("d", 3), nd("e", 3, 1)],
                links=[lk("am", "a", "m", ctx.real("L0", 60, 99), number_of_lanes=2, signal_group=[0, 1]), lk("bm", "b", "m", 75, signal_group=[2]), lk("mn", "m", "n", ctx.real("L1", 51, 74), number_of_lanes=2, free_flow_speed=10),
                       lk("me", "m", "e", ctx.real("L2", 125, 190)), lk("nd", "n", "d", 60), lk("ne", "n", "e", 60), lk("ed", "e", "d", 65), lk("de", "d", "e", 65), lk("nm", "n", "m", 70, signal_group=[0, 2]), lk("dn", "d", "n", 80)],
                vehicles=[vh("v0", "a", "d", 0), vh("v1", "a", "e", 0), vh("v2", "b", "d", 0), vh("v3", "d", "m", 0), vh("v4", "a", "d", 1), vh("v5", "b", "e", 1), vh("v6", "e", "m", 2, links_prefer=["ed", "nm"])]), K, {}


def sc_star(ctx):
    """links preferred or avoided off the shortest path, at the origin and on the way"""
    K = 6
    return dict(opts=opts(K), nodes=[nd("a"), nd("m", 1), nd("p", 2, 1), nd("q", 2, 2), nd("d", 3)],
                links=[lk("am", "a", "m", ctx.real("L0", 60, 99)), lk("mp", "m", "p", 70), lk("mq", "m", "q", 73), lk("md", "m", "d", ctx.real("L1", 60, 99)), lk("pd", "p", "d", 80), lk("qd", "q", "d", 80)],
                vehicles=[vh("v0", "a", "d", 0, links_prefer=["am", "mq", "mp"]), vh("v1", "m", "d", 0, links_prefer=["mp", "mq"]), vh("v2", "m", "d", 1, links_avoid=["md"]), vh("v3", "a", "d", 1, links_avoid=["md"])]), K, {}


def sc_cross(ctx):
    """crossing of two roads at a node that passes one vehicle at a time"""
    K = 6
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 0, 1), nd("m", 1, flow_capacity=0.25), nd("d", 2), nd("e", 2, 1)],
                links=[lk("l0", "a", "m", ctx.real("L0", 60, 80)), lk("l1", "b", "m", 70), lk("o", "m", "d", 95), lk("p", "m", "e", 130)], vehicles=[vh("v0", "a", "d", 0), vh("v1", "b", "e", 0), vh("v2", "a", "e", 1)]), K, {}


def sc_orderdep(ctx):
    """departure times given as symbolic steps from two origins onto the same road"""
    K = 7
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2)], links=[lk("l0", "a", "b", ctx.real("L0", 60, 99)), lk("l1", "b", "c", ctx.real("L1", 125, 190))],
                vehicles=[vh("v0", "a", "c", ctx.int("d0", 0, 3)), vh("v1", "b", "c", ctx.int("d1", 0, 3)), vh("v2", "a", "b", ctx.int("d2", 0, 3))]), K, {}


def sc_sigcross(ctx):
    """signalised crossing: two-lane road and one-lane road, each with vehicles for both exits; the second phase of one road shared"""
    K = 6
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 0, 1), nd("m", 1, signal=[5, 10, 5]), nd("d", 2), nd("e", 2, 1)],
                links=[lk("am", "a", "m", 70, number_of_lanes=2, signal_group=[0, 2]), lk("bm", "b", "m", 75, signal_group=[1, 2]), lk("md", "m", "d", ctx.real("L1", 51, 74)), lk("me", "m", "e", 60, number_of_lanes=2)],
                vehicles=[vh("v0", "a", "d", 0), vh("v1", "a", "e", 0), vh("v2", "b", "e", 0), vh("v3", "b", "d", 1), vh("v4", "a", "e", 1)]), K, {}


def sc_wait(ctx):
    """vehicles waiting for several steps at their origin because the inflow capacity is small"""
    K = 9
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2)], links=[lk("l0", "a", "b", ctx.real("L0", 60, 99), capacity_in=ctx.real("ci", 0.2, 0.35)), lk("l1", "b", "c", 70)],
                vehicles=[vh("v0", "a", "c", 0), vh("v1", "a", "b", 0), vh("v2", "a", "c", 1)]), K, {}


SC = {k[3:]: v for k, v in list(globals().items()) if k.startswith("sc_")}


def make(ctx, engine, name, det, **o):
    spec, K, act = SC[name](ctx)
    spec["opts"] = dict(spec["opts"], hard_deterministic_mode=det, **o)
    return make_sim(ctx, engine, spec), K, act


# ---------------------------------------------------------------------------------------- monitors over whole runs
def mon(ctx, engine="py", sc="line", mons=(), det=False):
    sim, K, act = make(ctx, engine, sc, det)
    sim.start()
    a = sim.snap()
    for t in range(K):
        if t in act:
            act[t](sim.W)
            a = sim.snap()
        sim.step()
        b = sim.snap()
        M.observe(ctx, mons, a, b, sim)
        a = b


# ---------------------------------------------------------------------------------------- C24
def same(ctx, a, b, tag, where):
    """engine snapshots must agree"""
    for nm, v in a.veh.items():
        w = b.veh[nm]
        ctx.check(v.state == w.state, f"{tag}_state", f"{where} {nm}: {v.state} / {w.state}")
        ctx.check(v.link == w.link, f"{tag}_link", f"{where} {nm}: {v.link} / {w.link}")
        if v.state != w.state:
            continue
        if v.state == "run" and v.link == w.link:
            ctx.check(ctx.eq(v.x, w.x), f"{tag}_position", f"{where} {nm}: {v.x} / {w.x}")
            ctx.check(ctx.eq(v.v, w.v), f"{tag}_speed", f"{where} {nm}: {v.v} / {w.v}")
            ctx.check(v.lane == w.lane, f"{tag}_lane", f"{where} {nm}: {v.lane} / {w.lane}")
            ctx.check(ctx.eq(v.t_in, w.t_in), f"{tag}_link_arrival_time", f"{where} {nm}: {v.t_in} / {w.t_in}")
        ctx.check(ctx.eq(v.dep, w.dep), f"{tag}_departure", f"{where} {nm}: {v.dep} / {w.dep}")
        ctx.check(ctx.eq(v.arr, w.arr), f"{tag}_arrival", f"{where} {nm}: {v.arr} / {w.arr}")
        if v.state in ("end", "abort"):
            ctx.check(ctx.eq(v.tt, w.tt), f"{tag}_travel_time", f"{where} {nm}: {v.tt} / {w.tt}")
    for nm, l in a.link.items():
        m = b.link[nm]
        ctx.check(l.vehs == m.vehs, f"{tag}_vehicles_on_link", f"{where} {nm}: {l.vehs} / {m.vehs}")
        for f in ("carr", "cdep", "tti"):
            p, q = getattr(l, f), getattr(m, f)
            ctx.check(len(p) == len(q) and And(*[ctx.eq(x, y) for x, y in zip(p, q)]), f"{tag}_{f}", f"{where} {nm}: {p} / {q}")
        n = min(len(l.tta), len(m.tta))
        ctx.check(n > 0 and And(*[ctx.eq(x, y) for x, y in zip(l.tta[:n], m.tta[:n])]), f"{tag}_travel_time_records", f"{where} {nm}: {l.tta} / {m.tta}")
        for f in ("u", "cin", "cout", "delta_pl"):
            ctx.check(ctx.eq(getattr(l, f), getattr(m, f)), f"{tag}_link_{f}", f"{where} {nm}: {getattr(l, f)} / {getattr(m, f)}")
    for nm, n in a.node.items():
        m = b.node[nm]
        ctx.check(n.q == m.q, f"{tag}_waiting_queue", f"{where} {nm}: {n.q} / {m.q}")
        ctx.check(n.phase == m.phase and (n.nphase <= 1 or ctx.eq(n.sig_t, m.sig_t)), f"{tag}_signal", f"{where} {nm}: {n.phase},{n.sig_t} / {m.phase},{m.sig_t}")
    ctx.check(sorted(a.living) == sorted(b.living) and sorted(a.running) == sorted(b.running), f"{tag}_registries", f"{where}: {a.living} {a.running} / {b.living} {b.running}")


def no_ties(ctx, sim):
    """leave out inputs on which two different routes cost exactly the same (either may be recommended)"""
    W, R = sim.W, sim.W.ROUTECHOICE
    fin = lambda v: isinstance(v, S) or v < 1e15
    for i, n in enumerate(W.NODES):
        ends = {l.end_node.id for l in n.outlinks.values()}
        if len(ends) < 2:
            continue
        for d in range(len(W.NODES)):
            via = []
            for j in ends:
                c = R.adj_mat_time[i][j]
                r = 0.0 if j == d else R.dist[j][d]
                if fin(c) and fin(r) and (isinstance(c, S) or c > 0):
                    via.append(c + r)
            for x in range(len(via)):
                for y in range(x):
                    ctx.assume(Or(via[x] > via[y] + 0.001, via[y] > via[x] + 0.001))


def cross(ctx, sc="line", logs=True):
    spec, K, act = SC[sc](ctx)
    spec["opts"] = dict(spec["opts"], hard_deterministic_mode=True)
    p, c = make_sim(ctx, "py", spec), make_sim(ctx, "cpp", spec)
    p.start()
    c.start()
    for t in range(K):
        if t in act:
            act[t](p.W)
            act[t](c.W)
        p.step()
        c.step()
        if t % p.W.DELTAT_ROUTE == 0:
            no_ties(ctx, p)
        same(ctx, p.snap(), c.snap(), "engines", f"step {t}")
        n = len(p.W.NODES)
        for i in range(n):
            for j in range(n):
                x, y = p.W.ROUTECHOICE.dist[i][j], c.W.ROUTECHOICE.dist[i][j]
                fin = lambda v: isinstance(v, S) or v < 1e15
                ctx.check((not fin(x) and not fin(y)) or (fin(x) and fin(y) and ctx.eq(x, y)), "engines_route_cost", f"step {t} {i}->{j}: {x} / {y}")
    if logs:
        for nm, v in p.W.VEHICLES.items():
            w = c.W.VEHICLES[nm]
            ln = lambda l: l if isinstance(l, (int, str)) else l.name
            if v.state == "home":
                continue
            ctx.check(list(v.log_state) == list(w.log_state), "log_state", f"{nm}: {list(v.log_state)} / {list(w.log_state)}")
            ctx.check([ln(l) for l in v.log_link] == [ln(l) for l in w.log_link], "log_link", f"{nm}: {v.log_link} / {w.log_link}")
            for f in ("log_t", "log_x", "log_v", "log_lane", "log_s"):
                a, b = list(getattr(v, f)), list(getattr(w, f))
                ctx.check((len(a) == len(b) or f == "log_s") and And(*[ctx.eq(x, y) for x, y in zip(a, b)]), f, f"{nm}: {a} / {b}")
            r, q = v.traveled_route(include_departure_time=True), w.traveled_route(include_departure_time=True)
            ctx.check([l.name for l in r[0]] == [l.name for l in q[0]] and And(*[ctx.eq(x, y) for x, y in zip(r[1], q[1])]), "traveled_route", f"{nm}: {r} / {q}")


def horizon(ctx):
    """simulation length not given: both engines take the same one, past every departure"""
    from .common import world
    d = [360 * ctx.pickv("k", [0, 1, 2]) + ctx.int("d0", 0, 12), 355 + ctx.int("d1", 0, 8)]
    T = []
    for e in ("py", "cpp"):
        W = world(ctx, e, deltan=5, tmax=None)
        W.addNode("a", 0, 0)
        W.addNode("b", 1, 0)
        l = W.addLink("l", "a", "b", 100)
        for i, x in enumerate(d):
            W.addVehicle("a", "b", x, departure_time_is_time_step=1)
        W.finalize_scenario()
        T.append((W.TMAX, W.TSIZE))
        ctx.check(And(*[W.TMAX > x * W.DELTAT for x in d]), "horizon_past_departures", f"{e}: {W.TMAX} {d}")
        ctx.check(ctx.eq(W.TSIZE * W.DELTAT, W.TMAX), "steps_fill_horizon", f"{e}: {W.TSIZE} steps, {W.TMAX}")
    ctx.check(And(ctx.eq(T[0][0], T[1][0]), T[0][1] == T[1][1]), "engines_horizon", f"{T[0]} / {T[1]}")


from symx.runner import Job

FC = ["uxsim/trafficpp/traffi.cpp:World::main_loop", "uxsim.uxsim:World.exec_simulation"]


def c24(tier):
    from .reg_dyn import PYF, CPF
    names = list(SC)
    return dict(jobs=[Job("checks.scn", "cross", dict(sc=s), PYF + CPF, bounds=f"scenario {s} (checks/scn.py) from an empty network, deterministic mode, 6-9 steps, 3-5 vehicles, symbolic lengths / tolls / capacities / signal times") for s in names]
                + [Job("checks.scn", "horizon", {}, ["uxsim.uxsim:World.finalize_scenario", "uxsim.uxsim_cpp_wrapper:CppWorld.finalize_scenario", "uxsim.uxsim_cpp_wrapper:CppWorld._compute_auto_tmax"], bounds="two departures, steps 0-732 and 355-363 (symbolic), step length 5")])


HEAVY = ("merge3", "mix", "parallel", "sigcross")


def c_mon(prop):
    def f(tier):
        from .reg_dyn import FN
        js = []
        for s in SC:
            for e in ("py", "cpp"):
                dets = [True] if s in HEAVY and tier == "quick" else [False] if prop not in ("C07", "C13") and tier == "quick" else [False, True]
                for d in dets:
                    js.append(Job("checks.scn", "mon", dict(engine=e, sc=s, mons=[prop], det=d), FN[e] + (FC[1:] if e == "py" else FC[:1]),
                                  bounds=f"{e} engine, scenario {s} (checks/scn.py) from an empty network, {'deterministic mode' if d else 'random draws arbitrary'}, 6-9 steps, 3-8 vehicles, symbolic lengths / departure steps / tolls / capacities / signal times"))
        return dict(jobs=js)
    return f


CHECKS = {"C24": c24, **{p: c_mon(p) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C13", "C15")}}
