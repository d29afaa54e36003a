"""Step harnesses of the traffic dynamics: arbitrary admissible states, then real time steps."""
from symx import core
from symx.core import And, Or, Not
from . import monitors as M


def make_sim(ctx, engine, spec):
    if engine == "py":
        from symx.pysim import PySim
        return PySim(ctx, spec)
    from symx.cppsim import CppSim
    return CppSim(ctx, spec)


def go(ctx, sim, mons, steps):
    a = sim.snap()
    M.observe(ctx, mons, None, a, sim)
    for i in range(steps):
        sim.step()
        b = sim.snap()
        M.observe(ctx, mons, a, b, sim)
        a = b
    return a


def fill(ctx, link, names, L, u, D, spacing, lanes, at_end=0, tag="", tmax_in=None):
    """an arbitrary admissible platoon row on a link: names in entry order, the first `at_end` of them standing at the link end"""
    items = []
    for i, nm in enumerate(names):
        x0 = ctx.real(f"x0_{tag}{nm}", 0, 400)
        if i < at_end:
            x = L
            ctx.assume(And(x0 <= L, x0 + u * D >= L))
            over = x0 + u * D - L
        else:
            x = ctx.real(f"x_{tag}{nm}", 0, 400)
            over = None
            ctx.assume(And(x0 <= x, x <= x0 + u * D, x < L))
        if i >= lanes:
            p = items[i - lanes]
            ctx.assume(And(x <= p["x"] - spacing, x0 <= p["x0"] - spacing))
        items.append(dict(name=nm, x0=x0, x=x, over=over, v=(x - x0) / D))
    return items


def link_step(ctx, engine="py", mons=(), lanes=1, m=2, q=1, home=1, steps=1, det=False, deltan=5, u=20):
    """one road from origin to destination"""
    D, N = deltan * 1.0, deltan
    L = ctx.real("L", u * D * 1.25, u * D * 1.9)
    kappa = 0.2
    dpl = lanes / kappa
    ids = [f"v{i}" for i in range(m)]
    qs = [f"q{i}" for i in range(q)]
    hs = [f"h{i}" for i in range(home)]
    spec = dict(opts=dict(deltan=deltan, reaction_time=1, tmax=D * (steps + 4), hard_deterministic_mode=det), nodes=[dict(name="O"), dict(name="E", x=1)],
                links=[dict(name="l", a="O", b="E", length=L, free_flow_speed=u, jam_density=kappa, number_of_lanes=lanes,
                            capacity_in=ctx.real("cin", 0, 4, grid=8), capacity_out=1.0)],
                vehicles=[dict(name=n, orig="O", dest="E", dep=1) for n in ids + qs] + [dict(name=n, orig="O", dest="E", dep=ctx.int("dep_" + n, 1, 3)) for n in hs])
    sim = make_sim(ctx, engine, spec)
    sim.run_to_step(1)
    items = fill(ctx, "l", ids, L, u, D, dpl * N, lanes)
    sim.put_link("l", items, lane0=ctx.pick("lane0", lanes), arrived=N * (m + 2))
    sim.put_queue("O", qs)
    sim.set_caps("l", cin=ctx.real("cin_rem", -1, N * lanes + 6))
    sim.finish()
    go(ctx, sim, mons, steps)


def node_step(ctx, engine="py", mons=(), inl=2, outl=2, lanes_in=1, lanes_out=1, back=0, occ=1, at_end=1, q=0, signal=None, nodecap=False, prio="sym", steps=1, det=False, dests="mix", caps=True, u2=15, nlanes=None, short=False, bend=True, groups=None):
    """a junction: inl incoming links with vehicles at their ends, outl outgoing links with vehicles near their start"""
    deltan, D, N, u = 5, 5.0, 5, 20
    kappa = 0.2
    veh, links = [], []
    nodes = [dict(name="M", **({} if not signal else dict(signal=[ctx.real(f"sig{i}", 1, 30) for i in range(signal)], signal_offset=0)),
                  **({} if not nodecap else dict(flow_capacity=ctx.real("ncap", 0.125, 4), **({} if nlanes is None else dict(number_of_lanes=nlanes)))))]
    for i in range(inl):
        nodes.append(dict(name=f"A{i}", x=-1, y=i))
        links.append(dict(name=f"i{i}", a=f"A{i}", b="M", length=ctx.real(f"Li{i}", 125, 190), free_flow_speed=u, jam_density=kappa, number_of_lanes=lanes_in,
                          merge_priority=1 if prio is None else ctx.real(f"prio{i}", 0, 2), **({} if not signal else dict(signal_group=list(groups[i]) if groups else [i % signal])),
                          **({} if not caps else dict(capacity_out=ctx.real(f"co{i}", 0, 4), capacity_in=1.0))))
    for j in range(outl):
        nodes.append(dict(name=f"B{j}", x=1, y=j))
        links.append(dict(name=f"o{j}", a="M", b=f"B{j}", length=ctx.real(f"Lo{j}", *((50, 74) if short else (125, 149))), free_flow_speed=u2, jam_density=kappa, number_of_lanes=lanes_out,
                          **({} if not caps else dict(capacity_in=ctx.real(f"ci{j}", 0, 4), capacity_out=1.0))))
    names_in = {}
    for i in range(inl):
        names_in[i] = [f"a{i}{k}" for k in range(at_end + back)]
        for k, n in enumerate(names_in[i]):
            j = 0 if dests == "same" else ctx.pick("d_" + n, outl) if dests == "mix" else (i % outl)
            veh.append(dict(name=n, orig=f"A{i}", dest=f"B{j}", dep=1))
    for j in range(outl):
        for k in range(occ):
            veh.append(dict(name=f"b{j}{k}", orig="A0", dest=f"B{j}", dep=1))
    for k in range(q):
        veh.append(dict(name=f"q{k}", orig="M", dest=f"B{ctx.pick('dq', outl)}", dep=1))
    spec = dict(opts=dict(deltan=deltan, reaction_time=1, tmax=D * (steps + 4), hard_deterministic_mode=det), nodes=nodes, links=links, vehicles=veh)
    sim = make_sim(ctx, engine, spec)
    sim.run_to_step(1)
    Lof = {l["name"]: l["length"] for l in links}
    for i in range(inl):
        sim.put_link(f"i{i}", fill(ctx, f"i{i}", names_in[i], Lof[f"i{i}"], u, D, lanes_in / kappa * N, lanes_in, at_end=at_end), arrived=N * (at_end + back + 1))
        if caps:
            sim.set_caps(f"i{i}", cout=ctx.real(f"co_rem{i}", -1, N * lanes_in + 6))
    for j in range(outl):
        bs = fill(ctx, f"o{j}", [f"b{j}{k}" for k in range(occ)], Lof[f"o{j}"], u2, D, lanes_out / kappa * N, lanes_out)
        if not bend:
            for it in bs:
                ctx.assume(it["x"] <= Lof[f"o{j}"] - u2 * D - 0.01)     # does not reach its link end in the next step
        sim.put_link(f"o{j}", bs, arrived=N * (occ + 1))
        if caps:
            sim.set_caps(f"o{j}", cin=ctx.real(f"ci_rem{j}", -1, N * lanes_out + 6))
        sim.set_route_pref(f"B{j}", {f"o{x}": (1.0 if x == j else 0.0) for x in range(outl)})
    if nodecap:
        sim.set_node("M", rem=ctx.real("nrem", -1, 11))
    if signal:
        sim.set_node("M", phase=ctx.pick("ph", signal), t=ctx.real("sigt", 0, 35))
    sim.put_queue("M", [f"q{k}" for k in range(q)])
    sim.set_prefs_to_vehicles()
    sim.finish()
    go(ctx, sim, mons, steps)
