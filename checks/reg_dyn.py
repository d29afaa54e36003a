"""Traffic-dynamics properties: harness configurations."""
from symx.runner import Job

PYF = ["uxsim.uxsim:" + f for f in ("World.exec_simulation", "Node.generate", "Node.transfer", "Node.update", "Node.signal_control", "Node.flow_capacity_update", "Link.update", "Link.in_out_flow_constraint",
                                    "Vehicle.carfollow", "Vehicle.update", "Vehicle.end_trip", "Vehicle.route_next_link_choice", "Vehicle.record_log")]


CPF = ["uxsim/trafficpp/traffi.cpp:" + f for f in ("World::main_loop", "Node::generate", "Node::transfer", "Node::signal_update", "Node::flow_capacity_update", "Link::update", "Vehicle::car_follow_newell", "Vehicle::update",
                                                 "Vehicle::end_trip", "Vehicle::route_next_link_choice", "Link::ensure_traveltime_real")] + ["uxsim/trafficpp/utils.h:random_choice", "uxsim.uxsim_cpp_wrapper:CppWorld"]
FN = {"py": PYF, "cpp": CPF}


def link(engine, mons, **k):
    c = dict(engine=engine, mons=list(mons), **k)
    return Job("checks.dyn", "link_step", c, FN[engine], bounds=f"{engine} engine, 1 link, lanes={k.get('lanes',1)}, {k.get('m',2)} vehicles on it at arbitrary admissible positions, {k.get('q',1)} waiting, {k.get('home',1)} at home with symbolic departure, {k.get('steps',1)} step(s); length 125-190 m, capacities and allowances symbolic")


def node(engine, mons, **k):
    c = dict(engine=engine, mons=list(mons), **k)
    return Job("checks.dyn", "node_step", c, FN[engine], bounds=f"{engine} engine, junction {k.get('inl',2)} in x {k.get('outl',2)} out, {k}; lengths, positions, capacities, allowances, priorities symbolic, {k.get('steps',1)} step(s)")


def dyn(prop, quick, thorough):
    def f(tier):
        js = []
        for e in ("py", "cpp"):
            for kind, k in (quick if tier == "quick" else thorough):
                js.append((link if kind == "link" else node)(e, [prop], **k))
        return dict(jobs=js)
    return f


L1 = ("link", dict(m=2, q=1, home=1))
L2 = ("link", dict(m=3, q=2, home=0, lanes=2))
L3 = ("link", dict(m=2, q=1, home=1, steps=2))
N1 = ("node", dict(inl=2, outl=1, prio="sym", occ=0, bend=False))
N2 = ("node", dict(inl=1, outl=2, prio=None, back=1, caps=False, bend=False))
N8 = ("node", dict(inl=1, outl=1, prio=None, occ=1, q=1))
N3 = ("node", dict(inl=2, outl=2, prio=None, dests="mix", caps=False, bend=False))
N4 = ("node", dict(inl=2, outl=1, lanes_in=2, lanes_out=2, at_end=2, prio=None, caps=False, bend=False))
N5 = ("node", dict(inl=2, outl=1, nodecap=True, prio=None, caps=False, bend=False))
N6 = ("node", dict(inl=2, outl=1, signal=2, prio=None, caps=False, det=True, bend=False))
N7 = ("node", dict(inl=2, outl=1, short=True, caps=False, prio=None, occ=1))
N9 = ("node", dict(inl=1, outl=1, lanes_out=2, occ=4, prio=None, caps=False, bend=False, u2=5))
N10 = ("node", dict(inl=2, outl=1, nodecap=True, nlanes=1, lanes_in=2, lanes_out=2, prio=None, caps=False, bend=False, occ=0))
N11 = ("node", dict(inl=2, outl=1, signal=3, groups=[[0, 2], [1, 2]], prio=None, caps=False, det=True, bend=False, occ=0))
N12 = ("node", dict(inl=2, outl=2, signal=2, prio=None, caps=False, bend=False, occ=0))
BASE = [L1, L2, N1, N2, N3, N4, N5, N6, N7, N8, N9, N10, N11, N12]
DEEP = BASE + [L3, ("link", dict(m=4, q=2, home=1, lanes=3, steps=2)), ("node", dict(inl=2, outl=2, steps=2)), ("node", dict(inl=3, outl=2, lanes_in=2, lanes_out=2, at_end=2, nodecap=True, q=2)), ("node", dict(inl=2, outl=2, signal=3, steps=2, back=1))]

CHECKS = {p: dyn(p, BASE, DEEP) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C13", "C15")}
