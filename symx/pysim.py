"""Python-engine adapter: build a scenario, inject a state, step, snapshot."""
from types import SimpleNamespace as NS
from . import pyuxsim as P
from .core import S
U = P.U


class PySim:
    engine = "py"

    def __init__(self, ctx, spec):
        """spec: opts (World kwargs), nodes, links, vehicles; see scen.py"""
        self.ctx = ctx
        self.spec = spec
        o = dict(spec.get("opts", {}))
        o.setdefault("tmax", 1000)
        o.setdefault("duo_update_time", 10 ** 6)
        o.setdefault("instantaneous_TT_timestep_interval", 10 ** 6)
        W = self.W = P.new_world(ctx, tape=spec.get('tape'), **o)
        for n in spec["nodes"]:
            n = dict(n)
            W.addNode(n.pop("name"), n.pop("x", 0), n.pop("y", 0), **n)
        for l in spec["links"]:
            l = dict(l)
            W.addLink(l.pop("name"), l.pop("a"), l.pop("b"), **l)
        for v in spec.get("vehicles", []):
            self.add_vehicle(v)
        self.D = W.DELTAT
        self.N = W.DELTAN

    def add_vehicle(self, v):
        v = dict(v)
        route = v.pop("route", None)
        prefer = v.pop("links_prefer", None)
        avoid = v.pop("links_avoid", None)
        dest_list = v.pop("dest_list", None)
        veh = self.W.addVehicle(v.pop("orig"), v.pop("dest"), v.pop("dep"), v.pop("name"), departure_time_is_time_step=v.pop("steps", 1), **v)
        if route is not None:
            veh.enforce_route(route)
        if prefer is not None:
            veh.set_links_prefer(prefer)
        if avoid is not None:
            veh.set_links_avoid(avoid)
        if dest_list:
            veh.add_dests(dest_list)
        return veh

    def start(self):
        """finalise and run the first (empty) step"""
        self.W.finalize_scenario()

    def run_to_step(self, k):
        """execute all steps with index < k"""
        W = self.W
        if not W.finalized:
            W.finalize_scenario()
        while W.T < k:
            W.exec_simulation(duration_t2=W.DELTAT)

    def step(self):
        self.W.exec_simulation(duration_t2=self.W.DELTAT)

    # ---------------------------------------------------------------- state injection
    def node(self, n):
        return self.W.get_node(n)

    def link(self, l):
        return self.W.get_link(l)

    def veh(self, v):
        return self.W.VEHICLES[v]

    def put_queue(self, node, vehs):
        """vehicles waiting at their origin"""
        n = self.node(node)
        for nm in vehs:
            v = self.veh(nm)
            v.state = "wait"
            n.generation_queue.append(v)

    def put_link(self, link, items, lane0=0, arrived=0, departed=0):
        """items: list of dict(name, x0, x, t_in) in entry order. x0 = position before the last move, x = position now (applied by finish())"""
        W = self.W
        l = self.link(link)
        n = l.number_of_lanes
        for i, it in enumerate(items):
            v = self.veh(it["name"])
            v.state = "run"
            v.link = l
            v.x = it["x0"]
            v.x_old = it["x0"]
            v.x_next = it["x"]
            v.v = it.get("v", l.u)
            v.lane = (lane0 + i) % n
            v.link_arrival_time = it.get("t_in", 0)
            v.leader = None
            if i >= n:
                v.leader = l.vehicles[-n]
                v.leader.follower = v
            if it.get("over") is not None:
                v.move_remain = it["over"]
            v.link_old = l
            v.log_t_link.append([0, l])
            l.vehicles.append(v)
            W.VEHICLES_RUNNING[v.name] = v
        l.cum_arrival[-1] = arrived
        l.cum_departure[-1] = arrived - len(items) * W.DELTAN

    def finish(self, order=None):
        """complete the movement of the current step for all living vehicles (the last part of a time step)"""
        W = self.W
        t = W.T
        W.T = t - 1 if t > 0 else 0
        for name in list(W.VEHICLES_LIVING.keys()):
            W.VEHICLES_LIVING[name].update()
        W.T = t

    def set_caps(self, link, cin=None, cout=None):
        l = self.link(link)
        if cin is not None:
            l.capacity_in_remain = cin
        if cout is not None:
            l.capacity_out_remain = cout

    def set_node(self, node, rem=None, phase=None, t=None):
        n = self.node(node)
        if rem is not None:
            n.flow_capacity_remain = rem
        if phase is not None:
            n.signal_phase = phase
        if t is not None:
            n.signal_t = t

    def set_route_pref(self, dest, pref):
        """pref: {link: weight}"""
        W = self.W
        d = self.node(dest)
        for k, v in pref.items():
            W.ROUTECHOICE.route_pref[d.id][self.link(k).id] = v

    def set_prefs_to_vehicles(self):
        for v in self.W.VEHICLES.values():
            v.route_pref_update(weight=1)

    # ---------------------------------------------------------------- observation
    def snap(self):
        W = self.W
        s = NS(T=W.T, veh={}, link={}, node={}, D=W.DELTAT, N=W.DELTAN, engine="py")
        for nm, v in W.VEHICLES.items():
            r = NS(name=nm, state=v.state, link=v.link.name if v.link is not None else None, x=v.x, x0=v.x_old, v=v.v, lane=v.lane, dep=v.departure_time,
                   arr=v.arrival_time, tt=v.travel_time, t_in=v.link_arrival_time, orig=v.orig.name if v.orig is not None else None, dest=v.dest.name if v.dest is not None else None,
                   next=None, mode=v.mode, trip_abort=v.trip_abort, prefer=[l.name for l in v.links_prefer], avoid=[l.name for l in v.links_avoid],
                   route=[l.name for l in v.specified_route] if v.specified_route else None,
                   leader=v.leader.name if v.leader is not None else None, traveled=[(t, l if isinstance(l, str) else l.name) for t, l in v.log_t_link],
                   pref={W.LINKS[i].name: w for i, w in (v.route_pref.items() if isinstance(v.route_pref, dict) else enumerate(v.route_pref))} if v.route_pref is not None else None)
            nx = getattr(v, "route_next_link", None)
            r.next = nx.name if nx is not None else None
            s.veh[nm] = r
        for l in W.LINKS:
            s.link[l.name] = NS(name=l.name, a=l.start_node.name, b=l.end_node.name, L=l.length, u=l.u, kappa=l.kappa, lanes=l.number_of_lanes, delta_pl=l.delta_per_lane,
                                vehs=[v.name for v in l.vehicles], cin=l.capacity_in, cout=l.capacity_out, cin_rem=l.capacity_in_remain, cout_rem=l.capacity_out_remain,
                                prio=l.merge_priority, sg=list(l.signal_group), carr=list(l.cum_arrival), cdep=list(l.cum_departure), tta=list(l.traveltime_actual), tti=list(l.traveltime_instant))
        for n in W.NODES:
            s.node[n.name] = NS(name=n.name, q=[v.name for v in n.generation_queue], phase=n.signal_phase, sig_t=n.signal_t, nphase=len(n.signal), sig=list(n.signal), cap=n.flow_capacity,
                                rem=n.flow_capacity_remain, lanes=n.number_of_lanes, inl=list(n.inlinks.keys()), outl=list(n.outlinks.keys()), x=n.x, y=n.y)
        s.living = list(W.VEHICLES_LIVING.keys())
        s.running = list(W.VEHICLES_RUNNING.keys())
        return s
