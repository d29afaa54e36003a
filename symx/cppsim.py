"""C++-engine adapter with the interface of PySim: build a scenario through the repo's wrapper, inject a state, step, snapshot."""
from types import SimpleNamespace as NS
from . import cppuxsim as C, pyuxsim as P
from .core import S, And, Or

STATE = {0: "home", 1: "wait", 2: "run", 3: "end", 4: "abort"}


class CppSim:
    engine = "cpp"

    def __init__(self, ctx, spec):
        self.ctx = ctx
        self.spec = spec
        o = dict(spec.get("opts", {}))
        o.setdefault("tmax", 1000)
        o.setdefault("duo_update_time", 10 ** 6)
        o.setdefault("instantaneous_TT_timestep_interval", 10 ** 6)
        W = self.W = C.new_world(ctx, tape=spec.get('tape'), **o)
        self.X = C.X
        for n in spec["nodes"]:
            n = dict(n)
            W.addNode(n.pop("name"), n.pop("x", 0), n.pop("y", 0), **n)
        for l in spec["links"]:
            l = dict(l)
            W.addLink(l.pop("name"), l.pop("a"), l.pop("b"), **l)
        self.mode, self.route, self.prefer, self.avoid = {}, {}, {}, {}
        for v in spec.get("vehicles", []):
            self.add_vehicle(v)
        self.D = W.DELTAT
        self.N = W.DELTAN

    @property
    def w(self):
        return self.W._cpp_world

    def add_vehicle(self, v):
        v = dict(v)
        route = v.pop("route", None)
        prefer = v.pop("links_prefer", None)
        avoid = v.pop("links_avoid", None)
        name = v.pop("name")
        veh = self.W.addVehicle(v.pop("orig"), v.pop("dest"), v.pop("dep"), name=name, departure_time_is_time_step=v.pop("steps", 1), **v)
        if route is not None:
            veh.enforce_route(route)
        if prefer is not None:
            veh.set_links_prefer(prefer)
        if avoid is not None:
            veh.set_links_avoid(avoid)

        self.route[name] = list(route) if route else None
        self.prefer[name] = list(prefer or route or [])
        self.avoid[name] = list(avoid or [])
        return veh

    def start(self):
        self.W.finalize_scenario()

    def run_to_step(self, k):
        W = self.W
        if not W.finalized:
            W.finalize_scenario()
        while W.T < k:
            W.exec_simulation(duration_t2=W.DELTAT)

    def step(self):
        self.W.exec_simulation(duration_t2=self.W.DELTAT)

    def node(self, n):
        return self.W.get_node(n)

    def link(self, l):
        return self.W.get_link(l)

    def veh(self, v):
        return self.W.VEHICLES[v]

    def _vid(self, name):
        return self.W.VEHICLES[name]._cpp_vehicle.id

    def put_queue(self, node, vehs):
        self.X.put_queue(self.w, self.node(node)._cpp_node.id, [self._vid(n) for n in vehs])

    def put_link(self, link, items, lane0=0, arrived=0, departed=0):
        l = self.link(link)
        L = l.length
        for it in items:
            # the C++ engine identifies positions closer than 1e-9 to the link end with the end
            self.ctx.assume(And(it["x0"] >= 0.001, it["x"] >= 0.001))
            if it.get("over") is not None:
                self.ctx.assume(it["over"] >= 0.001)
            else:
                self.ctx.assume(Or(it["x"] == L, it["x"] <= L - 0.001))
        self.X.put_link(self.w, l._cpp_link.id, [self._vid(i["name"]) for i in items], [i["x0"] for i in items], [i["x"] for i in items], [i.get("v", l.u) for i in items],
                        [i.get("t_in", 0) for i in items], [i.get("over") for i in items], int(lane0), arrived)

    def finish(self, order=None):
        self.X.finish(self.w)
        self.W._sync_from_cpp()

    def set_caps(self, link, cin=None, cout=None):
        self.X.set_caps(self.w, self.link(link)._cpp_link.id, cin, cout)

    def set_node(self, node, rem=None, phase=None, t=None):
        n = self.node(node)._cpp_node
        if rem is not None:
            n.flow_capacity_remain = rem
        if phase is not None:
            n.signal_phase = phase
        if t is not None:
            n.signal_t = t

    def set_route_pref(self, dest, pref):
        d = self.node(dest)._cpp_node.id
        for k, v in pref.items():
            self.X.set_pref(self.w, d, self.link(k)._cpp_link.id, v)

    def set_prefs_to_vehicles(self):
        pass

    def snap(self):
        W, w, X = self.W, self.w, self.X
        D = W.DELTAT
        T = w.timestep
        s = NS(T=T, veh={}, link={}, node={}, D=D, N=W.DELTAN, engine="cpp")
        lname = [l.name for l in W.LINKS]
        nname = [n.name for n in W.NODES]
        name_of = {v._cpp_vehicle.id: k for k, v in W.VEHICLES.items()}
        prefs = {}
        for nm, pv in W.VEHICLES.items():
            i = pv._cpp_vehicle.id
            given = lambda f, old: [l.name for l in pv.__dict__[f]] if pv.__dict__.get(f) else old  # changed while running
            st, ln, x, x0, v, lane, dep, arr, tt, t_in, nx, ab, leader, ta, o, d, dist = X.veh(w, i)
            if d not in prefs:
                prefs[d] = {lname[k]: p for k, p in enumerate(X.prefs(w, d))} if W.finalized else None
            fin = st in (3, 4)
            s.veh[nm] = NS(name=nm, state=STATE[st], link=lname[ln] if ln >= 0 else None, x=x, x0=x0, v=v, lane=lane, dep=dep / D, arr=(arr / D if not (isinstance(arr, float) and arr == -1.0) else -1), tt=tt,
                           t_in=t_in, orig=nname[o], dest=nname[d], next=lname[nx] if nx >= 0 else None, mode="single_trip", trip_abort=ta, prefer=given("links_prefer", self.prefer.get(nm, [])), avoid=given("links_avoid", self.avoid.get(nm, [])),
                           route=given("specified_route", self.route.get(nm)), leader=name_of[leader] if leader >= 0 else None, traveled=[(0, lname[k]) for k in X.logged(w, i)], pref=prefs[d], dist=dist)
        for l in W.LINKS:
            c = l._cpp_link
            s.link[l.name] = NS(name=l.name, a=l.start_node.name, b=l.end_node.name, L=c.length, u=c.u, kappa=c.kappa, lanes=c.number_of_lanes, delta_pl=c.delta_per_lane,
                                vehs=[name_of[k] for k in X.vehs(w, c.id)], cin=c.capacity_in, cout=c.capacity_out, cin_rem=c.capacity_in_remain, cout_rem=c.capacity_out_remain,
                                prio=c.merge_priority, sg=list(c.signal_group), carr=list(c.get_cum_arrival_np())[:T], cdep=list(c.get_cum_departure_np())[:T],
                                tta=list(c.get_traveltime_actual_np()), tti=list(c.get_traveltime_instant_np())[:T])
        for n in W.NODES:
            c = n._cpp_node
            cap = c.flow_capacity
            s.node[n.name] = NS(name=n.name, q=[name_of[k] for k in X.queue(w, c.id)], phase=c.signal_phase, sig_t=c.signal_t, nphase=len(c.signal_intervals), sig=list(c.signal_intervals),
                                cap=None if (not isinstance(cap, S) and cap < 0) else cap, rem=c.flow_capacity_remain, lanes=c.number_of_lanes if c.number_of_lanes > 0 else 1,
                                inl=list(n.inlinks.keys()), outl=list(n.outlinks.keys()), x=c.x, y=c.y)
        s.living = [name_of[k] for k in X.living(w)]
        s.running = [name_of[k] for k in X.running(w)]
        return s
