"""C20: taxis and their trip requests (Python engine; the C++ engine does not support taxis)."""
import math
from contextlib import contextmanager
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from .dyn import make_sim
from .scn import nd, lk


class SqrtOf:
    """square root of a symbolic real, compared through its square"""

    def __init__(self, q):
        self.q = q

    def _o(self, o):
        if isinstance(o, SqrtOf):
            return o.q, True
        if not isinstance(o, S) and math.isinf(o):
            return o, True
        return (o * o, True) if (bool(o >= 0) if isinstance(o, S) else o >= 0) else (None, False)

    def __le__(self, o):
        q, ok = self._o(o)
        return self.q <= q if ok else False

    def __lt__(self, o):
        q, ok = self._o(o)
        return self.q < q if ok else False

    def __ge__(self, o):
        q, ok = self._o(o)
        return self.q >= q if ok else True

    def __gt__(self, o):
        q, ok = self._o(o)
        return self.q > q if ok else True

    def __eq__(self, o):
        q, ok = self._o(o)
        return self.q == q if ok else False

    def __mul__(self, o):
        if isinstance(o, SqrtOf) and o is self:
            return self.q
        return self.q.sqrt() * o

    __rmul__ = __mul__

    def __pow__(self, n):
        return self.q if n == 2 else self.q.sqrt() ** n

    def __add__(self, o):
        return self.q.sqrt() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.q.sqrt() - o

    def __hash__(self):
        return hash(("sqrt", str(self.q)))


class MathShim:
    def __getattr__(self, k):
        return getattr(math, k)

    @staticmethod
    def sqrt(q):
        return SqrtOf(q) if isinstance(q, S) else math.sqrt(q)

    @staticmethod
    def hypot(a, b):
        return MathShim.sqrt(a * a + b * b) if isinstance(a, S) or isinstance(b, S) else math.hypot(a, b)

    @staticmethod
    def dist(p, q):
        return MathShim.hypot(p[0] - q[0], p[1] - q[1])


@contextmanager
def patched(ctx):
    from symx import pyuxsim as P
    import sys, uxsim.TaxiHandler
    T = sys.modules["uxsim.TaxiHandler.TaxiHandler"]
    old = dict(T.__dict__)
    rng = P.EnvRng(ctx)

    class Rnd:
        seed = staticmethod(lambda *a: None)
        shuffle = staticmethod(rng.shuffle)
        choice = staticmethod(lambda x: rng.choice(x))
        random = staticmethod(lambda: 0.5)
        randint = staticmethod(lambda a, b: a + ctx.pick("ri", b - a + 1))

        @staticmethod
        def sample(x, k):
            l = list(x)
            rng.shuffle(l)
            return l[:k]
    Rnd.Random = staticmethod(lambda *a: Rnd)
    T.random = Rnd
    if P.SYM:
        T.math = MathShim()
        P.patch(T)
    try:
        yield T
    finally:
        for k in list(T.__dict__):
            if k not in old:
                del T.__dict__[k]
        T.__dict__.update(old)


def make_handler(T, W, kind, radius=None):
    if kind == "random":
        return T.TaxiHandler_random(W)
    if kind == "nearest":
        return T.TaxiHandler_nearest(W)
    return T.TaxiHandler_nearest_matching_radious(W, radius)


def vacant(W):
    return [v for v in W.VEHICLES.values() if v.mode == "taxi" and v.state == "run" and v.dest is None]


def pos(v):
    """position of a vehicle on the map"""
    a, b = v.link.start_node, v.link.end_node
    f = v.x / v.link.length
    return a.x + (b.x - a.x) * f, a.y + (b.y - a.y) * f


def d2(v, n):
    x, y = pos(v)
    return (x - n.x) * (x - n.x) + (y - n.y) * (y - n.y)


def round_(ctx, H, W, kind, radius, now):
    """one call of the handler and what it must have done"""
    vac = vacant(W)
    occ = {v.name: (v.dest, list(v.dest_list)) for v in W.VEHICLES.values() if v not in vac}
    open_ = list(H.trip_requests)
    where0 = {v.name: v.dest for v in vac}
    H.assign_trip_request_to_taxi()
    left = list(H.trip_requests)
    new = [r for r in open_ if r not in left]
    where = f"t={now} vacant {[v.name for v in vac]} assigned {[(r.name, r.taxi.name if r.taxi else None) for r in new]} left {[r.name for r in left]}"
    ctx.check(left == [r for r in open_ if r in left], "requests_stay_in_order", where)
    ctx.check(len({id(r.taxi) for r in new}) == len(new), "one_request_per_taxi", where)
    free = list(vac)
    for r in open_:
        due = r.depart_time <= now
        if r in new:
            ctx.check(due, "assigned_only_when_due", where)
            ctx.check(r.taxi in free, "assigned_taxi_is_vacant", where)
            if r.taxi not in free:
                continue
            if kind != "random":
                d = d2(r.taxi, r.orig)
                for o in free:
                    if o is not r.taxi:
                        ctx.check(d <= d2(o, r.orig) + 1e-9, "nearest_taxi", f"{where}: request {r.name}, {o.name} is closer than {r.taxi.name}")
                if kind == "radius":
                    ctx.check(d <= radius * radius + 1e-9, "within_radius", where)
            free.remove(r.taxi)
            ctx.check(r.taxi.dest is r.orig and r.taxi.dest_list == [], "taxi_goes_to_origin", where)
        else:
            ctx.check(r.taxi is None, "unassigned_has_no_taxi", where)
            if kind == "radius":
                for o in free:
                    ctx.check(Not(And(due, d2(o, r.orig) <= radius * radius - 1e-9)), "due_request_assigned", f"{where}: request {r.name}, taxi {o.name}")
            elif free:
                ctx.check(Not(due), "due_request_assigned", f"{where}: request {r.name}")
    for v in free:
        ctx.check(v.dest is where0[v.name], "unassigned_taxi_stays_vacant", where)
    for nm, (d, l) in occ.items():
        v = W.VEHICLES[nm]
        ctx.check(v.dest is d and v.dest_list == l, "occupied_taxi_untouched", f"{where}: {nm}")
    return new


def assign(ctx, engine="py", kind="nearest", n=2, two_d=True):
    """the handler's choice for arbitrary positions and departure times"""
    with patched(ctx) as T:
        K = 6
        q0 = (ctx.real("ox", -150, 350), ctx.real("oy", -60, 60) if two_d else 0)
        q1 = (ctx.real("px", -150, 350), 10)
        nodes = [nd("a", 0, 0), nd("b", 100, 0), nd("c", 200, 40), nd("o", *q0), nd("p", *q1)]
        links = [lk("ab", "a", "b", 150), lk("bc", "b", "c", 150), lk("cb", "c", "b", 150), lk("ba", "b", "a", 150), lk("co", "c", "o", 150), lk("op", "o", "p", 150), lk("pa", "p", "a", 150)]
        veh = [dict(name="t0", orig="a", dest=None, dep=0, mode="taxi"), dict(name="t1", orig="b", dest=None, dep=0, mode="taxi"), dict(name="t2", orig="c", dest=None, dep=0, mode="taxi"),
               dict(name="busy", orig="a", dest="c", dep=0, mode="taxi"), dict(name="car", orig="a", dest="c", dep=0), dict(name="off", orig="a", dest=None, dep=5, mode="taxi")]
        sim = make_sim(ctx, "py", dict(opts=dict(deltan=5, reaction_time=1, tmax=5.0 * (K + 3)), nodes=nodes, links=links, vehicles=[v for v in veh if v["name"] not in ("t0", "t1", "t2")[n:]]))
        sim.run_to_step(1)
        W = sim.W
        sim.put_link("ab", [dict(name="t0", x0=40, x=60)])
        if n > 1:
            sim.put_link("bc", [dict(name="t1", x0=20, x=75)])
        if n > 2:
            sim.put_link("cb", [dict(name="t2", x0=0, x=15)])
        sim.put_link("ba", [dict(name="busy", x0=20, x=75), dict(name="car", x0=0, x=15)])
        sim.set_prefs_to_vehicles()
        sim.finish()
        radius = ctx.real("radius", 0, 250) if kind == "radius" else None
        H = make_handler(T, W, kind, radius)
        dep = [ctx.real("d0", 0, 12), ctx.real("d1", 0, 12), 0]
        H.add_trip_request("o", "a", dep[0])
        H.add_trip_request(W.get_node("p"), "b", dep[1])
        H.add_trip_request("o", W.get_node("c"), dep[2], name="last", attribute="A")
        ctx.check(len({r.name for r in H.trip_requests_all}) == 3, "request_names", f"{[r.name for r in H.trip_requests_all]}")
        for i, r in enumerate(list(H.trip_requests_all)):
            ctx.check(H.get_trip(r) is r and H.get_trip(r.name) is r, "get_trip", f"{r}")
            ctx.check(r.get_taxi_time is None and r.arrival_time is None and r.taxi is None, "new_request", f"{r}")
            ctx.check((r.orig.name, r.dest.name) == (("o", "a"), ("p", "b"), ("o", "c"))[i] and bool(r.depart_time == dep[i]), "request_as_defined", f"{r}")
        ctx.check(H.get_trip("last").attribute == "A", "request_attribute", "")
        done = []
        for i in range(2):
            W.TIME = now = ctx.pickv("now", [5.0, 10.0]) if i == 0 else 12.0
            new = round_(ctx, H, W, kind, radius, now)
            for r in new:
                ctx.check(r not in done, "assigned_once", f"{r}")
            done += new


def dists(ctx):
    return ctx.real("L0", 110, 180), ctx.real("L1", 60, 99)


def serve(ctx, engine="py", kind="nearest", K=10, case=0, stats=False):
    """requests served over several time steps"""
    with patched(ctx) as T:
        L0, L1 = dists(ctx)
        cases = [
            # taxis, requests (orig, dest, depart), network extra
            (["a"], [("b", "c", ctx.real("d0", 0, 11))]),
            (["a", "c"], [("b", "c", ctx.real("d0", 0, 11)), ("c", "a", 0)]),
            (["a"], [("b", "b", ctx.real("d0", 0, 11)), ("c", "b", 0)]),
            (["a", "a"], [("b", "c", 0), ("b", "a", ctx.real("d0", 0, 11))]),
            (["b"], [("a", "b", 0), ("b", "a", 3), ("a", "c", 3)]),
        ]
        taxis, reqs = cases[case]
        spec = dict(opts=dict(deltan=5, reaction_time=1, tmax=5.0 * (K + 2)), nodes=[nd("a"), nd("b", 100), nd("c", 200)],
                    links=[lk("ab", "a", "b", L0), lk("ba", "b", "a", L0), lk("bc", "b", "c", L1), lk("cb", "c", "b", L1)],
                    vehicles=[dict(name=f"t{i}", orig=o, dest=None, dep=0, mode="taxi") for i, o in enumerate(taxis)])
        sim = make_sim(ctx, "py", spec)
        W = sim.W
        H = make_handler(T, W, kind, ctx.real("radius", 50, 250) if kind == "radius" else None)
        for o, d, t in reqs:
            H.add_trip_request(o, d, t)
        sim.start()
        watch(ctx, sim, H, kind, K)
        summary(ctx, W, H)


def at_node(v, n):
    return v.link is not None and v.link.end_node is n and bool(v.x == v.link.length)


def watch(ctx, sim, H, kind, K):
    W = sim.W
    rec = {r.name: NSr(r) for r in H.trip_requests_all}
    for k in range(K):
        before = {r.name: (r.get_taxi_time, r.arrival_time, r.taxi) for r in H.trip_requests_all}
        sim.step()
        t = k * sim.D
        for r in H.trip_requests_all:
            q = rec[r.name]
            g0, a0, x0 = before[r.name]
            where = f"step {k} request {r.name} {r.orig.name}->{r.dest.name} due {r.depart_time}: boarded {r.get_taxi_time} arrived {r.arrival_time} taxi {r.taxi and (r.taxi.name, r.taxi.link, r.taxi.x, r.taxi.dest, r.taxi.dest_list)}"
            ctx.check(r.taxi is x0, "taxi_fixed", where)
            if g0 is not None:
                ctx.check(ctx.eq(r.get_taxi_time, g0), "boards_once", where)
            elif r.get_taxi_time is not None:
                ctx.check(r.taxi is not None, "boards_assigned_taxi", where)
                if r.taxi is not None:
                    ctx.check(at_node(r.taxi, r.orig), "boards_at_origin", where)
                ctx.check(ctx.eq(r.get_taxi_time, t), "boarding_time", where)
                ctx.check(ctx.ge(r.get_taxi_time, r.depart_time), "boards_after_departure", where)
            elif r.taxi is not None:
                ctx.check(Not(at_node(r.taxi, r.orig)), "boards_when_reached", where)
            if a0 is not None:
                ctx.check(ctx.eq(r.arrival_time, a0), "arrives_once", where)
            elif r.arrival_time is not None:
                ctx.check(r.get_taxi_time is not None, "boarded_before_arrival", where)
                ctx.check(r.taxi is not None and at_node(r.taxi, r.dest), "arrives_at_destination", where)
                ctx.check(ctx.eq(r.arrival_time, t), "arrival_time", where)
                ctx.check(ctx.ge(r.arrival_time, r.get_taxi_time), "arrives_after_boarding", where)
                ctx.check(r.taxi.dest is None and r.taxi.dest_list == [], "vacant_after_arrival", where)
            elif r.get_taxi_time is not None:
                ctx.check(Not(at_node(r.taxi, r.dest)) if r.dest is not r.orig else False, "arrives_when_reached", where)
            if r.taxi is not None and r.arrival_time is None:
                ctx.check(r.taxi.dest is (r.orig if r.get_taxi_time is None else r.dest), "heads_to_origin_then_destination", where)
                q.wait += 1
                # without traffic every node can be reached from every position within 8 steps (two U-turns on the longest route)
                ctx.check(q.wait <= 18, "served_eventually", where)
        round_(ctx, H, W, kind, getattr(H, "matching_radious", None), (k + 1) * sim.D if False else W.TIME)


class NSr:
    def __init__(self, r):
        self.wait = 0


def summary(ctx, W, H):
    """statistics are the sums over the requests"""
    R = H.trip_requests_all
    done = [r for r in R if r.arrival_time is not None]
    got = [r for r in R if r.get_taxi_time is not None]
    avg = lambda l: sum(l) / len(l) if l else 0
    b = H.basic_to_pandas()
    col = lambda c: list(b[c])[0]
    where = f"{[(r.depart_time, r.get_taxi_time, r.arrival_time) for r in R]}"
    ctx.check(col("total_trips") == len(R) * W.DELTAN and col("completed_trips") == len(done) * W.DELTAN, "counts", f"{where} {b}")
    ctx.check(ctx.eq(col("average_waiting_time"), avg([r.get_taxi_time - r.depart_time for r in got])), "average_waiting_time", where)
    ctx.check(ctx.eq(col("average_invehicle_time"), avg([r.arrival_time - r.get_taxi_time for r in done])), "average_invehicle_time", where)
    ctx.check(ctx.eq(col("average_travel_time"), avg([r.arrival_time - r.depart_time for r in done])), "average_travel_time", where)
    ctx.check(H.number_of_taxis == W.DELTAN * len([v for v in W.VEHICLES.values() if v.mode == "taxi"]), "number_of_taxis", where)
    t = H.trips_to_pandas()
    ctx.check(len(t) == len(R), "one_row_per_request", where)
    none = lambda v: v is None or (not isinstance(v, S) and v != v)
    for i, r in enumerate(R):
        g = lambda c: list(t[c])[i]
        ctx.check(g("orig") == r.orig.name and g("dest") == r.dest.name and g("used_taxi") == (r.taxi.name if r.taxi else None) or (none(g("used_taxi")) and r.taxi is None), "row", where)
        for c, v in (("depart_time", r.depart_time), ("get_taxi_time", r.get_taxi_time), ("arrival_time", r.arrival_time),
                     ("travel_time", None if r.arrival_time is None else r.arrival_time - r.depart_time), ("waiting_time", None if r.get_taxi_time is None else r.get_taxi_time - r.depart_time)):
            ctx.check(none(g(c)) if v is None else (not none(g(c)) and ctx.eq(g(c), v)), "row_" + c, where)


def stats(ctx, engine="py", n=3):
    """statistics for arbitrary served requests"""
    with patched(ctx) as T:
        sim = make_sim(ctx, "py", dict(opts=dict(deltan=5, reaction_time=1, tmax=50), nodes=[nd("a"), nd("b", 100)], links=[lk("ab", "a", "b", 150), lk("ba", "b", "a", 150)],
                                       vehicles=[dict(name="t0", orig="a", dest=None, dep=0, mode="taxi"), dict(name="t1", orig="b", dest=None, dep=0, mode="taxi"), dict(name="car", orig="b", dest="a", dep=0)]))
        W = sim.W
        H = T.TaxiHandler_nearest(W)
        for i in range(n):
            d = ctx.real(f"d{i}", 0, 100)
            H.add_trip_request(*(("a", "b") if i % 2 else ("b", "a")), d)
            r = H.trip_requests_all[-1]
            st = ctx.pick(f"st{i}", 4)
            if st:
                r.taxi = W.VEHICLES[f"t{i % 2}"]
            if st > 1:
                r.get_taxi_time = d + ctx.real(f"w{i}", 0, 50)
            if st > 2:
                r.arrival_time = r.get_taxi_time + ctx.real(f"r{i}", 0, 50)
        summary(ctx, W, H)


def tour(ctx, engine="py", K=9, ins=False):
    """a taxi visits its destinations in the order of its list"""
    L0, L1 = dists(ctx)
    names = ["a", "b", "c"]
    lst = [names[ctx.pick(f"n{i}", 3)] for i in range(3)]
    spec = dict(opts=dict(deltan=5, reaction_time=1, tmax=5.0 * (K + 2)), nodes=[nd("a"), nd("b", 100), nd("c", 200)],
                links=[lk("ab", "a", "b", L0), lk("ba", "b", "a", L0), lk("bc", "b", "c", L1), lk("cb", "c", "b", L1)], vehicles=[dict(name="t", orig="a", dest=None, dep=0, mode="taxi")])
    sim = make_sim(ctx, "py", spec)
    W = sim.W
    v = W.VEHICLES["t"]
    sim.start()
    if ins:
        for x in lst[:2]:
            v.add_dest(x)
        pos_ = ctx.pick("pos", 2)
        v.add_dest(W.get_node(lst[2]), order=pos_)
        lst = [lst[0]] + (lst[1:2] + lst[2:] if pos_ == 1 else lst[2:] + lst[1:2])
    else:
        v.add_dests(lst)
    ctx.check(v.dest.name == lst[0] and [n.name for n in v.dest_list] == lst[1:], "destination_list", f"{lst}: {v.dest} {v.dest_list}")
    todo = list(lst)
    prev = None
    for k in range(K):
        sim.step()
        where = f"step {k} list {lst} todo {todo}: {v.link} {v.x} dest {v.dest} {v.dest_list}"
        ctx.check(v.state == ("wait" if k < 1 else "run"), "taxi_keeps_running", where)
        if v.link is not None and todo and at_node(v, W.get_node(todo[0])):
            while todo and at_node(v, W.get_node(todo[0])):
                todo.pop(0)
        exp = ([v.dest.name] if v.dest is not None else []) + [n.name for n in v.dest_list]
        ctx.check(exp == todo, "visited_in_order", where + f" expected {todo}")
        if prev is not None and v.link is not None and prev[0] is not None:
            l0, x0 = prev
            if v.link is l0:
                ctx.check(v.x >= x0 - 1e-6, "no_jump_back", where)
            else:
                ctx.check(And(l0.end_node is v.link.start_node, x0 == l0.length), "no_teleport", where)
        prev = (v.link, v.x) if v.link is not None else None


def pieces(ctx, engine="py", K=8):
    """boarding and arrival times do not depend on how the execution is split"""
    with patched(ctx) as T:
        L0, L1 = dists(ctx)
        out = []
        first = ctx.int("cut", 1, K - 3)
        for split in (False, True):
            spec = dict(opts=dict(deltan=5, reaction_time=1, tmax=5.0 * (K + 3)), nodes=[nd("a"), nd("b", 100), nd("c", 200)],
                        links=[lk("ab", "a", "b", L0), lk("bc", "b", "c", L1), lk("ca", "c", "a", 130)], vehicles=[dict(name="t", orig="a", dest=None, dep=0, mode="taxi")])
            sim = make_sim(ctx, "py", spec)
            W = sim.W
            H = T.TaxiHandler_nearest(W)
            H.add_trip_request("b", "c", 0)
            W.exec_simulation(duration_t2=2 * W.DELTAT)
            H.assign_trip_request_to_taxi()
            if split:
                W.exec_simulation(duration_t2=int(first) * W.DELTAT)
                W.exec_simulation(duration_t2=(K - 2 - int(first)) * W.DELTAT)
            else:
                W.exec_simulation(duration_t2=(K - 2) * W.DELTAT)
            r = H.trip_requests_all[0]
            out.append((r.taxi.name if r.taxi else None, r.get_taxi_time, r.arrival_time))
        a, b = out
        same = lambda x, y: (x is None) == (y is None) and (x is None or bool(ctx.eq(x, y)))
        ctx.check(a[0] == b[0] and same(a[1], b[1]) and same(a[2], b[2]), "same_times_when_split", f"{out}")


P_ = "uxsim.TaxiHandler.TaxiHandler:"


def c20(tier):
    q = tier == "quick"
    js = []
    fn = [P_ + "TaxiHandler.assign_taxi", P_ + "TaxiHandler.add_trip_request", P_ + "TaxiHandler.get_trip", "uxsim.uxsim:Vehicle.get_xy_coords", "uxsim.uxsim:Vehicle.add_dest"]
    for kind in ("nearest", "radius", "random"):
        cl = P_ + {"nearest": "TaxiHandler_nearest", "radius": "TaxiHandler_nearest_matching_radious", "random": "TaxiHandler_random"}[kind]
        for n in ((2, 3) if kind == "random" or not q else (2,)):
            js.append(Job("checks.taxi", "assign", dict(kind=kind, n=n, two_d=not q), [cl + ".assign_trip_request_to_taxi"] + fn, bounds=f"{n} vacant taxis, one occupied, one not departed, one car; 3 requests with symbolic departure times 0-12 s, symbolic origin coordinates{', symbolic radius 0-250' if kind == 'radius' else ''}; two rounds"))
        for case in range(5):
            js.append(Job("checks.taxi", "serve", dict(kind=kind, case=case, K=9 if q else 14), [cl + ".assign_trip_request_to_taxi", P_ + "TripRequest.get_on_taxi", P_ + "TripRequest.arrive_at_dest", "uxsim.uxsim:Vehicle.update"] + fn,
                          bounds=f"line network with symbolic lengths (110-180, 60-99), 1-2 taxis, 1-3 requests with symbolic departure time, {9 if q else 14} steps, handler called after every step, every route choice"))
    js.append(Job("checks.taxi", "stats", dict(n=2 if q else 4), [P_ + "TaxiHandler.compute_stats", P_ + "TaxiHandler.basic_to_pandas", P_ + "TaxiHandler.trips_to_pandas"], bounds="2-4 requests in any state with symbolic times"))
    for ins in (False, True):
        js.append(Job("checks.taxi", "tour", dict(ins=ins, K=9 if q else 14), ["uxsim.uxsim:Vehicle.add_dest", "uxsim.uxsim:Vehicle.add_dests", "uxsim.uxsim:Vehicle.update", "uxsim.uxsim:Vehicle.route_next_link_choice"], bounds="every list of three destinations, symbolic lengths, 9-14 steps"))
    js.append(Job("checks.taxi", "pieces", dict(K=8 if q else 12), ["uxsim.uxsim:World.simulation", P_ + "TripRequest.get_on_taxi"], bounds="8-12 steps cut at any step, symbolic lengths"))
    return dict(jobs=js, stubs=["random.shuffle in TaxiHandler -> every permutation", "math.sqrt in TaxiHandler -> comparison of squares"],
                assumptions=["one request per taxi at a time (the handlers assign vacant taxis only); manual assignment of several requests to one taxi is not covered", "Python engine only: the C++ engine rejects taxis"])


CHECKS = {"C20": c20}
