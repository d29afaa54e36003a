"""C27: a copied / saved world continues like the original. C28: the same seed gives the same simulation."""
import copy, os, sys, tempfile, shutil
from contextlib import contextmanager
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from .scn import SC, nd, lk, vh, opts
from .dyn import make_sim
from .pieces import same_world, same_logs
from .thr import LOCAL


# ------------------------------------------------------------------ scenarios of the Python engine
def sc_taxi(ctx):
    """two taxis, two requests, random assignment"""
    K = 8
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 1), nd("c", 2)], links=[lk("ab", "a", "b", ctx.real("L0", 60, 99)), lk("bc", "b", "c", 60), lk("ca", "c", "a", ctx.real("L1", 60, 99))],
                vehicles=[vh("t0", "a", None, 0, mode="taxi"), vh("t1", "b", None, 0, mode="taxi"), vh("t2", "c", None, 0, mode="taxi")],
                requests=[("b", "c", ctx.real("q0", 0, 10)), ("c", "a", 5)]), K, {}


def sc_areas(ctx):
    """demand between areas and node lists, whose origins and destinations are drawn at random"""
    K = 6
    return dict(opts=opts(K), nodes=[nd("a"), nd("b", 0, 1), nd("m", 1), nd("d", 2), nd("e", 2, 1)],
                links=[lk("am", "a", "m", ctx.real("L0", 60, 99)), lk("bm", "b", "m", 80), lk("md", "m", "d", 130), lk("me", "m", "e", 60)], vehicles=[],
                demand=[("adddemand_nodes2nodes2", (["a", "b"], ["d", "e"], 0, 15, ctx.real("vol", 5, 14, grid=8))), ("adddemand_area2area2", (0, 0.5, 0.1, 2, 0.5, 1.2, 0, 10), dict(volume=5))]), K, {}


def sc_visit(ctx):
    """vehicles with several destinations and with link preferences on a grid"""
    K = 9
    return dict(opts=opts(K, duo_update_time=10, instantaneous_TT_timestep_interval=1), nodes=[nd("a"), nd("b", 1), nd("c", 1, 1), nd("d", 2)],
                links=[lk("ab", "a", "b", ctx.real("L0", 60, 99)), lk("ac", "a", "c", 70), lk("bd", "b", "d", 80), lk("cd", "c", "d", ctx.real("L1", 60, 99)), lk("bc", "b", "c", 50), lk("da", "d", "a", 60), lk("cb", "c", "b", 50)],
                vehicles=[vh("v0", "a", "d", 0, links_prefer=["ac", "ab", "bd", "cd"]), vh("v1", "a", "d", 0, links_avoid=["bd", "cb"]), vh("v2", "b", "d", 1, links_prefer=["bc", "bd"])]), K, {}


PYSC = {"taxi": sc_taxi, "areas": sc_areas, "visit": sc_visit}


def scenario(ctx, sc):
    return {**SC, **LOCAL, **PYSC}[sc](ctx)


def assign(W):
    if W.user_attribute.trip_requests:
        W.user_attribute.assign_trip_request_to_taxi()


def build(ctx, engine, spec):
    """a world of the scenario, taxi requests and aggregated demand included"""
    spec = dict(spec)
    req, dem = spec.pop("requests", None), spec.pop("demand", [])
    sim = make_sim(ctx, engine, spec)
    W = sim.W
    for d in dem:
        getattr(W, d[0])(*d[1], **(d[2] if len(d) > 2 else {}))
    if req:
        T = sys.modules["uxsim.TaxiHandler.TaxiHandler"]
        H = T.TaxiHandler_random(W)
        for o, d, t in req:
            H.add_trip_request(o, d, t)
        W.user_function = assign
        W.user_attribute = H
    return sim


@contextmanager
def taxi_patched(ctx, req, rng):
    if not req:
        yield
        return
    from .taxi import patched
    import uxsim.TaxiHandler
    pkg = sys.modules["uxsim.TaxiHandler"]
    keep = pkg.TaxiHandler
    with patched(ctx) as T:
        if rng is not None:
            T.random = rng
        pkg.TaxiHandler = T             # (the package attribute of this name is the class; dill would then pickle the patched module by value)
        try:
            yield
        finally:
            pkg.TaxiHandler = keep


def finish(W, act):
    while W.T < W.TSIZE:
        f = act.get(W.T)
        if f:
            f(W)
        W.exec_simulation(duration_t2=W.DELTAT)


def more(ctx, A, B, where):
    """the rest of what a user reads"""
    ctx.check(list(A.VEHICLES) == list(B.VEHICLES) and [n.name for n in A.NODES] == [n.name for n in B.NODES] and [l.name for l in A.LINKS] == [l.name for l in B.LINKS], "objects", where)
    for nm, v in A.VEHICLES.items():
        w = B.VEHICLES[nm]
        ctx.check(v.orig.name == w.orig.name and (v.dest.name if v.dest else None) == (w.dest.name if w.dest else None), "origins_and_destinations", f"{where} {nm}")
        r, q = v.traveled_route(include_arrival_time=True), w.traveled_route(include_arrival_time=True)
        ctx.check([l.name for l in r[0].links] == [l.name for l in q[0].links] and len(r[1]) == len(q[1]) and And(*[ctx.eq(x, y) for x, y in zip(r[1], q[1])]), "travelled_route", f"{where} {nm}")
    HA, HB = getattr(A, "user_attribute", None), getattr(B, "user_attribute", None)
    if HA is not None and hasattr(HA, "trip_requests_all"):
        for p, q in zip(HA.trip_requests_all, HB.trip_requests_all):
            ctx.check((p.taxi.name if p.taxi else None) == (q.taxi.name if q.taxi else None), "assigned_taxi", f"{where} {p.name}: {p.taxi and p.taxi.name} / {q.taxi and q.taxi.name}")
            for f in ("depart_time", "get_taxi_time", "arrival_time"):
                x, y = getattr(p, f, None), getattr(q, f, None)
                ctx.check((x is None) == (y is None) and (x is None or ctx.eq(x, y)), "request_" + f, f"{where} {p.name}: {x} / {y}")
    a, b = A.analyzer, B.analyzer
    a.basic_analysis(), b.basic_analysis()
    for f in ("trip_all", "trip_completed", "total_travel_time", "total_delay"):
        x, y = getattr(a, f), getattr(b, f)
        ctx.check(ctx.eq(x, y), "statistics", f"{where} {f}: {x} / {y}")


# ------------------------------------------------------------------ C27
def alias(sim, W):
    s = copy.copy(sim)
    s.W = W
    return s


def private(ctx, A, B, where):
    """the copy shares no simulated object with the original"""
    ids = {id(o) for o in list(A.VEHICLES.values()) + A.LINKS + A.NODES} | {id(l.vehicles) for l in A.LINKS} | {id(n.generation_queue) for n in A.NODES} | {id(A), id(A.VEHICLES), id(A.LINKS), id(A.NODES)}
    objs = list(B.VEHICLES.values()) + B.LINKS + B.NODES
    ctx.check(not any(id(o) in ids for o in objs + [B, B.VEHICLES, B.LINKS, B.NODES] + [l.vehicles for l in B.LINKS] + [n.generation_queue for n in B.NODES]), "copy_is_separate", where)
    for o in objs:
        ctx.check(o.W is B, "copy_refers_to_itself", f"{where}: {getattr(o, 'name', o)}")
    names = {id(o) for o in objs}
    for l in B.LINKS:
        ctx.check(id(l.start_node) in names and id(l.end_node) in names and all(id(v) in names for v in l.vehicles), "copy_refers_to_itself", f"{where}: {l.name}")


def copied(ctx, engine="py", sc="line", det=True, how="copy", ks=None):
    from symx import pyuxsim as P
    spec, K, act = scenario(ctx, sc)
    tape = P.Tape(P.CtxRef(ctx))
    spec["opts"] = dict(spec["opts"], hard_deterministic_mode=det)
    spec["tape"] = tape
    ks = ks or [0, 1, 3, 5, K]
    k = ks[ctx.pick("moment", len(ks))]
    with taxi_patched(ctx, spec.get("requests"), ModuleRandom(P.CtxRef(ctx), 0)):
        A = build(ctx, engine, spec)
        if k > 0:
            A.start()
            while A.W.T < min(k, A.W.TSIZE):
                f = act.get(A.W.T)
                if f:
                    f(A.W)
                A.W.exec_simulation(duration_t2=A.W.DELTAT)
        before = A.snap() if k else None
        if how == "copy":
            W2 = A.W.copy()
        else:
            d = tempfile.mkdtemp(prefix="symxsave")
            try:
                A.W.save(os.path.join(d, "w"))
                import dill
                with open(os.path.join(d, "w.pkl"), "rb") as f:
                    W2 = dill.load(f)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        B = alias(A, W2)
        where = f"{how} at step {k}"
        private(ctx, A.W, W2, where)
        if k:
            same_world(ctx, before, B.snap(), where + " at once", False)
            same_logs(ctx, A.W, W2, where + " at once")
        first, second = (A, B) if ctx.pick("first", 2) else (B, A)
        if not k:
            first.start()
        finish(first.W, act)
        if k:
            same_world(ctx, before, second.snap(), where + ": one continued, the other one unchanged", False)
        else:
            ctx.check(not second.W.finalized, "copy_is_separate", where)
            second.start()
        finish(second.W, act)
        same_world(ctx, A.snap(), B.snap(), where + " at the end", False)
        same_logs(ctx, A.W, W2, where)
        more(ctx, A.W, W2, where)


# ------------------------------------------------------------------ C28
class ModuleRandom:
    """Python's global `random` module: one state shared by everything in the process"""

    def __init__(self, ctx, boot):
        self.ctx, self.boot = ctx, boot
        self.state = None
        self._r = self.Random(("process", boot))

    def Random(self, seed=None):
        from symx import pyuxsim as P
        if seed is None:
            self.boot = (self.boot, 1)
            seed = ("fresh", self.boot)
        return Generator(P.EnvRng(P.KeyedRng(self.ctx, ("random", seed))))

    def seed(self, s=None):
        self._r = self.Random(s)

    def __getattr__(self, k):
        return getattr(self._r, k)


class Generator:
    def __init__(self, e):
        self.e = e

    def shuffle(self, l):
        self.e.shuffle(l)

    def choice(self, l):
        return self.e.choice(list(l))

    def random(self):
        return self.e.uniform(0.0, 1.0)

    def uniform(self, a, b):
        return self.e.uniform(a, b)

    def randint(self, a, b):
        return self.e.integers(a, b + 1)

    def getrandbits(self, n):
        return self.e.integers(0, 2)

    def sample(self, l, k):
        l = list(l)
        self.e.shuffle(l)
        return l[:k]


class NpRandom:
    """numpy.random: generators made from a seed draw the same (arbitrary) values; the legacy functions share one state"""

    def __init__(self, ctx, mod):
        self.ctx, self.mod = ctx, mod

    def default_rng(self, seed=None):
        from symx import pyuxsim as P
        return P.EnvRng(P.KeyedRng(self.ctx, None if seed is None else ("numpy", seed)))

    def __getattr__(self, k):
        return getattr(self.mod._r.e, k)


class NpProxy:
    def __init__(self, base, rnd):
        self.__dict__["_base"], self.__dict__["random"] = base, rnd

    def __getattr__(self, k):
        return getattr(self._base, k)


class OrderedSet(set):
    """a set whose iteration order is one the language allows: ascending or descending creation order of the objects"""
    sign = 1
    count = {}

    def _l(self):
        l = list(set.__iter__(self))
        try:
            l.sort(key=_serial)
        except TypeError:
            l.sort(key=str)
        return l if OrderedSet.sign > 0 else l[::-1]

    def __iter__(self):
        return iter(self._l())

    def pop(self):
        x = self._l()[0]
        self.remove(x)
        return x

    def _op(name):
        def f(self, *o):
            r = getattr(set, name)(self, *o)
            return OrderedSet(r) if isinstance(r, set) else r
        return f
    for _n in ("__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__", "union", "intersection", "difference", "symmetric_difference", "copy"):
        locals()[_n] = _op(_n)
    del _n, _op


def _serial(o):
    return (str(getattr(o, "name", o)), getattr(o, "id", 0))


@contextmanager
def process(ctx, engine, flip):
    """the environment of one run: iteration order of sets, clock, state of the global generators"""
    from symx import pyuxsim as P
    import uxsim.TaxiHandler
    mods = [P.U, sys.modules["uxsim.TaxiHandler.TaxiHandler"]]
    if engine == "cpp":
        from symx import cppuxsim as C
        mods.append(C.WR)
    mr = ModuleRandom(ctx, flip)
    OrderedSet.sign = -1 if flip else 1
    saved = []
    n = [0]
    clock = type("Clock", (), dict(time=staticmethod(lambda: n.__setitem__(0, n[0] + 1) or (1e9 + 7.25 * n[0] if flip else 0.5 * n[0])), perf_counter=staticmethod(lambda: n[0]), sleep=staticmethod(lambda *a: None)))
    for m in mods:
        d = m.__dict__
        for k in ("np", "random", "set", "time"):
            saved.append((d, k, d.get(k, saved)))
        d["np"] = NpProxy(d["np"], NpRandom(ctx, mr)) if "np" in d else None
        if "random" in d:
            d["random"] = mr
        if "time" in d:
            d["time"] = clock
        d["set"] = OrderedSet
    try:
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is saved:
                d.pop(k, None)
            else:
                d[k] = v


def other(ctx, engine, seed):
    """another simulation living in the same process"""
    return build(ctx, engine, dict(opts=opts(6, random_seed=seed), tape="seed", nodes=[nd("a"), nd("b", 1), nd("c", 1, 1), nd("d", 2)], links=[lk("ab", "a", "b", 60), lk("ac", "a", "c", 60), lk("bd", "b", "d", 70), lk("cd", "c", "d", 70)],
                                   vehicles=[vh("v0", "a", "d", 0), vh("v1", "a", "d", 0), vh("v2", "b", "d", 0)]))


def other_taxi(ctx, engine):
    return build(ctx, engine, dict(opts=opts(6, random_seed=7), tape="seed", nodes=[nd("a"), nd("b", 1)], links=[lk("ab", "a", "b", 60), lk("ba", "b", "a", 60)],
                                   vehicles=[vh("t0", "a", None, 0, mode="taxi"), vh("t1", "a", None, 0, mode="taxi")], requests=[("b", "a", 0), ("a", "b", 5)]))


def seeded(ctx, engine="py", sc="line", det=False, build="", company=True):
    from symx import pyuxsim as P
    mk = globals()["build"]
    if build == "omp":
        from .thr import omp
        omp().load()
    spec, K, act = scenario(ctx, sc)
    spec["opts"] = dict(spec["opts"], hard_deterministic_mode=det, random_seed=3)
    spec["tape"] = "seed"
    sims = []
    if company == "taxi":
        from .taxi import patched
        cm = patched(ctx)
    else:
        cm = taxi_patched(ctx, spec.get("requests"), None)
    with cm:
        for run in range(2):
            with process(ctx, engine, run):
                if P.SYM and engine == "py":
                    pass
                S1 = mk(ctx, engine, spec)
                W = S1.W
                O = (other_taxi if company == "taxi" else other)(ctx, engine, *([] if company == "taxi" else [5])) if company and run else None
                S1.start()
                if O is not None:
                    O.start()
                while W.T < W.TSIZE:
                    f = act.get(W.T)
                    if f:
                        f(W)
                    W.exec_simulation(duration_t2=W.DELTAT)
                    if O is not None and O.W.T < O.W.TSIZE:
                        O.W.exec_simulation(duration_t2=O.W.DELTAT)
                sims.append(S1)
        A, B = sims
        where = f"{sc} run twice with the same seed"
        same_world(ctx, A.snap(), B.snap(), where)
        same_logs(ctx, A.W, B.W, where)
        more(ctx, A.W, B.W, where)


PYF = ["uxsim.uxsim:World.copy", "uxsim.uxsim:World.save", "uxsim.uxsim:World.exec_simulation"]
ALLF = ["uxsim.uxsim:World.__init__", "uxsim.uxsim:Node.transfer", "uxsim.uxsim:Node.generate", "uxsim.uxsim:Vehicle.route_next_link_choice", "uxsim.uxsim:World.adddemand_area2area2", "uxsim.uxsim:World.adddemand_nodes2nodes2", "uxsim.TaxiHandler.TaxiHandler:TaxiHandler_random.assign_trip_request_to_taxi"]
CPF = ["uxsim/trafficpp/traffi.cpp:World::main_loop", "uxsim/trafficpp/utils.h:make_entity_rng", "uxsim/trafficpp/utils.h:random_choice", "uxsim.uxsim_cpp_wrapper:World._ensure_cpp_world"]


def c27(tier):
    q = tier == "quick"
    js = []
    for s in list(SC) + list(PYSC):
        for how in (("copy",) if q and s not in ("merge", "taxi", "diverge") else ("copy", "save")):
            for det in ((True,) if q and s not in ("merge", "diverge", "areas", "visit") else (True, False)):
                js.append(Job("checks.repro", "copied", dict(engine="py", sc=s, det=det, how=how), PYF, bounds=f"scenario {s} (checks/scn.py, checks/repro.py), 6-12 steps; {how} before the start or after 1, 3, 5 or all steps; either of the two continued first; {'deterministic mode' if det else 'arbitrary random draws, continued alike'}"))
    return dict(jobs=js, stubs=["symbolic values, the random environment and the path context are pickled by value or by reference"], assumptions=["a reference of a vehicle to the row of the router's preferences is not followed (vehicles refresh it before every use)"])


def c28(tier):
    q = tier == "quick"
    js = []
    for s in list(SC) + list(PYSC):
        if q and s in ("orderdep", "mix"):
            continue
        js.append(Job("checks.repro", "seeded", dict(engine="py", sc=s, det=False), ALLF, bounds=f"scenario {s}: 4-12 steps, two runs with the same seed: arbitrary draws per seed, reversed set iteration order, another clock and another simulation alternating with the second run"))
    js.append(Job("checks.repro", "seeded", dict(engine="py", sc="taxi", det=False, company="taxi"), ALLF, bounds="random taxi assignment; another simulation with taxis alternating with the second run"))
    for s in list(SC) + list(LOCAL):
        if s.startswith("broken") or q and s in ("orderdep", "mix"):
            continue
        js.append(Job("checks.repro", "seeded", dict(engine="cpp", sc=s, det=False, build="omp"), CPF, bounds=f"C++ engine, scenario {s}: two runs with the same seed (draws are a function of the generators' states), another simulation alternating with the second run"))
    return dict(jobs=js, stubs=["numpy.random.default_rng / random -> generators whose n-th draw is an arbitrary function of the seed", "set -> set with ascending or descending iteration order", "time -> two different clocks"])


CHECKS = {"C27": c27, "C28": c28}
