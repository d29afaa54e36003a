"""C22: the C++ engine with several threads: same results as with one thread, no data race, deterministic errors.

The engine is compiled with OpenMP and instrumented memory accesses against the run time symx/cpp/omp/omprt.cpp."""
import os, subprocess
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from . import scn
from .scn import SC, nd, lk, vh, opts
from .pieces import same_world, same_logs


def omp():
    from symx import cppuxsim as C
    C.want_omp()
    return C


def where_is(C, pc):
    """name of the engine's function around an instruction address"""
    if not pc:
        return "?"
    try:
        base = None
        for ln in open("/proc/self/maps"):
            if ln.rstrip().endswith(C.SO):
                base = int(ln.split("-")[0], 16)
                break
        r = subprocess.run(["addr2line", "-fCe", C.SO, hex(pc - base)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=20)
        return r.stdout.splitlines()[0].split("(")[0]
    except Exception:
        return hex(pc)


def no_race(ctx, C, n, where, parallel=True):
    reg, par, ep, acc, races, p0, p1, kind = C.X.rt_stats()
    if parallel and n > 1:
        ctx.check(par > 0, "threads_used", f"{where}: no parallel region was executed with {n} threads")
    info = f"{where}: {n} threads, {races} conflicting accesses"
    if races:
        info += f"; first: {kind} {where_is(C, p0)} / {where_is(C, p1)}"
    ctx.check(races == 0, "data_race", info)


def sc_corridors(ctx):
    """four independent roads with a crossing signal, one common destination, a node with random turning"""
    K = 7
    return dict(opts=opts(K, duo_update_time=10, instantaneous_TT_timestep_interval=1), nodes=[nd("a"), nd("b", 0, 1), nd("c", 0, 2), nd("m", 1, signal=[ctx.real("s0", 3, 14), 5], signal_offset=2), nd("n", 1, 1), nd("d", 2)],
                links=[lk("am", "a", "m", ctx.real("L0", 60, 99), signal_group=[0]), lk("bm", "b", "m", 65, signal_group=[1]), lk("cn", "c", "n", ctx.real("L1", 60, 99), number_of_lanes=2), lk("mn", "m", "n", 60), lk("md", "m", "d", 130), lk("nd", "n", "d", ctx.real("L2", 60, 99))],
                vehicles=[vh("v0", "a", "d", 0), vh("v1", "b", "d", 0), vh("v2", "c", "d", 0), vh("v3", "c", "d", 0), vh("v4", "a", "n", 1), vh("v5", "b", "n", 1)]), K, {}


def sc_broken(ctx):
    """routes that cannot be followed: errors arise at several nodes or links, possibly in the same step"""
    K = 6
    L = [ctx.real(f"L{i}", 60, 140) for i in range(3)]
    bad = ctx.pick("bad", 4)
    R = [["a0", "a2"] if bad & 1 else ["a0", "a1"], ["b0", "b2"] if bad & 2 else ["b0", "b1"], ["c0", "c2"] if bad == 3 else ["c0", "c1"]]
    return dict(opts=opts(K), nodes=[nd(k + str(i), i) for k in "xyz" for i in range(4)],
                links=[lk(p + str(i), q + str(i), q + str(i + 1), L["abc".index(p)]) for p, q in zip("abc", "xyz") for i in range(3)],
                vehicles=[vh("v" + str(i), "xyz"[i] + "0", "xyz"[i] + "2", 0, route=R[i]) for i in range(3)]), K, {}


def sc_broken_gen(ctx):
    """routes whose first link cannot be taken, at several origins in the same step"""
    K = 4
    dep = [ctx.int(f"dep{i}", 0, 1) for i in range(3)]
    return dict(opts=opts(K), nodes=[nd(k + str(i), i) for k in "xyz" for i in range(3)],
                links=[lk(p + str(i), q + str(i), q + str(i + 1), 80) for p, q in zip("abc", "xyz") for i in range(2)],
                vehicles=[vh("v" + str(i), "xyz"[i] + "0", "xyz"[i] + "2", dep[i], route=["abc"[i] + "1"]) for i in range(3)]), K, {}


LOCAL = {"corridors": sc_corridors, "broken": sc_broken, "broken_gen": sc_broken_gen}


def run_one(ctx, C, spec, n, order, how, act):
    from symx.cppsim import CppSim
    sim = CppSim(ctx, dict(spec, opts=dict(spec["opts"], threads=n)))
    C.X.rt_config(order, 3)
    err = None
    W = sim.W
    sim.start()
    TS = W.TSIZE
    snaps = []
    try:
        if how == "steps" or act:
            while W.T < TS:
                f = act.get(W.T)
                if f:
                    f(W)
                W.exec_simulation(duration_t2=W.DELTAT)
                if how == "steps":
                    snaps.append(sim.snap())
        else:
            W.exec_simulation()
        C.X.rt_raise()
    except Exception as e:
        if C.X.rt_pending() or "specified route" not in str(e):
            raise
        err = f"{type(e).__name__}: {e}"
    return sim, err, snaps


def threads(ctx, sc="corridors", n=2, det=False, how="all", engine="cpp", build="omp", orders=2):
    C = omp()
    spec, K, act = {**SC, **LOCAL}[sc](ctx)
    spec["opts"] = dict(spec["opts"], hard_deterministic_mode=det)
    order = ctx.pick("order", orders)
    A, ea, sa = run_one(ctx, C, spec, 1, 0, how, act)
    B, eb, sb = run_one(ctx, C, spec, n, order, how, act)
    no_race(ctx, C, n, sc)
    ctx.check(ea == eb, "same_error", f"{sc}: with 1 thread {ea} / with {n} threads {eb}")
    ctx.check(A.W.T == B.W.T, "same_time", f"{A.W.T} / {B.W.T}")
    for k, (p, q) in enumerate(zip(sa, sb)):
        same_world(ctx, p, q, f"1 / {n} threads, step {k}")
    same_world(ctx, A.snap(), B.snap(), f"1 / {n} threads")
    same_logs(ctx, A.W, B.W, f"1 / {n} threads")
    if ea is None:
        a, b = A.W.analyzer, B.W.analyzer
        a.basic_analysis(), b.basic_analysis()
        for f in ("trip_all", "trip_completed", "total_travel_time", "average_travel_time", "average_delay", "total_delay", "total_distance_traveled"):
            if hasattr(a, f):
                ctx.check(ctx.eq(getattr(a, f), getattr(b, f)), "statistics", f"{f}: {getattr(a, f)} / {getattr(b, f)}")
        w, v = A.w, B.w
        for f in ("ave_v", "ave_vratio", "trips_completed", "trips_total"):
            if hasattr(w, f):
                p, q = getattr(w, f), getattr(v, f)
                ctx.check(ctx.eq(p, q), "statistics", f"{f}: {p} / {q}")


def search(ctx, n=3, m=4, sym=6, engine="cpp", build="omp"):
    """shortest routes and route preferences for arbitrary link times"""
    C = omp()
    edges = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (2, 1), (3, 0), (3, 4), (4, 0)]
    edges = [(i, j) for i, j in edges if i < m and j < m]
    spec = dict(opts=opts(3, duo_update_weight=0.5), nodes=[nd(f"n{i}", i) for i in range(m)], links=[lk(f"l{i}{j}", f"n{i}", f"n{j}", ctx.real(f"L{i}{j}", 20, 200) if k < sym else 50 + 10 * k) for k, (i, j) in enumerate(edges)], vehicles=[vh("v", "n0", f"n{m-1}", 0)])
    order = ctx.pick("order", 2)
    grad = bool(ctx.pick("gradual", 2))
    out = []
    from symx.cppsim import CppSim
    for k, o in ((1, 0), (n, order)):
        sim = CppSim(ctx, dict(spec, opts=dict(spec["opts"], threads=k)))
        C.X.rt_config(o, 3)
        sim.start()
        w = sim.w
        C.X.route_search(w)
        C.X.duo(w, grad)
        d1 = ([[x for x in r] for r in w.route_dist], [list(r) for r in w.route_next], [list(C.X.prefs(w, i)) for i in range(m)])
        C.X.duo(w, grad)
        out.append(d1 + ([list(C.X.prefs(w, i)) for i in range(m)],))
    a, b = out
    no_race(ctx, C, n, "route search")
    for i in range(m):
        for j in range(m):
            p, q = a[0][i][j], b[0][i][j]
            ctx.check(p == q if not isinstance(p, S) and not isinstance(q, S) else ctx.eq(p, q), "route_cost", f"{i}->{j}: {p} / {q}")
        ctx.check(a[1][i] == b[1][i], "next_node", f"from {i}: {a[1][i]} / {b[1][i]}")
        for k in (2, 3):
            ctx.check(And(*[ctx.eq(x, y) for x, y in zip(a[k][i], b[k][i])]) and len(a[k][i]) == len(b[k][i]), "preferences", f"to {i}: {a[k][i]} / {b[k][i]}")


VALUES = [None, True, False, 1.0, 2.5, "2", "all", [2]]


def argument(ctx, engine="cpp", build="omp"):
    """which values of `threads` are accepted, and how many threads then work"""
    C = omp()
    from symx import pyuxsim as P
    if ctx.pick("kind", 2):
        v = VALUES[ctx.pick("value", len(VALUES))]
        ok = False
    else:
        v = ctx.pick("int", 9) - 3
        ok = v >= 1 or v == -1
    try:
        W = C.new_world(ctx, tmax=30, deltan=5, threads=v)
    except (ValueError, TypeError):
        ctx.check(not ok, "valid_value_refused", repr(v))
        return
    ctx.check(ok, "invalid_value_accepted", repr(v))
    if not ok:
        return
    mx = 1 + ctx.pick("cores", 4)
    for i in range(8):
        W.addNode(f"n{i}", i, 0)
    for i in range(7):
        W.addLink(f"l{i}", f"n{i}", f"n{i+1}", length=100)
    W.addVehicle("n0", "n7", 0)
    W.finalize_scenario()
    C.X.rt_config(0, mx)
    W.exec_simulation(duration_t2=5)
    par = C.X.rt_stats()[1]
    ctx.check((par > 0) == ((mx if v == -1 else v) > 1), "thread_number", f"threads={v}, {mx} cores: {par} parallel regions")
    ctx.check(C.X.rt_stats()[4] == 0, "data_race", f"threads={v}")


F = ["uxsim/trafficpp/traffi.cpp:World::main_loop", "uxsim/trafficpp/traffi.cpp:World::route_search_all", "uxsim/trafficpp/traffi.cpp:World::route_choice_duo", "uxsim/trafficpp/traffi.cpp:World::route_choice_duo_gradual", "uxsim/trafficpp/traffi.cpp:World::resolve_num_threads",
     "uxsim/trafficpp/traffi.cpp:Link::update", "uxsim/trafficpp/traffi.cpp:Node::generate", "uxsim/trafficpp/traffi.cpp:Node::transfer", "uxsim/trafficpp/traffi.cpp:Vehicle::update", "uxsim/trafficpp/traffi.cpp:Vehicle::end_trip", "uxsim/trafficpp/traffi.cpp:Vehicle::log_data", "uxsim/trafficpp/traffi.cpp:Vehicle::route_next_link_choice", "uxsim.uxsim_cpp_wrapper:World.__init__"]


def c22(tier):
    q = tier == "quick"
    js = []
    for s in list(LOCAL) + list(SC):
        if s in ("orderdep",) and q:
            continue
        for n in ((2, 3) if s in LOCAL else (2,) if q else (2, 3, 5, -1)):
            for det in ((False,) if q and s not in ("merge", "spill") else (False, True)):
                how = "steps" if s in ("merge", "diverge", "params") or not q and n == 3 else "all"
                js.append(Job("checks.thr", "threads", dict(sc=s, n=n, det=det, how=how, engine="cpp", build="omp", orders=2 if q else 2 * max(n, 3)), F,
                              bounds=f"scenario {s} (checks/thr.py, checks/scn.py): 4-10 steps; 1 thread against {n} threads (-1: 3 cores), {'deterministic mode' if det else 'arbitrary random draws (a function of the generator state)'}; threads run in ascending or descending order{' (and rotations)' if not q else ''} between barriers, every memory access of the compiled engine recorded for conflicts"))
    for n in ((3,) if q else (2, 3, 4)):
        for m in ((4,) if q else (4, 5)):
            js.append(Job("checks.thr", "search", dict(n=n, m=m, sym=4 if q else 6, engine="cpp", build="omp"), F, bounds=f"{m} nodes, up to {4 if q else 6} symbolic link lengths, {n} threads against one"))
    js.append(Job("checks.thr", "argument", dict(engine="cpp", build="omp"), F, bounds="thread argument -3..5 or one of " + repr(VALUES) + "; 1-4 cores"))
    return dict(jobs=js, stubs=["OpenMP run time -> deterministic cooperative threads with access recording (symx/cpp/omp/omprt.cpp)"],
                assumptions=["between two barriers a race-free program behaves like some sequential order of its threads (checked: no conflicting accesses; tried: ascending, descending and, in thorough, rotated orders)", "sums are exact reals, so a different floating-point association of the same sum is not seen",
                             "code inside libstdc++.so, libpython and nanobind's runtime is not instrumented"])


CHECKS = {"C22": c22}
