"""C29: the search-based system-optimum solvers (genetic, adaptive large neighbourhood search) for arbitrary objective functions."""
import math
import random
import numpy as np
from contextlib import contextmanager
from types import SimpleNamespace
from symx.core import S, And, Or, Not, Implies
from symx.runner import Job
from .dta import build, ROUTES, Rnd


class Fn:
    """an arbitrary function of plans: an independent symbolic value per plan"""

    def __init__(self, ctx, name, lo, hi):
        self.ctx, self.name, self.lo, self.hi = ctx, name, lo, hi
        self.v = {}

    def __call__(self, x):
        k = tuple(x)
        if k not in self.v:
            self.v[k] = self.ctx.real(self.name + "_" + "".join(map(str, k)), self.lo, self.hi)
        return self.v[k]


class Draws(Rnd):
    """random.Random(seed) / the global generator: arbitrary draws"""

    def Random(self, seed=None):
        return self

    def random(self):
        self.n += 1
        return self.ctx.pickv(f"u{self.n}", [0.0, 0.3, 0.7, 0.999])

    def randrange(self, n):
        self.n += 1
        return self.ctx.pick(f"i{self.n}", n)

    def randint(self, a, b):
        self.n += 1
        return a + self.ctx.pick(f"i{self.n}", b - a + 1)


class Mth:
    """exp as an arbitrary function with exp's sign facts"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def log(self, x):
        return math.log(x)

    def exp(self, a):
        self.n += 1
        e = self.ctx.real(f"exp{self.n}", 0, 1000)
        self.ctx.assume(e > 0)
        neg, zero = a < 0, a == 0
        self.ctx.assume(And(Implies(neg, e < 1), Implies(zero, e == 1), Implies(And(Not(neg), Not(zero)), e > 1)))
        return e


@contextmanager
def patched(*mods):
    old = [(m, dict(m.__dict__)) for m in mods]
    try:
        yield
    finally:
        for m, d in old:
            for k in list(m.__dict__):
                if k not in d:
                    delattr(m, k)
            m.__dict__.update(d)


def alns(ctx, n=2, dom=2, k_min=1, k_max=2, sense="min", iters=2, always=False, seg=1, destroy=("random", "segment"), trials=None):
    """the search itself: arbitrary objective over every plan, every draw, every annealing outcome"""
    import importlib
    A = importlib.import_module("uxsim.DTAsolvers.ALNS")
    f = Fn(ctx, "f", -50, 50)
    evals = []

    def obj(x):
        evals.append(list(x))
        return f(x)

    doms = [list(range(dom)) for _ in range(n)]
    x0 = [ctx.pick(f"x{i}", dom) for i in range(n)]
    g = (lambda v: v) if sense == "min" else (lambda v: -v)
    with patched(A):
        A.random, A.math = Draws(ctx), Mth(ctx)
        st = A.init_alns(x0, obj, sense=sense, domains=doms, k_min=k_min, k_max=k_max, destroy_set=list(destroy), repair_set=["random"], T0=None if trials else 4.0,
                         total_iters=iters + (trials or 0), trials=trials or 0, always_accept=always, segment_len=seg, seed=0)
        if trials:
            ctx.check(st.total_iters == iters, "trials_count_as_iterations", f"{st.total_iters}")
            ctx.check(len(evals) == 1 + trials, "one_evaluation_per_trial", f"{len(evals)}")
            ctx.check(st.T0 > 0, "initial_temperature_positive", f"{st.T0}")
            ctx.check(st.x_cur == x0 and st.x_best == x0, "trials_do_not_move", f"{st.x_cur} {st.x_best}")
            ctx.check(ctx.eq(st.cur, g(f(x0))), "current_value", f"{st.cur}")
            return
        kept = []
        ne = len(evals)
        for i in range(iters):
            before, cur0, best0, xb0 = list(st.x_cur), st.cur, st.best, list(st.x_best)
            if i == iters - 1:
                out = A.run_auto(st, n=1)
                ctx.check(len(out) == 1, "run_auto_steps", f"{len(out)}")
                log = out[0]
            else:
                log = A.auto_step(st)
            ctx.check(len(evals) == ne + 1, "one_evaluation_per_step", f"{len(evals) - ne}")
            ne = len(evals)
            cand = evals[-1]
            w = f"sense={sense} from {before} candidate {cand} changed {log.changed_idx} accepted {log.accepted}"
            ctx.check(all(c in d for c, d in zip(cand, doms)) and len(cand) == n, "candidate_in_domains", w)
            ctx.check(all(cand[j] == before[j] for j in range(n) if j not in log.changed_idx), "only_listed_positions_change", w)
            ctx.check(len(set(log.changed_idx)) <= st.k_max and 1 <= st.k_cur <= st.k_max, "at_most_k_positions", w)
            if dom > 1:
                ctx.check(all(cand[j] != before[j] for j in log.changed_idx), "random_repair_changes_value", w)
            fc, fb = g(f(cand)), g(f(before))
            ctx.check(ctx.eq(log.delta_obj, fc - fb), "delta", f"{w} {log.delta_obj}")
            ctx.check(bool(log.accepted) or Not(fc <= fb), "improvement_accepted", w)
            if always:
                ctx.check(log.accepted, "always_accept", w)
            ctx.check(st.x_cur == (cand if log.accepted else before), "current_plan", f"{w} now {st.x_cur}")
            ctx.check(ctx.eq(st.cur, fc if log.accepted else fb), "current_value", f"{w} {st.cur}")
            ctx.check(st.best <= best0, "best_never_worse", f"{w} {best0} -> {st.best}")
            ctx.check(ctx.eq(st.best, g(f(st.x_best))), "best_value_of_best_plan", f"{w} best plan {st.x_best} {st.best}")
            ctx.check(And(*[st.best <= g(f(e)) for e in evals]), "best_of_all_evaluated", f"{w} best {st.best}")
            ctx.check(And(ctx.eq(log.obj_val, g(st.cur)), ctx.eq(log.best_obj, g(st.best))), "step_log_values", f"{w} {log.obj_val} {log.best_obj}")
            ctx.check(log.iter == i + 1 and st.it == i + 1, "iteration_number", f"{log.iter}")
            ctx.check(all(v > 0 for v in list(st.d_weights.values()) + list(st.r_weights.values())), "weights_positive", f"{st.d_weights} {st.r_weights}")
            kept.append(log)
        xs, run = A.finalize(st)
        ctx.check(list(xs) == st.x_best == list(run.best_x) == A.get_best_x(st) and A.get_current_x(st) == st.x_cur, "final_plan", f"{xs} {run.best_x} {st.x_best}")
        ctx.check(ctx.eq(run.best_obj, f(st.x_best)), "final_value", f"{run.best_obj}")
        ctx.check(run.steps == kept, "run_log", f"{len(run.steps)}")
        ctx.check(sum(v["best_improves"] for v in run.operator_stats["destroy"].values()) == sum(v["best_improves"] for v in run.operator_stats["repair"].values()), "operator_statistics", f"{run.operator_stats}")


@contextmanager
def solver(ctx, seed, sets, sym_int=True):
    import importlib, warnings
    M = importlib.import_module("uxsim.DTAsolvers.DTAsolvers")
    A = importlib.import_module("uxsim.DTAsolvers.ALNS")
    st = np.random.get_state()
    np.random.seed(seed)
    with patched(M, A), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = random.Random(seed)
        M.random = r
        M.print = lambda *a, **k: None
        M.int = lambda x: x if isinstance(x, S) else int(x)
        A.random = SimpleNamespace(Random=random.Random, random=r.random)
        A.math = Mth(ctx)
        M.enumerate_k_random_routes = lambda W, k: {("o", "d"): [list(x) for x in sets]}
        try:
            yield M, A
        finally:
            np.random.set_state(st)


class Plans:
    """worlds whose first member is really simulated; the others' result is an arbitrary function of the routes given to the vehicles"""

    def __init__(self, ctx, sets, first):
        self.ctx, self.sets, self.first = ctx, sets, first
        self.ttt, self.left, self.log = Fn(ctx, "ttt", 10, 60), {}, []
        self.n = 0

    def objective(self, plan):
        return self.ttt(plan) + self.left[tuple(plan)] * self.W0.TMAX

    def __call__(self):
        ctx = self.ctx
        sim = build(ctx, "py", self.first, {}, late=False)
        W = sim.W
        if self.n == 0:
            self.W0 = W
        else:
            def run(*a, W=W, **k):
                plan = []
                for v in W.VEHICLES.values():
                    r = [l.name for l in v.links_prefer]
                    ctx.check(r in self.sets, "vehicle_gets_a_route_of_its_set", f"{v.name} {r}")
                    plan.append(self.sets.index(r) if r in self.sets else -1)
                N, k = W.DELTAN, tuple(plan)
                if k not in self.left:
                    self.left[k] = N * ctx.pick("left" + "".join(map(str, k)), 2)
                tot = N * len(plan)
                W.analyzer = SimpleNamespace(total_travel_time=self.ttt(k), trip_all=tot, trip_completed=tot - self.left[k], link_to_pandas=lambda: None, basic_to_pandas=lambda: None)
                W.plan = k
                self.log.append(k)
            W.exec_simulation = run
        self.n += 1
        return W


KEYS = {0: ["od", "a", "b"], 1: ["b", "od"], 2: ["a"]}


def travelled(W, sets):
    out = []
    for v in W.VEHICLES.values():
        r = [l.name for l in v.traveled_route()[0]]
        out.append(sets.index(r) if r in sets else 0)
    return out


def ga(ctx, seed=1, nveh=3, order=0, pop=4, gens=2, elite=1, occur=0.1, gene=0.05):
    sets = [ROUTES[k] for k in KEYS[order]]
    first = [ROUTES[("od", "a", "b")[ctx.pick(f"first{i}", 2) + (i == 2)]] for i in range(nveh)]
    with solver(ctx, seed, sets) as (M, A):
        P = Plans(ctx, sets, first)
        s = M.SolverDSO_GA(P)
        W = s.solve(gens, n_routes_per_od=3, pop_size=pop, elite_size=elite, n_crossover_points=1, mutation_occur_rate=occur, mutation_gene_rate=gene, print_progress=False)
        L = P.log
        ctx.check(len(L) == pop * gens, "one_evaluation_per_plan", f"{len(L)}")
        if pop >= 4:
            ctx.check(list(L[0]) == travelled(P.W0, sets), "initial_plan_kept", f"{L[0]} expected {travelled(P.W0, sets)}")
        G = [L[i * pop:(i + 1) * pop] for i in range(gens)]
        o = P.objective
        best = []
        for g in G:
            b = o(g[0])
            for x in g[1:]:
                b = ctx_min(b, o(x))
            best.append(b)
        for i in range(1, gens):
            if elite:
                ctx.check(best[i] <= best[i - 1], "best_plan_survives", f"generation {i}: {G[i - 1]} -> {G[i]}")
            # the elite_size best plans of a generation are members of the next
            for x in set(G[i - 1]):
                better = sum(1 for y in G[i - 1] if y == x or not bool(o(y) > o(x)))
                if better <= elite:
                    ctx.check(x in G[i], "elite_survives", f"{x} of {G[i - 1]} not in {G[i]}")
        for i in range(gens):
            ctx.check(Or(*[And(o(x) == best[i], ctx.eq(s.ttts[i], P.ttt(x))) for x in G[i]]), "reported_total_travel_time", f"generation {i} {s.ttts[i]}")
        ctx.check(W is s.W_sol and hasattr(W, "plan"), "returns_a_simulated_world", f"{W}")
        ctx.check(And(*[o(W.plan) <= o(x) for x in G[-1]]), "returned_world_is_best_of_last_generation", f"returned {W.plan} objective {o(W.plan)}; last generation {[(x, o(x)) for x in G[-1]]}")
        if elite:
            ctx.check(And(*[o(W.plan) <= o(x) for x in L]), "returned_world_is_best_of_all", f"returned {W.plan}; evaluated {L}")
        ctx.check(W.dict_od_to_routes[("o", "d")] == sets, "route_sets_recorded", "")


def ctx_min(a, b):
    return b if bool(b < a) else a


def large(ctx, seed=1, nveh=2, order=0, iters=3, trials=1, init=False, dset=None, rset=("random",)):
    sets = [ROUTES[k] for k in KEYS[order]]
    first = [ROUTES[("od", "a", "b")[ctx.pick(f"first{i}", 3)]] for i in range(nveh)]
    with solver(ctx, seed, sets) as (M, A):
        P = Plans(ctx, sets, first)
        kw = {}
        if init:
            W0 = P()
            W0.exec_simulation()
            if init != "plain":
                W0.dict_od_to_routes = {("o", "d"): [list(r) for r in sets]}
            kw["initial_solution_World"] = W0
        real = A.init_alns

        def init_alns(*a, **k):
            st = real(*a, **k)
            if isinstance(st.T0, S):
                st.T0 = 4.0                    # the temperature is any positive number
            return st
        A.init_alns = init_alns
        s = M.SolverDSO_ALNS(P)
        W = s.solve(iters, n_routes_per_od=3, trials=trials, print_progress=False, destroy_set=list(dset) if dset else None, repair_set=list(rset), **kw)
        L, o = P.log, P.objective
        where = f"returned {getattr(W, 'plan', None)}; evaluated {[(x, o(x)) for x in L]}"
        ctx.check(len(L) == 1 + iters, "one_evaluation_per_iteration", f"{len(L)}")
        ctx.check(W is s.W_sol and hasattr(W, "plan"), "returns_a_simulated_world", where)
        ctx.check(And(*[o(W.plan) <= o(x) for x in L]), "returned_world_is_best_evaluated", where)
        ctx.check(ctx.eq(s.best_obj_value, o(W.plan)), "reported_objective", f"{s.best_obj_value} {where}")
        ctx.check(ctx.eq(s.ttts_best[-1], P.ttt(W.plan)), "reported_total_travel_time", f"{s.ttts_best[-1]} {where}")
        ctx.check(all(0 <= v < len(sets) for v in s.xx_star), "final_plan_in_domains", f"{s.xx_star}")
        ctx.check(ctx.eq(s.run.best_obj, o(s.xx_star)), "final_plan_objective", f"{s.run.best_obj}")
        ctx.check(W.dict_od_to_routes[("o", "d")] == sets, "route_sets_recorded", "")
        if init and init != "plain":
            W0 = P.W0
            for v, x in zip(W0.VEHICLES.values(), L[0]):
                r = [l.name for l in v.traveled_route()[0]]
                if r in sets:
                    ctx.check(sets[x] == r, "initial_plan_is_travelled_route", f"{v.name} {r} -> {sets[x]}")
                else:
                    t = [W0.defRoute(q).actual_travel_time(v.departure_time_in_second) for q in sets]
                    ctx.check(And(*[t[x] <= y for y in t]), "initial_plan_is_quickest_route", f"{v.name} travelled {r}, got {sets[x]}; times {t}")


def c29(tier):
    q = tier == "quick"
    LIB = "uxsim.DTAsolvers.ALNS:"
    lib = [LIB + x for x in ("init_alns", "auto_step", "run_auto", "finalize", "destroy_random", "destroy_segment", "_repair_random", "_roulette_pick", "_segment_update_weights", "_temperature")]
    js = []
    for c in (dict(), dict(sense="max"), dict(n=3, k_min=1, k_max=2), dict(n=3, k_min=2, k_max=3, destroy=("segment",)), dict(always=True), dict(n=1, dom=3, k_max=1), dict(n=2, dom=1, k_max=5), dict(k_min=None, k_max=1, iters=3), dict(n=3, iters=3, k_min=1, k_max=3, seg=2), dict(n=2, dom=3, trials=2), dict(n=2, dom=2, trials=3, sense="max")):
        if not q:
            c = dict(c, iters=c.get("iters", 2) + 1)
        js.append(Job("checks.search", "alns", c, lib, bounds=f"plans of {c.get('n', 2)} vehicles with {c.get('dom', 2)} routes each, {c.get('iters', 2)} iterations{', temperature estimation with %d trials' % c['trials'] if c.get('trials') else ''}, every objective function with values in [-50,50], every draw, every annealing outcome ({c})"))
    for sd in range(1, 3 if q else 5):
        for c in (dict(), dict(order=1, occur=1, gene=0.5), dict(elite=2, pop=4, gens=2), dict(order=1, pop=3, gens=3)):
            js.append(Job("checks.search", "ga", dict(seed=sd, **c), ["uxsim.DTAsolvers.DTAsolvers:SolverDSO_GA.solve"], bounds=f"3 vehicles, {c.get('pop', 4)} plans, {c.get('gens', 2)} generations, {c.get('elite', 1)} elite plans, every objective function (total travel times in [10,60], up to one unfinished platoon), draws of seed {sd}"))
        for c in (dict(), dict(init=True, order=1), dict(init=True, rset=("min_cost", "random"), dset=("early_dep", "late_dep", "segment")), dict(order=1, dset=("congest_link",)), dict(order=2), dict(nveh=1, init=True, order=1, dset=("early_dep",)), dict(init="plain", order=1)):
            js.append(Job("checks.search", "large", dict(seed=sd, **c), ["uxsim.DTAsolvers.DTAsolvers:SolverDSO_ALNS.solve"] + lib + [LIB + x for x in ("destroy_early_departure", "destroy_late_departure", "destroy_congested_link", "_repair_minimum_cost")], bounds=f"{c.get('nveh', 2)} vehicles, 3 iterations, every objective function, {'given initial world (with or without route sets), ' if c.get('init') else ''}draws of seed {sd} ({c})"))
    return dict(jobs=js, stubs=["worlds after the first: result of the simulation -> an arbitrary function of the plan", "random numbers of the solvers -> arbitrary draws (search core) or those of fixed seeds (whole solvers)", "exp -> an arbitrary function with exp's sign", "enumerate_k_random_routes -> the given route sets"],
                assumptions=["the simulated result depends on the plan only (same seed, C28)"])


CHECKS = {"C29": c29}
