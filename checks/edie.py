"""C18: trajectories per link and the traffic states aggregated over space-time cells."""
import math
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from .dyn import make_sim
from .scn import SC, make, nd, lk, vh

EDT = 10


def overlap(a0, a1, b0, b1):
    lo = a0 if bool(a0 >= b0) else b0
    hi = a1 if bool(a1 <= b1) else b1
    return hi - lo if bool(hi > lo) else 0.0


def expected(ctx, trajs, nt, nx, dt, dx, N):
    """cell sums of distance and time of piecewise linear trajectories: list of (list of t, list of x)"""
    dn = [[0.0] * nx for _ in range(nt)]
    tn = [[0.0] * nx for _ in range(nt)]
    for ts, xs in trajs:
        for t0, t1, x0, x1 in zip(ts, ts[1:], xs, xs[1:]):
            it = int(math.floor(t0 / dt))
            if it >= nt:
                continue
            moving = bool(x1 > x0)
            for j in range(nx):
                if moving:
                    o = overlap(x0, x1, j * dx, (j + 1) * dx)
                    if isinstance(o, float) and o == 0:
                        continue
                    dn[it][j] = dn[it][j] + o
                    tn[it][j] = tn[it][j] + o / ((x1 - x0) / (t1 - t0))
                elif bool(And(x0 >= j * dx, x0 < (j + 1) * dx)):
                    tn[it][j] = tn[it][j] + (t1 - t0)
    return [[v * N for v in r] for r in dn], [[v * N for v in r] for r in tn]


def check_states(ctx, W, trajs, TMAX, where):
    """the matrices of every link against the sums over its trajectories; tables"""
    import warnings
    warnings.simplefilter("ignore")
    A, N = W.analyzer, W.DELTAN
    A.compute_edie_state()
    dt = EDT
    nt = int(TMAX / dt)
    sums = {}
    for l in W.LINKS:
        dx = l.edie_dx
        nx = int(l.length / dx)
        ctx.check(l.k_mat.shape == (nt, nx) and l.q_mat.shape == (nt, nx) and l.v_mat.shape == (nt, nx), "matrix_size", f"{where} {l.name}: {l.k_mat.shape}, {nt}x{nx} cells")
        D, T = expected(ctx, trajs[l.name], nt, nx, dt, dx, N)
        sums[l.name] = (D, T)
        for i in range(nt):
            for j in range(nx):
                w = f"{where} {l.name} cell t={i * dt} x={j}: "
                k, q, v = l.k_mat[i, j], l.q_mat[i, j], l.v_mat[i, j]
                ctx.check(ctx.eq(l.dn_mat[i, j], D[i][j]), "distance_in_cell", f"{w}{l.dn_mat[i, j]} expected {D[i][j]}")
                ctx.check(ctx.eq(l.tn_mat[i, j], T[i][j]), "time_in_cell", f"{w}{l.tn_mat[i, j]} expected {T[i][j]}")
                ctx.check(ctx.eq(q * dt * dx, D[i][j]), "flow_of_cell", f"{w}{q}")
                ctx.check(ctx.eq(k * dt * dx, T[i][j]), "density_of_cell", f"{w}{k}")
                empty = not isinstance(T[i][j], S) and T[i][j] == 0
                ctx.check(ctx.eq(v, l.u) if empty else ctx.eq(v, q / k), "speed_of_cell", f"{w}{v}")
        # totals: nothing lost or counted twice
        ctx.check(ctx.eq(sum(l.dn_mat.flat), sum(x for r in D for x in r)), "distance_conserved", f"{where} {l.name}")
        ctx.check(ctx.eq(sum(l.tn_mat.flat), sum(x for r in T for x in r)), "time_conserved", f"{where} {l.name}")
    df = A.link_traffic_state_to_pandas()
    n = sum(nt * int(l.length / l.edie_dx) for l in W.LINKS)
    ctx.check(len(df) == n, "state_table_rows", f"{where}: {len(df)} of {n}")
    r = 0
    for l in W.LINKS:
        for i in range(nt):
            for j in range(int(l.length / l.edie_dx)):
                x = df.iloc[r]
                r += 1
                ctx.check(x["link"] == l.name and And(ctx.eq(x["t"], i * dt), ctx.eq(x["x"], j * l.edie_dx), ctx.eq(x["delta_t"], dt), ctx.eq(x["delta_x"], l.edie_dx), ctx.eq(x["q"], l.q_mat[i, j]), ctx.eq(x["k"], l.k_mat[i, j]), ctx.eq(x["v"], l.v_mat[i, j])), "state_table_row", f"{where} {r}")
    groups = [None] + ([[W.LINKS[0].name], [l for l in W.LINKS[:2]]] if len(W.LINKS) > 1 else [[W.LINKS[0]]])
    for g in groups:
        sel = [W.get_link(l) for l in g] if g else W.LINKS
        A.compute_mfd(g)
        m = A.mfd_to_pandas(g)
        area = sum(l.length for l in sel) * dt
        ctx.check(len(m) == nt, "network_table_rows", f"{where}: {len(m)} of {nt}")
        for i in range(min(nt, len(m))):
            k = sum(sum(sums[l.name][1][i]) for l in sel)
            q = sum(sum(sums[l.name][0][i]) for l in sel)
            ctx.check(And(ctx.eq(m["t"][i], i * dt), ctx.eq(m["network_k"][i] * area, k), ctx.eq(m["network_q"][i] * area, q)), "network_average", f"{where} {g} t={i * dt}: {m['network_k'][i]}, {m['network_q'][i]} expected {k}, {q} over {area}")


def cells(ctx, engine="py", stops=False, m=1, first=False):
    """given trajectories with symbolic positions"""
    D = 5
    TM = 20
    # the length does not have to be a multiple of the cell
    L, dx = ctx.real("L", 125, 149), 45.0
    sim = make_sim(ctx, engine, dict(opts=dict(deltan=5, reaction_time=1, tmax=TM, eular_dt=EDT), nodes=[nd("a"), nd("b", 1)], links=[lk("l", "a", "b", L, eular_dx=dx)], vehicles=[vh(f"v{i}", "a", "b", 0) for i in range(m)]))
    W = sim.W
    sim.start()
    l = W.LINKS[0]
    trajs = []
    for v in range(m):
        x = ctx.real(f"x{v}_0", 0, 60)
        te = ctx.real(f"te{v}", 0.5, 4.5) if first else 0.0
        ts, xs = [te if not first else te], [x]
        for k in range(3 if m == 1 else 2):
            # speed at most 20 m/s
            step = ctx.real(f"s{v}_{k}", 0, 100)
            if stops and k == 1:
                step = 0.0
            nx_ = xs[-1] + step
            ctx.assume(nx_ <= L)
            if not (stops and k == 1):
                ctx.assume(step >= 0.01)
            xs.append(nx_)
            ts.append(5.0 * (k + 1))
        trajs.append((ts, xs))
    l.tss, l.xss = [list(t) for t, _ in trajs], [list(x) for _, x in trajs]
    l.names = [f"v{i}" for i in range(m)]
    l.cs, l.ls = [0] * m, [0] * m
    W.analyzer.flag_trajectory_computed = 1
    check_states(ctx, W, {"l": trajs}, TM, "given")


def own_trajectories(ctx, W, b):
    """trajectories per link from the vehicle logs: recorded points, completed to the link ends at free-flow speed"""
    out = {l.name: [] for l in W.LINKS}
    for v in W.VEHICLES.values():
        pts = []
        for t, x, l in zip(v.log_t, v.log_x, v.log_link):
            nm = None if isinstance(l, int) else (l if isinstance(l, str) else l.name)
            if nm is None:
                continue
            if not pts or pts[-1][0] != nm:
                pts.append((nm, [], []))
            pts[-1][1].append(t)
            pts[-1][2].append(x)
        for nm, ts, xs in pts:
            l = W.get_link(nm)
            if bool(xs[0] / l.u > W.DELTAT * 0.01):
                ts, xs = [ts[0] - xs[0] / l.u] + ts, [0.0] + xs
            rest = l.length - xs[-1]
            if bool(And(rest <= l.u * W.DELTAT, rest / l.u > W.DELTAT * 0.01)):
                ts, xs = ts + [ts[-1] + rest / l.u], xs + [l.length]
            out[nm].append((v.name, ts, xs))
    return out


def traj(ctx, engine="py", sc="line", det=True, states=False):
    """trajectories of a whole run; optionally their cells"""
    import warnings
    warnings.simplefilter("ignore")
    sim, K, act = make(ctx, engine, sc, det, eular_dt=EDT)
    W = sim.W
    sim.start()
    for t in range(K):
        if t in act:
            act[t](W)
        sim.step()
        if t == 2:
            W.analyzer.compute_accurate_traj()       # a look during a pause must not spoil the later result
    W.analyzer.compute_accurate_traj()
    b = sim.snap()
    want = own_trajectories(ctx, W, b)
    for l in W.LINKS:
        w = want[l.name]
        ctx.check(len(l.tss) == len(l.xss) == len(l.names) == len(w), "one_trajectory_per_passage", f"{l.name}: {l.names} expected {[x[0] for x in w]}")
        if len(l.names) != len(w):
            continue
        for nm, ts, xs, (n2, ts2, xs2) in zip(l.names, l.tss, l.xss, w):
            i = f"{l.name} {nm}: {ts} {xs} expected {ts2} {xs2}"
            ctx.check(nm == n2 and len(ts) == len(ts2) == len(xs) and And(*[ctx.eq(p, q) for p, q in zip(ts, ts2)]) and And(*[ctx.eq(p, q) for p, q in zip(xs, xs2)]), "trajectory_points", i)
            ctx.check(And(*[p <= q + 1e-9 for p, q in zip(xs, xs[1:])]) and And(*[p < q for p, q in zip(ts, ts[1:])]), "trajectory_monotone", i)
            ctx.check(And(ts[0] >= -1e-9, xs[0] >= 0, ctx.le(xs[-1], l.length)), "trajectory_inside_link", i)
    if states:
        TM = W.TMAX
        check_states(ctx, W, {k: [(t, x) for _, t, x in v] for k, v in want.items()}, TM, "run")


FN = ["uxsim.analyzer:Analyzer." + f for f in ("compute_accurate_traj", "compute_edie_state", "compute_mfd", "mfd_to_pandas", "link_traffic_state_to_pandas")]


def c18(tier):
    js = []
    q = tier == "quick"
    for stops, m, first in [(False, 1, False), (True, 1, False), (False, 2, False), (False, 1, True)] + ([] if q else [(True, 2, False), (False, 2, True)]):
        js.append(Job("checks.edie", "cells", dict(stops=stops, m=m, first=first), FN[1:], bounds=f"one link of symbolic length 125-149 m, 45 m cells of 10 s, {m} trajectories of 2-3 pieces with symbolic positions{' and a symbolic start time' if first else ''}{', one of them standing' if stops else ''}"))
    for e in ("py", "cpp"):
        for s in SC:
            js.append(Job("checks.edie", "traj", dict(engine=e, sc=s, det=True, states=s in ("line", "spill", "signal")), FN, bounds=f"{e} engine, whole scenario {s} (checks/scn.py), 6-9 steps, cells of 10 s"))
    return dict(jobs=js)


CHECKS = {"C18": c18}
