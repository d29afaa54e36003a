"""C16 (vehicle logs, travelled routes, positions) and C17 (trip / OD / link statistics): tables produced by the real code compared with what
is observed step by step from outside (state snapshots of every step)."""
from symx.core import S, SB, And, Or, Not, Implies
from symx.runner import Job
from . import monitors as M, scn
from .scn import SC, make

FIN = M.FIN


def observe_logs(ctx, a, b, log, routes):
    """append what the log of every vehicle must contain for the step from a to b"""
    T, D = a.T, b.D
    t = T * D
    ent = M.entered(a, b)
    for nm, u in a.veh.items():
        if u.state in FIN:
            continue
        v = b.veh[nm]
        E = log.setdefault(nm, [])
        R = routes.setdefault(nm, [])
        if nm in ent:
            R.append((t, ent[nm]))
        if v.state in FIN and v.state == "end":
            R.append((t, "end"))
        if u.state == "home" or (u.state == "wait" and nm not in ent):
            E.append(dict(t=t, state=u.state, T=T))
            continue
        e = dict(t=t, state="run", T=T)
        if nm in ent:
            e["link"] = ent[nm]
            if u.state == "wait":
                e["x"], e["v"] = 0, b.link[ent[nm]].u
            elif v.state == "run":
                e["x"] = v.x - v.v * D
                e["v"] = u.v + e["x"] / D
            if v.state == "run":
                e["lane"] = v.lane
        else:
            e.update(link=u.link, x=u.x, v=u.v, lane=u.lane)
            L = a.link[u.link]
            i = L.vehs.index(nm)
            if i < L.lanes:
                e["s"] = [-1]
            else:
                p = L.vehs[i - L.lanes]
                if b.veh[p].link == u.link and a.veh[p].link == u.link:
                    e["s"] = [a.veh[p].x - u.x, b.veh[p].x - u.x]
            # a vehicle held at the end of its last road may leave before the movement of this step: no entry of that step
            if v.state in FIN and bool(u.x == L.L):
                e["opt"] = True
        E.append(e)
        if v.state in FIN:
            E.append(dict(t=t, state=v.state, T=T, force=True))


def lname(l):
    return l if isinstance(l, (int, str)) else l.name


def check_logs(ctx, W, log, routes, b, interval):
    for nm, v in W.VEHICLES.items():
        exp = [e for e in log.get(nm, []) if e["T"] % interval == 0 or e.get("force")]
        st, lk = list(v.log_state), [lname(l) for l in v.log_link]
        got = list(zip(list(v.log_t), st, lk, list(v.log_x), list(v.log_v), list(v.log_lane), list(v.log_s)))
        n = len(st)
        ctx.check(all(len(f) == n for f in (v.log_t, v.log_x, v.log_v, v.log_lane, v.log_s, v.log_link)), "log_columns_same_length", nm)
        if len(exp) == n + 1 and any(e.get("opt") for e in exp):
            exp = [e for e in exp if not e.get("opt")]
        ctx.check(len(exp) == n, "one_log_entry_per_step", f"{nm}: expected {[(e['t'], e['state']) for e in exp]} got {[(g[0], g[1]) for g in got]}")
        for e, g in zip(exp, got):
            w = f"{nm} t={e['t']}: expected {e} got {g}"
            ctx.check(ctx.eq(g[0], e["t"]), "log_time", w)
            ctx.check(g[1] == e["state"], "log_state", w)
            if e["state"] != "run":
                ctx.check(g[2] == -1 and ctx.eq(g[3], -1) and ctx.eq(g[4], -1) and g[5] == -1 and ctx.eq(g[6], -1), "log_outside_links", w)
                continue
            ctx.check(g[2] == e["link"], "log_link", w)
            L = b.link[e["link"]].L
            ctx.check(And(ctx.ge(g[3], 0), ctx.le(g[3], L)), "log_position_on_link", w)
            for k, j in (("x", 3), ("v", 4)):
                if k in e:
                    ctx.check(ctx.eq(g[j], e[k]), f"log_{k}", w)
            if "lane" in e:
                ctx.check(g[5] == e["lane"], "log_lane", w)
            if "s" in e:
                ctx.check(Or(*[ctx.eq(g[6], s) for s in e["s"]]), "log_spacing", w)
        # travelled route
        r, ts = v.traveled_route(include_arrival_time=True, include_departure_time=True)
        R = routes.get(nm, [])
        links = [x for x in R if x[1] != "end"]
        ctx.check([l.name for l in r.links] == [x[1] for x in links], "traveled_links", f"{nm}: {[l.name for l in r.links]} observed {R}")
        arr = [x[0] for x in R if x[1] == "end"] or [-1]
        want = [b.veh[nm].dep * b.D] + [x[0] for x in links] + arr
        ctx.check(len(ts) == len(want) and And(*[ctx.eq(p, q) for p, q in zip(ts, want)]), "traveled_route_times", f"{nm}: {ts} observed {want}")
        ts2 = v.traveled_route(include_arrival_time=False)[1]
        ctx.check(len(ts2) == len(want) - 2 and And(*[ctx.eq(p, q) for p, q in zip(ts2, want[1:-1])]), "traveled_route_times", f"{nm}: {ts2} observed {want}")


def check_tables(ctx, W, log, b, interval):
    """position queries and the tables made of the logs"""
    xy = {n.name: (n.x, n.y) for n in W.NODES}
    want_gps, want_veh = [], []
    for nm, v in W.VEHICLES.items():
        lt, ls, ll, lx, lv, lsp = list(v.log_t), list(v.log_state), [lname(l) for l in v.log_link], list(v.log_x), list(v.log_v), list(v.log_s)
        dest = b.veh[nm].dest
        for i, t in enumerate(lt):
            nam = {"wait": "waiting_at_origin_node", "abort": "trip_aborted", "end": "trip_end"}.get(ls[i], ll[i])
            if ls[i] != "home":
                want_veh.append((nm, b.N, b.veh[nm].orig, dest, t, nam, lx[i], lsp[i], lv[i]))
            if ls[i] == "run":
                l = b.link[ll[i]]
                (x0, y0), (x1, y1) = xy[l.a], xy[l.b]
                p = (x0 + (x1 - x0) * lx[i] / l.L, y0 + (y1 - y0) * lx[i] / l.L)
                want_gps.append((nm, t, p[0], p[1], lv[i]))
                g = v.get_xy_coords(t)
                ctx.check(ctx.eq(g[0], p[0]) and ctx.eq(g[1], p[1]), "coordinates_at_time", f"{nm} t={t}: {g} expected {p}")
            elif ls[i] in ("home", "wait"):
                g = v.get_xy_coords(t)
                ctx.check(tuple(g) == (-1, -1), "coordinates_outside_links", f"{nm} t={t} {ls[i]}: {g}")
        c = b.veh[nm]
        if c.state == "run":
            l = b.link[c.link]
            (x0, y0), (x1, y1) = xy[l.a], xy[l.b]
            g = v.get_xy_coords()
            ctx.check(ctx.eq(g[0], x0 + (x1 - x0) * c.x / l.L) and ctx.eq(g[1], y0 + (y1 - y0) * c.x / l.L), "coordinates_now", f"{nm}: {g}")
    table(ctx, W.analyzer.gps_like_log_to_pandas(), ["name", "t", "x", "y", "v"], want_gps, "gps_table")
    table(ctx, W.analyzer.vehicles_to_pandas(), ["name", "dn", "orig", "dest", "t", "link", "x", "s", "v"], want_veh, "vehicle_table")


def same_cell(ctx, x, y):
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    if not isinstance(x, S) and x != x:
        return not isinstance(y, S) and y != y
    if not isinstance(y, S) and y != y:
        return False
    if not isinstance(x, S) and x in (float("inf"), -float("inf")):
        return not isinstance(y, S) and y == x
    if not isinstance(y, S) and y in (float("inf"), -float("inf")):
        return False
    return ctx.eq(x, y)


def table(ctx, df, cols, rows, tag, ordered=False):
    """the table has exactly these rows (as a multiset unless ordered: matched by the leading key columns)"""
    ctx.check(all(c in df.columns for c in cols), tag + "_columns", f"{list(df.columns)}")
    got = [tuple(r) for r in df[cols].itertuples(index=False)] if len(df) else []
    ctx.check(len(got) == len(rows), tag + "_rows", f"{len(got)} rows, expected {len(rows)}: {got} / {rows}")
    if len(got) != len(rows):
        return
    for g, r in zip(got, rows):
        for c, x, y in zip(cols, g, r):
            ctx.check(same_cell(ctx, x, y), f"{tag}_{c}", f"row {g} expected {r}")


def drive(ctx, engine, sc, det, **o):
    sim, K, act = make(ctx, engine, sc, det, **o)
    sim.start()
    log, routes, snaps = {}, {}, [sim.snap()]
    for t in range(K):
        a = snaps[-1]
        if t in act:
            act[t](sim.W)
            a = sim.snap()
        sim.step()
        b = sim.snap()
        observe_logs(ctx, a, b, log, routes)
        snaps.append(b)
    return sim, log, routes, snaps


def logs(ctx, engine="py", sc="line", det=True, interval=1):
    o = dict(vehicle_logging_timestep_interval=interval) if interval != 1 else {}
    sim, log, routes, snaps = drive(ctx, engine, sc, det, **o)
    check_logs(ctx, sim.W, log, routes, snaps[-1], interval)
    if interval == 1:
        check_tables(ctx, sim.W, log, snaps[-1], interval)


# ---------------------------------------------------------------------------------------- C17
def paths_between(b, o, d, ok):
    """all simple link sequences from o to d"""
    out = []

    def go(n, seen, acc):
        if n == d and acc:
            out.append(list(acc))
            return
        for l in b.link.values():
            if l.a == n and l.b not in seen and ok[l.name]:
                acc.append(l)
                go(l.b, seen | {l.b}, acc)
                acc.pop()
    go(o, {o}, [])
    return out


def check_min(ctx, val, options, tag, info):
    if not options:
        ctx.check(not isinstance(val, S) and val == float("inf"), tag, f"{info}: {val}, no route")
        return
    ctx.check(isinstance(val, S) or val < 1e15, tag, f"{info}: {val}")
    ctx.check(And(*[ctx.le(val, o) for o in options]), tag, f"{info}: {val} not the least of {options}")
    ctx.check(Or(*[ctx.eq(val, o) for o in options]), tag, f"{info}: {val} none of {options}")


def mean(l):
    return sum(l) / len(l)


def std(l):
    from symx import pyuxsim as P
    return P.NP.std(l)


def check_stats(ctx, W, log, routes, b):
    A = W.analyzer
    N, D = b.N, b.D
    dist, done = {}, {}
    for nm, v in b.veh.items():
        ls = [b.link[x[1]].L for x in routes.get(nm, []) if x[1] != "end"]
        dist[nm] = (sum(ls[:-1]) + v.x) if v.state == "run" else sum(ls) if ls else 0
        end = [x[0] for x in routes.get(nm, []) if x[1] == "end"]
        done[nm] = end[0] - v.dep * D if end else None
    # OD table
    od = {}
    for nm, v in b.veh.items():
        od.setdefault((v.orig, v.dest), []).append(nm)
    df = A.od_to_pandas()
    rows = {(r["orig"], r["dest"]): r for r in df.to_dict("records")}
    ctx.check(len(df) == len(od) and set(rows) == set(od), "od_rows", f"{sorted(rows)} / {sorted(od)}")
    if set(rows) != set(od):
        return
    ok = {k: bool(l.cin != 0) for k, l in b.link.items()}
    for k, vs in od.items():
        r = rows[k]
        tts = [done[x] for x in vs if done[x] is not None]
        ds = [dist[x] for x in vs]
        ctx.check(r["total_trips"] == N * len(vs), "od_total_trips", f"{k} {r}")
        ctx.check(r["completed_trips"] == N * len(tts), "od_completed_trips", f"{k} {r} {tts}")
        if tts:
            ctx.check(ctx.eq(r["average_travel_time"], mean(tts)), "od_average_travel_time", f"{k} {r} {tts}")
            ctx.check(ctx.eq(r["stddiv_travel_time"], std(tts)), "od_std_travel_time", f"{k} {r} {tts}")
        ctx.check(ctx.eq(r["average_distance_traveled_per_veh"], mean(ds)), "od_average_distance", f"{k} {r} {ds}")
        ctx.check(ctx.eq(r["stddiv_distance_traveled_per_veh"], std(ds)), "od_std_distance", f"{k} {r} {ds}")
        ps = paths_between(b, k[0], k[1], ok)
        if k[0] != k[1]:
            check_min(ctx, r["free_travel_time"], [sum(l.L / l.u for l in p) for p in ps], "od_free_travel_time", k)
            check_min(ctx, r["shortest_distance"], [sum(l.L for l in p) for p in ps], "od_shortest_distance", k)
    # basic statistics
    A.basic_analysis()
    tts = [x for x in done.values() if x is not None]
    ctx.check(A.trip_all == N * len(b.veh) and A.trip_completed == N * len(tts), "basic_trips", f"{A.trip_all} {A.trip_completed} {done}")
    if tts:
        dl = [done[nm] - rows[v.orig, v.dest]["free_travel_time"] for nm, v in b.veh.items() if done[nm] is not None]
        ctx.check(ctx.eq(A.total_travel_time, N * sum(tts)), "basic_total_travel_time", f"{A.total_travel_time} {tts}")
        ctx.check(ctx.eq(A.average_travel_time, mean(tts)), "basic_average_travel_time", f"{A.average_travel_time} {tts}")
        ctx.check(ctx.eq(A.total_delay, N * sum(dl)), "basic_total_delay", f"{A.total_delay} {dl}")
        ctx.check(ctx.eq(A.average_delay, mean(dl)), "basic_average_delay", f"{A.average_delay} {dl}")
    ctx.check(ctx.eq(A.total_distance_traveled, N * sum(dist.values())), "basic_total_distance", f"{A.total_distance_traveled} {dist}")
    row = A.basic_to_pandas().to_dict("records")[0]
    ctx.check(row["total_trips"] == A.trip_all and row["completed_trips"] == A.trip_completed, "basic_table", str(row))
    for c in ("total_travel_time", "average_travel_time", "total_delay", "average_delay"):
        ctx.check(same_cell(ctx, row[c], getattr(A, c)), "basic_table", f"{c} {row}")
    sp = []
    for v in W.VEHICLES.values():
        for s_, x in zip(list(v.log_state), list(v.log_v)):
            if s_ == "wait":
                sp.append(0)
            elif s_ == "run":
                sp.append(x)
    if sp:
        ctx.check(ctx.eq(A.average_speed, mean(sp)), "average_speed", f"{A.average_speed} {mean(sp)} {sp}")
    # links
    df = {r["link"]: r for r in A.link_to_pandas().to_dict("records")}
    ctx.check(list(df) == list(b.link), "link_rows", str(list(df)))
    for k, l in b.link.items():
        r = df[k]
        ent = sum(1 for R in routes.values() for x in R if x[1] == k)
        ctx.check(r["start_node"] == l.a and r["end_node"] == l.b and ctx.eq(r["length"], l.L), "link_identity", str(r))
        ctx.check(ctx.eq(r["vehicles_remain"], N * len(l.vehs)), "link_vehicles_remain", f"{r} {l.vehs}")
        ctx.check(ctx.eq(r["traffic_volume"], N * (ent - len(l.vehs))), "link_traffic_volume", f"{r} entered {ent} on link {l.vehs}")
        ctx.check(ctx.eq(r["free_travel_time"], l.L / l.u), "link_free_travel_time", str(r))
        tt = [x for x in list(W.get_link(k).traveltime_actual) if bool(x > 0)]
        if ent - len(l.vehs) > 0 and tt:
            ctx.check(ctx.eq(r["average_travel_time"], mean(tt)), "link_average_travel_time", f"{r} {tt}")
            ctx.check(ctx.eq(r["stddiv_travel_time"], std(tt)), "link_std_travel_time", f"{r} {tt}")
            ctx.check(ctx.eq(r["delay_ratio"] * r["free_travel_time"], r["average_travel_time"]), "link_delay_ratio", f"{r}")
    # per vehicle
    tr = {r["name"]: r for r in A.vehicle_trip_to_pandas().to_dict("records")}
    ctx.check(list(tr) == list(b.veh), "trip_rows", str(list(tr)))
    for nm, v in b.veh.items():
        r = tr[nm]
        ctx.check(r["orig"] == v.orig and r["dest"] == v.dest and ctx.eq(r["departure_time"], v.dep * D), "trip_identity", str(r))
        # the log is written before the movement of a step: a trip that just started waiting or moving still shows the state before
        ctx.check(r["final_state"] == v.state or v.state in ("wait", "run") and r["final_state"] in ("home", "wait", "run"), "trip_final_state", f"{r} {v.state}")
        ctx.check(ctx.eq(r["travel_time"], done[nm] if done[nm] is not None else -1), "trip_travel_time", f"{r} {done[nm]}")
        ctx.check(ctx.eq(r["distance_traveled"], dist[nm]), "trip_distance", f"{r} {dist[nm]}")
        vs = [x for s_, x in zip(list(W.VEHICLES[nm].log_state), list(W.VEHICLES[nm].log_v)) if s_ == "run"]
        if vs:
            ctx.check(ctx.eq(r["average_speed"], mean(vs)), "trip_average_speed", f"{r} {vs}")
    # groups
    names = list(b.veh)
    groups = [names[::2], names[1::2]]
    gdf = A.vehicle_groups_to_pandas([[W.VEHICLES[x] for x in g] for g in groups]).to_dict("records")
    for g, r in zip(groups, gdf):
        c = [x for x in g if done[x] is not None]
        ctx.check(r["total_trips"] == len(g) and r["completed_trips"] == len(c), "group_trips", f"{g} {r}")
        ctx.check(g[0] in r["group"], "group_name", f"{g} {r}")
        if c:
            free = {x: rows[b.veh[x].orig, b.veh[x].dest] for x in c}
            for col, l in (("average_travel_time", [done[x] for x in c]), ("average_traveled_distance", [dist[x] for x in c]), ("average_delay_ratio", [done[x] / free[x]["free_travel_time"] for x in c]),
                           ("average_detour_ratio", [dist[x] / free[x]["shortest_distance"] for x in c]), ("average_speed", [dist[x] / done[x] for x in c])):
                ctx.check(ctx.eq(r[col], mean(l)), "group_" + col, f"{r} {l}")
            for col, l in (("std_delay_ratio", [done[x] / free[x]["free_travel_time"] for x in c]), ("std_detour_ratio", [dist[x] / free[x]["shortest_distance"] for x in c]), ("std_speed", [dist[x] / done[x] for x in c])):
                ctx.check(ctx.eq(r[col], std(l)), "group_" + col, f"{r} {l}")
    # areas
    ns = [n.name for n in W.NODES]
    areas = [ns[:len(ns) // 2], ns[len(ns) // 2:], ns]
    adf = A.areas2areas_to_pandas(areas, ["A", "B", "all"]).to_dict("records")
    got = {(r["origin_area"], r["destination_area"]): r for r in adf}
    ctx.check(len(got) == len(adf), "area_rows", str(adf))
    for i, p in enumerate(("A", "B", "all")):
        for j, q in enumerate(("A", "B", "all")):
            sel = [nm for nm, v in b.veh.items() if v.orig in areas[i] and v.dest in areas[j]]
            ctx.check(((p, q) in got) == bool(sel), "area_rows", f"{p} {q} {sel} {sorted(got)}")
            if not sel or (p, q) not in got:
                continue
            r = got[p, q]
            c = [nm for nm in sel if done[nm] is not None]
            ctx.check(r["total_trips"] == N * len(sel) and r["completed_trips"] == N * len(c), "area_trips", f"{r} {sel}")
            sh = [rows[b.veh[x].orig, b.veh[x].dest]["shortest_distance"] for x in sel]
            if all(isinstance(x, S) or x < 1e15 for x in sh):
                ctx.check(ctx.eq(r["average_shortest_distance"], mean(sh)), "area_shortest_distance", str(r))
            if c:
                ctx.check(ctx.eq(r["average_travel_time"], mean([done[x] for x in c])), "area_average_travel_time", str(r))
                ctx.check(ctx.eq(r["average_distance_traveled"], mean([dist[x] for x in sel])), "area_average_distance", str(r))
                ctx.check(ctx.eq(r["average_free_travel_time"], mean([rows[b.veh[x].orig, b.veh[x].dest]["free_travel_time"] for x in c])), "area_free_travel_time", str(r))


    check_area(ctx, W, b, df, areas)


def check_area(ctx, W, b, lt, areas):
    """traffic in areas: links with one (border) or both ends inside"""
    A, N = W.analyzer, b.N
    for border in (True, False):
        inside = lambda a: [k for k, l in b.link.items() if (l.a in a or l.b in a if border else l.a in a and l.b in a)]
        sel = [a for a in areas if sum(lt[k]["traffic_volume"] for k in inside(a)) > 0]
        if not sel:
            continue
        adf = A.area_to_pandas(sel, [str(i) for i in range(len(sel))], border_include=border).to_dict("records")
        ctx.check([r["area"] for r in adf] == [str(i) for i in range(len(sel))], "area_table_rows", str(adf))
        for a, r in zip(sel, adf):
            ks = inside(a)
            seen = [v for v in W.VEHICLES.values() if {lname(x) for x in list(v.log_link)} & set(ks)]
            w = f"area {a} border {border}: {r}"
            ctx.check(r["n_links"] == len(ks) and r["traffic_volume"] == N * len(seen), "area_table_volume", w)
            ctx.check(ctx.eq(r["vehicles_remain"], N * sum(len(b.link[k].vehs) for k in ks)), "area_table_remain", w)
            tt = sum(lt[k]["average_travel_time"] * lt[k]["traffic_volume"] for k in ks)
            free = sum(b.link[k].L / b.link[k].u * lt[k]["traffic_volume"] for k in ks)
            d = sum(b.link[k].L * lt[k]["traffic_volume"] for k in ks)
            ctx.check(ctx.eq(r["total_travel_time"], tt), "area_table_total_travel_time", f"{w} expected {tt}")
            if seen:
                ctx.check(ctx.eq((r["average_delay"] + 1) * free, tt if bool(tt >= free) else free), "area_table_delay", f"{w} {tt} {free}")
                ctx.check(ctx.eq(r["average_speed"] * tt, d), "area_table_speed", f"{w} {d} {tt}")
                ctx.check(ctx.eq(r["vehicle_density"] * sum(b.link[k].L for k in ks), N * len(seen)), "area_table_density", w)


def stats(ctx, engine="py", sc="line", det=True, twice=False):
    """tables of trip statistics, queried after the run (and, with twice, also in the middle of it)"""
    sim, K, act = make(ctx, engine, sc, det)
    sim.start()
    log, routes, a = {}, {}, sim.snap()
    for t in range(K):
        if t in act:
            act[t](sim.W)
            a = sim.snap()
        sim.step()
        b = sim.snap()
        observe_logs(ctx, a, b, log, routes)
        a = b
        if twice and t == K - 3:
            check_stats(ctx, sim.W, log, routes, b)
    check_stats(ctx, sim.W, log, routes, a)


PYL = ["uxsim.uxsim:Vehicle.record_log", "uxsim.uxsim:Vehicle.traveled_route", "uxsim.uxsim:Vehicle.get_xy_coords", "uxsim.analyzer:Analyzer.vehicles_to_pandas", "uxsim.analyzer:Analyzer.gps_like_log_to_pandas"]
CPL = ["uxsim/trafficpp/traffi.cpp:Vehicle::log_data", "uxsim/trafficpp/traffi.cpp:Vehicle::log_t_at", "uxsim/trafficpp/traffi.cpp:Vehicle::log_state_at", "uxsim/trafficpp/traffi.cpp:World::build_all_vehicle_logs_flat_compact",
       "uxsim.uxsim_cpp_wrapper:World._build_all_vehicle_log_caches", "uxsim.uxsim_cpp_wrapper:CppVehicle.traveled_route", "uxsim.uxsim_cpp_wrapper:CppVehicle.get_xy_coords", "uxsim.analyzer:Analyzer.vehicles_to_pandas", "uxsim.analyzer:Analyzer.gps_like_log_to_pandas"]


def c16(tier):
    js = []
    for s in SC:
        for e in ("py", "cpp"):
            for iv in ((1, 2) if e == "py" and s in ("line", "spill", "deadend", "lanes", "params") else (1,)):
                js.append(Job("checks.logs", "logs", dict(engine=e, sc=s, det=True, interval=iv), PYL if e == "py" else CPL,
                              bounds=f"{e} engine, scenario {s} (checks/scn.py) from an empty network, deterministic mode, 6-9 steps, 3-8 vehicles, logging interval {iv}, symbolic lengths / departure steps / tolls / capacities / signal times"))
    return dict(jobs=js)


AF = ["uxsim.analyzer:Analyzer." + f for f in ("od_analysis", "od_to_pandas", "basic_analysis", "basic_to_pandas", "link_analysis_coarse", "link_to_pandas", "vehicle_trip_to_pandas", "vehicle_groups_to_pandas", "areas2areas_to_pandas")]


def c17(tier):
    js = []
    for s in SC:
        for e in ("py", "cpp"):
            tw = s in ("line", "spill", "deadend", "parallel", "lanedest")
            js.append(Job("checks.logs", "stats", dict(engine=e, sc=s, det=True, twice=tw), AF + (["uxsim.uxsim:Vehicle.record_log", "uxsim.uxsim:Vehicle.end_trip"] if e == "py" else ["uxsim/trafficpp/traffi.cpp:Vehicle::end_trip", "uxsim.uxsim_cpp_wrapper:World._sync_from_cpp"]),
                          bounds=f"{e} engine, scenario {s} (checks/scn.py) from an empty network, deterministic mode, 6-9 steps, 3-8 vehicles, statistics queried after the last step{' and in the middle' if tw else ''}, symbolic lengths / departure steps / tolls / capacities / signal times"))
    return dict(jobs=js)


CHECKS = {"C16": c16, "C17": c17}
