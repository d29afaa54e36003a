"""Property monitors over (pre, post) snapshots of one time step, written once for both engines."""
from types import SimpleNamespace as NS
from symx.core import S, SB, And, Or, Not, Implies

FIN = ("end", "abort")


def entry_index(lk, name):
    return lk.vehs.index(name)


# ----------------------------------------------------------------------------- C01
def inv_C01(ctx, s, sim):
    onlink = {}
    for l in s.link.values():
        for nm in l.vehs:
            onlink.setdefault(nm, []).append(l.name)
    inq = {}
    for n in s.node.values():
        for nm in n.q:
            inq.setdefault(nm, []).append(n.name)
    for nm, v in s.veh.items():
        ol, iq = onlink.get(nm, []), inq.get(nm, [])
        if v.state == "home":
            ok = not ol and not iq
        elif v.state == "wait":
            ok = not ol and iq == [v.orig]
        elif v.state == "run":
            ok = ol == [v.link] and not iq
        else:
            ok = v.state in FIN and not ol and not iq
        ctx.check(ok, "one_place", f"{nm} state={v.state} links={ol} queues={iq} own link={v.link}")
    ctx.check(sorted(s.living) == sorted(nm for nm, v in s.veh.items() if v.state in ("home", "wait", "run")), "living_registry", f"living={s.living} states={[(k, v.state) for k, v in s.veh.items()]}")
    ctx.check(sorted(s.running) == sorted(nm for nm, v in s.veh.items() if v.state == "run"), "running_registry", f"running={s.running} states={[(k, v.state) for k, v in s.veh.items()]}")


def step_C01(ctx, a, b, sim):
    ctx.check(list(a.veh) == list(b.veh)[:len(a.veh)], "vehicle_set", "vehicles disappeared")
    for nm, v in a.veh.items():
        if v.state in FIN:
            ctx.check(b.veh[nm].state == v.state and b.veh[nm].link is None, "finished_stays_finished", nm)


# ----------------------------------------------------------------------------- C02
def inv_C02(ctx, s, sim):
    for l in s.link.values():
        if not l.carr:
            continue
        ctx.check(len(l.carr) == len(l.cdep), "curve_length")
        ctx.check(ctx.le(l.cdep[-1], l.carr[-1]), "departures_not_above_arrivals", f"{l.name} {l.carr} {l.cdep}")
        ctx.check(ctx.eq(l.carr[-1] - l.cdep[-1], s.N * len(l.vehs)), "difference_is_vehicles_on_link", f"{l.name} arr={l.carr} dep={l.cdep} vehs={l.vehs}")
        ctx.check(len(l.carr) == s.T, "one_entry_per_step", f"{l.name} {len(l.carr)} entries at T={s.T}")


def step_C02(ctx, a, b, sim):
    for k, l in b.link.items():
        p = a.link[k]
        n = len(p.carr)
        if n == 0:
            continue
        for i in range(n):
            ctx.check(ctx.eq(l.carr[i], p.carr[i]) if l.carr[i] is not p.carr[i] else True, "past_arrivals_unchanged", f"{k}[{i}]")
            ctx.check(ctx.eq(l.cdep[i], p.cdep[i]) if l.cdep[i] is not p.cdep[i] else True, "past_departures_unchanged", f"{k}[{i}]")
        for i in range(n, len(l.carr)):
            ctx.check(ctx.ge(l.carr[i], l.carr[i - 1]), "arrivals_monotone", f"{k} {l.carr}")
            ctx.check(ctx.ge(l.cdep[i], l.cdep[i - 1]), "departures_monotone", f"{k} {l.cdep}")
        # exactly the vehicles that entered/left in this step are counted
        ent = [v for v in entered(a, b) if entered(a, b)[v] == k]
        ctx.check(ctx.eq(l.carr[-1] - p.carr[-1], b.N * len(ent)), "arrivals_count_entries", f"{k} entered={ent} {p.carr[-1]} -> {l.carr[-1]}")


def entered(a, b):
    """vehicle -> link it entered in this step (at most one per step)"""
    out = {}
    for nm, v in b.veh.items():
        u = a.veh.get(nm)
        if u is None:
            continue
        if u.state in ("home", "wait") and v.state == "run":
            out[nm] = v.link
        elif u.state == "run" and v.state == "run" and v.link != u.link:
            out[nm] = v.link
        elif u.state == "run" and v.state in FIN:
            # either finished from its link, or moved to the next link and finished there within the step
            tr = [x for x in v.traveled if x[1] not in ("home", "end")]
            if left_in_node_phase(a, b, nm):
                out[nm] = u.next
        elif u.state == "wait" and v.state in FIN:
            if sim_first_link(b, nm):
                out[nm] = sim_first_link(b, nm)
    return out


def sim_first_link(b, nm):
    v = b.veh[nm]
    cands = [l.name for l in b.link.values() if l.a == v.orig and (l.b == v.dest if v.state == "end" else True)]
    if len(cands) > 1:
        cands = [x[1] for x in v.traveled if x[1] not in ("home", "end")][-1:]
    return cands[0] if len(cands) == 1 else None


def left_in_node_phase(a, b, nm):
    """vehicle on a link at a, finished at b: did it change links before finishing?"""
    u = a.veh[nm]
    if u.state != "run":
        return False
    la = a.link[u.link]
    if la.b == u.dest or u.next is None or b.link[u.next].a != la.b:
        return False
    return bool(u.x == la.L)


# ----------------------------------------------------------------------------- C03
def inv_C03(ctx, s, sim):
    for l in s.link.values():
        n = l.lanes
        for i, nm in enumerate(l.vehs):
            v = s.veh[nm]
            ctx.check(And(ctx.ge(v.x, 0), ctx.le(v.x, l.L)), "inside_link", f"{nm} on {l.name} x={v.x} L={l.L}")
            ctx.check(0 <= v.lane < n, "lane_range", f"{nm} lane={v.lane} of {n}")
            if i:
                p = s.veh[l.vehs[i - 1]]
                ctx.check(v.lane == (p.lane + 1) % n, "lanes_cyclic", f"{l.name}: {[(x, s.veh[x].lane) for x in l.vehs]}")
            # predecessor in the same lane = last vehicle that entered that lane before
            pred = [x for x in l.vehs[:i] if s.veh[x].lane == v.lane]
            if pred:
                p = s.veh[pred[-1]]
                ctx.check(ctx.le(v.x, p.x - l.delta_pl * s.N), "jam_spacing", f"{l.name}: {nm} x={v.x} behind {p.name} x={p.x}, spacing {l.delta_pl * s.N}")


def step_C03(ctx, a, b, sim):
    for k, l in b.link.items():
        old = a.link[k].vehs
        # those that stayed form a suffix of the old list and a prefix of the new list, in the same order
        stay = [x for x in old if x in l.vehs]
        ctx.check(stay == old[len(old) - len(stay):], "first_in_first_out", f"{k}: {old} -> {l.vehs}")
        ctx.check(stay == l.vehs[:len(stay)], "new_vehicles_enter_behind", f"{k}: {old} -> {l.vehs}")
        for x in stay:
            ctx.check(a.veh[x].lane == b.veh[x].lane, "lane_kept", x)


# ----------------------------------------------------------------------------- C04
def step_C04(ctx, a, b, sim):
    D, N = b.D, b.N
    for k, l in b.link.items():
        for i, nm in enumerate(l.vehs):
            v, u = b.veh[nm], a.veh[nm]
            same = u.state == "run" and u.link == k
            ctx.check(ctx.ge(v.v, 0), "speed_nonneg", f"{nm} v={v.v}")
            start = v.x0                # position after the node phase, before moving
            if same:
                ctx.check(ctx.eq(start, u.x), "no_jump", f"{nm} {u.x} -> {start}")
                start = u.x
            else:
                ctx.check(And(ctx.ge(start, 0), ctx.le(start, l.L)), "entry_position", f"{nm} {start}")
                if u.state != "run":
                    ctx.check(ctx.eq(start, 0), "departs_from_link_start", nm)
                else:
                    lo = a.link[u.link]
                    # time left at the end of the previous link, at the new link's speed
                    over = u.x0 + lo.u * D - lo.L
                    want = over * l.u / lo.u
                    if want < 0:
                        want = 0.0
                    if want > l.L:
                        want = l.L
                    lead = leader_at_node_phase(a, b, k, nm)
                    gone = leader_leaving(a, b, k, nm)
                    if gone is not None:
                        # the leader left the link in the same step: it may still have limited the entry position
                        gap = gone - l.delta_pl * N
                        gap = gap if gap > 0 else 0.0
                        ctx.check(Or(ctx.eq(start, want), And(ctx.eq(start, gap), gap <= want)), "carry_over", f"{nm} entered {k} at {start}, time left gives {want}, leader leaving allowed {gap}")
                    elif lead is not None:
                        ctx.check(ctx.le(start, want), "carry_over_not_more_than_time_left", f"{nm} {start} > {want}")
                        gap = lead[1] - l.delta_pl * N
                        if gap >= want:
                            ctx.check(ctx.eq(start, want), "carry_over", f"{nm} entered {k} at {start}, time left gives {want}")
                    else:
                        ctx.check(ctx.eq(start, want), "carry_over", f"{nm} entered {k} at {start}, time left gives {want}")
            adv = v.x - start
            ctx.check(And(ctx.ge(adv, 0), ctx.le(adv, l.u * D)), "advance_range", f"{nm} on {k}: {start} -> {v.x} u={l.u}")
            ctx.check(ctx.le(v.x, l.L), "stops_at_end", f"{nm} x={v.x}")
            ctx.check(ctx.eq(v.v * D, adv), "speed_is_advance", f"{nm} v={v.v} advance={adv}")
            want = start + l.u * D
            if want > l.L:
                want = l.L
            lead = leader_at_node_phase(a, b, k, nm)
            if lead is None:
                ctx.check(ctx.eq(v.x, want), "free_flow_when_unconstrained", f"{nm} on {k}: {start} -> {v.x}, free flow gives {want}")
            else:
                gap = lead[0] - l.delta_pl * N
                if gap < start:
                    gap = start
                if gap < want:
                    ctx.check(ctx.eq(v.x, gap), "follows_leader_at_jam_spacing", f"{nm} on {k}: {start} -> {v.x}, leader allows {gap}")
                else:
                    ctx.check(ctx.eq(v.x, want), "free_flow_when_unconstrained", f"{nm} on {k}: {start} -> {v.x}, free flow gives {want}")


def order_on_link(a, b, k):
    """entry order of the vehicles on link k after the node phase of the step: old ones that did not leave in the node phase, then entrants"""
    old = [x for x in a.link[k].vehs if not _left_by_transfer(a, b, x, k)]
    new = [x for x in b.link[k].vehs if x not in a.link[k].vehs]
    # entrants that already finished inside the step
    fin = [x for x, kk in entered(a, b).items() if kk == k and b.veh[x].state in FIN]
    return old, fin + new


def _left_by_transfer(a, b, x, k):
    v = b.veh[x]
    if v.state == "run":
        return v.link != k
    return left_in_node_phase(a, b, x) or finished_in_node_phase(a, b, x)


def finished_in_node_phase(a, b, x):
    """a vehicle already at its destination's link end at `a`, ended because the vehicle before it left in the node phase"""
    u = a.veh[x]
    if u.state != "run" or b.veh[x].state not in FIN:
        return False
    l = a.link[u.link]
    if not bool(u.x == l.L) or left_in_node_phase(a, b, x):
        return False
    for y in l.vehs[:l.vehs.index(x)]:
        if not (_moved_out(a, b, y, l.name) or finished_in_node_phase(a, b, y)):
            return False
    return True


def leader_at_node_phase(a, b, k, nm):
    """(position of the same-lane leader after the node phase, its position one step before) or None"""
    l = b.link[k]
    old, new = order_on_link(a, b, k)
    seq = old + new
    i = seq.index(nm)
    lane = b.veh[nm].lane
    cand = [x for x in seq[:i] if (b.veh[x].lane if b.veh[x].state == "run" else a.veh[x].lane) == lane]
    if not cand:
        return None
    p = cand[-1]
    if p in old:
        return a.veh[p].x, a.veh[p].x0
    return b.veh[p].x0, b.veh[p].x0


def leader_leaving(a, b, k, nm):
    """previous position of the vehicle before nm in its lane if that vehicle left link k during this step's node phase"""
    new = order_on_link(a, b, k)[1]
    i = new.index(nm)
    if i >= b.link[k].lanes:
        return None
    old = a.link[k].vehs
    j = len(old) + i - b.link[k].lanes
    if j < 0 or not _left_by_transfer(a, b, old[j], k):
        return None
    return a.veh[old[j]].x0


# ----------------------------------------------------------------------------- C05
def step_C05(ctx, a, b, sim):
    D, N = b.D, b.N
    ent = entered(a, b)
    for k, l in b.link.items():
        p = a.link[k]
        nin = N * sum(1 for x in ent.values() if x == k)
        out = [x for x in p.vehs if _moved_out(a, b, x, k)]
        nout = N * len(out)
        lim = N * l.lanes
        allow_in = p.cin_rem + l.cin * D if p.cin_rem < lim else p.cin_rem
        allow_out = p.cout_rem + l.cout * D if p.cout_rem < lim else p.cout_rem
        ctx.check(nin == 0 or ctx.le(nin, allow_in), "link_inflow_capacity", f"{k}: {nin} entered, allowance {allow_in}")
        ctx.check(nout == 0 or ctx.le(nout, allow_out), "link_outflow_capacity", f"{k}: {nout} transferred out, allowance {allow_out}")
        ctx.check(ctx.eq(l.cin_rem, allow_in - nin), "inflow_allowance_update", f"{k}: {p.cin_rem} -> {l.cin_rem}, entered {nin}")
        ctx.check(ctx.eq(l.cout_rem, allow_out - nout), "outflow_allowance_update", f"{k}: {p.cout_rem} -> {l.cout_rem}, out {nout}")
    for k, n in b.node.items():
        if n.cap is None:
            continue
        p = a.node[k]
        thr = N * sum(1 for x in a.veh if a.veh[x].state == "run" and a.link[a.veh[x].link].b == k and _moved_out(a, b, x, a.veh[x].link))
        lim = N * n.lanes
        allow = p.rem + n.cap * D if p.rem < lim else p.rem
        ctx.check(thr == 0 or ctx.le(thr, allow), "node_capacity", f"{k}: {thr} passed, allowance {allow}")
        ctx.check(ctx.eq(n.rem, allow - thr), "node_allowance_update", f"{k}: {p.rem} -> {n.rem}, passed {thr}")


def _moved_out(a, b, x, k):
    """x was on link k and was transferred to another link in this step"""
    u, v = a.veh[x], b.veh[x]
    if u.state != "run" or u.link != k:
        return False
    if v.state == "run":
        return v.link != k
    return left_in_node_phase(a, b, x)


# ----------------------------------------------------------------------------- C06 (green only)
def step_C06(ctx, a, b, sim):
    for nm, u in a.veh.items():
        if u.state == "run" and _moved_out(a, b, nm, u.link):
            lk = b.link[u.link]
            n = b.node[lk.b]
            if n.nphase > 1:
                ctx.check(n.phase in lk.sg, "passes_only_on_green", f"{nm} left {lk.name} (groups {lk.sg}) in phase {n.phase}")
            else:
                ctx.check(True, "single_phase")
    step_signal(ctx, a, b)


def step_signal(ctx, a, b):
    for k, n in b.node.items():
        p = a.node[k]
        ctx.check(0 <= n.phase < max(1, n.nphase), "phase_range", f"{k} {n.phase}")
        if n.nphase > 1:
            ctx.check(n.phase in (p.phase, (p.phase + 1) % n.nphase), "phase_order", f"{k} {p.phase} -> {n.phase}")


# ----------------------------------------------------------------------------- C07
def room_ok(a, b, k, seq_before, lane_count, N):
    pass


def step_C07(ctx, a, b, sim):
    D, N = b.D, b.N
    det = sim.spec.get("opts", {}).get("hard_deterministic_mode", False)
    moved = {}
    for nm, u in a.veh.items():
        if u.state != "run" or not _moved_out(a, b, nm, u.link):
            continue
        v = b.veh[nm]
        lo = a.link[u.link]
        to = v.link if v.state == "run" else u.next
        moved[nm] = to
        ctx.check(to == u.next, "into_requested_link", f"{nm} requested {u.next}, entered {to}")
        ctx.check(b.link[to].a == lo.b, "through_its_node", f"{nm}: {lo.name} -> {to}")
        ctx.check(ctx.eq(u.x, lo.L), "had_reached_link_end", f"{nm} x={u.x} L={lo.L}")
        i = lo.vehs.index(nm)
        ctx.check(all(not (b.veh[y].state == "run" and b.veh[y].link == lo.name) for y in lo.vehs[:i]), "from_head_of_link", f"{nm} overtook on {lo.name}: {lo.vehs}")
    # room: every vehicle that entered a link finds the lane's last vehicle beyond jam spacing
    for k, l in b.link.items():
        old, new = order_on_link(a, b, k)
        for j, x in enumerate(new):
            lane = b.veh[x].lane
            if b.veh[x].state != "run":
                continue
            before = old + new[:j]
            if len(before) >= l.lanes:
                p = before[-l.lanes]
                # position when x entered: an older vehicle has not moved yet in this step
                px = a.veh[p].x if p in old else b.veh[p].x0
                # a vehicle that left link k at its other end in the same step makes room as well
                ctx.check(px > l.delta_pl * N, "room_on_entry", f"{x} entered {k} behind {p} at {px}, needs more than {l.delta_pl * N}")
            ctx.check(True, "entry_seen")
    # competition and work conservation
    for k, n in b.node.items():
        heads = []
        for ln in n.inl:
            lk = a.link[ln]
            if not lk.vehs:
                continue
            h = lk.vehs[0]
            u = a.veh[h]
            if b.veh[h].state == "run" and b.veh[h].link == ln and u.next is not None and (u.dest != lk.b):
                if not (u.x == lk.L):
                    continue
                green = n.nphase <= 1 or n.phase in lk.sg
                if not green:
                    continue
                if not (b.link[ln].cout_rem >= N):
                    continue
                heads.append((h, ln, u.next))
        for h, ln, to in heads:
            ctx.check(True, "waiting_head_seen")
            rivals = [x for x, t in moved.items() if t == to and a.link[a.veh[x].link].b == k]
            for r in rivals:
                pr, ph = b.link[a.veh[r].link].prio, b.link[ln].prio
                ctx.check(Or(pr > 0, Not(ph > 0)), "zero_priority_never_before_positive", f"{r} (priority {pr}) passed before {h} (priority {ph})")
                if det:
                    ctx.check(ctx.ge(pr, ph), "highest_priority_first", f"{r} (priority {pr}) passed before {h} (priority {ph})")
            if rivals:
                continue
            lt = b.link[to]
            if not (lt.cin_rem >= N):
                continue
            if n.cap is not None and not (n.rem >= N):
                continue
            # vehicles that may have been on the target link when the node was served (counting those that left meanwhile)
            old = list(a.link[to].vehs)
            new = [x for x in b.link[to].vehs if x not in old] + [x for x, t in entered(a, b).items() if t == to and b.veh[x].state in FIN]
            seq = old + new
            if len(seq) >= lt.lanes:
                p = seq[-lt.lanes]
                px = a.veh[p].x if p in old else b.veh[p].x0
                room = px > lt.delta_pl * N
                if not room:
                    continue
            ctx.check(False, "never_idle", f"{h} at the end of {ln} wants {to}: room, capacities and signal allow, but nobody passed node {k}")


# ----------------------------------------------------------------------------- C08
ALLOWED = {"home": ("home", "wait"), "wait": ("wait", "run", "end", "abort"), "run": ("run", "end", "abort"), "end": ("end",), "abort": ("abort",)}


def step_C08(ctx, a, b, sim):
    T = a.T
    for nm, v in b.veh.items():
        u = a.veh[nm]
        ctx.check(v.state in ALLOWED[u.state], "one_way", f"{nm} {u.state} -> {v.state}")
        if u.state == "home" and v.state == "wait":
            ctx.check(T >= v.dep, "not_before_departure_time", f"{nm} waits at step {T}, departs {v.dep}")
        if u.state == "home" and v.state == "home":
            ctx.check(T < v.dep, "starts_waiting_at_departure", f"{nm} still home at step {T}, departs {v.dep}")
        if v.state in FIN and u.state not in FIN:
            # where did it finish
            if u.state == "run":
                last = u.next if left_in_node_phase(a, b, nm) else u.link
            else:
                last = sim_first_link(b, nm)
            if last is not None:
                l = b.link[last]
                if v.state == "end":
                    ctx.check(l.b == v.dest, "ends_at_destination", f"{nm} ended on {last} -> {l.b}, destination {v.dest}")
                    if u.state == "run" and last == u.link:
                        reach = u.x + l.u * b.D
                        ctx.check(ctx.ge(reach, l.L), "ends_only_at_link_end", f"{nm} ended at x={u.x} of {l.L}")
                else:
                    ctx.check(l.b != v.dest and len(b.node[l.b].outl) == 0, "aborts_only_at_dead_end", f"{nm} aborted on {last} -> {l.b}, destination {v.dest}")
                    ctx.check(u.trip_abort == 1, "aborts_only_if_told_to", f"{nm} aborted with trip_abort={u.trip_abort}")
        if v.state == "end":
            ctx.check(ctx.eq(v.tt, (v.arr - v.dep) * b.D), "travel_time_is_arrival_minus_departure", f"{nm} arr={v.arr} dep={v.dep} tt={v.tt}")
            ctx.check(ctx.ge(v.tt, 0), "travel_time_nonneg", f"{nm} {v.tt}")
            if u.state != "end":
                ctx.check(v.arr == T, "arrival_step", f"{nm} arrived {v.arr} at step {T}")
        else:
            ctx.check(v.tt == -1 and v.arr == -1, "no_travel_time_unless_completed", f"{nm} {v.state} arr={v.arr} tt={v.tt}")
        # a vehicle that stood first at the end of a link into its destination (or a dead end) does not stay there for another step
        if u.state == "run" and u.mode == "single_trip":
            l = a.link[u.link]
            if l.vehs[0] == nm and bool(u.x == l.L):
                if l.b == u.dest:
                    ctx.check(v.state == "end", "completes_on_arrival", f"{nm} stays at the end of {l.name} into its destination")
                elif not a.node[l.b].outl and u.trip_abort == 1:
                    ctx.check(v.state == "abort", "aborts_at_dead_end", f"{nm} stays at dead end {l.b}")


# ----------------------------------------------------------------------------- C13
def allowed_next(b, v, node, visited, no_cyclic, det):
    """the set of acceptable outgoing links of `node` for vehicle v (name list), or None if none exists"""
    out = list(b.node[node].outl)
    if not out:
        return None
    pf = [l for l in out if l in v.prefer]
    if pf:
        out = pf
    if any(l in v.avoid for l in out):
        o2 = [l for l in out if l not in v.avoid]
        if o2:
            out = o2
    if no_cyclic and v.mode != "taxi":
        o2 = [l for l in out if b.link[l].b not in visited]
        if o2:
            out = o2
    w = [v.pref[l] for l in out]
    if det:
        res = []
        for i, l in enumerate(out):
            if all(bool(w[i] >= x) for x in w):
                res.append(l)
        return res
    pos = [l for l, x in zip(out, w) if x > 0]
    return pos or out


def step_C13(ctx, a, b, sim):
    o = sim.spec.get("opts", {})
    det, nocyc = o.get("hard_deterministic_mode", False), o.get("no_cyclic_routing", False)
    ent = entered(a, b)
    for nm, v in b.veh.items():
        u = a.veh[nm]
        if u.state == "wait" and nm in ent:
            # departure choice
            if v.route:
                ctx.check(ent[nm] == v.route[0], "specified_route_first_link", f"{nm} departed into {ent[nm]}, route {v.route}")
            else:
                al = allowed_next(b, u, v.orig, [], False, det)
                ctx.check(al is not None and ent[nm] in al, "departure_link_allowed", f"{nm} departed into {ent[nm]}, allowed {al}")
        if v.state == "run" and v.x == b.link[v.link].L and b.link[v.link].b != v.dest:
            node = b.link[v.link].b
            links = [x[1] for x in v.traveled if x[1] not in ("home", "end")]
            if links and links[-1] != v.link:
                links = links + [v.link]
            if not b.node[node].outl:
                ctx.check(v.next is None, "no_link_at_dead_end", nm)
                continue
            if v.route:
                ctx.check(len(links) < len(v.route) and v.next == v.route[len(links)], "specified_route_followed", f"{nm} after {links} chose {v.next}, route {v.route}")
                ctx.check(links == v.route[:len(links)], "specified_route_travelled", f"{nm} {links} vs {v.route}")
                continue
            visited = [b.link[x].a for x in links]
            # the weights it chose by: those before this step's route update (a vehicle's own gradual update comes before its choice)
            al = allowed_next(b, v if o.get("route_choice_update_gradual") and b.engine == "py" else NS(prefer=v.prefer, avoid=v.avoid, mode=v.mode, pref=u.pref), node, visited, nocyc, det)
            ctx.check(v.next in al, "next_link_allowed", f"{nm} at {node}: chose {v.next}, allowed {al} (prefer {v.prefer} avoid {v.avoid} pref {v.pref} visited {visited})")
        # nobody changes its mind without being at a node
        if v.state == "run" and u.state == "run" and v.link == u.link:
            if not (v.x == b.link[v.link].L):
                ctx.check(v.next == u.next, "choice_only_at_node", nm)


# ----------------------------------------------------------------------------- C15 (recording part)
def step_C15(ctx, a, b, sim):
    D = b.D
    T = a.T
    for k, l in b.link.items():
        p = a.link[k]
        want = list(p.tta)
        leavers = []
        for x in p.vehs:
            u, v = a.veh[x], b.veh[x]
            if v.state == "run" and v.link == k:
                continue
            if _moved_out(a, b, x, k):
                leavers.append((x, u.t_in, T * D - u.t_in))
            else:
                leavers.append((x, u.t_in, (T + 1) * D - u.t_in))
        short = [x for x, kk in entered(a, b).items() if kk == k and b.veh[x].state in FIN]
        for x in short:
            leavers.append((x, T * D, D))
        for x, t0, tt in leavers:
            i0 = int(t0 / D)
            for i in range(i0, len(want)):
                want[i] = tt
            # never shorter than free flow by more than one step
            ctx.check(ctx.ge(tt + D, l.L / l.u), "not_faster_than_free_flow", f"{x} left {k} after {tt}, free flow {l.L / l.u}")
        for i in range(len(want)):
            if want[i] is l.tta[i]:
                continue
            ctx.check(ctx.eq(l.tta[i], want[i]), "recorded_travel_time", f"{k} at step {i}: recorded {l.tta[i]}, experienced {want[i]}; leavers {leavers}")
        if leavers:
            ctx.check(True, "leaver_seen")


STEP = {k[5:]: v for k, v in list(globals().items()) if k.startswith("step_C")}
INV = {k[4:]: v for k, v in list(globals().items()) if k.startswith("inv_C")}


def observe(ctx, mons, a, b, sim):
    for m in mons:
        if a is not None and m in STEP:
            STEP[m](ctx, a, b, sim)
        if m in INV:
            INV[m](ctx, b, sim)
