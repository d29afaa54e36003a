"""C06: signal timing from the configured phases and offset, over several steps."""
from symx.core import And, Or, Not
from .common import world, steps, both

FPY = ["uxsim.uxsim:Node.__init__", "uxsim.uxsim:Node.override_signal", "uxsim.uxsim:Node.signal_control"]
FCPP = ["uxsim/trafficpp/traffi.cpp:Node::Node", "uxsim/trafficpp/traffi.cpp:Node::signal_update", "uxsim.uxsim_cpp_wrapper:CppNode.__init__", "uxsim.uxsim_cpp_wrapper:CppNode.override_signal"]


def timing(ctx, engine="py", n=2, k=6, offset="sym", old=False, override=False):
    D = 5.0
    W = world(ctx, engine, deltan=5, tmax=D * (k + 4))
    sig = [ctx.real(f"s{i}", 1, 16) for i in range(n)]
    cyc = sum(sig)
    off = 0 if offset == 0 else ctx.real("off", -20, 70)
    if offset != 0:
        ctx.assume(And(off >= -cyc, off <= 2 * cyc))
    W.addNode("a", 0, 0)
    kw = dict(signal_offset_old=off) if old else dict(signal_offset=off) if offset != 0 else {}
    M = W.addNode("m", 1, 0, **({} if override else dict(signal=list(sig), **kw)))
    W.addNode("b", 2, 0)
    W.addLink("l", "a", "m", length=500, signal_group=0)
    W.addLink("o", "m", "b", length=500)
    if override:
        W.addNode("a2", 0, 1)
        W.addLink("l2", "a2", "m", length=500)
    W.addVehicle("a", "b", 0)
    if override:
        # the first and the last phase are for l, the others for l2
        g = [["l"]] + [["l2"] for _ in range(n - 1)]
        g[-1] = g[-1] + ["l"]
        M.override_signal(list(sig), groups=g, reset=True)
        for ln in ("l", "l2"):
            got, exp = sorted(W.get_link(ln).signal_group), [i for i in range(n) if ln in g[i]]
            ctx.check(got == exp, "groups_of_link", f"{ln} {got} expected {exp}")
            if engine == "cpp":
                ctx.check(sorted(W.get_link(ln)._cpp_link.signal_group) == exp, "groups_of_link", f"{ln} engine {W.get_link(ln)._cpp_link.signal_group} expected {exp}")
    p, t = M.signal_phase, M.signal_t
    ctx.check(0 <= p < n, "phase_range", p)
    if not override:
        # elapsed time within the cycle agrees with the configured offset
        el = sum(sig[:p], 0) + t
        want = off if old else -off
        ctx.check(And(ctx.ge(t, 0), ctx.le(t, sig[p])), "elapsed_in_phase", f"phase {p} elapsed {t} of {sig}")
        ctx.check(Or(*[ctx.eq(el, want + m * cyc) for m in range(-3, 5)]), "offset_agrees", f"elapsed in cycle {el}, offset {off}, cycle {cyc}")
    base, cnt, seen = t, 0, []
    for _ in range(k):
        steps(W)
        q = M.signal_phase
        seen.append(q)
        if q == p:
            cnt += 1
        else:
            ctx.check(q == (p + 1) % n, "cyclic_order", f"{p} -> {q}")
            ctx.check(ctx.ge(base + cnt * D, sig[p]), "phase_not_shorter", f"phase {p}: shown for {base}+{cnt}*{D}, configured {sig[p]}")
            p, base, cnt = q, 0, 1
        ctx.check(ctx.le(base + cnt * D, sig[p] + D), "phase_not_longer", f"phase {p}: shown for {base}+{cnt}*{D}, configured {sig[p]}")
    ctx.check(list(M.signal_log)[-k:] == seen, "phase_log", f"{list(M.signal_log)} {seen}")


def c06(tier):
    q = [dict(n=2, k=6), dict(n=3, k=6), dict(n=2, k=3, old=True), dict(n=3, k=5, override=True)]
    if tier != "quick":
        q += [dict(n=3, k=10), dict(n=4, k=10), dict(n=4, k=8, old=True), dict(n=4, k=10, override=True)]
    return dict(jobs=both("checks.sig", "timing", q, FPY, FCPP, "phases 1-16 s, offset between -1 and 2 cycles, step 5 s, k steps from the start"))


CHECKS = {"C06": c06}
