"""Exploration of harness jobs over several processes, replay of counterexamples, evidence."""
import sys, os, json, time, signal, traceback, importlib, multiprocessing as mp, subprocess, hashlib
from fractions import Fraction
from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


PATH_LIMIT_S = int(os.environ.get("SYMX_PATH_LIMIT", "60"))


class PathTimeout(BaseException):
    pass


class Job:
    """one harness in one configuration"""

    def __init__(self, module, func, cfg=None, functions=(), bounds="", name=None, expect_exc=(), max_paths=None, weight=1, cpp=None):
        self.module, self.func, self.cfg = module, func, dict(cfg or {})
        self.functions = list(functions)
        self.bounds = bounds
        self.name = name or (func + ("" if not self.cfg else ":" + ",".join(f"{k}={v}" for k, v in self.cfg.items())))
        self.max_paths = max_paths
        self.weight = weight
        self.cpp = bool(cpp if cpp is not None else self.cfg.get("engine") in ("cpp", "both"))

    def spec(self):
        return dict(module=self.module, func=self.func, cfg=self.cfg)


def _tag(e, repo):
    """where in the code under test an exception was raised"""
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(repo):
            return f"{os.path.relpath(fr.filename, repo)}:{fr.name}"
    return None


def explore(job, prefixes, budget_s, max_paths, ctx_cache={}):
    """depth-first exploration from given prefixes; returns (stats, remaining prefixes)"""
    mod = importlib.import_module(job["module"])
    fn = getattr(mod, job["func"])
    ctx = core.Ctx()
    stack = [(p, m) for p, m in prefixes]
    t0 = time.time()
    st = ctx.stat
    def _alarm(*a):
        raise PathTimeout()
    try:
        signal.signal(signal.SIGALRM, _alarm)
    except ValueError:
        pass
    while stack:
        prefix, model = stack.pop()
        ctx.start(prefix, model)
        err = None
        try:
            signal.alarm(PATH_LIMIT_S)
            fn(ctx, **job["cfg"])
            signal.alarm(0)
            ctx.flush()
            st["paths"] += 1
            if len(ctx.samples) < 2:
                ctx.samples.append(dict(harness=job["func"], cfg=str(job["cfg"]), decisions=len(ctx.levels), inputs=ctx.model_str(), model=ctx.model_str(), choices=list(ctx.choices)))
        except core.NotEncodable as e:
            signal.alarm(0)
            st["limits"] += 1
            ctx.limit_msgs["not encodable: " + str(e)] = 1
            stack.clear()
            break
        except PathTimeout:
            # the code under test did not finish this path: a violation only if the replay does not finish either
            st["limits"] += 1
            ctx.limit_msgs["path time limit"] = ctx.limit_msgs.get("path time limit", 0) + 1
            ctx._violation([(True, "does_not_terminate", f"path ran for {PATH_LIMIT_S} s")])
        except core.PathAbort:
            signal.alarm(0)
            st["aborted"] += 1
            try:
                ctx.flush()
            except core.PathAbort:
                pass
        except core.SymLimit as e:
            signal.alarm(0)
            st["limits"] += 1
            ctx.limit_msgs[str(e)] = ctx.limit_msgs.get(str(e), 0) + 1
            ctx.flush()
        except Exception as e:
            signal.alarm(0)
            err = e
            ctx.flush()
            if ctx._path_feasible():
                ctx._violation([(True, "exception", f"{type(e).__name__}: {e} @ {_tag(e, REPO)} | " + "".join(traceback.format_tb(e.__traceback__)[-3:]))])
        stack.extend(ctx.alts)
        if len(ctx.violations) >= 6:
            break
        if time.time() - t0 > budget_s or st["paths"] + st["aborted"] >= max_paths:
            break
    return dict(stat=st, viol=ctx.violations, reach=ctx.reach, limits=ctx.limit_msgs, samples=ctx.samples, wall=time.time() - t0), stack


def _worker(args):
    idx, job, prefixes, budget, maxp = args
    try:
        r, rest = explore(job, prefixes, budget, maxp)
        return idx, r, rest, None
    except BaseException as e:
        return idx, None, [], "".join(traceback.format_exception(e))[-3000:]


def run_jobs(jobs, deadline_s, verbose=True, built=None):
    """explore all jobs completely, or until the deadline; built(): the compiled engine is there (or failed to compile)"""
    t0 = time.time()
    ctxm = mp.get_context("fork")
    res = [dict(stat={}, viol=[], reach={}, limits={}, samples=[], rest=0, wall=0.0, err=None) for _ in jobs]
    pool = ctxm.Pool(min(NPROC, max(1, NPROC)), maxtasksperchild=200)
    # pending work: every harness gets its share of the time, so that the small ones are finished whatever the large ones need
    from collections import deque
    pend = {i: deque([[([], None)]]) for i in range(len(jobs))}
    running = [0] * len(jobs)
    inflight = 0
    waiting = built is not None
    import queue as _q
    done = _q.Queue()
    started = [0] * len(jobs)
    stopped = False
    bad = [False] * len(jobs)

    def submit():
        nonlocal inflight, waiting, deadline_s
        if waiting and built():
            waiting = False
            deadline_s += min(max(0, time.time() - t0 - 20), 240)      # a slow compiler does not shorten the exploration
        while pend and inflight < NPROC * 2 and not stopped:
            can = [k for k in pend if not (waiting and jobs[k].cpp)]
            if not can:
                break
            i = min(can, key=lambda k: (res[k]["wall"] + 2 * running[k], k))
            pf = pend[i].popleft()
            if not pend[i]:
                del pend[i]
            if bad[i]:
                continue
            remaining = deadline_s - (time.time() - t0)
            if remaining <= 0:
                res[i]["rest"] += len(pf)
                continue
            bud = min(6.0 if started[i] else 1.5, max(0.2, remaining))
            started[i] += 1
            pool.apply_async(_worker, ((i, jobs[i].spec(), pf, bud, 10**9),), callback=done.put, error_callback=lambda e: done.put((None, None, [], str(e))))
            inflight += 1
            running[i] += 1

    submit()
    fatal = []
    while inflight or (pend and waiting):
        try:
            idx, r, rest, err = done.get(timeout=0.3 if waiting else 5)
        except _q.Empty:
            if waiting:
                submit()
            if time.time() - t0 > deadline_s + 60:
                break
            continue
        inflight -= 1
        if idx is not None:
            running[idx] -= 1
        if err:
            fatal.append(err if idx is None else f"{jobs[idx].name}: {err}")
            if idx is not None:
                res[idx]["err"] = err
        else:
            R = res[idx]
            for k, v in r["stat"].items():
                R["stat"][k] = R["stat"].get(k, 0) + v
            R["viol"] += r["viol"]
            for k, v in r["reach"].items():
                R["reach"][k] = R["reach"].get(k, 0) + v
            for k, v in r["limits"].items():
                R["limits"][k] = R["limits"].get(k, 0) + v
            R["samples"] = (R["samples"] + r["samples"])[:2]
            R["wall"] += r["wall"]
            mp_ = jobs[idx].max_paths
            if len(R["viol"]) >= 6:
                R["rest"] += len(rest)
                bad[idx] = True
            elif rest:
                if mp_ and R["stat"].get("paths", 0) >= mp_:
                    R["rest"] += len(rest)
                else:
                    # split the remaining prefixes into chunks for other workers
                    n = min(len(rest), 8)
                    for c in range(n):
                        pend.setdefault(idx, deque()).append(rest[c::n])
        submit()
    for i, q in pend.items():
        res[i]["rest"] += sum(len(pf) for pf in q)
    pool.terminate()
    pool.join()
    return res, fatal, time.time() - t0


def replay_one(spec, model, choices, timeout=60):
    """run one assignment on the unpatched code in a fresh process; returns dict"""
    env = dict(os.environ)
    env["SYMX_MODE"] = "concrete"
    env.setdefault("PYTHONHASHSEED", "0")
    try:
        p = subprocess.run([sys.executable, "-m", "symx.replay", "-"], input=json.dumps(dict(spec=spec, model=model, choices=choices)), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(failed=[("does_not_terminate", f"no result after {timeout} s")], error=None)
    for ln in p.stdout.splitlines():
        if ln.startswith("REPLAY "):
            return json.loads(ln[7:])
    return dict(failed=[], error="replay process: rc=%d %s" % (p.returncode, (p.stdout + p.stderr)[-1500:]))


STRICT = os.environ.get("SYMX_STRICT") == "1"     # development: encoding problems fail the check


def known_findings(prop):
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            ln = ln.strip()
            if ln.startswith("finding:") and f"property={prop} " in ln:
                d = dict(x.split("=", 1) for x in ln[8:].split("|")[0].split() if "=" in x)
                d["text"] = ln.split("|", 1)[1].strip() if "|" in ln else ln
                out.append(d)
    return out


def run_check(prop, jobs, tier, level, assumptions, deadline, stubs=(), method=""):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bld = None
    if any(j.cpp for j in jobs):
        from . import cppbuild
        kinds = {j.cfg.get("build", "") for j in jobs if j.cpp}
        bld = cppbuild.Build(kinds=tuple(k + m for k in kinds for m in ("sym", "con")))
        bld.publish()
    jobs = sorted(jobs, key=lambda j: j.cpp)        # the engine is being compiled meanwhile
    res, fatal, wall = run_jobs(jobs, deadline, built=bld and bld.ready)
    tot = {}
    for r in res:
        for k, v in r["stat"].items():
            tot[k] = tot.get(k, 0) + v
    rest = sum(r["rest"] for r in res)
    kf = known_findings(prop)
    confirmed, unconfirmed, known_hit, soft = [], [], {}, []
    tried = 0
    rt0 = time.time()
    # every counterexample is replayed on the real code, the first one of every harness and tag first, until enough are confirmed
    todo, nth = [], {}
    for ji, (j, r) in enumerate(zip(jobs, res)):
        for v in r["viol"]:
            n = nth[ji, v["tag"]] = nth.get((ji, v["tag"]), -1) + 1
            todo.append((n, ji, j, v))
    todo.sort(key=lambda x: x[:2])

    def replay_all(j, v):
        for k, m in enumerate(v["models"]):
            if len(confirmed) >= 3 or time.time() - rt0 > (150 if confirmed else 420):
                return (None, k) if k else None
            o = replay_one(j.spec(), m, v["choices"])
            if o.get("failed"):
                return (m, o), k + 1
        return None, len(v["models"])

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NPROC) as ex:
        futs = [(j, v, ex.submit(replay_all, j, v)) for _, _, j, v in todo]
        for j, v, fut in futs:
            key = v["tag"]
            out = fut.result()
            if out is None or len(confirmed) >= 3 or any(c["job"] == j.name and c["tag"] == key for c in confirmed):
                continue
            ok = out[0]
            tried += out[1]
            if ok:
                tags = [f[0] for f in ok[1]["failed"]]
                rec = dict(property=prop, job=j.name, spec=j.spec(), tag=key, failed=ok[1]["failed"], model=ok[0], choices=v["choices"], symbolic_info=v["info"])
                hit = None
                for k in kf:
                    if k.get("harness") == j.func and all(t == k.get("tag") for t in tags):
                        hit = k
                if hit:
                    known_hit[hit["tag"] + "@" + hit["harness"]] = hit
                else:
                    confirmed.append(rec)
            else:
                rec = dict(job=j.name, tag=key, info=v["info"], models=v["models"][:1], choices=v["choices"])
                if key in ("exception", "does_not_terminate"):
                    soft.append(rec)
                else:
                    unconfirmed.append(rec)
    # validation of the encoding: the inputs of some completed paths are run on the unpatched code
    validated, mismatch = 0, []
    vt0 = time.time()
    for j, r in zip(jobs, res):
        for smp in r["samples"][:1]:
            if validated >= (4 if tier == "quick" else 16) or time.time() - vt0 > (20 if tier == "quick" else 120) or not smp.get("model"):
                continue
            o = replay_one(j.spec(), smp["model"], smp["choices"])
            validated += 1
            if o.get("failed") or o.get("error"):
                mismatch.append(dict(job=j.name, result=o.get("failed"), error=o.get("error")))
    for r in res:
        for smp in r["samples"]:
            smp.pop("model", None)
    # vacuity: every harness must have completed paths and reached its assertions
    vac = [j.name for j, r in zip(jobs, res) if not r["viol"] and r["rest"] == 0 and (r["stat"].get("paths", 0) == 0 or not r["reach"])]
    started = [j.name for j, r in zip(jobs, res) if not r["stat"]]
    notenc = [j.name for j, r in zip(jobs, res) if any(k.startswith("not encodable") for k in r["limits"])]
    vac = [v for v in vac if v not in started and v not in notenc]
    if notenc:
        print("note: not encodable on this tree, skipped: " + ", ".join(notenc[:6]))
    if len(notenc) == len(jobs):
        vac = notenc
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = []
    if confirmed:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for i, c in enumerate(confirmed):
            fn = os.path.join(d, f"{prop}_{i}.json")
            json.dump(c, open(fn, "w"), indent=1)
            replays.append(fn)
    funcs = sorted({f for j in jobs for f in j.functions})
    exhaustive = rest == 0 and not tot.get("limits") and not tot.get("concretized") and not tot.get("unknown_assert") and not fatal and not soft and not unconfirmed
    samples = [s for r in res for s in r["samples"]][:6] or [dict(note="no completed path")]
    cov = dict(
        explanation=("Solver-based bounded checking: the listed functions of the current /repo tree are executed symbolically (every feasible path within the bounds; branch "
                     "feasibility and every assertion decided by z3 over all input values on the path). " + method),
        functions_encoded=funcs,
        harnesses=[dict(name=j.name, bounds=j.bounds, paths=r["stat"].get("paths", 0), checks=r["stat"].get("checks", 0), unexplored_prefixes=r["rest"], cpu_s=round(r["wall"], 1),
                        assertions_reached=r["reach"], **({"limits": r["limits"]} if r["limits"] else {})) for j, r in zip(jobs, res)],
        states=tot.get("decisions", 0), states_rule="symbolic branch points decided by the solver (a path condition each)",
        transitions=tot.get("paths", 0), transitions_rule="complete symbolic paths through the harness", traces_validated_against_impl=validated, validation_mismatches=mismatch,
        paths_cut_by_assumption=tot.get("aborted", 0),
        queries_discharged=tot.get("queries", 0), assertion_queries=tot.get("assert_queries", 0), assertions_generated=tot.get("checks", 0), assertions_concretely_true=tot.get("trivial", 0),
        assertions_discharged_by_solver=tot.get("discharged", 0), solver_time_s=round(tot.get("solver_s", 0.0), 2),
        unknown_assertions=tot.get("unknown_assert", 0), unknown_branches_explored_both_ways=tot.get("unknown_branch", 0),
        paths_not_encodable=tot.get("limits", 0), values_concretised=tot.get("concretized", 0), unexplored_prefixes=rest, exhaustive=bool(exhaustive),
        counterexamples_replayed=tried, stubs=list(stubs), samples=samples)
    if unconfirmed:
        cov["inconclusive_counterexamples"] = [dict(job=x["job"], tag=x["tag"], info=(x["info"] or "")[:400]) for x in unconfirmed[:5]]
    if vac:
        cov["vacuous_harnesses"] = vac
    if soft:
        cov["unreplayable_exceptions"] = [dict(job=x["job"], info=(x["info"] or "")[:400]) for x in soft[:5]]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} [{tier}] harnesses={len(jobs)} paths={tot.get('paths',0)} checks={tot.get('checks',0)} queries={tot.get('queries',0)} solver={tot.get('solver_s',0):.1f}s "
          f"wall={time.time()-t0:.1f}s exhaustive={exhaustive} rest={rest} limits={tot.get('limits',0)} unknown={tot.get('unknown_assert',0)}")
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['text']}")
    if confirmed:
        for c, fn in zip(confirmed, replays):
            print(f"  {c['job']}: {c['tag']}: {c['failed'][:3]}")
        print(f"VIOLATION property={prop} replay={replays[0]}")
        return 1
    rc = 0
    if fatal:
        print("ERROR: harness failure:\n" + "\n".join(fatal[:3]))
        rc = 2
    if unconfirmed:
        # the real code satisfies the property on these inputs: the encoding is at fault there, nothing is reported as a violation
        print("INCONCLUSIVE: counterexamples that do not reproduce on the real code: " + json.dumps(unconfirmed[:3], indent=1)[:3000])
        if STRICT:
            rc = 2
    if vac:
        print("ERROR: vacuous harness(es): " + ", ".join(vac[:10]))
        for j, r in zip(jobs, res):
            if j.name in vac:
                print("   ", j.name, r["limits"], r["stat"])
        if STRICT or len(vac) == len(jobs):
            rc = 2
    if soft:
        print("note: exceptions under symbolic execution that the real code does not raise: " + "; ".join((x["info"] or "")[:600] for x in soft[:3]))
    return rc
