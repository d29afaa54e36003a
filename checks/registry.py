"""Which harnesses decide which property, per tier."""
import importlib
from symx.runner import Job

COMMON_ASSUME = [
    "floating-point numbers are modelled as exact reals; assertions carry a tolerance of 1e-6 and a counterexample counts only if the real (floating-point) code reproduces it",
    "random draws are arbitrary values their documented contract allows (numpy Generator / C++ distributions are trusted to respect it)",
    "inputs outside the stated bounds (more vehicles, lanes, links, steps, larger values) are not covered",
]
STUBS = ["W.rng -> nondeterministic choice", "uxsim.analyzer.load_font_data -> empty font", "numpy float arrays -> object arrays of symbolic reals", "printing disabled"]
MODULES = ["checks.reg_dyn", "checks.sig", "checks.route", "checks.scn", "checks.logs", "checks.pieces", "checks.look", "checks.demand", "checks.save", "checks.edie", "checks.taxi", "checks.util", "checks.osm", "checks.dta", "checks.thr", "checks.repro", "checks.search"]


def _all():
    out = {}
    for m in MODULES:
        for k, v in importlib.import_module(m).CHECKS.items():
            out.setdefault(k, []).append(v)
    return out


def get(prop, tier):
    parts = _all()[prop]
    jobs, stubs, assume, method = [], list(STUBS), list(COMMON_ASSUME), []
    deadline = 0
    for fn in parts:
        c = fn(tier)
        jobs += c["jobs"]
        stubs += c.get("stubs", [])
        assume += c.get("assumptions", [])
        if c.get("method"):
            method.append(c["method"])
        deadline = max(deadline, c.get("deadline", 50 if tier == "quick" else 600))
    return dict(jobs=jobs, level="model_checking", assumptions=assume, deadline=deadline, stubs=stubs, method=" ".join(method))
