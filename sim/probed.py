"""Solves with a recording linear solver: shared by the solver properties."""

import json
import math
import random

import numpy as np

from . import ops, world
from .harness import BaseProperty, Violation
from .probe import Probe, Recorder, Runaway
from .solver_model import Mismatch, Model

ALL_FAMILIES = ["se2", "vec", "mixed", "linear", "se3", "robust", "so", "manifold"]
FLOATS = (
    "cost_tolerance", "gradient_tolerance", "parameter_tolerance", "step_quality_min", "lambda_initial",
    "lambda_factor", "lambda_min", "lambda_max", "radius_initial",
)


class Solve:
    """What happened in one solve."""

    def __init__(self):
        self.x0 = self.x = self.error = None
        self.recorder = None
        self.columns = None
        self.library_error = None

    @property
    def calls(self):
        return self.recorder.calls


def make_solver(s):
    inner = world.linear_solver(s["lin"], s.get("linp"))
    return world.nonlinear_solver(s["nl"], Probe(inner), s.get("verbose", False), **s.get("p", {}))


def limit(s):
    p = s["p"]
    return p["iterations"] if s["nl"] == "fix" else p["max_iterations"]


def run_solve(spec, sim, op=0, cap_extra=3):
    """Execute `spec` (problem, solver, init, scale, order, plan) as one client."""
    problem = world.Problem(spec["problem"])
    graph = problem.graph()
    solver = make_solver(spec["solver"])
    out = Solve()
    out.problem = problem
    out.graph = graph
    out.x0 = problem.initial(spec["init"], spec["scale"])
    a = problem.assignments(out.x0, spec.get("order"))
    out.columns = problem.columns(graph)
    out.recorder = Recorder(spec.get("plan", []), cap=limit(spec["solver"]) + cap_extra)

    def client(c):
        c.scratch["recorder"] = out.recorder
        sim.sched.begin_op(c, op)
        try:
            r = graph.solve(a, solver)
            out.assignments = r
            out.order_kept = list(r.get_variables()) == list(a.get_variables())
            out.x = problem.read(r)
        except Exception as e:
            out.error = e
        sim.sched.end_op(c)
        out.library_error = c.scratch.get("library_error")

    sim.clients([client], scheduled=False)
    for f in out.recorder.fired:
        k = "step:" + f["kind"]
        sim.out.faults[k] = sim.out.faults.get(k, 0) + 1
    for call in out.calls:
        sim.note_array(call["ATb"])
    if out.x is not None:
        for v in sorted(out.x):
            sim.note_array(out.x[v])
    return out


# -- generators -------------------------------------------------------------------


def log_uniform(rng, lo, hi):
    return 10.0 ** rng.uniform(math.log10(lo), math.log10(hi))


def fault(rng, it, finite=False, wild=True):
    kinds = ["zero", "scale", "scale", "neg", "noise", "reverse", "stale"]
    if not finite:
        kinds += ["nan", "nan", "nan1", "inf"]
    k = rng.choice(kinds)
    f = dict(it=it, kind=k)
    if k == "scale":
        f["x"] = rng.choice([1e-3, 0.3, 0.9, 1.5, 1.9, 2.5, 10.0] + ([1e3] if wild else []))
    elif k == "neg":
        f["x"] = rng.choice([0.1, 1.0, 1.0, 5.0])
    elif k in ("nan1", "inf", "noise"):
        f["x"] = rng.randrange(10**6)
    return f


def fault_plan(rng, n, finite=False, wild=True):
    """Faults over iterations `0..n-1`."""
    r = rng.random()
    if n == 0 or r < 0.1:
        return []
    if r < 0.35:  # a few
        its = rng.sample(range(n), min(n, rng.choice([1, 1, 2, 3])))
    elif r < 0.6:  # a burst
        a = rng.randrange(n)
        its = range(a, min(n, a + rng.randint(1, 8)))
    elif r < 0.75:  # from the start
        its = range(min(n, rng.randint(1, 10)))
    elif r < 0.85:  # all
        its = range(n)
    else:
        p = rng.choice([0.2, 0.5])
        its = [i for i in range(n) if rng.random() < p]
    one = fault(rng, 0, finite, wild) if rng.random() < 0.3 else None
    return [dict(one, it=i) if one else fault(rng, i, finite, wild) for i in sorted(its)]


def params(rng, nl, tolerances="mixed", max_it=(1, 25)):
    """Solver settings; always the same keys, so that nothing is recompiled."""
    if nl == "fix":
        return {}
    n = rng.randint(*max_it)
    if tolerances == "mixed":
        tolerances = rng.choice(["loose", "tight", "tight", "none", "default"])
    if tolerances == "default":
        t = (1e-5, 1e-9, 10, 1e-7)
    elif tolerances == "none":
        t = (0.0, 0.0, 10, 0.0)
    elif tolerances == "tight":
        t = (rng.choice([0.0, 1e-10, 1e-7]), rng.choice([0.0, 1e-7]), rng.randint(0, 12), rng.choice([0.0, 1e-9, 1e-7]))
    else:
        t = (
            rng.choice([0.0, log_uniform(rng, 1e-6, 0.3)]),
            rng.choice([0.0, log_uniform(rng, 1e-6, 3.0)]),
            rng.randint(0, 12),
            rng.choice([0.0, log_uniform(rng, 1e-6, 0.3)]),
        )
    p = dict(
        max_iterations=n, cost_tolerance=float(t[0]), gradient_tolerance=float(t[1]),
        gradient_tolerance_start_step=int(t[2]), parameter_tolerance=float(t[3]),
    )
    if nl in ("lm", "dl"):
        p["step_quality_min"] = rng.choice([1e-3, 1e-3, 1e-3, 1e-6, 0.05, 0.2, 0.5, 0.8, 0.95])
    if nl == "lm":
        p["lambda_initial"] = rng.choice([5e-4, log_uniform(rng, 1e-6, 1e3)])
        p["lambda_factor"] = rng.choice([2.0, 2.0, 1.3, 3.0, 10.0])
        r = rng.random()
        p["lambda_min"], p["lambda_max"] = 1e-5, 1e10
        if r < 0.3:
            p["lambda_max"] = p["lambda_initial"] * rng.choice([1.0, 1.7, 5.0, 30.0])
        elif r < 0.5:
            p["lambda_min"] = p["lambda_initial"] * rng.choice([0.01, 0.3, 1.0])
        if p["lambda_min"] > p["lambda_max"]:
            p["lambda_min"] = p["lambda_max"]
    if nl == "dl":
        p["radius_initial"] = rng.choice([1.0, log_uniform(rng, 1e-3, 100.0)])
    return p


class Probed(BaseProperty):
    """One recorded solve per run."""

    runs = {"quick": 500, "thorough": 4000}
    families = ALL_FAMILIES
    combos = [("lm", "chol"), ("dl", "chol"), ("gn", "cg"), ("lm", "cg"), ("dl", "cg"), ("gn", "chol"), ("fix", "cg"), ("lm", "icg")]
    n_structures = 3
    n_combos = 3
    max_it = (1, 25)

    def warm(self, ctx):
        rng = random.Random("%s/%s/warm/%d" % (ctx.seed, self.id, ctx.worker))
        fams = list(self.families)
        rng.shuffle(fams)
        # Over the workers of one check, all families and all combinations occur.
        k = len(fams)
        ctx.structures = ops.pick_structures(rng, self.n_structures, fams)
        base = random.Random("%s/%s/order" % (ctx.seed, self.id))
        fams = list(self.families)
        base.shuffle(fams)
        combos = list(self.combos)
        base.shuffle(combos)
        for i, st in enumerate(ctx.structures):
            st["fam"] = fams[(ctx.worker * self.n_structures + i) % k]
        n = len(combos)
        # Trust-region solvers in every worker.
        ctx.combos = [combos[(ctx.worker + i * max(1, n // self.n_combos)) % n] for i in range(min(n, self.n_combos))]
        ops.touch(ctx.structures)

    def touch(self, spec):
        ops.touch([spec["problem"]])

    def params(self, rng, nl):
        return params(rng, nl, max_it=self.max_it)

    def plan(self, rng, nl, lin, n):
        return fault_plan(rng, n, finite=nl in ("gn", "fix") and lin == "chol")

    def generate(self, rng, ctx):
        st = rng.choice(ctx.structures)
        nl, lin = rng.choice(ctx.combos)
        p = self.params(rng, nl)
        if nl == "fix":
            # Static, so few different values.
            p = dict(zip(("iterations", "unroll"), rng.choice([(1, False), (4, False), (6, True)])))
        n = p["iterations"] if nl == "fix" else p["max_iterations"]
        spec = dict(
            problem=dict(st, values=rng.randrange(10**6), spread=rng.choice([0.15, 0.15, 0.6])),
            solver=dict(nl=nl, lin=lin, p=p),
            init=rng.randrange(10**6), scale=rng.choice([0.05, 0.4, 1.0, 1.0, 2.0]),
            plan=self.plan(rng, nl, lin, n),
        )
        if rng.random() < 0.3:
            spec["order"] = 7
        return spec

    def model(self, spec, solve, ignore=()):
        return Model(spec["solver"]["nl"], spec["solver"]["p"], solve.problem, solve.columns, ignore=ignore)

    def errors(self, spec, solve):
        """A solve may only raise if the factorization library did."""
        if solve.recorder.runaway:
            raise Violation("runaway", "the solver did not stop at its iteration limit (%d)" % limit(spec["solver"]))
        if solve.error is not None and solve.library_error is None:
            e = solve.error
            raise Violation("raised", "solve raised %s: %s" % (type(e).__name__, str(e).strip().splitlines()[-1][:200]))

    def account(self, spec, solve, model, out):
        out.info["iterations"] = len(solve.calls)
        if model is not None:
            for k, v in model.stats.items():
                out.info[k] = v
            out.info["undecided"] = int(model.undecided)
        kinds = tuple(s[0].how for s in model.trace) if model is not None else len(solve.calls)
        out.key = (json.dumps(spec["problem"]), spec["init"], json.dumps(spec["solver"]), json.dumps(spec["plan"]), kinds)

    def shrink(self, spec):
        plan = spec["plan"]
        n = len(plan)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                yield dict(spec, plan=plan[:i] + plan[i + size :])
            size //= 2
        if spec.get("order") is not None:
            yield dict(spec, order=None)
        p = spec["solver"]["p"]
        m = p.get("max_iterations", 1)
        for k in sorted({1, 2, m // 2, m - 1}):
            if 1 <= k < m:
                yield dict(spec, solver=dict(spec["solver"], p=dict(p, max_iterations=k)))
        for i, f in enumerate(plan):
            for simple in ({"kind": "zero"}, {"kind": "scale", "x": 1.5}):
                if f["kind"] not in ("zero", "scale"):
                    yield dict(spec, plan=plan[:i] + [dict(simple, it=f["it"])] + plan[i + 1 :])
