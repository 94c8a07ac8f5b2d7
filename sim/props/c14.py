"""Recovery after faults."""

import json
import math

import numpy as np

from .. import ops, world
from ..harness import Violation
from ..probed import Probed, fault, make_solver, params, run_solve
from ..probe import Recorder


def remaining(g, x):
    """Cost reduction a full step still promises at `x`."""
    A, r = g.linearize(x)
    b = A.T @ r
    d = np.linalg.lstsq(A, -r, rcond=1e-9)[0]
    return float(-b @ d), float(r @ r)


class Property(Probed):
    id = "C14"
    runs = {"quick": 250, "thorough": 3000}
    families = ["linear", "se2", "so", "se3", "vec", "robust"]
    combos = [("lm", "chol"), ("dl", "chol"), ("lm", "cg"), ("dl", "cg"), ("gn", "chol"), ("gn", "cg")]
    EXTRA = 120

    def generate(self, rng, ctx):
        st = rng.choice(ctx.structures)
        nl, lin = rng.choice(ctx.combos)
        if nl == "gn":
            # Undamped steps from anywhere are only known to converge on linear problems.
            lst = [s for s in ctx.structures if s["fam"] == "linear"]
            if lst:
                st = rng.choice(lst)
            else:
                nl = rng.choice(["lm", "dl"])
        p = params(rng, nl, tolerances="none")
        if nl in ("lm", "dl"):
            p["step_quality_min"] = rng.choice([1e-3, 1e-3, 0.05])
        if nl == "lm":
            p.update(lambda_min=1e-5, lambda_max=rng.choice([1e10, 1e6]), lambda_factor=rng.choice([2.0, 3.0, 10.0, 10.0]))
            p["lambda_initial"] = rng.choice([5e-4, 1.0])
        if nl == "dl":
            p["radius_initial"] = rng.choice([0.1, 1.0, 10.0])
        retry = lin == "chol" and rng.random() < 0.35
        start = rng.choice([0, 0, 1, 2, 5])
        n = rng.randint(1, 12)
        plan = [] if retry and rng.random() < 0.7 else [
            fault(rng, start + i, finite=nl == "gn", wild=nl != "gn") for i in range(n) if rng.random() < 0.9
        ]
        p["max_iterations"] = start + n + self.EXTRA
        spec = dict(
            problem=dict(st, values=rng.randrange(10**6), spread=0.15),
            solver=dict(nl=nl, lin=lin, p=p), init=rng.randrange(10**6), scale=rng.choice([0.1, 0.4, 0.8]),
            plan=plan, faults=[],
        )
        if retry:
            # The solve runs in portions; a failed portion is started again.
            spec["portion"] = rng.randint(1, 6)
            for op in range(rng.randint(1, 10)):
                if rng.random() < 0.8:
                    spec["faults"].append(dict(kind="cholmod", client=0, op=op, call=rng.randint(1, 9), exc=rng.choice(["npd", "oom", "mem"])))
        return spec

    def execute(self, spec, sim, out):
        x, problem = self.solve(spec, sim, out)
        g = problem.model
        left, cost = remaining(g, x)
        sim.note(cost)
        if left > 1e-5 * cost + 1e-8:
            # Slow. Give it more time, and see what happens without faults.
            out.info["slow"] = 1
            x, _ = self.solve(spec, sim, out, extra=2000)
            left, cost = remaining(g, x)
            clean, _ = self.solve(dict(spec, plan=[]), sim, out, extra=2000, faults=False)
            cleft, ccost = remaining(g, clean)
            if left > 1e-4 * cost + 1e-7 and left > 10 * cleft and cost > ccost * (1 + 1e-4) + 1e-8:
                raise Violation("not-recovered", "cost %r after the faults stopped, %r without faults" % (cost, ccost))
        out.key = (json.dumps(spec["problem"]), spec["init"], json.dumps(spec["solver"]), json.dumps(spec["plan"]), json.dumps(spec["faults"]))

    def solve(self, spec, sim, out, extra=0, faults=True):
        if spec.get("portion"):
            x, problem = self.portions(spec, sim, out, extra, faults)
        else:
            p = spec["solver"]["p"]
            p = dict(p, max_iterations=p["max_iterations"] + extra)
            s = run_solve(dict(spec, solver=dict(spec["solver"], p=p)), sim)
            self.errors(spec, s)
            if s.error is not None:
                raise Violation("raised", "the factorization failed: %s" % s.library_error)
            x, problem = s.x, s.problem
            out.info["iterations"] = len(s.calls)
        if not all(np.all(np.isfinite(v)) for v in x.values()):
            raise Violation("non-finite", "the estimate is not finite")
        return x, problem

    def portions(self, spec, sim, out, extra, faults):
        problem = world.Problem(spec["problem"])
        graph = problem.graph()
        p = dict(spec["solver"]["p"], max_iterations=spec["portion"])
        solver = make_solver(dict(spec["solver"], p=p))
        x0 = problem.initial(spec["init"], spec["scale"])
        rec = Recorder(spec["plan"], cap=100000)
        state = dict(a=problem.assignments(x0, spec.get("order")), failed=0)
        todo = math.ceil((max([f["it"] for f in spec["plan"]], default=0) + self.EXTRA + extra) / spec["portion"])
        unexpected = []

        def client(c):
            c.scratch["recorder"] = rec
            op = done = 0
            while done < todo and op < 4000:
                sim.sched.begin_op(c, op)
                try:
                    state["a"] = graph.solve(state["a"], solver)
                    done += 1
                except Exception as e:
                    if not c.fired:
                        unexpected.append(e)
                        return
                    state["failed"] += 1
                sim.sched.end_op(c)
                op += 1

        sim.clients([client], scheduled=False, faults=faults)
        if unexpected:
            e = unexpected[0]
            raise Violation("raised", "a retry raised %s: %s" % (type(e).__name__, str(e).strip().splitlines()[-1][:200]))
        for f in rec.fired:
            k = "step:" + f["kind"]
            out.faults[k] = out.faults.get(k, 0) + 1
        out.info["retried"] = state["failed"]
        return problem.read(state["a"]), problem

    def shrink(self, spec):
        for s in super().shrink(spec):
            if s["solver"]["p"]["max_iterations"] == spec["solver"]["p"]["max_iterations"]:
                yield s
