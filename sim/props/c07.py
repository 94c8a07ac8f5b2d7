"""Termination."""

from ..harness import Violation
from ..probed import Probed, fault_plan, limit, params, run_solve
from ..solver_model import Mismatch


class Property(Probed):
    id = "C07"
    max_it = (1, 40)

    def params(self, rng, nl):
        return params(rng, nl, tolerances=rng.choice(["loose", "loose", "tight", "default", "none"]), max_it=self.max_it)

    def plan(self, rng, nl, lin, n):
        if rng.random() < 0.4:
            return []
        return fault_plan(rng, n, finite=nl in ("gn", "fix") and lin == "chol")

    def execute(self, spec, sim, out):
        s = run_solve(spec, sim)
        self.errors(spec, s)
        n = limit(spec["solver"])
        if len(s.calls) > n:
            raise Violation("runaway", "%d iterations, the limit is %d" % (len(s.calls), n))
        if spec["solver"]["nl"] == "fix" and s.error is None and len(s.calls) != n:
            raise Violation("count", "%d iterations instead of %d" % (len(s.calls), n))
        m = self.model(spec, s)
        try:
            m.check(s.x0, s.calls, s.x)
        except Mismatch as e:
            if e.kind in ("continued", "stopped", "count"):
                raise Violation(e.kind, e.message)
            # Not the estimates the model expects: nothing can be said about tolerances.
            out.info["diverged"] = 1
        self.account(spec, s, m, out)
        out.info["limit reached"] = int(len(s.calls) == n)
