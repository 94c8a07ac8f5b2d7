"""Trust-region solves never get worse."""

import numpy as np
import jax

from ..harness import Violation
from ..probed import Probed, fault_plan, run_solve


class Property(Probed):
    id = "C04"
    combos = [("lm", "chol"), ("dl", "chol"), ("lm", "cg"), ("dl", "cg"), ("lm", "icg"), ("dl", "icg")]
    n_combos = 3

    def execute(self, spec, sim, out):
        s = run_solve(spec, sim)
        self.errors(spec, s)
        if s.error is not None:
            raise Violation("raised", "the factorization failed at an estimate the solver kept: %s" % s.library_error)
        for v, x in s.x.items():
            if not np.all(np.isfinite(x)):
                raise Violation("non-finite", "the returned estimate is not finite")
        g = s.problem.model
        before, after = g.cost(s.x0), g.cost(s.x)
        # What jaxfg says itself.
        a = s.problem.assignments(s.x0, spec.get("order"))
        jb = float(s.graph.compute_cost(a)[0])
        ja = float(s.graph.compute_cost(s.assignments)[0])
        sim.note(ja)
        tol = 1e-9 if jax.config.jax_enable_x64 else 1e-4
        if not after <= before * (1 + tol) + tol:
            raise Violation("worse", "cost went from %r to %r" % (before, after))
        if not ja <= jb * (1 + tol) + tol:
            raise Violation("worse", "cost reported by the graph went from %r to %r" % (jb, ja))
        self.account(spec, s, None, out)
        out.info["faulty"] = len(s.recorder.fired)
