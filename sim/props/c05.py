"""Every iteration works on the last accepted estimate."""

from ..harness import Violation
from ..probed import Probed, run_solve
from ..solver_model import Mismatch


class Property(Probed):
    id = "C05"
    ignore = ("damping", "stop")

    def execute(self, spec, sim, out):
        s = run_solve(spec, sim)
        self.errors(spec, s)
        m = self.model(spec, s, ignore=self.ignore)
        try:
            m.check(s.x0, s.calls, s.x)
        except Mismatch as e:
            raise Violation(e.kind, e.message)
        if s.x is not None and not s.order_kept:
            raise Violation("order", "the result does not use the caller's variable order")
        self.account(spec, s, m, out)
