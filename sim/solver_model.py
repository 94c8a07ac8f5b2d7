"""State machines of the nonlinear solvers, in numpy.

The model is driven by the steps the linear solver returned (faulty or not). At
each iteration it predicts the linear system, the damping and whether the solver
may stop. Decisions that are within rounding error of a threshold are not
predicted: both outcomes are kept as candidates until an observation rules one
out.
"""

import math

import numpy as np

from . import probe


class Mismatch(Exception):
    def __init__(self, kind, message):
        super().__init__(message)
        self.kind = kind  # linearization / damping / continued / stopped / result / count
        self.message = message


DEFAULTS = dict(
    max_iterations=100,
    cost_tolerance=1e-5,
    gradient_tolerance=1e-9,
    gradient_tolerance_start_step=10,
    parameter_tolerance=1e-7,
    step_quality_min=1e-3,
    lambda_initial=5e-4,
    lambda_factor=2.0,
    lambda_min=1e-5,
    lambda_max=1e10,
    radius_initial=1.0,
)


class State:
    __slots__ = ("it", "x", "cost", "A", "r", "lambd", "radius", "stop", "go", "how", "_lin")

    def __init__(self, it, x, cost, lambd=0.0, radius=None, stop=False, go=True, how=""):
        self.it, self.x, self.cost = it, x, cost
        self.lambd, self.radius = lambd, radius
        self.stop, self.go = stop, go
        self.how = how
        self._lin = None


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(a, b, equal_nan=True))
    scale = max(float(np.max(np.abs(a), initial=0.0)), float(np.max(np.abs(b), initial=0.0)), 1e-12)
    return float(np.max(np.abs(a - b), initial=0.0)) <= tol * scale


def compare(value, bound, noise):
    """Possible outcomes of `value < bound` given an error bar."""
    if math.isnan(value):
        return {False}
    if value == math.inf:
        return {False}
    if abs(value - bound) <= noise:
        return {True, False}
    return {value < bound}


def cost_error(cost):
    """Rounding error of a cost (residuals have errors of about 1e-12)."""
    return 1e-11 * math.sqrt(abs(cost)) + 1e-12 * abs(cost) + 1e-20


class Model:
    def __init__(self, name, params, problem, columns, tol=1e-6, ignore=()):
        """`ignore`: kinds of mismatches (damping, stop) that are not looked at."""
        self.name = name
        self.ignore = frozenset(ignore)
        self.undecided = False
        self.p = dict(DEFAULTS, **params)
        self.problem = problem
        self.g = problem.model
        self.cols = columns
        self.tol = tol
        self.stats = dict(accepted=0, rejected=0, ambiguous=0)
        self.path = []  # states along one consistent path, for reports

    # -- pieces ------------------------------------------------------------

    def lin(self, s):
        if s._lin is None:
            with np.errstate(all="ignore"):
                s._lin = self.g.linearize(s.x)
        return s._lin

    def finite(self, x):
        return all(np.all(np.isfinite(v)) for v in x.values())

    def extreme(self, x):
        if not self.finite(x):
            return False
        for v in self.g.used:
            if float(np.max(np.abs(x[v]))) > 1e5:
                return True
            if self.g.kinds[v].name == "Scale" and abs(x[v][0]) < 1e-5:
                return True
        return False

    def flat(self, x):
        return np.concatenate([x[v] for v in self.g.used])

    def observe(self, s, call):
        """Compare a prediction with what the linear solver received."""
        if call["iteration"] != s.it:
            return Mismatch("count", "iteration %d is presented as %d" % (s.it, call["iteration"]))
        if self.finite(s.x):
            A, r = self.lin(s)
            D = probe.dense(call)[:, self.cols]
            ATb = call["ATb"][self.cols]
            if not close(D.T @ D, A.T @ A, self.tol):
                return Mismatch("linearization", "normal matrix of iteration %d does not belong to the current estimate" % s.it)
            want = -A.T @ r
            scale = float(np.abs(A).max()) * max(1e-3 * (1.0 + float(np.max(np.abs(self.flat(s.x))))), float(np.linalg.norm(r)))
            if not (np.all(np.isfinite(ATb)) and float(np.abs(ATb - want).max()) <= self.tol * scale):
                return Mismatch("linearization", "right hand side of iteration %d does not belong to the current estimate" % s.it)
        if "damping" in self.ignore:
            return None
        if self.name == "lm":
            if not abs(call["lambd"] - s.lambd) <= 1e-9 * max(abs(s.lambd), 1e-300):
                return Mismatch("damping", "damping %r in iteration %d, expected %r" % (call["lambd"], s.it, s.lambd))
        elif call["lambd"] != 0.0:
            return Mismatch("damping", "damping %r in an undamped solver" % call["lambd"])
        return None

    def converged(self, s, cost, step):
        """Possible values of the convergence flag."""
        p = self.p
        with np.errstate(all="ignore"):
            A, r = self.lin(s)
            change = abs(cost - s.cost) / s.cost if s.cost > 0 else math.nan
            noise = 1e-9 * p["cost_tolerance"] + 1e-12
            if s.cost > 0 and not math.isnan(cost):
                noise += (cost_error(cost) + cost_error(s.cost)) / s.cost * (1.0 + change)
            flags = [compare(change, p["cost_tolerance"], noise)]
            if s.it >= p["gradient_tolerance_start_step"]:
                moved = self.g.retract(s.x, -A.T @ r)
                g = float(np.max(np.abs(self.flat(s.x) - self.flat(moved))))
                flags.append(compare(g, p["gradient_tolerance"], 1e-7 * p["gradient_tolerance"] + 1e-12))
            bound = (self.g.norm(s.x) + p["parameter_tolerance"]) * p["parameter_tolerance"]
            n = float(np.linalg.norm(step))
            flags.append(compare(n, bound, 1e-7 * bound + 1e-14))
        out = set()
        if any(f == {True} for f in flags):
            return {True}
        if any(True in f for f in flags):
            out.add(True)
        out.add(False)
        return out

    def quality(self, s, cost, step):
        """Possible (lower, upper) of the step quality, or None if unordered."""
        A, r = self.lin(s)
        with np.errstate(all="ignore"):
            actual = cost - s.cost
            lin = A @ step + r
            predicted = float(lin @ lin) - s.cost
        if math.isnan(actual) or math.isnan(predicted):
            return None
        big = 1e5 if float(np.linalg.norm(step)) > 50 else 1.0
        na = big * (cost_error(cost) + cost_error(s.cost))
        npred = big * (cost_error(predicted + s.cost) + cost_error(s.cost))
        if math.isinf(actual) or math.isinf(predicted):
            if math.isinf(actual) and math.isinf(predicted):
                return (-math.inf, -math.inf) if actual > 0 and predicted > 0 else None
            if actual > 0 and predicted > 0:
                return (-math.inf, -math.inf)
            if math.isinf(actual) and actual > 0 and predicted < 0:
                return (-math.inf, -math.inf)
            if math.isinf(predicted):
                return (-0.0, 0.0)
            return (-math.inf, math.inf)
        if abs(actual) <= na or abs(predicted) <= npred:
            return (-math.inf, math.inf)
        if actual > 0 and predicted > 0:
            return (-math.inf, -math.inf)
        q = actual / predicted
        e = abs(q) * (na / abs(actual) + npred / abs(predicted))
        return (q - e, q + e)

    def dogleg(self, s, gn):
        A, r = self.lin(s)
        with np.errstate(all="ignore"):
            sd = -A.T @ r
            Asd = A @ sd
            a = sd * (float(sd @ sd) / float(Asd @ Asd)) if float(Asd @ Asd) > 0 else sd * np.nan
            n_gn, n_a = float(np.linalg.norm(gn)), float(np.linalg.norm(a))
            out = []
            rad = s.radius
            e = 1e-9 * rad
            cases = set()
            if n_gn <= rad + e:
                cases.add("gn")
            if not n_gn <= rad - e:
                if n_a >= rad - e:
                    cases.add("sd")
                if not n_a >= rad + e:
                    cases.add("mix")
            for case in sorted(cases):
                if case == "gn":
                    out.append(gn)
                elif case == "sd":
                    out.append(a * (rad / n_a))
                else:
                    d = gn - a
                    if not np.all(np.isfinite(d)):
                        out.append(np.full_like(gn, np.nan))
                        continue
                    dd, ad = float(d @ d), float(a @ d)
                    k = rad * rad - float(a @ a)
                    root = math.sqrt(max(ad * ad + dd * k, 0.0))
                    beta = (-ad + root) / dd if ad <= 0 else k / (ad + root)
                    out.append(a + beta * d)
            return out

    def successors(self, s, call):
        p = self.p
        step = call["step"][self.cols]
        last = s.it >= p["max_iterations"] - 1
        out = []

        def flags(conv):
            """-> (may stop, may go on)"""
            if last:
                return True, False
            return True in conv, False in conv

        if self.name in ("gn", "fix"):
            with np.errstate(all="ignore"):
                x = self.g.retract(s.x, step)
                cost = self.g.cost(x) if self.finite(x) else math.nan
            if self.name == "fix":
                done = s.it >= p["iterations"] - 1
                stop, go = done, not done
            elif not self.finite(s.x):
                # Tolerances relative to a non-finite estimate may or may not be met.
                stop, go = flags({True, False})
            else:
                stop, go = flags(self.converged(s, cost, step))
            return [State(s.it + 1, x, cost, 0.0, None, stop, go, "step")]

        steps = [step] if self.name == "lm" else self.dogleg(s, step)
        for st in steps:
            with np.errstate(all="ignore"):
                x = self.g.retract(s.x, st)
                cost = self.g.cost(x) if self.finite(x) else math.nan
            q = self.quality(s, cost, st)
            if q is None:
                accept = {False}
            else:
                m = p["step_quality_min"]
                accept = set()
                if q[1] >= m:
                    accept.add(True)
                if q[0] < m:
                    accept.add(False)
            if len(accept) > 1:
                self.stats["ambiguous"] += 1
            for acc in accept:
                if self.name == "lm":
                    if acc:
                        lambd = s.lambd / p["lambda_factor"]
                    else:
                        lambd = max(p["lambda_min"], min(s.lambd * p["lambda_factor"], p["lambda_max"]))
                    radii = [None]
                else:
                    lambd = 0.0
                    radii = self.radii(s, st, q, acc)
                if acc:
                    stop, go = flags(self.converged(s, cost, st))
                else:
                    stop, go = flags({False})
                for rad in radii:
                    if acc:
                        out.append(State(s.it + 1, x, cost, lambd, rad, stop, go, "accept"))
                    else:
                        n = State(s.it + 1, s.x, s.cost, lambd, rad, stop, go, "reject")
                        n._lin = s._lin
                        out.append(n)
        return out

    def radii(self, s, step, q, acc):
        if q is None:
            return [s.radius]
        out = set()
        m = self.p["step_quality_min"]
        lo, hi = q
        if acc:
            lo = max(lo, m)
        else:
            hi = min(hi, m)
        if lo < 0.25:
            out.add(s.radius / 2.0)
        if hi > 0.75:
            out.add(max(s.radius, 3.0 * float(np.linalg.norm(step))))
        if (lo <= 0.75 and hi >= 0.25) or q == (-math.inf, math.inf):
            out.add(s.radius)
        return sorted(out)

    def merge(self, states):
        """Drop candidates that cannot be told apart."""
        if len(states) < 2:
            return states
        out = []
        for s in states:
            f = self.flat(s.x)
            for o in out:
                if (s.lambd == o.lambd and s.radius == o.radius and s.stop == o.stop and s.go == o.go
                        and close(f, self.flat(o.x), 1e-12)):
                    break
            else:
                out.append(s)
        return out

    # -- checking a whole solve ----------------------------------------------

    def initial(self, x):
        return State(0, x, self.g.cost(x), self.p["lambda_initial"] if self.name == "lm" else 0.0,
                     self.p["radius_initial"] if self.name == "dl" else None)

    def check(self, x0, calls, result):
        """Raise Mismatch unless the calls and the result fit the model.

        `result`: {variable: parameters}, or None if the solve raised.
        Returns the final candidate states."""
        states = [self.initial(x0)]
        self.trace = [[states[0]]]
        if not calls:
            raise Mismatch("count", "the solver never called the linear solver")
        for k, call in enumerate(calls):
            if any(self.extreme(s.x) for s in states):
                # Rounding errors are not bounded any more.
                self.undecided = True
                return states
            problems = [self.observe(s, call) for s in states]
            ok = [s for s, e in zip(states, problems) if e is None]
            if not ok:
                raise problems[0]
            if len(self.trace) == k + 1:
                self.trace[k] = ok
            nxt = []
            for s in ok:
                nxt.extend(self.successors(s, call))
            more = k + 1 < len(calls)
            if not more and result is None:
                return nxt
            if "stop" in self.ignore:
                states = nxt
            elif more:
                states = [s for s in nxt if s.go]
                if not states:
                    raise Mismatch(
                        "continued", "the solver went on after iteration %d although it had to stop" % k)
            else:
                states = [s for s in nxt if s.stop]
                if not states:
                    raise Mismatch(
                        "stopped", "the solver stopped after iteration %d although no termination rule was met" % k)
            states = self.merge(states)
            if len(states) > 64:
                # Too many decisions within rounding error of a threshold.
                self.undecided = True
                return states
            self.trace.append(states)
            how = states[0].how
            self.stats["rejected" if how == "reject" else "accepted"] += 1
        got = self.flat(result)
        for s in states:
            want = self.flat(s.x)
            if not np.all(np.isfinite(want)):
                if not np.all(np.isfinite(got)):
                    return [s]
                continue
            if close(got, want, max(self.tol, 1e-7)):
                return [s]
        raise Mismatch("result", "the returned estimate is not the one held after the last iteration")
