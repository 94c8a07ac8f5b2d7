"""A linear solver that records linear systems and can return faulty steps."""

import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp
from jax.experimental import host_callback as hcb
from overrides import overrides

import jaxfg

from .sched import Scheduler


class Runaway(RuntimeError):
    """Stops a solve that exceeds its iteration limit."""


class Recorder:
    """Calls received by the linear solver during one solve, and its fault plan."""

    def __init__(self, plan=(), cap=None):
        self.calls = []
        self.plan = {f["it"]: f for f in plan}
        self.cap = cap
        self.runaway = False
        self.fired = []

    def step(self, shape, values, rows, cols, ATb, lambd, iteration, step):
        k = len(self.calls)
        if self.cap is not None and k >= self.cap:
            self.runaway = True
            raise Runaway("linear solver called %d times" % (k + 1))
        step = np.array(step)
        used = step
        fault = self.plan.get(k)
        if fault is not None:
            used = self.corrupt(fault, step)
            self.fired.append(fault)
        self.calls.append(
            dict(
                shape=shape,
                values=np.array(values, np.float64),
                rows=np.array(rows),
                cols=np.array(cols),
                ATb=np.array(ATb, np.float64),
                lambd=float(lambd),
                iteration=int(iteration),
                step=np.array(used, np.float64),
                clean=np.array(step, np.float64),
                fault=fault,
            )
        )
        return used.astype(step.dtype)

    def corrupt(self, fault, step):
        kind, x = fault["kind"], fault.get("x", 0)
        out = step.copy()
        if kind == "nan":
            out[:] = np.nan
        elif kind == "nan1":
            out[x % len(out)] = np.nan
        elif kind == "inf":
            out[x % len(out)] = np.inf
        elif kind == "zero":
            out[:] = 0.0
        elif kind == "scale":
            out *= x
        elif kind == "neg":
            out *= -abs(x or 1.0)
        elif kind == "noise":
            r = np.random.RandomState(int(x) % (2**32))
            out = (r.standard_normal(len(out)) * 10.0 ** r.uniform(-3, 2)).astype(out.dtype)
        elif kind == "reverse":
            out = out[::-1].copy()
        elif kind == "stale":
            if self.calls:
                out = self.calls[-1]["clean"].astype(out.dtype)
        else:
            raise AssertionError(kind)
        return out


def dense(call):
    A = np.zeros(call["shape"])
    np.add.at(A, (call["rows"], call["cols"]), call["values"])
    return A


def _recorder():
    s = Scheduler.current
    c = s.me() if s is not None else None
    return c.scratch.get("recorder") if c is not None else None


@jdc.pytree_dataclass
class Probe(jaxfg.sparse.LinearSubproblemSolverBase):
    inner: jaxfg.sparse.LinearSubproblemSolverBase

    @overrides
    def solve_subproblem(
        self,
        A: jaxfg.sparse.SparseCooMatrix,
        ATb: jaxfg.hints.Array,
        lambd: jaxfg.hints.Scalar,
        iteration: jaxfg.hints.Scalar,
    ) -> jnp.ndarray:
        step = self.inner.solve_subproblem(A=A, ATb=ATb, lambd=lambd, iteration=iteration)
        shape = tuple(A.shape)

        def host(args):
            r = _recorder()
            if r is None:
                return np.array(args[-1])
            return r.step(shape, *args)

        return hcb.call(
            host,
            (A.values, A.coords.rows, A.coords.cols, ATb, jnp.asarray(lambd), jnp.asarray(iteration), step),
            result_shape=ATb,
        )
