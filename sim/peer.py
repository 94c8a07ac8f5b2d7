"""Incarnations of a program that solves a problem, here and in another process."""

import json
import os
import select
import subprocess
import sys

import numpy as np

_peers = {}


def live(q):
    """One life: build everything, continue from saved state, return the state to save."""
    from jax import numpy as jnp
    import jaxfg

    from . import world

    p = world.Problem(q["problem"])
    factors = p.jax_factors(q["forder"])
    graph = jaxfg.core.StackedFactorGraph.make(factors)
    a = p.assignments(p.initial(q["init"], q["scale"]), q["order"])
    if q.get("state") is not None:
        a = jaxfg.core.VariableAssignments(storage=jnp.asarray(np.array(q["state"])), storage_layout=a.storage_layout)
    nl, lin = q["solver"]
    if nl == "fix":
        settings = dict(iterations=4, unroll=False)
    else:
        settings = dict(max_iterations=q["iterations"], cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0)
    solver = world.nonlinear_solver(nl, world.linear_solver(lin), **settings)
    out = {}
    if q.get("details"):
        r = graph.compute_whitened_residual_vector(a)
        J = graph.compute_whitened_residual_jacobian(a, r)
        out["arrangement"] = [p.s.index[v] for v in graph.get_variables()]
        out["residuals"] = np.asarray(r, float).tolist()
        out["jacobian"] = np.asarray(J.values, float).tolist()
        out["rows"] = np.asarray(J.coords.rows).tolist()
        out["columns"] = np.asarray(J.coords.cols).tolist()
        out["default"] = np.asarray(
            jaxfg.core.VariableAssignments.make_from_defaults(graph.get_variables()).storage, float
        ).tolist()
    out["storage"] = np.asarray(graph.solve(a, solver).storage, float).tolist()
    return out


class Peer:
    def __init__(self, hashseed):
        from . import boot

        env = boot.environment(True)
        env["PYTHONHASHSEED"] = str(hashseed)
        self.p = subprocess.Popen(
            [sys.executable, "-m", "sim.peer"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
        )

    def ask(self, q):
        self.p.stdin.write((json.dumps(q) + "\n").encode())
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], 300.0)[0]:
            raise RuntimeError("the other process does not answer")
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the other process died")
        r = json.loads(line)
        if "error" in r:
            raise RuntimeError("in the other process: " + r["error"])
        return r


def start(hashseed):
    if hashseed not in _peers:
        _peers[hashseed] = Peer(hashseed)
    _peers["last"] = _peers[hashseed]


def ask(q):
    return _peers["last"].ask(q)


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from . import boot

    boot.setup()
    for line in sys.stdin:
        try:
            r = live(json.loads(line))
        except Exception as e:
            r = {"error": "%s: %s" % (type(e).__name__, str(e)[:300])}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
