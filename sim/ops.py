"""Operations on jaxfg that several properties use, with expected answers."""

import random

import jax
import numpy as np
from jax import numpy as jnp

import jaxfg

from . import ref, world
from .harness import Violation


def tol():
    return 1e-9 if jax.config.jax_enable_x64 else 2e-4


def model_tol():
    return 1e-6 if jax.config.jax_enable_x64 else 2e-3


_jitted = {}


def linear_fn(lin):
    """Jitted `solve_subproblem` (the solver is a pytree argument)."""
    if "f" not in _jitted:
        _jitted["f"] = jax.jit(
            lambda solver, A, ATb, lambd, it: solver.solve_subproblem(
                A=A, ATb=ATb, lambd=lambd, iteration=it
            )
        )
    return _jitted["f"]


def bulk_systems(seed, n, big=False):
    """Small linear systems, most with patterns of their own."""
    rs = np.random.RandomState(seed)
    dtype = np.float64 if jax.config.jax_enable_x64 else np.float32
    out = []
    if big:
        # Large enough for a supernodal factorization, which relies on its analysis.
        m = 80
        for _ in range(n):
            if rs.rand() < 0.5:
                k = 66
                cols = np.tile(np.sort(rs.permutation(m)[:k]), 2)
                rows = np.repeat([0, 1], k)
            else:
                # One sequence of columns, cut differently.
                k = rs.randint(0, 15)
                cols = np.arange(m)
                rows = np.maximum(np.minimum(cols, k), cols - 65)
            A = jaxfg.sparse.SparseCooMatrix(
                values=np.concatenate([rs.uniform(0.5, 1.0, len(cols)), np.full(m, 2.0)]).astype(dtype),
                coords=jaxfg.sparse.SparseCooCoordinates(
                    rows=np.concatenate([rows, 15 + np.arange(m)]), cols=np.concatenate([cols, np.arange(m)])
                ),
                shape=(15 + m, m),
            )
            out.append((A, rs.uniform(-1, 1, m).astype(dtype), float(rs.choice([0.1, 1.0, 5.0]))))
        return out + [out[i] for i in range(min(n, 10))]
    for _ in range(n):
        at = np.sort(rs.permutation(24)[:10])
        A = jaxfg.sparse.SparseCooMatrix(
            values=rs.uniform(0.5, 2.0, 10).astype(dtype),
            coords=jaxfg.sparse.SparseCooCoordinates(rows=at // 4, cols=at % 4),
            shape=(6, 4),
        )
        out.append((A, rs.uniform(-1, 1, 4).astype(dtype), float(rs.choice([0.1, 1.0, 5.0]))))
        if rs.rand() < 0.15:
            # The same entries, and one more unknown that nothing constrains.
            A = jaxfg.sparse.SparseCooMatrix(values=A.values, coords=A.coords, shape=(6, 5))
            out.append((A, rs.uniform(-1, 1, 5).astype(dtype), float(rs.choice([0.1, 1.0, 5.0]))))
    # Some of them again.
    return out + [out[i] for i in range(min(n, 10))]


def solve_bulk(solver, systems):
    return [linear_fn("chol")(solver, A, b, lambd, 0) for A, b, lambd in systems]


def solve_bulk_model(systems):
    out = []
    for A, b, lambd in systems:
        D = np.zeros(A.shape)
        np.add.at(D, (A.coords.rows, A.coords.cols), A.values)
        out.append(np.linalg.solve(D.T @ D + (lambd + 1e-5) * np.eye(len(b)), b.astype(np.float64)))
    return np.concatenate(out)


class Bench:
    """Objects of one run: problems, graphs, solver objects."""

    def __init__(self, spec):
        self.spec = spec
        self.problems = [world.Problem(p) for p in spec["problems"]]
        self.graphs = [p.graph() for p in self.problems]
        self.solvers = [self.make_solver(s) for s in spec["solvers"]]
        self.linears = {}

    @staticmethod
    def make_solver(s):
        return world.nonlinear_solver(
            s["nl"], world.linear_solver(s["lin"], s.get("linp")), s.get("verbose", False), **s.get("p", {})
        )

    def inputs(self, op):
        """Prepare what an operation needs; not part of the operation itself."""
        p = self.problems[op["prob"]]
        x = p.initial(op["init"], op.get("scale", 0.3))
        return x, p.assignments(x, op.get("order"))

    def prepare(self, op):
        t = op["t"]
        x, a = self.inputs(op)
        g = self.graphs[op["prob"]]
        prep = dict(x=x, a=a)
        if t == "lin":
            c, r = g.compute_cost(a)
            A = g.compute_whitened_residual_jacobian(a, r)
            prep["A"] = A
            prep["ATb"] = A.T @ -r
            prep["solver"] = world.linear_solver(op["lin"]) if op.get("own") else self.linear(op["lin"])
        elif t == "bulk":
            prep["systems"] = bulk_systems(op["init"], op["n"], op.get("big"))
            prep["solver"] = self.linear("chol")
        elif t == "solve":
            prep["solver"] = self.make_solver(self.spec["solvers"][op["solver"]]) if op.get("own") else self.solvers[op["solver"]]
        elif t == "build":
            prep["factors"] = self.problems[op["prob"]].jax_factors(op.get("forder"))
        elif t in ("set", "make"):
            p = self.problems[op["prob"]]
            y = p.initial(op["init"] + 1, 0.5)
            v = p.s.used[op["init"] % len(p.s.used)]
            prep["v"], prep["y"] = v, y
            prep["value"] = world.to_value(p.s.kinds[v], y[v])
            prep["dict"] = {p.s.variables[k]: world.to_value(p.s.kinds[k], x[k]) for k in p.s.used}
        elif t == "retract":
            d = np.random.RandomState(op["init"]).uniform(-0.5, 0.5, g.local_storage_layout.dim)
            prep["delta"] = d
            prep["a"] = a.update_storage_layout(g.storage_layout)
            prep["d"] = jaxfg.core.VariableAssignments(storage=jnp.asarray(d), storage_layout=g.local_storage_layout)
        return prep

    def linear(self, name):
        if name not in self.linears:
            self.linears[name] = world.linear_solver(name)
        return self.linears[name]

    def run(self, op, prep):
        """The operation. Returns something comparable after `norm`."""
        t = op["t"]
        g = self.graphs[op["prob"]]
        if t == "solve":
            return g.solve(prep["a"], prep["solver"])
        if t == "lin":
            return linear_fn(op["lin"])(prep["solver"], prep["A"], prep["ATb"], op["lambd"], 0)
        if t == "bulk":
            return solve_bulk(prep["solver"], prep["systems"])
        if t == "cost":
            return g.compute_cost(prep["a"])
        if t == "jac":
            return g.compute_whitened_residual_jacobian(prep["a"], g.compute_whitened_residual_vector(prep["a"]))
        if t == "nll":
            return g.compute_joint_nll(prep["a"])
        if t == "build":
            g2 = jaxfg.core.StackedFactorGraph.make(prep["factors"])
            return g2
        if t == "set":
            return prep["a"].set_value(self.problems[op["prob"]].s.variables[prep["v"]], prep["value"])
        if t == "make":
            return jaxfg.core.VariableAssignments.make_from_dict(prep["dict"])
        if t == "retract":
            return prep["a"].manifold_retract(prep["d"])
        raise AssertionError(t)

    def norm(self, op, prep, out):
        """Result -> dict of numpy arrays independent of storage order."""
        p = self.problems[op["prob"]]
        t = op["t"]
        if t == "solve":
            order = [p.s.index[v] for v in out.get_variables()]
            want = [p.s.index[v] for v in prep["a"].get_variables()]
            return dict(x=p.model and np.concatenate([v for _, v in sorted(p.read(out).items())]),
                        order=np.array(order) - np.array(want))
        if t in ("set", "make", "retract"):
            return dict(x=np.concatenate([v for _, v in sorted(p.read(out).items())]))
        if t == "lin":
            return dict(step=np.asarray(out, np.float64)[p.columns(self.graphs[op["prob"]])])
        if t == "bulk":
            return dict(steps=np.concatenate([np.asarray(x, np.float64) for x in out]))
        if t == "cost":
            return dict(cost=np.asarray(out[0], np.float64), n=np.asarray(np.sum(np.asarray(out[1]) ** 2)))
        if t == "jac":
            D = np.asarray(out.as_scipy_coo_matrix().todense(), np.float64)[:, p.columns(self.graphs[op["prob"]])]
            return dict(ATA=D.T @ D)
        if t == "nll":
            return dict(nll=np.asarray(out, np.float64))
        if t == "build":
            a = prep["a"]
            cost = out.compute_cost(a)
            J = out.compute_whitened_residual_jacobian(a, cost[1])
            D = np.asarray(J.as_scipy_coo_matrix().todense(), np.float64)[:, p.columns(out)]
            return dict(cost=np.asarray(cost[0], np.float64), ATA=D.T @ D, stacks=np.array(len(out.factor_stacks)))
        raise AssertionError(t)

    def model(self, op, prep):
        """What the numpy model says, where it can tell."""
        p = self.problems[op["prob"]]
        t = op["t"]
        g = p.model
        x = prep["x"]
        if t == "lin":
            A, r = g.linearize(x)
            H = A.T @ A
            if op["lin"] == "chol":
                H = H + (op["lambd"] + 1e-5) * np.eye(len(H))
                return dict(step=np.linalg.solve(H, -A.T @ r))
            return {}
        if t == "bulk":
            return dict(steps=solve_bulk_model(prep["systems"]))
        if t == "cost":
            return dict(cost=g.cost(x))
        if t in ("jac", "build"):
            A, r = g.linearize(x)
            out = dict(ATA=A.T @ A)
            if t == "build":
                out["cost"] = g.cost(x)
            return out
        if t == "nll":
            return dict(nll=g.nll(x))
        if t in ("set", "make", "retract"):
            y = dict(x)
            if t == "set":
                y[prep["v"]] = prep["y"][prep["v"]]
            elif t == "retract":
                y = g.retract(x, prep["delta"][p.columns(self.graphs[op["prob"]])])
            return dict(x=np.concatenate([v for _, v in sorted(y.items())]))
        return {}


def same(a, b, rtol):
    """Compare dicts of arrays; returns the name of the first difference."""
    for k in a:
        if k not in b:
            continue
        x, y = np.asarray(a[k], np.float64), np.asarray(b[k], np.float64)
        if x.shape != y.shape:
            return k
        scale = max(1.0, float(np.max(np.abs(y), initial=0.0)))
        d = np.abs(x - y)
        if not np.all(np.isfinite(x)) or not np.all(np.isfinite(y)):
            if not np.array_equal(x, y, equal_nan=True):
                return k
        elif float(np.max(d, initial=0.0)) > rtol * scale:
            return k
    return None


# -- generators ------------------------------------------------------------------

SOLVER_CHOICES = [
    ("gn", "chol"), ("lm", "chol"), ("dl", "chol"), ("gn", "cg"), ("lm", "icg"), ("dl", "cg"), ("lm", "cg"), ("fix", "chol"), ("fix", "cg"),
]


def solver_spec(rng, nl, lin, verbose=False):
    p = {}
    if nl == "fix":
        p = dict(iterations=3, unroll=False)
    else:
        p = dict(max_iterations=12)
    return dict(nl=nl, lin=lin, p=p, verbose=verbose)


def pick_structures(rng, n, fams, nv=(2, 5), allow_nll=True):
    out = []
    for i in range(n):
        out.append(dict(fam=rng.choice(list(fams)), seed=rng.randrange(10**6), nv=rng.randint(*nv)))
    return out


def has_huber(structure):
    _, sk = world.make_structure(structure)
    return any(f["noise"]["huber"] for f in sk)


def touch(problems):
    """Make sure process-wide singletons for these structures exist."""
    for p in problems:
        world.Problem(dict(p, values=p.get("values", 0))).graph()
