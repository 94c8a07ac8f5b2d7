"""Graphs from factors that arrive in any order."""

import json
import random

import jax
import numpy as np

import jaxfg

from .. import ops, ref, world
from ..harness import Violation
from .c01 import Property as C01, _short


class Stream:
    """Factors on their way from producers to a consumer."""

    def __init__(self, sim, producers, fail_at=None):
        self.sim, self.open = sim, producers
        self.items, self.taken = [], []
        self.fail_at = fail_at
        self.failed = False

    def put(self, item):
        s = self.sim.sched
        self.items.append(item)
        s.unblock(self)
        s.yield_point(s.me(), b"put")

    def close(self):
        self.open -= 1
        self.sim.sched.unblock(self)

    def __iter__(self):
        return self

    def __next__(self):
        s = self.sim.sched
        while True:
            if self.fail_at is not None and len(self.taken) == self.fail_at:
                self.failed = True
                s.count_fault("producer failure")
                raise OSError(104, "simulated: connection reset")
            if self.items:
                k, f = self.items.pop(0)
                self.taken.append(k)
                return f
            if not self.open:
                raise StopIteration
            s.block(s.me(), self)


class Property(C01):
    id = "C12"
    runs = {"quick": 40, "thorough": 400}

    def warm(self, ctx):
        rng = random.Random("%s/c12/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["se2", "vec", "mixed", "linear", "se3", "robust", "so", "manifold"]
        rng.shuffle(fams)
        ctx.structures = ops.pick_structures(rng, 4, fams, nv=(2, 4))
        for i, st in enumerate(ctx.structures):
            st["fam"] = fams[i]
        ops.touch(ctx.structures)
        ctx.twice = [rng.randrange(100) for _ in ctx.structures]
        ctx.huber = [ops.has_huber(s) for s in ctx.structures]

    def touch(self, spec):
        ops.touch([spec["problem"]])

    def generate(self, rng, ctx):
        i = rng.randrange(len(ctx.structures))
        problem = dict(ctx.structures[i], values=rng.randrange(10**6))
        n = len(world.Problem(problem).factors)
        order = list(range(n))
        rng.shuffle(order)
        k = rng.choice([1, 2, 2, 3])
        producers = [order[j::k] for j in range(k)]
        faults = []
        twice = rng.random() < 0.2
        if twice:
            # One of the factors arrives a second time and counts twice.
            producers[rng.randrange(k)].append(ctx.twice[i] % n)
        if rng.random() < 0.2:
            faults.append(dict(kind="producer", at=rng.randrange(n)))
        spec = dict(
            problem=problem, init=rng.randrange(1000), producers=producers, faults=faults,
            order=rng.randrange(4), lazy=rng.random() < 0.8, onp=rng.random() < 0.8,
            schedule=dict(mode="random", p=rng.choice([0.05, 0.3, 0.6])),
        )
        r = rng.random()
        if r < 0.45 and not twice:
            spec["solver"] = rng.choice([["gn", "chol"], ["lm", "chol"], ["dl", "chol"], ["fix", "chol"], ["gn", "cg"], ["lm", "cg"], ["fix", "cg"]])
        return spec

    def execute(self, spec, sim, out):
        p = world.Problem(spec["problem"])
        graphs, errors, streams = [], [], []
        fail = [f["at"] for f in spec["faults"] if f["kind"] == "producer"]

        def phase(fail_at, **kw):
            stream = Stream(sim, len(spec["producers"]), fail_at)
            streams.append(stream)
            made = [world.jax_factor(f, p.s.variables) for f in p.factors]

            def producer(mine):
                def go(c):
                    for k in mine:
                        stream.put((k, made[k]))
                    stream.close()

                return go

            def consumer(c):
                source = stream if spec["lazy"] else list(stream)
                try:
                    graphs.append(jaxfg.core.StackedFactorGraph.make(source, use_onp=spec["onp"]))
                except Exception as e:
                    errors.append(e)

            sim.clients([producer(m) for m in spec["producers"]] + [self.guard(consumer, errors)], **kw)

        phase(fail[0] if fail else None)
        if errors or (fail and graphs):
            if not fail:
                raise Violation("raised", "building the graph raised %s" % _short(errors[0]))
            if not errors:
                raise Violation("swallowed", "a graph was built although its factors could not all be delivered")
            del graphs[:], errors[:]
            phase(None)
            if errors:
                raise Violation("raised", "building the graph again raised %s" % _short(errors[0]))
        graph = graphs[0]
        arrival = streams[-1].taken
        sim.note(arrival)
        out.info["arrival orders"] = 1
        x = p.initial(spec["init"], 0.3)
        a = p.assignments(x, spec["order"])
        self.check(spec, p, graph, a, x, sim, out, ref.Graph(p.s.kinds, [p.factors[k] for k in arrival]))
        out.key = (json.dumps(spec["problem"]), spec["init"], tuple(arrival), spec["order"], json.dumps(spec.get("solver")))

    @staticmethod
    def guard(fn, errors):
        def go(c):
            try:
                fn(c)
            except OSError as e:
                errors.append(e)

        return go

    def check(self, spec, p, graph, a, x, sim, out, g):
        tol = 1e-8
        cost, r = graph.compute_cost(a)
        want = g.cost(x)
        sim.note_array(np.asarray(cost))
        if not abs(float(cost) - want) <= tol * (1 + abs(want)):
            raise Violation("cost", "the cost is %r instead of %r" % (float(cost), want))
        if not abs(float(np.sum(np.asarray(r) ** 2)) - want) <= tol * (1 + abs(want)):
            raise Violation("residual", "the residual does not belong to the cost")
        if not any("huber" in f["noise"] for f in p.factors):
            nll = float(graph.compute_joint_nll(a))
            w = g.nll(x)
            if not abs(nll - w) <= tol * (1 + abs(w)):
                raise Violation("nll", "the negative log-likelihood is %r instead of %r" % (nll, w))
        J = graph.compute_whitened_residual_jacobian(a, r)
        D = np.asarray(J.as_scipy_coo_matrix().todense(), float)[:, p.columns(graph)]
        A, res = g.linearize(x)
        if ops.same(dict(H=D.T @ D, b=D.T @ np.asarray(r, float)), dict(H=A.T @ A, b=A.T @ res), 1e-7):
            raise Violation("linearization", "the linearization differs from that of the single factors")
        u = np.random.RandomState(spec["init"]).standard_normal(D.shape)
        v = u[:, 0] if D.shape[1] else np.zeros(len(u))
        raw = np.asarray(J.as_scipy_coo_matrix().todense(), float)
        for name, got, want in (
            ("dense matrix", J.as_dense(), raw),
            ("product", J @ u[0], raw @ u[0]),
            ("transposed product", J.T @ v, raw.T @ v),
        ):
            if ops.same(dict(m=got), dict(m=want), 1e-7):
                raise Violation("linearization", "the %s of the linearization differs from that of the single factors" % name)
        if set(graph.get_variables()) != {p.s.variables[v] for v in p.s.used}:
            raise Violation("variables", "the graph has other variables than its factors")
        if spec.get("solver"):
            self.check_solve(spec, p, graph, a, x, sim, out)

    def check_solve(self, spec, p, graph, a, x, sim, out):
        nl, lin = spec["solver"]
        params = dict(iterations=25, unroll=False) if nl == "fix" else dict(max_iterations=60, cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0)
        solver = world.nonlinear_solver(nl, world.linear_solver(lin), **params)
        y = p.read(graph.solve(a, solver))
        straight = p.graph()
        z = p.read(straight.solve(p.assignments(x), solver))
        # Where Gauss-Newton does not converge, rounding errors decide where it ends.
        A, res = p.model.linearize(z)
        if not np.all(np.isfinite(res)) or np.abs(A.T @ res).max() > 1e-6 or np.linalg.cond(A.T @ A) > 1e8:
            out.info["not converged"] = 1
            return
        out.info["solves"] = 1
        fy = np.concatenate([y[v] for v in sorted(y)])
        fz = np.concatenate([z[v] for v in sorted(z)])
        sim.note(bool(np.allclose(fy, fz, atol=1e-5)))
        if not np.allclose(fy, fz, rtol=1e-5, atol=1e-5):
            raise Violation("solution", "the solution depends on the order of the factors")

    def shrink(self, spec):
        if spec.get("solver"):
            yield dict(spec, solver=None)
        if len(spec["producers"]) > 1:
            yield dict(spec, producers=[[k for m in spec["producers"] for k in m]], schedule=dict(mode="explicit", switches=[]))
