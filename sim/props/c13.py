"""Batches."""

import json
import random

import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp
from overrides import overrides

import jaxfg

from .. import ops, world
from ..harness import BaseProperty, Violation
from ..probed import params

KINDS = ["none", "nan", "zero", "neg", "long", "short", "inf"]
WINDOW = 32


@jdc.pytree_dataclass
class Disturbed(jaxfg.sparse.LinearSubproblemSolverBase):
    """Answers of `inner`, replaced according to a table indexed by iteration."""

    inner: jaxfg.sparse.LinearSubproblemSolverBase
    table: jaxfg.hints.Array

    @overrides
    def solve_subproblem(
        self,
        A: jaxfg.sparse.SparseCooMatrix,
        ATb: jaxfg.hints.Array,
        lambd: jaxfg.hints.Scalar,
        iteration: jaxfg.hints.Scalar,
    ) -> jnp.ndarray:
        step = self.inner.solve_subproblem(A=A, ATb=ATb, lambd=lambd, iteration=iteration)
        kind = jnp.asarray(self.table)[jnp.minimum(iteration, WINDOW - 1)]
        return jnp.select(
            [kind == i for i in range(len(KINDS))],
            [step, jnp.full_like(step, jnp.nan), jnp.zeros_like(step), -step, 3.0 * step, 0.5 * step, jnp.full_like(step, jnp.inf)],
        )


_single = jax.jit(lambda solver, graph, a: solver.solve(graph, a))
_batch = jax.jit(jax.vmap(lambda solver, graph, a: solver.solve(graph, a)))


class Property(BaseProperty):
    id = "C13"
    runs = {"quick": 250, "thorough": 2500}
    combos = [("gn", "cg"), ("lm", "cg"), ("dl", "cg"), ("fix", "cg"), ("lm", "icg"), ("gn", "icg")]

    def warm(self, ctx):
        rng = random.Random("%s/c13/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["se2", "vec", "mixed", "linear", "se3", "robust", "so", "manifold"]
        base = random.Random("%s/c13" % ctx.seed)
        base.shuffle(fams)
        ctx.structures = ops.pick_structures(rng, 2, fams, nv=(2, 4))
        for i, st in enumerate(ctx.structures):
            st["fam"] = fams[(ctx.worker + 3 * i) % len(fams)]
        n = len(self.combos)
        ctx.combos = [self.combos[(ctx.worker + 2 * i) % n] for i in range(2)]
        ops.touch(ctx.structures)

    def touch(self, spec):
        ops.touch([spec["problem"]])

    def generate(self, rng, ctx):
        nl, lin = rng.choice(ctx.combos)
        st = rng.choice(ctx.structures)
        lanes = []
        # Few sizes: each is compiled once.
        for _ in range(rng.choice([2, 4])):
            p = dict(iterations=5, unroll=False) if nl == "fix" else params(rng, nl, max_it=(1, 20))
            n = p.get("max_iterations", 5)
            table = {}
            r = rng.random()
            if r > 0.35:
                for k in range(n):
                    if rng.random() < (0.3 if r < 0.8 else 0.9):
                        table[k] = rng.randrange(1, len(KINDS))
            lanes.append(
                dict(values=rng.randrange(10**6), init=rng.randrange(10**6), scale=rng.choice([0.0, 0.1, 0.4, 1.0]),
                     table=sorted(table.items()), p=p)
            )
        return dict(problem=dict(st, values=0), solver=[nl, lin], lanes=lanes)

    def execute(self, spec, sim, out):
        nl, lin = spec["solver"]
        graphs, starts, solvers, problems = [], [], [], []
        for lane in spec["lanes"]:
            p = world.Problem(dict(spec["problem"], values=lane["values"]))
            table = np.zeros(WINDOW, np.int32)
            for k, kind in lane["table"]:
                table[k] = kind
                out.faults["step:" + KINDS[kind]] = out.faults.get("step:" + KINDS[kind], 0) + 1
            problems.append(p)
            graphs.append(p.graph())
            starts.append(p.assignments(p.initial(lane["init"], lane["scale"])))
            q = {k: (np.asarray(v) if nl != "fix" else v) for k, v in lane["p"].items()}
            solvers.append(world.nonlinear_solver(nl, Disturbed(world.linear_solver(lin), table), **q))
        stack = lambda trees: jax.tree_util.tree_map(lambda *xs: np.stack([np.asarray(x) for x in xs]), *trees)
        got = _batch(stack(solvers), stack(graphs), stack(starts))
        for i, lane in enumerate(spec["lanes"]):
            alone = np.asarray(_single(solvers[i], graphs[i], starts[i]).storage)
            mine = np.asarray(got.storage)[i]
            sim.note_array(np.round(mine, 6))
            if same(mine, alone):
                out.info["members"] = out.info.get("members", 0) + 1
                continue
            # A solve that goes elsewhere after a tiny change of its start decides nothing.
            if self.sensitive(solvers[i], graphs[i], starts[i], alone):
                out.info["undecided"] = out.info.get("undecided", 0) + 1
                continue
            raise Violation("member", "member %d of %d gets another result than alone" % (i, len(spec["lanes"])))
        out.key = (json.dumps(spec["problem"]), json.dumps(spec["solver"]), json.dumps(spec["lanes"]))

    @staticmethod
    def sensitive(solver, graph, start, alone):
        r = np.random.RandomState(0)
        for scale in (1e-14, 1e-13, 1e-13, 1e-12, 1e-12, 1e-11):
            x = np.asarray(start.storage)
            y = x * (1.0 + scale * r.standard_normal(len(x)))
            z = np.asarray(_single(solver, graph, jdc.replace(start, storage=jnp.asarray(y))).storage)
            if not same(z, alone, 1e-8):
                return True
        return False

    def shrink(self, spec):
        n = len(spec["lanes"])
        for i in range(n):
            if n > 2:
                yield dict(spec, lanes=spec["lanes"][:i] + spec["lanes"][i + 1 :])
            lane = spec["lanes"][i]
            for k in range(len(lane["table"])):
                new = dict(lane, table=lane["table"][:k] + lane["table"][k + 1 :])
                yield dict(spec, lanes=spec["lanes"][:i] + [new] + spec["lanes"][i + 1 :])


def same(a, b, tol=1e-6):
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (np.all(fa) and np.all(fb)):
        return bool(np.all(fa)) == bool(np.all(fb))
    return bool(np.all(np.abs(a - b) <= tol * (1.0 + np.abs(b))))
