"""Variable types and representatives under races."""

import json

import jax
import numpy as np
from jax import numpy as jnp
from overrides import overrides

import jaxfg

from .. import world
from ..harness import Violation
from .c01 import Property as C01, _short

DIMS = (11, 12, 13, 14)
Base = jaxfg.core.VariableBase


def fresh_classes():
    """Variable classes nobody has seen before."""

    class Plain(Base[jax.Array]):
        @classmethod
        @overrides
        def get_default_value(cls) -> jax.Array:
            return jnp.zeros(2)

    class Derived(Plain):
        pass

    class Other(Base[jax.Array]):
        @classmethod
        @overrides
        def get_default_value(cls) -> jax.Array:
            return jnp.ones(2)

    return [Plain, Derived, Other]


def factor(variable, dim, c):
    return world.Linear1(
        variables=(variable,), noise_model=jaxfg.noises.DiagonalGaussian(np.ones(1)), M0=np.ones((1, dim)), c=np.array([float(c)])
    )


class Property(C01):
    id = "C10"
    runs = {"quick": 1500, "thorough": 15000}

    def warm(self, ctx):
        ctx.instruction = None

    def touch(self, spec):
        pass

    def generate(self, rng, ctx):
        dims = rng.sample(DIMS, rng.choice([1, 1, 2, 3]))
        custom = rng.sample(range(3), rng.choice([1, 1, 2]))
        clients = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            seq = []
            for _ in range(rng.randint(1, 4)):
                t = rng.choice(["type", "type", "rep", "rep", "crep", "crep", "factor", "factor", "cfactor", "build"])
                if rng.random() < 0.03:
                    t = "many"
                op = dict(t=t)
                if t in ("type", "rep", "factor"):
                    op["dim"] = rng.choice(dims)
                elif t == "many":
                    op.update(dim=rng.choice([11, 14, 30]), n=rng.choice([5, 20, 40, 150]))
                elif t in ("crep", "cfactor"):
                    op["cls"] = rng.choice(custom)
                else:
                    # Factors of several types.
                    op["dims"] = [rng.choice(dims) for _ in range(rng.randint(1, 3))]
                    op["classes"] = [rng.choice(custom) for _ in range(rng.randint(0, 2))]
                seq.append(op)
            clients.append(seq)
        faults = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                c = rng.randrange(len(clients))
                faults.append(
                    dict(kind="interrupt", client=c, op=rng.randrange(len(clients[c])),
                         at=rng.choice([rng.randint(1, 12), rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 400)]),
                         exc=rng.choice(["KeyboardInterrupt", "MemoryError"]))
                )
        if rng.random() < 0.7:
            schedule = dict(mode="random", p=rng.choice([0.02, 0.1, 0.3, 0.6]))
        else:
            schedule = dict(mode="pct", depth=rng.choice([1, 2, 3]), horizon=rng.choice([30, 100, 400]))
        return dict(clients=clients, schedule=schedule, faults=faults)

    def execute(self, spec, sim, out):
        self.phase(spec, sim, out, "one at a time", dict(scheduled=False, faults=False))
        sim.restore()
        self.phase(spec, sim, out, "overlapping", {})
        if len(out.switches) > len(spec["clients"]):
            out.key = (json.dumps(spec["clients"]), json.dumps(spec["faults"]), out.switch_hash)

    def phase(self, spec, sim, out, when, kw):
        classes = fresh_classes()
        types = {}  # dim -> all answers
        reps = {}  # class -> all answers
        made = []  # (group, factor)
        errors = []
        graphs = []
        RV = jaxfg.core.RealVectorVariable

        def run(op, i, j):
            t = op["t"]
            if t == "many":
                for d in range(op["dim"], op["dim"] + op["n"]):
                    types.setdefault(d, []).append(RV[d])
            elif t == "type":
                types.setdefault(op["dim"], []).append(RV[op["dim"]])
            elif t == "rep":
                cls = RV[op["dim"]]
                r = cls.canonical_instance()
                types.setdefault(op["dim"], []).append(cls)
                reps.setdefault(cls, []).append(r)
            elif t == "crep":
                cls = classes[op["cls"]]
                reps.setdefault(cls, []).append(cls.canonical_instance())
            elif t == "factor":
                made.append((("d", op["dim"]), factor(RV[op["dim"]](), op["dim"], 10 * i + j)))
            elif t == "cfactor":
                made.append((("c", op["cls"]), factor(classes[op["cls"]](), 2, 10 * i + j)))
            else:
                fs = [factor(RV[d](), d, 1) for d in op["dims"]] + [factor(classes[k](), 2, 2) for k in op["classes"]]
                g = jaxfg.core.StackedFactorGraph.make(fs)
                graphs.append((len(set(op["dims"])) + len(set(op["classes"])), len(g.factor_stacks), len(fs), g))

        def client(i, seq):
            def go(c):
                for j, op in enumerate(seq):
                    sim.sched.begin_op(c, j)
                    try:
                        run(op, i, j)
                    except (Exception, KeyboardInterrupt) as e:
                        errors.append((i, j, op["t"], e, list(c.fired)))
                    sim.sched.end_op(c)

            return go

        fns = [client(i, seq) for i, seq in enumerate(spec["clients"])]
        if kw.get("scheduled", True):
            sim.clients(fns)
        else:
            for f in fns:
                sim.clients([f], **kw)

        for i, j, t, e, fired in errors:
            sim.note(i, j, type(e).__name__)
            if not fired:
                raise Violation("raised", "%s: client %d operation %d (%s) raised %s" % (when, i, j, t, _short(e)))
            out.info["failed operations"] = out.info.get("failed operations", 0) + 1
        for d in sorted({d for d in types} | {g[1] for g, _ in made if g[0] == "d"}):
            now = RV[d]
            for got in types.get(d, []):
                if got is not now:
                    raise Violation("type", "%s: different types for dimension %d" % (when, d))
            if now.get_parameter_dim() != d or np.shape(now.get_default_value()) != (d,):
                raise Violation("dimension", "%s: the type for dimension %d has dimension %d" % (when, d, now.get_parameter_dim()))
        for cls, got in reps.items():
            now = cls.canonical_instance()
            if any(r is not now for r in got):
                raise Violation("representative", "%s: different representatives of %s" % (when, cls.__name__))
            if type(now) is not cls:
                raise Violation("representative", "%s: the representative of %s is a %s" % (when, cls.__name__, type(now).__name__))
        for want, got, n, g in graphs:
            if want != got or sum(s.num_factors for s in g.factor_stacks) != n:
                raise Violation("stacking", "%s: %d stacks instead of %d" % (when, got, want))
        for g, f in made:
            want = RV[g[1]] if g[0] == "d" else classes[g[1]]
            if type(f.variables[0]) is not want:
                raise Violation("type", "%s: a variable has another type than the one for %s" % (when, g))
        if made:
            g = jaxfg.core.StackedFactorGraph.make([f for _, f in made])
            groups = sorted({x for x, _ in made})
            if len(g.factor_stacks) != len(groups):
                raise Violation("stacking", "%s: %d stacks of factors of %d types" % (when, len(g.factor_stacks), len(groups)))
            sizes = sorted(s.num_factors for s in g.factor_stacks)
            if sizes != sorted(sum(1 for x, _ in made if x == y) for y in groups):
                raise Violation("stacking", "%s: stacks of sizes %s" % (when, sizes))
            dims = sorted(s.factor.M0.shape[-1] for s in g.factor_stacks)
            if dims != sorted(x[1] if x[0] == "d" else 2 for x in groups):
                raise Violation("stacking", "%s: stacks of dimensions %s" % (when, dims))
        sim.note(len(types), len(reps), len(made), len(graphs))
