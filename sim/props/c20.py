"""Work inside functions that the caller transforms."""

import json
import random

import jax
import numpy as np
from jax import numpy as jnp
from overrides import overrides

import jaxfg

from .. import ops, ref, world
from ..harness import Violation
from .c01 import Property as C01, _short
from .c09 import close

Assignments = jaxfg.core.VariableAssignments
EXC = (Exception, KeyboardInterrupt)
CALLBACKS = ("plain", "jit", "jit jit", "scan", "jaxpr")
WITHOUT = ("vmap", "jit vmap", "vmap jit", "jvp", "checkpoint", "shape")


class CallerError(Exception):
    """Raised by the caller's function."""


def fresh_type(n):
    """A variable type that did not exist before."""

    class Fresh(jaxfg.core.VariableBase[jaxfg.hints.Array]):
        @classmethod
        @overrides
        def get_default_value(cls) -> jaxfg.hints.Array:
            return jnp.arange(n) + 0.5

        @classmethod
        @overrides
        def manifold_retract(cls, x: jaxfg.hints.Array, local_delta: jaxfg.hints.Array) -> jaxfg.hints.Array:
            return x * jnp.exp(local_delta)

    return Fresh


class World:
    """Objects that outlive the transformed functions."""

    def __init__(self, spec):
        self.p = world.Problem(spec["problem"])
        self.s = self.p.s
        self.graph = self.p.graph()
        self.factors = self.p.jax_factors()
        self.types = {}
        self.variables = {}

    def variable(self, key):
        if key not in self.types:
            self.types[key] = jaxfg.core.RealVectorVariable[key[1]] if key[0] == "vector" else fresh_type(key[1])
        if key not in self.variables:
            self.variables[key] = self.types[key]()
        return self.variables[key]

    def inputs(self, seed):
        x = self.p.initial(seed, 0.3)
        y = self.p.initial(seed + 1, 0.3)
        d = np.random.RandomState(seed).uniform(-0.1, 0.1, self.p.model.ldim)
        return x, y, d

    def arguments(self, seed):
        x, y, d = self.inputs(seed)
        to = lambda z: {str(v): world.to_value(self.s.kinds[v], z[v]) for v in z}
        inv = np.argsort(self.p.columns(self.graph))
        return to(x), to(y), jnp.asarray(d[inv]), self.factors

    def solver(self, op):
        params = dict(iterations=op["n"], unroll=op["n"] == 2) if op["s"] == "fix" else dict(max_iterations=op["n"], cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0)
        return world.nonlinear_solver(op["s"], world.linear_solver(op["lin"]), **params)

    # -- what the caller's function does --------------------------------------------

    def body(self, prog, args):
        x, y, d, factors = args
        s = self.s
        graph, a, out = self.graph, None, {}
        vs = list(s.used)
        random.Random("order/%d" % prog["seed"]).shuffle(vs)
        for j, op in enumerate(prog["ops"]):
            t = op["t"]
            if t == "dict":
                a = Assignments.make_from_dict({s.variables[v]: x[str(v)] for v in vs})
            elif t == "partial":
                some = vs[: op["k"] % len(vs)]
                a = Assignments.make_from_partial_dict([s.variables[v] for v in vs], {s.variables[v]: x[str(v)] for v in some})
            elif t == "set":
                v = vs[op["k"] % len(vs)]
                a = a.set_value(s.variables[v], y[str(v)])
            elif t == "move":
                a = a.manifold_retract(Assignments(storage=d, storage_layout=self.graph.local_storage_layout))
            elif t == "layout":
                a = a.update_storage_layout(self.graph.storage_layout)
            elif t == "build":
                graph = jaxfg.core.StackedFactorGraph.make(factors, use_onp=op["onp"])
            elif t == "cost":
                out[str(j)] = graph.compute_cost(a)[0]
            elif t == "nll":
                out[str(j)] = graph.compute_joint_nll(a)
            elif t == "gradient":
                r = graph.compute_whitened_residual_vector(a)
                g = graph.compute_whitened_residual_jacobian(a, r).T @ r
                out[str(j)] = {str(v): self.part(graph, v, g) for v in s.used}
            elif t == "solve":
                a = graph.solve(a, self.solver(op))
            elif t == "vector" or t == "fresh":
                v = self.variable((t, op["n"]))
                b = Assignments.make_from_defaults([v, self.types[t, op["n"]]()])
                b = b.set_value(v, b.get_value(v) + 1.0)
                b = b.manifold_retract(Assignments(storage=jnp.full(2 * op["n"], 0.25), storage_layout=jaxfg.core.StorageLayout.make(b.get_variables(), local=True)))
                out[str(j)] = [b.get_value(v), b.get_stacked_value(type(v))]
            elif t == "type":
                v = self.variable(("fresh", op["n"]))
                out[str(j)] = [type(v).canonical_instance().get_default_value(), jnp.concatenate([jnp.ravel(m) for m in type(v).manifold_retract_jacobian(jnp.ones(op["n"]))])]
            elif t == "raise":
                raise CallerError("step %d" % j)
            elif t != "skip":
                raise AssertionError(t)
        if a is not None:
            out["end"] = {str(v): a.get_value(s.variables[v]) for v in vs}
        return out

    def part(self, graph, v, g):
        i = graph.local_storage_layout.index_from_variable[self.s.variables[v]]
        return g[i : i + ref.kind(self.s.kinds[v]).ldim]

    # -- the caller -------------------------------------------------------------------

    def call(self, prog, how):
        """-> list of results, one per member of the batch (None: only traced)"""
        seeds = [prog["seed"], prog["seed"] + 7] if "vmap" in how or how == "scan" else [prog["seed"]]
        args = [self.arguments(k) for k in seeds]
        f = lambda args: self.body(prog, args)
        if how == "plain":
            return seeds, [f(args[0])]
        if how in ("jit", "jit jit"):
            inner = jax.jit(f)
            return seeds, [(inner if how == "jit" else jax.jit(lambda args: inner(args)))(args[0])]
        if how == "jaxpr":
            jax.make_jaxpr(f)(args[0])
            return seeds, [None]
        if how == "shape":
            jax.eval_shape(f, args[0])
            return seeds, [None]
        if how == "jvp":
            x, y, d, factors = args[0]
            out, tangent = jax.jvp(lambda d: f((x, y, d, factors)), (d,), (jnp.ones_like(d),))
            return seeds, [out]
        if how == "checkpoint":
            return seeds, [jax.checkpoint(f)(args[0])]
        # Only the values are batched.
        x, y, d = (jax.tree_util.tree_map(lambda *l: jnp.stack(l), *[a[i] for a in args]) for i in range(3))
        g = lambda x, y, d: self.body(prog, (x, y, d, self.factors))
        if how == "scan":
            out = jax.lax.scan(lambda c, xyd: (c, g(*xyd)), 0, (x, y, d))[1]
        elif how == "vmap":
            out = jax.vmap(g)(x, y, d)
        elif how == "jit vmap":
            out = jax.jit(jax.vmap(g))(x, y, d)
        elif how == "vmap jit":
            out = jax.vmap(jax.jit(g))(x, y, d)
        else:
            raise AssertionError(how)
        return seeds, [jax.tree_util.tree_map(lambda l: l[i], out) for i in range(len(seeds))]

    # -- what has to come out -----------------------------------------------------------

    def expected(self, prog, seed):
        """-> results, or None if rounding decides"""
        x, y, d = self.inputs(seed)
        s, model = self.s, self.p.model
        out, a = {}, None
        vs = list(s.used)
        random.Random("order/%d" % prog["seed"]).shuffle(vs)
        for j, op in enumerate(prog["ops"]):
            t = op["t"]
            if t == "dict":
                a = dict(x)
            elif t == "partial":
                some = vs[: op["k"] % len(vs)]
                a = {v: x[v] if v in some else np.array(ref.kind(s.kinds[v]).default, float) for v in vs}
            elif t == "set":
                v = vs[op["k"] % len(vs)]
                a = dict(a)
                a[v] = y[v]
            elif t == "move":
                a = model.retract(a, d)
            elif t == "cost":
                out[str(j)] = model.cost(a)
            elif t == "nll":
                out[str(j)] = model.nll(a)
            elif t == "gradient":
                A, r = model.linearize(a)
                g = A.T @ r
                out[str(j)] = {str(v): g[model.loc[v] : model.loc[v] + ref.kind(s.kinds[v]).ldim] for v in s.used}
            elif t == "solve":
                with np.errstate(all="ignore"):
                    for _ in range(op["n"]):
                        A, r = model.linearize(a)
                        H = A.T @ A + (1e-5 if op["lin"] == "chol" else 0.0) * np.eye(A.shape[1])
                        if not np.all(np.isfinite(H)) or np.linalg.cond(H) > (1e6 if op["lin"] == "chol" else 300.0):
                            return None
                        a = model.retract(a, np.linalg.solve(H, -A.T @ r))
                        if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e3 for v in a.values()):
                            return None
            elif t == "vector":
                e = 1.25 * np.ones(op["n"])
                out[str(j)] = [e, np.stack([e, e - 1.0])]
            elif t == "fresh":
                e = np.arange(op["n"]) + 0.5
                out[str(j)] = [(e + 1.0) * np.exp(0.25), np.stack([e + 1.0, e]) * np.exp(0.25)]
            elif t == "type":
                out[str(j)] = [np.arange(op["n"]) + 0.5, np.eye(op["n"]).ravel()]
        if a is not None:
            out["end"] = {str(v): a[v] for v in a}
        return out


class Property(C01):
    id = "C20"
    runs = {"quick": 30, "thorough": 300}

    def warm(self, ctx):
        rng = random.Random("%s/c20/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["se2", "vec", "mixed", "manifold", "linear", "so", "robust", "se3"]
        i = random.Random("%s/c20" % ctx.seed).randrange(len(fams))
        ctx.structures = ops.pick_structures(rng, 2, fams, nv=(2, 4))
        for k, st in enumerate(ctx.structures):
            st["fam"] = fams[(i + ctx.worker + 3 * k) % len(fams)]
        ops.touch(ctx.structures)

    def touch(self, spec):
        ops.touch([spec["problem"]])

    def generate(self, rng, ctx):
        i = rng.randrange(len(ctx.structures))
        problem = dict(ctx.structures[i], values=rng.randrange(10**6))
        if rng.random() < 0.5:
            # Variables that no compiled function knows.
            problem["inc"] = rng.randrange(10**9)
        huber = ops.has_huber(problem)
        clients = []
        faults = []
        for c in range(rng.choice([1, 1, 1, 2])):
            seq = []
            for j in range(rng.choice([1, 2, 2, 3])):
                how = rng.choice(CALLBACKS + WITHOUT)
                steps = [dict(t=rng.choice(["dict", "partial"]), k=rng.randrange(10))]
                for _ in range(rng.randint(1, 3)):
                    t = rng.choice(["set", "set", "move", "move", "layout", "build", "cost", "cost", "nll", "gradient", "solve", "solve", "vector", "fresh", "type"])
                    if t == "nll" and huber:
                        t = "cost"
                    op = dict(t=t, k=rng.randrange(10))
                    if t == "build":
                        op["onp"] = False
                    elif t in ("vector", "fresh", "type"):
                        op["n"] = rng.randint(2, 6) if t != "vector" else rng.randint(40, 400)
                    elif t == "solve":
                        op["n"] = rng.randint(1, 3)
                        op["s"] = rng.choice(["gn", "fix"])
                        op["lin"] = "chol" if how in CALLBACKS and rng.random() < 0.7 else "cg"
                    steps.append(op)
                r = rng.random()
                if r < 0.25:
                    steps.insert(rng.randint(1, len(steps)), dict(t="raise"))
                elif r < 0.5:
                    faults.append(dict(kind="trace", client=c, op=j, at=rng.choice([rng.randint(1, 40), rng.randint(1, 300)]), exc=rng.choice(["KeyboardInterrupt", "MemoryError"])))
                seq.append(dict(how=how, seed=rng.randrange(1000), ops=steps))
            clients.append(seq)
        return dict(problem=problem, clients=clients, faults=faults, schedule=dict(mode="random", p=rng.choice([0.1, 0.4])))

    def execute(self, spec, sim, out):
        # What is traced here does not depend on earlier runs.
        jax.clear_caches()
        w = World(spec)

        def client(i, seq, hows, log):
            def go(c):
                for j, prog in enumerate(seq):
                    how = hows(prog)
                    sim.sched.begin_op(c, j)
                    try:
                        seeds, got = w.call(prog, how)
                        log.append((i, j, prog, how, seeds, got, list(c.fired)))
                    except EXC as e:
                        log.append((i, j, prog, how, None, e, list(c.fired)))
                    sim.sched.end_op(c)

            return go

        def phase(when, hows, clients, **kw):
            log = []
            sim.clients([client(i, seq, hows, log) for i, seq in enumerate(clients)], **kw)
            log.sort(key=lambda e: e[:2])
            for i, j, prog, how, seeds, got, fired in log:
                where = "%s: client %d function %d (%s)" % (when, i, j, how)
                raises = any(op["t"] == "raise" for op in prog["ops"])
                if seeds is None:
                    sim.note(i, j, type(got).__name__)
                    if raises and isinstance(got, CallerError):
                        out.info["abandoned"] = out.info.get("abandoned", 0) + 1
                    elif not fired:
                        raise Violation("raised", "%s raised %s" % (where, _short(got)))
                    continue
                if raises:
                    raise Violation("swallowed", "%s did not raise the error of the caller" % where)
                for k, g in zip(seeds, got):
                    if g is None:
                        continue
                    self.compare(w, prog, k, g, where, sim, out)

        phase("first", lambda prog: prog["how"], spec["clients"])
        # The same work without faults, and outside of transformed functions.
        again = [[dict(prog, ops=[op for op in prog["ops"] if op["t"] != "raise"]) for prog in seq] for seq in spec["clients"]]
        coin = random.Random("again/%s" % spec["problem"]["values"])
        hows = {}
        for seq in again:
            for prog in seq:
                hows[prog["seed"]] = "plain" if coin.random() < 0.5 else prog["how"]
        if coin.random() < 0.5:
            # Everything is traced once more.
            jax.clear_caches()
        phase("again", lambda prog: hows[prog["seed"]], again, scheduled=False, faults=False)
        out.key = (json.dumps(spec["problem"]), json.dumps(spec["clients"]), json.dumps(spec["faults"]))

    def compare(self, w, prog, seed, got, where, sim, out):
        want = w.expected(prog, seed)
        tol = 2e-3 if any(op.get("lin") == "cg" for op in prog["ops"]) else 1e-6
        if want is None:
            out.info["undecided"] = out.info.get("undecided", 0) + 1
            return
        out.info["results"] = out.info.get("results", 0) + 1
        for key in sorted(want):
            a, b = got[key], want[key]
            if key == "end":
                pairs = [("variable %s" % v, world.from_value(w.s.kinds[int(v)], a[v]), b[v]) for v in sorted(b)]
            elif isinstance(b, dict):
                pairs = [("variable %s" % v, a[v], b[v]) for v in sorted(b)]
            elif isinstance(b, list):
                pairs = [("part %d" % k, a[k], b[k]) for k in range(len(b))]
            else:
                pairs = [("value", a, b)]
            for what, u, v in pairs:
                u = np.asarray(u, float)
                sim.note_array(u)
                if u.shape != np.shape(v) or not close(u, v, tol):
                    name = "the final assignments" if key == "end" else "step %s (%s)" % (key, prog["ops"][int(key)]["t"])
                    raise Violation("wrong", "%s: %s, %s is wrong" % (where, name, what))

    def shrink(self, spec):
        for i in range(len(spec["clients"])):
            for j in reversed(range(len(spec["clients"][i]))):
                new = json.loads(json.dumps(spec))
                del new["clients"][i][j]
                if any(f["client"] == i and f["op"] >= j for f in new["faults"]):
                    continue
                yield new
        for i, seq in enumerate(spec["clients"]):
            for j, prog in enumerate(seq):
                for k in range(1, len(prog["ops"])):
                    new = json.loads(json.dumps(spec))
                    if prog["ops"][k]["t"] != "skip":
                        new["clients"][i][j]["ops"][k] = dict(t="skip")
                        yield new
