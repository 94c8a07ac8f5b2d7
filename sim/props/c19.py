"""Sessions: graphs grow and shrink, estimates are carried along."""

import json
import random

import jax
import numpy as np
from jax import numpy as jnp

import jaxfg
from jaxfg.experimental import SparseCovariance

from .. import ops, ref, world
from ..harness import Violation
from .c01 import Property as C01, _short
from .c09 import close

Assignments = jaxfg.core.VariableAssignments
EXC = (Exception, KeyboardInterrupt)


class Estimate:
    """Assignments of a session at some time and what they have to contain."""

    def __init__(self, stage, real, values):
        self.stage, self.real, self.values = stage, real, values


class Stage:
    """The factors between the first variables."""

    def __init__(self, p, ks):
        self.p, self.ks = p, ks
        self.model = ref.Graph(p.s.kinds, [p.factors[k] for k in ks])
        self.vars = list(self.model.used)
        self.graph = jaxfg.core.StackedFactorGraph.make([world.jax_factor(p.factors[k], p.s.variables) for k in ks])

    def gauss_newton(self, x, n):
        """The estimate after n iterations, or None if rounding decides about it."""
        with np.errstate(all="ignore"):
            for _ in range(n):
                A, r = self.model.linearize(x)
                H = A.T @ A + 1e-5 * np.eye(A.shape[1])
                if not np.all(np.isfinite(H)) or np.linalg.cond(H) > 1e8:
                    return None
                x = self.model.retract(x, np.linalg.solve(H, -A.T @ r))
                if not all(np.all(np.isfinite(v)) and np.abs(v).max() < 1e3 for v in x.values()):
                    return None
        return x


def stages(p, n=4):
    """Growing sets of factors."""
    out = []
    for m in range(1, len(p.s.used) + 1):
        have = set(p.s.used[:m])
        ks = [k for k, f in enumerate(p.factors) if set(f["vars"]) <= have]
        if ks and ks not in out:
            out.append(ks)
    return out[-n:]


class Property(C01):
    id = "C19"
    runs = {"quick": 140, "thorough": 1500}

    def warm(self, ctx):
        rng = random.Random("%s/c19/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["mixed", "se2", "manifold", "vec", "robust", "so", "linear", "se3"]
        i = random.Random("%s/c19" % ctx.seed).randrange(len(fams))
        ctx.structures = ops.pick_structures(rng, 1, fams, nv=(4, 7))
        ctx.structures[0]["fam"] = fams[(i + ctx.worker) % len(fams)]
        ops.touch(ctx.structures)

    def touch(self, spec):
        ops.touch([spec["problem"]])

    # -- generation --------------------------------------------------------------

    def generate(self, rng, ctx):
        problem = dict(rng.choice(ctx.structures), values=rng.randrange(10**6))
        p = world.Problem(problem)
        n = len(stages(p))
        clients = []
        for c in range(rng.choice([1, 1, 2, 2, 3])):
            seq, at, kept = [], 0, 0
            for j in range(rng.randint(4, 10)):
                t = rng.choice(["stage", "stage", "stage", "solve", "solve", "solve", "solve", "move", "keep", "back", "cov", "cost"])
                if t == "back" and not kept:
                    t = "stage"
                op = dict(t=t, seed=rng.randrange(1000))
                if t == "stage":
                    # Mostly growing by one.
                    at = op["k"] = min(n - 1, at + 1) if rng.random() < 0.6 else rng.randrange(n)
                    op["how"] = rng.choice(["partial", "dict", "set"])
                    op["order"] = rng.choice([None, None, 0, 1])
                elif t == "solve":
                    op["s"] = rng.choice(["gn", "gn", "lm"])
                    op["n"] = rng.randint(1, 4)
                elif t == "keep":
                    kept += 1
                elif t == "back":
                    op["i"] = rng.randrange(kept)
                seq.append(op)
            clients.append(seq)
        faults = []
        for c, seq in enumerate(clients):
            for j, op in enumerate(seq):
                if rng.random() < 0.2 and op["t"] not in ("keep", "back"):
                    f = dict(kind="interrupt", client=c, op=j, at=rng.randint(1, {"stage": 60, "cov": 60}.get(op["t"], 12)), exc=rng.choice(["KeyboardInterrupt", "MemoryError"]))
                    if op["t"] in ("solve", "cov") and rng.random() < 0.6:
                        f = dict(kind="cholmod", client=c, op=j, call=rng.randint(1, 4), exc=rng.choice(["npd", "oom", "mem"]))
                    faults.append(f)
        schedule = dict(mode="random", p=rng.choice([0.02, 0.1, 0.4]))
        return dict(problem=problem, init=rng.randrange(1000), clients=clients, schedule=schedule, faults=faults)

    # -- one step of a session ---------------------------------------------------------

    def step(self, op, cur, kept, c):
        """-> (new estimate or None, something read or None)"""
        t, s = op["t"], self.p.s
        st = self.stages[cur.stage]
        if t == "stage":
            return self.carry(op, cur), None
        if t == "solve":
            real = st.graph.solve(cur.real, self.solvers[op["s"], op["n"]])
            c.in_hook = True  # not part of the operation
            values = {v: world.from_value(s.kinds[v], real.get_value(s.variables[v])) for v in st.vars}
            c.in_hook = False
            return Estimate(cur.stage, real, values), None
        if t == "move":
            lay = st.graph.local_storage_layout
            d = np.random.RandomState(op["seed"]).uniform(-0.1, 0.1, lay.dim)
            x = {}
            for v in st.vars:
                i = lay.index_from_variable[s.variables[v]]
                kd = ref.kind(s.kinds[v])
                x[v] = kd.retract(cur.values[v], d[i : i + kd.ldim])
            real = cur.real.manifold_retract(Assignments(storage=jnp.asarray(d), storage_layout=lay))
            return Estimate(cur.stage, real, x), None
        if t == "keep":
            kept.append(cur)
            return None, None
        if t == "back":
            return kept[op["i"]], None
        if t == "cov":
            cov = SparseCovariance.make(st.graph, cur.real)
            return None, cov.compute_marginal(*[s.variables[v] for v in self.some(op, st)])
        if t == "cost":
            return None, np.asarray(st.graph.compute_cost(cur.real)[0])
        raise AssertionError(t)

    def singular(self, op, cur):
        """Whether rounding decides about the factorization."""
        st = self.stages[cur.stage]
        if op["t"] == "solve":
            return op["s"] != "gn" or st.gauss_newton(cur.values, op["n"]) is None
        A, _ = st.model.linearize(cur.values)
        H = A.T @ A
        return op["t"] == "cov" and (not np.all(np.isfinite(H)) or np.linalg.cond(H) > 1e8)

    @staticmethod
    def some(op, st):
        """One or two variables."""
        return random.Random("cov/%d" % op["seed"]).sample(st.vars, min(len(st.vars), 1 + op["seed"] % 2))

    def carry(self, op, cur):
        """Carry an estimate over to another graph."""
        s = self.p.s
        st = self.stages[op["k"]]
        x = self.p.initial(op["seed"], 0.3)
        vs = [s.index[v] for v in st.graph.get_variables()]
        if op["order"] is not None:
            random.Random("carry/%d" % op["order"]).shuffle(vs)
        old = {v: cur.real.get_value(s.variables[v]) for v in vs if v in cur.values}
        if op["how"] == "dict":
            real = Assignments.make_from_dict({s.variables[v]: old[v] if v in old else world.to_value(s.kinds[v], x[v]) for v in vs})
            values = {v: cur.values.get(v, x[v]) for v in vs}
        else:
            if op["how"] == "partial":
                real = Assignments.make_from_partial_dict([s.variables[v] for v in vs], {s.variables[v]: old[v] for v in old})
            else:
                real = Assignments.make_from_defaults([s.variables[v] for v in vs])
                for v in old:
                    real = real.set_value(s.variables[v], old[v])
            values = {v: cur.values[v] if v in old else np.array(ref.kind(s.kinds[v]).default, float) for v in vs}
        return Estimate(op["k"], real, values)

    # -- a run -------------------------------------------------------------------------

    def execute(self, spec, sim, out):
        p = self.p = world.Problem(spec["problem"])
        self.stages = [Stage(p, ks) for ks in stages(p)]
        self.tol = 1e-10 if jax.config.jax_enable_x64 else 1e-4
        self.solvers = {
            (nl, n): world.nonlinear_solver(nl, world.linear_solver("chol"), max_iterations=n, cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0)
            for nl in ("gn", "lm") for n in range(1, 5)
        }
        x = p.initial(spec["init"], 0.3)
        first = self.stages[0]
        shared = Estimate(
            0, Assignments.make_from_dict({p.s.variables[v]: world.to_value(p.s.kinds[v], x[v]) for v in first.vars}),
            {v: x[v] for v in first.vars},
        )
        known = {}

        def client(i, seq, log):
            def go(c):
                cur, kept = shared, []
                for j, op in enumerate(seq):
                    if op["t"] == "skip":
                        continue
                    for again in range(2):
                        # A step that failed is made again.
                        sim.sched.begin_op(c, j + 1000 * again)
                        try:
                            new, got = self.step(op, cur, kept, c)
                        except EXC as e:
                            log.append((i, j, cur, None, e, list(c.fired)))
                            sim.sched.end_op(c)
                            if not c.fired:
                                return
                        else:
                            log.append((i, j, cur, new, got, None))
                            cur = new or cur
                            sim.sched.end_op(c)
                            break

            return go

        def phase(when, **kw):
            log = []
            fns = [client(i, seq, log) for i, seq in enumerate(spec["clients"])]
            if kw.get("scheduled", True):
                sim.clients(fns, **kw)
            else:
                for f in fns:
                    sim.clients([f], **kw)
            log.sort(key=lambda e: e[:2])
            lost = set()
            for i, j, cur, new, got, fired in log:
                op = spec["clients"][i][j]
                where = "%s: client %d step %d (%s)" % (when, i, j, op["t"])
                if fired is not None:
                    sim.note(i, j, type(got).__name__)
                    if not fired and (i in lost or self.singular(op, cur)) and "positive definite" in str(got):
                        # There is no answer, and the session ends here.
                        out.info["singular"] = out.info.get("singular", 0) + 1
                        continue
                    if not fired:
                        raise Violation("raised", "%s raised %s" % (where, _short(got)))
                    out.info["repeated steps"] = out.info.get("repeated steps", 0) + 1
                    continue
                if i in lost:
                    continue
                if not self.judge(op, cur, new, got, where, known, (i, j), out):
                    # Rounding errors are not bounded from here on.
                    lost.add(i)
                    out.info["undecided"] = out.info.get("undecided", 0) + 1
                    continue
                out.info["steps"] = out.info.get("steps", 0) + 1
            # Nothing that was held at any time has changed since.
            seen = set()
            for i, j, cur, new, got, fired in log:
                for e in (cur, new):
                    if e is None or id(e) in seen or i in lost:
                        continue
                    seen.add(id(e))
                    self.read(e, "%s: estimate of client %d at step %d" % (when, i, j))
                    for v in sorted(e.values):
                        sim.note_array(e.values[v])

        phase("one at a time", scheduled=False, faults=False)
        sim.restore()
        phase("overlapping")
        out.key = (json.dumps(spec["problem"]), spec["init"], json.dumps(spec["clients"]), json.dumps(spec["faults"]), out.switch_hash)

    def judge(self, op, cur, new, got, where, known, name, out):
        st = self.stages[cur.stage]
        t = op["t"]
        if t == "solve":
            if not all(np.all(np.isfinite(x)) and np.abs(x).max() < 1e3 for x in new.values.values()):
                return False
            want = known.setdefault(name, new.values)
            if op["s"] == "gn":
                want = st.gauss_newton(cur.values, op["n"])
                if want is None:
                    return False
            elif float(st.model.cost(new.values)) > float(st.model.cost(cur.values)) * (1 + 1e-6) + 1e-12:
                raise Violation("worse", "%s made the estimate worse" % where)
            for v in st.vars:
                if not close(new.values[v], want[v], 1e-5):
                    raise Violation("solve", "%s: variable %d (%s) is not where the solve leads" % (where, v, self.p.s.kinds[v]))
        elif t == "cov":
            A, _ = st.model.linearize(cur.values)
            H = A.T @ A
            if not np.all(np.isfinite(H)) or np.linalg.cond(H) > 1e8:
                return True
            cols, k = {}, 0
            for v in st.model.used:
                cols[v] = list(range(k, k + ref.kind(self.p.s.kinds[v]).ldim))
                k += len(cols[v])
            at = sum((cols[v] for v in self.some(op, st)), [])
            want = np.linalg.inv(H)[np.ix_(at, at)]
            if not np.abs(got - want).max() <= 1e-6 * np.abs(np.linalg.inv(H)).max():
                raise Violation("covariance", "%s is not the inverse of the information matrix" % where)
        elif t == "cost":
            want = st.model.cost(cur.values)
            if not close(got, want, 1e-7):
                raise Violation("cost", "%s is %r instead of %r" % (where, float(got), want))
        return True

    def read(self, e, where):
        s = self.p.s
        if sorted(s.index[v] for v in e.real.get_variables()) != sorted(e.values):
            raise Violation("variables", "%s: wrong variables" % where)
        for v in sorted(e.values):
            if not close(world.from_value(s.kinds[v], e.real.get_value(s.variables[v])), e.values[v], self.tol):
                raise Violation("value", "%s: variable %d (%s) is not what it was" % (where, v, s.kinds[v]))

    def shrink(self, spec):
        if len(spec["clients"]) > 1:
            for i in range(len(spec["clients"])):
                new = json.loads(json.dumps(spec))
                new["clients"][i] = []
                if spec["clients"][i]:
                    yield new
        for i in range(len(spec["clients"])):
            for j in reversed(range(len(spec["clients"][i]))):
                new = json.loads(json.dumps(spec))
                if new["clients"][i][j]["t"] not in ("skip", "keep"):
                    new["clients"][i][j] = dict(t="skip", seed=0)
                    yield new
