"""Histories of assignments against dictionaries."""

import json
import random

import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp

import jaxfg

from .. import ops, ref, world
from ..harness import Violation
from .c01 import Property as C01, _short

Assignments = jaxfg.core.VariableAssignments


class Object:
    """An assignment object and what it has to contain."""

    def __init__(self, real, order, values):
        self.real, self.order, self.values = real, order, values


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1.0 + np.abs(b))))


class Property(C01):
    id = "C09"
    runs = {"quick": 250, "thorough": 2500}

    def warm(self, ctx):
        rng = random.Random("%s/c09/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["mixed", "manifold", "so", "vec", "se3", "robust"]
        rng.shuffle(fams)
        ctx.structures = ops.pick_structures(rng, 2, fams, nv=(2, 4))
        for i, st in enumerate(ctx.structures):
            st["fam"] = fams[i]
        ops.touch(ctx.structures)

    def touch(self, spec):
        ops.touch([spec["problem"]])

    # -- generation --------------------------------------------------------------

    def generate(self, rng, ctx):
        problem = dict(rng.choice(ctx.structures), values=rng.randrange(10**6))
        used = world.Problem(problem).s.used
        full = sorted(used)
        # Few different layouts: each pair of layouts is compiled once.
        sets = [full, full, full, sorted(random.Random("sub/%s" % problem["seed"]).sample(full, max(1, len(full) - 1)))]

        def layout():
            vs = list(rng.choice(sets))
            random.Random("order/%d" % rng.randrange(3)).shuffle(vs)
            return vs

        shared = [dict(t="make", how=rng.choice(["dict", "numpy"]), vars=layout(), seed=rng.randrange(1000)) for _ in range(2)]
        clients = []
        for c in range(rng.choice([1, 2, 2, 3])):
            known = [("s", i, o["vars"]) for i, o in enumerate(shared)]
            seq = []
            for j in range(rng.randint(3, 9)):
                t = rng.choice(["make", "set", "set", "set", "reorder", "reorder", "retract", "retract", "get", "get", "stack", "stack", "dict", "repr", "cost", "solve", "read"])
                src = rng.choice(known[-3:] if rng.random() < 0.7 else known)
                op = dict(t=t, seed=rng.randrange(1000))
                vs = src[2]
                if t in ("cost", "solve") and sorted(vs) != full:
                    t = op["t"] = "read"
                if t == "make":
                    op["how"] = rng.choice(["dict", "defaults", "partial", "numpy"])
                    vs = op["vars"] = layout()
                    if op["how"] == "partial":
                        op["given"] = [v for v in vs if rng.random() < 0.5]
                else:
                    op["src"] = list(src[:2])
                if t in ("set", "get", "stack"):
                    op["var"] = rng.choice(vs)
                elif t == "retract" and rng.random() < 0.5:
                    # The delta is stored in an order of its own.
                    op["delta"] = list(vs)
                    random.Random("order/%d" % rng.randrange(3)).shuffle(op["delta"])
                if t == "retract":
                    op["scale"] = rng.choice([1.0, 1.0, 1.0, 3.0, 0.0, 1e-4])
                elif t == "reorder":
                    vs = op["vars"] = list(vs)
                    random.Random("order/%d" % rng.randrange(3)).shuffle(vs)
                seq.append(op)
                if t in ("make", "set", "reorder", "retract", "solve"):
                    known.append((c, j, vs))
            clients.append(seq)
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 2, 3])):
                c = rng.randrange(len(clients))
                j = rng.randrange(len(clients[c]))
                t = clients[c][j]["t"]
                m = {"make": 60, "set": 18, "reorder": 40, "dict": 20, "repr": 40, "read": 30}.get(t, 12)
                faults.append(dict(kind="interrupt", client=c, op=j, at=rng.randint(1, m), exc=rng.choice(["KeyboardInterrupt", "MemoryError"])))
        schedule = dict(mode="random", p=rng.choice([0.05, 0.2, 0.5]))
        return dict(problem=problem, shared=shared, clients=clients, schedule=schedule, faults=faults)

    # -- the operations and their model ----------------------------------------------

    def make(self, op):
        s = self.p.s
        x = self.p.initial(op["seed"], 0.7)
        vs = op["vars"]
        values = {v: x[v] for v in vs}
        how = op["how"]
        if how in ("dict", "numpy"):
            real = Assignments.make_from_dict({s.variables[v]: world.to_value(s.kinds[v], x[v]) for v in vs})
            if how == "numpy":
                real = jdc.replace(real, storage=np.array(real.storage))
        elif how == "defaults":
            real = Assignments.make_from_defaults([s.variables[v] for v in vs])
            values = {v: np.array(ref.kind(s.kinds[v]).default) for v in vs}
        else:
            real = Assignments.make_from_partial_dict(
                [s.variables[v] for v in vs],
                {s.variables[v]: world.to_value(s.kinds[v], x[v]) for v in op["given"]},
            )
            values = {v: x[v] if v in op["given"] else np.array(ref.kind(s.kinds[v]).default) for v in vs}
        return Object(real, list(vs), values)

    def run(self, op, src, c):
        """-> (new object or None, read value or None)"""
        t, s = op["t"], self.p.s
        if t == "make":
            return self.make(op), None
        a = src.real
        x = self.p.initial(op["seed"], 0.7)
        if t == "set":
            v = op["var"]
            real = a.set_value(s.variables[v], world.to_value(s.kinds[v], x[v]))
            return Object(real, src.order, {**src.values, v: x[v]}), None
        if t == "reorder":
            real = a.update_storage_layout(jaxfg.core.StorageLayout.make([s.variables[v] for v in op["vars"]]))
            return Object(real, op["vars"], dict(src.values)), None
        if t == "retract":
            d = {v: op.get("scale", 1.0) * np.random.RandomState(op["seed"] + v).uniform(-1, 1, ref.kind(s.kinds[v]).ldim) for v in src.order}
            lay = jaxfg.core.StorageLayout.make([s.variables[v] for v in op.get("delta", src.order)], local=True)
            # Deltas in the order documented for layouts: variables of a type together.
            flat = np.zeros(lay.dim)
            for v in src.order:
                i = lay.index_from_variable[s.variables[v]]
                flat[i : i + len(d[v])] = d[v]
            real = a.manifold_retract(Assignments(storage=jnp.asarray(flat), storage_layout=lay))
            return Object(real, src.order, {v: ref.kind(s.kinds[v]).retract(src.values[v], d[v]) for v in src.order}), None
        if t == "solve":
            real = self.g.solve(a, self.solver)
            c.in_hook = True  # not part of the operation
            values = self.p.read(real)
            c.in_hook = False
            return Object(real, src.order, values), None
        if t == "cost":
            return None, np.asarray(self.g.compute_cost(a)[0])
        if t == "get":
            return None, world.from_value(s.kinds[op["var"]], a.get_value(s.variables[op["var"]]))
        if t == "stack":
            return None, a.get_stacked_value(type(s.variables[op["var"]]))
        if t == "repr":
            return None, repr(a)
        if t == "dict":
            return None, a.as_dict()
        if t == "read":
            return None, [world.from_value(s.kinds[v], a.get_value(s.variables[v])) for v in src.order]
        raise AssertionError(t)

    def check_read(self, op, src, got, where):
        t, s = op["t"], self.p.s
        tol = self.tol
        if t == "cost":
            ok = close(got, self.p.model.cost(src.values), 1e3 * tol)
        elif t == "get":
            ok = close(got, src.values[op["var"]], tol)
        elif t == "read":
            ok = all(close(x, src.values[v], tol) for x, v in zip(got, src.order))
        elif t == "stack":
            ok = self.stack_ok(src, s.kinds[op["var"]], got)
        elif t == "repr":
            ok = isinstance(got, str)
        else:
            ok = self.dict_ok(src, got)
        if not ok:
            raise Violation("read", "%s: %s does not return what a dictionary would" % (where, t))

    def stack_ok(self, obj, kind, got):
        vs = [v for v in obj.order if self.p.s.kinds[v] == kind]
        n = {np.shape(x)[0] for x in jax.tree_util.tree_leaves(got)}
        if n != {len(vs)}:
            return False
        return all(
            close(world.from_value(kind, jax.tree_util.tree_map(lambda x: np.asarray(x)[i], got)), obj.values[v], self.tol)
            for i, v in enumerate(vs)
        )

    def dict_ok(self, obj, got):
        s = self.p.s
        if {s.index.get(k) for k in got} != set(obj.order) or len(got) != len(obj.order):
            return False
        return all(close(world.from_value(s.kinds[s.index[k]], x), obj.values[s.index[k]], self.tol) for k, x in got.items())

    def check_object(self, obj, where):
        """Read everything."""
        s, a = self.p.s, obj.real
        for v in obj.order:
            if not close(world.from_value(s.kinds[v], a.get_value(s.variables[v])), obj.values[v], self.tol):
                raise Violation("value", "%s: variable %d (%s) is not what it was" % (where, v, s.kinds[v]))
        if sorted(s.index[v] for v in a.get_variables()) != sorted(obj.order):
            raise Violation("variables", "%s: wrong variables" % where)
        for kind in sorted({s.kinds[v] for v in obj.order}):
            if not self.stack_ok(obj, kind, a.get_stacked_value(world.variable_class(kind))):
                raise Violation("value", "%s: stacked values of %s are wrong" % (where, kind))

    # -- a run -------------------------------------------------------------------------

    def execute(self, spec, sim, out):
        self.p = world.Problem(spec["problem"])
        self.g = self.p.graph()
        self.solver = world.nonlinear_solver("fix", world.linear_solver("chol"), iterations=2, unroll=False)
        self.tol = 1e-10 if jax.config.jax_enable_x64 else 1e-4
        solved = {}

        def client(i, seq, pool, reads, errors):
            def go(c):
                for j, op in enumerate(seq):
                    if op["t"] == "skip":
                        continue
                    src = pool.get(tuple(op["src"])) if "src" in op else None
                    if "src" in op and src is None:
                        continue  # would have been made by an operation that failed
                    sim.sched.begin_op(c, j)
                    try:
                        obj, got = self.run(op, src, c)
                    except (Exception, KeyboardInterrupt) as e:
                        errors[i, j] = (e, list(c.fired))
                    else:
                        if obj is not None:
                            pool[i, j] = obj
                        else:
                            reads[i, j] = (src, got)
                    sim.sched.end_op(c)

            return go

        def phase(when, **kw):
            pool = {("s", i): self.make(op) for i, op in enumerate(spec["shared"])}
            reads, errors = {}, {}
            seqs = spec["clients"]
            if not kw.get("scheduled", True):
                for i, seq in enumerate(seqs):
                    sim.clients([client(i, seq, pool, reads, errors)], **kw)
            else:
                sim.clients([client(i, seq, pool, reads, errors) for i, seq in enumerate(seqs)], **kw)
            for (i, j), (e, fired) in sorted(errors.items()):
                sim.note(i, j, type(e).__name__)
                if not fired:
                    raise Violation("raised", "%s: client %d operation %d (%s) raised %s" % (when, i, j, seqs[i][j]["t"], _short(e)))
                out.info["failed operations"] = out.info.get("failed operations", 0) + 1
            names = sorted(pool, key=str)
            for n in names:
                if n[0] != "s" and seqs[n[0]][n[1]]["t"] == "solve":
                    x = pool[n].values
                    want = solved.setdefault(n, x)
                    if any(not close(x[v], want[v], 1e3 * self.tol) for v in x):
                        raise Violation("solve", "%s: solve %s gives another result" % (when, n))
            for n in names:
                self.check_object(pool[n], "%s: object %s" % (when, n))
                for v in pool[n].order:
                    sim.note_array(pool[n].values[v])
            for (i, j), (src, got) in sorted(reads.items()):
                self.check_read(seqs[i][j], src, got, "%s: client %d operation %d" % (when, i, j))
            out.info["operations"] = out.info.get("operations", 0) + len(reads) + len(pool)

        phase("one at a time", scheduled=False, faults=False)
        sim.restore()
        phase("overlapping")
        if out.switches or out.faults:
            out.key = (json.dumps(spec["problem"]), json.dumps(spec["clients"]), json.dumps(spec["faults"]), out.switch_hash)

    def shrink(self, spec):
        for i in range(len(spec["clients"])):
            for j in reversed(range(len(spec["clients"][i]))):
                new = json.loads(json.dumps(spec))
                # Keep the numbering: replace by something that does nothing.
                if new["clients"][i][j]["t"] != "skip":
                    new["clients"][i][j] = dict(t="skip", seed=0)
                    yield new
