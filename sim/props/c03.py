"""Failed and interrupted operations."""

import json

import jax
import numpy as np

from .. import ops
from ..harness import Violation
from .c01 import Property as C01, _short


def leaves(bench, prepared):
    """Copies of all arrays the operations can see."""
    trees = [bench.graphs, bench.solvers]
    for seq in prepared:
        for op, prep in seq:
            trees.append({k: v for k, v in prep.items() if k in ("a", "A", "ATb", "d", "value", "solver")})
    return [np.array(x) for x in jax.tree_util.tree_leaves(trees)]


class Property(C01):
    id = "C03"
    runs = {"quick": 350, "thorough": 3000}

    def generate(self, rng, ctx):
        k = rng.choice([1, 1, 2])
        idx = [rng.randrange(len(ctx.structures)) for _ in range(k)]
        problems = [dict(ctx.structures[i], values=rng.randrange(40)) for i in idx]
        solvers = [ops.solver_spec(rng, *c) for c in ctx.combos]
        nc = rng.choice([1, 1, 2, 2, 3])
        clients = []
        for _ in range(nc):
            seq = []
            for _ in range(rng.choice([1, 2, 3])):
                t = rng.random()
                if t < 0.65:
                    op = self.op(rng, problems, solvers, [ctx.huber[i] for i in idx])
                else:
                    op = dict(t=rng.choice(["set", "set", "make", "retract", "build"]), prob=rng.randrange(len(problems)), init=rng.randrange(1000), scale=0.3)
                op["scale"] = 0.1
                seq.append(op)
            clients.append(seq)
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            c = rng.randrange(nc)
            j = rng.randrange(len(clients[c]))
            t = clients[c][j]["t"]
            if t in ("solve", "lin", "bulk") and rng.random() < 0.55:
                faults.append(dict(kind="cholmod", client=c, op=j, call=rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11]), exc=rng.choice(["npd", "oom", "mem"])))
            else:
                m = {"solve": 60, "lin": 25, "bulk": 300, "build": 150, "set": 18, "make": 40, "retract": 12}.get(t, 12)
                faults.append(dict(kind="interrupt", client=c, op=j, at=rng.randint(1, m), exc=rng.choice(["KeyboardInterrupt", "MemoryError"])))
        schedule = dict(mode="random", p=rng.choice([0.0, 0.05, 0.3]))
        return dict(problems=problems, solvers=solvers, clients=clients, schedule=schedule, faults=faults)

    def execute(self, spec, sim, out):
        bench = ops.Bench(spec)
        prepared = [[(op, bench.prepare(op)) for op in seq] for seq in spec["clients"]]
        expected = [[None] * len(s) for s in prepared]
        before = leaves(bench, prepared)

        def solo(c):
            for i, seq in enumerate(prepared):
                for j, (op, prep) in enumerate(seq):
                    expected[i][j] = bench.norm(op, prep, bench.run(op, prep))

        def client(i, results, fired):
            def go(c):
                for j, (op, prep) in enumerate(prepared[i]):
                    s = sim.sched
                    s.begin_op(c, j)
                    try:
                        results[i][j] = bench.run(op, prep)
                    except (Exception, KeyboardInterrupt) as e:
                        results[i][j] = e
                    fired[i][j] = list(c.fired)
                    s.end_op(c)

            return go

        def check(results, fired, when):
            for i, seq in enumerate(prepared):
                for j, (op, prep) in enumerate(seq):
                    r = results[i][j]
                    where = "%s: client %d call %d (%s)" % (when, i, j, op["t"])
                    if isinstance(r, BaseException):
                        sim.note(type(r).__name__)
                        if not fired[i][j]:
                            raise Violation("raised", "%s raised %s although it met no fault" % (where, _short(r)))
                        out.info["failed operations"] = out.info.get("failed operations", 0) + 1
                        continue
                    if fired[i][j]:
                        out.info["survived faults"] = out.info.get("survived faults", 0) + 1
                    try:
                        got = bench.norm(op, prep, r)
                    except Exception as e:
                        raise Violation("broken", "%s returned something unusable: %s" % (where, _short(e)))
                    for k in sorted(got):
                        sim.note_array(got[k])
                    bad = ops.same(got, expected[i][j], ops.tol())
                    if bad:
                        raise Violation("wrong", "%s returned a different %s than without faults" % (where, bad))
                    bad = ops.same(bench.model(op, prep), got, ops.model_tol())
                    if bad:
                        raise Violation("model", "%s returned a %s that disagrees with the model" % (where, bad))
            after = leaves(bench, prepared)
            if len(after) != len(before) or any(
                x.dtype != y.dtype or x.shape != y.shape or x.tobytes() != y.tobytes() for x, y in zip(before, after)
            ):
                raise Violation("modified", "%s: an object that was passed in has changed" % when)

        sim.clients([solo], scheduled=False, faults=False)
        sim.restore()
        results = [[None] * len(s) for s in prepared]
        fired = [[[] for _ in s] for s in prepared]
        s = sim.clients([client(i, results, fired) for i in range(len(prepared))])
        n = sum(len(f) for row in fired for f in row)
        out.info["cold"] = sum(c.cold for c in s.clients)
        check(results, fired, "with faults")
        # Everything again, without faults, on new threads.
        again = [[None] * len(s) for s in prepared]
        nothing = [[[] for _ in s] for s in prepared]
        sim.clients([client(i, again, nothing) for i in range(len(prepared))], scheduled=False, faults=False)
        check(again, nothing, "after the faults")
        if n:
            out.key = (json.dumps(spec["problems"]), json.dumps(spec["clients"]), json.dumps(spec["faults"]), out.switch_hash)
