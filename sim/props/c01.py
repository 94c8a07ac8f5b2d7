"""Concurrent calls on shared objects."""

import json

import numpy as np

from .. import ops, world
from ..harness import BaseProperty, Violation


class Property(BaseProperty):
    id = "C01"
    runs = {"quick": 600, "thorough": 4000}

    def warm(self, ctx):
        import random

        rng = random.Random("%s/c01/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["se2", "vec", "mixed", "linear", "se3", "robust", "so", "manifold", "wide"]
        rng.shuffle(fams)
        ctx.structures = ops.pick_structures(rng, 2, fams[:2])
        # Same variables count as structure 0 but different connectivity.
        for i, st in enumerate(ctx.structures):
            st["fam"] = fams[i]
        ctx.combos = [ops.SOLVER_CHOICES[(ctx.worker + i) % 3] for i in range(2)] + [rng.choice(ops.SOLVER_CHOICES[3:])]
        ops.touch(ctx.structures)
        ctx.huber = [ops.has_huber(s) for s in ctx.structures]

    def touch(self, spec):
        ops.touch(spec["problems"])

    def generate(self, rng, ctx):
        k = rng.choice([1, 1, 2])
        idx = [rng.randrange(len(ctx.structures)) for _ in range(k)]
        problems = [dict(ctx.structures[i], values=rng.randrange(40)) for i in idx]
        if k == 1 and rng.random() < 0.5:
            # Same structure with other numbers: same sparsity pattern.
            problems.append(dict(problems[0], values=rng.randrange(40)))
            idx.append(idx[0])
        solvers = [ops.solver_spec(rng, *c) for c in ctx.combos]
        nc = rng.choice([2, 2, 2, 3, 4])
        clients = []
        for _ in range(nc):
            seq = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                seq.append(self.op(rng, problems, solvers, [ctx.huber[i] for i in idx]))
            clients.append(seq)
        mode = rng.random()
        if mode < 0.7:
            schedule = dict(mode="random", p=rng.choice([0.02, 0.05, 0.1, 0.3, 0.6]))
        else:
            schedule = dict(mode="pct", depth=rng.choice([1, 2, 3, 5]), horizon=rng.choice([60, 200, 800]))
        return dict(problems=problems, solvers=solvers, clients=clients, schedule=schedule, faults=[])

    @staticmethod
    def op(rng, problems, solvers, huber):
        pi = rng.randrange(len(problems))
        if rng.random() < 0.04:
            # Many patterns in a row, of few or of more.
            return dict(t="bulk", prob=pi, init=rng.randrange(1000), scale=0.1, n=rng.choice([10, 20, 40, 70, 140]), big=rng.random() < 0.4)
        t = rng.choice(["solve"] * 5 + ["lin"] * 4 + ["cost", "jac", "nll", "build"])
        if t == "nll" and huber[pi]:
            t = "cost"
        op = dict(t=t, prob=pi, init=rng.randrange(1000), scale=rng.choice([0.1, 0.4]))
        if rng.random() < 0.5:
            op["order"] = 7
        if t == "solve":
            op["solver"] = rng.randrange(len(solvers))
            op["own"] = rng.random() < 0.25
        elif t == "lin":
            op["lin"] = rng.choice(["chol", "chol", "chol", "cg"])
            op["lambd"] = rng.choice([0.0, 0.01, 1.0, 30.0])
            op["own"] = rng.random() < 0.25
        return op

    def execute(self, spec, sim, out):
        bench = ops.Bench(spec)
        prepared = [[(op, bench.prepare(op)) for op in seq] for seq in spec["clients"]]
        expected = [[None] * len(s) for s in prepared]

        def solo(c):
            for i, seq in enumerate(prepared):
                for j, (op, prep) in enumerate(seq):
                    expected[i][j] = bench.norm(op, prep, bench.run(op, prep))

        def client(i):
            def go(c):
                for j, (op, prep) in enumerate(prepared[i]):
                    s = sim.sched
                    s.begin_op(c, j)
                    try:
                        results[i][j] = bench.run(op, prep)
                    except Exception as e:
                        results[i][j] = e
                    s.end_op(c)

            return go

        results = [[None] * len(s) for s in prepared]
        # One at a time. Compiles what is not compiled yet.
        sim.clients([solo], scheduled=False)
        # Concurrently, in a process that has not seen these sparsity patterns.
        sim.restore()
        s = sim.clients([client(i) for i in range(len(prepared))])
        out.info["cold"] = sum(c.cold for c in s.clients)
        for i, seq in enumerate(prepared):
            for j, (op, prep) in enumerate(seq):
                r = results[i][j]
                where = "client %d call %d (%s)" % (i, j, op["t"])
                if isinstance(r, Exception):
                    raise Violation("raised", "%s raised %s" % (where, _short(r)))
                got = bench.norm(op, prep, r)
                for k in sorted(got):
                    sim.note_array(got[k])
                bad = ops.same(got, expected[i][j], ops.tol())
                if bad:
                    raise Violation("wrong", "%s returned a different %s than when run alone" % (where, bad))
                bad = ops.same(bench.model(op, prep), got, ops.model_tol())
                if bad:
                    raise Violation("model", "%s returned a %s that disagrees with the model" % (where, bad))
        if out.switches and len(out.switches) > len(prepared):
            out.key = (json.dumps(spec["problems"]), json.dumps(spec["clients"]), out.switch_hash)

    def shrink(self, spec):
        for i in range(len(spec["clients"])):
            if len(spec["clients"]) > 1:
                yield drop_client(spec, i)
            for j in range(len(spec["clients"][i])):
                if len(spec["clients"][i]) > 1:
                    new = json.loads(json.dumps(spec))
                    del new["clients"][i][j]
                    new["faults"] = [
                        dict(f, op=f["op"] - (f.get("client", 0) == i and f["op"] > j))
                        for f in new["faults"]
                        if (f.get("client", 0), f["op"]) != (i, j)
                    ]
                    yield new


def drop_client(spec, i):
    new = json.loads(json.dumps(spec))
    del new["clients"][i]
    # Renumber the schedule.
    sw = []
    for k, c in new["schedule"].get("switches", []):
        if c != i:
            sw.append([k, c - (c > i)])
    new["schedule"]["switches"] = sw
    new["faults"] = [dict(f, client=f.get("client", 0) - (f.get("client", 0) > i))
                     for f in new.get("faults", []) if f.get("client", 0) != i]
    return new


def _short(e):
    lines = [x.strip() for x in str(e).strip().splitlines() if x.strip()]
    return "%s: %s" % (type(e).__name__, lines[-1][:200] if lines else "")
