"""Marginal covariances."""

import json
import random

import numpy as np

from jaxfg.experimental import SparseCovariance

from .. import ops, ref, world
from ..harness import Violation
from ..sched import _depth
from .c01 import Property as C01, _short


class Property(C01):
    id = "C11"
    runs = {"quick": 800, "thorough": 8000}

    def warm(self, ctx):
        rng = random.Random("%s/c11/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["se2", "vec", "mixed", "linear", "so", "manifold", "robust", "se3"]
        rng.shuffle(fams)
        ctx.structures = ops.pick_structures(rng, 4, fams, nv=(2, 5))
        for i, st in enumerate(ctx.structures):
            st["fam"] = fams[i]
            if st["fam"] == "se3":
                st["nv"] = 2
        ops.touch(ctx.structures)

    def touch(self, spec):
        ops.touch([spec["problem"]])

    def generate(self, rng, ctx):
        problem = dict(rng.choice(ctx.structures), values=rng.randrange(10**6))
        used = world.Problem(problem).s.used
        clients = []
        for c in range(rng.choice([1, 1, 2, 2, 3])):
            seq = []
            for _ in range(rng.randint(1, 4)):
                t = rng.choice(["marginal"] * 5 + ["entry"] * 2 + ["dense", "sweep", "make"])
                op = dict(t=t)
                if t == "marginal":
                    vs = [rng.choice(used) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
                    op["vars"] = vs if rng.random() < 0.2 else list(dict.fromkeys(vs))
                elif t == "entry":
                    op["at"] = [rng.randrange(10**6), rng.randrange(10**6)]
                if rng.random() < 0.2:
                    op["scribble"] = 1
                if rng.random() < 0.3:
                    # The covariance at another estimate.
                    op["other"] = 1
                seq.append(op)
            clients.append(seq)
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2])):
                c = rng.randrange(len(clients))
                j = rng.randrange(len(clients[c]))
                if rng.random() < 0.3:
                    faults.append(dict(kind="stack", client=c, op=j, depth=rng.choice([4, 6, 8, 10, 14, 20])))
                else:
                    faults.append(
                        dict(kind="interrupt", client=c, op=j, at=rng.choice([rng.randint(1, 30), rng.randint(1, 400), rng.randint(1, 3000)]),
                             exc=rng.choice(["KeyboardInterrupt", "MemoryError"]))
                    )
        schedule = dict(mode="random", p=rng.choice([0.002, 0.02, 0.1, 0.4]))
        spec = dict(problem=problem, init=rng.randrange(1000), clients=clients, schedule=schedule, faults=faults)
        if rng.random() < 0.4:
            spec["order"] = 7
        return spec

    def execute(self, spec, sim, out):
        p = world.Problem(spec["problem"])
        s = p.s
        graph = p.graph()
        two, covs = [], []
        for i in range(2):
            x = p.initial(spec["init"] + i, 0.3)
            A, r = p.model.linearize(x)
            H = A.T @ A
            if np.linalg.cond(H) > 1e8:
                out.info["ill-conditioned"] = 1
                return
            two.append(p.assignments(x, spec.get("order")))
            covs.append(np.linalg.inv(H))
        start, k = {}, 0
        for v in p.model.used:
            start[v] = k
            k += ref.kind(s.kinds[v]).ldim
        columns = p.columns(graph)  # model column -> graph column
        n = k
        where_is = {int(c): i for i, c in enumerate(columns)}

        def cols(vs):
            return [start[v] + i for v in vs for i in range(ref.kind(s.kinds[v]).ldim)]

        shared = [SparseCovariance.make(graph, a) for a in two]

        def run(op):
            t = op["t"]
            obj = shared[op.get("other", 0)]
            if t == "marginal":
                return obj.compute_marginal(*[s.variables[v] for v in op["vars"]])
            if t == "entry":
                return obj[op["at"][0] % n, op["at"][1] % n]
            if t == "dense":
                return obj.as_dense()
            if t == "sweep":
                return obj.as_dense(use_inverse=False)
            return SparseCovariance.make(graph, two[op.get("other", 0)])

        def expected(op):
            t = op["t"]
            cov = covs[op.get("other", 0)]
            if t in ("marginal", "make"):
                c = cols(op["vars"]) if t == "marginal" else cols(s.used)
                return cov[np.ix_(c, c)]
            if t == "entry":
                return cov[where_is[op["at"][0] % n], where_is[op["at"][1] % n]]
            c = [where_is[i] for i in range(n)]
            return cov[np.ix_(c, c)]

        def check(op, got, where):
            if op["t"] == "make":
                got = got.compute_marginal(*[s.variables[v] for v in s.used])
            want = expected(op)
            got = np.asarray(got, float)
            sim.note_array(got)
            if got.shape != want.shape:
                raise Violation("shape", "%s has shape %s" % (where, got.shape))
            if not np.all(np.abs(got - want) <= 1e-6 * max(1.0, float(np.abs(want).max(initial=0.0)), float(np.abs(covs).max()))):
                raise Violation("value", "%s is not the inverse of the information matrix" % where)

        results = []

        def client(i, seq):
            def go(c):
                for j, op in enumerate(seq):
                    sim.sched.begin_op(c, j)
                    for f in c.faults:
                        if f["kind"] == "stack":
                            c.stack_limit = (f, _depth(10**6) + f["depth"])
                    try:
                        res = run(op)
                        if op.get("scribble"):
                            # The caller may write into what it was given.
                            mine, res = res, np.array(res) if op["t"] != "make" else res
                            if isinstance(mine, np.ndarray) and mine.flags.writeable:
                                mine += 1.0
                    except (Exception, KeyboardInterrupt) as e:
                        res = e
                    c.stack_limit = None
                    results.append((i, j, op, res, list(c.fired)))
                    sim.sched.end_op(c)

            return go

        sim.clients([client(i, seq) for i, seq in enumerate(spec["clients"])])
        for i, j, op, res, fired in results:
            where = "client %d query %d (%s)" % (i, j, op["t"])
            if isinstance(res, BaseException):
                if not fired:
                    raise Violation("raised", "%s raised %s" % (where, _short(res)))
                sim.note(i, j, type(res).__name__)
                out.info["failed queries"] = out.info.get("failed queries", 0) + 1
            else:
                check(op, res, where)
                out.info["queries"] = out.info.get("queries", 0) + 1
        # Everything again on the same object.
        for seq in spec["clients"]:
            for op in seq:
                check(op, run(op), "afterwards: %s" % op["t"])
        for i in range(2):
            op = dict(t="sweep", other=i)
            check(op, run(op), "afterwards: full covariance")
        out.key = (json.dumps(spec["problem"]), spec["init"], json.dumps(spec["clients"]), json.dumps(spec["faults"]), out.switch_hash)

