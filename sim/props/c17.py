"""Stop, save and resume in another incarnation of the program."""

import json
import random

import numpy as np

from .. import ops, peer, world
from ..harness import BaseProperty, Violation
from .c01 import _short

PROCESS = -1  # the incarnation that is a process of its own
EXC = (Exception, KeyboardInterrupt)


class Property(BaseProperty):
    id = "C17"
    runs = {"quick": 200, "thorough": 1200}
    combos = [("gn", "chol"), ("lm", "chol"), ("gn", "cg"), ("dl", "chol"), ("fix", "chol"), ("lm", "cg")]
    INCARNATIONS = 3

    def warm(self, ctx):
        rng = random.Random("%s/c17/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["se2", "mixed", "manifold", "robust", "so", "vec", "linear", "se3"]
        i = random.Random("%s/c17" % ctx.seed).randrange(len(fams))
        ctx.structures = ops.pick_structures(rng, 2, fams, nv=(3, 6))
        ctx.structures[0]["fam"] = fams[(i + ctx.worker) % len(fams)]
        ctx.structures[1]["fam"] = ["mixed", "manifold", "robust"][ctx.worker % 3]
        ctx.orders = []
        for st in ctx.structures:
            n = len(world.make_structure(st)[1])
            o = list(range(n))
            rng.shuffle(o)
            ctx.orders.append(o)
        ctx.solvers = [("gn", "chol"), self.combos[(ctx.worker + 1) % len(self.combos)]]
        ctx.hashseed = 1 + rng.randrange(10**6)
        ops.touch(ctx.structures)
        peer.start(ctx.hashseed)

    def touch(self, spec):
        ops.touch([spec["problem"]])
        for k in range(self.INCARNATIONS):
            ops.touch([dict(spec["problem"], inc=k)])
        peer.start(spec["hashseed"])

    def generate(self, rng, ctx):
        i = rng.randrange(len(ctx.structures))
        nl, lin = rng.choice(ctx.solvers)
        n = rng.randint(1, 10)
        segments = []
        left = n
        while left and nl == "gn":
            k = rng.randint(1, left)
            segments.append([k, rng.choice([PROCESS] + list(range(self.INCARNATIONS)))])
            left -= k
        faults = []
        for op in range(3):
            if rng.random() < 0.25:
                faults.append(
                    rng.choice([
                        dict(kind="cholmod", client=0, op=op, call=rng.randint(1, 4), exc=rng.choice(["npd", "oom", "mem"])),
                        dict(kind="interrupt", client=0, op=op, at=rng.randint(1, 200), exc=rng.choice(["KeyboardInterrupt", "MemoryError"])),
                    ])
                )
        return dict(
            problem=dict(ctx.structures[i], values=rng.randrange(10**6)), forder=ctx.orders[i], solver=[nl, lin], iterations=n,
            init=rng.randrange(10**6), scale=rng.choice([0.1, 0.4]), order=rng.choice([None, 3]), hashseed=ctx.hashseed,
            incs=[rng.choice([PROCESS, 1, 2]) for _ in range(2)], segments=segments, faults=faults,
        )

    def execute(self, spec, sim, out):
        request = {k: spec[k] for k in ("problem", "forder", "solver", "init", "scale", "order")}
        state = dict(lost=0)
        problem = []

        def incarnate(c, inc, **more):
            """One life of the program; crashes are repeated."""
            while True:
                # Nothing survives but what was saved.
                sim.restore()
                sim.sched.begin_op(c, state["op"])
                state["op"] += 1
                try:
                    if inc == PROCESS:
                        return peer.ask(dict(request, **more))
                    return peer.live(dict(request, problem=dict(spec["problem"], inc=inc), **more))
                except EXC as e:
                    if not c.fired:
                        raise Violation("raised", "the program raised %s" % _short(e))
                    state["lost"] += 1
                finally:
                    sim.sched.end_op(c)

        def client(c):
            try:
                state["op"] = 1000
                want = incarnate(c, 0, iterations=spec["iterations"], details=True)
                state["op"] = 0
                for inc in spec["incs"]:
                    got = incarnate(c, inc, iterations=spec["iterations"], details=True)
                    compare(want, got, "in another incarnation")
                saved = None
                for n, inc in spec["segments"]:
                    saved = incarnate(c, inc, iterations=n, state=saved)
                    saved = json.loads(json.dumps(saved["storage"]))
                if spec["segments"]:
                    compare(dict(storage=want["storage"]), dict(storage=saved), "after %d stops" % (len(spec["segments"]) - 1))
                sim.note_array(np.round(np.array(want["storage"]), 6))
                problem.append(want)
            except Violation as v:
                problem.insert(0, v)

        def compare(want, got, when):
            for k in sorted(want):
                x, y = np.array(want[k], float), np.array(got[k], float)
                if x.shape != y.shape or not np.allclose(x, y, rtol=1e-7, atol=1e-8, equal_nan=True):
                    raise Violation("different", "%s: the %s differs" % (when, k))

        sim.clients([client], scheduled=False)
        if problem and isinstance(problem[0], Violation):
            raise problem[0]
        out.info["lost"] = state["lost"]
        out.info["incarnations"] = state["op"]
        out.key = tuple(json.dumps(spec[k]) for k in sorted(spec) if k not in ("sseed", "schedule"))

    def shrink(self, spec):
        for k in ("incs", "segments"):
            for i in range(len(spec[k])):
                new = json.loads(json.dumps(spec))
                del new[k][i]
                if k == "segments":
                    new["iterations"] = max(1, sum(n for n, _ in new[k]))
                yield new
