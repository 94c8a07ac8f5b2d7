"""Repeated work."""

import gc
import json
import pathlib
import random
import sys
import weakref

import jax
import numpy as np

import jaxfg
from jaxfg.experimental import SparseCovariance

from .. import ops, seams, world
from ..harness import BaseProperty, Violation
from .c01 import Property as C01, _short
from .c15 import SimFiles, load, make_file

EXC = (Exception, KeyboardInterrupt)


class Property(C01):
    id = "C18"
    runs = {"quick": 60, "thorough": 600}
    ROUNDS = 8
    MORE = 150

    def warm(self, ctx):
        rng = random.Random("%s/c18/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["se2", "vec", "mixed", "linear", "se3", "robust", "so", "manifold"]
        i = random.Random("%s/c18" % ctx.seed).randrange(len(fams))
        ctx.structures = ops.pick_structures(rng, 2, fams, nv=(2, 4))
        for k, st in enumerate(ctx.structures):
            st["fam"] = fams[(i + ctx.worker + 3 * k) % len(fams)]
        ctx.combos = [ops.SOLVER_CHOICES[(ctx.worker + k) % 3] for k in range(1)] + [rng.choice(ops.SOLVER_CHOICES[3:])]
        ops.touch(ctx.structures)
        load()
        ctx.huber = [ops.has_huber(s) for s in ctx.structures]

    def touch(self, spec):
        super().touch(spec)
        load()

    def generate(self, rng, ctx):
        i = rng.randrange(len(ctx.structures))
        problems = [dict(ctx.structures[i], values=rng.randrange(40))]
        solvers = [ops.solver_spec(rng, *c) for c in ctx.combos]
        seq = []
        for _ in range(rng.randint(1, 4)):
            op = self.op(rng, problems, solvers, [ctx.huber[i]])
            if op["t"] == "bulk":
                op["n"] = 5
            if rng.random() < 0.2:
                op = dict(op, t=rng.choice(["set", "make", "retract", "watch", "cov", "type", "fresh", "fresh", "load"]))
            seq.append(op)
        faults = []
        for j in range(len(seq)):
            if rng.random() < 0.3:
                faults.append(
                    rng.choice([
                        dict(kind="cholmod", client=0, op=j, call=rng.randint(1, 4), exc=rng.choice(["npd", "oom", "mem"])),
                        dict(kind="interrupt", client=0, op=j, at=rng.randint(1, 150), exc=rng.choice(["KeyboardInterrupt", "MemoryError"])),
                    ])
                )
        return dict(problems=problems, solvers=solvers, clients=[seq], vary=rng.random() < 0.5, schedule=dict(mode="random", p=0.0), faults=faults)

    def one(self, bench, op, refs):
        """One operation with objects of its own."""
        t = op["t"]
        p = bench.problems[0]
        if t == "watch":
            with jaxfg.utils.stopwatch("x"):
                pass
        elif t == "type":
            jaxfg.core.RealVectorVariable[7].canonical_instance()
        elif t == "fresh":
            # Variables of their own, not used in anything that is compiled.
            kinds = [p.s.kinds[v] for v in p.s.used]
            vs = [world.variable_class(k)() for k in kinds]
            refs.extend(weakref.ref(v) for v in vs)
            lay = jaxfg.core.StorageLayout.make(vs)
            refs.append(weakref.ref(lay))
            a = jaxfg.core.VariableAssignments.make_from_dict(
                {v: world.to_value(k, p.initial(op["init"], 0.1)[i]) for v, k, i in zip(vs, kinds, p.s.used)}
            )
            refs.append(weakref.ref(a))
            a.get_value(vs[0])
            a.as_dict()
        elif t == "load":
            file = make_file(dict(kind="SE2", seed=op["init"], poses=4, edges=4))
            with SimFiles({"/sim/again": file}):
                r = load().parse_g2o(pathlib.Path("/sim/again"))
            refs.extend(weakref.ref(v) for v in r.initial_poses)
            refs.append(weakref.ref(r))
        elif t == "cov":
            g = bench.graphs[0]
            x = p.initial(op["init"], 0.1)
            A, _ = p.model.linearize(x)
            if np.linalg.cond(A.T @ A) > 1e8:
                return
            a = p.assignments(x, op.get("order"))
            cov = SparseCovariance.make(g, a)
            refs.extend([weakref.ref(a), weakref.ref(cov)])
            for _ in range(4):
                cov[0, 0]
        else:
            prep = bench.prepare(op)
            refs.append(weakref.ref(prep["a"]))
            bench.run(op, prep)

    def execute(self, spec, sim, out):
        stdout = seams.SimStdout()
        sizes = []
        problem = []
        refs = []
        rounds = [0]

        def measure():
            refs[:] = [r for r in refs if r() is not None]
            containers = seams._module_containers()
            return dict(
                entries=sum(c.cache_info().currsize if seams._is_cache(c) else len(c) for c in containers),
                arrays=len(jax.live_arrays()),
                factors=sum(isinstance(o, seams.FactorProxy) for o in gc.get_objects()),
                kept=len(refs),
                objects=len(gc.get_objects()),
            )

        def one_round(c, k):
            values = spec["problems"][0]["values"] + (k if spec["vary"] else 0)
            bench = ops.Bench(dict(spec, problems=[dict(spec["problems"][0], values=values)]))
            for g in bench.graphs:
                refs.append(weakref.ref(g))
            for s in bench.solvers:
                refs.append(weakref.ref(s))
            for j, op in enumerate(spec["clients"][0]):
                sim.sched.begin_op(c, j)
                try:
                    self.one(bench, op, refs)
                except EXC as e:
                    if not c.fired:
                        problem.append(Violation("raised", "round %d: %s raised %s" % (k, op["t"], _short(e))))
                        return
                finally:
                    sim.sched.end_op(c)
            del bench

        def client(c):
            def go(n):
                for _ in range(n):
                    one_round(c, rounds[0])
                    rounds[0] += 1
                    stdout.chunks.clear()
                    gc.collect()
                    sizes.append(measure())
                    if problem:
                        return

            go(self.ROUNDS)
            if problem or not grown(self.ROUNDS // 2):
                return
            # It may be something that is filled up to a limit.
            go(self.MORE)
            if problem:
                return
            what = grown(self.MORE // 3)
            if what:
                problem.append(
                    Violation("grows", "%s grow from %d to %d in %d rounds of the same work" % (what, sizes[0][what], sizes[-1][what], len(sizes)))
                )

        def grown(n):
            """Something that grew by one per round or more in the last `n` rounds."""
            for k in sizes[-1]:
                if sizes[-1][k] - sizes[-1 - n][k] >= n:
                    return k
            return None

        saved = sys.stdout
        sys.stdout = stdout
        try:
            sim.clients([client], scheduled=False, timeout=400.0)
        finally:
            sys.stdout = saved
        if problem:
            raise problem[0]
        out.info["rounds"] = rounds[0]
        out.key = (json.dumps(spec["problems"]), json.dumps(spec["clients"]), json.dumps(spec["faults"]), spec["vary"])
