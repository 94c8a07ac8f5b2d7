"""Histories: a result depends on its problem only."""

import gc
import json
import random

import jax
import numpy as np
from jax import numpy as jnp

import jaxfg

from .. import ops, ref, world
from ..harness import BaseProperty, Violation
from ..probe import Probe, Recorder
from ..solver_model import Mismatch, Model
from .c01 import _short

TIGHT = dict(max_iterations=25, cost_tolerance=1e-12, gradient_tolerance=1e-12, gradient_tolerance_start_step=10, parameter_tolerance=1e-12)


class Property(BaseProperty):
    id = "C02"
    runs = {"quick": 120, "thorough": 1200}

    def warm(self, ctx):
        rng = random.Random("%s/c02/warm/%d" % (ctx.seed, ctx.worker))
        nv = rng.randint(3, 5)
        ctx.pool = [dict(fam="wire", nv=nv, seed=rng.randrange(10**6)) for _ in range(3)]
        ctx.pool += [dict(fam="wide", nv=4, seed=i) for i in range(2)]
        ctx.pool.append(dict(fam="wire", nv=nv + rng.choice([-1, 1]), seed=rng.randrange(10**6)))
        ctx.pool += [dict(fam="shift", nv=4, seed=i) for i in range(2)]
        # Equal size, other kinds of variables.
        fam = ["se2", "linear", "so", "vec", "manifold", "mixed", "robust", "se3"][(ctx.worker + int(ctx.seed)) % 8]
        ctx.pool.append(dict(fam=fam, nv=rng.randint(2, 4), seed=rng.randrange(10**6)))
        combos = [("gn", "chol"), ("lm", "chol"), ("dl", "chol"), ("gn", "cg"), ("lm", "cg")]
        ctx.combos = [("gn", "chol"), combos[1 + ctx.worker % 4]]
        ops.touch(ctx.pool)

    def touch(self, spec):
        ops.touch(spec["pool"])

    def generate(self, rng, ctx):
        pool = [dict(p, values=rng.randrange(30)) for p in rng.sample(ctx.pool, rng.choice([2, 2, 3]))]
        if rng.random() < 0.1:
            pool[:2] = [dict(p, values=rng.randrange(30)) for p in ctx.pool if p["fam"] == "shift"]
        # Values of one structure that differ.
        if rng.random() < 0.6:
            pool.append(dict(rng.choice(pool), values=rng.randrange(30)))
        hist = []
        clear = rng.random() < 0.12
        for _ in range(rng.randint(3, 12)):
            r = rng.random()
            pi = rng.randrange(len(pool))
            if r < 0.42:
                op = dict(t="solve", solver=rng.randrange(2), probe=pool[pi]["fam"] not in ("wire", "wide", "shift"))
            elif r < 0.72:
                op = dict(t="lin", lin=rng.choice(["chol", "chol", "chol", "cg"]), lambd=rng.choice([0.0, 0.01, 1.0, 30.0]),
                          direct=rng.random() < 0.08)
            elif r < 0.735:
                op = dict(t="bulk", n=rng.choice([10, 20, 40, 70, 140, 300]), big=rng.random() < 0.4)
            elif r < 0.8:
                op = dict(t=rng.choice(["cost", "jac"]))
            elif r < 0.86:
                op = dict(t="gc")
            elif r < 0.95:
                op = dict(t="recreate", which=rng.choice(["solver", "linear"]), slot=rng.randrange(2), same=rng.random() < 0.7)
            else:
                op = dict(t="clear" if clear else "gc")
            op.update(prob=pi, init=rng.randrange(30), order=7 if rng.random() < 0.15 else None, slot=op.get("slot", rng.randrange(2)))
            hist.append(op)
        return dict(pool=pool, combos=ctx.combos, history=hist, schedule=dict(mode="explicit", switches=[]), faults=[])

    # -- one run -------------------------------------------------------------

    def execute(self, spec, sim, out):
        env = dict(
            problems=[world.Problem(p) for p in spec["pool"]],
            solvers={}, linears={}, combo_names=[tuple(c) for c in spec["combos"]],
        )
        env["graphs"] = [p.graph() for p in env["problems"]]
        failure = []

        def client(c):
            for k, op in enumerate(spec["history"]):
                c.scratch["recorder"] = None
                sim.sched.begin_op(c, k)
                try:
                    self.step(op, env, c, sim, out)
                except Violation as v:
                    failure.append((k, v))
                    return
                except Exception as e:
                    failure.append((k, Violation("raised", "%s raised %s" % (op["t"], _short(e)))))
                    return
                sim.sched.end_op(c)

        sim.clients([client], scheduled=False)
        if failure:
            k, v = failure[0]
            raise Violation(v.cls, "operation %d: %s" % (k, v.message))
        out.info["operations"] = len(spec["history"])
        if len({json.dumps(spec["pool"][o["prob"]]) for o in spec["history"] if o["t"] in ("solve", "lin")}) > 1:
            out.key = (json.dumps(spec["pool"]), json.dumps(spec["history"]), json.dumps(spec["combos"]))

    def solver(self, env, spec_combo, probe, slot):
        key = (spec_combo, probe, slot)
        if key not in env["solvers"]:
            nl, lin = spec_combo
            inner = world.linear_solver(lin)
            env["solvers"][key] = world.nonlinear_solver(nl, Probe(inner) if probe else inner, False, **TIGHT)
        return env["solvers"][key]

    def linear(self, env, name, slot):
        key = (name, slot)
        if key not in env["linears"]:
            env["linears"][key] = world.linear_solver(name)
        return env["linears"][key]

    def step(self, op, env, c, sim, out):
        t = op["t"]
        out.info[t] = out.info.get(t, 0) + 1
        if t == "gc":
            gc.collect()
            return
        if t == "clear":
            jax.clear_caches()
            return
        if t == "recreate":
            # Discard objects; where possible new ones get the address of dead ones.
            d = env["solvers"] if op["which"] == "solver" else env["linears"]
            for key in [k for k in list(d) if k[-1] == op["slot"]]:
                old = id(d.pop(key))
                gc.collect()
                if op["same"]:
                    keep = []
                    for _ in range(30):
                        new = (
                            self.solver(env, key[0], key[1], key[2]) if op["which"] == "solver" else self.linear(env, key[0], key[1])
                        )
                        if id(new) == old:
                            out.info["address reused"] = out.info.get("address reused", 0) + 1
                            break
                        keep.append(d.pop(key))
                        del new
            return
        if t == "bulk":
            systems = ops.bulk_systems(op["init"], op["n"], op.get("big"))
            got = np.concatenate([np.asarray(x, np.float64) for x in ops.solve_bulk(self.linear(env, "chol", op["slot"]), systems)])
            sim.note_array(got)
            if ops.same(dict(c=got), dict(c=ops.solve_bulk_model(systems)), ops.model_tol()):
                raise Violation("wrong", "wrong solutions of %d linear systems" % len(systems))
            return
        p = env["problems"][op["prob"]]
        g = env["graphs"][op["prob"]]
        m = p.model
        x = p.initial(op["init"], 0.3)
        a = p.assignments(x, op.get("order"))
        cols = p.columns(g)
        tol = ops.model_tol()
        if t == "cost":
            got = float(g.compute_cost(a)[0])
            sim.note(got)
            if ops.same(dict(c=got), dict(c=m.cost(x)), tol):
                raise Violation("wrong", "cost %r, expected %r" % (got, m.cost(x)))
        elif t == "jac":
            J = g.compute_whitened_residual_jacobian(a, g.compute_whitened_residual_vector(a))
            D = np.asarray(J.as_scipy_coo_matrix().todense(), np.float64)[:, cols]
            A, _ = m.linearize(x)
            sim.note_array(D)
            if ops.same(dict(c=D.T @ D), dict(c=A.T @ A), tol):
                raise Violation("wrong", "wrong linearization")
        elif t == "lin":
            J = g.compute_whitened_residual_jacobian(a, g.compute_whitened_residual_vector(a))
            r = g.compute_whitened_residual_vector(a)
            ATb = J.T @ -r
            s = self.linear(env, op["lin"], op["slot"])
            if op.get("direct"):
                step = s.solve_subproblem(A=J, ATb=ATb, lambd=op["lambd"], iteration=0)
            else:
                step = ops.linear_fn(op["lin"])(s, J, ATb, op["lambd"], 0)
            step = np.asarray(step, np.float64)[cols]
            sim.note_array(step)
            A, b = m.linearize(x)
            H = A.T @ A
            if op["lin"] == "chol":
                H = H + (op["lambd"] + 1e-5) * np.eye(len(H))
            else:
                # The damping ignores that entries of one factor may coincide.
                diag = np.zeros(J.shape[1])
                np.add.at(diag, np.asarray(J.coords.cols), np.asarray(J.values) ** 2)
                H = H + op["lambd"] * np.diag(diag[cols])
                tol = 1e-4
            d = 1.0 / np.sqrt(np.diag(H))
            cond = np.linalg.cond(H * d[:, None] * d[None, :])
            if cond > (1e8 if op["lin"] == "chol" else 300):
                return
            if op["lin"] == "cg" and cond > 30:
                tol = 0.03
            want = np.linalg.solve(H, -A.T @ b)
            if ops.same(dict(c=step), dict(c=want), tol):
                raise Violation("wrong", "wrong solution of the linear system (error %.2g)" % np.abs(step - want).max())
        elif t == "solve":
            s = self.solver(env, env["combo_names"][op["solver"]], op["probe"], op["slot"])
            if op["probe"]:
                rec = Recorder(cap=40)
                c.scratch["recorder"] = rec
            res = p.read(g.solve(a, s))
            flat = np.concatenate([res[v] for v in m.used])
            sim.note_array(flat)
            nl = env["combo_names"][op["solver"]][0]
            if op["probe"]:
                model = Model(nl, TIGHT, p, cols)
                try:
                    model.check(x, rec.calls, res)
                except Mismatch as e:
                    raise Violation("wrong", "solve: " + e.message)
            else:
                # A linear least squares problem.
                A, b = m.linearize(x)
                d = np.linalg.lstsq(A, -b, rcond=None)[0]
                best = m.retract(x, d)
                want = np.concatenate([best[v] for v in m.used])
                if ops.same(dict(c=flat), dict(c=want), 1e-5 if jax.config.jax_enable_x64 else 5e-3):
                    raise Violation("wrong", "solve: wrong solution (error %.2g)" % np.abs(flat - want).max())

    def shrink(self, spec):
        h = spec["history"]
        n = len(h)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                if n - size >= 1:
                    yield dict(spec, history=h[:i] + h[i + size :])
            size //= 2
