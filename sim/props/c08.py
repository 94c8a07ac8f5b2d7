"""Progress output."""

import json
import math
import random
import re
import sys

import numpy as np

from .. import ops, probed, world
from ..harness import BaseProperty, Violation
from ..probe import Recorder
from ..probed import fault_plan, limit, make_solver, params
from ..seams import SimStdout
from ..solver_model import Mismatch, Model
from .c01 import _short, drop_client

NUMBER = re.compile(r"[-+]?(?:nan|inf|\d+\.?\d*(?:e[-+]?\d+)?)", re.I)


def numbers(line):
    return [float(x) for x in NUMBER.findall(line)]


def iteration_of(line):
    m = re.search(r"#\s*(\d+)", line)
    if m:
        return [int(m.group(1))]
    return [int(x) for x in numbers(line) if math.isfinite(x) and x == int(x)]


def costs_of(line):
    m = re.search(r"cost\s*[=:]\s*(\S+)", line)
    if m:
        return numbers(m.group(1))
    return numbers(line)


def agrees(cost, printed):
    for p in printed:
        if not math.isfinite(cost):
            if not math.isfinite(p):
                return True
        elif abs(p - cost) <= 1e-5 * abs(cost) + 1e-12:
            return True
    return False


class Property(BaseProperty):
    id = "C08"
    runs = {"quick": 260, "thorough": 2500}
    combos = [("lm", "chol"), ("dl", "chol"), ("gn", "chol"), ("fix", "chol"), ("lm", "cg"), ("gn", "cg"), ("dl", "cg"), ("fix", "cg")]

    def warm(self, ctx):
        rng = random.Random("%s/c08/warm/%d" % (ctx.seed, ctx.worker))
        fams = ["se2", "vec", "mixed", "linear", "robust", "manifold"]
        rng.shuffle(fams)
        ctx.structures = ops.pick_structures(rng, 2, fams, nv=(2, 4))
        n = len(self.combos)
        ctx.combos = [self.combos[(ctx.worker + i * 3) % n] for i in range(3)]
        ops.touch(ctx.structures)

    def touch(self, spec):
        ops.touch([c["problem"] for c in spec["clients"]])

    def generate(self, rng, ctx):
        nc = rng.choice([1, 2, 2, 3])
        clients = []
        for _ in range(nc):
            nl, lin = rng.choice(ctx.combos)
            if nl == "fix":
                p = dict(iterations=rng.choice([1, 3]), unroll=ctx.worker % 2 == 0)
            else:
                p = params(rng, nl, max_it=(1, 8))
            s = dict(nl=nl, lin=lin, p=p, verbose=rng.random() < 0.75)
            clients.append(
                dict(
                    problem=dict(rng.choice(ctx.structures), values=rng.randrange(10**6), spread=rng.choice([0.15, 0.6])),
                    solver=s, init=rng.randrange(10**6), scale=rng.choice([0.1, 0.4, 1.0]),
                    plan=fault_plan(rng, limit(s), finite=nl in ("gn", "fix") and lin == "chol"),
                )
            )
        faults = []
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                c = rng.randrange(nc)
                faults.append(
                    dict(kind="stdout", client=c, op=0, write=rng.randint(1, 4 * limit(clients[c]["solver"]) + 4),
                         count=rng.choice([1, 1, 2, 1000]), exc=rng.choice(["BrokenPipe", "NoSpace"]))
                )
        schedule = dict(mode="random", p=rng.choice([0.02, 0.1, 0.3]))
        return dict(clients=clients, schedule=schedule, faults=faults)

    def execute(self, spec, sim, out):
        todo = []
        for cl in spec["clients"]:
            problem = world.Problem(cl["problem"])
            graph = problem.graph()
            x0 = problem.initial(cl["init"], cl["scale"])
            todo.append(
                dict(cl=cl, problem=problem, graph=graph, x0=x0, a=problem.assignments(x0),
                     solver=make_solver(cl["solver"]), columns=problem.columns(graph))
            )

        def solve(c, t, solver):
            t["recorder"] = c.scratch["recorder"] = Recorder(t["cl"]["plan"], cap=limit(t["cl"]["solver"]) + 3)
            t["result"] = t["error"] = None
            sim.sched.begin_op(c, 0)
            try:
                r = t["graph"].solve(t["a"], solver)
                t["result"] = t["problem"].read(r)
            except Exception as e:
                t["error"] = e
            t["fired"] = list(c.fired)
            t["library_error"] = c.scratch.pop("library_error", None)
            sim.sched.end_op(c)

        def phase(jobs, **kw):
            """`jobs`: lists of (task, solver), one per client. Returns the output."""
            stdout = SimStdout()
            saved = sys.stdout
            sys.stdout = stdout

            def client(seq):
                def go(c):
                    for t, s in seq:
                        solve(c, t, s)

                return go

            try:
                sim.clients([client(j) for j in jobs], **kw)
            finally:
                sys.stdout = saved
            if stdout.text() and any(c is None for c, _ in stdout.chunks):
                raise Violation("foreign", "output was printed from a thread that does not solve")
            return stdout

        # One at a time: without output, then with output.
        for t in todo:
            silent = make_solver(dict(t["cl"]["solver"], verbose=False))
            o = phase([[(t, silent)]], scheduled=False, faults=False)
            if o.text():
                raise Violation("noise", "a solve that is not verbose printed %r" % o.text()[:80])
            t["silent"] = t["result"]
            t["iterations"] = len(t["recorder"].calls)
            o = phase([[(t, t["solver"])]], scheduled=False, faults=False)
            self.check(t, o.text(), out, "alone")
        # Together, with output faults.
        o = phase([[(t, t["solver"])] for t in todo])
        for i, t in enumerate(todo):
            sim.note(o.text(i))
            if t["fired"]:
                self.check_faulted(t, o.text(i), out)
            else:
                self.check(t, o.text(i), out, "together")
            for f in t["recorder"].fired:
                k = "step:" + f["kind"]
                out.faults[k] = out.faults.get(k, 0) + 1
        # The output stream works again.
        if any(t["fired"] for t in todo):
            for t in todo:
                o = phase([[(t, t["solver"])]], scheduled=False, faults=False)
                self.check(t, o.text(), out, "after output failed")
        if any(t["cl"]["solver"]["verbose"] for t in todo):
            out.key = (json.dumps(spec["clients"]), json.dumps(spec["faults"]), out.switch_hash)

    def model(self, t):
        """-> (model or None, final states)"""
        s = t["cl"]["solver"]
        m = Model(s["nl"], s["p"], t["problem"], t["columns"])
        try:
            final = m.check(t["x0"], t["recorder"].calls, t["result"])
        except Mismatch:
            return None, None  # looked at by other checks
        return m, final

    def same_result(self, t, m, when):
        if m is None or m.undecided or m.stats["ambiguous"] or t["silent"] is None or t["result"] is None:
            return
        if len(t["recorder"].calls) != t["iterations"]:
            return
        a = np.concatenate([v for _, v in sorted(t["silent"].items())])
        b = np.concatenate([v for _, v in sorted(t["result"].items())])
        if np.all(np.isfinite(a)) and not np.allclose(a, b, rtol=1e-6, atol=1e-6):
            raise Violation("changed", "%s: the result differs from that of a silent solve" % when)

    def check(self, t, text, out, when):
        s = t["cl"]["solver"]
        if t["error"] is not None:
            if t["library_error"] is None:
                raise Violation("raised", "%s: solve raised %s" % (when, _short(t["error"])))
            return
        if not s["verbose"]:
            if text:
                raise Violation("noise", "%s: a solve that is not verbose printed %r" % (when, text[:80]))
            return
        lines = [l for l in text.split("\n") if l.strip()]
        n = len(t["recorder"].calls)
        out.info["lines"] = out.info.get("lines", 0) + len(lines)
        if len(lines) != n + 1:
            raise Violation("lines", "%s: %d lines for %d iterations" % (when, len(lines), n))
        for k, line in enumerate(lines):
            if k not in iteration_of(line):
                raise Violation("number", "%s: line %d is %r" % (when, k, line[:120]))
        m, final = self.model(t)
        if m is None:
            out.info["diverged"] = out.info.get("diverged", 0) + 1
            return
        self.same_result(t, m, when)
        for k, states in enumerate(m.trace[:n]):
            self.cost(lines[k], states, when)
        if not m.undecided:
            self.cost(lines[n], final, when)

    @staticmethod
    def cost(line, states, when):
        printed = costs_of(line)
        if not any(agrees(s.cost, printed) for s in states):
            raise Violation("cost", "%s: %r, but the cost was %r" % (when, line[:120], states[0].cost))

    def check_faulted(self, t, text, out):
        when = "with failing output"
        if t["error"] is not None:
            out.info["failed solves"] = out.info.get("failed solves", 0) + 1
            # Complete lines up to the failure.
            lines = [l for l in text.split("\n")[:-1] if l.strip()]
            for k, line in enumerate(lines):
                if k not in iteration_of(line) and line is not lines[-1]:
                    raise Violation("number", "%s: line %d is %r" % (when, k, line[:120]))
            return
        out.info["survived output failures"] = out.info.get("survived output failures", 0) + 1
        s = t["cl"]["solver"]
        m = Model(s["nl"], s["p"], t["problem"], t["columns"])
        try:
            m.check(t["x0"], t["recorder"].calls, t["result"])
        except Mismatch as e:
            raise Violation("wrong", "%s: %s" % (when, e.message))
        self.same_result(t, m, when)

    def shrink(self, spec):
        for i in range(len(spec["clients"])):
            if len(spec["clients"]) > 1:
                yield drop_client(spec, i)
            cl = spec["clients"][i]
            for new in probed.Probed.shrink(None, cl):
                yield dict(spec, clients=spec["clients"][:i] + [new] + spec["clients"][i + 1 :])
