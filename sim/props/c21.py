"""The pose graph program from its command line to its figure."""

import importlib.util
import json
import math
import random
import sys

import numpy as np

from .. import ref, seams
from ..harness import Violation
from ..solver_model import Model
from .c01 import Property as C01, _short
from .c15 import SimFiles, Unreadable, load as load_utils, loud, pose_parameters, read_file

SCRIPT = "/repo/scripts/pose_graph_g2o.py"
SOLVERS = {"GAUSS_NEWTON": "gn", "FIXED_ITERATION_GAUSS_NEWTON": "fix", "LEVENBERG_MARQUARDT": "lm", "DOGLEG": "dl"}
EXC = (Exception, KeyboardInterrupt, SystemExit)


def make_track(spec):
    """A file whose constraints nearly agree: a path with some loops."""
    r = np.random.RandomState(spec["seed"] % (2**32))
    rng = random.Random("track/%d" % spec["seed"])
    g = ref.GROUPS[spec["kind"]]
    d, n = g.ldim, spec["poses"]
    spread = np.array([2.0] * (d // 2 + (d == 3)) + [0.4] * (1 if d == 3 else 3))
    true = [g.identity]
    for _ in range(n - 1):
        true.append(g.mul(true[-1], g.exp(r.uniform(-1, 1, d) * spread)))
    noise = spec["noise"]
    start = [g.mul(t, g.exp(r.uniform(-1, 1, d) * spec["start"])) if i else t for i, t in enumerate(true)]

    def text(p):
        if d == 3:
            return [repr(float(p[2])), repr(float(p[3])), repr(math.atan2(p[1], p[0]))]
        q = p[:4]
        return [repr(float(x)) for x in (p[4], p[5], p[6], q[1], q[2], q[3], q[0])]

    tag = "SE2" if d == 3 else "SE3:QUAT"
    lines = [["VERTEX_" + tag, str(i)] + text(p) for i, p in enumerate(start)]
    pairs = [(i, i + 1) for i in range(n - 1)]
    for _ in range(spec["loops"]):
        a, b = rng.randrange(n), rng.randrange(n)
        if a != b:
            pairs.append((a, b))
    for a, b in pairs:
        k = 8.0 if rng.random() < spec.get("outliers", 0.0) else 1.0
        T = g.mul(g.mul(g.inv(true[a]), true[b]), g.exp(r.uniform(-1, 1, d) * noise * k))
        M = np.eye(d) * rng.choice([0.5, 1.0, 10.0]) + (lambda B: B @ B.T)(r.uniform(-1, 1, (d, d)))
        lines.append(["EDGE_" + tag, str(a), str(b)] + text(T) + [repr(float(M[i, j])) for i in range(d) for j in range(i, d)])
    return ("\n".join(" ".join(l) for l in lines) + "\n").encode()


class Wanted:
    """Positions the program has to show; `finals` is None if rounding decides."""

    def __init__(self, data, solver, huber):
        poses, edges = read_file(data)
        self.dims = [d for d, _ in poses]
        kinds = ["SE2" if d == 3 else "SE3" for d in self.dims]
        x = {i: pose_parameters(d, p, False) for i, (d, p) in enumerate(poses)}
        self.initial = self.positions(x)
        fs = []
        for d, a, b, p, M in edges:
            fs.append(dict(type="between", kind="SE2" if d == 3 else "SE3", vars=[a, b], T=pose_parameters(d, p, True),
                           noise=dict(sqrt=np.linalg.cholesky(M).T, huber=huber)))
        d = self.dims[0]
        fs.append(dict(type="prior", kind=kinds[0], vars=[0], mu=x[0], noise=dict(diag=np.full(d, 100.0), huber=huber)))
        self.finals = None
        if len(set(self.dims)) > 1:
            return
        graph = ref.Graph(kinds, fs)
        if len(graph.used) < len(poses):
            return
        self.finals = self.lead(graph, x, solver)

    def positions(self, x):
        return np.array([x[i][2:] if d == 3 else x[i][4:] for i, d in enumerate(self.dims)]).T

    def lead(self, graph, x, solver):
        """Where the solver may end up."""

        class P:
            model = graph

        m = Model(SOLVERS[solver], dict(iterations=10), P, np.arange(graph.ldim))
        states, finals = [m.initial(x)], []
        while states:
            nxt = []
            for s in states:
                if m.extreme(s.x) or not m.finite(s.x) or graph.margin(s.x) < 1e-9:
                    return None
                A, r = m.lin(s)
                H = A.T @ A + (s.lambd + 1e-5) * np.eye(graph.ldim)
                if np.linalg.cond(H) > 1e7:
                    return None
                call = dict(step=np.linalg.solve(H, -A.T @ r))
                for t in m.successors(s, call):
                    if t.stop:
                        finals.append(self.positions(t.x))
                    if t.go:
                        nxt.append(t)
            states = m.merge(nxt)
            if len(states) > 32 or len(finals) > 500:
                return None
        return finals


class Property(C01):
    id = "C21"
    runs = {"quick": 40, "thorough": 300}

    def warm(self, ctx):
        load()

    def touch(self, spec):
        pass

    def generate(self, rng, ctx):
        # The solver and the kind of poses are dealt out to the workers.
        names = sorted(SOLVERS)
        starts, faults = [], []
        n = rng.choice([1, 2, 2, 3])
        for j in range(n):
            kind = rng.choice(["SE2", "SE2", "SE3"])
            file = dict(kind=kind, seed=rng.randrange(10**6), poses=rng.randint(2, 6), loops=rng.randint(0, 4),
                        noise=rng.choice([0.0, 0.02, 0.1]), start=rng.choice([0.0, 0.05, 0.3]), outliers=rng.choice([0.0, 0.3]))
            if j and rng.random() < 0.3:
                file = starts[-1]["file"]
            op = dict(file=file, solver=names[(ctx.worker + rng.choice([0, 0, 1])) % 4])
            if rng.random() < 0.4:
                op["huber"] = rng.choice([0.1, 0.5, 2.0])
            starts.append(op)
            size = len(make_track(file))
            t = rng.random()
            if j + 1 < n or t < 0.5:
                t = rng.random()
                f = dict(client=0, op=j)
                if t < 0.25:
                    f.update(kind="file", size=rng.choice([17, 100]), pieces=rng.randrange(1000), buffer=rng.choice([64, 8192]))
                    u = rng.random()
                    if u < 0.4:
                        f["cut"] = rng.randrange(size)
                    elif u < 0.8:
                        f["fail"] = rng.randrange(size)
                    else:
                        f["missing"] = True
                elif t < 0.55:
                    f.update(kind="cholmod", call=rng.randint(1, 12), exc=rng.choice(["npd", "oom", "mem"]))
                elif t < 0.75:
                    f.update(kind="stdout", write=rng.choice([rng.randint(1, 20), rng.randint(1, 80)]), count=rng.choice([1, 1000]), exc=rng.choice(["BrokenPipe", "NoSpace"]))
                else:
                    f.update(kind="interrupt", at=rng.choice([rng.randint(1, 60), rng.randint(1, 2000)]), exc=rng.choice(["KeyboardInterrupt", "MemoryError"]))
                faults.append(f)
        return dict(starts=starts, faults=faults, schedule=dict(mode="random", p=0.0))

    def execute(self, spec, sim, out):
        module, plt = load()
        found = []
        stdout = seams.SimStdout()
        data = {"/sim/%d.g2o" % j: make_track(op["file"]) for j, op in enumerate(spec["starts"])}
        shown = []
        plans = {f["op"]: f for f in spec["faults"]}

        def show(*a, **k):
            for n in plt.get_fignums():
                for ax in plt.figure(n).axes:
                    for line in ax.lines:
                        xs = line.get_data_3d() if hasattr(line, "get_data_3d") else line.get_data()
                        shown.append((line.get_label(), np.array([np.asarray(x, float) for x in xs])))

        def client(c):
            for j, op in enumerate(spec["starts"]):
                del shown[:]
                sys.argv = ["pose_graph_g2o.py", "--g2o-path", "/sim/%d.g2o" % j, "--solver-type", op["solver"]]
                if "huber" in op:
                    sys.argv += ["--huber-delta", repr(op["huber"])]
                sim.sched.begin_op(c, j)
                error = None
                try:
                    module.main()
                except EXC as e:
                    error = e
                fired = list(c.fired)
                sim.sched.end_op(c)
                c.in_hook = True
                plt.close("all")
                try:
                    self.check(op, j, data["/sim/%d.g2o" % j], plans.get(j, {}), error, fired, list(shown), sim, out)
                except Violation as v:
                    found.append(v)
                    return
                finally:
                    c.in_hook = False

        saved = sys.stdout, sys.argv, plt.show
        sys.stdout = stdout
        plt.show = show
        try:
            with SimFiles(data):
                sim.clients([client], scheduled=False, timeout=300.0)
        finally:
            sys.stdout, sys.argv, plt.show = saved
            plt.close("all")
        if found:
            raise found[0]
        out.key = (json.dumps(spec["starts"]), json.dumps(spec["faults"]))

    def check(self, op, j, data, plan, error, fired, shown, sim, out):
        where = "start %d (%s)" % (j, op["solver"])
        if plan.get("cut") is not None:
            data = data[: plan["cut"]]
        try:
            want = Wanted(data, op["solver"], op.get("huber"))
        except (Unreadable, UnicodeDecodeError):
            want = None
        sim.note(type(error).__name__, len(shown))
        if error is not None:
            out.info["failures"] = out.info.get("failures", 0) + 1
            if not fired:
                raise Violation("failed", "%s failed: %s" % (where, _short(error)))
        elif any(loud(f) or f["kind"] in ("cholmod", "stdout") for f in fired):
            raise Violation("hidden", "%s ended as if nothing had happened" % where)
        elif not shown:
            raise Violation("nothing", "%s showed nothing" % where)
        if not shown:
            return
        if want is None:
            raise Violation("accepted", "%s showed something for bytes that denote no pose graph" % where)
        lines = dict(shown)
        if sorted(lines) != ["Initial", "Optimized"] or len(shown) != 2:
            raise Violation("lines", "%s showed %s" % (where, sorted(l for l, _ in shown)))
        for a in lines.values():
            sim.note_array(a)
        out.info["figures"] = out.info.get("figures", 0) + 1

        def same(a, b):
            return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-6 * (1.0 + np.abs(b))))

        if not same(lines["Initial"], want.initial):
            raise Violation("initial", "%s: the initial positions are not those of the file" % where)
        if want.finals is None:
            out.info["undecided"] = out.info.get("undecided", 0) + 1
        elif not any(same(lines["Optimized"], f) for f in want.finals):
            raise Violation("optimized", "%s: the positions shown are not where the solver leads" % where)

    def shrink(self, spec):
        for i in range(len(spec["faults"])):
            new = json.loads(json.dumps(spec))
            del new["faults"][i]
            yield new
        if len(spec["starts"]) > 1:
            new = json.loads(json.dumps(spec))
            j = len(new["starts"]) - 1
            del new["starts"][j]
            new["faults"] = [f for f in new["faults"] if f["op"] != j]
            yield new
            new = json.loads(json.dumps(spec))
            del new["starts"][0]
            new["faults"] = [dict(f, op=f["op"] - 1) for f in new["faults"] if f["op"] != 0]
            yield new


_module = None


def load():
    global _module
    if _module is None:
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        # The program imports the loader by name.
        sys.modules["_g2o_utils"] = load_utils()
        spec = importlib.util.spec_from_file_location("pose_graph_g2o", SCRIPT)
        module = importlib.util.module_from_spec(spec)
        sys.modules["pose_graph_g2o"] = module
        spec.loader.exec_module(module)
        _module = module, plt
    return _module
