"""Loading pose graph files through a simulated file system."""

import builtins
import importlib.util
import io
import json
import math
import os
import random

import numpy as np

from .. import ref, world
from ..harness import Violation
from ..sched import Scheduler
from .c01 import Property as C01, _short

SCRIPT = "/repo/scripts/_g2o_utils.py"
PREFIX = "/sim/"


# -- simulated files ----------------------------------------------------------------


class SimRaw(io.RawIOBase):
    """Delivers bytes in pieces; can end early or fail."""

    def __init__(self, data, plan, on_fault):
        self.data, self.plan, self.on_fault = data, plan, on_fault
        self.pos = 0
        self.rng = random.Random(plan.get("pieces", 0))

    def readable(self):
        return True

    def readinto(self, b):
        n = len(b)
        size = self.plan.get("size")
        if size:
            n = min(n, self.rng.randint(1, size))
        end = len(self.data)
        cut, fail = self.plan.get("cut"), self.plan.get("fail")
        if fail is not None and self.pos >= fail:
            self.on_fault("read error")
            raise OSError(5, "simulated: input/output error")
        if fail is not None:
            n = min(n, fail - self.pos)
        if cut is not None and cut < end:
            end = cut
        n = max(0, min(n, end - self.pos))
        if n == 0 and cut is not None:
            self.on_fault("early end of file")
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n


class SimFiles:
    """Replaces `open` for paths below /sim/."""

    def __init__(self, files):
        self.files = files
        self.real = builtins.open

    def __enter__(self):
        self.saved = builtins.open, io.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *_):
        builtins.open, io.open = self.saved

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        name = os.fspath(file) if not isinstance(file, int) else file
        if not (isinstance(name, str) and name.startswith(PREFIX)):
            return self.real(file, mode, buffering, encoding, errors, newline, *a, **k)
        s = Scheduler.current
        c = s.me() if s is not None else None
        plan = {}

        def on_fault(kind):
            if not any(f is plan for f in c.fired):
                c.fired.append(plan)
                s.count_fault("file:" + kind)

        if c is not None:
            for f in c.faults:
                if f["kind"] == "file":
                    plan = f
            if plan.get("missing"):
                on_fault("cannot open")
                raise OSError(24, "simulated: too many open files")
            if plan.get("size"):
                s.count_fault("file:short reads")
        raw = SimRaw(self.files[name], plan, on_fault)
        if "b" in mode:
            return io.BufferedReader(raw, plan.get("buffer", 8192))
        return io.TextIOWrapper(io.BufferedReader(raw, plan.get("buffer", 8192)), encoding=encoding or "utf-8", errors=errors, newline=newline)


# -- file contents and an independent reader -------------------------------------------


def number(rng, scale=1.0):
    x = rng.uniform(-scale, scale)
    return rng.choice([repr(x), "%.6f" % x, "%.4e" % x, "%d" % round(x)])


def make_file(spec):
    rng = random.Random("g2o/%s/%d/%d" % (spec["kind"], spec["seed"], spec["poses"]))
    r = np.random.RandomState(spec["seed"] % (2**32))
    d = 3 if spec["kind"] == "SE2" else 6
    lines = []

    def pose():
        if d == 3:
            return [number(rng, 10), number(rng, 10), number(rng, 3)]
        q = r.standard_normal(4)
        q /= np.linalg.norm(q)
        return [number(rng, 10) for _ in range(3)] + [repr(float(x)) for x in q]

    n = spec["poses"]
    tag = "SE2" if d == 3 else "SE3:QUAT"
    for i in range(n):
        lines.append(["VERTEX_" + tag, str(i)] + pose())
    for _ in range(spec["edges"]):
        a, b = rng.randrange(n), rng.randrange(n)
        M = np.eye(d) * rng.choice([0.5, 1.0, 30.0]) + (lambda B: B @ B.T)(r.uniform(-1, 1, (d, d)))
        info = [repr(float(M[i, j])) for i in range(d) for j in range(i, d)]
        edge = ["EDGE_" + tag, str(a), str(b)] + pose() + info
        # Edges may come between the vertices once both ends exist.
        lines.insert(rng.randint(max(a, b) + 1, len(lines)) if rng.random() < 0.3 and not any(l[0][0] == "E" for l in lines) else len(lines), edge)
    sep = lambda: rng.choice([" ", " ", " ", "  "])
    text = ""
    eol = rng.choice(["\n", "\n", "\r\n"])
    for i, l in enumerate(lines):
        text += (" " if rng.random() < 0.05 else "") + l[0] + "".join(sep() + x for x in l[1:])
        text += (" " if rng.random() < 0.1 else "") + (eol if i + 1 < len(lines) or rng.random() < 0.8 else "")
    return text.encode()


class Unreadable(Exception):
    pass


def read_file(data):
    """-> (poses, edges): what the bytes denote; Unreadable if they denote nothing."""
    poses, edges = [], []
    text = data.decode()
    for line in text.replace("\r\n", "\n").split("\n"):
        parts = line.split()
        if not parts:
            continue
        try:
            kind = {"VERTEX_SE2": (0, 3), "EDGE_SE2": (1, 3), "VERTEX_SE3:QUAT": (0, 6), "EDGE_SE3:QUAT": (1, 6)}[parts[0]]
            d = kind[1]
            if kind[0] == 0:
                if int(parts[1]) != len(poses):
                    raise Unreadable("index")
                p = [float(x) for x in parts[2:]]
                if len(p) != (3 if d == 3 else 7):
                    raise Unreadable("length")
                poses.append((d, p))
            else:
                a, b = int(parts[1]), int(parts[2])
                p = [float(x) for x in parts[3:]]
                m = 3 if d == 3 else 7
                if len(p) != m + d * (d + 1) // 2 or not (0 <= a < len(poses) and 0 <= b < len(poses)):
                    raise Unreadable("edge")
                M = np.zeros((d, d))
                k = m
                for i in range(d):
                    for j in range(i, d):
                        M[i, j] = M[j, i] = p[k]
                        k += 1
                if np.linalg.eigvalsh(M)[0] <= 0:
                    raise Unreadable("information")
                edges.append((d, a, b, p[:m], M))
        except (KeyError, ValueError, IndexError):
            raise Unreadable(parts[0])
    if not poses:
        raise Unreadable("empty")
    return poses, edges


def pose_parameters(d, p, normalise):
    if d == 3:
        return np.array([math.cos(p[2]), math.sin(p[2]), p[0], p[1]])
    q = np.array([p[6], p[3], p[4], p[5]])
    if normalise:
        q = q / np.linalg.norm(q)
    return np.concatenate([q, p[:3]])


def loud(f):
    """Faults the caller has to hear of."""
    return f["kind"] == "interrupt" or f.get("fail") is not None or bool(f.get("missing"))


class Property(C01):
    id = "C15"
    runs = {"quick": 1500, "thorough": 20000}

    def warm(self, ctx):
        load()
        with SimFiles({"/sim/warm": make_file(dict(kind="SE2", seed=0, poses=2, edges=1)), "/sim/warm3": make_file(dict(kind="SE3", seed=0, poses=2, edges=1))}):
            import pathlib

            load().parse_g2o(pathlib.Path("/sim/warm"))
            load().parse_g2o(pathlib.Path("/sim/warm3"))

    def touch(self, spec):
        pass

    def generate(self, rng, ctx):
        files = []
        for _ in range(rng.choice([1, 1, 2])):
            files.append(dict(kind=rng.choice(["SE2", "SE2", "SE3"]), seed=rng.randrange(10**6), poses=rng.randint(1, 5) if rng.random() < 0.85 else rng.randint(6, 40), edges=rng.randint(0, 5)))
        contents = [make_file(f) for f in files]
        clients, faults = [], []
        for c in range(rng.choice([1, 1, 2, 3])):
            seq = []
            for j in range(rng.choice([1, 2, 2, 3])):
                k = rng.randrange(len(files))
                seq.append(dict(file=k))
                t = rng.random()
                f = dict(kind="file", client=c, op=j)
                n = len(contents[k])
                if t < 0.15:
                    continue
                if rng.random() < 0.7:
                    f["size"] = rng.choice([1, 3, 17, 100])
                    f["pieces"] = rng.randrange(1000)
                    f["buffer"] = rng.choice([1, 7, 64, 8192])
                if t < 0.5:
                    # Anywhere, near the end, or at the end of a number.
                    ends = [i for i, b in enumerate(contents[k]) if b in b" \r\n" and i]
                    f["cut"] = rng.choice([rng.randrange(n), n - rng.randint(1, min(n, 30)), rng.choice(ends or [0]), rng.choice(ends or [0])])
                elif t < 0.75:
                    f["fail"] = rng.randrange(n)
                elif t < 0.8:
                    f["missing"] = True
                elif t < 0.9:
                    f = dict(kind="interrupt", client=c, op=j, at=rng.randint(1, 150), exc=rng.choice(["KeyboardInterrupt", "MemoryError"]))
                faults.append(f)
            clients.append(seq)
        schedule = dict(mode="random", p=rng.choice([0.01, 0.1, 0.4]))
        return dict(files=files, clients=clients, schedule=schedule, faults=faults)

    def execute(self, spec, sim, out):
        import pathlib

        module = load()
        data = {"/sim/%d.g2o" % i: make_file(f) for i, f in enumerate(spec["files"])}
        plans = {(f["client"], f["op"]): f for f in spec["faults"]}

        def phase(when, **kw):
            results = {}

            def client(i, seq):
                def go(c):
                    for j, op in enumerate(seq):
                        sim.sched.begin_op(c, j)
                        try:
                            r = module.parse_g2o(pathlib.Path("/sim/%d.g2o" % op["file"]))
                        except (Exception, KeyboardInterrupt) as e:
                            r = e
                        results[i, j] = (r, list(c.fired))
                        sim.sched.end_op(c)

                return go

            with SimFiles(data):
                sim.clients([client(i, seq) for i, seq in enumerate(spec["clients"])], **kw)
            for (i, j), (r, fired) in sorted(results.items()):
                op = spec["clients"][i][j]
                bytes_ = data["/sim/%d.g2o" % op["file"]]
                plan = plans.get((i, j), {}) if kw.get("faults", True) else {}
                where = "%s: client %d load %d" % (when, i, j)
                if plan.get("cut") is not None:
                    bytes_ = bytes_[: plan["cut"]]
                self.check(where, bytes_, plan, r, fired, out, sim)

        phase("with faults")
        phase("afterwards", faults=False, scheduled=False)
        out.key = (json.dumps(spec["files"]), json.dumps(spec["clients"]), json.dumps(spec["faults"]), out.switch_hash)

    def check(self, where, data, plan, r, fired, out, sim):
        try:
            want = read_file(data)
        except (Unreadable, UnicodeDecodeError):
            want = None
        if isinstance(r, BaseException):
            sim.note(type(r).__name__)
            out.info["errors"] = out.info.get("errors", 0) + 1
            if want is not None and not any(loud(f) or f.get("cut") is not None for f in fired):
                raise Violation("raised", "%s raised %s" % (where, _short(r)))
            return
        out.info["loads"] = out.info.get("loads", 0) + 1
        if any(loud(f) for f in fired):
            raise Violation("swallowed", "%s returned although reading failed" % where)
        if want is None:
            raise Violation("accepted", "%s returned something for bytes that denote no pose graph" % where)
        poses, edges = want
        variables = list(r.initial_poses)
        if len(variables) != len(poses):
            raise Violation("poses", "%s: %d poses instead of %d" % (where, len(variables), len(poses)))
        index = {v: i for i, v in enumerate(variables)}
        for i, (v, (d, p)) in enumerate(zip(variables, poses)):
            kind = "SE2" if d == 3 else "SE3"
            got = world.from_value(kind, r.initial_poses[v])
            sim.note_array(got)
            if type(v) is not world.variable_class(kind) or not np.allclose(got, pose_parameters(d, p, False), rtol=1e-9, atol=1e-9):
                raise Violation("pose", "%s: pose %d is wrong" % (where, i))
        between = [f for f in r.factors if len(f.variables) == 2]
        prior = [f for f in r.factors if len(f.variables) == 1]
        if len(between) != len(edges):
            raise Violation("edges", "%s: %d constraints instead of %d" % (where, len(between), len(edges)))
        if len(prior) != 1 or index.get(prior[0].variables[0]) != 0:
            raise Violation("anchor", "%s: the first pose is not anchored" % where)
        kind = "SE2" if poses[0][0] == 3 else "SE3"
        if not np.allclose(world.from_value(kind, prior[0].mu), pose_parameters(*poses[0], False), rtol=1e-9, atol=1e-9):
            raise Violation("anchor", "%s: the first pose is anchored elsewhere" % where)
        for k, (f, (d, a, b, p, M)) in enumerate(zip(between, edges)):
            kind = "SE2" if d == 3 else "SE3"
            if tuple(index.get(v) for v in f.variables) != (a, b):
                raise Violation("edge", "%s: constraint %d joins other poses" % (where, k))
            got = world.from_value(kind, f.T_a_b)
            sim.note_array(got)
            ok = np.allclose(got, pose_parameters(d, p, False), rtol=1e-6, atol=1e-6)
            if not ok:
                raise Violation("edge", "%s: constraint %d has another measurement" % (where, k))
            R = np.asarray(f.noise_model.sqrt_precision_matrix, float)
            if not np.allclose(R.T @ R, M, rtol=1e-9, atol=1e-9 * float(np.abs(M).max())):
                raise Violation("information", "%s: constraint %d has another information matrix" % (where, k))


_module = None


def load():
    global _module
    if _module is None:
        os.environ["TQDM_DISABLE"] = "1"
        spec = importlib.util.spec_from_file_location("_g2o_utils", SCRIPT)
        _module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_module)
    return _module
