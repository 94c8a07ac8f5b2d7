"""Runs, replay files, worker processes."""

import gc
import hashlib
import importlib
import json
import random
import time
import traceback

from .sched import Scheduler, SimAbort, Stuck

PROPS = {}


def prop(pid):
    if pid not in PROPS:
        PROPS[pid] = importlib.import_module("sim.props." + pid.lower()).Property()
    return PROPS[pid]


class Violation(Exception):
    def __init__(self, cls, message):
        super().__init__(message)
        self.cls = cls
        self.message = message


class Outcome:
    """What one simulated run did."""

    def __init__(self):
        self.violation = None  # {"class", "message"}
        self.switches = []
        self.decisions = 0
        self.yields = 0
        self.switch_hash = 0
        self.digest = ""
        self.faults = {}
        self.clients = 1
        self.key = None  # what makes the run distinct; None if trivial
        self.info = {}


class BaseProperty:
    id = None
    level = "exploration"
    rule = ""
    runs = {"quick": 100, "thorough": 600}  # per worker
    x64 = True
    granularity = "none"  # line / instruction / none
    workers = 8
    assumptions = []
    components_real = ["jaxfg", "JAX/XLA CPU", "jaxlie", "CHOLMOD", "scipy"]
    components_stub = []

    def config(self, worker):
        """Process configuration of a worker."""
        return dict(x64=self.x64, granularity=self.granularity)

    def warm(self, ctx):
        """Prepare a worker process (structures to use and so on)."""

    def generate(self, rng, ctx):
        raise NotImplementedError

    def touch(self, spec):
        """Create process-wide singletons a run needs, before the state is saved."""

    def execute(self, spec, sim, out):
        """Run `spec`; raise Violation if the property does not hold."""
        raise NotImplementedError

    def shrink(self, spec):
        """Smaller candidate specs."""
        return []


class Ctx:
    def __init__(self, worker=0, seed=0, tier="quick"):
        self.worker, self.seed, self.tier = worker, seed, tier
        self.data = {}


class Sim:
    """Handed to a property: creates schedulers for the phases of a run."""

    def __init__(self, spec, out):
        self.spec = spec
        self.out = out
        self.rng = random.Random("schedule/%s" % spec.get("sseed", 0))
        self.digest = hashlib.blake2b(digest_size=12)
        self.phase = 0

    def restore(self):
        """Put jaxfg's process-wide state back to what it was at the start."""
        if _pristine is not None:
            _pristine.restore()

    def note(self, *what):
        self.digest.update(repr(what).encode())

    def note_array(self, a):
        import numpy as np

        self.digest.update(np.ascontiguousarray(a).tobytes())

    def clients(self, fns, scheduled=True, faults=True, timeout=120.0):
        """Run client functions; returns the scheduler. Only one phase of a run
        is scheduled (has a recorded schedule)."""
        schedule = self.spec.get("schedule", {"mode": "explicit", "switches": []})
        if not scheduled:
            schedule = {"mode": "explicit", "switches": []}
        s = Scheduler(self.rng, schedule, self.spec.get("faults", []) if faults else [], timeout)
        self.sched = s
        try:
            s.run(fns)
        except Stuck as e:
            raise Violation("stuck", "no progress: %s" % e)
        out = self.out
        self.note(s.event_hash, s.decisions)
        out.yields += s.yields
        out.decisions += s.decisions
        for k, v in s.fault_counts.items():
            out.faults[k] = out.faults.get(k, 0) + v
        if scheduled:
            out.switches = s.switches
            out.switch_hash = s.switch_hash
            out.clients = max(out.clients, len(fns))
        if s.deadlock:
            raise Violation("deadlock", s.deadlock)
        for c in s.clients:
            if c.error is not None:
                raise c.error
        return s


_pristine = None


def _site(e):
    frames = traceback.extract_tb(e.__traceback__)
    ours = [f for f in frames if f.filename.startswith(("/repo/", "/verif/"))]
    return " < ".join(
        "%s:%d" % (f.filename.rsplit("/", 1)[-1], f.lineno) for f in reversed(ours[-4:])
    )


def save_process_state():
    global _pristine
    from .seams import ProcessState

    _pristine = ProcessState()


def run_spec(spec):
    """Execute one run. Returns an Outcome."""
    out = Outcome()
    p = prop(spec["property"])
    if _pristine is not None:
        _pristine.restore()
    sim = Sim(spec, out)
    try:
        if "setup" in spec:
            setup(spec)
        else:
            p.execute(spec, sim, out)
    except Violation as v:
        out.violation = {"class": v.cls, "message": v.message}
    except Exception as e:
        # Nothing here raises when jaxfg behaves.
        out.violation = {
            "class": "exception",
            "message": "%s: %s at %s" % (type(e).__name__, str(e)[:300], _site(e)),
        }
    sim.note(out.violation and out.violation["class"])
    out.digest = sim.digest.hexdigest()
    return out


def setup(spec):
    """What comes before a run; only executed again if it failed."""
    q = spec["setup"]
    ctx = Ctx(q["worker"], q["seed"], q["tier"])
    p = prop(spec["property"])
    p.warm(ctx)
    if q["run"] is not None:
        p.generate(random.Random(run_seed(q["seed"], spec["property"], q["worker"], q["run"])), ctx)


def ours(e):
    """Whether an exception comes out of jaxfg."""
    from .sched import REPO_PREFIX

    return any(f.filename.startswith(REPO_PREFIX) for f in traceback.extract_tb(e.__traceback__))


def explicit(spec, out):
    """The spec with the schedule that was actually taken."""
    new = json.loads(json.dumps(spec))
    new["schedule"] = {"mode": "explicit", "switches": out.switches}
    return new


def run_seed(seed, pid, worker, k):
    return "%s/%s/%d/%d" % (seed, pid, worker, k)


def prepare(pid, ctx, granularity):
    from . import sched

    p = prop(pid)
    if granularity != "none":
        sched.start_monitoring(granularity)
    p.warm(ctx)
    save_process_state()
    # Simulated collections look at objects of the runs only.
    gc.freeze()
    return p


def worker_main(pid, worker, seed, tier, granularity, budget, emit, only=None):
    """Generate and execute runs until done, a violation, or out of time."""
    start = time.time()
    ctx = Ctx(worker, seed, tier)

    def setup_failed(e, k):
        # Nothing that is done to prepare runs may fail.
        if not ours(e):
            raise e
        message = "before the first run" if k is None else "before run %d" % k
        spec = dict(property=pid, setup=dict(worker=worker, seed=seed, tier=tier, run=k), faults=[], schedule=dict(mode="explicit", switches=[]))
        vio = {"class": "exception", "message": "%s: %s: %s at %s" % (message, type(e).__name__, str(e)[:300], _site(e))}
        emit({"violation": vio, "run": k or 0, "spec": spec, "explicit": spec, "digest": ""})

    try:
        p = prepare(pid, ctx, granularity)
    except Exception as e:
        setup_failed(e, None)
        return
    n = p.runs[tier]
    stats = dict(runs=0, yields=0, decisions=0, faults={}, switches=0, info={})
    keys = set()
    hashes = set()
    samples = []
    emit({"warm_s": round(time.time() - start, 2)})
    for k in range(n) if only is None else only:
        if time.time() - start > budget:
            stats["out_of_time"] = True
            break
        rng = random.Random(run_seed(seed, pid, worker, k))
        try:
            spec = p.generate(rng, ctx)
        except Exception as e:
            setup_failed(e, k)
            return
        spec["property"] = pid
        spec.setdefault("sseed", "%s/%d/%d" % (seed, worker, k))
        spec = json.loads(json.dumps(spec))
        t = time.time()
        out = run_spec(spec)
        dt = time.time() - t
        stats["runs"] += 1
        stats["yields"] += out.yields
        stats["decisions"] += out.decisions
        stats["switches"] += len(out.switches)
        for f, c in out.faults.items():
            stats["faults"][f] = stats["faults"].get(f, 0) + c
        for f, c in out.info.items():
            stats["info"][f] = stats["info"].get(f, 0) + c
        if out.key is not None:
            keys.add(hashlib.blake2b(repr(out.key).encode(), digest_size=8).hexdigest())
        if out.switches:
            hashes.add(out.switch_hash)
        if len(samples) < 2 and out.key is not None:
            samples.append({"run": k, "spec": spec, "switches": out.switches[:40], "digest": out.digest})
        emit({"run": k, "digest": out.digest, "s": round(dt, 4)})
        if out.violation is not None:
            emit({"violation": out.violation, "run": k, "spec": spec, "explicit": explicit(spec, out), "digest": out.digest})
            break
        if k % 50 == 49:
            gc.unfreeze()
            gc.collect()
            gc.freeze()
    stats["keys"] = sorted(keys)
    stats["interleavings"] = sorted(hashes)
    stats["samples"] = samples
    stats["wall_s"] = time.time() - start
    emit({"stats": stats})


# -- replay and minimisation -------------------------------------------------------


def generic_shrink(spec):
    """Drop schedule entries and faults."""
    sw = spec.get("schedule", {}).get("switches", [])
    n = len(sw)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            new = json.loads(json.dumps(spec))
            new["schedule"]["switches"] = sw[:i] + sw[i + size :]
            yield new
        size //= 2
    fl = spec.get("faults", [])
    for i in range(len(fl)):
        new = json.loads(json.dumps(spec))
        new["faults"] = fl[:i] + fl[i + 1 :]
        yield new


def minimise(spec, cls, budget):
    """Greedy shrinking; keeps the violation class."""
    if "setup" in spec:
        return spec, 0
    p = prop(spec["property"])
    end = time.time() + budget
    best = spec
    tried = 0
    improved = True
    while improved and time.time() < end:
        improved = False
        for gen in (p.shrink, generic_shrink):
            again = True
            while again and time.time() < end:
                again = False
                for cand in gen(best):
                    if time.time() > end:
                        break
                    tried += 1
                    try:
                        out = run_spec(cand)
                    except Exception:
                        continue
                    if out.violation is not None and out.violation["class"] == cls:
                        best = explicit(cand, out)
                        again = improved = True
                        break
    return best, tried
