"""Timing of blocks, with simulated clocks."""

import json
import re
import sys
import time

from .. import seams
from ..harness import Violation
from ..sched import Scheduler
from .c01 import Property as C01, _short

import jaxfg

NUMBER = re.compile(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?")
ESCAPE = re.compile("\x1b\\[[0-9;]*m")
EPOCH = 1.7e9


class Boom(Exception):
    pass


class Clock:
    """Time that passes when clients say so, and a wall clock that can be set."""

    NAMES = ("time", "monotonic", "perf_counter", "process_time", "thread_time", "time_ns", "monotonic_ns", "perf_counter_ns")

    def __init__(self):
        self.now = 0.0
        self.busy = 0.0  # time of the processor; waiting does not count
        self.offset = EPOCH
        self.saved = {n: getattr(time, n) for n in self.NAMES}

    def read(self, name):
        real = self.saved[name]
        base = name[:-3] if name.endswith("_ns") else name
        unit = 1e9 if name.endswith("_ns") else None

        def clock():
            s = Scheduler.current
            c = s.me() if s is not None else None
            if c is None:
                return real()
            s.yield_point(c, b"clock")
            if base in ("process_time", "thread_time"):
                t = self.busy
            else:
                t = self.now + {"time": self.offset, "monotonic": 5000.0, "perf_counter": 77.0}[base]
            return int(t * unit) if unit else t

        return clock

    def __enter__(self):
        self.undo = []
        for n, f in self.saved.items():
            new = self.read(n)
            # Also where it was imported by name.
            for m in [time] + [m for k, m in sorted(sys.modules.items()) if k.split(".")[0] == "jaxfg"]:
                for k, v in list(vars(m).items()):
                    if v is f:
                        setattr(m, k, new)
                        self.undo.append((m, k, f))
        return self

    def __exit__(self, *_):
        for m, k, f in self.undo:
            setattr(m, k, f)


class Property(C01):
    id = "C16"
    runs = {"quick": 1500, "thorough": 20000}

    def warm(self, ctx):
        pass

    def touch(self, spec):
        pass

    def block(self, rng, depth=0):
        """A timed block: a list of things that happen in it."""
        body = []
        for _ in range(rng.randint(0, 4)):
            r = rng.random()
            if r < 0.5:
                body.append(["pass", rng.choice([0.0, 0.001, 0.25, 3.0, 100.0, 86400.0])])
            elif r < 0.7:
                body.append(["set", rng.choice([-3600.0, -1.0, -1e-3, 0.5, 7200.0, 1e6, -1e6])])
            elif r < 0.85 and depth < 2:
                body.append(["block", self.block(rng, depth + 1)])
            else:
                body.append(["print", "block %d" % rng.randrange(10)])
        if rng.random() < 0.15:
            body.append(["raise", rng.randrange(100)])
        return body

    def generate(self, rng, ctx):
        clients = [[self.block(rng) for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([1, 1, 2, 3]))]
        faults = []
        if rng.random() < 0.2:
            c = rng.randrange(len(clients))
            faults.append(
                dict(kind="stdout", client=c, op=rng.randrange(len(clients[c])), write=rng.randint(1, 20), count=rng.choice([1, 1000]),
                     exc=rng.choice(["BrokenPipe", "NoSpace"]))
            )
        return dict(clients=clients, schedule=dict(mode="random", p=rng.choice([0.05, 0.3, 0.6])), faults=faults)

    def execute(self, spec, sim, out):
        found = []
        stdout = seams.SimStdout()
        clock = Clock()
        counts = dict(blocks=0, sets=0, failed=0)

        def said(c, since):
            return ESCAPE.sub("", "".join(t for i, t in stdout.chunks[since:] if i == c.index))

        def timed(c, body, label):
            """Runs a timed block and compares what is printed."""
            before = len(stdout.chunks)
            least = most = 0  # durations that are printed
            start = clock.now
            entered = left = None
            begun = ""
            error = None
            try:
                with jaxfg.utils.stopwatch(label):
                    entered = clock.now
                    begun = said(c, before)
                    for what, x in body:
                        if what == "pass":
                            clock.now += x
                            clock.busy += x if int(x) % 2 else 0.0
                            sim.sched.yield_point(c, b"work")
                        elif what == "set":
                            clock.offset += x
                            counts["sets"] += 1
                            sim.sched.count_fault("clock set back" if x < 0 else "clock set forward")
                        elif what == "print":
                            print(x)
                        elif what == "block":
                            a, b = timed(c, x, label + "'")
                            least, most = least + a, most + b
                        else:
                            counts["failed"] += 1
                            raise Boom(x)
                    left = clock.now
            except Exception as e:
                error = e
            after = clock.now
            raises = [x for what, x in body if what == "raise"]
            if error is not None and not any(f["kind"] == "stdout" for f in c.fired):
                if not raises or not isinstance(error, Boom) or error.args != (raises[0],):
                    found.append(Violation("raised", "a timed block raised %s" % _short(error)))
            elif raises and error is None and entered is not None:
                found.append(Violation("swallowed", "the exception of a timed block was lost"))
            if entered is None and error is None:
                found.append(Violation("skipped", "the block was not executed"))
            counts["blocks"] += 1
            text = said(c, before)
            if entered is not None and not any(f["kind"] == "stdout" for f in c.fired):
                if begun.count(label) != 1:
                    found.append(Violation("unannounced", "a timed block began before its label was printed once"))
                elif "second" in begun:
                    found.append(Violation("early", "a duration was printed before the block"))
            if left is not None and error is None and not any(f["kind"] == "stdout" for f in c.fired):
                # The last number with a unit belongs to this block: inner ones printed before.
                seconds = [line for line in text.splitlines() if "second" in line]
                least, most = least + 1, most + 1
                if not least <= len(seconds) <= most:
                    found.append(Violation("count", "%d durations for %d blocks" % (len(seconds), most)))
                if not seconds:
                    found.append(Violation("silent", "a timed block printed no duration"))
                else:
                    t = float(NUMBER.findall(seconds[-1])[0])
                    sim.note(round(t, 3))
                    # Other clients may let time pass between the block and the clock.
                    if not (left - entered) - 1e-4 <= t <= (after - start) + 1e-4:
                        found.append(
                            Violation("duration", "a block that took %.6g s was reported to take %.6g s" % (left - entered, t))
                        )
            else:
                most += 1
            if isinstance(error, OSError):
                c.scratch["reported"] = True
            return least, most

        def client(i, blocks):
            def go(c):
                for j, body in enumerate(blocks):
                    sim.sched.begin_op(c, j)
                    label = "%d/%d" % (i, j)
                    c.scratch["reported"] = False
                    timed(c, body, label)
                    if any(f["kind"] == "stdout" for f in c.fired) and not c.scratch["reported"]:
                        found.append(Violation("unreported", "a timed block hid that its output could not be written"))
                    sim.sched.end_op(c)

            return go

        saved = sys.stdout
        sys.stdout = stdout
        try:
            with clock:
                sim.clients([client(i, b) for i, b in enumerate(spec["clients"])])
        finally:
            sys.stdout = saved
        if found:
            raise found[0]
        out.info.update(counts)
        if counts["sets"] or counts["failed"]:
            out.key = (json.dumps(spec["clients"]), json.dumps(spec["faults"]), out.switch_hash)

    def shrink(self, spec):
        yield from super().shrink(spec)
        for i, seq in enumerate(spec["clients"]):
            for j, body in enumerate(seq):
                for k in range(len(body)):
                    new = json.loads(json.dumps(spec))
                    del new["clients"][i][j][k]
                    yield new
