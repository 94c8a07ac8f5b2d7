"""Deterministic scheduler: real threads, one baton.

Only the client that holds the baton runs. At each yield point a decision is
taken from the PRNG (or from an explicit list, when replaying). Decisions are
numbered; the ones that change the running client are recorded.
"""

import _thread
import dis
import sys
import threading
import zlib

_alloc = _thread.allocate_lock  # the real one, before any patching
_get_ident = _thread.get_ident

REPO_PREFIX = "/repo/"
NO_YIELD_FUNCTIONS = frozenset(["__eq__", "__hash__", "__repr__", "__del__"])


class SimAbort(BaseException):
    """Unwinds a client when the run is over (deadlock, budget)."""


class Stuck(Exception):
    """The run made no progress in real time."""


EXCEPTIONS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
}


class Client:
    def __init__(self, index, fn):
        self.index = index
        self.fn = fn
        self.baton = _alloc()
        self.baton.acquire()
        self.state = "ready"  # ready / blocked / done
        self.blocked_on = None
        self.error = None
        self.in_hook = False
        # Per-operation counters and faults.
        self.op = None
        self.op_lines = 0
        self.op_calls = 0
        self.op_writes = 0
        self.op_traced = 0
        self.faults = []
        self.fired = []
        self.cold = False  # the operation compiled something
        self.stack_limit = None  # (fault, frames)
        self.scratch = {}


class Scheduler:
    current = None  # the active scheduler of this process

    def __init__(self, rng, schedule, faults=(), real_timeout=120.0):
        self.rng = rng
        self.mode = schedule.get("mode", "random")
        self.p = schedule.get("p", 0.1)
        self.explicit = {int(k): int(v) for k, v in schedule.get("switches", [])}
        self.depth = schedule.get("depth", 3)
        self.horizon = schedule.get("horizon", 400)
        self.max_decisions = 400000
        self.faults = list(faults)
        self.clients = []
        self.by_ident = {}
        self.decisions = 0
        self.yields = 0
        self.switches = []
        self.switch_hash = 0
        self.event_hash = 0
        self.deadlock = None
        self.aborting = False
        self.fault_counts = {}
        self.real_timeout = real_timeout
        self.finished = _alloc()
        self.prio = None
        self.change_points = None

    # -- logging -----------------------------------------------------------

    def log(self, *what):
        data = repr(what).encode()
        self.event_hash = zlib.crc32(data, self.event_hash)

    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # -- running -----------------------------------------------------------

    def run(self, fns):
        """Run one client per function until all are done."""
        assert Scheduler.current is None
        self.clients = [Client(i, fn) for i, fn in enumerate(fns)]
        if self.mode == "pct":
            self.prio = list(range(len(fns)))
            self.rng.shuffle(self.prio)
            self.change_points = {
                self.rng.randrange(1, self.horizon): -i - 1 for i in range(self.depth)
            }
        self.finished.acquire()
        threads = [
            threading.Thread(target=self._body, args=(c,), daemon=True)
            for c in self.clients
        ]
        Scheduler.current = self
        try:
            for t in threads:
                t.start()
            first = self._pick(None)
            first.baton.release()
            if not self.finished.acquire(timeout=self.real_timeout):
                raise Stuck(self._where())
            for t in threads:
                t.join(30.0)
        finally:
            Scheduler.current = None
        return self.clients

    def _where(self):
        frames = sys._current_frames()
        out = []
        for c in self.clients:
            names = []
            for ident, cc in self.by_ident.items():
                if cc is c and ident in frames:
                    f = frames[ident]
                    while f is not None and len(names) < 12:
                        names.append(
                            "%s:%d" % (f.f_code.co_filename.split("/")[-1], f.f_lineno)
                        )
                        f = f.f_back
            out.append("client %d %s %s" % (c.index, c.state, " < ".join(names)))
        return "; ".join(out)

    def _body(self, c):
        self.by_ident[_get_ident()] = c
        c.baton.acquire()
        try:
            if not self.aborting:
                c.fn(c)
        except SimAbort:
            pass
        except BaseException as e:  # a bug of the property code, reported by caller
            c.error = e
        finally:
            c.state = "done"
            self._leave(c)

    def _leave(self, c):
        nxt = self._pick(c, forced=True)
        if nxt is None:
            blocked = [x for x in self.clients if x.state == "blocked"]
            if blocked:
                self._abort_blocked(blocked)
                blocked[0].baton.release()
            else:
                self.finished.release()
            return
        nxt.baton.release()

    def _abort_blocked(self, blocked):
        if self.deadlock is None:
            self.deadlock = "clients %s wait for locks forever" % [
                b.index for b in blocked
            ]
        self.aborting = True

    # -- decisions ---------------------------------------------------------

    def _runnable(self):
        return [c for c in self.clients if c.state == "ready"]

    def _pick(self, c, forced=True):
        """Choose who continues. `c` is the client giving up the baton, if any."""
        ready = self._runnable()
        k = self.decisions
        self.decisions += 1
        if not ready:
            return None
        if self.mode == "explicit":
            want = self.explicit.get(k)
            if want is not None:
                for r in ready:
                    if r.index == want:
                        return self._record(k, c, r, forced)
            if not forced:
                return c
            return self._record(k, c, ready[0], forced)
        if len(ready) == 1:
            return self._record(k, c, ready[0], forced)
        if self.mode == "pct":
            if k in self.change_points and c is not None:
                self.prio[c.index] = self.change_points[k]
            best = max(ready, key=lambda r: self.prio[r.index])
            return self._record(k, c, best, forced)
        if not forced:
            if self.rng.random() >= self.p:
                return c
            others = [r for r in ready if r is not c]
            return self._record(k, c, self.rng.choice(others), forced)
        return self._record(k, c, self.rng.choice(ready), forced)

    def _record(self, k, c, nxt, forced):
        if nxt is not c:
            self.switches.append([k, nxt.index])
        return nxt

    def me(self):
        return self.by_ident.get(_get_ident())

    def yield_point(self, c, tag):
        """A point where another client may run. Called by client `c`."""
        if self.aborting:
            raise SimAbort()
        self.yields += 1
        self.event_hash = zlib.crc32(tag, self.event_hash)
        if c.cold or self.decisions >= self.max_decisions:
            return
        nxt = self._pick(c, forced=False)
        if nxt is c:
            return
        self.switch_hash = zlib.crc32(
            tag + b"|%d>%d" % (c.index, nxt.index), self.switch_hash
        )
        nxt.baton.release()
        c.baton.acquire()
        if self.aborting:
            raise SimAbort()

    def block(self, c, on):
        """Client `c` cannot continue until `unblock`."""
        c.state = "blocked"
        c.blocked_on = on
        nxt = self._pick(c, forced=True)
        if nxt is None:
            self._abort_blocked([x for x in self.clients if x.state == "blocked"])
            raise SimAbort()
        nxt.baton.release()
        c.baton.acquire()
        if self.aborting:
            raise SimAbort()

    def unblock(self, on):
        for x in self.clients:
            if x.state == "blocked" and x.blocked_on is on:
                x.state = "ready"
                x.blocked_on = None

    # -- operations and faults ---------------------------------------------

    def begin_op(self, c, op):
        c.op = op
        c.op_lines = c.op_calls = c.op_writes = c.op_traced = 0
        c.fired = []
        c.cold = False
        c.faults = [
            f for f in self.faults if f.get("client", 0) == c.index and f.get("op") == op
        ]
        self.log("op", c.index, op)

    def end_op(self, c):
        c.op = None
        c.faults = []

    def traced_line(self, c):
        """A line while the caller's function is traced: no yield, but faults."""
        c.op_traced += 1
        for f in c.faults:
            if f["kind"] == "trace" and f["at"] <= c.op_traced and f not in c.fired and not _cleaning_up():
                c.fired.append(f)
                self.count_fault("interrupted trace:" + f["exc"])
                self.log("trace", c.index, c.op_traced)
                raise EXCEPTIONS[f["exc"]]("simulated")

    def at_line(self, c, tag):
        c.op_lines += 1
        for f in c.faults:
            if f["kind"] == "interrupt" and f["at"] <= c.op_lines and f not in c.fired and not _cleaning_up():
                c.fired.append(f)
                self.count_fault("interrupt:" + f["exc"])
                self.log("interrupt", c.index, c.op_lines)
                raise EXCEPTIONS[f["exc"]]("simulated")
        if c.stack_limit is not None:
            fault, limit = c.stack_limit
            if _depth(limit) >= limit:
                c.fired.append(fault)
                self.count_fault("stack exhausted")
                self.log("stack", c.index, c.op_lines)
                raise RecursionError("simulated")
        self.yield_point(c, tag)


_cleanup_lines = {}


def _cleaning_up():
    """Whether the interrupted code is about to leave a `with` or `finally` block or to
    enter one. Python itself raises interrupts after calls, that is inside the block."""
    f = sys._getframe(2)
    while f is not None and not f.f_code.co_filename.startswith(REPO_PREFIX):
        f = f.f_back
    if f is None:
        return False
    code = f.f_code
    if code not in _cleanup_lines:
        ops = list(dis.get_instructions(code))
        at = {x.offset: i for i, x in enumerate(ops)}
        lines = {x.offset: x.positions.lineno for x in ops}
        found = set()
        for e in dis._parse_exception_table(code):
            i = at[e.target]
            if [x.opname for x in ops[i : i + 3]] == ["COPY", "POP_EXCEPT", "RERAISE"]:
                found.update(n for o, n in lines.items() if e.start <= o < e.end)
        nops = [i for i, x in enumerate(ops) if x.opname == "NOP"]
        enter = {ops[i].offset for i in nops} | {ops[i - 1].offset for i in nops if i and ops[i - 1].opname == "POP_TOP"}
        _cleanup_lines[code] = found, enter
    found, enter = _cleanup_lines[code]
    return f.f_lineno in found or f.f_lasti in enter


def _depth(most):
    f, n = sys._getframe(1), 0
    while f is not None and n < most:
        n += 1
        f = f.f_back
    return n


# -- line / instruction monitoring -------------------------------------------

_TOOL = 3
_tags = {}
_trace_clean = None


def _tracing():
    return not _trace_clean()


def _on_line(code, line):
    if not code.co_filename.startswith(REPO_PREFIX):
        return sys.monitoring.DISABLE
    s = Scheduler.current
    if s is None:
        return None
    c = s.by_ident.get(_get_ident())
    if c is None or c.in_hook or code.co_name in NO_YIELD_FUNCTIONS:
        return None
    c.in_hook = True
    try:
        if not _trace_clean():
            if c.faults:
                s.traced_line(c)
            return None
        key = (code, line)
        tag = _tags.get(key)
        if tag is None:
            tag = _tags[key] = (
                "%s:%s:%d" % (code.co_filename[len(REPO_PREFIX) :], code.co_name, line)
            ).encode()
    finally:
        c.in_hook = False
    s.at_line(c, tag)
    return None


def _on_compile(event, duration=0.0, **_):
    # JAX makes other threads wait until the first call of a compiled function
    # has returned, so an operation that compiles is not preempted any more.
    s = Scheduler.current
    c = s.me() if s is not None else None
    if c is not None and "compile" in event:
        c.cold = True


def watch_compilation():
    import jax.monitoring

    jax.monitoring.register_event_duration_secs_listener(_on_compile)


def start_monitoring(granularity):
    """`line` or `instruction`."""
    global _trace_clean
    from jax._src import core as jax_core

    _trace_clean = jax_core.trace_state_clean
    m = sys.monitoring
    m.use_tool_id(_TOOL, "sim")
    if granularity == "instruction":
        m.register_callback(_TOOL, m.events.INSTRUCTION, _on_line)
        m.set_events(_TOOL, m.events.INSTRUCTION)
    elif granularity == "line":
        m.register_callback(_TOOL, m.events.LINE, _on_line)
        m.set_events(_TOOL, m.events.LINE)
    else:
        assert granularity == "none"
