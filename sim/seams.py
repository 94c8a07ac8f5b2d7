"""Replacements for what jaxfg uses of its surroundings."""

import _thread
import sys
import threading
import weakref

from .sched import REPO_PREFIX, Scheduler

_real_alloc = _thread.allocate_lock
_real_rlock = threading.RLock
real_stdout = sys.stdout
_SKIP = ("threading.py", "queue.py", "functools.py", "contextlib.py")


def _active():
    s = Scheduler.current
    if s is None:
        return None, None
    return s, s.me()


def seam(tag):
    """Yield point in simulator code."""
    s, c = _active()
    if c is not None and not c.in_hook:
        s.yield_point(c, tag)


_locks = weakref.WeakSet()


class SimLock:
    """A lock the scheduler knows about."""

    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        _locks.add(self)

    def _me(self):
        s, c = _active()
        return s, (c if c is not None else _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        client = s is not None and s.by_ident.get(_thread.get_ident()) is me
        if client and not me.in_hook:
            s.yield_point(me, b"lock")
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if not client:
                raise RuntimeError("simulated lock is held outside of a run")
            s.block(me, self)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s, me = self._me()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self._owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    # Used by threading.Condition.
    def _is_owned(self):
        return self._owner == self._me()[1]

    def _release_save(self):
        n, self._count = self._count, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._count = n


class SimRLock(SimLock):
    reentrant = True


def _from_repo():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.endswith(_SKIP):
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(REPO_PREFIX)


def _lock_factory():
    return SimLock() if _from_repo() else _real_alloc()


def _rlock_factory(*a, **k):
    return SimRLock() if _from_repo() else _real_rlock(*a, **k)


# -- CHOLMOD ------------------------------------------------------------------


def _cholmod_error(kind):
    import sksparse.cholmod as ch

    if kind == "npd":
        return ch.CholmodNotPositiveDefiniteError("simulated", 0)
    if kind == "oom":
        return ch.CholmodOutOfMemoryError("simulated")
    if kind == "mem":
        return MemoryError("simulated")
    raise AssertionError(kind)


def _library_call(name, fn, args, kwargs):
    s, c = _active()
    if c is None or c.in_hook:
        return fn(*args, **kwargs)
    tag = b"cholmod." + name.encode()
    s.yield_point(c, tag)
    c.op_calls += 1
    c.scratch["library_calls"] = c.scratch.get("library_calls", 0) + 1
    for f in c.faults:
        if f["kind"] == "cholmod" and f["call"] == c.op_calls:
            c.fired.append(f)
            s.count_fault("cholmod:%s@%s" % (f["exc"], name))
            s.log("cholmod fault", c.index, name, f["exc"])
            raise _cholmod_error(f["exc"])
    try:
        out = fn(*args, **kwargs)
    except Exception as e:
        c.scratch["library_error"] = type(e).__name__
        raise
    s.yield_point(c, tag + b" done")
    return out


class FactorProxy:
    """Wraps a CHOLMOD factor; every method call is a seam."""

    def __init__(self, factor):
        object.__setattr__(self, "_factor", factor)

    def __getattr__(self, name):
        value = getattr(self._factor, name)
        if not callable(value):
            return value

        def method(*args, **kwargs):
            return _wrap(_library_call(name, value, args, kwargs))

        return method

    def __call__(self, *args, **kwargs):
        return _wrap(_library_call("__call__", self._factor, args, kwargs))


_Factor = None


def _wrap(value):
    if isinstance(value, _Factor):
        return FactorProxy(value)
    return value


def _install_cholmod():
    global _Factor
    import sksparse.cholmod as ch

    _Factor = ch.Factor
    for name in ("analyze", "analyze_AAt", "cholesky", "cholesky_AAt"):
        real = getattr(ch, name)

        def call(*args, _name=name, _real=real, **kwargs):
            return _wrap(_library_call(_name, _real, args, kwargs))

        call.__name__ = name
        setattr(ch, name, call)


# -- standard output ------------------------------------------------------------


class SimStdout:
    """Collects output per client; can fail."""

    encoding = "utf-8"

    def __init__(self):
        self.chunks = []  # (client index or None, text)

    def write(self, text):
        s, c = _active()
        if c is None:
            self.chunks.append((None, text))
            return len(text)
        s.yield_point(c, b"stdout")
        c.op_writes += 1
        for f in c.faults:
            if f["kind"] == "stdout" and f["write"] <= c.op_writes < f["write"] + f.get(
                "count", 1
            ):
                c.fired.append(f)
                s.count_fault("stdout:" + f["exc"])
                s.log("stdout fault", c.index, c.op_writes)
                if f["exc"] == "BrokenPipe":
                    raise BrokenPipeError(32, "simulated")
                raise OSError(28, "simulated: no space left on device")
        self.chunks.append((c.index, text))
        return len(text)

    def flush(self):
        seam(b"stdout.flush")

    def isatty(self):
        return False

    def text(self, client=None):
        return "".join(t for c, t in self.chunks if client is None or c == client)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._allocate_lock = _lock_factory
    _install_cholmod()


# -- process-wide state of jaxfg -----------------------------------------------

_CONTAINERS = (dict, list, set, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)


def _is_cache(value):
    """A `functools` cache."""
    return callable(getattr(value, "cache_clear", None)) and callable(getattr(value, "cache_info", None))


def _module_containers():
    """Mutable containers that live as long as the process, and `functools` caches."""
    import types

    out = []
    seen = set()

    def visit(namespace, owner):
        for name, value in list(namespace.items()):
            if name.startswith("__"):
                continue
            value = getattr(value, "__func__", value)
            if (isinstance(value, _CONTAINERS) or _is_cache(value)) and id(value) not in seen:
                seen.add(id(value))
                out.append(value)

    for name, module in sorted(sys.modules.items()):
        if name != "jaxfg" and not name.startswith("jaxfg."):
            continue
        visit(vars(module), name)
        for cname, value in list(vars(module).items()):
            if isinstance(value, type) and value.__module__.startswith("jaxfg"):
                visit(
                    {k: v for k, v in vars(value).items() if not isinstance(v, types.FunctionType)},
                    cname,
                )
    return out


class ProcessState:
    """Snapshot of jaxfg's process-wide containers."""

    def __init__(self):
        found = _module_containers()
        self.saved = [(c, type(c), self._copy(c)) for c in found if not _is_cache(c)]
        # What such a cache holds cannot be saved, but it can be emptied again.
        self.empty = [c for c in found if _is_cache(c) and c.cache_info().currsize == 0]

    @staticmethod
    def _copy(c):
        return list(c) if isinstance(c, (list, set)) else dict(c)

    def restore(self):
        for lock in list(_locks):
            lock._owner, lock._count = None, 0
        for c in self.empty:
            c.cache_clear()
        for c, _, saved in self.saved:
            if isinstance(c, dict):
                c.clear()
                c.update(saved)
            elif isinstance(c, list):
                c[:] = saved
            else:
                c.clear()
                c.update(saved)
