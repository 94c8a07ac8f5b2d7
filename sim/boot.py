"""Process setup. Import this before anything that imports jax or jaxfg."""

import gc
import os
import sys
import warnings

REPO = "/repo"
REPO_PREFIXES = (REPO + "/",)


def environment(x64: bool) -> dict:
    """Environment of a process that executes simulated runs."""
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu",
        JAX_ENABLE_X64="1" if x64 else "0",
        JAX_CPU_ENABLE_ASYNC_DISPATCH="0",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        MPLBACKEND="Agg",
        LANG="C.UTF-8",
        PYTHONPATH=REPO,
    )
    env.pop("JAX_COMPILATION_CACHE_DIR", None)
    env.pop("JAX_DISABLE_JIT", None)
    return env


def setup() -> None:
    """Prepare the interpreter; must run before jaxfg is imported."""
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    gc.disable()  # collections are simulated events
    import logging

    logging.disable(logging.CRITICAL)
    sys.setswitchinterval(1000.0)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import seams

    seams.install()
    import jax

    try:
        jax.config.update("jax_cpu_enable_async_dispatch", False)
    except Exception:
        pass
    from . import sched

    sched.watch_compilation()
    import jaxfg

    assert jaxfg.__file__.startswith(REPO + "/"), jaxfg.__file__
    warnings.simplefilter("ignore")
