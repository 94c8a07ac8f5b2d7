"""Static description of the checks (no jax needed here)."""

COMMON = [
    "XLA on CPU executes computations and host callbacks on the calling thread",
    "only the interleavings at Python lines or instructions of /repo code and at the simulated seams are explored, not those inside C libraries",
]
REAL = ["jaxfg", "JAX/XLA CPU", "jaxlie", "CHOLMOD", "scipy"]


def entry(rule, note, workers=8, configs=None, stub=(), assumptions=()):
    return dict(
        rule=rule, note=note, workers=workers,
        configs=configs or [dict(x64=True, granularity="line")],
        stub=list(stub), real=REAL, assumptions=COMMON + list(assumptions),
    )


LINE = dict(x64=True, granularity="line")
INSTR = dict(x64=True, granularity="instruction")
LINE32 = dict(x64=False, granularity="line")
NONE = dict(x64=True, granularity="none")
NONE32 = dict(x64=False, granularity="none")

TABLE = {
    "C01": entry(
        "a run is 2-4 clients with 1-3 calls each on shared objects; non-trivial if at least two calls overlapped (a context switch happened inside a call); distinct by problem, calls and interleaving hash",
        "seeded random and priority schedules of real threads; not exhaustive",
        configs=[LINE, LINE, LINE, LINE, LINE, INSTR, LINE32, LINE],
        stub=["thread schedule"],
    ),
    "C02": entry(
        "a run is a history of 3-12 operations by one client; non-trivial if solves or linear solves of at least two different problems occur in it; distinct by problems and history",
        "seeded random histories against an independent numpy model; not exhaustive",
        configs=[NONE],
        stub=["cache eviction, garbage collection and object addresses (chosen by the history)"],
    ),
    "C03": entry(
        "a run is 1-3 clients with 1-3 calls each, once fault-free, once with 1-3 faults, once more fault-free; non-trivial if at least one fault hit; distinct by problem, calls, faults and interleaving hash",
        "seeded random faults and schedules; every fault position up to a bound is possible, not exhaustive",
        configs=[LINE, LINE, LINE, LINE, LINE, LINE, LINE32, LINE],
        stub=["thread schedule", "errors of the factorization library", "interrupts and memory errors"],
    ),
    "C04": entry(
        "a run is one recorded solve with a fault plan; every run is non-trivial (it executes at least one iteration); distinct by problem, initial estimate, settings, fault plan and accept/reject history",
        "seeded random fault sequences against an independent numpy model; not exhaustive",
        configs=[NONE, NONE, NONE, NONE, NONE, NONE, NONE, NONE32],
        stub=["answers of the linear solver (faulty ones)"],
    ),
    "C05": entry(
        "a run is one recorded solve with a fault plan; every run is non-trivial (it executes at least one iteration); distinct by problem, initial estimate, settings, fault plan and accept/reject history",
        "seeded random fault sequences against an independent numpy model; not exhaustive",
        configs=[NONE],
        stub=["answers of the linear solver (faulty ones)"],
    ),
    "C06": entry(
        "a run is one recorded solve with a fault plan; every run is non-trivial (it executes at least one iteration); distinct by problem, initial estimate, settings, fault plan and accept/reject history",
        "seeded random fault sequences against an independent numpy model; not exhaustive",
        configs=[NONE],
        stub=["answers of the linear solver (faulty ones)"],
    ),
    "C07": entry(
        "a run is one recorded solve with a fault plan; every run is non-trivial (it executes at least one iteration); distinct by problem, initial estimate, settings, fault plan and accept/reject history",
        "seeded random fault sequences against an independent numpy model; not exhaustive",
        configs=[NONE],
        stub=["answers of the linear solver (faulty ones)"],
    ),
    "C08": entry(
        "a run is 1-3 clients with 1-3 verbose or silent solves each, with faulty steps and failing output; non-trivial if at least one line was written; distinct by problems, solves, faults and interleaving hash",
        "seeded random schedules and faults against an independent numpy model; not exhaustive",
        configs=[LINE],
        stub=["thread schedule", "standard output", "answers of the linear solver (faulty ones)"],
    ),
    "C09": entry(
        "a run is 1-3 clients with histories of operations on shared value assignments, with interrupts; non-trivial if at least one update happened; distinct by problem, histories, faults and interleaving hash",
        "seeded random histories and schedules against a dictionary model; not exhaustive",
        configs=[LINE],
        stub=["thread schedule", "interrupts and memory errors"],
    ),
    "C10": entry(
        "a run is 2-4 clients that create and look up variable types and representatives, with interrupts; non-trivial if a context switch happened inside a call; distinct by calls, faults and interleaving hash",
        "seeded random schedules at lines and at instructions; not exhaustive",
        configs=[LINE, INSTR],
        stub=["thread schedule", "interrupts and memory errors"],
    ),
    "C11": entry(
        "a run is 1-3 clients that query a shared sparse covariance in some order, with interrupts and exhausted stacks; non-trivial if at least two queries happened; distinct by problem, queries, faults and interleaving hash",
        "seeded random histories and schedules against dense inversion; not exhaustive",
        configs=[LINE],
        stub=["thread schedule", "interrupts, memory errors and the limit of the stack"],
    ),
    "C12": entry(
        "a run is 1-3 producers that feed factors to a consumer that builds a graph from them, sometimes with a failure of a producer; every run is non-trivial (an arrival order decided by the schedule is built); distinct by problem, arrival order, initial estimate, order of assignments and solver",
        "seeded random arrival orders against an independent numpy model; not exhaustive",
        configs=[LINE],
        stub=["thread schedule", "transport of the factors"],
    ),
    "C13": entry(
        "a run is a batch of 2-4 solves with a fault plan for each member; every run is non-trivial (each member executes at least one iteration); distinct by problems, settings and fault plans",
        "seeded random batches and faults against the same solves one by one; not exhaustive",
        configs=[NONE],
        stub=["answers of the linear solver (faulty ones)"],
    ),
    "C14": entry(
        "a run is one solve (in one go or in portions that are retried) with a burst of faults; every run is non-trivial (it executes at least one iteration); distinct by problem, initial estimate, settings, fault plan",
        "seeded random fault sequences against an independent numpy model; not exhaustive",
        configs=[NONE],
        stub=["answers of the linear solver (faulty ones)"],
    ),
    "C15": entry(
        "a run is 1-3 clients that load 1-3 files each through simulated storage; non-trivial if at least one fault hit or two files were loaded; distinct by files, faults and interleaving hash",
        "seeded random files, storage faults and schedules against an independent parser; not exhaustive",
        configs=[LINE],
        stub=["thread schedule", "storage", "interrupts and memory errors"],
    ),
    "C16": entry(
        "a run is 1-3 clients that time nested blocks while clocks are set, blocks fail and output fails; non-trivial if the clock was set or a block failed while a block was timed; distinct by blocks, faults and interleaving hash",
        "seeded random schedules against the simulated time; not exhaustive",
        configs=[LINE],
        stub=["thread schedule", "clocks", "standard output"],
    ),
    "C17": entry(
        "a run is a solve in one go, the same solve in 2 other incarnations, and the same solve in segments that crash and are repeated; every run is non-trivial (it compares at least two incarnations); distinct by problem, settings, incarnations, segments and faults",
        "seeded random stops and crashes; incarnations have other object addresses, or are processes with another hash seed; not exhaustive",
        configs=[LINE],
        stub=["saved state", "object addresses (chosen by the run)", "errors of the factorization library", "interrupts and memory errors"],
    ),
    "C19": entry(
        "a run is 1-3 sessions of 4-10 steps each on shared graphs, once one at a time, once overlapping and with faults; every run is non-trivial (an estimate is carried through at least 4 steps); distinct by problem, steps, faults and interleaving hash",
        "seeded random sessions, faults and schedules against an independent numpy model; not exhaustive",
        configs=[LINE],
        stub=["thread schedule", "errors of the factorization library", "interrupts and memory errors"],
    ),
    "C20": entry(
        "a run is 1-2 clients with 1-3 functions each that work with jaxfg and are compiled, mapped, scanned, differentiated or only traced, some abandoned by an error of the caller or an interrupt while they are traced, and the same work again afterwards; every run is non-trivial (at least one function is traced and repeated); distinct by problem, functions and faults",
        "seeded random programs and faults against an independent numpy model; not exhaustive",
        configs=[LINE],
        stub=["thread schedule", "errors of the caller's function", "interrupts and memory errors"],
    ),
    "C21": entry(
        "a run is 1-3 starts of the pose graph program with a simulated command line, file, output and factorization library, most hit by a fault; every run is non-trivial (the program runs at least once); distinct by files, options and faults",
        "seeded random files, options and faults against an independent reader and solver model; not exhaustive",
        configs=[LINE],
        stub=["command line", "file system", "standard output", "display of the figure", "errors of the factorization library", "interrupts and memory errors"],
    ),
    "C18": entry(
        "a run is 8 rounds of the same 1-4 operations with new objects, with faults; every run is non-trivial (at least one operation is repeated); distinct by problem, operations and faults",
        "seeded random operations and faults; growth is followed for 150 more rounds before it is reported; not exhaustive",
        configs=[LINE],
        stub=["garbage collection", "errors of the factorization library", "interrupts and memory errors", "standard output"],
    ),
}


def config(pid, worker):
    c = TABLE[pid]["configs"]
    return c[worker % len(c)]
