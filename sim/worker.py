"""Entry point of simulation processes: python -m sim.worker '<json>'"""

import json
import os
import sys


def main():
    cfg = json.loads(sys.argv[1])
    fd = os.dup(1)
    out = os.fdopen(fd, "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)

    def emit(obj):
        out.write(json.dumps(obj) + "\n")
        out.flush()

    from sim import boot

    boot.setup()
    from sim import harness

    if cfg["cmd"] == "work":
        harness.worker_main(
            cfg["property"], cfg["worker"], cfg["seed"], cfg["tier"], cfg["granularity"],
            cfg["budget"], emit, cfg.get("only"),
        )
    elif cfg["cmd"] == "replay":
        with open(cfg["file"]) as f:
            replay = json.load(f)
        from sim import sched

        if replay["config"]["granularity"] != "none":
            sched.start_monitoring(replay["config"]["granularity"])
        for spec in replay["runs"]:
            if "setup" not in spec:
                harness.prop(spec["property"]).touch(spec)
        harness.save_process_state()
        result = None
        for spec in replay["runs"]:
            result = harness.run_spec(spec)
            if result.violation is not None:
                break
        emit({"violation": result.violation, "digest": result.digest, "faults": result.faults,
              "switches": result.switches})
    elif cfg["cmd"] == "minimise":
        with open(cfg["file"]) as f:
            replay = json.load(f)
        from sim import sched

        if replay["config"]["granularity"] != "none":
            sched.start_monitoring(replay["config"]["granularity"])
        if "setup" not in replay["runs"][-1]:
            harness.prop(replay["runs"][-1]["property"]).touch(replay["runs"][-1])
        harness.save_process_state()
        best, tried = harness.minimise(replay["runs"][-1], replay["class"], cfg["budget"])
        emit({"spec": best, "tried": tried})
    out.flush()
    # Skip interpreter teardown: client threads of an abandoned run may still exist.
    os._exit(0)


if __name__ == "__main__":
    try:
        main()
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
