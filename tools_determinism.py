#!/usr/bin/env python3
"""Executes the first runs of checks twice, in processes that differ in their hash
seed, and compares the digests of all events: tools_determinism.py [N] [ID ...]"""

import concurrent.futures
import json
import os
import subprocess
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import boot, table  # noqa: E402


def digests(pid, worker, n, hashseed):
    config = table.config(pid, worker)
    cfg = dict(cmd="work", property=pid, worker=worker, seed=os.environ.get("VERIF_SEED", "1"), tier="quick",
               granularity=config["granularity"], budget=600, only=list(range(n)))
    r = subprocess.run(["/opt/venv/bin/python", "-m", "sim.worker", json.dumps(cfg)], cwd=HERE,
                       env=dict(boot.environment(config["x64"]), PYTHONHASHSEED=hashseed), capture_output=True, text=True)
    assert r.returncode == 0, r.stderr[-2000:]
    return [m["digest"] for m in map(json.loads, r.stdout.splitlines()) if "s" in m]


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 10
    ids = sys.argv[2:] or list(table.TABLE)
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        jobs = [(p, w, [pool.submit(digests, p, w, n, h) for h in ("0", "12345")]) for p in ids for w in (0, 7)]
        for p, w, (a, b) in jobs:
            a, b = a.result(), b.result()
            same = sum(x == y for x, y in zip(a, b))
            print("%s worker %d: %d of %d runs identical" % (p, w, same, n), flush=True)
            bad += same != n
    sys.exit(bad > 0)


if __name__ == "__main__":
    main()
