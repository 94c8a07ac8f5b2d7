#!/usr/bin/env python3
"""Run the check of one property, or replay a recorded violation.

    python3 check.py C01            (VERIF_SEED, VERIF_TIER)
    python3 check.py --replay FILE
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sim import boot, table  # noqa: E402


def spawn(cfg, x64, cwd=HERE):
    env = boot.environment(x64)
    return subprocess.Popen(
        [PYTHON, "-m", "sim.worker", json.dumps(cfg)],
        cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )


class Worker:
    def __init__(self, cfg, x64):
        self.cfg, self.x64 = cfg, x64
        self.messages = []
        self.stderr = ""
        self.p = spawn(cfg, x64)
        self.t1 = threading.Thread(target=self._read, daemon=True)
        self.t2 = threading.Thread(target=self._err, daemon=True)
        self.t1.start()
        self.t2.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                self.messages.append(json.loads(line))
            except ValueError:
                pass

    def _err(self):
        self.stderr = self.p.stderr.read()

    def find(self, key):
        for m in self.messages:
            if key in m:
                return m
        return None

    def wait(self, timeout):
        try:
            self.p.wait(max(0.1, timeout))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.t1.join(5)
        self.t2.join(5)
        return self.p.returncode


def one(cfg, x64, timeout):
    w = Worker(cfg, x64)
    code = w.wait(timeout)
    return code, w


def replay_file(path, timeout=300):
    """Run a replay file in a fresh process. Returns (violation or None, digest)."""
    with open(path) as f:
        data = json.load(f)
    code, w = one({"cmd": "replay", "file": os.path.abspath(path)}, data["config"]["x64"], timeout)
    m = w.find("digest")
    if m is None:
        if code is not None and code < 0:
            return {"class": "crash", "message": "process died with signal %d" % -code}, "crash"
        sys.stderr.write(w.stderr[-4000:] + "\n")
        return None, None
    return m["violation"], m["digest"]


def write_replay(path, pid, seed, config, runs, violation, digest, note=""):
    with open(path, "w") as f:
        json.dump(
            {"property": pid, "seed": seed, "class": violation["class"], "message": violation["message"],
             "config": config, "runs": runs, "digest": digest, "note": note}, f, indent=1)
        f.write("\n")


def handle_violation(pid, seed, tier, w, scratch, config, deadline):
    """Confirm, minimise, confirm. Returns the path of the replay file."""
    m = w.find("violation")
    vio = m["violation"]
    outdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(outdir, exist_ok=True)
    final = os.path.join(outdir, "%s-seed%d.json" % (pid, seed))
    tmp = os.path.join(scratch, "replay.json")
    write_replay(tmp, pid, seed, config, [m["explicit"]], vio, m["digest"])
    got, digest = replay_file(tmp)
    if got is not None and got["class"] == vio["class"]:
        if vio["class"] not in ("stuck", "crash"):
            longest = float(os.environ.get("VERIF_MINIMISE_S", 90 if tier == "quick" else 150))
            budget = max(1.0, min(longest, deadline - time.time() - 120))
            code, mw = one({"cmd": "minimise", "file": tmp, "budget": budget}, config["x64"], budget + 150)
            mm = mw.find("spec")
            if mm is not None:
                tmp2 = os.path.join(scratch, "min.json")
                write_replay(tmp2, pid, seed, config, [mm["spec"]], vio, "")
                got2, digest2 = replay_file(tmp2)
                if got2 is not None and got2["class"] == vio["class"]:
                    write_replay(final, pid, seed, config, [mm["spec"]], got2, digest2,
                                 "minimised in %d steps" % mm["tried"])
                    return final, got2
        write_replay(final, pid, seed, config, [m["explicit"]], got, digest)
        return final, got
    # Depends on earlier runs of the same process: replay all of them.
    code, rw = one(dict(w.cfg, cmd="work", only=list(range(m["run"] + 1))), config["x64"], 400)
    again = rw.find("violation")
    runs = {"worker": w.cfg["worker"], "runs": m["run"] + 1}
    note = "depends on earlier runs of the process; session %s" % json.dumps(runs)
    if again is None:
        note += "; NOT reproduced on a second execution"
    write_replay(final, pid, seed, config, [m["spec"]], vio, m["digest"], note)
    with open(final) as f:
        data = json.load(f)
    data["session"] = dict(w.cfg, only=list(range(m["run"] + 1)))
    with open(final, "w") as f:
        json.dump(data, f, indent=1)
    return final, vio


def replay_session(data):
    code, w = one(data["session"], data["config"]["x64"], 800)
    m = w.find("violation")
    return m["violation"] if m else None


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            data = json.load(f)
        if "session" in data:
            got, digest = replay_session(data), data["digest"]
        else:
            got, digest = replay_file(sys.argv[2])
        if got is None:
            print("replay: no violation")
            return 0
        same = "identical" if digest == data["digest"] else "different"
        print("replay: %s: %s (event digest %s)" % (got["class"], got["message"], same))
        print("VIOLATION property=%s replay=%s" % (data["property"], sys.argv[2]))
        return 1

    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    started = time.time()
    info = table.TABLE[pid]
    budget = 420 if tier == "quick" else 560
    deadline = started + 860
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    workers = []
    try:
        for i in range(info["workers"]):
            config = table.config(pid, i)
            cfg = {"cmd": "work", "property": pid, "worker": i, "seed": seed, "tier": tier,
                   "granularity": config["granularity"], "budget": budget}
            w = Worker(cfg, config["x64"])
            w.config = config
            workers.append(w)
        violating = None
        while True:
            alive = [w for w in workers if w.p.poll() is None]
            bad = [w for w in workers if w.find("violation")]
            if bad:
                violating = bad[0]
                break
            if not alive:
                break
            if time.time() > deadline - 180:
                break
            time.sleep(0.2)
        if violating is None:
            for w in workers:
                w.wait(max(1.0, deadline - 170 - time.time()))
            bad = [w for w in workers if w.find("violation")]
            if bad:
                violating = bad[0]
        for w in workers:
            if violating is not None and w is not violating and w.p.poll() is None:
                w.p.kill()
        for w in workers:
            w.wait(20)

        replay = None
        vio = None
        if violating is not None:
            replay, vio = handle_violation(pid, seed, tier, violating, scratch, violating.config, deadline)

        failed = [w for w in workers if w.p.returncode != 0 and w.find("stats") is None]
        if violating is None and failed:
            for w in failed:
                sys.stderr.write("worker %d ended with %s\n%s\n" % (
                    w.cfg["worker"], w.p.returncode, w.stderr[-3000:]))
            crashed = [w for w in failed if w.p.returncode < 0 and w.p.returncode != -9]
            if crashed:
                w = crashed[0]
                n = sum(1 for m in w.messages if "run" in m)
                code, again = one(dict(w.cfg, only=list(range(n + 1))), w.config["x64"], 400)
                if code == w.p.returncode:
                    outdir = os.path.join(HERE, "evidence", "replays")
                    os.makedirs(outdir, exist_ok=True)
                    replay = os.path.join(outdir, "%s-seed%d.json" % (pid, seed))
                    vio = {"class": "crash", "message": "process died with signal %d" % -code}
                    write_replay(replay, pid, seed, w.config, [], vio, "crash")
                    with open(replay) as f:
                        data = json.load(f)
                    data["session"] = dict(w.cfg, only=list(range(n + 1)))
                    with open(replay, "w") as f:
                        json.dump(data, f, indent=1)
            if replay is None:
                return 2

        write_evidence(pid, seed, tier, info, workers, started, vio)
        if replay is not None:
            print("%s: %s" % (vio["class"], vio["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("%s held: seed %d, tier %s, %.0f s" % (pid, seed, tier, time.time() - started))
        return 0
    finally:
        for w in workers:
            if w.p.poll() is None:
                w.p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(pid, seed, tier, info, workers, started, vio):
    stats = [w.find("stats")["stats"] for w in workers if w.find("stats")]
    wall = time.time() - started
    runs = sum(s["runs"] for s in stats)
    keys, inter = set(), set()
    faults, extra = {}, {}
    for s in stats:
        keys.update(s["keys"])
        inter.update(s["interleavings"])
        for k, v in s["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in s["info"].items():
            extra[k] = extra.get(k, 0) + v
    samples = []
    for s in stats:
        samples.extend(s["samples"][:1])
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": len(keys),
        "rule": info["rule"],
        "samples": samples[:3],
        "simulated_runs": runs,
        "runs_per_hour": round(runs / max(wall, 1e-9) * 3600),
        "simulated_time_decisions": sum(s["decisions"] for s in stats),
        "yield_points": sum(s["yields"] for s in stats),
        "context_switches": sum(s["switches"] for s in stats),
        "distinct_interleavings": len(inter),
        "interleaving_measure": "hash of the sequence of (source location, from client, to client) at context switches",
        "faults_injected": dict(sorted(faults.items())),
        "observed": dict(sorted(extra.items())),
        "components_real": info["real"],
        "components_stubbed": info["stub"],
        "workers": len(stats),
    }
    data = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": info["assumptions"],
        "wall_s": round(wall, 2), "violations": 0 if vio is None else 1,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
