"""Seeded search over many simulated runs; minimisation; replay; evidence.

usage: python -m dst.driver PROPERTY [--tier quick|thorough] [--replay FILE] [--runs N] [--jobs N]
"""

import argparse
import hashlib
import json
import os
import queue
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
SLOTS = 4  # distinct PYTHONHASHSEED values


class WorkerDied(Exception):
    pass


class Worker:
    def __init__(self, root, idx, slot):
        self.root, self.idx, self.slot = root, idx, slot
        self.proc = None
        self.tasks = 0

    def start(self):
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=str(self.slot * 7919 + 1),
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPATH=VERIF + os.pathsep + os.environ.get("DST_REPO", "/repo"),
            MPLBACKEND="Agg",
            JAX_PLATFORMS="cpu",
            OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
            XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 "
            "intra_op_parallelism_threads=1",
            HDF5_USE_FILE_LOCKING="FALSE",
            DST_SCRATCH=os.path.join(self.root, f"w{self.idx}"),
            DST_JAXCACHE=os.path.join(self.root, f"jax{self.idx}"),
            MPLCONFIGDIR=os.path.join(self.root, "mpl"),
        )
        env["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0"
        self.err = open(os.path.join(self.root, f"w{self.idx}.err"), "ab")
        self.proc = subprocess.Popen(
            [PY, "-m", "dst.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=self.root, text=True, start_new_session=True,
        )
        line = self._readline(300)
        if not line or not json.loads(line).get("ready"):
            raise WorkerDied("worker did not start: " + self.tail())
        self.tasks = 0

    def tail(self):
        try:
            with open(os.path.join(self.root, f"w{self.idx}.err"), "rb") as f:
                return f.read()[-2000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def _readline(self, timeout):
        box = []
        t = threading.Thread(target=lambda: box.append(self.proc.stdout.readline()), daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive():
            self.kill()
            raise WorkerDied(f"no answer in {timeout} s")
        return box[0] if box else ""

    def call(self, task, timeout):
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps(task) + "\n")
            self.proc.stdin.flush()
            line = self._readline(timeout)
        except (BrokenPipeError, OSError) as e:
            self.kill()
            raise WorkerDied(f"worker died: {e}; {self.tail()}")
        if not line:
            self.kill()
            raise WorkerDied("worker died: " + self.tail())
        self.tasks += 1
        res = json.loads(line)
        if res.get("rss_mb", 0) > 2600:
            self.kill()
        return res

    def kill(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                self.proc.wait(10)
            except Exception:
                pass
            self.proc = None


class Pool:
    def __init__(self, root, jobs):
        self.root = root
        self.free = {s: queue.Queue() for s in range(SLOTS)}
        self.workers = []
        for i in range(jobs):
            w = Worker(root, i, i % SLOTS)
            self.workers.append(w)
            self.free[w.slot].put(w)
        self.jobs = jobs

    def run_leg(self, slot, task, timeout):
        slots = [s for s in range(SLOTS) if any(w.slot == s for w in self.workers)]
        q = self.free[slot if slot in slots else slots[slot % len(slots)]]
        w = q.get()
        try:
            return w.call(task, timeout)
        finally:
            q.put(w)

    def close(self):
        for w in self.workers:
            w.kill()


def execute(pool, check, pid, plan, timeout=600):
    """Run all legs of a plan.  Returns the merged result."""
    slots = check.legs(plan) if hasattr(check, "legs") else [plan.get("slot", 0)]
    prev, merged = [], {"violation": None, "error": None, "faults": {}, "counts": {}, "wall": 0,
                        "sim_us": 0, "lives": 0, "evals": 0, "skip": None, "signature": "", "digests": [],
                        "log": []}
    shared = None
    if getattr(check, "SHARED_DIR", False):
        # the legs of a run see the same directory, like processes on one machine
        shared = tempfile.mkdtemp(prefix="s", dir=pool.root)
    try:
        return _execute(pool, pid, plan, slots, prev, merged, shared, timeout)
    finally:
        if shared:
            shutil.rmtree(shared, ignore_errors=True)


def _execute(pool, pid, plan, slots, prev, merged, shared, timeout):
    for leg, slot in enumerate(slots):
        task = {"check": pid, "plan": plan, "leg": leg, "prev": prev, "dir": shared}
        for attempt in (0, 1):
            try:
                res = pool.run_leg(slot, task, timeout)
                break
            except WorkerDied as e:
                # e.g. the sandbox ran out of memory; a second death is an error of the check
                merged["error"] = f"worker: {e}"
        else:
            return merged
        merged["error"] = None
        for k in ("faults", "counts"):
            for kk, v in res.get(k, {}).items():
                merged[k][kk] = merged[k].get(kk, 0) + v
        for k in ("wall", "sim_us", "lives", "evals"):
            merged[k] += res.get(k, 0)
        merged["signature"] += str(res.get("signature", ""))
        merged["digests"].append(res.get("digest"))
        merged["log"].append(res.get("log"))
        out = res.get("out")
        prev.append(out)
        merged["out"] = out
        if res.get("skip"):
            merged["skip"] = res["skip"]
            break
        if res["violation"] or res["error"]:
            merged["violation"], merged["error"] = res["violation"], res["error"]
            break
    return merged


def plan_for(check, pid, seed, tier, i):
    rng = random.Random(f"{pid}/{seed}/{i}")
    plan = check.gen(rng, tier, i)
    plan.setdefault("slot", i % SLOTS)
    plan["seed_id"] = f"{pid}/{seed}/{i}"
    # some processes calculate in double precision
    packaged = "packaged" in json.dumps([plan.get("model"), plan.get("models"), plan.get("kind")])
    if not packaged and random.Random(f"x64/{pid}/{seed}/{i}").random() < float(os.environ.get("DST_X64", "0.08")):
        plan["x64"] = True
    return plan


def size(plan):
    return len(json.dumps(plan))


def minimise(pool, check, pid, plan, violation, deadline, jobs):
    """Greedy delta debugging: keep a smaller plan whenever the same kind of violation persists."""
    best, best_v = plan, violation
    tried = set()
    runs = 0
    if not hasattr(check, "shrink"):
        return best, best_v, 0
    progress = True
    while progress and time.time() < deadline:
        progress = False
        cands = []
        for c in check.shrink(json.loads(json.dumps(best))):
            key = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()
            if key in tried:
                continue
            tried.add(key)
            cands.append(c)
            if len(cands) >= 64:
                break
        pos = 0
        while pos < len(cands) and time.time() < deadline:
            batch = cands[pos:pos + jobs]
            pos += jobs
            with ThreadPoolExecutor(jobs) as ex:
                results = list(ex.map(lambda c: execute(pool, check, pid, c), batch))
            runs += len(batch)
            hit = [(c, r) for c, r in zip(batch, results)
                   if r["violation"] and r["violation"]["kind"] == violation["kind"] and not r["error"]]
            if hit:
                best, best_v = hit[0][0], hit[0][1]["violation"]
                progress = True
                break
    return best, best_v, runs


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def match_finding(pid, violation, check):
    for k in known_findings():
        if k.get("status") == "fixed" or k["property"] != pid:
            continue
        if k["kind"] == violation["kind"] and (not k.get("detail_contains")
                                               or k["detail_contains"] in violation["detail"]):
            return k
    return None


def scratch_root():
    for base in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return tempfile.mkdtemp(prefix="dst-", dir=base)
    return tempfile.mkdtemp(prefix="dst-")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--only", type=int, help="execute a single run index")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--minimise-seconds", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--digests", help="write run digests to this file")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    from dst import registry

    pid = a.property
    check = registry.get(pid)
    root = scratch_root()
    pool = Pool(root, 1 if a.only is not None else a.jobs)
    t0 = time.time()
    try:
        if a.replay:
            return replay(pool, check, pid, a.replay)
        return search(pool, check, pid, a, t0)
    finally:
        pool.close()
        shutil.rmtree(root, ignore_errors=True)


def replay(pool, check, pid, path):
    with open(path) as f:
        rep = json.load(f)
    res = execute(pool, check, pid, rep["plan"])
    if res["error"]:
        print(res["error"])
        return 2
    v = res["violation"]
    if v:
        print(json.dumps(v, indent=1))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay: no violation")
    return 0


def search(pool, check, pid, a, t0):
    budget = check.BUDGET[a.tier]
    runs = a.runs or budget["runs"]
    soft = a.seconds or budget.get("seconds", 300)
    indices = [a.only] if a.only is not None else list(range(runs))
    stats = {"evaluations": 0, "skipped": 0, "faults": {}, "counts": {}, "lives": 0, "evals": 0, "sim_us": 0,
             "probes": {}}
    signatures, samples, errors, violations, findings = set(), [], [], [], {}
    digests = {}
    lock = threading.Lock()
    stop = threading.Event()
    it = iter(indices)
    recheck = []

    def loop():
        while not stop.is_set():
            with lock:
                i = next(it, None)
            if i is None or time.time() - t0 > soft:
                return
            plan = plan_for(check, pid, a.seed, a.tier, i)
            res = execute(pool, check, pid, plan, timeout=budget.get("timeout", 400))
            with lock:
                if res["error"]:
                    errors.append((i, res["error"]))
                    if len(errors) >= 4:
                        stop.set()
                    continue
                stats["evaluations"] += 1
                digests[i] = res["digests"]
                for k in ("lives", "evals", "sim_us"):
                    stats[k] += res[k]
                for k in ("faults", "counts"):
                    for kk, v in res[k].items():
                        stats[k][kk] = stats[k].get(kk, 0) + v
                if res["skip"]:
                    stats["skipped"] += 1
                    continue
                out = res.get("out") or {}
                for kk, v in (out.get("probes") or {}).items():
                    stats["probes"][kk] = stats["probes"].get(kk, 0) + v
                if out.get("nontrivial", True):
                    signatures.add(hashlib.sha256(res["signature"].encode()).hexdigest())
                if len(samples) < 3:
                    samples.append({"seed": plan["seed_id"], "plan": plan, "faults_fired": res["faults"],
                                    "digest": res["digests"]})
                if len(recheck) < budget.get("recheck", 4) and not res["violation"]:
                    recheck.append((i, plan, res["digests"]))
                if res["violation"]:
                    k = match_finding(pid, res["violation"], check)
                    if k:
                        findings[k["id"]] = (k, plan, res["violation"])
                    else:
                        violations.append((i, plan, res["violation"]))
                        if not a.keep_going:
                            stop.set()

    if hasattr(check, "prepare"):
        check.prepare(pool)
    threads = [threading.Thread(target=loop) for _ in range(pool.jobs + 2)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    search_wall = time.time() - t0

    # the same seeds again, in other interpreters with other hash seeds
    redo = {"runs": 0, "different": []}
    if not violations and not errors and a.only is None:
        for i, plan, d in recheck:
            p = dict(plan)
            if not hasattr(check, "legs"):
                p["slot"] = plan["slot"] + 1
                p["slot"] %= SLOTS
            res = execute(pool, check, pid, p)
            redo["runs"] += 1
            if res["error"]:
                errors.append((i, res["error"]))
            elif res["digests"] != d and not (res["violation"] or res["skip"]):
                redo["different"].append(i)

    rc = 0
    violations.sort(key=lambda v: v[0])
    if a.keep_going and violations:
        seen = {}
        for i, plan, v in violations:
            seen.setdefault(v["kind"], []).append((i, v["detail"]))
        for k, lst in seen.items():
            print(f"{k}: {len(lst)}: {lst[:3]}")
    if violations:
        i, plan, v = violations[0]
        best, best_v, n_min = minimise(pool, check, pid, plan, v, time.time() + (budget.get("minimise", 60) if a.minimise_seconds is None
                                                      else a.minimise_seconds),
                                       pool.jobs)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{pid}-{a.seed}-{i}.json")
        rep = {"property": pid, "seed": plan["seed_id"], "violation": best_v, "plan": best,
               "original_size": size(plan), "size": size(best), "minimisation_runs": n_min,
               "replay_cmd": f"bash run.sh {pid} --replay {path}"}
        # the minimised file must reproduce in a fresh interpreter
        for w in pool.workers:
            w.kill()
        again = execute(pool, check, pid, best)
        rep["reproduced_in_fresh_process"] = bool(again["violation"]
                                                  and again["violation"]["kind"] == best_v["kind"])
        if not rep["reproduced_in_fresh_process"]:
            again = execute(pool, check, pid, plan)
            rep["plan"], rep["violation"] = plan, v
            rep["note"] = "the minimised plan did not reproduce; the original plan is given"
            rep["reproduced_in_fresh_process"] = bool(again["violation"]
                                                      and again["violation"]["kind"] == v["kind"])
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        print(f"seed {plan['seed_id']}: {best_v['kind']}: {best_v['detail']}")
        print(f"minimised from {size(plan)} to {size(best)} characters in {n_min} runs; "
              f"reproduced in a fresh process: {rep['reproduced_in_fresh_process']}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    for k, _plan, v in findings.values():
        print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    if errors:
        for i, e in errors[:3]:
            print(f"HARNESS ERROR in run {i}:\n{e}", file=sys.stderr)
        if rc == 0:
            rc = 2
    if rc == 0 and stats["evaluations"] - stats["skipped"] == 0:
        print("HARNESS ERROR: nothing was executed", file=sys.stderr)
        rc = 2
    wall = time.time() - t0
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump({str(k): v for k, v in sorted(digests.items())}, f)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
            "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": stats["evaluations"],
                "distinct_nontrivial": len(signatures),
                "rule": check.RULE,
                "samples": samples or [{"note": "no completed run"}],
                "runs_skipped_as_inapplicable": stats["skipped"],
                "simulated_runs_per_hour": round(stats["evaluations"] / max(search_wall, 1e-9) * 3600),
                "simulated_time_s": round(stats["sim_us"] / 1e6, 3),
                "simulated_processes_started": stats["lives"],
                "posterior_evaluations": stats["evals"],
                "faults_fired": dict(sorted(stats["faults"].items())),
                "fault_points_passed": dict(sorted(stats["counts"].items())),
                "probes": dict(sorted(stats["probes"].items())),
                "distinctness_measure": getattr(check, "MEASURE", "hash of the event log of the run"),
                "same_seed_rerun_in_another_interpreter": {"runs": redo["runs"],
                                                           "different_event_logs": redo["different"]},
                "real_components": check.REAL,
                "stub_components": check.STUB,
                "requested_runs": runs,
                "stopped_by_time": time.time() - t0 > soft,
                "harness_errors": len(errors),
                "known_findings_seen": sorted(findings),
            },
            "assumptions": check.ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": len(violations),
        }
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid}: {stats['evaluations']} runs ({stats['skipped']} skipped), {len(signatures)} distinct, "
          f"{stats['lives']} simulated processes, faults {stats['faults']}, probes {stats['probes']}, "
          f"rerun differences {redo['different']}, {wall:.1f} s, exit {rc}")
    return rc


if __name__ == "__main__":
    sys.exit(main())
