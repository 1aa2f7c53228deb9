"""One simulator interpreter.  Reads JSON tasks on stdin, writes JSON results on a private descriptor."""

import os
import sys

# a private channel for results; whatever the code under test prints goes nowhere
_out = os.fdopen(os.dup(1), "w")
_devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(_devnull, 1)
if not os.environ.get("DST_DEBUG"):
    os.dup2(_devnull, 2)

import json
import resource
import time
import traceback
import warnings

warnings.simplefilter("ignore")
_perf = time.perf_counter


def main():
    from dst import seams

    scratch = os.environ["DST_SCRATCH"]
    os.makedirs(scratch, exist_ok=True)
    seams.world.scratch = scratch
    seams.install()
    import jax

    cache = os.environ.get("DST_JAXCACHE")
    if cache:
        jax.config.update("jax_compilation_cache_dir", cache)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    from dst import registry

    import gc
    import appletree  # noqa: F401 - the libraries it needs are loaded once per interpreter

    seams.purge()
    gc.collect()
    gc.freeze()
    print(json.dumps({"ready": True}), file=_out, flush=True)
    for line in sys.stdin:
        task = json.loads(line)
        if task.get("quit"):
            break
        res = run_task(registry, seams, task, scratch)
        print(json.dumps(res), file=_out, flush=True)


def run_task(registry, seams, task, scratch):
    world = seams.world
    check = registry.get(task["check"])
    plan, leg, prev = task["plan"], task["leg"], task["prev"]
    if task.get("dir"):
        directory = os.path.join(task["dir"], "run")
        os.makedirs(directory, exist_ok=True)
    else:
        directory = os.path.join(scratch, "run")
        seams.cleanup(directory)
        os.makedirs(directory)
    world.scratch = task.get("dir") or scratch
    cwd = os.getcwd()
    os.chdir(directory)
    world.reset(plan)
    import jax

    jax.config.update("jax_enable_x64", bool(plan.get("x64")))
    res = {"violation": None, "error": None, "skip": None}
    t = _perf()
    world.active = True
    try:
        out = check.run(plan, leg, prev, directory)
        res["out"] = out
        if isinstance(out, dict) and out.get("violation"):
            res["violation"] = out["violation"]
        if isinstance(out, dict) and out.get("skip"):
            res["skip"] = out["skip"]
    except seams.Violation as v:
        res["violation"] = {"kind": v.kind, "detail": v.detail}
    except BaseException as e:  # noqa: B902 - classified, never swallowed
        res["error"] = "".join(traceback.format_exception(e))[-6000:]
    finally:
        world.active = False
        world.yield_hook = None
        world.eval_hook = None
        os.chdir(cwd)
    res["wall"] = _perf() - t
    res["faults"] = world.fault_counts
    res["counts"] = world.counts
    res["digest"] = world.digest()
    res["sim_us"] = world.clock.advanced
    res["lives"] = world.life + 1
    res["evals"] = world.sim_evals
    res["signature"] = check.signature(world, plan) if hasattr(check, "signature") else world.digest()
    if os.environ.get("DST_LOG"):
        res["log"] = world.log
    seams.purge()
    if not task.get("dir"):
        seams.cleanup(directory)
    seams.collect()
    res["rss_mb"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    return res


if __name__ == "__main__":
    main()
