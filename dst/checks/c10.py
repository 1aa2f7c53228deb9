"""C10: a seeded analysis is reproducible in every process."""

import copy
import os
import random
import shutil

import numpy as np

from .. import common, fitlife, lab, models
from ..seams import LineProbe, Violation, read_h5, world
from . import c07

RULE = ("One seeded analysis (build, simulate, evaluate, fit, continue, query) executed by two or three simulated processes "
        "in interpreters with different hash seeds, where each process first does something else: builds and uses other "
        "models, fails or is interrupted while doing so, consumes numpy and python random numbers, or restores another fit. "
        "Everything a user can see - binning, walkers, every evaluation, events, histograms, chains, stored results, lineage "
        "- must be equal bit by bit. Operations with an explicit seed are repeated at other clock readings and other states "
        "of the other random generators. Non-trivial: two processes with different histories completed the analysis.")
MEASURE = "distinct (analysis outline, sequences of other operations per process)"
REAL = common.REAL + ["interpreter hash randomisation (workers started with different PYTHONHASHSEED)"]
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS[1:] + [
    "The processes use the same directory: its path is part of the lineage of a context.",
    "The date in a backend file and the copy of the global configuration are not results."]
SHARED_DIR = True
BUDGET = {
    "quick": {"runs": 60, "seconds": 60, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 6000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
PACKAGED = [("rn220.json", 2000), ("literature_lyqy.json", 64), ("rn220_ar37.json", 2000)]


def gen(rng, tier, i):
    clock = {"mode": "keyed", "t0": rng.randrange(10**15, 2 * 10**15)}
    plan = {"clock": clock, "pyrandom": rng.randrange(1000), "analysis_seed": rng.choice([0, 0, 1, 2**31 - 1] + [rng.randrange(10**6)] * 6),
            "points": rng.randint(1, 3)}
    if i % 35 == 9:
        f, b = PACKAGED[(i // 35) % len(PACKAGED)]
        plan["model"] = {"kind": "packaged", "file": f, "batch_size": b}
        plan["fit"] = None
        plan["legs"] = [{"np": 1, "history": []}, {"np": 2, "history": []}]
        return plan
    g = models.gen(rng, max_llh=3)
    plan["model"] = g
    plan["fit"] = fitlife.gen_fit(rng, g)
    plan["fit"]["total"] = min(plan["fit"]["total"], 4)
    plan["split"] = rng.randint(1, plan["fit"]["total"])
    plan["backend"] = "chain.h5" if rng.random() < 0.8 else None
    legs = [{"np": rng.randrange(10**6), "history": []}]
    for _ in range(rng.choice([1, 1, 2])):
        eps = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            other = c07.mutate(rng, g) if rng.random() < 0.6 else models.gen(rng, max_llh=2)
            eps.append({"model": other, "samedir": False, "break": rng.choice([None, None, "interrupt", "missing", "readerr"]),
                        "acts": [rng.choice(c07.ACTS) for _ in range(rng.randint(0, 2))], "clear": rng.random() < 0.3,
                        "k": rng.randint(1, 4000), "seed": rng.randrange(10**6)})
        legs.append({"np": rng.randrange(10**6), "history": eps})
    rng.shuffle(legs)
    plan["legs"] = legs
    return plan


def legs(plan):
    return [plan["slot"] + j for j in range(len(plan["legs"]))]


def run(plan, leg, prev, d):
    spec = plan["legs"][leg]
    apt = world.boot(spec["np"], toy=True)
    world.faults = []
    for j, ep in enumerate(spec["history"]):
        side = os.path.join(d, f"side{leg}_{j}")
        world.reads_of = {}
        c07.history(apt, ep, j, side, side)
    apt.clear_cache()
    world.read_faults, world.faults = [], []
    # whatever random numbers the process used before
    np.random.seed(spec["np"])
    np.random.uniform(size=spec["np"] % 7)
    world.clock.reads = 0
    try:
        out = analyse(apt, plan, os.path.join(d, "m"), d)
        explicit(apt, plan, out, leg)
    except Violation:
        raise
    except Exception as e:
        raise Violation("exception", f"{type(e).__name__}: {e}")
    shutil.rmtree(os.path.join(d, "m"), ignore_errors=True)
    out.pop("ctx")
    if prev:
        diff = lab.first_diff(out, prev[0]["result"])
        if diff:
            raise Violation("not-reproducible:" + diff.split(":")[0].split("/")[1].split("[")[0],
                            f"process {leg} and process 0: {diff}")
    shown = {k: v for k, v in out.items() if k not in ("lineage", "context", "stored")}
    world.emit("result", repr(shown))
    return {"result": out, "nontrivial": leg > 0,
            "probes": {"processes": leg > 0, "with_history": leg > 0 and bool(spec["history"]),
                       "fits": leg > 0 and plan["fit"] is not None}}


def analyse(apt, plan, m, d):
    g = plan["model"]
    rng = random.Random(plan["analysis_seed"])
    h5 = None
    if g["kind"] == "packaged":
        ins = apt.utils.load_json(g["file"])
        ins["backend_h5"] = None
    else:
        ins = models.materialise(g, m)
        if plan["backend"]:
            h5 = os.path.join(m, plan["backend"])
            ins["backend_h5"] = h5
    ctx = lab.build(apt, ins)
    pts = lab.gen_points(rng, ctx.par_config, plan["points"])
    out = {"ctx": ctx}
    out["model"] = lab.describe(ctx, g, pts, plan["analysis_seed"] % 1000)
    out["context"] = [ctx.lineage_hash, lab.canon(ctx.lineage)]
    lab.set_clock("events")
    full = lab.full(ctx.par_config, pts[0])
    out["events"] = lab.canon(float(ctx.get_num_events_accepted(full, batch_size=g["batch_size"])))
    fit = plan["fit"]
    if fit is None:
        return out
    np.random.seed(fit["seed"] % 2**32)
    world.evals = []
    kw = dict(batch_size=g["batch_size"], moves=fitlife.make_moves(fit["moves"]))
    if fit["repeat_times"] != 1:
        kw["repeat_times"] = fit["repeat_times"]
    ctx.fitting(nwalkers=fit["nwalkers"], iteration=plan["split"], **kw)
    if plan["split"] < fit["total"]:
        ctx.continue_fitting(iteration=fit["total"] - plan["split"], **kw)
    out["walkers"] = lab.canon([list(map(list, e[0])) for e in world.evals[: fit["nwalkers"]]])
    out["evaluations"] = lab.canon([[list(map(list, e[0])), e[1], list(e[2])] for e in world.evals])
    out["chain"] = lab.canon([np.array(ctx.sampler.get_chain()), np.array(ctx.sampler.get_log_prob()),
                              np.array(ctx.sampler.get_blobs(), dtype=float)])
    out["best"] = lab.canon([ctx.get_post_parameters(), ctx.get_post_parameters("median")])
    dumped = os.path.join(m, "dumped.json")
    ctx.dump_post_parameters(dumped)
    with open(dumped) as f:
        out["dumped"] = f.read()
    np.random.seed(fit["seed"] % 2**31)
    out["random"] = lab.canon(ctx.get_post_parameters("random"))
    if h5:
        raw = read_h5(h5)
        attrs = {k: v for k, v in raw["attrs"].items()
                 if k not in ("_cached_configs", "metadata") and not k.startswith("random_state")}
        out["stored"] = lab.canon({k: v if isinstance(v, str) else np.asarray(v).tolist()
                                   if np.asarray(v).dtype.kind in "OSU" else np.asarray(v) for k, v in attrs.items()})
        import json

        meta = json.loads(raw["attrs"]["metadata"])
        meta.pop("date", None)
        out["stored"]["metadata"] = lab.canon(meta)
        out["stored"]["chain"] = lab.canon([raw["chain"], raw["log_prob"], raw["accepted"]])
    return out


def explicit(apt, plan, out, leg):
    """Operations with an explicit seed, at another clock reading and state of other generators in every process."""
    ctx, g = out["ctx"], plan["model"]
    seed = plan["analysis_seed"] % 2**31

    def disturb(n):
        world.clock.now_us += 7_777_777 * (leg + 1) + n
        lab.set_clock(("leg", leg, n))
        np.random.seed(1000 + leg * 17 + n)
        random.seed(leg * 5 + n)

    def once(n):
        res = {}
        disturb(n)
        res["key"] = lab.canon(np.asarray(apt.randgen.get_key(seed=seed)))
        disturb(n + 1)
        ctx.par_manager.init_parameter(seed=seed)
        res["init"] = lab.canon(ctx.par_manager.get_all_parameter())
        params = lab.full(ctx.par_config, lab.center(ctx.par_config))
        for ln, llh in ctx.likelihoods.items():
            b = g["batch_size"] if hasattr(llh, "data_hist") else 1
            for cn, c in llh.components.items():
                if not hasattr(c, "worksheet"):
                    continue
                disturb(n + 2)
                _, ev = c.simulate(apt.randgen.get_key(seed=seed), b, llh.replace_alias(params))
                res["simulate_" + cn] = lab.canon([np.asarray(e) for e in ev])
                if plan["fit"] is not None:
                    disturb(n + 3)
                    res["template_" + cn] = lab.canon([np.asarray(e) for e in
                                                       ctx.get_template(ln, cn, batch_size=b, seed=seed)])
        return res

    first = once(10)
    again = once(500)
    diff = lab.first_diff(again, first)
    if diff:
        raise Violation("explicit-seed:" + diff.split(":")[0].split("/")[1].split("_")[0], f"with the same seed: {diff}")
    out["explicit"] = first


def shrink(plan):
    P = copy.deepcopy
    if len(plan["legs"]) > 2:
        for j in range(len(plan["legs"])):
            p = P(plan)
            del p["legs"][j]
            yield p
    for j, l in enumerate(plan["legs"]):
        for k in range(len(l["history"])):
            p = P(plan)
            del p["legs"][j]["history"][k]
            yield p
        for k, e in enumerate(l["history"]):
            for a in range(len(e["acts"])):
                p = P(plan)
                del p["legs"][j]["history"][k]["acts"][a]
                yield p
            if e["break"]:
                p = P(plan)
                p["legs"][j]["history"][k]["break"] = None
                yield p
    if plan.get("fit"):
        p = P(plan)
        p["fit"] = None
        yield p
        if plan["fit"]["total"] > 1:
            p = P(plan)
            p["fit"]["total"] -= 1
            p["split"] = min(p["split"], p["fit"]["total"])
            yield p
        if plan["backend"]:
            p = P(plan)
            p["backend"] = None
            yield p
    if plan["points"] > 1:
        p = P(plan)
        p["points"] -= 1
        yield p
    yield from common.shrink_model(plan)


def signature(world, plan):
    return repr([e for e in world.log if e[0] in ("boot", "fault", "episode", "act")] +
                [plan["model"].get("file", sorted(plan["model"].get("instruct", {}).get("likelihoods", {})))])
