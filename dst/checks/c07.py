"""C07: after clearing the cache a process behaves like a new one."""

import copy
import json
import os
import random
import shutil

import numpy as np

from .. import common, fitlife, lab, models
from ..seams import LineProbe, Violation, world

RULE = ("Seeded histories of one process: models (other settings for the same likelihood names, other models, models sharing "
        "the very file names) are built, fail to build because of missing or unreadable files or bad settings, are "
        "interrupted at a random line while building, are evaluated, simulated, fitted, plotted or used component by "
        "component; then the cache is cleared and a model is built. Its needed parameters, binning, data and model "
        "histograms, events, posterior, lineage and first fitted samples are compared with those in a newly started "
        "simulated process. Non-trivial: something was built or attempted before the cache was cleared.")
MEASURE = "distinct sequences of (operation, outcome)"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS[1:]
BUDGET = {
    "quick": {"runs": 120, "seconds": 85, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 10000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
ACTS = ["eval", "describe", "fit", "maps", "global", "standalone", "events", "template"]
BREAK = [None, None, None, "missing", "readerr", "interrupt", "component", "partial", "twice"]


def mutate(rng, g):
    """Other settings for the same likelihood names."""
    g = copy.deepcopy(g)
    ins = g["instruct"]
    names = list(ins["likelihoods"])
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["gain", "ly", "eff", "cut", "emax", "bins", "drop", "defaults", "data", "maps"])
        i = rng.randrange(3)
        if k == "gain":
            ins["configs"]["toy_gain"] = [1.7, 2.4, 2.1][i]
        elif k == "emax":
            ins["configs"]["toy_emax"] = [16.0, 21.0, 19.0][i]
        elif k == "ly":
            ins["configs"]["toy_ly"] = rng.choice([f"toy_ly_{i}.json", {n: f"toy_ly_{i}.json" for n in names}])
        elif k == "cut":
            ins["configs"]["toy_cut"] = rng.choice([f"toy_cut_{i}.json", {n: f"toy_cut_{i}.json" for n in names}])
        elif k == "maps":
            for c in ("toy_spec", "toy_field"):
                ins["configs"][c] = rng.choice([f"{c}_{i}.json", {n: f"{c}_{i}.json" for n in names}])
        elif k == "eff":
            t = [f"toy_eff_{i}.json", f"toy_eff_lo_{i}.json", f"toy_eff_hi_{i}.json"]
            v = rng.choice([t, t + ["other_pull"], t[0]])
            ins["configs"]["toy_eff"] = rng.choice([v, {n: v for n in names}])
            p = {"prior_type": "norm", "prior_args": {"mean": 0.0, "std": 1.0}, "allowed_range": [-3.0, 3.0],
                 "init_mean": 0.0, "init_std": 0.5, "unit": "1", "doc": ""}
            for s in ("toy_eff_sigma", "other_pull"):
                g["params"].setdefault(s, dict(p))
            g["loose"] = True
        elif k == "bins":
            for s in ins["likelihoods"].values():
                if s.get("bins_type") == "equiprob" and isinstance(s["bins"], list) and len(s["bins"]) == 2:
                    s["bins"] = [2, 3]
        elif k == "drop" and ins["configs"]:
            ins["configs"].pop(rng.choice(sorted(ins["configs"])))
        elif k == "defaults":
            ins["configs"] = {}
            g["loose"] = True
        elif k == "data":
            for d in g["data"].values():
                d["seed"] += 1
    need = common.needed(g)
    p = {"prior_type": "norm", "prior_args": {"mean": 0.0, "std": 1.0}, "allowed_range": [-3.0, 3.0],
         "init_mean": 0.0, "init_std": 0.5, "unit": "1", "doc": ""}
    for n in need:
        g["params"].setdefault(n, dict(p))
    g["params"] = {k: v for k, v in g["params"].items() if k in need}
    return g


def gen(rng, tier, i):
    if i % 60 == 7:
        return {"packaged": True, "first": rng.choice(["rn220_ar37.json", "neutron_low.json"]), "then": "rn220.json",
                "np": rng.randrange(10**6), "clock": {"mode": "keyed", "t0": rng.randrange(10**15, 2 * 10**15)},
                "pyrandom": 5}
    target = models.gen(rng, max_llh=2)
    nobase = i % 8 == 5
    eps = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.65:
            g = mutate(rng, target)
        else:
            g = models.gen(rng, max_llh=2)
        if rng.random() < 0.4:
            g["palette"] = rng.choice([0.95, 0.9])
        ep = {"model": g, "samedir": rng.random() < 0.5, "break": rng.choice(BREAK), "acts":
              [rng.choice(ACTS) for _ in range(rng.randint(0, 3))], "clear": rng.random() < 0.25,
              "k": rng.randint(1, 12) if rng.random() < 0.5 else rng.randint(1, 6000), "seed": rng.randrange(10**6)}
        eps.append(ep)
    if nobase:
        eps[-1].update(samedir=True, clear=False)
        eps[-1]["break"] = None
    return {"model": target, "episodes": eps, "point_seed": rng.randrange(10**6), "fit_seed": rng.randrange(10**6),
            "again": rng.random() < 0.2,
            # the model after clearing names no url_base, so its files can not be found in a new process
            "nobase": nobase,
            "clock": {"mode": "keyed", "t0": rng.randrange(10**15, 2 * 10**15)}, "pyrandom": 4}


def observe(apt, genome, instruct, points, fit_seed):
    ctx = lab.build(apt, instruct)
    out = lab.describe(ctx, genome, points, 17)
    out["lineage"] = ctx.lineage_hash
    np.random.seed(fit_seed)
    n = max(2 * len(ctx.par_manager.parameter_fit), 4)
    lab.set_clock("fit")
    ctx.fitting(nwalkers=n, iteration=1, batch_size=genome["batch_size"])
    out["chain"] = lab.canon(np.array(ctx.sampler.get_chain()))
    out["logp"] = lab.canon(np.array(ctx.sampler.get_log_prob()))
    out["best"] = lab.canon(ctx.get_post_parameters())
    return out


def outcome(apt, plan, genome, instruct, points):
    """What a user sees of the model after clearing; a model that can not be built must say so again."""
    if not plan.get("nobase"):
        return observe(apt, genome, instruct, points, plan["fit_seed"])
    ins = copy.deepcopy(instruct)
    ins.pop("url_base")
    try:
        return observe(apt, genome, ins, points, plan["fit_seed"])
    except Exception as e:
        return {"error": type(e).__name__, "lineage": None}


def history(apt, ep, idx, d, main_dir):
    sub = main_dir if ep["samedir"] else os.path.join(d, f"h{idx}")
    g = ep["model"]
    ins = models.materialise(g, sub)
    br = ep["break"]
    rng = random.Random(ep["seed"])
    removed = None
    if br == "missing":
        removed = rng.choice(["toy_ly.json", "toy_cut.json", "toy_eff_hi.json", "toy_eff.json", "toy_spec.json", "toy_field_1.json"] + sorted(g["data"]))
        os.remove(os.path.join(sub, removed))
    elif br == "readerr":
        world.reads_of = {}
        world.read_faults = [{"kind": "readerr", "file": "*", "nth": rng.randint(1, 2), "offset": rng.randint(0, 60)}]
    elif br == "component":
        ll = rng.choice(sorted(ins["likelihoods"]))
        c = sorted(ins["likelihoods"][ll]["components"])[-1]
        ins["likelihoods"][ll]["components"][c] = "NoSuchComponent"
    elif br == "partial":
        ins["configs"]["toy_ly"] = {"some_other_llh": "toy_ly_0.json"}
    ctx = None
    err = None
    world.life_counts = {}
    world.faults = [{"kind": "interrupt", "at": "line", "k": ep["k"]}] if br == "interrupt" else []
    try:
        if br == "interrupt":
            with LineProbe(files=LineProbe.FILES + ("plugin.py", "utils.py")):
                ctx = lab.build(apt, ins)
        else:
            ctx = lab.build(apt, ins)
        if br == "twice":
            lab.build(apt, ins)
    except (Violation, SystemExit):
        raise
    except BaseException as e:  # whatever a failed build raises is not judged here
        err = type(e).__name__
    world.faults, world.read_faults = [], []
    world.emit("episode", idx, br, err, ctx is not None)
    for act in ep["acts"]:
        try:
            do(apt, ctx, g, ins, act, rng, sub)
            world.emit("act", act, None)
        except (Violation, SystemExit):
            raise
        except Exception as e:  # e.g. the context was not built
            world.emit("act", act, type(e).__name__)
    if ep["clear"]:
        apt.clear_cache()


def do(apt, ctx, g, ins, act, rng, sub):
    if act == "global":
        apt.set_global_config({"toy_gain": 3.3, "toy_ly": "toy_ly_2.json", "toy_points": [["mu", "sigma"], [[1.0], [0.1]]],
                               "url_base": sub})
        return
    if act == "standalone":
        c = apt.components.ToyBand(name="alone", llh_name=rng.choice([None, "alone", "a_llh", "b_llh"]))
        c.set_config({"toy_gain": 2.9})
        c.deduce(data_names=["cs1", "cs2"])
        c.compile()
        lab.set_clock("standalone")
        key = apt.randgen.get_key(seed=3)
        p = {"ly": 1.0, "fluct": 0.5, "g1": 0.15, "g2": 0.9, "toy_eff_sigma": 0.1, "other_pull": 0.1, "acc_pull": 0.1,
             "": 1.0}
        c.simulate(key, 30, p)
        c.show_config(["cs1", "cs2", "eff"])
        return
    if ctx is None:
        return
    params = ctx.par_config
    pt = lab.center(params)
    if act == "eval":
        lab.logpost(ctx, pt, batch_size=g["batch_size"])
    elif act == "describe":
        lab.describe(ctx, g, [pt], 3)
    elif act == "events":
        ctx.get_num_events_accepted(lab.full(params, pt), batch_size=g["batch_size"])
    elif act in ("fit", "template"):
        n = max(2 * len(ctx.par_manager.parameter_fit), 4)
        ctx.fitting(nwalkers=n, iteration=1, batch_size=g["batch_size"])
        if act == "template":
            for ln, llh in ctx.likelihoods.items():
                for cn, c in llh.components.items():
                    if hasattr(c, "worksheet"):
                        ctx.get_template(ln, cn, batch_size=g["batch_size"], seed=1)
    elif act == "maps":
        import matplotlib.pyplot as plt
        from appletree.plot import plot_maps

        for fig, _ in plot_maps(ctx):
            plt.close(fig)


def run(plan, leg, prev, d):
    if plan.get("packaged"):
        return run_packaged(plan, d)
    g = plan["model"]
    md = os.path.join(d, "m")
    apt = world.boot(7, toy=True)
    world.faults = []
    ins = models.materialise(g, md)
    params = models.effective_params(g)
    points = lab.gen_points(random.Random(plan["point_seed"]), params, 2, outside=0.1)
    try:
        want = outcome(apt, plan, g, ins, points)
    except Exception as e:
        raise Violation("build-failed", f"{type(e).__name__}: {e}")
    shutil.rmtree(md)
    apt = world.boot(8, toy=True)
    for i, ep in enumerate(plan["episodes"]):
        history(apt, ep, i, d, md)
    rounds = 2 if plan["again"] else 1
    for r in range(rounds):
        if os.path.isdir(md):
            shutil.rmtree(md)
        ins = models.materialise(g, md)
        apt.clear_cache()
        try:
            got = outcome(apt, plan, g, ins, points)
        except Violation:
            raise
        except Exception as e:
            raise Violation("build-after-clear", f"{type(e).__name__}: {e}".replace(d, ""))
        diff = lab.first_diff(got, want)
        if diff:
            raise Violation("different:" + diff.split("/")[1].split(":")[0].split("[")[0] if "/" in diff else "different",
                            f"after the history, round {r}: {diff}")
    want.pop("lineage")  # contains the scratch directory
    world.emit("want", repr(sorted(want.items(), key=str)))
    return {"nontrivial": bool(plan["episodes"]),
            "probes": {"episodes": len(plan["episodes"]),
                       "failed_builds": sum(e[0] == "episode" and e[3] is not None for e in world.log),
                       "acts": sum(e[0] == "act" and e[2] is None for e in world.log),
                       "acts_failed": sum(e[0] == "act" and e[2] is not None for e in world.log)}}


def run_packaged(plan, d):
    """Packaged models, whose likelihood names coincide."""
    def build(apt, file):
        ins = apt.utils.load_json(file)
        ins["backend_h5"] = None
        ctx = apt.Context(ins)
        pt = lab.center(ctx.par_config)
        out = {"needed": sorted(ctx.needed_parameters), "lineage": ctx.lineage_hash,
               "llh": {n: v.lineage_hash for n, v in ctx.likelihoods.items()},
               "post": lab.canon(lab.logpost(ctx, pt, tag="p", batch_size=3000))}
        return out

    apt = world.boot(1, toy=False)
    world.faults = []
    want = build(apt, plan["then"])
    apt = world.boot(2, toy=False)
    build(apt, plan["first"])
    # files of the same names in a directory that was configured before
    shadow = os.path.join(d, "shadow")
    os.makedirs(shadow)
    ins = apt.utils.load_json(plan["then"])
    par = apt.utils.load_json(ins["par_config"])
    for v in par.values():
        if v["prior_type"] != "fixed":
            v["init_mean"] *= 1.01
    with open(os.path.join(shadow, ins["par_config"]), "w") as f:
        json.dump(par, f)
    apt.set_global_config({"url_base": shadow})
    apt.clear_cache()
    got = build(apt, plan["then"])
    diff = lab.first_diff(got, want)
    if diff:
        raise Violation("different:packaged", f"{plan['then']} after {plan['first']}: {diff}")
    world.emit("want", repr(want))
    return {"nontrivial": True, "probes": {"packaged": 1}}


def shrink(plan):
    P = copy.deepcopy
    if plan.get("packaged"):
        return
    for i in range(len(plan["episodes"])):
        p = P(plan)
        del p["episodes"][i]
        yield p
    if plan["nobase"]:
        p = P(plan)
        p["nobase"] = False
        yield p
    if plan["again"]:
        p = P(plan)
        p["again"] = False
        yield p
    for i, e in enumerate(plan["episodes"]):
        for j in range(len(e["acts"])):
            p = P(plan)
            del p["episodes"][i]["acts"][j]
            yield p
        for k, v in (("break", None), ("clear", False), ("samedir", False)):
            if e[k] != v:
                p = P(plan)
                p["episodes"][i][k] = v
                yield p
    yield from common.shrink_model(plan)


def signature(world, plan):
    return repr([e for e in world.log if e[0] in ("episode", "act")]) + str(plan.get("first"))
