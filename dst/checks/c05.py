"""C05: a context restored from a backend file is the model that was fitted."""

import copy
import json
import os
import shutil

import numpy as np

from .. import common, fitlife, lab, models
from ..seams import SimKill, Violation, read_h5, world

SHARED_DIR = True
RULE = ("Seeded plans: a random toy model given as files, dictionaries or an instruct file, with null and boolean options; "
        "its fit finishes or is stopped by a seeded fault; the caller then changes its dictionaries, rewrites or deletes "
        "the files the context was created from, and moves the backend file; the context is restored in the same process, "
        "a new process or a new interpreter with another hash seed and compared with the model built afresh from the "
        "original settings: parameters, priors, configuration, walkers, stored samples, and log posterior and prior at "
        "stored and random points; finally it continues and what it stores is compared. Non-trivial: a context was restored.")
MEASURE = "distinct sequences of (process start, operation, fault kind@point#index, outcome)"
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUMPTIONS + [
    "Map, data and fixed-component files stay where they are: the backend file refers to them by name."]
BUDGET = {
    "quick": {"runs": 110, "seconds": 90, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 10000, "seconds": 3000, "minimise": 300, "recheck": 60},
}


def gen(rng, tier, i):
    if i == 2 or (tier == "thorough" and i % 500 == 2):
        plan = common.packaged_plan(rng, "literature_lyqy.json", 64, 1, total=2)
        plan.update(where=1, scramble=[], move="rename", how="path", points=3, point_seed=5, continues=True)
        plan["lives"][0]["faults"] = []
        return plan
    if i == 4 or (tier == "thorough" and i % 500 == 4):
        # the packaged context of a fixed instruct
        plan = common.packaged_plan(rng, "rn220.json", 36, 2000, total=1)
        plan.update(where=1, scramble=[], move=None, how="path", points=2, point_seed=5, continues=True, cls="ContextRn220",
                    par_style="file")
        plan["lives"][0]["faults"] = []
        return plan
    plan = common.gen_plan(rng, memory=0.0, par_styles=("file", "dict", "path", "dict"), fault_free=0.0)
    plan["lives"] = plan["lives"][:1]
    if rng.random() < 0.35:
        plan["lives"][0]["faults"] = []
    for f in plan["lives"][0]["faults"]:
        # late enough to leave something to restore
        nw, tot = plan["fit"]["nwalkers"], plan["fit"]["total"]
        if f["at"] in ("eval", "evaldone", "clockread"):
            f["k"] = rng.randint(2 * nw + 1, nw * (tot + 1))
        elif f["at"] in ("h5synced", "h5flush", "h5write"):
            f["k"] += 4
        elif f["at"] == "h5open":
            f["k"] += 10
        elif f["at"] == "evalline":
            f["k"] = rng.randint(2 * nw + 1, nw * (tot + 1)) * fitlife.LINES_PER_EVAL
        elif f["at"] == "line":
            f["k"] = rng.randint(8000, 40000)
    plan["where"] = rng.choice([0, 1, 1])
    plan["scramble"] = [s for s in ("instruct", "par", "parfile", "instructfile") if rng.random() < 0.6]
    # renamed, moved to another directory under its name, or copied there
    plan["move"] = rng.choice([None, None, "rename", "dir", "copy"])
    # how it is named afterwards: by its full path, relative to the working directory, or by a name found in url_base
    plan["how"] = rng.choice(["path", "path", "relative", "url_base"])
    plan["points"], plan["point_seed"] = rng.randint(2, 5), rng.randrange(10**6)
    plan["continues"] = rng.random() < 0.7
    if rng.random() < 0.35:
        # the file has a past: the fit was begun, or another one was made, with other settings
        plan["before"] = {"batch": rng.choice([48, 200]), "again": rng.random() < 0.5, "more": rng.choice([0, 2])}
    ins = plan["model"]["instruct"]
    for spec in ins["likelihoods"].values():
        if rng.random() < 0.3:
            spec["remark"] = None
        if spec.get("bins_type") == "equiprob" and rng.random() < 0.5:
            spec["left"] = rng.random() < 0.5
            spec["integer"] = [False, False] if spec["bins_on"] == ["cs1", "cs2"] else False
    if rng.random() < 0.4:
        ins["remark"] = rng.choice([None, True, False, "null", "it's \"quoted\"", "nan"])
    plan["clock"]["mode"] = "keyed"
    return plan


def legs(plan):
    return [plan["slot"], plan["slot"] + 1] if plan["where"] == 1 else [plan["slot"]]


class Life(fitlife.FitLife):
    def build(self):
        plan = self.plan
        style = plan.get("par_style", "file")
        if plan.get("cls"):
            self.par, self.ins = None, None
            self.ctx = getattr(self.apt, plan["cls"])()
            self.ctx.backend_h5 = self.h5
            return self.ctx
        self.ins = ins = self.make_instruct()
        self.par = None
        if style == "dict":
            self.par = copy.deepcopy(self.genome["params"])
            ins.pop("par_config", None)
            self.ctx = self.apt.Context(ins, par_config=self.par)
        elif style == "path":
            p = os.path.join(self.dir, "instruct.json")
            with open(p, "w") as f:
                json.dump(ins, f)
            self.ctx = self.apt.Context(p)
        else:
            self.ctx = self.apt.Context(ins)
        return self.ctx

    def scramble(self):
        for what in self.plan["scramble"]:
            if what == "instruct" and self.plan["par_style"] != "path":
                for v in self.ins["likelihoods"].values():
                    if "bins" in v:
                        v["bins"] = [1, 1]
                    v["copy_parameters"]["other_rate"] = "other"
                    v["components"].clear()
                self.ins.get("configs", {})["toy_gain"] = 5.0
                self.ins["likelihoods"]["other"] = {}
            elif what == "par" and self.par is not None:
                spoil(self.par)
            elif what == "parfile":
                with open(os.path.join(self.dir, "par.json")) as f:
                    par = json.load(f)
                spoil(par)
                with open(os.path.join(self.dir, "par.json"), "w") as f:
                    json.dump(par, f)
            elif what == "instructfile":
                p = os.path.join(self.dir, "instruct.json")
                if os.path.exists(p):
                    os.remove(p)


def spoil(par):
    for v in par.values():
        lo, hi = v["allowed_range"]
        v["allowed_range"] = [hi, hi + 1]
        if v["prior_type"] == "fixed":
            v["prior_args"]["val"] += 1.0
        else:
            v["prior_type"], v["prior_args"] = "norm", {"mean": 5.0, "std": 0.1}


def run(plan, leg, prev, d):
    if leg == 0:
        first = original(plan, d)
        if plan["where"] == 1 or first.get("skip"):
            return first
        return restored(plan, d, first)
    return restored(plan, d, prev[0])


def original(plan, d):
    life = Life(plan, d, backend="chain.h5")
    genome = plan["model"]
    early = bool(plan["scramble"]) and plan["point_seed"] % 2 == 0
    life.apt = world.boot(plan["lives"][0]["np_seed"], toy=True, faults=plan["lives"][0]["faults"])
    probes = common.LineProbe() if any(f["at"] in ("line", "evalline") for f in world.faults) else None
    err = None
    if probes:
        probes.__enter__()
    past = plan.get("before")
    try:
        life.build()
        if early:
            life.scramble()
        if past:
            begin(life, past)
        err = life.call(plan["fit"]["total"], fresh=not past or past["again"])
    except (SimKill, KeyboardInterrupt, OSError, MemoryError, RuntimeError) as e:
        if not isinstance(e, SimKill) and not fitlife._injected(e):
            raise Violation("unexpected-exception:fitting", f"{type(e).__name__}: {e}")
        err = e
    finally:
        if probes:
            probes.__exit__()
    if err is not None and not isinstance(err, SimKill) and not life._planned(err):
        raise Violation("unexpected-exception:fitting", f"{type(err).__name__}: {err}")
    world.dead = False
    world.faults = []
    if life.n_stored() < 1:
        return {"skip": "nothing was stored before the fault", "nontrivial": False}
    if not early:
        life.scramble() if life.ctx is not None else None
    settings = {"nwalkers": plan["fit"]["nwalkers"], "batch": genome["batch_size"]}
    if past:
        raw = read_h5(life.h5)
        if past["again"] and raw["chain"].shape[1] != settings["nwalkers"]:
            # stopped before the new fit replaced the old one
            settings = {"nwalkers": raw["chain"].shape[1], "batch": past["batch"]}
        elif past["again"] and not past["more"] and raw["iteration"] == 1 and err is not None:
            settings["batch"] = None
        elif not past["again"] and raw["iteration"] == 1:
            # stopped before anything was sampled with the new settings
            settings["batch"] = None
        if settings["batch"] is None:
            settings["batch"] = int(raw["attrs"]["batch_size"])
    path = life.h5
    if plan["move"]:
        os.makedirs(os.path.join(d, "archive"), exist_ok=True)
        path = os.path.join(d, "archive", "moved.h5" if plan["move"] == "rename" else "chain.h5")
        if plan["move"] == "copy":
            shutil.copy(life.h5, path)
        else:
            os.rename(life.h5, path)
    if plan["where"] == 0 and plan["point_seed"] % 3 and err is None:
        life.apt.clear_cache()
        here = life.apt
    else:
        here = None
    out = {"path": path, "settings": settings, "stopped": None if err is None else type(err).__name__, "nontrivial": True}
    if here is not None:
        out["here"] = True
    return out


def begin(life, past):
    armed, world.faults = world.faults, []
    more = past["more"] if past["again"] else 0
    try:
        np.random.seed(life.fit["seed"] % 2**31)
        world.new_fit()
        life.ctx.fitting(nwalkers=life.fit["nwalkers"] + more, iteration=1,
                         **dict(life.kwargs(), batch_size=past["batch"]))
    except Exception as e:
        raise Violation("unexpected-exception:fitting", f"{type(e).__name__}: {e}")
    world.faults = armed
    world.life_counts = {}


def restored(plan, d, first):
    genome = plan["model"]
    batch = first["settings"]["batch"]
    toy = genome["kind"] == "toy"
    path = os.path.join(d, os.path.relpath(first["path"], d))
    raw0 = read_h5(path)
    if first.get("here") and plan["where"] == 0:
        import appletree as apt
    else:
        apt = world.boot(99, toy=True)
    # restore
    other = os.path.join(d, "chain.h5")
    untouched = fitlife.file_bytes(other) if other != path else None
    os.makedirs(os.path.join(d, "elsewhere"), exist_ok=True)
    name = path
    if plan.get("how") == "relative":
        name = os.path.relpath(path, os.getcwd())
    elif plan.get("how") == "url_base" and plan["move"] != "copy":
        os.chdir(os.path.join(d, "elsewhere"))
        apt.share.set_global_config({"url_base": os.path.dirname(path)})
        name = os.path.basename(path)
    try:
        ctx = getattr(apt, plan.get("cls", "Context")).from_backend(name)
    except Exception as e:
        raise Violation("unexpected-exception:from_backend", f"{type(e).__name__}: {e} "
                                                             f"(the fit ended with {first['stopped']})")
    names = list(ctx.par_manager.parameter_fit)
    chain = raw0["chain"]
    rng = __import__("random").Random(plan["point_seed"])
    params = models.effective_params(genome) if toy else ctx.par_config
    points = lab.gen_points(rng, params, plan["points"], outside=0.2)
    for _ in range(2):
        i, w = rng.randrange(chain.shape[0]), rng.randrange(chain.shape[1])
        if len(names) == chain.shape[2]:
            points.append(dict(zip(names, (float(v) for v in chain[i, w]))))
    got = view(ctx, points, None, params)
    if not fitlife.same_array(ctx.sampler.get_chain(), chain):
        raise Violation("samples", "the restored context does not have the stored samples")
    if ctx.sampler.nwalkers != first["settings"]["nwalkers"]:
        raise Violation("nwalkers", str(ctx.sampler.nwalkers))
    stored = None
    if plan["continues"]:
        try:
            ctx.continue_fitting(iteration=1, batch_size=batch)
        except Exception as e:
            raise Violation("unexpected-exception:continue", f"{type(e).__name__}: {e}")
        stored = read_h5(path)
        if stored["iteration"] != raw0["iteration"] + 1:
            raise Violation("stored-elsewhere", "the continued samples are not in the file the context was restored from")
    if fitlife.file_bytes(other) != untouched and other != path:
        raise Violation("stored-elsewhere", "another backend file was modified" if untouched else
                        "another backend file was created")

    # the same model built from the original settings
    apt = world.boot(98, toy=True)
    ref_plan = {**plan, "par_style": "file"}
    refdir = os.path.join(d, "reference")
    if toy:
        # original parameter file, same maps and data
        os.makedirs(refdir, exist_ok=True)
        ins = models.materialise(genome, refdir)
        ins = json.loads(json.dumps(ins).replace(refdir, d))
        par = copy.deepcopy(genome["params"])
        ins.pop("par_config")
        ref = apt.Context(ins, par_config=par)
    else:
        life = fitlife.FitLife(ref_plan, d, backend=None)
        life.apt = apt
        ref = life.build()
        ins = None
    want = view(ref, points, batch, params)
    diff = lab.first_diff(got, want)
    if diff:
        raise Violation("restored-differs", f"{diff} (the fit ended with {first['stopped']})")
    if toy:
        have = {k: v for k, v in ctx.instruct.items() if k not in ("backend_h5", "par_config")}
        ins.pop("backend_h5", None)
        diff = lab.first_diff(lab.canon(have), lab.canon(ins))
        if diff:
            raise Violation("instruct-differs", diff)
        if lab.canon(ctx.config) != lab.canon(ins.get("configs", {})):
            raise Violation("config-differs", lab.short(json.dumps(ctx.config)))
    if stored is not None:
        a, b = raw0["attrs"], stored["attrs"]
        for k in ("par_config", "instruct", "config"):
            x, y = json.loads(a[k]), json.loads(b[k])
            for z in (x, y):
                if k == "instruct":
                    z.pop("backend_h5", None)
            diff = lab.first_diff(lab.canon(y), lab.canon(x))
            if diff or (k == "instruct" and list(x["likelihoods"]) != list(y["likelihoods"])):
                raise Violation("stored-differs", f"{k}: {diff} after continuing")
        for k in ("parameter_fit", "batch_size", "nwalkers"):
            if not np.array_equal(a[k], b[k]):
                raise Violation("stored-differs", f"{k}: {b[k]} instead of {a[k]} after continuing")
    world.emit("view", json.dumps(got, sort_keys=True))
    return {"nontrivial": True, "probes": {
        "restored_after_interruption": int(first["stopped"] is not None), "restored_elsewhere": plan["where"],
        "moved": int(bool(plan["move"])), "named_" + plan.get("how", "path"): 1, "continued": int(plan["continues"]), "file_had_a_past": int(bool(plan.get("before"))),
        "instruct_file": int(plan["par_style"] == "path"), "scrambled": int(bool(plan["scramble"]))}}


def view(ctx, points, batch, params):
    """What the model is, as seen from outside.  batch None: as the restored sampler evaluates it."""
    names = list(ctx.par_manager.parameter_fit)
    out = {"fit": names, "all": sorted(ctx.par_manager.get_all_parameter()),
           "par_config": lab.canon(ctx.par_config), "manager": lab.canon(ctx.par_manager.par_config),
           "needed": sorted(ctx.needed_parameters), "likelihoods": list(ctx.likelihoods),
           "components": {k: list(v.components) for k, v in ctx.likelihoods.items()},
           "lineage": {k: v.lineage_hash for k, v in ctx.likelihoods.items()}}
    if sorted(names) == lab.fit_names(params):
        try:
            rows = []
            for p in points:
                if batch is None:
                    x = np.array([[p[n] for n in names]])
                    if not np.isfinite(x).all():
                        rows.append(None)
                        continue
                    lp, blob = ctx.sampler.compute_log_prob(x)
                    rows.append([lab.canon(float(lp[0])), lab.canon(np.float32(np.asarray(blob).ravel()[0]))])
                else:
                    if not all(np.isfinite(v) for v in p.values()):
                        rows.append(None)
                        continue
                    a, b = lab.logpost(ctx, p, batch_size=batch)
                    rows.append([lab.canon(a), lab.canon(np.float32(b))])
            out["posterior"] = rows
        except Exception as e:
            raise Violation("unexpected-exception:posterior", f"{type(e).__name__}: {e}")
        free = {k: v for k, v in ctx.par_manager.get_all_parameter().items()
                if params[k]["prior_type"] == "fixed"}
        out["fixed"] = lab.canon({k: float(v) for k, v in free.items()})
    return out


def shrink(plan):
    P = copy.deepcopy
    for k, v in (("where", 0), ("move", None), ("how", "path"), ("continues", False)):
        if plan[k] != v:
            p = P(plan)
            p[k] = v
            yield p
    if plan.get("before"):
        p = P(plan)
        del p["before"]
        yield p
    for i in range(len(plan["scramble"])):
        p = P(plan)
        del p["scramble"][i]
        yield p
    if plan["points"] > 1:
        p = P(plan)
        p["points"] = 1
        yield p
    if plan["model"]["kind"] == "toy":
        for n, spec in plan["model"]["instruct"]["likelihoods"].items():
            for k in ("remark", "left", "integer"):
                if k in spec:
                    p = P(plan)
                    del p["model"]["instruct"]["likelihoods"][n][k]
                    yield p
        if "remark" in plan["model"]["instruct"]:
            p = P(plan)
            del p["model"]["instruct"]["remark"]
            yield p
    yield from common.shrink(plan)


signature = common.signature
