"""Shared pieces of the fit-history checks: plan generation, shrinking, execution, bookkeeping."""

import copy
import hashlib

import numpy as np

from . import fitlife, models
from .seams import LineProbe, Violation, world

KILLS = ["kill", "kill", "kill", "interrupt", "interrupt", "evalerr", "h5err", "h5readerr", "enospc"]

REAL = ["appletree (unmodified, from /repo)", "emcee sampler and HDF backend", "jax/XLA CPU", "h5py/HDF5",
        "numpy", "scipy", "pandas"]
STUB = ["time module as seen by appletree (simulated clock)",
        "process death and restart (module state purged and re-imported in one interpreter)",
        "durability of an HDF5 file across a kill (bytes as of the last completed open/close session)",
        "detector physics in most runs: a small toy model written against the public plugin API"]
ASSUMPTIONS = [
    "An HDF5 open/close session is atomic with respect to a kill: either all or none of its writes survive; "
    "torn writes inside the HDF5 library are out of scope.",
    "The machine, library versions and XLA flags do not change between the lives of a fit.",
    "numpy's global random generator is seeded by the user immediately before a new fit.",
]


def gen_plan(rng, kinds=KILLS, max_lives=4, tight=None, memory=0.12, par_styles=("file", "file", "path"),
             fault_free=0.08, max_llh=2, max_fit=3, long=False):
    if long:
        max_llh, max_fit, max_lives = 1, 2, 2
    genome = models.gen(rng, max_llh=max_llh, tight=(rng.random() < 0.3 if tight is None else tight),
                        max_fit=max_fit)
    fit = fitlife.gen_fit(rng, genome, long)
    in_memory = rng.random() < memory
    lives = []
    n_lives = 1 if rng.random() < fault_free else rng.randint(1, max_lives - 1) + 1
    n_lives = 1 if in_memory else n_lives
    ks = [k for k in kinds if k not in ("kill", "h5err", "h5readerr", "enospc")] if in_memory else kinds
    for i in range(n_lives):
        faults = []
        if ks and not (n_lives == 1 and not in_memory):
            for _ in range(rng.choice([1, 1, 2])):
                faults += fitlife.gen_faults(rng, fit, ks, i)
        lives.append({"np_seed": rng.randrange(2**31), "faults": faults})
    return {
        "model": genome,
        "fit": fit,
        "clock": {"mode": rng.choice(["keyed", "keyed", "frozen"]), "t0": rng.randrange(10**15, 2 * 10**15)},
        "lives": lives,
        "reactions": [rng.choice(["same", "same", "restore", "newproc"]) for _ in range(6)],
        "backend": None if in_memory else "chain.h5",
        "par_style": rng.choice(list(par_styles)),
        "pyrandom": rng.randrange(10**6),
    }


def packaged_plan(rng, file, nwalkers, batch, total=3):
    kill_at = rng.randint(nwalkers + 1, nwalkers * (total + 1))
    return {
        "model": {"kind": "packaged", "file": file, "batch_size": batch, "params": None},
        "fit": {"nwalkers": nwalkers, "total": total, "chunks": [total], "moves": None, "repeat_times": 1,
                "seed": rng.randrange(2**31)},
        "clock": {"mode": "keyed", "t0": rng.randrange(10**15, 2 * 10**15)},
        "lives": [{"np_seed": rng.randrange(2**31),
                   "faults": [{"kind": "kill", "at": "eval", "k": kill_at}]}],
        "reactions": [],
        "backend": "chain.h5",
        "par_style": "file",
        "pyrandom": rng.randrange(10**6),
    }


def shrink(plan):
    """Simpler plans, most drastic first."""
    P = copy.deepcopy

    def put(path, value):
        p = P(plan)
        d = p
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = value
        return p

    lives = plan.get("lives", [])
    for i in range(len(lives)):
        if len(lives) > 1:
            p = P(plan)
            del p["lives"][i]
            yield p
    for i, life in enumerate(lives):
        for j in range(len(life["faults"])):
            p = P(plan)
            del p["lives"][i]["faults"][j]
            yield p
    if plan.get("reactions"):
        yield put(["reactions"], [])
    fit = plan.get("fit")
    if fit:
        if fit["moves"]:
            yield put(["fit", "moves"], None)
        if fit["repeat_times"] != 1:
            yield put(["fit", "repeat_times"], 1)
        if fit["total"] > 1:
            p = P(plan)
            p["fit"]["total"] -= 1
            p["fit"]["chunks"] = [min(c, p["fit"]["total"]) for c in fit["chunks"]]
            yield p
        if len(fit["chunks"]) > 1:
            yield put(["fit", "chunks"], [fit["total"]])
            for i in range(len(fit["chunks"])):
                p = P(plan)
                del p["fit"]["chunks"][i]
                yield p
    if plan.get("clock", {}).get("mode") not in (None, "frozen"):
        p = P(plan)
        p["clock"] = {"mode": "frozen", "t0": plan["clock"].get("t0", 10**15)}
        yield p
    if plan.get("par_style") not in (None, "file"):
        yield put(["par_style"], "file")
    for i, life in enumerate(lives):
        for j, f in enumerate(life["faults"]):
            if f["k"] > 1:
                for k in sorted({1, f["k"] // 2, f["k"] - 1}):
                    yield put(["lives", i, "faults", j, "k"], k)
    yield from shrink_model(plan)


def shrink_model(plan):
    P = copy.deepcopy
    g = plan.get("model")
    if not g or g.get("kind") != "toy":
        return
    ins = g["instruct"]
    for k in list(ins["configs"]):
        if k == "toy_eff":
            continue
        p = P(plan)
        del p["model"]["instruct"]["configs"][k]
        yield p
    for name in list(ins["likelihoods"]):
        if len(ins["likelihoods"]) > 1:
            p = P(plan)
            spec = p["model"]["instruct"]["likelihoods"].pop(name)
            if fixup(p["model"]):
                yield p
    for name, spec in ins["likelihoods"].items():
        for c, v in spec["components"].items():
            if isinstance(v, dict):
                p = P(plan)
                s = p["model"]["instruct"]["likelihoods"][name]
                del s["components"][c]
                s["copy_parameters"].pop(c + "_rate", None)
                if fixup(p["model"]):
                    yield p
        if spec.get("parameter_alias"):
            p = P(plan)
            s = p["model"]["instruct"]["likelihoods"][name]
            al = s.pop("parameter_alias")
            for k, v in al.items():
                if v not in p["model"]["params"]:
                    p["model"]["params"][v] = p["model"]["params"][k]
            if fixup(p["model"]):
                yield p


def needed(genome):
    """Reference for which (source) parameters a toy genome needs."""
    out = set()
    ins = genome["instruct"]
    conf = ins["configs"]
    for name, spec in ins["likelihoods"].items():
        al = {v: k for k, v in spec.get("parameter_alias", {}).items()}
        lit = spec.get("type") == "LikelihoodLit"
        need = {"ly", "fluct"} if lit else {"ly", "fluct", "g1", "g2"}
        if not lit:
            e = conf.get("toy_eff", ["", "", ""])
            if isinstance(e, dict):
                e = e.get(name, "")
            if isinstance(e, list):
                need.add(e[3] if len(e) == 4 else "toy_eff_sigma")
        out |= {al.get(n, n) for n in need}
        out |= set(spec["copy_parameters"].values())
    return out


def fixup(genome):
    """Drop parameters, files and per-likelihood settings nobody uses any more."""
    ins = genome["instruct"]
    for k, v in list(ins["configs"].items()):
        if isinstance(v, dict):
            ins["configs"][k] = {n: x for n, x in v.items() if n in ins["likelihoods"]}
            if not ins["configs"][k]:
                del ins["configs"][k]
    need = needed(genome)
    if not need <= set(genome["params"]):
        return False
    genome["params"] = {k: v for k, v in genome["params"].items() if k in need}
    files = set()
    for spec in ins["likelihoods"].values():
        files.add(spec.get("data_file_name"))
        for v in spec["components"].values():
            if isinstance(v, dict):
                files.add(v["file_name"])
    genome["data"] = {k: v for k, v in genome["data"].items() if k in files}
    return any(v["prior_type"] != "fixed" for v in models.effective_params(genome).values())


def run_life(plan, directory, hooks=None, need_lines=None):
    """Execute the fit history of a plan."""
    life = fitlife.FitLife(plan, directory, backend=plan.get("backend"), hooks=hooks)
    lines = any(f["at"] in ("line", "evalline") for l in plan["lives"] for f in l["faults"])
    if lines:
        with LineProbe():
            life.run()
    else:
        life.run()
    return life


def reference_run(plan, directory):
    """The same fit, uninterrupted, in a process of its own."""
    ref = copy.deepcopy(plan)
    ref["lives"] = [{"np_seed": 424242, "faults": []}]
    ref["reactions"] = []
    ref["fit"]["chunks"] = [plan["fit"]["total"]]
    ref["par_style"] = "file" if plan.get("par_style") == "path" else plan.get("par_style", "file")
    ref["mutate_instruct"] = False
    life = fitlife.FitLife(ref, directory, backend="reference.h5" if plan.get("backend") else None)
    life.run()
    return life


def log_raw(tag, raw):
    if raw is None:
        world.emit(tag, None)
        return
    h = hashlib.sha256()
    for k in ("chain", "log_prob", "blobs", "accepted"):
        if raw[k] is not None:
            h.update(np.ascontiguousarray(raw[k]).tobytes())
    world.emit(tag, raw["iteration"], h.hexdigest())


def signature(world, plan):
    """Shape of the schedule: what happened in which order, without the numbers."""
    return repr([e for e in world.log if e[0] in ("boot", "fault", "call", "ret", "react", "op")])
