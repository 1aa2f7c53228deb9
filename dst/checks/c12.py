"""C12: a storage fault while building never yields a silently different model."""

import copy
import json
import os
import random

import numpy as np

from .. import common, fitlife, lab, models
from ..seams import Violation, file_bytes, read_h5, real_open, world

RULE = ("A model is built (from dictionaries or instruct and parameter files), or restored from or plotted out of a backend "
        "file, while the simulated storage fails: files that cannot be opened, fail or end early at a chosen offset, return "
        "fewer bytes than asked for, allocations that fail while reading, JSON and backend files cut short, backend files "
        "locked. Maps and data may be named by a path while files of the same names lie in the folder that is looked in first. Several faulty attempts follow each other in one process. Each attempt must raise an error or give exactly the "
        "model of the intact files (parameters, binning, data, predictions, lineage), and after clearing the cache an attempt "
        "without faults must give it. Non-trivial: a fault struck during an attempt.")
MEASURE = "distinct sequences of (attempt, fault kind, file, outcome)"
REAL = common.REAL
STUB = common.STUB + ["reads of instruct, parameter, map and data files (a raw file that fails, stops early or returns less)"]
ASSUMPTIONS = common.ASSUMPTIONS[1:2] + [
    "A data file that lost its last lines is a valid shorter data file: cutting it short is not judged.",
    "Reads of backend files fail at the calls of h5py (attributes and data sets) or because the file is locked or cut "
    "short, not at the system calls below the HDF5 library."]
BUDGET = {
    "quick": {"runs": 100, "seconds": 68, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 10000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
PACKAGED = [("rn220.json", 2000), ("literature_lyqy.json", 64), ("neutron_low.json", 2000)]


def gen(rng, tier, i):
    clock = {"mode": "keyed", "t0": rng.randrange(10**15, 2 * 10**15)}
    attempts = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["readerr", "readerr", "shortread", "truncate", "truncate", "openerr", "memory", "fullread", "missing", "missing",
                           "h5readerr", "h5readerr"])
        f = {"kind": kind, "pick": rng.randrange(10**6), "nth": rng.choice([None, None, 1, 2, 3]),
             "frac": rng.choice([0.0, rng.random(), rng.random(), 0.999, 1.0]), "seed": rng.randrange(1000),
             "errno": rng.choice(["EIO", "EMFILE", "EACCES", "ENOENT", "ESTALE"])}
        what = rng.choice(["build", "build", "restore", "plot"] if kind != "h5readerr" else ["restore", "restore", "plot"])
        attempts.append({"what": what, "style": rng.choice(["dict", "path"]),
                         "fault": f, "clear": rng.random() < 0.8, "retry": rng.random() < 0.5})
    if i % 45 == 17:
        f, b = PACKAGED[(i // 45) % len(PACKAGED)]
        for a in attempts:
            a["what"], a["style"] = "build", "dict"
            if a["fault"]["kind"] in ("missing", "h5readerr"):
                a["fault"]["kind"] = "openerr"
        return {"model": {"kind": "packaged", "file": f, "batch_size": b}, "attempts": attempts, "clock": clock,
                "point_seed": rng.randrange(10**6), "pyrandom": 2}
    genome = models.gen(rng, max_llh=2)
    far = rng.choice([None, None, "abs", "abs", "rel"])
    if far:
        # files named by a path, with others of the same names in the folder that is looked in first
        for k in ("toy_ly", "toy_cut"):
            genome["instruct"]["configs"].setdefault(k, models.DEFAULTS[k])
        if i % 2:
            for a in attempts[::2]:
                a["what"], a["fault"]["kind"] = "build", "missing"
    return {"model": genome, "far": far, "attempts": attempts, "clock": clock, "point_seed": rng.randrange(10**6), "pyrandom": 2}


class Site:
    """The files of a run, and the ways to get a model out of them."""

    def __init__(self, plan, d):
        self.plan, self.d, self.g = plan, d, plan["model"]
        self.dir = os.path.join(d, "m")
        self.packaged = self.g["kind"] == "packaged"
        self.h5 = os.path.join(self.dir, "chain.h5")
        self.points = None
        self.hidden = None
        self.trace = {}

    def prepare(self, apt):
        if self.packaged:
            self.ins = apt.utils.load_json(self.g["file"])
            self.ins["backend_h5"] = None
            return
        self.ins = models.materialise(self.g, self.dir)
        if self.plan.get("far"):
            self.move()
        with open(os.path.join(self.dir, "instruct.json"), "w") as f:
            json.dump(self.ins, f)
        ins = dict(self.ins, backend_h5=self.h5)
        ctx = lab.build(apt, ins)
        np.random.seed(5)
        n = max(4, 2 * len(ctx.par_manager.parameter_fit))
        lab.set_clock("fit")
        ctx.fitting(nwalkers=n, iteration=2, batch_size=self.g["batch_size"])
        self.plottable = bool(np.isfinite(read_h5(self.h5)["log_prob"]).any())
        self.h5_image = file_bytes(self.h5)

    def move(self):
        """Put the configured files into another folder and leave files of the same names but other contents behind."""
        far = os.path.join(self.dir, "far")
        models.materialise(self.g, far)
        models.materialise(dict(self.g, palette=1.4 * self.g.get("palette", 1.0),
                                data={k: dict(v, seed=v["seed"] + 1) for k, v in self.g["data"].items()}), self.dir)
        prefix = "far" if self.plan["far"] == "rel" else far

        def there(v):
            if isinstance(v, str) and os.path.exists(os.path.join(far, os.path.basename(v))):
                return os.path.join(prefix, os.path.basename(v))
            if isinstance(v, list):
                return [there(x) for x in v]
            if isinstance(v, dict):
                return {k: there(x) for k, x in v.items()}
            return v

        self.ins["configs"] = there(self.ins["configs"])
        for spec in self.ins["likelihoods"].values():
            if "data_file_name" in spec:
                spec["data_file_name"] = there(spec["data_file_name"])

    def where(self, name):
        far = os.path.join(self.dir, "far", name)
        if self.plan.get("far") and f"far/{name}\"" in json.dumps(self.ins):
            return far
        return os.path.join(self.dir, name)

    def attempt(self, apt, a):
        if a["what"] == "build":
            if a["style"] == "path" and not self.packaged:
                return apt.Context(os.path.join(self.dir, "instruct.json"))
            return lab.build(apt, self.ins)
        if a["what"] == "restore":
            return apt.Context.from_backend(self.h5)
        return apt.Plotter(self.h5)

    def observe(self, apt, a, got):
        if a["what"] == "plot":
            return {"chain": lab.canon([got.chain, got.posterior, got.prior, got.flat_chain, got.flat_posterior,
                                        got.flat_prior]), "names": [str(x) for x in got.param_names],
                    "mpe": lab.canon(got.param_mpe), "prior": lab.canon(got.param_prior)}
        if self.points is None:
            self.points = lab.gen_points(random.Random(self.plan["point_seed"]), got.par_config, 2)
        out = lab.describe(got, self.g, self.points, 9)
        out["par_config"], out["config"] = lab.canon(got.par_config), lab.canon(got.config)
        if a["what"] == "restore":
            raw = got.sampler.backend
            out["chain"] = lab.canon([raw.get_chain(), raw.get_log_prob(), raw.get_blobs()])
            # what it will do when it continues
            names = list(got.par_manager.parameter_fit)
            p = next((p for p in self.points if all(np.isfinite(v) for v in p.values())), None)
            lab.set_clock("sampler")
            x = np.array([[p[n] for n in names]]) if p else np.asarray(raw.get_chain()[-1][:1])
            out["sampler"] = lab.canon([got.sampler.nwalkers, np.asarray(got.sampler.compute_log_prob(x)[0])])
        return out

    def hide(self, name):
        p = self.where(name)
        os.rename(p, p + ".hidden")
        self.hidden = p

    def unhide(self):
        if self.hidden:
            os.rename(self.hidden + ".hidden", self.hidden)
            self.hidden = None

    def files(self, a):
        """Files whose reading may fail in this attempt: those that are read, some more often."""
        out = sorted(self.trace.get(a["what"]) or self.trace["build"])
        if not self.packaged:
            if a["style"] == "path" and a["what"] == "build":
                out += ["instruct.json"] * 3
            if a["what"] == "build":
                out += ["par.json"] * 2
        # there are many maps, but few data files
        out += [x for x in out if x.endswith((".csv", ".pkl"))] * 3
        return out + ["*"]

    def nth(self, a, name, n):
        """Which of the reads of a file fails: all or one of those that happen."""
        k = self.trace.get(a["what"], {}).get(name, 1)
        return None if n is None else (n - 1) % k + 1


def arm(site, apt, a):
    """Plan the fault of one attempt; returns what to undo afterwards."""
    f = a["fault"]
    rng = random.Random(f["pick"])
    world.reads_of, world.read_faults, world.faults, world.life_counts = {}, [], [], {}
    if f["kind"] == "h5readerr" and a["what"] != "build":
        world.faults = [{"kind": "h5readerr", "at": "h5read", "k": 1 + f["seed"] % 12,
                         "exc": "KeyError" if f["seed"] % 5 == 0 else "OSError"}]
        return "h5readerr chain.h5"
    if a["what"] in ("restore", "plot") and (f["kind"] in ("truncate", "openerr", "fullread") or a["what"] == "plot"):
        if f["kind"] == "openerr":
            world.faults = [{"kind": "h5err", "at": "h5open", "k": f["seed"] % 6 + 1}]
        elif f["kind"] in ("truncate", "fullread"):
            n = len(site.h5_image)
            cut = min(n - 1, int(n * f["frac"]))
            with real_open(site.h5, "wb") as fh:
                fh.write(site.h5_image[:cut])
            world.fired("truncate")
        else:
            world.faults = [{"kind": "evalerr", "at": "h5open", "k": f["seed"] % 4 + 1, "exc": "MemoryError"}]
        return f["kind"] + " chain.h5"
    files = site.files(a)
    name = rng.choice(files)
    kind = f["kind"]
    if kind == "memory":
        world.faults = [{"kind": "evalerr", "at": "fread", "k": f["seed"] % 25 + 1, "exc": "MemoryError"}]
        return "memory"
    if kind == "missing":
        # the file is not there during this attempt
        if name == "*":
            name = "par.json"
        configured = [x for x in files if x.startswith("toy_") and x in json.dumps(site.ins)]
        if configured and f["seed"] % 3:
            name = rng.choice(configured)
        site.hide(name)
        world.fired("missing")
        return f"missing {name}"
    fault = {"kind": kind, "file": name, "nth": site.nth(a, name, f["nth"]), "seed": f["seed"], "errno": f["errno"], "offset": 0}
    if kind == "fullread":
        fault["kind"], kind = "shortread", "shortread"
        fault["file"] = name = "*"
        fault["nth"] = None
    if kind == "truncate":
        name = fault["file"] = rng.choice([x for x in files if x.endswith(".json")] or ["*"])
    if kind in ("truncate", "readerr"):
        size = 400
        if name != "*":
            try:
                p = site.where(name)
                size = os.path.getsize(p if os.path.exists(p) else apt.utils._get_abspath(name))
            except FileNotFoundError:
                pass
        fault["offset"] = int(size * f["frac"]) if kind == "readerr" else min(size - 1, int(size * f["frac"]))
    world.read_faults = [fault]
    return f"{kind} {name}"


def disarm(site):
    world.read_faults, world.faults = [], []
    site.unhide()
    if not site.packaged:
        with real_open(site.h5, "wb") as fh:
            fh.write(site.h5_image)


def run(plan, leg, prev, d):
    site = Site(plan, d)
    apt = world.boot(1, toy=True)
    world.faults = []
    try:
        site.prepare(apt)
        want = {}
        for what in ["build"] + ([] if site.packaged else ["restore", "plot"][: 1 + site.plottable]):
            apt = world.boot(2, toy=True)
            a = {"what": what, "style": "dict"}
            world.reads_of = {}
            got = site.attempt(apt, a)
            site.trace[what] = dict(world.reads_of)
            want[what] = site.observe(apt, a, got)
    except Exception as e:
        raise Violation("build-failed", f"{type(e).__name__}: {e}")
    for a in plan["attempts"]:
        if a["what"] == "plot" and "plot" not in want:
            a["what"] = "restore"
    apt = world.boot(3, toy=True)
    world.faults = []
    probes = {"attempts": 0, "errors": 0, "intact": 0, "retries": 0}
    fired = 0
    for j, a in enumerate(plan["attempts"]):
        before = sum(world.fault_counts.values())
        what = arm(site, apt, a)
        probes["attempts"] += 1
        err, got = None, None
        try:
            got = site.attempt(apt, a)
        except Exception as e:  # any error will do
            err = e
        struck = sum(world.fault_counts.values()) > before
        fired += struck
        disarm(site)
        world.emit("attempt", a["what"], what, None if err is None else type(err).__name__)
        if err is not None and not struck:
            # nothing was wrong with the storage
            if j and not plan["attempts"][j - 1].get("cleared"):
                pass
            else:
                raise Violation("exception", f"attempt {j} ({a['what']}): {type(err).__name__}: {err}")
        if got is not None and (j == 0 or plan["attempts"][j - 1].get("cleared")):
            judge(site, apt, a, got, want, f"attempt {j} ({a['what']}, {what})")
            probes["intact"] += 1
        probes["errors"] += err is not None
        a["cleared"] = a["clear"] or a["retry"]
        if a["cleared"]:
            apt.clear_cache()
        if a["retry"]:
            probes["retries"] += 1
            again(site, apt, a, want, f"the attempt after attempt {j} ({what}, {type(err).__name__})")
            apt.clear_cache()
    apt.clear_cache()
    again(site, apt, {"what": "build", "style": "dict"}, want, "the last attempt")
    return {"nontrivial": fired > 0, "probes": probes}


def again(site, apt, a, want, label):
    world.life_counts = {}
    try:
        got = site.attempt(apt, a)
    except Exception as e:
        raise Violation("retry-failed", f"{label}: {type(e).__name__}: {e}")
    judge(site, apt, a, got, want, label, "retry")


def judge(site, apt, a, got, want, label, kind="silent"):
    try:
        o = site.observe(apt, a, got)
    except Exception as e:
        raise Violation(f"{kind}-unusable:{a['what']}", f"{label}: {type(e).__name__}: {e}")
    diff = lab.first_diff(o, want[a["what"]])
    if diff:
        raise Violation(f"{kind}-difference:{a['what']}", f"{label}: {diff}")


def shrink(plan):
    P = copy.deepcopy
    for j in range(len(plan["attempts"])):
        if len(plan["attempts"]) > 1:
            p = P(plan)
            del p["attempts"][j]
            yield p
        for k in ("retry", "clear"):
            if plan["attempts"][j][k]:
                p = P(plan)
                p["attempts"][j][k] = False
                yield p
    if plan.get("far"):
        p = P(plan)
        p["far"] = None
        yield p
    yield from common.shrink_model(plan)


def signature(world, plan):
    return repr([e for e in world.log if e[0] in ("boot", "fault", "attempt")])
