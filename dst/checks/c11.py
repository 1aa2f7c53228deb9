"""C11: lineage identifies exactly what a model was built from."""

import copy
import json
import os
import pickle
import random
import shutil

import numpy as np

from .. import common, lab, models
from ..seams import LineProbe, Violation, world
from . import c07

RULE = ("Seeded histories of one machine: a model and several one-setting variations of it (constants, sets of constants, map, "
        "data and fixed-component contents, binning, plugins, components, instruct entries, parameters) are built in random "
        "order, rebuilt, rebuilt in other directories and in newly started processes, between failed and interrupted builds, "
        "short reads, cache clearing, evaluations, files being rewritten or deleted. An independent description of what each "
        "model was built from decides for every pair of plugins, components, likelihoods and contexts whether their lineages "
        "must differ or must be the same; every lineage is read again after every operation. Non-trivial: at least one pair "
        "that must differ and one that must be the same was compared.")
MEASURE = "distinct (sequence of operations, variations)"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS[1:2] + [
    "Files do not change while one model is being built.",
    "Settings that cannot change what is predicted by a plugin (such as the file name of a map with the same content) may or "
    "may not change its lineage."]
BUDGET = {
    "quick": {"runs": 160, "seconds": 75, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 15000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
# what the plugins of each component read: constants, maps (with the role each file plays), sets of constants
USES = {
    "ToyBand": {"const": ["toy_emin", "toy_emax", "toy_gain"], "map": ["toy_ly", "toy_cut"], "sigma": ["toy_eff"]},
    "ToyPeak": {"const": ["toy_line", "toy_width", "toy_gain"], "map": ["toy_ly", "toy_cut"], "sigma": ["toy_eff"]},
    "ToyMapped": {"const": ["toy_gain"], "map": ["toy_ly", "toy_spec", "toy_field"], "sigma": ["toy_eff"]},
    "ToyYield": {"set": ["toy_points"], "map": ["toy_ly"]},
    "ToyGlitchBand": {"const": ["toy_emin", "toy_emax", "toy_gain", "toy_glitch_mode", "toy_glitch_at"],
                      "map": ["toy_ly"], "sigma": ["toy_eff"]},
}
USES["ToyBandSim"] = USES["ToyBand"]
USES["ToyGlitchSim"] = USES["ToyGlitchEps"] = USES["ToyGlitchBand"]
PLUGINS = {
    "ToyEnergy": {"const": ["toy_emin", "toy_emax"]}, "ToyLight": {"map": ["toy_ly"]}, "ToyObs": {"const": ["toy_gain"]},
    "ToyEff": {"sigma": ["toy_eff"]}, "ToyCut": {"map": ["toy_cut"]}, "ToyLine": {"const": ["toy_line", "toy_width"]},
    "ToySpectrum": {"map": ["toy_spec"]}, "ToyField": {"map": ["toy_field"]},
    "ToyPoints": {"set": ["toy_points"]},
}
DEFAULT = dict(models.DEFAULTS, toy_glitch_mode=0, toy_glitch_at=1.0)
SET = {"ToyBand": "band", "ToyBandSim": "band", "ToyPeak": "peak", "ToyMapped": "mapped", "ToyYield": "yield", "ToyGlitchBand": "glitch",
       "ToyGlitchEps": "glitch", "ToyGlitchSim": "glitch"}


# ---------------------------------------------------------------- variations
def vary(rng, g):
    """One change of one thing; returns its name."""
    ins = g["instruct"]
    names = list(ins["likelihoods"])
    hist = [n for n in names if ins["likelihoods"][n].get("type") != "LikelihoodLit"]
    configs = ins["configs"]
    for _ in range(40):
        k = rng.choice(["const", "const", "set", "swap", "tail", "tail", "scaler", "realias", "mapname", "mapcontent", "mapcontent", "eff", "data", "fixed", "bins", "clip",
                        "class", "drop", "add", "par", "par", "extra", "alias", "lit", "digit"])
        n = rng.choice(names)
        spec = ins["likelihoods"][n]
        if k in ("const", "digit"):
            c = rng.choice(["toy_emin", "toy_emax", "toy_gain", "toy_line", "toy_width"])
            old = configs.get(c, DEFAULT[c])
            step = 0.125 if k == "const" else 1e-7
            if isinstance(old, dict):
                old[n] += step
            elif rng.random() < 0.5:
                configs[c] = {m: old for m in names}
                configs[c][n] += step
            else:
                configs[c] = old + step
            return f"{k} {c}"
        if k == "set":
            v = copy.deepcopy(configs.get("toy_points", DEFAULT["toy_points"]))
            if isinstance(v, dict):
                continue
            v[1][rng.randrange(2)][rng.randrange(3)] += 0.01
            configs["toy_points"] = v
            return k
        if k == "swap":
            # the same values in another order
            v = copy.deepcopy(configs.get("toy_points", DEFAULT["toy_points"]))
            if isinstance(v, dict):
                continue
            col = v[1][rng.randrange(2)]
            a, b = rng.sample(range(3), 2)
            if col[a] == col[b]:
                continue
            col[a], col[b] = col[b], col[a]
            configs["toy_points"] = v
            return k
        if k == "tail" and g["data"]:
            # only the very end of a file differs
            f = rng.choice(sorted(g["data"]) + sorted(models.palette()))
            g["touched"] = dict(g.get("touched", {}), **{f: "tail"})
            return f"{k} {f}"
        if k in ("scaler", "realias"):
            h = copy.deepcopy(g)
            if scaler(rng, h, n) if k == "scaler" else realias(rng, h, n):
                g.clear()
                g.update(h)
                return k
            continue
        if k == "mapname":
            c = rng.choice(["toy_ly", "toy_cut", "toy_spec", "toy_field"])
            old = configs.get(c, DEFAULT[c])
            new = f"{c}_{rng.randrange(3)}.json"
            if isinstance(old, dict):
                old[n] = new
            else:
                configs[c] = {m: old for m in names}
                configs[c][n] = new
            return f"{k} {c}"
        if k == "mapcontent":
            f = rng.choice(sorted(models.palette()))
            g["touched"] = dict(g.get("touched", {}), **{f: rng.choice(["value", "edge", "method-free"])})
            return f"{k} {f}"
        if k == "eff":
            i = rng.randrange(3)
            old = configs.get("toy_eff", DEFAULT["toy_eff"])
            if isinstance(old, dict):
                old = old[n]
                if isinstance(old, str):
                    continue
                new = list(old)
                new[i] = f"toy_eff_{['', 'lo_', 'hi_'][i]}{rng.randrange(3)}.json"
                configs["toy_eff"][n] = new
            else:
                if isinstance(old, str):
                    continue
                new = list(old)
                new[i] = f"toy_eff_{['', 'lo_', 'hi_'][i]}{rng.randrange(3)}.json"
                configs["toy_eff"] = new
            return k
        if k == "data" and g["data"]:
            f = rng.choice(sorted(g["data"]))
            g["data"][f]["n"] += 1
            return f"data {f}"
        if k == "fixed":
            f = [x for x in sorted(g["data"]) if x.startswith("fixed")]
            if not f:
                continue
            g["data"][f[0]]["seed"] += 1
            return k
        if k == "bins" and n in hist:
            if isinstance(spec["bins"], int):
                spec["bins"] += 1
            elif spec["bins_type"] == "irreg":
                b = spec["bins"]
                while isinstance(b[-1], list):
                    b = b[-1]
                b[1] += 1
            elif isinstance(spec["bins"][-1], list):
                spec["bins"][-1][1] += 0.5
            else:
                spec["bins"][-1] += 1
            return k
        if k == "clip" and n in hist:
            key = rng.choice([x for x in ("clip", "x_clip", "y_clip") if x in spec])
            spec[key] = [spec[key][0], spec[key][1] + rng.choice([0.5, -0.25])]
            if spec["bins_type"] == "irreg":
                continue
            return k
        if k == "class" and n in hist:
            for c, v in spec["components"].items():
                if isinstance(v, str):
                    spec["components"][c] = rng.choice([x for x in ("ToyBand", "ToyPeak", "ToyBandSim", "ToyMapped") if x != v])
            return k
        if k == "drop" and n in hist and len(spec["components"]) > 1:
            c = rng.choice(sorted(x for x, v in spec["components"].items() if isinstance(v, dict)))
            del spec["components"][c]
            source = spec["copy_parameters"].pop(c + "_rate")
            if source not in common.needed(g):
                del g["params"][source]
            return k
        if k == "add" and n in hist:
            f = f"fixed_{n}.csv"
            g["data"][f] = {"seed": 3, "n": 30, "line": False}
            spec["components"][f"{n}_more"] = {"component_cls": "ToyFixed", "file_name": f}
            spec["copy_parameters"][f"{n}_more_rate"] = sorted(spec["copy_parameters"].values())[0]
            return k
        if k == "par":
            p = rng.choice(sorted(models.effective_params(g)))
            s = [q for q in sorted(g["params"]) if q == p] or sorted(g["params"])
            v = g["params"][s[0]]
            what = rng.choice(["unit", "doc", "init_mean", "init_std", "allowed_range", "args"])
            if what in ("unit", "doc"):
                v[what] = v[what] + "'"
            elif what in ("init_mean", "init_std"):
                v[what] *= 1.0001
            elif what == "allowed_range":
                v[what] = [v[what][0], v[what][1] * 1.001 + 0.001]
            elif v["prior_args"]:
                a = rng.choice(sorted(v["prior_args"]))
                v["prior_args"][a] = v["prior_args"][a] * 1.001 + 1e-4
            else:
                continue
            if s[0] not in models.effective_params(g) and s[0] not in {
                    x for m in ins["likelihoods"].values() for x in m["copy_parameters"].values()}:
                continue
            return f"par {what}"
        if k == "extra":
            ins["remark"] = rng.choice(["a", "b", 1, 2.5, None, [1, 2]])
            return k
        if k == "lit":
            for m in names:
                if m not in hist:
                    a = ins["likelihoods"][m]["logpdf_args"][1]
                    a[0][0] += 0.25
                    return k
    ins["remark"] = "changed"
    return "extra"


def scaler(rng, g, n):
    """Another parameter scales the uncertainty of the acceptance of one likelihood, or none any more."""
    spec, configs = g["instruct"]["likelihoods"], g["instruct"]["configs"]
    if spec[n].get("type") == "LikelihoodLit":
        return False
    old = configs.get("toy_eff", DEFAULT["toy_eff"])
    cur = old[n] if isinstance(old, dict) else old
    files = [cur] * 3 if isinstance(cur, str) else list(cur[:3])
    new = rng.choice([files, files + ["other_pull"], files + ["acc_pull"]] + ([files[0]] if len(set(files)) == 1 else []))
    if new == cur:
        return False
    configs["toy_eff"] = {m: new if m == n else copy.deepcopy(old[m] if isinstance(old, dict) else old) for m in spec}
    template = {"prior_type": "norm", "prior_args": {"mean": 0.0, "std": 1.0}, "allowed_range": [-3.0, 3.0],
                "init_mean": 0.1, "init_std": 0.5, "unit": "", "doc": ""}
    for q in common.needed(g):
        g["params"].setdefault(q, copy.deepcopy(template))
    return common.fixup(g)


def realias(rng, g, n):
    """A parameter of one likelihood gets, or loses, an alias."""
    spec = g["instruct"]["likelihoods"][n]
    alias = spec.setdefault("parameter_alias", {})
    p = rng.choice(["ly", "fluct"])
    have = [a for a, b in alias.items() if b == p]
    if have:
        template = g["params"][have[0]]
        del alias[have[0]]
    else:
        template = g["params"][p]
        alias[f"{p}_other"] = p
    if not alias:
        del spec["parameter_alias"]
    for q in sorted(common.needed(g)):
        g["params"].setdefault(q, copy.deepcopy(template))
    return common.fixup(g)


def gen(rng, tier, i):
    clock = {"mode": "frozen", "t0": rng.randrange(10**15, 2 * 10**15)}
    if i % 60 == 21:
        return {"packaged": ["rn220.json", "neutron_low.json", "literature_lyqy.json"][(i // 60) % 3],
                "seed": rng.randrange(10**6), "clock": clock, "pyrandom": 1, "n": 3}
    base = models.gen(rng, max_llh=3)
    while True:
        try:
            common.needed(base)
            break
        except KeyError:
            base = models.gen(rng, max_llh=3)
    if rng.random() < 0.5:
        # long files
        base["pad"] = True
        for f in base["data"].values():
            f["n"] += 150
    variants, names = [base], ["base"]
    for _ in range(rng.randint(2, 4)):
        g = copy.deepcopy(rng.choice(variants))
        names.append(vary(rng, g))
        variants.append(g)
    ops = []
    order = list(range(len(variants))) + [rng.randrange(len(variants)) for _ in range(rng.randint(1, 3))]
    rng.shuffle(order)
    for v in order:
        ops.append({"op": "build", "v": v, "dir": rng.choice(["same", "same", "other"]), "new": rng.random() < 0.15,
                    "abs": rng.random() < 0.15, "short": rng.randrange(1000) if rng.random() < 0.3 else None,
                    "dump": rng.random() < 0.3})
        if rng.random() < 0.5:
            ops.append(rng.choice([
                {"op": "rewrite", "seed": rng.randrange(1000)}, {"op": "delete", "seed": rng.randrange(1000)},
                {"op": "clear"}, {"op": "global"}, {"op": "eval"}, {"op": "fit"}, {"op": "summary"},
                {"op": "bad", "v": rng.randrange(len(variants)), "how": rng.choice(["missing", "readerr", "interrupt"]),
                 "k": rng.choice([rng.randint(1, 12), rng.randint(1, 4000)]), "seed": rng.randrange(1000)}]))
    return {"variants": variants, "names": names, "ops": ops, "full": rng.random() < 0.2, "clock": clock, "pyrandom": 1}


def materialise(g, where, absolute):
    ins = models.materialise(g, where)
    for f in models.palette() if g.get("pad") else []:
        with open(os.path.join(where, f)) as fh:
            m = json.load(fh)
        with open(os.path.join(where, f), "w") as fh:
            json.dump({"comment": "x" * 5000, **m}, fh)
    for f, how in g.get("touched", {}).items():
        p = os.path.join(where, f)
        if f.endswith(".pkl"):
            with open(p, "rb") as fh:
                table = pickle.load(fh)
            table.loc[len(table) - 1, "cs2"] += 1e-9
            with open(p, "wb") as fh:
                pickle.dump(table, fh, protocol=4)
            continue
        if f.endswith(".csv"):
            with open(p) as fh:
                text = fh.read().rstrip()
            with open(p, "w") as fh:
                fh.write(text[:-1] + ("4" if text[-1] != "4" else "3") + "\n")
            continue
        with open(p) as fh:
            m = json.load(fh)
        if how == "tail":
            key = list(m)[-1]
            end = m[key]
            if isinstance(end, str):
                m[key] = end + " "
            elif isinstance(end[-1], list):
                end[-1][-1] *= 1.0001
            else:
                end[-1] *= 1.0001
        elif how == "value":
            if isinstance(m["map"][1], list):
                m["map"][1][2] += 1e-6
            else:
                m["map"][1] += 1e-6
        elif how == "edge":
            m["coordinate_system" if "coordinate_system" in m else "coordinate_uppers"][-1] += 0.5
        else:
            m["remark"] = "different"
        with open(p, "w") as fh:
            json.dump(m, fh)
    if absolute:
        # the maps are named by their full path
        def full(v):
            if isinstance(v, str) and v.endswith(".json"):
                return os.path.join(where, v)
            if isinstance(v, list):
                return [full(x) for x in v]
            if isinstance(v, dict):
                return {k: full(x) for k, x in v.items()}
            return v

        ins["configs"] = {k: full(v) for k, v in ins["configs"].items()}
    return ins


def content(where, name):
    with open(os.path.join(where, os.path.basename(name)), encoding="latin-1") as f:
        return f.read()


def resolve(g, conf, llh):
    v = g["instruct"]["configs"].get(conf, DEFAULT[conf])
    return v[llh] if isinstance(v, dict) else v


def reads(g, uses, llh, where):
    """(what must distinguish, everything) for a set of configurations."""
    must, every = {}, {}
    for c in uses.get("const", []):
        must[c] = resolve(g, c, llh)
        every[c] = must[c]
    for c in uses.get("set", []):
        v = resolve(g, c, llh)
        must[c] = {k: x for k, x in zip(v[0], v[1])}
        every[c] = v
    for c in uses.get("map", []):
        f = resolve(g, c, llh)
        must[c] = content(where, f)
        every[c] = [must[c], f]
    for c in uses.get("sigma", []):
        v = resolve(g, c, llh)
        fs = [v] * 3 if isinstance(v, str) else v[:3]
        must[c] = [content(where, f) for f in fs]
        must[c + " scaler"] = None if isinstance(v, str) else v[3] if len(v) == 4 else c + "_sigma"
        every[c] = [must[c], v]
    return must, every


def identify(g, ctx, where, ins, full):
    """What every part of a model was built from: {part: (must-differ identity, full identity, may move)}."""
    out = {}
    spec = g["instruct"]["likelihoods"]
    tree = {}
    for ln, llh in ctx.likelihoods.items():
        s = spec[ln]
        lit = s.get("type") == "LikelihoodLit"
        comps = {}
        for cn, c in llh.components.items():
            v = s["components"][cn]
            if isinstance(v, dict):
                must = {"file": content(where, v["file_name"]), "fixed": True}
                every = dict(must, spec=v)
            else:
                m, e = reads(g, USES[v], ln, where)
                must, every = {"reads": m, "set": SET[v], "norm": c.norm_type}, {"reads": e, "cls": v}
            must["rate"] = every["rate"] = f"{cn}_rate"
            if not lit:
                must["bins"] = [np.asarray(b).tolist() for b in c.bins]
                every["bins"] = must["bins"]
                every["bins_type"] = s["bins_type"]
            every["name"] = [ln, cn, s["bins_on"], s.get("parameter_alias")]
            if full:
                must["where"] = every["where"] = where
            out[f"component:{ln}/{cn}"] = (must, every)
            comps[cn] = (must, every)
        must = {"spec": s, "components": {k: v[0] for k, v in comps.items()}}
        every = {"spec": s, "order": list(comps), "components": {k: v[1] for k, v in comps.items()}}
        if not lit:
            must["data"] = every["data"] = content(where, s["data_file_name"])
            if full:
                must["where"] = every["where"] = where
        out[f"likelihood:{ln}"] = (must, every)
        tree[ln] = (must, every)
    instruct = {k: v for k, v in ins.items() if k not in ("url_base", "par_config", "likelihoods", "backend_h5")}
    params = models.effective_params(g)
    must = {"instruct": instruct, "likelihoods": {k: v[0] for k, v in tree.items()}, "params": params}
    every = {"ins": ins, "likelihoods": {k: v[1] for k, v in tree.items()}, "params": params, "where": where}
    out["context:"] = (must, every)
    return out


def hashes(apt, ctx):
    out = {"context:": ctx.lineage_hash}
    for ln, llh in ctx.likelihoods.items():
        out[f"likelihood:{ln}"] = llh.lineage_hash
        for cn, c in llh.components.items():
            out[f"component:{ln}/{cn}"] = c.lineage_hash
    return out


def entities(ctx):
    yield "context:", ctx
    for ln, llh in ctx.likelihoods.items():
        yield f"likelihood:{ln}", llh
        for cn, c in llh.components.items():
            yield f"component:{ln}/{cn}", c


def plugins(apt, g, ctx, where, full):
    """Plugins used on their own, under the configuration of the context built last."""
    from dst import toy

    out = {}
    for ln in ctx.likelihoods:
        for name, uses in PLUGINS.items():
            try:
                must, every = reads(g, uses, ln, where)
            except KeyError:
                continue
            p = getattr(toy, name)(ln)
            every = dict(every, llh=ln)
            if full and ("map" in uses or "sigma" in uses):
                must["where"] = every["where"] = where
            out[f"plugin:{name}/{ln}"] = (must, every, p.lineage_hash)
    return out


class Machine:
    def __init__(self, plan, d):
        self.plan, self.d = plan, d
        self.built = []      # (ctx, hashes)
        self.table = {}      # part -> list of (must, every, hash, label)
        self.n_diff = self.n_same = self.stable = 0

    def boot(self, n):
        self.apt = world.boot(n, toy=True)
        world.faults = []
        self.apt.utils.FULL_PATH_LINEAGE = bool(self.plan.get("full"))
        self.alive = []

    def add(self, part, must, every, h, label):
        # components are compared with those of other names, too
        key = "component" if part.startswith("component:") else part
        rows = self.table.setdefault(key, [])
        j1, j2 = json.dumps(must, sort_keys=True), json.dumps(every, sort_keys=False)
        for m2, e2, h2, l2 in rows:
            if m2 != j1:
                self.n_diff += 1
                if h == h2:
                    raise Violation(f"same-lineage:{part.split(':')[0]}",
                                    f"{part} of {label} and {l2}: {what_differs(j1, m2)}")
            elif e2 == j2:
                self.n_same += 1
                if h != h2:
                    raise Violation(f"other-lineage:{part.split(':')[0]}", f"{part} of {label} and {l2}")
        rows.append((j1, j2, h, label))

    def recheck(self, after):
        for ctx, h, lin, label in self.alive:
            self.stable += 1
            now = hashes(self.apt, ctx)
            for k in h:
                if now[k] != h[k]:
                    raise Violation(f"lineage-changed:{k.split(':')[0]}", f"{k} of {label} after {after}")
            if lab.canon(ctx.lineage) != lin:
                raise Violation("lineage-changed:content", f"{label} after {after}")


def what_differs(a, b):
    return lab.first_diff(lab.canon(json.loads(a)), lab.canon(json.loads(b))) or ""


def run(plan, leg, prev, d):
    if "packaged" in plan:
        return packaged(plan, d)
    m = Machine(plan, d)
    m.boot(1)
    n_dump = 0
    last = None
    for j, o in enumerate(plan["ops"]):
        world.emit("op", o["op"], o.get("v"), o.get("dir"), o.get("how"))
        label = o["op"]
        if o["op"] == "build":
            if o["new"]:
                m.boot(10 + j)
            g = plan["variants"][o["v"]]
            where = os.path.join(d, "m" if o["dir"] == "same" else f"elsewhere{j}")
            shutil.rmtree(where, ignore_errors=True)
            ins = materialise(g, where, o["abs"])
            m.apt.clear_cache()
            world.reads_of = {}
            world.read_faults = [] if o["short"] is None else [{"kind": "shortread", "file": "*", "seed": o["short"]}]
            label = f"build {j} ({plan['names'][o['v']]}, {o['dir']} directory)"
            try:
                ctx = lab.build(m.apt, ins)
            except Exception as e:
                raise Violation("build-failed", f"{label}: {type(e).__name__}: {e}")
            finally:
                world.read_faults = []
            try:
                h = hashes(m.apt, ctx)
                ids = identify(g, ctx, where, ins, plan["full"])
                for part, (must, every) in ids.items():
                    if o["abs"]:
                        every = dict(every, absolute=True)
                    m.add(part, must, every, h[part], label)
                for part, (must, every, ph) in plugins(m.apt, g, ctx, where, plan["full"]).items():
                    m.add(part, must, every, ph, label)
                if o["dump"]:
                    n_dump += dump(m.apt, ctx, d)
                m.alive.append((ctx, h, lab.canon(ctx.lineage), label))
            except Violation:
                raise
            except Exception as e:
                raise Violation("exception", f"{label}: {type(e).__name__}: {e}")
            last = (ctx, g, where)
        else:
            other(m, o, last, d)
        m.recheck(label)
    return {"nontrivial": m.n_diff > 0 and m.n_same > 0,
            "probes": {"pairs_differing": m.n_diff, "pairs_equal": m.n_same, "rechecked": m.stable, "dumped": n_dump}}


def dump(apt, ctx, d):
    n = 0
    for part, e in entities(ctx):
        p = os.path.join(d, "lineage.json")
        apt.utils.dump_lineage(p, e)
        with open(p) as f:
            got = json.load(f)
        want = json.loads(json.dumps(e.lineage))
        if got != want:
            raise Violation("dump", f"{part}: the dumped lineage differs")
        n += 1
    return n


def other(m, o, last, d):
    rng = random.Random(o.get("seed", 0))
    kind = o["op"]
    dirs = [x for x in sorted(os.listdir(d)) if os.path.isdir(os.path.join(d, x))]
    try:
        if kind in ("rewrite", "delete") and dirs:
            where = os.path.join(d, rng.choice(dirs))
            for f in sorted(os.listdir(where)):
                p = os.path.join(where, f)
                if os.path.isdir(p):
                    continue
                if kind == "delete":
                    os.remove(p)
                elif f.endswith(".csv"):
                    with open(p, "a") as fh:
                        fh.write("1.5,20.5\n")
                else:
                    with open(p, "a") as fh:
                        fh.write("\n")
        elif kind == "clear":
            m.apt.clear_cache()
        elif kind == "global":
            try:
                m.apt.set_global_config({"toy_gain": 7.5, "toy_ly": "toy_ly_1.json", "url_base": "/nowhere"})
            except RuntimeError:
                pass  # the file cannot be found there
        elif kind == "bad":
            g = m.plan["variants"][o["v"]]
            ep = {"model": g, "samedir": False, "break": o["how"], "acts": [], "clear": rng.random() < 0.5, "k": o["k"],
                  "seed": o["seed"]}
            world.reads_of = {}
            c07.history(m.apt, ep, 0, os.path.join(d, "bad"), os.path.join(d, "bad"))
        elif last is not None and m.alive and m.alive[-1][0] is last[0]:
            ctx, g, _ = last
            pt = lab.center(ctx.par_config)
            if kind == "eval":
                lab.logpost(ctx, pt, batch_size=g["batch_size"])
            elif kind == "summary":
                ctx.print_context_summary(short=False)
            elif kind == "fit":
                np.random.seed(1)
                ctx.fitting(nwalkers=max(4, 2 * len(pt)), iteration=1, batch_size=g["batch_size"])
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"exception:{kind}", f"{type(e).__name__}: {e}")


# ---------------------------------------------------------------- packaged models
def packaged(plan, d):
    """Change one option at a time of a packaged model; its component must have another lineage."""
    apt = world.boot(1, toy=True)
    rng = random.Random(plan["seed"])
    base = apt.utils.load_json(plan["packaged"])
    base["backend_h5"] = None
    ctx = lab.build(apt, base)
    ref = hashes(apt, ctx)
    options = []
    for ln, llh in ctx.likelihoods.items():
        for cn, c in llh.components.items():
            if hasattr(c, "worksheet"):
                names = ["cs1", "cs2", "eff"] if hasattr(llh, "data_hist") else list(base["likelihoods"][ln]["bins_on"]) + ["eff"]
                df = c.show_config(names)
                for _, row in df.iterrows():
                    options.append((ln, cn, row["option"], row["current"]))
    rng.shuffle(options)
    n = 0
    keep = [(ctx, ref)]
    for ln, cn, opt, cur in options:
        if n >= plan["n"]:
            break
        new = changed(apt, cur, os.path.join(d, f"v{n}"), rng)
        if new is None:
            continue
        n += 1
        ins = copy.deepcopy(base)
        old = ins["configs"].get(opt)
        ins["configs"][opt] = {**old, ln: new} if isinstance(old, dict) else new
        apt = world.boot(2 + n, toy=True)
        try:
            ctx2 = lab.build(apt, ins)
            h = hashes(apt, ctx2)
        except Exception as e:
            raise Violation("build-failed", f"{opt}={new}: {type(e).__name__}: {e}")
        for part in (f"component:{ln}/{cn}", f"likelihood:{ln}", "context:"):
            if h[part] == ref[part]:
                raise Violation(f"same-lineage:{part.split(':')[0]}", f"{part} with another {opt}")
        keep.append((ctx2, h))
        for c, h0 in keep:
            if hashes(apt, c) != h0:
                raise Violation("lineage-changed:packaged", f"after building with another {opt}")
        world.emit("option", opt)
    apt = world.boot(77, toy=True)
    if hashes(apt, lab.build(apt, copy.deepcopy(base))) != ref:
        raise Violation("other-lineage:packaged", plan["packaged"])
    return {"nontrivial": n > 0, "probes": {"options_changed": n}}


def changed(apt, cur, where, rng):
    if isinstance(cur, bool) or cur is None:
        return None
    if isinstance(cur, (int, float)):
        return cur * 1.001 + 1e-6
    if isinstance(cur, str) and cur.endswith(".json"):
        return touch(apt, cur, where)
    if isinstance(cur, list) and cur and all(isinstance(c, str) for c in cur[:3]) and len(cur) >= 3:
        i = rng.randrange(3)
        if not cur[i].endswith(".json"):
            return None
        return [touch(apt, c, where) if k == i else c for k, c in enumerate(cur)]
    if isinstance(cur, list) and len(cur) == 2 and isinstance(cur[1], list):
        new = copy.deepcopy(cur)
        new[1][0][0] += 0.001
        return new
    return None


def touch(apt, name, where):
    os.makedirs(where, exist_ok=True)
    p = os.path.join(where, os.path.basename(name))
    with open(apt.utils.get_file_path(name)) as f:
        m = json.load(f)
    v = m["map"]
    while isinstance(v[0], list):
        v = v[0]
    v[0] += 1e-4
    with open(p, "w") as f:
        json.dump(m, f)
    return p


def shrink(plan):
    P = copy.deepcopy
    if "packaged" in plan:
        return
    for j in range(len(plan["ops"])):
        p = P(plan)
        del p["ops"][j]
        yield p
    for j, o in enumerate(plan["ops"]):
        for k, v in (("new", False), ("abs", False), ("short", None), ("dump", False), ("dir", "same")):
            if o["op"] == "build" and o[k] != v:
                p = P(plan)
                p["ops"][j][k] = v
                yield p
    if plan["full"]:
        p = P(plan)
        p["full"] = False
        yield p


def signature(world, plan):
    return repr([e for e in world.log if e[0] in ("boot", "fault", "op", "episode", "option")] + [plan.get("names")])
