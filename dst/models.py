"""Scenario models: seeded generation of instruct dictionaries, priors, maps and data files.

A genome is plain JSON (it is part of the plan / replay file).  ``materialise`` writes the files it
needs into a scratch directory and returns the instruct dictionary to hand to appletree.
"""

import copy
import json
import math
import os
import pickle

import numpy as np

DIR = "@DIR@"  # stands for the scratch directory of the run

# ---------------------------------------------------------------- map palette
_E = [0.0, 5.0, 10.0, 15.0, 20.0, 25.0]
_S1 = [0.0, 4.0, 8.0, 12.0, 20.0]
_S2 = [0.0, 80.0, 160.0, 240.0, 400.0]
_LY = [
    [3.0, 3.5, 4.0, 4.5, 5.0, 5.5],
    [5.0, 4.6, 4.2, 3.9, 3.6, 3.3],
    [4.0, 4.0, 4.4, 4.4, 4.1, 3.9],
]
_EFF = [
    [0.5, 0.8, 0.9, 0.95, 0.9],
    [0.9, 0.85, 0.8, 0.75, 0.7],
    [0.3, 0.6, 0.9, 0.9, 0.6],
]
_CUT = [
    [0.9, 0.9, 0.9, 0.9, 0.9],
    [0.6, 0.7, 0.8, 0.9, 0.95],
    [0.95, 0.9, 0.8, 0.7, 0.6],
]


def _point(x, y):
    return {
        "coordinate_type": "point",
        "coordinate_name": "x",
        "coordinate_system": list(x),
        "map": list(y),
    }


def palette(scale=1.0):
    """All map files, name -> content."""
    files = _palette()
    if scale != 1.0:
        for f in files.values():
            f["map"] = [[w * scale for w in v] if isinstance(v, list) else v * scale for v in f["map"]]
    return files


def _palette():
    files = {}
    for i in range(3):
        files[f"toy_ly_{i}.json"] = _point(_E, _LY[i])
        files[f"toy_cut_{i}.json"] = _point(_S2, _CUT[i])
        files[f"toy_eff_{i}.json"] = _point(_S1, _EFF[i])
        files[f"toy_eff_lo_{i}.json"] = _point(_S1, [v * 0.8 for v in _EFF[i]])
        files[f"toy_eff_hi_{i}.json"] = _point(_S1, [v + (1 - v) * 0.6 for v in _EFF[i]])
        files[f"toy_spec_{i}.json"] = dict(_point(*[
            ([0.5, 4.0, 9.0, 14.0, 20.0], [1.0, 0.8, 0.6, 0.5, 0.4]),
            ([0.0, 0.2, 0.5, 0.8, 1.0], [0.5, 3.0, 9.0, 15.0, 20.0]),
            ([0.5, 5.0, 10.0, 15.0, 20.0], [0.3, 0.9, 1.0, 0.9, 0.3])][i]), coordinate_name=["pdf", "cdf", "pdf"][i])
        files[f"toy_field_{i}.json"] = {
            "coordinate_type": ["regbin", ["regbin", "log_regbin"], "log_regbin"][i], "coordinate_name": ["cs1", "cs2"],
            "coordinate_lowers": [0.2, 2.0], "coordinate_uppers": [11.0, 240.0],
            "map": [[0.6, 0.7, 0.8], [0.9, 0.8, 0.85], [0.95, 0.9, 0.7 + 0.1 * i]]}
    files["toy_spec.json"] = files["toy_spec_0.json"]
    files["toy_field.json"] = files["toy_field_0.json"]
    # what the plugins' defaults refer to
    files["toy_ly.json"] = files["toy_ly_0.json"]
    files["toy_cut.json"] = files["toy_cut_0.json"]
    files["toy_eff.json"] = files["toy_eff_0.json"]
    files["toy_eff_lo.json"] = files["toy_eff_lo_0.json"]
    files["toy_eff_hi.json"] = files["toy_eff_hi_0.json"]
    return files


def _data(seed, n, line=False):
    r = np.random.RandomState(seed)
    e = r.normal(9.0, 1.5, n) if line else r.uniform(0.5, 20.0, n)
    e = np.clip(e, 0.1, None)
    light = 4.0 * e + r.normal(0, 0.5, n) * np.sqrt(e)
    cs1 = np.clip(light * 0.15, 0.05, 11.9)
    cs2 = np.clip((e * 6.5 - 0.3 * light) * 1.8 + r.normal(0, 1, n), 0.5, 249.0)
    return cs1, cs2


def _csv(cols):
    names = list(cols)
    rows = zip(*[cols[k] for k in names])
    return ",".join(names) + "\n" + "\n".join(",".join(repr(float(v)) for v in r) for r in rows) + "\n"


# ---------------------------------------------------------------- generation
def _prior(rng, mean, std, lo, hi, kinds):
    kind = rng.choice(kinds)
    p = {
        "prior_type": kind,
        "allowed_range": [lo, hi],
        "init_mean": mean + rng.choice([0.0, 0.3, -0.3]) * std,
        "init_std": std * rng.choice([0.5, 1.0]),
        "unit": "1",
        "doc": "toy",
    }
    if kind == "norm":
        p["prior_args"] = {"mean": mean, "std": std}
    elif kind == "twohalfnorm":
        p["prior_args"] = {"mu": mean, "sigma_pos": std, "sigma_neg": std * rng.choice([1.0, 0.6, 1.5])}
    elif kind == "uniform":
        # the bounds of the prior may be narrower or wider than the allowed range
        a, b = rng.choice([(lo, hi), (lo, hi), (mean - 0.9 * std, hi), (lo, mean + 0.9 * std),
                           (max(lo, mean - 1.3 * std), min(hi, mean + 1.3 * std)),
                           (lo - std, hi + std)])
        p["prior_args"] = {"lower": a, "upper": b}
    elif kind == "free":
        p["prior_args"] = {}
    elif kind == "fixed":
        p["prior_args"] = {"val": mean + rng.choice([0.0, 0.25]) * std}
    return p


_ANY = ["norm", "twohalfnorm", "uniform", "free"]


def gen(rng, max_llh=2, lit=True, max_fit=3, alias=True, tight=False):
    """Generate a toy genome.

    max_fit: number of nuisance parameters left free (rates come on top, unless fixed).
    tight: allowed ranges so narrow that proposals often leave them.
    """
    n_llh = rng.choice([1] * 3 + list(range(1, max_llh + 1)))
    llhs, params, configs = {}, {}, {}
    data = {}
    nuis = ["ly", "fluct", "g1", "g2"]
    base = {
        "ly": (1.0, 0.08, 0.6, 1.6),
        "fluct": (0.5, 0.1, 0.05, 1.5),
        "g1": (0.15, 0.01, 0.09, 0.25),
        "g2": (0.9, 0.05, 0.6, 1.4),
    }
    n_fit = rng.randint(1, max_fit)
    free = set(rng.sample(nuis, n_fit))
    sigma_names = []
    names = rng.sample(["a_llh", "b_llh", "zz_llh", "M_llh"], n_llh)
    lit_done = False
    for i, name in enumerate(names):
        stem = name[: -len("_llh")]
        if lit and not lit_done and i > 0 and rng.random() < 0.3:
            lit_done = True
            comp = f"{stem}_y"
            llhs[name] = {
                "type": "LikelihoodLit",
                "components": {comp: "ToyYield"},
                "copy_parameters": {},
                "bins_on": ["energy", "light"],
                "variable_type": rng.choice(["norm", "twohalfnorm", "band"]),
            }
            vt = llhs[name]["variable_type"]
            if vt == "norm":
                # one value for each of the three points
                llhs[name]["logpdf_args"] = [["loc", "scale"], [[8.0, 20.0, 37.0], [3.0, 6.0, 9.0]]]
            elif vt == "twohalfnorm":
                llhs[name]["logpdf_args"] = [
                    ["mu", "sigma_pos", "sigma_neg"],
                    [[8.0, 20.0, 37.0], [3.0, 6.0, 9.0], [4.0, 5.0, 7.0]],
                ]
            else:
                llhs[name]["logpdf_args"] = [
                    ["x", "y", "yerr_upper", "yerr_lower"],
                    [[0.01, 5.0, 30.0], [0.0, 20.0, 120.0], [8.0, 8.0, 12.0], [7.0, 8.0, 11.0]],
                ]
            rate = f"{comp}_rate"
            llhs[name]["copy_parameters"] = {rate: "lit_rate"}
            params["lit_rate"] = _prior(rng, 1.0, 0.1, 0.0, 2.0, ["fixed"])
            if alias and rng.random() < 0.4:
                # the likelihood calls its yield parameter by another name
                llhs[name]["parameter_alias"] = {f"ly_{stem}": "ly"}
                params[f"ly_{stem}"] = _prior(rng, 1.0, 0.1, 0.5, 1.7, ["norm", "uniform"])
            continue
        comp = f"{stem}_er"
        cls = rng.choice(["ToyBand", "ToyBand", "ToyBandSim", "ToyPeak", "ToyMapped"])
        bins_type = rng.choice(["equiprob", "equiprob", "irreg", "meshgrid"])
        one_d = rng.random() < 0.25
        ext = "pkl" if rng.random() < float(os.environ.get("DST_PKL", "0.12")) else "csv"
        d = f"data_{stem}.{ext}"
        data[d] = {"seed": rng.randrange(3), "n": rng.choice([60, 90] * 6 + [5000]), "line": cls == "ToyPeak"}
        spec = {"components": {comp: cls}, "copy_parameters": {}, "data_file_name": d}
        spec["bins_type"] = bins_type
        if one_d:
            spec["bins_on"] = rng.choice(["cs2", ["cs1"]])
            on = "cs2" if spec["bins_on"] == "cs2" else "cs1"
            spec["clip"] = [0, 250] if on == "cs2" else [0, 12]
            if bins_type == "irreg":
                spec["bins"] = [rng.choice([[0, 60, 120, 250], [20, 80.5, 140]] if on == "cs2"
                                           else [[0, 3, 6, 12], [0, 2, 4, 6, 8, 12]])]
            elif bins_type == "meshgrid" and rng.random() < 0.3:
                spec["bins"] = [[0, 70, 130, 250] if on == "cs2" else [0, 2.5, 5, 12]]
            else:
                spec["bins"] = 3 if on == "cs2" else [3]
        else:
            spec["bins_on"] = ["cs1", "cs2"]
            spec["x_clip"], spec["y_clip"] = [0, 12], [0, 250]
            if bins_type == "irreg":
                spec["bins"] = rng.choice([[[0, 4, 8, 12], [[0, 60, 250], [0, 90, 250], [0, 130, 250]]],
                                           [[0, 5.5, 12], [[0, 50, 90, 250], [0, 80, 120, 250]]]])
            elif bins_type == "equiprob":
                spec["bins"] = rng.choice([[2, 2], [3, 2], [4, 3]])
            else:
                spec["bins"] = rng.choice([[2, 2], [2, 2], [3, [0, 80, 140, 250]], [[0, 4.5, 12], [0, 100, 250]]])
        params["er_rate"] = params.get("er_rate") or _prior(
            rng, 80.0, 8.0, 10.0, 300.0, ["free", "uniform", "norm", "fixed"]
        )
        spec["copy_parameters"][f"{comp}_rate"] = "er_rate"
        if rng.random() < 0.3:
            f = f"{stem}_ac"
            fn = f"fixed_{stem}.{ext}"
            data[fn] = {"seed": 7, "n": 40, "line": False}
            # either before or after the simulated component
            fixed = {f: {"component_cls": "ToyFixed", "file_name": fn}}
            if rng.random() < 0.5:
                spec["components"] = {**fixed, **spec["components"]}
            else:
                spec["components"].update(fixed)
            params["ac_rate"] = params.get("ac_rate") or _prior(
                rng, 6.0, 1.0, 0.0, 20.0, ["norm", "fixed"]
            )
            spec["copy_parameters"][f"{f}_rate"] = "ac_rate"
            if rng.random() < 0.3:
                fn = f"fixed2_{stem}.csv"
                data[fn] = {"seed": 5, "n": 55, "line": False}
                spec["components"][f"{stem}_bg"] = {"component_cls": "ToyFixed", "file_name": fn}
                spec["copy_parameters"][f"{stem}_bg_rate"] = rng.choice(["ac_rate", "bg_rate"])
                if spec["copy_parameters"][f"{stem}_bg_rate"] == "bg_rate":
                    params["bg_rate"] = params.get("bg_rate") or _prior(
                        rng, 3.0, 0.5, 0.0, 20.0, ["norm", "fixed", "fixed"]
                    )
        if alias and rng.random() < 0.35:
            p = rng.choice(nuis)
            spec["parameter_alias"] = {f"{p}_{stem}": p}
            b = base[p]
            params[f"{p}_{stem}"] = _prior(rng, b[0], b[1], b[2], b[3], ["norm", "fixed", "uniform"])
        llhs[name] = spec
    hist = [n for n in names if llhs[n].get("type") != "LikelihoodLit"]

    # configs: absent, scalar or one value per likelihood
    def pick(key, value, allow_dict=True):
        style = rng.choice(["default", "scalar", "dict"] if allow_dict else ["default", "scalar"])
        if style == "scalar":
            configs[key] = value(rng.randrange(3))
        elif style == "dict":
            configs[key] = {n: value(rng.randrange(3)) for n in names}

    pick("toy_ly", lambda i: f"toy_ly_{i}.json")
    pick("toy_cut", lambda i: f"toy_cut_{i}.json")
    if any("ToyMapped" in s["components"].values() for s in llhs.values()):
        pick("toy_spec", lambda i: f"toy_spec_{i}.json")
        pick("toy_field", lambda i: f"toy_field_{i}.json")
    pick("toy_gain", lambda i: [2.0, 2.2, 1.9][i])
    if rng.random() < 0.3:
        pick("toy_emax", lambda i: [20.0, 18.0, 22.0][i])
    style = rng.choice(["default", "l3", "l4", "str", "dict"])
    trip = lambda i: [f"toy_eff_{i}.json", f"toy_eff_lo_{i}.json", f"toy_eff_hi_{i}.json"]
    if style == "default":
        sigma_names = ["toy_eff_sigma"]
    elif style == "l3":
        configs["toy_eff"] = trip(rng.randrange(3))
        sigma_names = ["toy_eff_sigma"]
    elif style == "l4":
        configs["toy_eff"] = trip(rng.randrange(3)) + ["acc_pull"]
        sigma_names = ["acc_pull"]
    elif style == "str":
        configs["toy_eff"] = f"toy_eff_{rng.randrange(3)}.json"
    else:
        conf = {}
        for n in names:
            s = rng.choice(["l3", "l4", "str"])
            i = rng.randrange(3)
            if s == "l3":
                conf[n] = trip(i)
                sigma_names.append("toy_eff_sigma")
            elif s == "l4":
                conf[n] = trip(i) + [f"pull_{n[0]}"]
                sigma_names.append(f"pull_{n[0]}")
            else:
                conf[n] = f"toy_eff_{i}.json"
            if n not in hist:
                # the literature likelihood does not use the acceptance at all
                if s != "str":
                    sigma_names.pop()
        configs["toy_eff"] = conf
    if not hist:
        sigma_names = []
    for s in sorted(set(sigma_names)):
        params[s] = _prior(rng, 0.0, 1.0, -3.0, 3.0, ["norm", "uniform", "fixed"])
    # which nuisance parameters does anybody use without an alias?
    for p in nuis:
        used = False
        for n in names:
            al = llhs[n].get("parameter_alias", {}).values()
            if p in ("g1", "g2") and n not in hist:
                continue
            if p not in al:
                used = True
        if used:
            m, s, lo, hi = base[p]
            if tight:
                lo, hi = m - 0.8 * s, m + 0.8 * s
            params[p] = _prior(rng, m, s, lo, hi, _ANY if p in free else ["fixed"])
    if not any(v["prior_type"] != "fixed" for v in params.values()):
        k = sorted(params)[0]
        m = params[k]["prior_args"]["val"]
        params[k].update(prior_type="free", prior_args={}, init_mean=m, init_std=abs(m) * 0.05 + 0.01)
    # random declaration order of the parameters: nothing may depend on it
    order = sorted(params)
    rng.shuffle(order)
    params = {k: params[k] for k in order}
    return {
        "kind": "toy",
        "instruct": {"url_base": DIR, "configs": configs, "likelihoods": llhs},
        "params": params,
        "data": data,
        "batch_size": rng.choice([64, 64, 120]),
    }


DEFAULTS = {
    "toy_emin": 0.5, "toy_emax": 20.0, "toy_ly": "toy_ly.json", "toy_cut": "toy_cut.json", "toy_gain": 2.0,
    "toy_spec": "toy_spec.json", "toy_field": "toy_field.json",
    "toy_eff": ["toy_eff.json", "toy_eff_lo.json", "toy_eff_hi.json"], "toy_line": 9.0, "toy_width": 1.5,
    "toy_points": [["mu", "sigma"], [[2.0, 5.0, 9.0], [0.2, 0.3, 0.4]]],
}


def specify(genome):
    """Give every configuration value explicitly, so that nothing is left to the process's defaults."""
    for k, v in DEFAULTS.items():
        genome["instruct"]["configs"].setdefault(k, copy.deepcopy(v))
    return genome


def rename(genome, prefix):
    """Prefix the likelihood names."""
    ins = genome["instruct"]
    ins["likelihoods"] = {prefix + k: v for k, v in ins["likelihoods"].items()}
    for k, v in ins["configs"].items():
        if isinstance(v, dict):
            ins["configs"][k] = {prefix + n: x for n, x in v.items()}
    return genome


def glitch(rng, genome):
    """Make the model predict nonsense for part of the range of the light yield."""
    ins = genome["instruct"]
    hist = [(n, s) for n, s in ins["likelihoods"].items() if s.get("type") != "LikelihoodLit"]
    mode = rng.randrange(5)
    ly = genome["params"].get("ly")
    if ly is None:
        return False
    if ly["prior_type"] == "fixed":
        ly.update(prior_type="free", prior_args={}, init_mean=1.0, init_std=0.05)
    lit = [s for s in ins["likelihoods"].values() if s.get("type") == "LikelihoodLit" and "parameter_alias" not in s]
    if lit and rng.random() < 0.6:
        hist = []
        for c in lit[0]["components"]:
            lit[0]["components"][c] = "ToyGlitchYield"
    for _n, s in hist:
        for c, v in s["components"].items():
            if isinstance(v, str):
                s["components"][c] = rng.choice(["ToyGlitchBand", "ToyGlitchEps", "ToyGlitchSim"])
    ins["configs"]["toy_glitch_mode"] = mode
    ins["configs"]["toy_glitch_at"] = ly["init_mean"] + rng.choice([0.0, 0.5, 1.0]) * ly["init_std"]
    return True


def fit_count(genome):
    """Number of fitted parameters once rates have been copied to the likelihoods' names."""
    n = 0
    params = effective_params(genome)
    for v in params.values():
        n += v["prior_type"] != "fixed"
    return n


def effective_params(genome):
    """Reference for what the parameter table of the context is: sources copied to each rate name,
    and unused sources dropped."""
    params = dict(genome["params"])
    needed_rates, sources = [], []
    for spec in genome["instruct"]["likelihoods"].values():
        for k, v in spec["copy_parameters"].items():
            params[k] = params[v]
            sources.append(v)
        for c in spec["components"]:
            needed_rates.append(c + "_rate")
    for s in sources:
        if s not in needed_rates:
            params.pop(s, None)
    return params


def materialise(genome, directory, par_style="file"):
    """Write the files and return (instruct, par_config or None)."""
    os.makedirs(directory, exist_ok=True)
    for name, content in palette(genome.get("palette", 1.0)).items():
        with open(os.path.join(directory, name), "w") as f:
            json.dump(content, f)
    for name, d in genome["data"].items():
        cs1, cs2 = _data(d["seed"], d["n"], d["line"])
        if name.endswith(".pkl"):
            import pandas as pd

            with open(os.path.join(directory, name), "wb") as f:
                pickle.dump(pd.DataFrame({"cs1": cs1, "cs2": cs2}), f, protocol=4)
            continue
        with open(os.path.join(directory, name), "w") as f:
            f.write(_csv({"cs1": cs1, "cs2": cs2}))
    instruct = json.loads(json.dumps(genome["instruct"]).replace(DIR, directory))
    with open(os.path.join(directory, "par.json"), "w") as f:
        json.dump(genome["params"], f)
    instruct["par_config"] = "par.json"
    return instruct


# ---------------------------------------------------------------- reference mathematics
def two_half_norm_sigmas(err_pos, err_neg):
    """The two half-normal widths whose tail probabilities beyond the quoted errors are 16% each."""
    from scipy.optimize import root
    from scipy.special import erf
    from scipy.stats import chi2

    p = 1 - chi2.cdf(1, 1)

    def f(x):
        return [
            x[0] / (x[0] + x[1]) * (1 - erf(err_pos / x[0] / math.sqrt(2))) - p / 2,
            x[1] / (x[0] + x[1]) * (1 - erf(err_neg / x[1] / math.sqrt(2))) - p / 2,
        ]

    res = root(f, [err_pos, err_neg])
    return float(res.x[0]), float(res.x[1])


def ref_log_prior(params, values):
    """Reference log prior: sum over fitted parameters."""
    total = 0.0
    for name in sorted(params):
        s = params[name]
        if s["prior_type"] == "fixed":
            continue
        v = float(values[name])
        lo, hi = s["allowed_range"]
        if v < lo or v > hi:
            return -math.inf
        a = s["prior_args"]
        if s["prior_type"] == "norm":
            total += -((v - a["mean"]) ** 2) / 2 / a["std"] ** 2
        elif s["prior_type"] == "uniform":
            if v < a["lower"] or v > a["upper"]:
                return -math.inf
        elif s["prior_type"] == "twohalfnorm":
            sp, sn = two_half_norm_sigmas(a["sigma_pos"], a["sigma_neg"])
            z = (v - a["mu"]) / (sn if v < a["mu"] else sp)
            total += -z * z / 2 + math.log(2 / (sp + sn) / math.sqrt(2 * math.pi))
    return total


def ref_full_values(params, fitted):
    """All parameter values: fixed ones from the table, fitted ones from `fitted`."""
    out = {}
    for name, s in params.items():
        out[name] = s["prior_args"]["val"] if s["prior_type"] == "fixed" else fitted[name]
    return out
