"""Observing a model through appletree's public interface; used by the checks that compare contexts."""

import contextlib
import copy
import hashlib
import io
import json
import math
import re

import numpy as np

from . import models
from .seams import _as_items, world


def canon(x):
    """Plain JSON with exact numbers, so that results of different processes can be compared."""
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(canon(v) for v in x)
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x).hex() if math.isfinite(float(x)) else str(float(x))
    a = np.asarray(x)
    if a.ndim == 0:
        return canon(a.item())
    return {"shape": list(a.shape), "dtype": str(a.dtype),
            "sha": hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:24]}


def first_diff(a, b, path=""):
    """Path and values of the first difference between two canonical values, or None."""
    if type(a) is not type(b):
        return f"{path or 'value'}: {short(a)} instead of {short(b)}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return f"{path}/{k}: missing"
            if k not in b:
                return f"{path}/{k}: unexpected"
            d = first_diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} entries instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path or 'value'}: {short(a)} instead of {short(b)}"


def short(x):
    s = json.dumps(x) if not isinstance(x, str) else x
    return s if len(s) < 160 else s[:157] + "..."


# ---------------------------------------------------------------- points
def fit_names(params):
    return sorted(k for k, v in params.items() if v["prior_type"] != "fixed")


def center(params):
    out = {}
    for k, v in params.items():
        if v["prior_type"] != "fixed":
            lo, hi = v["allowed_range"]
            out[k] = float(min(max(v["init_mean"], lo), hi))
    return out


def gen_points(rng, params, n, outside=0.0):
    """Seeded points of the fitted parameters; some deliberately outside the allowed ranges."""
    pts = []
    for _ in range(n):
        p = {}
        for k in fit_names(params):
            v = params[k]
            lo, hi = v["allowed_range"]
            x = rng.gauss(v["init_mean"], v["init_std"])
            p[k] = float(min(max(x, lo), hi))
        if rng.random() < outside:
            k = rng.choice(fit_names(params))
            lo, hi = params[k]["allowed_range"]
            p[k] = rng.choice([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo), lo - 1e-9, float("nan")])
        elif rng.random() < 0.1:
            k = rng.choice(fit_names(params))
            p[k] = float(rng.choice(params[k]["allowed_range"]))
        pts.append(p)
    return pts


def set_clock(tag):
    world.clock.set_key(repr(tag).encode())


def logpost(ctx, point, tag=None, **kw):
    """Log posterior of a point, at a simulated time that depends only on the point (or on tag)."""
    set_clock(_as_items(point) if tag is None else tag)
    out = ctx.log_posterior(dict(point), **kw)
    return float(out[0]), float(out[1])


def full(params, point):
    return models.ref_full_values(params, point)


# ---------------------------------------------------------------- a whole model
def describe(ctx, genome, points, key_seed, lineage=True, parts=True):
    """Everything a user can see of a freshly built context, in canonical form."""
    import jax

    params = models.effective_params(genome) if genome["kind"] == "toy" else ctx.par_config
    b = genome["batch_size"]
    out = {
        "needed": sorted(ctx.needed_parameters),
        "fit": list(ctx.par_manager.parameter_fit),
        "all": sorted(ctx.par_manager.get_all_parameter()),
        "posterior": [list(map(canon, logpost(ctx, p, batch_size=b))) for p in points],
    }
    if parts:
        out["llh"] = {}
        for name, llh in ctx.likelihoods.items():
            d = {"needed": sorted(llh.needed_parameters), "components": list(llh.components)}
            if hasattr(llh, "data_hist"):
                d["data_hist"] = canon(np.asarray(llh.data_hist))
                for cn, c in llh.components.items():
                    d["bins_" + cn] = canon([np.asarray(x) for x in c.bins])
                if points:
                    values = llh.replace_alias(full(params, points[0]))
                    key = jax.random.PRNGKey(key_seed)
                    key, ev = llh.simulate_weighted_data(key, b, full(params, points[0]))
                    d["weighted"] = canon([np.asarray(e) for e in ev])
                    for cn, c in llh.components.items():
                        if hasattr(c, "worksheet"):
                            _, h = c.simulate_hist(jax.random.PRNGKey(key_seed), b, values)
                            d["hist_" + cn] = canon(np.asarray(h))
            for cn, c in llh.components.items():
                d["needed_" + cn] = sorted(c.needed_parameters)
                if lineage:
                    d["lineage_" + cn] = c.lineage_hash
            if lineage:
                d["lineage"] = llh.lineage_hash
            out["llh"][name] = d
        out["summary"] = summary(ctx)
    return out


def summary(ctx):
    """What print_context_summary tells, whatever the order within a line."""
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        try:
            ctx.print_context_summary(short=False)
        except RuntimeError as e:
            return ["RuntimeError"]
    return [sorted(w.split("/")[-1] for w in re.findall(r"[^\s,{}()\[\]']+", line)) for line in text.getvalue().splitlines()]


def build(apt, instruct, params=None):
    ins = copy.deepcopy(instruct)
    return apt.Context(ins) if params is None else apt.Context(ins, par_config=copy.deepcopy(params))
