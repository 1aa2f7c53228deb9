"""An independent, executable reference of how a log posterior follows from simulated events (numpy)."""

import math

import numpy as np

from . import models

# how each toy component is normalised, and whether bins are padded
NORM = {
    "ToyBand": ("on_pdf", True), "ToyBandSim": ("on_sim", False), "ToyPeak": ("on_pdf", False), "ToyMapped": ("on_pdf", True),
    "ToyGlitchBand": ("on_pdf", False), "ToyGlitchEps": ("on_pdf", True), "ToyGlitchSim": ("on_sim", False),
    "ToyFixed": ("on_pdf", True), "ERBand": ("on_pdf", False), "ERPeak": ("on_pdf", False), "AC": ("on_pdf", True),
    "NRBand": ("on_sim", False),
}


def f32(x):
    return np.asarray(x, dtype=np.float32)


def bin_events(obs, weights, bins, kind):
    """Weighted counts; kind 'irreg' has bins (low, high], 'meshgrid' [low, high) with a closed last bin."""
    w = np.asarray(weights, dtype=np.float64)
    obs = [f32(o) for o in obs]
    if len(obs) == 1:
        edges = f32(bins[0])
        out = np.zeros(len(edges) - 1)
        for i in range(len(out)):
            out[i] = w[inside(obs[0], edges, i, kind)].sum()
        return out
    ex = f32(bins[0])
    ey = np.asarray(bins[1])
    if kind == "irreg":
        out = np.zeros((len(ex) - 1, ey.shape[1] - 1))
    else:
        out = np.zeros((len(ex) - 1, len(ey) - 1))
    for i in range(out.shape[0]):
        mx = inside(obs[0], ex, i, kind)
        e = f32(ey[i]) if kind == "irreg" else f32(ey)
        for j in range(out.shape[1]):
            out[i, j] = w[mx & inside(obs[1], e, j, kind)].sum()
    return out


def inside(x, edges, i, kind):
    if kind == "irreg":
        return (x > edges[i]) & (x <= edges[i + 1])
    m = (x >= edges[i]) & (x < edges[i + 1])
    if i == len(edges) - 2:
        m |= x == edges[i + 1]
    return m


def component_hist(cls, obs, eff, bins, kind, rate, batch, is_sim=True):
    norm, eps = NORM[cls]
    h = bin_events(obs, eff, bins, kind)
    if eps:
        lo = 1e-10 + np.mean(np.asarray(eff, dtype=np.float64))
        h = np.where(np.isnan(h) | np.isnan(lo), np.nan, np.maximum(h, lo))
    with np.errstate(all="ignore"):
        if norm == "on_pdf":
            return h * (1.0 / h.sum() * rate)
        return h * (rate / batch)


def poisson(data, model):
    """Log likelihood, or None if it hinges on rounding."""
    if np.any(np.isnan(model)) or np.any(np.isinf(model)):
        return -math.inf
    scale = np.abs(model).sum()
    if np.any((np.abs(model) < 1e-6 * scale) & (model != 0)):
        return None
    if np.any(model <= 0):
        return -math.inf
    return float(np.sum(data * np.log(model) - model))


def two_half_norm(x, mu, sp, sn):
    z = np.where(x < mu, (x - mu) / sn, (x - mu) / sp)
    return -z * z / 2 + np.log(2 / (sp + sn) / math.sqrt(2 * math.pi))


def literature(spec, energies, yields, eff):
    a = {k: np.asarray(v, dtype=float) for k, v in zip(*spec["logpdf_args"])}
    e, y, f = (np.asarray(v, dtype=np.float64) for v in (energies, yields, eff))
    kind = spec["variable_type"]
    with np.errstate(all="ignore"):
        if kind == "norm":
            lp = -((y - a["loc"]) ** 2) / (2 * a["scale"] ** 2) - np.log(a["scale"]) - 0.5 * math.log(2 * math.pi)
        elif kind == "twohalfnorm":
            lp = two_half_norm(y, a["mu"], a["sigma_pos"], a["sigma_neg"])
        else:
            out = (e < a["x"][0]) | (e > a["x"][-1])
            mu, up, dn = (np.interp(e, a["x"], a[k]) for k in ("y", "yerr_upper", "yerr_lower"))
            lp = np.where(out, -np.inf, two_half_norm(y, mu, up, dn))
        total = float((lp * f).sum())
    return -math.inf if math.isnan(total) else total


def spec_bins(spec, used):
    """Bin edges and kind of a likelihood of the instruct; `used` are the equiprobable edges found by appletree."""
    one = isinstance(spec["bins_on"], str) or len(spec["bins_on"]) == 1
    kind = spec["bins_type"]
    if kind == "equiprob":
        return [np.asarray(b) for b in used], "irreg"
    bins = spec["bins"] if isinstance(spec["bins"], list) else [spec["bins"]]
    clips = [spec["clip"]] if one else [spec["x_clip"], spec["y_clip"]]
    out = []
    for b, c in zip(bins, clips):
        out.append(np.linspace(c[0], c[1], b + 1) if isinstance(b, int) else np.array(b, dtype=float))
    return out, kind


def clipped_data(spec, cols):
    on = [spec["bins_on"]] if isinstance(spec["bins_on"], str) else spec["bins_on"]
    clips = [spec["clip"]] if len(on) == 1 else [spec["x_clip"], spec["y_clip"]]
    data = [np.asarray(cols[k], dtype=np.float64) for k in on]
    m = np.ones(len(data[0]), dtype=bool)
    for x, c in zip(data, clips):
        m &= (x > c[0]) & (x < c[1])
    return [x[m] for x in data]


class Reference:
    """Log likelihood of a context, from the events its components simulate for a key."""

    def __init__(self, ctx, instruct, par_config, columns):
        self.ctx, self.instruct, self.par, self.columns = ctx, instruct, par_config, columns
        self.data = {}
        for name, spec in instruct["likelihoods"].items():
            if spec.get("type") == "LikelihoodLit":
                continue
            comp = list(ctx.likelihoods[name].components.values())[0]
            bins, kind = spec_bins(spec, comp.bins)
            data = clipped_data(spec, columns(spec["data_file_name"]))
            self.data[name] = (bins, kind, bin_events(data, np.ones(len(data[0])), bins, kind), len(data[0]))

    def alias(self, spec, values):
        values = dict(values)
        for k, v in spec.get("parameter_alias", {}).items():
            if k in values:
                values[v] = values.pop(k)
        return values

    def log_likelihood(self, key, batch, values):
        """(total, per likelihood, expected events, unused key)"""
        total, parts, expected = 0.0, {}, 0.0
        for name, spec in self.instruct["likelihoods"].items():
            llh = self.ctx.likelihoods[name]
            own = self.alias(spec, values)
            if spec.get("type") == "LikelihoodLit":
                (cn,) = spec["components"]
                key, (e, y, f) = llh.components[cn].simulate(key, 1, own)
                lp = literature(spec, e, y, f)
            else:
                key, model = self.model_hist(name, key, batch, own)
                lp = poisson(self.data[name][2], model)
                expected += model.sum()
            parts[name] = lp
            total = None if total is None or lp is None else total + lp
        return total, parts, expected, key

    def model_hist(self, name, key, batch, own):
        spec = self.instruct["likelihoods"][name]
        bins, kind, data, _ = self.data[name]
        llh = self.ctx.likelihoods[name]
        model = np.zeros(data.shape)
        for cn, v in spec["components"].items():
            rate = own[cn + "_rate"]
            if isinstance(v, dict):
                cols = self.columns(v["file_name"])
                on = [spec["bins_on"]] if isinstance(spec["bins_on"], str) else spec["bins_on"]
                obs = [np.asarray(cols[k]) for k in on]
                model += component_hist(v["component_cls"], obs, np.ones(len(obs[0])), bins, kind, rate, len(obs[0]))
            else:
                key, out = llh.components[cn].simulate(key, batch, own)
                out = [np.asarray(o) for o in out]
                model += component_hist(v, out[:-1], out[-1], bins, kind, rate, batch)
        return key, model


def toy_columns(genome):
    def columns(name):
        d = genome["data"][name]
        cs1, cs2 = models._data(d["seed"], d["n"], d["line"])
        return {"cs1": cs1, "cs2": cs2}
    return columns


def packaged_columns(apt):
    def columns(name):
        return apt.utils.load_data(name)
    return columns


def close(a, b, rtol=2e-4, atol=0.02):
    if a is None or b is None:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)
