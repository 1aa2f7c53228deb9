"""C03: every stored sample is a true evaluation of the model inside the allowed ranges."""

import math

import numpy as np

from .. import common, fitlife, lab, models
from ..seams import Violation, world

RULE = ("Seeded plans: a random toy model, in half of the runs with allowed ranges so narrow that proposals often leave "
        "them and in 40% with a model that predicts undefined, infinite, negative or no events in part of the parameter "
        "space, fitted in 1-4 lives with seeded faults; in 40% half of the proposals lie at the edges of the "
        "allowed region or just beyond and are favoured so much that only an infinitely small posterior rejects them. Every distinct stored sample is re-evaluated, under the names in "
        "the file and with the random key of its evaluation, in a context built anew in another simulated process, and "
        "its log prior is recomputed by an independent implementation. Non-trivial: samples were re-evaluated.")
MEASURE = "distinct sequences of (process start, operation, fault kind@point#index, outcome)"
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUMPTIONS
BUDGET = {
    "quick": {"runs": 110, "seconds": 90, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 10000, "seconds": 3000, "minimise": 300, "recheck": 60},
}


def gen(rng, tier, i):
    if i == 3 or (tier == "thorough" and i % 500 == 3):
        return common.packaged_plan(rng, "literature_lyqy.json", 64, 1, total=2)
    plan = common.gen_plan(rng, tight=rng.random() < 0.5, par_styles=("file", "dict", "path"), fault_free=0.3,
                           max_lives=3, long=i % 30 == 13)
    plan["clock"] = {"mode": "keyed", "t0": plan["clock"]["t0"]}
    if rng.random() < 0.4:
        # proposals at the very edges of the allowed region, as favourable as can be
        plan["fit"]["moves"] = [["hop", 0.5], ["stretch", 0.5]]
    if i % 10 == 2:
        # enough walkers to judge how they start
        plan["model"] = models.gen(rng, tight=True, max_llh=1)
        plan["fit"] = dict(fitlife.gen_fit(rng, plan["model"]), nwalkers=40, total=2, chunks=[1, 1], repeat_times=1)
        plan["lives"] = [{"np_seed": rng.randrange(2**31), "faults": fitlife.gen_faults(rng, plan["fit"], ["interrupt"], 0)}]
    elif rng.random() < 0.4:
        plan["glitch"] = models.glitch(rng, plan["model"])
        ndim = models.fit_count(plan["model"])
        plan["fit"]["nwalkers"] = max(plan["fit"]["nwalkers"], 2 * ndim)
    return plan


def run(plan, leg, prev, d):
    life = common.run_life(plan, d)
    raw = life.raw()
    common.log_raw("final", raw)
    genome = plan["model"]
    toy = genome["kind"] == "toy"
    evals = list(world.evals)
    # initial positions of the fit that survived
    fresh = [c for c in life.rec.calls if c["fresh"]]
    nw = plan["fit"]["nwalkers"]
    e0 = fresh[-1]["evals_from"]
    initial = {tuple(v for _, v in rec[0]): rec for rec in evals[e0:e0 + nw]}
    if plan.get("backend"):
        names = [str(x) for x in raw["attrs"]["parameter_fit"]]
    else:
        names = list(life.ctx.sampler.parameter_names)
    params = models.effective_params(genome) if toy else None

    # an independent context in another process
    apt = world.boot(1, toy=True)
    ref = fitlife.FitLife({**plan, "par_style": "file"}, d, backend=None)
    ref.apt = apt
    ctx = ref.build()
    if not toy:
        params = ctx.par_config
    if names != lab.fit_names(params):
        raise Violation("names", f"the file names {names}, the fitted parameters are {lab.fit_names(params)}")
    initial_guess(params, [dict(rec[0]) for rec in evals[e0:e0 + nw]])
    chain, lp, blobs = raw["chain"], raw["log_prob"], raw["blobs"]
    if blobs is None:
        raise Violation("no-prior", "no log prior is stored")
    blobs = np.asarray(blobs, dtype=float).reshape(lp.shape)
    it, nwalk, nd = chain.shape
    seen = {}
    moved = 0
    for i in range(it):
        for w in range(nwalk):
            x = tuple(float(v) for v in chain[i, w])
            l, b = float(lp[i, w]), float(blobs[i, w])
            if x in seen:
                if seen[x] != (l, b) and not (math.isnan(b) and math.isnan(seen[x][1])):
                    raise Violation("inconsistent", f"sample {i},{w} carries {l}, {b}; elsewhere {seen[x]}")
                continue
            seen[x] = (l, b)
            v = dict(zip(names, x))
            start = tuple(val for _, val in sorted(v.items())) in initial
            if not start:
                moved += 1
            outside = [k for k in names if not params[k]["allowed_range"][0] <= v[k] <= params[k]["allowed_range"][1]]
            if outside:
                raise Violation("outside", f"the sampler {'starts at' if start else 'moved to'} {outside[0]}={v[outside[0]]}, allowed "
                                           f"{params[outside[0]]['allowed_range']}")
            if math.isnan(l) or (not math.isfinite(l) and not start):
                raise Violation("invalid-accepted", f"the sampler moved to a point with log posterior {l}")
    probes = {"samples": len(seen), "moved": moved, "never_valid_start": 0, "invalid_proposals": 0}
    probes["invalid_proposals"] = sum(1 for r in evals if not math.isfinite(r[1]))
    rep = plan["fit"]["repeat_times"]
    kw = {"batch_size": genome["batch_size"]}
    if rep != 1:
        kw["repeat_times"] = rep
    todo = list(seen)
    if len(todo) > 70:
        step = len(todo) / 70
        todo = [todo[int(j * step)] for j in range(70)]
    hist_checks = 0
    for j, x in enumerate(todo):
        l, b = seen[x]
        v = dict(zip(names, x))
        want = models.ref_log_prior(params, v)
        if math.isfinite(want):
            if not math.isclose(float(b), want, rel_tol=2e-5, abs_tol=2e-5):
                raise Violation("log-prior", f"stored log prior {b}, configured priors give {want}")
        elif math.isfinite(b):
            raise Violation("log-prior", f"stored log prior {b} of a point that is not allowed")
        try:
            got = lab.logpost(ctx, v, **kw)
        except Exception as e:
            raise Violation("unexpected-exception:log_posterior", f"{type(e).__name__}: {e}")
        if got[0] != l and not (math.isnan(got[0]) and math.isnan(l)):
            raise Violation("log-posterior", f"stored log posterior {l}, the model gives {got[0]} for {v}")
        if not math.isfinite(l):
            probes["never_valid_start"] += 1
        elif toy and rep == 1 and hist_checks < 6 and j % 5 == 0:
            hist_checks += 1
            if any(h.size == 0 or not np.all(np.isfinite(h)) or np.any(h <= 0) for h in model_hists(ctx, params, v,
                                                                                                genome)):
                raise Violation("invalid-accepted", f"a stored sample has a bin without valid prediction: {v}")
    probes["histograms"] = hist_checks
    return {"nontrivial": bool(todo), "probes": probes}


def initial_guess(params, points):
    """The walkers start at points drawn from the configured initial guesses, clipped to the allowed range."""
    import scipy.stats as st

    clipped, log_none = 0, 0.0
    for k in points[0]:
        s = params.get(k)
        if s is None:
            raise Violation("names", f"{k} is not a fitted parameter")
        lo, hi = s["allowed_range"]
        m, w = s["init_mean"], s["init_std"]
        z = []
        for p in points:
            x = p[k]
            if not lo <= x <= hi:
                raise Violation("initial-outside", f"a walker starts at {k}={x}, allowed {lo} to {hi}")
            if x in (lo, hi):
                continue
            z.append((x - m) / w)
            if abs(z[-1]) > 7.5:
                raise Violation("initial-guess", f"a walker starts at {k}={x}, the guess is {m} +- {w}")
        # how many are expected at the ends of the range
        near = 1e-9 * min(w, hi - lo)
        ends = [(sum(p[k] <= lo + near for p in points), st.norm.cdf((lo - m) / w)),
                (sum(p[k] >= hi - near for p in points), st.norm.sf((hi - m) / w))]
        for count, prob in ends:
            clipped += count
            if st.binom.sf(count - 1, len(points), prob) < 1e-11 or st.binom.cdf(count, len(points), prob) < 1e-11:
                raise Violation("initial-guess", f"{count} of {len(points)} walkers start at an end of the range of {k}")
        log_none += len(points) * np.log1p(-min(0.999, ends[0][1] + ends[1][1]))
        if len(z) < 4 or len(z) < len(points) or min(m - lo, hi - m) < 4 * w:
            continue
        n = len(z)
        if len(set(z)) < n:
            raise Violation("initial-guess", f"two walkers start at the same {k}")
        q = sum(v * v for v in z)
        if abs(sum(z)) / n**0.5 > 7 or st.chi2.sf(q, n) < 1e-11 or st.chi2.cdf(q, n) < 1e-11:
            raise Violation("initial-guess", f"the walkers' {k} does not follow the guess {m} +- {w}")
    world.emit("clipped", clipped, round(float(log_none), 3))
    if not clipped and log_none < -26:
        raise Violation("initial-guess", f"no walker starts at the end of any allowed range (1 in {np.exp(-log_none):.2g})")


def model_hists(ctx, params, v, genome):
    """The model histogram of every binned likelihood, summed over its components."""
    import jax
    from ..seams import _as_items

    lab.set_clock(_as_items(v))
    key = ctx_key()
    out = []
    for llh in ctx.likelihoods.values():
        values = llh.replace_alias(models.ref_full_values(params, v))
        if not hasattr(llh, "data_hist"):
            for c in llh.components.values():
                key, _ = c.simulate(key, 1, values)
            continue
        total = 0.0
        for c in llh.components.values():
            if hasattr(c, "worksheet"):
                key, h = c.simulate_hist(key, genome["batch_size"], values)
            else:
                h = c.simulate_hist(values)
            total = total + np.asarray(h, dtype=float)
        out.append(total)
    return out


def ctx_key():
    from appletree import randgen

    return randgen.get_key()


shrink = common.shrink
signature = common.signature
