"""C04: reported fit results describe the whole chain and the configured parameters."""

import copy
import json
import math
import os
import warnings

import numpy as np

from .. import common, fitlife, lab, models
from ..seams import SimKill, Violation, read_h5, world

RULE = ("Seeded histories of operations on one fit: new fits, continuations, interrupted or failing calls, restorations in "
        "the same or a new process, and queries of every kind, for random toy models with and without a backend file. "
        "After every operation each reported result is compared with the result computed from the raw chain. "
        "Non-trivial: a result was queried after the chain had changed at least once.")
MEASURE = "distinct sequences of (operation, fault kind@point#index, outcome)"
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUMPTIONS
BUDGET = {
    "quick": {"runs": 120, "seconds": 90, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 10000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
QUERIES = ["mpe", "median", "random", "dump", "template", "plotter", "attrs", "all"]


def gen(rng, tier, i):
    long = i % 20 == 7
    genome = models.gen(rng, tight=rng.random() < 0.2, **(dict(max_llh=1, max_fit=2) if long else {}))
    fit = fitlife.gen_fit(rng, genome)
    memory = rng.random() < 0.25
    ops = [{"op": "fit", "n": rng.randint(1, 4), "fault": None, "ask": rng.sample(QUERIES, rng.randint(1, 5))}]
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(["fit", "continue", "continue", "continue", "restore", "newproc", "ask", "observe"])
        if memory and op in ("restore", "newproc", "observe"):
            op = "continue"
        o = {"op": op, "n": rng.randint(1, 4), "fault": None,
             "ask": rng.sample(QUERIES, rng.randint(0, 5))}
        if op in ("fit", "continue") and rng.random() < 0.35:
            k = rng.randint(1, fit["nwalkers"] * (o["n"] + 1))
            o["fault"] = rng.choice([
                {"kind": "interrupt", "at": "eval", "k": k},
                {"kind": "evalerr", "at": "eval", "k": k, "exc": "MemoryError"},
                {"kind": "interrupt", "at": "clockread", "k": k},
            ] + ([] if memory else [{"kind": "h5err", "at": "h5open", "k": rng.randint(1, 6 + 2 * o["n"])}]))
        if op in ("fit", "continue") and rng.random() < 0.3:
            # somebody asks while the fit is running
            o["during"] = {"k": rng.randint(1, fit["nwalkers"] * (o["n"] + 1)),
                           "ask": rng.sample(["mpe", "median", "random", "dump", "all"], rng.randint(1, 2))}
        ops.append(o)
    if i % 3 == 1:
        # stopped late: the best sample is likely to be one that no completed call has seen
        n = rng.randint(4, 8)
        late = {"kind": "interrupt", "at": "eval", "k": rng.randint(fit["nwalkers"] * (n // 2), fit["nwalkers"] * n)}
        ops[1:1] = [{"op": "continue", "n": n, "fault": late, "ask": rng.sample(QUERIES, rng.randint(1, 4))}]
        ops[0].update(n=1, fault=None)
    if long:
        # a chain of many autocorrelation times
        o = rng.choice([o for o in ops if o["op"] in ("fit", "continue")])
        o["n"], o["fault"] = rng.randint(60, 130), None
    return {"model": genome, "fit": fit, "ops": ops, "backend": None if memory else "chain.h5",
            "clock": {"mode": rng.choice(["keyed", "tick"]), "t0": rng.randrange(10**15, 2 * 10**15),
                      "seed": rng.randrange(10**6)},
            "par_style": rng.choice(["file", "dict", "path"]), "lives": [], "reactions": [],
            "pyrandom": rng.randrange(10**6)}


def run(plan, leg, prev, d):
    life = fitlife.FitLife(plan, d, backend=plan["backend"])
    genome, fit = plan["model"], plan["fit"]
    params = models.effective_params(genome)
    life.apt = world.boot(11, toy=True)
    life.build()
    observers = []
    probes = {"asked": 0, "asked_during_fit": 0, "asked_observer": 0, "asked_after_interruption": 0, "asked_with_newer_best": 0, "asked_after_change": 0, "calls": 0, "plotters": 0}
    changes = 0
    interrupted = False
    for i, op in enumerate(plan["ops"]):
        world.emit("op", op["op"], op["n"])
        name = op["op"]
        completed = False
        if name in ("fit", "continue"):
            if name == "continue" and (not hasattr(life.ctx, "sampler") or life.n_stored() < 1):
                name = "fit"
            world.faults = [dict(op["fault"])] if op["fault"] else []
            world.life_counts = {}
            if name == "fit":
                if life.h5 is None or not hasattr(life.ctx, "sampler"):
                    pass
                life.fit["seed"] = fit["seed"] + i
            probes["calls"] += 1
            if name == "fit":
                observers.clear()
            if op.get("during"):
                world.eval_hook = during(life, op["during"], params, plan, probes)
            err = life.call(op["n"], fresh=name == "fit")
            world.emit("err", None if err is None else type(err).__name__)
            planned = err is not None and life._planned(err)
            world.faults = []
            world.eval_hook = None
            if isinstance(err, Violation):
                raise err
            if err is not None and not planned:
                raise Violation(f"unexpected-exception:{name}", f"{type(err).__name__}: {err}")
            completed = err is None
            interrupted = err is not None
            changes += 1
        elif name == "observe":
            # a second context of the same fit, asked now and after the first has gone on
            if life.n_stored() < 1:
                continue
            try:
                life.apt.clear_cache()
                observers.append(Observer(life, life.apt.Context.from_backend(life.h5)))
            except Exception as e:
                raise Violation("unexpected-exception:from_backend", f"{type(e).__name__}: {e}")
        elif name in ("restore", "newproc"):
            if life.n_stored() < 1:
                continue
            observers.clear()
            try:
                if name == "newproc":
                    life.apt = world.boot(20 + i, toy=True)
                else:
                    life.apt.clear_cache()
                life.restore()
            except Exception as e:
                raise Violation("unexpected-exception:from_backend", f"{type(e).__name__}: {e}")
            changes += 1
        if not hasattr(life.ctx, "sampler") or life.n_stored() < 1:
            continue
        raw = life.raw()
        want = expected(raw, params)
        if math.isfinite(want["best"]):
            for o in observers:
                probes["asked_observer"] += 1
                for q in ("mpe", "median", "random", "all"):
                    answer(o, q, raw, want, params, plan, False, probes, "observer-")
        for q in op["ask"] + (["attrs"] if completed else ["dump"] if interrupted else []):
            if not math.isfinite(want["best"]):
                continue
            probes["asked"] += 1
            probes["asked_after_interruption"] += interrupted
            probes["asked_with_newer_best"] += q == "dump" and stale(raw, want)
            probes["asked_after_change"] += changes > 1
            answer(life, q, raw, want, params, plan, completed, probes)
        common.log_raw("state", raw)
    return {"nontrivial": probes["asked_after_change"] > 0, "probes": probes}


class Observer:
    def __init__(self, life, ctx):
        self.ctx, self.h5, self.dir, self.apt = ctx, life.h5, life.dir, life.apt


def answer(life, q, raw, want, params, plan, completed, probes, prefix=""):
    try:
        ask(life, q, raw, want, params, plan, completed, probes)
    except Violation as e:
        raise Violation(prefix + e.kind, e.detail) if prefix else e
    except SimKill:
        raise
    except Exception as e:
        raise Violation(f"unexpected-exception:{prefix}{q}", f"{type(e).__name__}: {e}")


def during(life, spec, params, plan, probes):
    """Ask at the k-th evaluation of the running fit, as another thread would between two iterations."""
    seen = [0]

    def hook(rec):
        seen[0] += 1
        if seen[0] != spec["k"] or life.n_stored() < 1:
            return
        raw = life.raw()
        want = expected(raw, params)
        if math.isfinite(want["best"]):
            for q in spec["ask"]:
                probes["asked_during_fit"] += 1
                answer(life, q, raw, want, params, plan, False, probes, "during-")

    return hook


def expected(raw, params):
    names = lab.fit_names(params)
    chain = np.asarray(raw["chain"])
    flat = chain.reshape(-1, chain.shape[-1])
    lp = np.asarray(raw["log_prob"]).reshape(-1)
    best = float(np.max(lp))
    return {"names": names, "flat": flat, "lp": lp, "best": best,
            "mpe_rows": flat[lp == best], "median": np.median(flat, axis=0)}


def stale(raw, want):
    """Whether the best fit saved in the file is no longer that of the chain."""
    saved = raw.get("attrs", {}).get("post_parameters")
    return saved is not None and not is_row(json.loads(saved), want["names"], want["mpe_rows"])


def check_fixed(got, params, what):
    if set(got) != set(params):
        raise Violation(f"{what}-names", f"{sorted(set(got) ^ set(params))} missing or unexpected")
    for k, s in params.items():
        if s["prior_type"] == "fixed" and float(got[k]) != float(s["prior_args"]["val"]):
            raise Violation(f"{what}-fixed", f"{k}={got[k]}, configured {s['prior_args']['val']}")


def is_row(got, names, rows):
    v = np.array([float(got[n]) for n in names])
    return bool(np.any(np.all(rows == v, axis=1)))


def ask(life, q, raw, want, params, plan, completed, probes):
    ctx, names = life.ctx, want["names"]
    if q == "mpe":
        got = ctx.get_post_parameters()
        check_fixed(got, params, "mpe")
        if not is_row(got, names, want["mpe_rows"]):
            raise Violation("mpe", "the best fit is not the stored sample with the highest log posterior")
    elif q == "median":
        got = ctx.get_post_parameters("median")
        check_fixed(got, params, "median")
        v = np.array([float(got[n]) for n in names])
        if not np.allclose(v, want["median"], rtol=1e-12, atol=0):
            raise Violation("median", "the medians are not those of the stored chain")
    elif q == "random":
        for _ in range(3):
            got = ctx.get_post_parameters("random")
            check_fixed(got, params, "random")
            if not is_row(got, names, want["flat"]):
                raise Violation("random", "the random parameter set is not a stored sample")
    elif q == "dump":
        p = os.path.join(life.dir, "dump.json")
        ctx.dump_post_parameters(p)
        with open(p) as f:
            got = json.load(f)
        check_fixed(got, params, "dump")
        if not is_row(got, names, want["mpe_rows"]):
            raise Violation("dump", "the dumped parameters are not the best fit of the stored chain")
    elif q == "all":
        if not fitlife.same_array(ctx.get_all_post_parameters(flat=True), want["flat"]):
            raise Violation("all", "the posterior samples are not those stored")
        if not fitlife.same_array(ctx.get_all_post_parameters(), raw["chain"]):
            raise Violation("all", "the posterior samples are not those stored")
    elif q == "template":
        template(life, want, params)
    elif q == "plotter" and life.h5 is not None:
        probes["plotters"] += 1
        plotter(life, raw, params)
    elif q == "attrs" and life.h5 is not None and completed:
        attrs(raw, want, params)


def template(life, want, params):
    from jax import random

    best = dict(zip(want["names"], (float(x) for x in want["mpe_rows"][0])))
    if len(want["mpe_rows"]) > 1 and not np.all(want["mpe_rows"] == want["mpe_rows"][0]):
        return
    for ln, llh in life.ctx.likelihoods.items():
        for cn, c in llh.components.items():
            if not hasattr(c, "worksheet"):
                continue
            b = 64 if hasattr(llh, "data_hist") else 1
            got = life.ctx.get_template(ln, cn, batch_size=b, seed=77)
            values = llh.replace_alias(models.ref_full_values(params, best))
            _, ref = c.simulate(random.PRNGKey(77), b, values)
            for x, y in zip(got, ref):
                if not fitlife.same_array(np.asarray(x), np.asarray(y)):
                    raise Violation("template", f"the template of {ln}/{cn} is not simulated at the best fit")


def plotter(life, raw, params):
    it = raw["iteration"]
    for discard, thin in ((0, 1), (1, 1), (0, 2), (it // 2, 1), (1, 2)):
        sel = slice(discard + thin - 1, it, thin)
        chain, lp = raw["chain"][sel], raw["log_prob"][sel]
        if len(chain) == 0 or not np.isfinite(lp).any():
            continue
        blobs = np.asarray(raw["blobs"])[sel]
        p = life.apt.Plotter(life.h5, discard=discard, thin=thin)
        ok = np.isfinite(lp).all(axis=1)
        flat_ok = np.isfinite(lp.reshape(-1))
        pairs = [("chain", p.chain, chain[ok]), ("posterior", p.posterior, lp[ok]), ("prior", p.prior, blobs[ok]),
                 ("flat_chain", p.flat_chain, chain.reshape(-1, chain.shape[-1])[flat_ok]),
                 ("flat_posterior", p.flat_posterior, lp.reshape(-1)[flat_ok]),
                 ("flat_prior", p.flat_prior, blobs.reshape((-1,) + blobs.shape[2:])[flat_ok])]
        for name, a, b in pairs:
            if not np.array_equal(np.squeeze(np.asarray(a)), np.squeeze(b)):
                raise Violation("plotter-" + name, f"discard={discard} thin={thin}: not the stored samples")
        if [str(x) for x in p.param_names] != lab.fit_names(params):
            raise Violation("plotter-names", str(list(p.param_names)))
        best = np.max(lp.reshape(-1)[flat_ok])
        rows = chain.reshape(-1, chain.shape[-1])[lp.reshape(-1) == best]
        if not is_row(p.param_mpe, lab.fit_names(params), rows):
            raise Violation("plotter-mpe", f"discard={discard} thin={thin}: not the best of the selected samples")


def attrs(raw, want, params):
    import emcee

    a = raw["attrs"]
    if [str(x) for x in a["parameter_fit"]] != want["names"]:
        raise Violation("attrs-names", str(list(a["parameter_fit"])))
    got = json.loads(a["post_parameters"])
    check_fixed(got, params, "attrs")
    if not is_row(got, want["names"], want["mpe_rows"]):
        raise Violation("attrs-mpe", "the best fit in the file is not that of the stored chain")
    frac = np.asarray(raw["accepted"]) / raw["iteration"]
    if not np.allclose(np.asarray(a["acceptance_fraction"], dtype=float), frac, rtol=1e-12, atol=0):
        raise Violation("attrs-acceptance", f"{a['acceptance_fraction']} instead of {frac}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import logging

        logging.disable(logging.CRITICAL)
        try:
            tau = emcee.autocorr.integrated_time(raw["chain"], quiet=True)
        finally:
            logging.disable(logging.NOTSET)
    if not np.allclose(np.asarray(a["autocorr_time"], dtype=float), tau, rtol=1e-9, equal_nan=True):
        raise Violation("attrs-autocorr", f"{a['autocorr_time']} instead of {tau}")


def shrink(plan):
    P = copy.deepcopy
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            p = P(plan)
            del p["ops"][i]
            yield p
    for i, o in enumerate(plan["ops"]):
        if o["fault"]:
            p = P(plan)
            p["ops"][i]["fault"] = None
            yield p
        if o.get("during"):
            p = P(plan)
            del p["ops"][i]["during"]
            yield p
        for j in range(len(o["ask"])):
            p = P(plan)
            del p["ops"][i]["ask"][j]
            yield p
        if o["n"] > 1:
            p = P(plan)
            p["ops"][i]["n"] -= 1
            yield p
    yield from common.shrink(plan)


def signature(world, plan):
    return repr([e for e in world.log if e[0] in ("boot", "fault", "call", "ret", "op")])
