"""C08: the log posterior is a pure function of parameters, settings and random key."""

import copy
import math
import os
import random

import numpy as np

from .. import common, lab, models, refmodel
from ..seams import LineProbe, Violation, world

RULE = ("Seeded sequences of evaluations of one context: valid, border, out-of-range and unphysical points, repeated "
        "evaluations, direct likelihood calls and event counts, with evaluations failing or interrupted at a clock reading "
        "or at a random line of appletree. Every result is compared with a numpy reference computed from the events the "
        "components simulate for the same random key, and bit by bit with another context, built in a newly started "
        "simulated process, that evaluates the points in another order and without faults. Non-trivial: at least two "
        "points were evaluated.")
MEASURE = "distinct sequences of (operation, kind of outcome)"
REAL = common.REAL
STUB = common.STUB + ["reference: dst/refmodel.py (numpy) for binning, padding, normalisation, likelihoods and priors"]
ASSUMPTIONS = common.ASSUMPTIONS[1:2] + [
    "Likelihoods and components are evaluated in the order of the instruct, each with the key the previous one returned.",
    "Agreement with the reference is required within 2e-4 relative plus 0.02 absolute; where the sign of a bin hinges on "
    "rounding, the point is not judged against the reference."]
BUDGET = {
    "quick": {"runs": 130, "seconds": 85, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 12000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
PACKAGED = [("rn220.json", 3000), ("literature_lyqy.json", 1), ("rn220_ar37.json", 3000)]


def gen(rng, tier, i):
    clock = {"mode": "keyed", "t0": rng.randrange(10**15, 2 * 10**15)}
    n = rng.randint(3, 6)
    ops = []
    for _ in range(rng.randint(5, 11)):
        r = rng.random()
        o = {"op": "eval", "p": rng.randrange(n), "tag": rng.randrange(3), "repeat": rng.choice([1, 1, 1, 2, 3])}
        if r < 0.12:
            o["op"] = "events"
        elif r < 0.24:
            o["op"] = "llh"
        elif r < 0.45:
            o["fault"] = rng.choice([
                {"kind": "evalerr", "at": "clockread", "k": 1, "exc": "MemoryError"},
                {"kind": "evalerr", "at": "line", "k": rng.randint(1, 250), "exc": rng.choice(["RuntimeError", "MemoryError"])},
                {"kind": "interrupt", "at": "line", "k": rng.choice([rng.randint(1, 60), rng.randint(1, 400)])},
                {"kind": "interrupt", "at": "line", "k": rng.choice([rng.randint(1, 60), rng.randint(1, 400)])}])
        ops.append(o)
        if rng.random() < 0.25:
            # nearly the same again
            o = {k: v for k, v in o.items() if k != "fault"}
            what = rng.choice(["batch", "batch", "nudge", "tag", "repeat", "op"])
            if what == "batch":
                o["batch"] = rng.choice([1, 32, 200])
            elif what == "nudge":
                o["nudge"] = rng.choice([1e-3, 1e-5, -1e-5])
            elif what == "tag":
                o["tag"] = (o["tag"] + 1) % 3
            elif what == "repeat":
                o["repeat"] = o["repeat"] % 3 + 1
            else:
                o["op"] = {"eval": "llh", "llh": "events", "events": "llh"}[o["op"]]
            ops.append(o)
    if i % 45 == 11:
        f, b = PACKAGED[(i // 45) % len(PACKAGED)]
        return {"model": {"kind": "packaged", "file": f, "batch_size": b}, "point_seed": rng.randrange(10**6),
                "n": 2, "ops": [dict(o, p=o["p"] % 2) for o in ops[:3]], "clock": clock, "pyrandom": 1}
    big = i % 40 == 17
    g = models.gen(rng, max_llh=1 if big else 3, tight=rng.random() < 0.3)
    g["batch_size"] = 1_100_000 if big else rng.choice([1, 64, 64, 120, 5000])
    if big:
        ops = ops[:5]
    glitch = models.glitch(rng, g) if rng.random() < 0.3 else False
    return {"model": g, "glitch": bool(glitch), "point_seed": rng.randrange(10**6), "n": n, "ops": ops,
            "clock": clock, "pyrandom": 1}


def setup(apt, plan, d):
    g = plan["model"]
    if g["kind"] == "packaged":
        ins = apt.utils.load_json(g["file"])
        ins["backend_h5"] = None
        ctx = lab.build(apt, ins)
        return ctx, ins, ctx.par_config, refmodel.packaged_columns(apt)
    ins = models.materialise(g, os.path.join(d, "m"))
    return lab.build(apt, ins), ins, models.effective_params(g), refmodel.toy_columns(g)


def points_of(plan, params):
    rng = random.Random(plan["point_seed"])
    pts = lab.gen_points(rng, params, plan["n"], outside=0.2)
    if plan.get("glitch"):
        at = plan["model"]["instruct"]["configs"]["toy_glitch_at"]
        for p in pts[::2]:
            if "ly" in p:
                p["ly"] = float(min(at + 0.01, params["ly"]["allowed_range"][1]))
    return pts


def point(pts, params, o):
    """The point of an operation, some moved a little."""
    p = dict(pts[o["p"]])
    if o.get("nudge"):
        k = sorted(p)[o["tag"] % len(p)]
        lo, hi = params[k]["allowed_range"]
        if not math.isnan(p[k]):
            p[k] = float(min(max(p[k] + o["nudge"] * params[k]["init_std"], min(lo, p[k])), max(hi, p[k])))
    return p


def outside(params, p):
    return any(not params[k]["allowed_range"][0] <= v <= params[k]["allowed_range"][1] for k, v in p.items()
               if not math.isnan(v))


def run(plan, leg, prev, d):
    world.emit("start")
    apt = world.boot(3, toy=True)
    world.faults = []
    try:
        ctx, ins, params, columns = setup(apt, plan, d)
    except Exception as e:
        raise Violation("build-failed", f"{type(e).__name__}: {e}")
    params = copy.deepcopy(params)
    pts = points_of(plan, params)
    batch = plan["model"]["batch_size"]
    ref = refmodel.Reference(ctx, ins, params, columns)
    for name, (bins, kind, data, n) in ref.data.items():
        got = np.asarray(ctx.likelihoods[name].data_hist)
        if got.shape != data.shape or not np.allclose(got, data, atol=1e-3):
            raise Violation("data-histogram", f"{name}: {got.tolist()} instead of {data.tolist()}")
    calls = count_simulations(ctx)
    results = []
    probes = {"evaluated": 0, "invalid": 0, "out_of_range": 0, "failed": 0, "interrupted": 0, "unphysical": 0}
    for o in plan["ops"]:
        p, b = point(pts, params, o), o.get("batch") or batch
        n0 = calls[0]
        world.life_counts = {}
        world.faults = [dict(o["fault"])] if o.get("fault") else []
        try:
            if o.get("fault", {}).get("at") == "line":
                with LineProbe():
                    got = do(apt, ctx, o, p, params, b)
            else:
                got = do(apt, ctx, o, p, params, b)
        except (KeyboardInterrupt, MemoryError, RuntimeError) as e:
            fired = any(f.get("done") for f in world.faults)
            world.faults = []
            if not fired:
                raise Violation("exception", f"{o['op']} of {p}: {type(e).__name__}: {e}")
            probes["interrupted" if isinstance(e, KeyboardInterrupt) else "failed"] += 1
            results.append(None)
            world.emit("ev", o["op"], "fault")
            continue
        except Exception as e:
            raise Violation("exception", f"{o['op']} of {p}: {type(e).__name__}: {e}")
        world.faults = []
        probes["evaluated"] += 1
        results.append(got)
        nan = any(math.isnan(v) for v in p.values())
        out = outside(params, p)
        if o["op"] == "eval" and out:
            probes["out_of_range"] += 1
            if got[0] != -math.inf or got[1] != -math.inf:
                raise Violation("out-of-range-accepted", f"{p}: {got}")
            if calls[0] != n0:
                raise Violation("out-of-range-simulated", f"{p}")
        elif not nan and (o["op"] != "eval" or not out):
            judge(apt, ctx, ref, o, p, params, b, got, probes)
        kind = "value" if not isinstance(got, tuple) else "-inf" if got[0] == -math.inf else "finite"
        world.emit("ev", o["op"], o["p"], o["repeat"], kind, repr(lab.canon(got)))
    # the same evaluations in a fresh process, in another order, without faults
    apt = world.boot(4, toy=True)
    world.faults = []
    try:
        ctx2, _, _, _ = setup(apt, plan, d)
    except Exception as e:
        raise Violation("build-failed", f"{type(e).__name__}: {e}")
    for i in reversed(range(len(plan["ops"]))):
        if results[i] is None:
            continue
        o = plan["ops"][i]
        p, b = point(pts, params, o), o.get("batch") or batch
        try:
            again = do(apt, ctx2, o, p, params, b)
        except Exception as e:
            raise Violation("exception", f"{o['op']} of {p}: {type(e).__name__}: {e}")
        diff = lab.first_diff(lab.canon(results[i]), lab.canon(again))
        if diff:
            raise Violation("history-dependent", f"operation {i} ({o['op']} of point {o['p']}): {diff} in a fresh context")
    return {"nontrivial": probes["evaluated"] > 1, "probes": probes}


def count_simulations(ctx):
    calls = [0]
    for llh in ctx.likelihoods.values():
        for c in llh.components.values():
            if hasattr(c, "worksheet"):
                def wrap(*a, _f=c.simulate, **k):
                    calls[0] += 1
                    return _f(*a, **k)
                c.simulate = wrap
    return calls


def do(apt, ctx, o, p, params, b):
    if o["op"] == "eval":
        return lab.logpost(ctx, p, tag=(o["p"], o["tag"]), batch_size=b, repeat_times=o["repeat"])
    lab.set_clock((o["p"], o["tag"]))
    full = lab.full(params, p)
    if o["op"] == "events":
        return float(ctx.get_num_events_accepted(full, batch_size=b))
    key = apt.randgen.get_key(seed=o["tag"] + 11)
    before = dict(full)
    out = {}
    for name, llh in ctx.likelihoods.items():
        key, lp = llh.get_log_likelihood(key, b, full)
        out[name] = float(lp)
    if full != before:
        raise Violation("arguments-changed", f"get_log_likelihood changed the parameters it was given: {before} -> {full}")
    return out, np.asarray(key)


def near(a, b, batch):
    # sums of a million float32 weights are only good to a percent or so
    return refmodel.close(a, b) if batch < 10**5 else refmodel.close(a, b, 0.02, 5.0)


def judge(apt, ctx, ref, o, p, params, b, got, probes):
    full = lab.full(params, p)
    if o["op"] == "llh":
        key = apt.randgen.get_key(seed=o["tag"] + 11)
        _, parts, _, key = ref.log_likelihood(key, b, full)
        for name, lp in got[0].items():
            if not near(lp, parts[name], b):
                raise Violation("log-likelihood", f"{name} at {p}: {lp} instead of {parts[name]}")
        if not np.array_equal(np.asarray(key), got[1]):
            raise Violation("key", "the key handed back is not the one the last component returned")
        return
    lab.set_clock((o["p"], o["tag"]))
    if o["op"] == "events":
        # every likelihood takes a key of its own
        want = 0.0
        for name in ref.data:
            key = apt.randgen.get_key()
            _, model = ref.model_hist(name, key, b, ref.alias(ref.instruct["likelihoods"][name], full))
            want += model.sum()
        if math.isfinite(want) and not (refmodel.close(got, float(want), 1e-3, 1e-2) if b < 10**5 else near(got, float(want), b)):
            raise Violation("events", f"{got} accepted events instead of {want} at {p}")
        return
    prior = models.ref_log_prior(params, p)
    if not refmodel.close(got[1], prior, 1e-5, 1e-5):
        raise Violation("log-prior", f"{got[1]} instead of {prior} at {p}")
    keys = [apt.randgen.get_key() for _ in range(o["repeat"])]
    vals = []
    for key in keys:
        total, _, _, _ = ref.log_likelihood(key, b, full)
        vals.append(total)
    if any(v is None for v in vals):
        return
    if any(v == -math.inf for v in vals):
        probes["unphysical"] += 1
    want = float(np.mean([v + prior for v in vals]))
    if not near(got[0], want, b):
        raise Violation("log-posterior", f"{got[0]} instead of {want} at {p}, repeat_times={o['repeat']}")


def shrink(plan):
    P = copy.deepcopy
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            p = P(plan)
            del p["ops"][i]
            yield p
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            p = P(plan)
            del p["ops"][i]["fault"]
            yield p
        if o["repeat"] > 1:
            p = P(plan)
            p["ops"][i]["repeat"] = 1
            yield p
        for k in ("batch", "nudge"):
            if o.get(k):
                p = P(plan)
                del p["ops"][i][k]
                yield p
    yield from common.shrink_model(plan)


def signature(world, plan):
    return repr([e[:5] for e in world.log if e[0] in ("ev", "fault")])
