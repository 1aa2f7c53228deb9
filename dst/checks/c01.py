"""C01: a fit that is killed, interrupted or hit by storage errors and then continued is the same fit."""

import numpy as np

from .. import common, fitlife
from ..seams import Violation, world

RULE = ("Seeded plans: a random toy model (1-2 likelihoods, 1-3+ fitted parameters), a fit of 3-8 iterations "
        "run in chunks over 1-4 lives, each life with 1-2 faults (kill/interrupt/evaluation failure/HDF5 open "
        "failure/disk full) at a seeded seam event, and a seeded way of carrying on; compared bit by bit with the "
        "same fit run without interruption. Non-trivial: at least one fault fired or the fit was chunked. "
        "Some runs use packaged models.")
MEASURE = "distinct sequences of (process start, operation, fault kind@point#index, outcome)"
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUMPTIONS
BUDGET = {
    "quick": {"runs": 120, "seconds": 90, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 9000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
PACKAGED = [("literature_lyqy.json", None, 1), ("rn220.json", None, 2000)]


def gen(rng, tier, i):
    if i in (5, 6) or (tier == "thorough" and i % 400 == 7):
        f, _, b = PACKAGED[0 if i == 5 else rng.randrange(2)]
        plan = common.packaged_plan(rng, f, {"literature_lyqy.json": 64, "rn220.json": 40}[f], b)
        plan["other"] = None
        plan["clock"]["recount"] = True
        return plan
    plan = common.gen_plan(rng, long=i % 30 == 11)
    plan["clock"]["recount"] = True
    # sometimes a second context takes over where the first one stopped
    plan["other"] = None
    if rng.random() < 0.3:
        plan["other"] = {"iterations": rng.randint(1, 3), "backend": rng.choice([None, None, "other.h5"]),
                         "own": rng.choice([0, 0, 1, 2]), "seed": rng.randrange(2**31)}
        if rng.random() < 0.4:
            memory_only(plan)
            plan["other"]["backend"] = None
    return plan


def run(plan, leg, prev, d):
    life = common.run_life(plan, d)
    got = life.raw()
    common.log_raw("final", got)
    fit = plan["fit"]
    names = list(life.ctx.par_manager.parameter_fit)
    last = [c for c in life.rec.calls if c["err"] is None and "result" in c]
    if last and last[-1] is life.rec.calls[-1]:
        coords, lp = last[-1]["result"]
        if not fitlife.same_array(coords, got["chain"][-1]) or not fitlife.same_array(lp, got["log_prob"][-1]):
            raise Violation("returned-state", "the state returned by the fit call is not the last stored iteration")
    # what the context itself reports
    s = life.ctx.sampler
    if not fitlife.same_array(s.get_chain(), got["chain"]) or \
            not fitlife.same_array(life.ctx.get_all_post_parameters(), got["chain"]):
        raise Violation("context-chain", "the chain reported by the context is not the stored chain")
    if plan["other"]:
        take_over(plan, life, got)
    ref = common.reference_run(plan, d)
    want = ref.raw()
    common.log_raw("reference", want)
    if list(ref.ctx.par_manager.parameter_fit) != names:
        raise Violation("parameter-order", f"{names} instead of {list(ref.ctx.par_manager.parameter_fit)}")
    diff = fitlife.diff_runs(got, want)
    if diff:
        fresh = sum(c["fresh"] for c in life.rec.calls)
        raise Violation("resume-differs", f"{diff} (after {len(life.rec.calls)} calls, {fresh} of them new fits)")
    nontrivial = bool(world.fault_counts) or len(life.rec.calls) > 1
    return {"nontrivial": nontrivial, "probes": {
        "resumed_in_new_process": int(world.life > 1),
        "resumed_same_object": int(sum(1 for c in life.rec.calls if not c["fresh"]) > 0 and world.life <= 1),
        "in_memory": int(plan.get("backend") is None),
        "died_before_first_iteration": int(sum(c["fresh"] for c in life.rec.calls) > 1),
    }}


def memory_only(plan):
    """The same plan without a backend file and with faults a process survives."""
    plan["backend"] = None
    plan["lives"] = plan["lives"][:1]
    plan["lives"][0]["faults"] = [f for f in plan["lives"][0]["faults"] if f["kind"] in ("interrupt", "evalerr")
                                  and not f["at"].startswith("h5")]


def take_over(plan, life, got):
    """Another context continues this fit: it must start from its last positions."""
    import os

    spec = plan["other"]
    h5 = os.path.join(life.dir, spec["backend"]) if spec["backend"] else None
    life.apt.clear_cache()
    ins = life.make_instruct()
    ins["backend_h5"] = h5
    if plan["par_style"] == "dict":
        ctx = life.apt.Context(ins, par_config=plan["model"]["params"])
    else:
        ctx = life.apt.Context(ins)
    before = fitlife.file_bytes(life.h5) if life.h5 else None
    mine = life.ctx.sampler.get_chain().copy()
    world.faults = []
    nw = plan["fit"]["nwalkers"]
    names = list(life.ctx.par_manager.parameter_fit)
    own = spec.get("own", 0)
    first = None
    try:
        if own:
            # it has a fit of its own already
            np.random.seed(spec["seed"] % 2**32)
            ctx.fitting(nwalkers=nw, iteration=own, **life.kwargs())
            first = ctx.sampler.get_chain().copy()
        e0 = len(world.evals)
        ctx.continue_fitting(context=life.ctx, iteration=spec["iterations"], **life.kwargs())
    except Exception as e:
        raise Violation("unexpected-exception:continue-other", f"{type(e).__name__}: {e}")
    started = [tuple(v for _, v in rec[0]) for rec in world.evals[e0:e0 + nw]]
    want = [tuple(float(x) for x in row) for row in got["chain"][-1]]
    if started != want:
        raise Violation("continue-other-start", "the new context did not start at the last stored positions")
    chain = ctx.sampler.get_chain()
    if h5 and own:
        if not fitlife.same_array(chain[:own], first):
            raise Violation("continue-other-history", "the samples it had stored itself changed")
        chain = chain[own:]
    if chain.shape != (spec["iterations"], nw, len(names)):
        raise Violation("continue-other-shape", f"chain shape {chain.shape}")
    # a walker either stays where the other context left it or moves to a point evaluated since
    known = set(want) | {tuple(v for _, v in rec[0]) for rec in world.evals[e0:]}
    if any(tuple(float(x) for x in row) not in known for row in chain[0]):
        raise Violation("continue-other-start", "the first sample does not follow from the last stored positions")
    if life.h5 and fitlife.file_bytes(life.h5) != before:
        raise Violation("continue-other-touches-source", "the source's backend file was modified")
    if not fitlife.same_array(life.ctx.sampler.get_chain(), mine):
        raise Violation("continue-other-touches-source", "the chain of the source changed")


def shrink(plan):
    import copy

    if plan.get("other"):
        p = copy.deepcopy(plan)
        p["other"] = None
        yield p
    yield from common.shrink(plan)


signature = common.signature
