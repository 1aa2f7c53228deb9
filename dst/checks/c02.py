"""C02: completed iterations are durable, unaltered and stored exactly once."""

import copy
import os

import numpy as np

from .. import common, fitlife, lab
from ..fitlife import file_bytes, same_array
from ..seams import SimKill, Violation, read_h5, world

RULE = ("Seeded plans: a random toy model fitted into a backend file in 1-4 lives with 1-2 faults each "
        "(kill/interrupt/evaluation failure/HDF5 open failure/disk full at a seeded seam event). The durable content "
        "of the file is inspected every time an iteration has completed and after every fault, restart, query, refused "
        "call and continuation, and compared with everything that was there before. Non-trivial: at least one fault "
        "fired or a query ran on stored samples.")
MEASURE = "distinct sequences of (process start, operation, fault kind@point#index, outcome)"
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUMPTIONS
BUDGET = {
    "quick": {"runs": 120, "seconds": 90, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 12000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
QUERIES = ["mpe", "median", "random", "chain", "dump", "template", "plotter", "plot", "restore", "summary",
           "posterior", "lineage", "refused-walkers", "refused-dims", "refused-new", "resume-zero"]


def gen(rng, tier, i):
    plan = common.gen_plan(rng, memory=0.0, long=i % 30 == 12)
    plan["queries"] = [rng.sample(QUERIES, rng.randint(0, 4)) for _ in range(6)]
    plan["watch"] = rng.random() < 0.8
    return plan


class Watch:
    """The durable state may only grow, at the end, by as many rows as iterations completed."""

    def __init__(self, plan):
        self.plan = plan
        self.nw = plan["fit"]["nwalkers"]
        self.prev = None
        self.path = None
        self.call = None
        self.checked = 0

    def compare(self, when, allow_growth=True):
        try:
            now = read_h5(self.path)
        except (OSError, KeyError) as e:
            raise Violation("unreadable", f"the backend file cannot be read {when}: {type(e).__name__}")
        if now is not None and not now["present"]:
            now = None
        old = self.prev
        if old is not None and old["iteration"] > 0:
            if now is None:
                raise Violation("lost", f"the stored chain is gone {when}")
            n = old["iteration"]
            if now["iteration"] < n:
                raise Violation("lost", f"{n - now['iteration']} stored iterations are gone {when}")
            for key in ("chain", "log_prob", "blobs"):
                a, b = old[key], now[key]
                if (a is None) != (b is None) or (a is not None and not same_array(a[:n], b[:n])):
                    raise Violation("altered", f"{key} of stored iterations changed {when}")
            if np.any(now["accepted"] < old["accepted"]):
                raise Violation("altered", f"acceptance counts decreased {when}")
            if not allow_growth:
                if now["iteration"] != n:
                    raise Violation("grown", f"{now['iteration'] - n} iterations appeared {when}")
                if not same_array(now["accepted"], old["accepted"]):
                    raise Violation("altered", f"acceptance counts changed {when}")
        self.prev = now
        return now

    # during a fit call
    def begin(self, start, n, fresh, path):
        self.path = path
        self.call = (start, n, fresh, world.counts.get("eval", 0))

    def during(self, rec):
        if self.call is None:
            return
        start, n, fresh, e0 = self.call
        init = self.nw if fresh else 0
        done = world.counts.get("eval", 0) - e0 - 1 - init
        if done >= 0 and done % self.nw == 0:
            self.checked += 1
            now = self.compare("while sampling")
            have = 0 if now is None else now["iteration"]
            if have < start + done // self.nw:
                raise Violation("not-durable", f"{start + done // self.nw} iterations are complete but only {have} "
                                               f"are stored")

    def after(self, entry):
        """After a call, however it ended."""
        start, n, fresh = entry["start"], entry["n"], entry["fresh"]
        init = self.nw if fresh else 0
        begun = entry["evals_begun"]
        if fresh:
            self.prev = None if self.prev is None or self.prev["iteration"] == 0 else self.prev
        now = self.compare(f"after {entry['err'] or 'a completed call'}")
        have = 0 if now is None else now["iteration"]
        least = start + max(0, (begun - 1 - init) // self.nw)
        most = start + max(0, (begun - init) // self.nw)
        if have < least:
            raise Violation("not-durable", f"{least} iterations had completed but {have} are stored after "
                                           f"{entry['err']}")
        if have > most:
            raise Violation("duplicated", f"{have} iterations are stored but only {most} were sampled")
        if entry["err"] is None and have != start + n:
            raise Violation("miscounted", f"{have} iterations are stored after a completed call, not {start + n}")
        self.call = None


class Life(fitlife.FitLife):
    def call(self, n, fresh):
        self.watch.begin(0 if fresh else self.n_stored(), n, fresh, self.h5)
        return super().call(n, fresh)


def run(plan, leg, prev, d):
    watch = Watch(plan)
    queries = [list(q) for q in plan["queries"]]
    counts = {"queries": 0, "refused": 0}

    def built(life):
        watch.path = life.h5
        if watch.prev is not None:
            watch.compare(f"after the context was {life.built_by}", allow_growth=False)
        ask(life, "built")

    def after(life, err):
        if life.rec.calls and life.rec.calls[-1] is not getattr(watch, "seen", None):
            watch.seen = life.rec.calls[-1]
            watch.after(watch.seen)
        elif watch.path:
            watch.compare(f"after {type(err).__name__}", allow_growth=False)
        if not isinstance(err, SimKill):
            ask(life, "after")

    def ask(life, when):
        if not queries or life.ctx is None or life.n_stored() < 1:
            return
        if not hasattr(life.ctx, "sampler"):
            return
        saved, world.faults = world.faults, []
        for q in queries.pop(0):
            before = file_bytes(life.h5)
            world.emit("op", q)
            refused = query(life, q, counts)
            counts["queries"] += 1
            if file_bytes(life.h5) != before:
                if not refused:
                    raise Violation("query-modifies", f"{q} modified the backend file")
            watch.compare(f"after {q}", allow_growth=False)
            if refused and life.ctx is None:
                break
        world.faults = saved

    life = Life(plan, d, backend="chain.h5", hooks={"built": built, "after": after})
    life.watch = watch
    if plan["watch"]:
        world.eval_hook = watch.during
    # the hook has to run before the evaluation is counted as finished, so it sees complete iterations only
    if any(f["at"] in ("line", "evalline") for l in plan["lives"] for f in l["faults"]):
        with common.LineProbe():
            life.run()
    else:
        life.run()
    final = watch.compare("at the end", allow_growth=False)
    if final["iteration"] != plan["fit"]["total"]:
        raise Violation("miscounted", f"{final['iteration']} iterations at the end")
    queries.append(list(plan["queries"][-1]) + ["plotter"])
    ask(life, "end")
    common.log_raw("final", final)
    return {"nontrivial": bool(world.fault_counts) or counts["queries"] > 0,
            "probes": {"queries": counts["queries"], "refused_calls": counts["refused"],
                       "checked_while_sampling": watch.checked,
                       "lives_that_lost_an_iteration_in_flight": int(world.fault_counts.get("kill", 0) > 0)}}


def query(life, q, counts):
    """One query on the current context.  True if it was a call that must be refused."""
    ctx, apt = life.ctx, life.apt
    try:
        return _query(life, ctx, apt, q, counts)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"unexpected-exception:{q}", f"{type(e).__name__}: {e}")


def _query(life, ctx, apt, q, counts):
    if q in ("mpe", "median", "random"):
        ctx.get_post_parameters(q)
    elif q == "chain":
        ctx.get_all_post_parameters(flat=True)
    elif q == "dump":
        ctx.dump_post_parameters(os.path.join(life.dir, "dumped.json"))
    elif q == "template":
        for ln, llh in ctx.likelihoods.items():
            for cn, c in llh.components.items():
                if hasattr(c, "worksheet"):
                    ctx.get_template(ln, cn, batch_size=1 if "LikelihoodLit" in type(llh).__name__ else 64, seed=3)
                    return False
    elif q == "plotter":
        raw = life.raw()
        if raw and raw["iteration"] and np.isfinite(raw["log_prob"]).any():
            apt.Plotter(life.h5)
    elif q == "plot":
        raw = life.raw()
        if raw and raw["iteration"] >= 3 and np.isfinite(raw["log_prob"]).all():
            import matplotlib.pyplot as plt

            plt.close("all")
            p = apt.Plotter(life.h5)
            p.plot_burn_in()
            p.plot_acceptance_fraction(window_length=1)
            plt.close("all")
    elif q == "restore":
        apt.clear_cache()
        apt.Context.from_backend(life.h5)
        apt.clear_cache()
    elif q == "summary":
        ctx.print_context_summary(short=False)
    elif q == "posterior":
        names = list(ctx.par_manager.parameter_fit)
        raw = life.raw()
        lab.logpost(ctx, dict(zip(names, raw["chain"][-1][0])), batch_size=life.genome["batch_size"])
    elif q == "lineage":
        ctx.lineage_hash
    elif q == "resume-zero":
        # continuing by nothing at all
        ctx.continue_fitting(iteration=0, **life.kwargs())
        return True
    elif q.startswith("refused"):
        counts["refused"] += 1
        try:
            refuse(life, ctx, apt, q)
        except Violation:
            raise
        except Exception as e:
            world.emit("refused", type(e).__name__)
        return True
    return False


class _Other:
    """A stand-in for a context whose fit has another shape."""

    def __init__(self, shape):
        class S:
            backend = None

            @staticmethod
            def get_chain(*a, **k):
                return np.zeros(shape)

        self.sampler = S()


def refuse(life, ctx, apt, q):
    raw = life.raw()
    it, nw, nd = raw["chain"].shape
    if q == "refused-walkers":
        # another fit, with more walkers, cannot be appended to this file
        ctx.continue_fitting(context=_Other((2, nw + 2, nd)), iteration=1, batch_size=life.genome["batch_size"])
    elif q == "refused-dims":
        ctx.continue_fitting(context=_Other((2, nw, nd + 1)), iteration=1, batch_size=life.genome["batch_size"])
    elif q == "refused-new":
        # a context without any fit has nothing to continue
        apt.clear_cache()
        fresh = life.make_instruct()
        if life.plan.get("par_style") == "dict":
            other = apt.Context(fresh, par_config=copy.deepcopy(life.genome["params"]))
        else:
            other = apt.Context(fresh)
        apt.clear_cache()
        other.continue_fitting(iteration=1, batch_size=life.genome["batch_size"])


def shrink(plan):
    for i, q in enumerate(plan["queries"]):
        for j in range(len(q)):
            p = copy.deepcopy(plan)
            del p["queries"][i][j]
            yield p
    yield from common.shrink(plan)


signature = common.signature
