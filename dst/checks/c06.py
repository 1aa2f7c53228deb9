"""C06: contexts that live in the same process do not influence each other."""

import copy
import json
import os
import shutil

import numpy as np

from .. import common, fitlife, lab, models
from ..baton import Baton
from ..seams import LineProbe, Violation, read_h5, world

RULE = ("Seeded programs of operations (build, evaluate, simulate, fit, continue, interrupt, query, lineage, map plots, "
        "clear the cache, restore, failed build of an unrelated model) on 2-3 contexts with different likelihood names and "
        "fully specified configurations, interleaved call by call, with several continuations at a time running in threads "
        "whose every switch (at evaluations, file accesses and random lines of appletree) is decided by the seed. Every "
        "result of every context is compared with the same operations executed alone in another simulated process. "
        "Non-trivial: at least two contexts took part.")
MEASURE = "distinct sequences of (context, operation, outcome) with the thread schedule"
REAL = common.REAL
STUB = common.STUB + ["thread scheduler: real threads, one running at a time, switches decided by the seed"]
ASSUMPTIONS = common.ASSUMPTIONS[1:] + [
    "Threads start sampling one after the other: numpy's global random state, from which a new fit draws its walkers, is "
    "shared by the process by design.",
    "The copy of the global configuration and the date in a backend file are not results of a context."]
BUDGET = {
    "quick": {"runs": 60, "seconds": 90, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 6000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
OPS = ["eval", "eval", "hist", "keep", "keep", "fit", "cont", "cont", "mpe", "lineage", "maps", "summary", "events"]


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3])
    actors = []
    shared = rng.random() < 0.3
    base = None
    for a in range(n):
        g = models.specify(models.gen(rng, max_llh=2 if n == 2 else 1))
        if shared and base is not None:
            # the same configuration and model, under other likelihood names
            g = copy.deepcopy(base)
        base = base or copy.deepcopy(g)
        models.rename(g, f"c{a}_")
        if rng.random() < 0.4:
            g["palette"] = rng.choice([0.95, 0.9])
        actors.append({"model": g, "fit": fitlife.gen_fit(rng, g), "point_seed": rng.randrange(10**6),
                       "memory": rng.random() < 0.3, "par_style": rng.choice(["file", "dict"])})
    ops = []
    started = set()
    built = set()
    order = list(range(n))
    rng.shuffle(order)
    for step in range(rng.randint(8, 14)):
        if order and (rng.random() < 0.4 or not built):
            a = order.pop()
            built.add(a)
            ops.append({"who": a, "op": "build"})
            continue
        r = rng.random()
        if r < 0.08:
            ops.append({"who": None, "op": "clear"})
            continue
        if r < 0.13:
            ops.append({"who": None, "op": "badbuild"})
            continue
        if r < 0.28 and len(started) > 1:
            who = sorted(started)
            ops.append({"who": None, "op": "threads", "actors": who, "n": rng.randint(1, 2),
                        "seed": rng.randrange(10**6), "p_line": rng.choice([0.0, 0.002, 0.01])})
            continue
        if r < 0.40 and len(built) > 1:
            ops.append({"who": None, "op": "threads", "what": rng.choice(["eval", "eval", "keep", "events"]),
                        "actors": sorted(built), "n": 1, "seed": rng.randrange(10**6),
                        "p_line": rng.choice([0.02, 0.1, 0.3])})
            continue
        a = rng.choice(sorted(built))
        op = rng.choice(OPS)
        if r > 0.93 and a in started and not actors[a]["memory"]:
            op = "restore"
        if op == "cont" and a not in started:
            op = "fit"
        if op == "mpe" and a not in started:
            op = "eval"
        o = {"who": a, "op": op, "n": rng.randint(1, 2)}
        if op == "fit":
            started.add(a)
        if op in ("fit", "cont") and rng.random() < 0.2:
            o["fault"] = {"kind": "interrupt", "at": "eval",
                          "k": rng.randint(actors[a]["fit"]["nwalkers"] + 2, actors[a]["fit"]["nwalkers"] * 3)}
        ops.append(o)
    for a in order:
        ops.append({"who": a, "op": "build"})
        built.add(a)
    ops.append({"who": None, "op": "threads", "what": "eval", "actors": sorted(built), "n": 1,
                "seed": rng.randrange(10**6), "p_line": 0.1})
    for a in range(n):
        ops.append({"who": a, "op": "eval"})
        ops.append({"who": a, "op": "lineage"})
    return {"actors": actors, "ops": ops, "clock": {"mode": "keyed", "t0": rng.randrange(10**15, 2 * 10**15)},
            "pyrandom": 3}


class Actor:
    def __init__(self, spec, idx, d):
        self.spec, self.idx, self.dir = spec, idx, os.path.join(d, f"c{idx}")
        self.genome, self.fit = spec["model"], spec["fit"]
        plan = {"model": self.genome, "fit": self.fit, "par_style": spec["par_style"]}
        self.life = fitlife.FitLife(plan, self.dir, backend=None if spec["memory"] else "chain.h5")
        rng = __import__("random").Random(spec["point_seed"])
        self.params = models.effective_params(self.genome)
        self.points = lab.gen_points(rng, self.params, 3, outside=0.15)
        self.results = []
        self.kept = []
        self.nfit = 0

    def do(self, op, apt):
        kind = op["op"]
        self.life.apt = apt
        try:
            out = getattr(self, "op_" + kind)(op, apt)
        except (Violation, KeyboardInterrupt) as e:
            if isinstance(e, Violation):
                raise
            out = "interrupted"
        except Exception as e:
            out = f"{type(e).__name__}: {e}".replace(self.dir, "")
        self.results.append([kind, lab.canon(out)])

    @property
    def ctx(self):
        return self.life.ctx

    def op_build(self, op, apt):
        self.life.build()
        return sorted(self.ctx.needed_parameters)

    def op_eval(self, op, apt):
        if self.ctx is None:
            return None
        return [lab.logpost(self.ctx, p, batch_size=self.genome["batch_size"]) for p in self.points]

    def op_hist(self, op, apt):
        if self.ctx is None:
            return None
        return lab.describe(self.ctx, self.genome, self.points[:1], 5)

    def op_keep(self, op, apt):
        """Results that the user holds on to: they are looked at again at the end."""
        if self.ctx is None:
            return None
        values = lab.full(self.params, self.points[0])
        for ln in self.ctx.likelihoods:
            llh = self.ctx.likelihoods[ln]
            if hasattr(llh, "data_hist"):
                key = apt.randgen.get_key(seed=11)
                self.kept.append([ln, llh.data_hist, llh.simulate_weighted_data(key, self.genome["batch_size"], values)[1]])
                for c in llh.components.values():
                    if hasattr(c, "worksheet"):
                        self.kept.append(c.simulate_hist(key, self.genome["batch_size"], llh.replace_alias(values))[1])
        self.kept.append(["config", self.ctx.config, self.ctx.par_config])
        return len(self.kept)

    def op_events(self, op, apt):
        if self.ctx is None:
            return None
        lab.set_clock("events")
        return float(self.ctx.get_num_events_accepted(lab.full(self.params, lab.center(self.params)),
                                                      batch_size=self.genome["batch_size"]))

    def op_fit(self, op, apt):
        if self.ctx is None:
            return None
        self.nfit += 1
        self.fit["seed"] = 1000 + self.nfit
        return self.sample(op["n"], True)

    def op_cont(self, op, apt):
        if self.ctx is None or not hasattr(self.ctx, "sampler"):
            return None
        return self.sample(op["n"], False)

    def sample(self, n, fresh):
        if fresh:
            np.random.seed(self.fit["seed"])
            res = self.ctx.fitting(nwalkers=self.fit["nwalkers"], iteration=n, **self.life.kwargs())
        else:
            if self.life.n_stored() < 1:
                return None
            res = self.ctx.continue_fitting(iteration=n, **self.life.kwargs())
        return [np.array(res.coords), np.array(res.log_prob)]

    def op_mpe(self, op, apt):
        if self.ctx is None or not hasattr(self.ctx, "sampler") or self.life.n_stored() < 1:
            return None
        return [self.ctx.get_post_parameters(), self.ctx.get_post_parameters("median"),
                np.array(self.ctx.get_all_post_parameters())]

    def op_lineage(self, op, apt):
        if self.ctx is None:
            return None
        return [self.ctx.lineage_hash] + [v.lineage_hash for v in self.ctx.likelihoods.values()]

    def op_summary(self, op, apt):
        if self.ctx is None:
            return None
        self.ctx.print_context_summary(short=True)
        return [sorted(self.ctx.needed_parameters), lab.canon(self.ctx.config), lab.canon(self.ctx.par_config)]

    def op_maps(self, op, apt):
        if self.ctx is None:
            return None
        import matplotlib.pyplot as plt
        from appletree.plot import plot_maps

        plt.close("all")
        out = []
        for fig, _ in plot_maps(self.ctx):
            for ax in fig.get_axes():
                for line in ax.get_lines():
                    out.append([list(map(float, np.ravel(line.get_xdata()))),
                                list(map(float, np.ravel(line.get_ydata())))])
        plt.close("all")
        return sorted(json.dumps(o) for o in out)

    def op_restore(self, op, apt):
        if self.life.h5 is None or self.life.n_stored() < 1:
            return None
        apt.clear_cache()
        self.life.restore()
        return sorted(self.ctx.needed_parameters)

    def files(self):
        raw = read_h5(self.life.h5) if self.life.h5 else None
        if not raw or not raw["present"]:
            return None
        attrs = {k: v for k, v in raw["attrs"].items() if k not in ("_cached_configs", "metadata")}
        return lab.canon({"chain": raw["chain"], "lp": raw["log_prob"], "acc": raw["accepted"],
                          "attrs": {k: v if isinstance(v, str) else np.asarray(v).tolist()
                                    if np.asarray(v).dtype.kind in "OSU" else np.asarray(v)
                                    for k, v in attrs.items() if not k.startswith("random_state")}})


def run(plan, leg, prev, d):
    world.emit("multi")
    together, trace, n_threads, switches = execute(plan, d, None)
    files = [a.files() for a in together]
    shutil.rmtree(d)
    os.makedirs(d)
    os.chdir(d)
    errors = 0
    for i, a in enumerate(together):
        solo, _, _, _ = execute(plan, d, i)
        s = solo[0]
        for j, (x, y) in enumerate(zip(a.results, s.results)):
            if isinstance(y[1], str) and y[1] not in ("interrupted",) and ": " in y[1]:
                # the operation fails when the context is alone, too: outside of this property
                errors += 1
                if x[1] != y[1]:
                    raise Violation(f"influenced:{x[0]}", f"context {i}, operation {j}: {lab.short(str(x[1]))} "
                                                          f"instead of {lab.short(y[1])}")
                continue
            diff = lab.first_diff(x, y)
            if diff:
                raise Violation(f"influenced:{x[0]}", f"context {i}, operation {j} ({x[0]}): {diff}")
        if len(a.results) != len(s.results):
            raise Violation("influenced:count", f"context {i}")
        diff = lab.first_diff(files[i], s.files())
        if diff:
            raise Violation("influenced:file", f"context {i}: {diff}")
        shutil.rmtree(d)
        os.makedirs(d)
        os.chdir(d)
    for a in together:
        # (the scratch path, different in each interpreter, is part of the lineage of a context)
        shown = [["lineage", r[1][1:]] if r[0] == "lineage" and isinstance(r[1], list) else r for r in a.results]
        world.emit("results", json.dumps(shown, sort_keys=True).replace(a.dir, ""))
    return {"nontrivial": len(together) > 1,
            "probes": {"threaded_fits": n_threads, "thread_switches": switches, "failing_alone": errors,
                       "operations": len(plan["ops"]),
                       "cleared": sum(o["op"] == "clear" for o in plan["ops"])}}


def execute(plan, d, only):
    apt = world.boot(5, toy=True)
    world.faults = []
    actors = [Actor(copy.deepcopy(s), i, d) for i, s in enumerate(plan["actors"]) if only is None or i == only]
    by = {a.idx: a for a in actors}
    trace, n_threads, switches = [], 0, 0
    for o in plan["ops"]:
        who = o["who"]
        if who is not None:
            if who not in by:
                continue
            world.emit("op", who, o["op"])
            world.life_counts = {}
            world.faults = [dict(o["fault"])] if o.get("fault") else []
            by[who].do(o, apt)
            world.faults = []
        elif o["op"] == "clear":
            if only is None:
                apt.clear_cache()
        elif o["op"] == "badbuild":
            if only is None:
                bad_build(apt, d)
        elif o["op"] == "threads":
            sub = [by[a] for a in o["actors"] if a in by]
            what = o.get("what", "cont")
            if only is not None:
                for a in sub:
                    a.do({"op": what, "n": o["n"]}, apt)
                continue
            ready = [a for a in sub if a.ctx is not None and (what != "cont" or hasattr(a.ctx, "sampler"))]
            b = Baton(o["seed"], o["p_line"])
            for a in sub:
                if a in ready:
                    b.add(f"t{a.idx}", lambda a=a: a.do({"op": what, "n": o["n"]}, apt), open=what != "cont")
                else:
                    a.do({"op": what, "n": o["n"]}, apt)
            world.yield_hook = b.hook
            try:
                if o["p_line"]:
                    with LineProbe(hook=b.line):
                        done = b.run()
                else:
                    done = b.run()
            finally:
                world.yield_hook = None
            for t in done:
                if t["err"] is not None:
                    raise t["err"]
            n_threads += len(ready)
            switches += b.switches
            world.emit("threads", tuple(b.trace))
    for a in actors:
        a.results.append(["kept", lab.canon(a.kept)])
    return actors, trace, n_threads, switches


def bad_build(apt, d):
    """An unrelated model whose map file does not exist."""
    g = {"kind": "toy", "instruct": {"url_base": models.DIR, "configs": {"toy_ly": {"bad_llh": "toy_ly_0.json"}},
                                     "likelihoods": {"bad_llh": {
                                         "components": {"bad_er": "ToyBand"}, "copy_parameters": {"bad_er_rate": "r"},
                                         "data_file_name": "data_bad.csv", "bins_type": "equiprob",
                                         "bins_on": ["cs1", "cs2"], "bins": [2, 2], "x_clip": [0, 12],
                                         "y_clip": [0, 250]}}},
         "params": {"r": {"prior_type": "fixed", "prior_args": {"val": 1.0}, "allowed_range": [0, 2],
                          "init_mean": 1.0, "init_std": 0.1, "unit": "", "doc": ""}},
         "data": {"data_bad.csv": {"seed": 1, "n": 60, "line": False}}, "batch_size": 64}
    sub = os.path.join(d, "bad")
    ins = models.materialise(g, sub)
    for f in ("toy_cut.json", "toy_eff_lo.json"):
        os.remove(os.path.join(sub, f))
    ins["configs"]["toy_eff"] = {"bad_llh": ["toy_eff.json", "nowhere.json", "toy_eff_hi.json"]}
    try:
        apt.Context(ins)
    except Exception as e:
        world.emit("badbuild", type(e).__name__)
        return
    raise Violation("bad-build", "a model whose map does not exist was built")


def shrink(plan):
    P = copy.deepcopy
    if len(plan["actors"]) > 1:
        for a in range(len(plan["actors"])):
            if len(plan["actors"]) == 2:
                break
            p = P(plan)
            p["ops"] = [o for o in p["ops"] if o["who"] != a]
            for o in p["ops"]:
                if o["op"] == "threads":
                    o["actors"] = [x for x in o["actors"] if x != a]
            if not any(o["who"] == a for o in p["ops"]):
                yield p
    half = len(plan["ops"]) // 2
    for cut in (plan["ops"][:half], plan["ops"][half:]):
        if cut and len(cut) < len(plan["ops"]):
            p = P(plan)
            p["ops"] = P(cut)
            yield p
    for i in range(len(plan["ops"])):
        p = P(plan)
        del p["ops"][i]
        yield p
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            p = P(plan)
            p["ops"][i]["fault"] = None
            yield p
        if o.get("n", 1) > 1:
            p = P(plan)
            p["ops"][i]["n"] = 1
            yield p
        if o.get("p_line"):
            p = P(plan)
            p["ops"][i]["p_line"] = 0.0
            yield p


def signature(world, plan):
    return repr([e for e in world.log if e[0] in ("op", "fault", "threads", "badbuild")])
