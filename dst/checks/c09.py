"""C09: no random key is consumed twice."""

import copy
import os
import random
import threading

import numpy as np

from .. import common, lab, models
from ..seams import Violation, world

RULE = ("Seeded programs: evaluations of contexts (generated and packaged models), direct, repeated and recompiled simulations "
        "of components (all packaged ones, and one made of the packaged NEST nuclear-recoil plugins), histograms, event "
        "counts, templates after a fit, profiling, and chains of the package's own samplers with seeded arguments and "
        "shapes, under a clock that advances by seeded steps. Every key handed to a function of jax.random - also inside "
        "compiled code - is recorded; within an operation no key may be used twice, the key handed back may not be among "
        "the used ones, and operations at different clock readings share no key. Non-trivial: at least two draws happened.")
MEASURE = "distinct sequences of (operation, number of keys used)"
REAL = common.REAL
STUB = ["time module as seen by appletree (simulated clock)", "recording wrapper around the public functions of jax.random",
        "detector physics in part of the runs: the toy model"]
ASSUMPTIONS = ["Draws are made through the public functions of jax.random; keys used inside one call of jax.random are the "
               "library's business.",
               "Clock readings are distinct microseconds (at least two apart)."]
BUDGET = {
    "quick": {"runs": 90, "seconds": 100, "minimise": 18, "recheck": 3},
    "thorough": {"runs": 5000, "seconds": 3000, "minimise": 300, "recheck": 30, "timeout": 800},
}
TAKES_KEY = ["split", "uniform", "normal", "poisson", "gamma", "bernoulli", "binomial", "multivariate_normal", "exponential",
             "truncated_normal", "beta", "bits", "randint", "permutation", "choice", "categorical", "cauchy", "chisquare",
             "dirichlet", "laplace", "loggamma", "logistic", "lognormal", "pareto", "rademacher", "rayleigh", "t", "gumbel",
             "weibull_min", "geometric", "triangular", "wald", "maxwell", "double_sided_maxwell", "f", "generalized_normal"]
COMPONENTS = [("ERBand", "er.json"), ("ERBandNestV2", "er_nestv2.json"), ("ERPeak", "er.json"),
              ("ERPeakNestV2", "er_nestv2.json"), ("NR", "nr_low.json"), ("NestNR", "nestv2.json")]
PACKAGED = [("literature_lyqy.json", 1), ("rn220.json", 40), ("neutron_low.json", 40), ("rn220_ar37.json", 40)]
OPS = ["posterior", "posterior", "simulate", "multiple", "compile", "weighted", "hist", "events", "llh", "template", "profile"]


class Recorder:
    """Records every key that reaches a function of jax.random while it is installed."""

    def __init__(self):
        self.used = []
        self.lock = threading.Lock()

    def __enter__(self):
        import jax

        self.old = {}
        rec = self
        depth = threading.local()

        def make(name, f):
            def g(key, *a, **k):
                if getattr(depth, "n", 0):
                    return f(key, *a, **k)
                rec.note(name, key)
                depth.n = 1
                try:
                    return f(key, *a, **k)
                finally:
                    depth.n = 0
            g.__name__ = name
            return g

        for name in TAKES_KEY:
            if hasattr(jax.random, name):
                self.old[name] = getattr(jax.random, name)
                setattr(jax.random, name, make(name, self.old[name]))
        return self

    def __exit__(self, *a):
        import jax

        for name, f in self.old.items():
            setattr(jax.random, name, f)

    def note(self, name, key):
        import jax

        jax.debug.callback(lambda k, name=name: self.add(name, k), key)

    def add(self, name, key):
        k = np.asarray(key)
        with self.lock:
            for row in k.reshape(-1, k.shape[-1]) if k.ndim else []:
                self.used.append((name, tuple(int(v) for v in row)))

    def take(self):
        import jax

        jax.effects_barrier()
        with self.lock:
            out, self.used = self.used, []
        return out


def judge(what, used, returned, seen):
    at = {}
    for name, k in used:
        if k in at:
            raise Violation("key-used-twice", f"{what}: key {list(k)} used by {at[k]} and again by {name}")
        at[k] = name
    if returned is not None:
        r = tuple(int(v) for v in np.asarray(returned).ravel())
        if r in at:
            raise Violation("returned-key-used", f"{what}: the key handed back was used by {at[r]}")
    for k in at:
        if seen is not None and k in seen:
            raise Violation("key-of-other-evaluation", f"{what}: key {list(k)} was already used by {seen[k]}")
    if seen is not None:
        for k in at:
            seen[k] = what
    world.emit("keys", what, len(used), hash(tuple(sorted(at))))
    return len(used)


def gen(rng, tier, i):
    clock = {"mode": "tick", "t0": rng.randrange(10**15, 2 * 10**15), "seed": rng.randrange(10**6),
             "steps": rng.choice([[2, 3, 5], [2, 1000, 10**6], [7, 10**6, 3 * 10**6], [2**32], [2**31, 2**32, 2**33],
                                 [10 ** rng.randint(2, 12)], [2 ** rng.randint(5, 42)]])}
    base = {"clock": clock, "pyrandom": 2, "hybrid": rng.random() < 0.2, "seed": rng.randrange(10**6)}
    kind = "samplers" if i % 3 == 0 else "toy"
    if i % 9 == 4:
        kind = "component"
    if i % 30 == 7:
        kind = "packaged"
    if kind == "samplers":
        return dict(base, kind=kind, calls=[gen_call(rng) for _ in range(rng.randint(3, 7))])
    if kind == "component":
        cls, par = COMPONENTS[(i // 9) % len(COMPONENTS)]
        return dict(base, kind=kind, cls=cls, par=par, ops=[rng.choice(["simulate", "multiple", "compile"]), "multiple"])
    if kind == "packaged":
        f, b = PACKAGED[(i // 30) % len(PACKAGED)]
        return dict(base, kind=kind, model={"kind": "packaged", "file": f, "batch_size": b},
                    ops=["posterior", "posterior", rng.choice(["events", "llh"])])
    g = models.gen(rng, max_llh=2)
    g["batch_size"] = 1_000_003 if i % 30 == 8 else rng.choice([3, 16, 40])
    return dict(base, kind="toy", model=g, ops=[rng.choice(OPS) for _ in range(rng.randint(3, 6))])


def gen_call(rng):
    s = rng.choice(["uniform", "poisson", "gamma", "normal", "truncate_normal", "skewnormal", "bernoulli", "binomial",
                    "binomial_hybrid", "negative_binomial", "generalized_poisson", "twohalfnorm", "uniform_key_vectorized"])
    return {"f": s, "n": rng.choice([1, 2, 5]), "shape": rng.random() < 0.5, "a": round(rng.uniform(0.05, 0.95), 3),
            "b": round(rng.uniform(0.5, 30.0), 3), "jit": rng.random() < 0.4}


def sampler_args(c):
    a, b, n = c["a"], c["b"], c["n"]
    v = np.linspace(1.0, 1.5, n, dtype=np.float32)
    return {
        "uniform": (v * a, v * a + b), "poisson": (v * b,), "gamma": (v * b, v * (a + 0.5)), "normal": (v * b, v * a),
        "truncate_normal": (v * b, v * a, 0.0, 100.0), "skewnormal": (v * a, v * b, v * a), "bernoulli": (v * a * 0.6,),
        "binomial": (v * a * 0.6, np.round(v * b).astype(np.int32)),
        "binomial_hybrid": (v * a * 0.6, np.round(v * b * 8).astype(np.int32)),
        "negative_binomial": (v * a * 0.6, v * b), "generalized_poisson": (v * b, v * a * 0.4),
        "twohalfnorm": (v * b, v * a, v * a * 0.5),
    }[c["f"]]


def run(plan, leg, prev, d):
    world.emit("start", plan["kind"])
    with Recorder() as rec:
        return execute(plan, d, rec)


def execute(plan, d, rec):
    if plan["hybrid"]:
        os.environ["APPLETREE_USE_HYBRID"] = "1"
    try:
        apt = world.boot(6, toy=True)
    finally:
        os.environ.pop("APPLETREE_USE_HYBRID", None)
    world.faults = []
    seen = {}
    n = 0
    try:
        n = {"samplers": samplers, "component": component}.get(plan["kind"], context)(apt, plan, d, rec, seen)
    except (Violation, SystemExit):
        raise
    except Exception as e:
        raise Violation("exception", f"{type(e).__name__}: {e}")
    return {"nontrivial": n > 1, "probes": {"keys_used": n, plan["kind"]: 1}}


def samplers(apt, plan, d, rec, seen):
    import jax

    lab.set_clock("s")
    key = apt.randgen.get_key(seed=plan["seed"])
    used = []
    for c in plan["calls"]:
        f = getattr(apt.randgen, c["f"])
        if c["f"] == "uniform_key_vectorized":
            # consumes as many keys as it is given, and returns none
            keys = np.asarray(jax.random.PRNGKey(plan["seed"] + 1))[None, :] + np.arange(c["n"], dtype=np.uint32)[:, None]
            key0 = keys.astype(np.uint32)
            f(key0)
            judge(c["f"], rec.take(), None, None)
            continue
        args = sampler_args(c)
        kw = {"shape": (3, c["n"])} if c["shape"] else {}
        if c["jit"]:
            def prog(key, *args):
                key, x = f(key, *args, **kw)
                key, y = f(key, *args, **kw)
                return key, x, y
            key, x, y = jax.jit(prog)(key, *args)
            if c["n"] > 1 and c["b"] > 3 and c["f"] in ("normal", "gamma", "uniform") and np.array_equal(x, y):
                raise Violation("same-draws", f"{c['f']} returned the same values twice")
        else:
            key, x = f(key, *args, **kw)
        now = rec.take()
        used += now
        judge(c["f"], now, key, None)
    judge("chain of samplers", used, key, None)
    return len(used)


def component(apt, plan, d, rec, seen):
    lab.set_clock("c")
    c = getattr(apt.components, plan["cls"])(name="c", llh_name="c_llh")
    c.rate_name = "c_rate"
    names = ["cs1", "cs2"]
    c.deduce(data_names=names)
    c.compile()
    par = apt.utils.load_json(plan["par"])
    values = {k: v["prior_args"]["val"] if v["prior_type"] == "fixed" else v["init_mean"] for k, v in par.items()}
    for p in c.needed_parameters:
        values.setdefault(p, 0.0)
    n = 0
    rec.take()
    for o in plan["ops"]:
        key = apt.randgen.get_key()
        if o == "simulate":
            key, _ = c.simulate(key, 15, values)
        elif o == "multiple":
            key, _ = c.multiple_simulations(key, 15, values, 2, apply_eff=False)
        else:
            key, _ = c.multiple_simulations_compile(key, 15, values, 2, apply_eff=False)
        n += judge(f"{plan['cls']}.{o}", rec.take(), key, seen)
    return n


def context(apt, plan, d, rec, seen):
    g = plan["model"]
    if g["kind"] == "packaged":
        ins = apt.utils.load_json(g["file"])
        ins["backend_h5"] = None
        ctx = lab.build(apt, ins)
    else:
        ctx = lab.build(apt, models.materialise(g, os.path.join(d, "m")))
    params = ctx.par_config
    pt = lab.center(params)
    full = lab.full(params, pt)
    rng = random.Random(plan["seed"])
    b = g["batch_size"]
    rec.take()
    n = 0
    sims = [(l, llh, cn, c) for l, llh in ctx.likelihoods.items() for cn, c in llh.components.items()
            if hasattr(c, "worksheet")]
    for o in plan["ops"]:
        lname, llh, cname, c = rng.choice(sims)
        own = llh.replace_alias(full)
        returned = None
        key = apt.randgen.get_key()
        if o == "posterior":
            ctx.log_posterior(pt, batch_size=b, repeat_times=rng.choice([1, 1, 2, 3]))
        elif o == "simulate":
            returned, _ = c.simulate(key, b, own)
        elif o == "multiple":
            returned, _ = c.multiple_simulations(key, b, own, rng.randint(2, 3), apply_eff=rng.random() < 0.5)
        elif o == "compile":
            returned, _ = c.multiple_simulations_compile(key, b, own, 2, apply_eff=rng.random() < 0.5)
        elif o == "weighted":
            if hasattr(llh, "data_hist"):
                returned, _ = llh.simulate_weighted_data(key, b, full)
        elif o == "hist":
            if hasattr(llh, "data_hist"):
                returned, _ = c.simulate_hist(key, b, own)
        elif o == "events":
            ctx.get_num_events_accepted(full, batch_size=b)
        elif o == "llh":
            for other in ctx.likelihoods.values():
                key, _ = other.get_log_likelihood(key, b, full)
            returned = key
        elif o == "template":
            nw = max(2 * len(ctx.par_manager.parameter_fit), 4)
            # each evaluation of a fit reads the clock for itself
            ctx.fitting(nwalkers=nw, iteration=1, batch_size=b)
            n += judge("fit", rec.take(), None, seen)
            ctx.get_template(lname, cname, batch_size=b)
        elif o == "profile":
            apt.profiler.profile_component(c, own, batch_size=b, n_warmup=1, n_runs=2, verbose=False)
        n += judge(o, rec.take(), returned, seen)
    return n


def shrink(plan):
    P = copy.deepcopy
    for k in ("ops", "calls"):
        for i in range(len(plan.get(k, []))):
            if len(plan[k]) > 1:
                p = P(plan)
                del p[k][i]
                yield p
    if plan.get("kind") == "toy":
        yield from common.shrink_model(plan)


def signature(world, plan):
    return repr([e[:3] for e in world.log if e[0] in ("keys", "start")]) + str(plan.get("calls"))
