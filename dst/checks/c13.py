"""C13: profiling reports the time that passed and leaves the model alone."""

import copy
import functools
import inspect
import io
import os
import random
import re
from contextlib import redirect_stdout

import numpy as np

from .. import common, fitlife, lab, models
from ..seams import Violation, file_bytes, world

RULE = ("Seeded sequences of profiling calls (plugin, component, context, full simulation, comparison, summary, instrumented "
        "functions) on fitted and unfitted models, where every plugin and simulation takes a seeded simulated time, part of "
        "it only when its asynchronous results are waited for, printing is slow, the wall clock is stepped, a plugin call "
        "fails, other models are built and the cache is cleared. Reported means, spreads, orders, totals and comparisons are "
        "compared with the simulated durations; predictions, fitted parameters, backend file and the continuation of the fit "
        "with those of a process that never profiled. Non-trivial: a profile was completed and judged.")
MEASURE = "distinct sequences of (operation, fault, outcome)"
REAL = common.REAL
STUB = common.STUB + ["duration of plugin calls and of whole simulations (seeded, through the simulated clock)",
                      "terminal (prints take simulated time)"]
ASSUMPTIONS = common.ASSUMPTIONS[1:2] + ["The time a plugin call takes ends when all its outputs are ready."]
BUDGET = {
    "quick": {"runs": 80, "seconds": 65, "minimise": 18, "recheck": 4},
    "thorough": {"runs": 8000, "seconds": 3000, "minimise": 300, "recheck": 60},
}
OPS = ["plugin", "component", "context", "context", "full", "compare", "timeit", "summary", "show", "standalone"]
TOL = 2e-3  # msec


def gen(rng, tier, i):
    clock = {"mode": "frozen", "t0": rng.randrange(10**8, 10**9)}
    ops = []
    batch = rng.choice([16, 32])
    for _ in range(rng.randint(3, 6)):
        o = {"op": rng.choice(OPS), "w": rng.choice([0, 1, 2, 3]), "r": rng.choice([1, 2, 3, 4]),
             "given": rng.random() < 0.5, "verbose": rng.random() < 0.5, "seed": rng.randrange(10**6), "fault": None,
             "batch": batch if rng.random() < 0.9 else 48 - batch, "top": rng.choice([1, 3, 5, 50])}
        r = rng.random()
        if r < 0.15:
            o["fault"] = {"kind": "evalerr", "k": rng.randint(1, 20), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])}
        elif r < 0.4:
            o["fault"] = {"kind": "clockjump", "k": rng.randint(1, 20), "us": rng.choice([-3_600_000_000, 5_000_000, -700])}
        ops.append(o)
        r = rng.random()
        if r < 0.15:
            ops.append({"op": "clear"})
        elif r < 0.3:
            ops.append({"op": "other", "seed": rng.randrange(10**6)})
        elif r < 0.4:
            ops.append({"op": "eval"})
    if i % 45 == 13:
        f = ["rn220.json", "neutron_low.json", "literature_lyqy.json"][(i // 45) % 3]
        return {"model": {"kind": "packaged", "file": f, "batch_size": 500}, "ops": [o for o in ops if o["op"] != "other"][:3],
                "fit": None, "clock": clock, "pyrandom": 3}
    g = models.specify(models.gen(rng, max_llh=2))
    other = models.specify(copy.deepcopy(g))
    other["instruct"]["configs"].update(toy_gain=2.5, toy_emax=17.0, toy_ly="toy_ly_2.json")
    fit = fitlife.gen_fit(rng, g) if rng.random() < 0.6 else None
    if fit:
        fit["total"], fit["repeat_times"] = 2, 1
    return {"model": g, "other": other, "ops": ops, "fit": fit, "clock": clock, "pyrandom": 3,
            "backend": rng.random() < 0.7}


# ---------------------------------------------------------------- simulated durations
class Pending:
    """An array that is still being computed: waiting for it takes simulated time."""

    def __init__(self, array, call, due):
        self._array, self._call, self._due = array, call, due

    def block_until_ready(self):
        self._call.wait(self._due)
        return self

    def __array__(self, dtype=None, copy=None):
        self._call.wait(self._due)
        return np.asarray(self._array, dtype=dtype)

    def __jax_array__(self):
        return self._array

    def __getattr__(self, name):
        return getattr(self._array, name)


class Call:
    def __init__(self, meter, what):
        self.dispatch, self.rest = meter.draw()
        self.what, self.total = what, self.dispatch + self.rest
        self.late, self.waited = meter.rng.random(), 0
        world.clock.advance(self.dispatch)

    def pending(self, out):
        """The outputs become ready one by one, in any order."""
        last = int(self.late * len(out))
        return [Pending(o, self, self.rest if i == last else int(self.rest * (self.late * (i + 3) % 1))) for i, o in enumerate(out)]

    def wait(self, due):
        world.clock.advance(max(0, due - self.waited))
        self.waited = max(due, self.waited)


class Meter:
    """Hands out durations and remembers every call."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.calls = []
        self.on = False
        self.n = 0
        self.fault = None

    def draw(self):
        r = self.rng
        return r.choice([0, 10, 500, 3000]), r.choice([100, 1000, 7000, 250_000])

    def begin(self):
        self.n += 1
        f = self.fault
        if f and self.n == f["k"] and not f.get("done"):
            f["done"] = True
            world.fired(f["kind"])
            world.emit("fault", f["kind"], self.n)
            if f["kind"] == "clockjump":
                world.clock.wall_offset += f["us"]
            elif f["exc"] == "KeyboardInterrupt":
                raise KeyboardInterrupt("simulated ^C")
            else:
                raise MemoryError("simulated evaluation failure")


def real(x):
    return x._array if isinstance(x, Pending) else x


def time_plugin(cls, meter):
    orig = cls.__dict__["simulate"]
    sig = inspect.signature(orig)

    def simulate(self, key, parameters, *args):
        import jax

        args = [real(a) for a in args]
        if not meter.on or isinstance(key, jax.core.Tracer):
            return orig(self, key, parameters, *args)
        meter.begin()
        call = Call(meter, cls.__name__)
        call.lineage = self.lineage_hash
        call.parameters = {p: float(parameters[p]) for p in self.parameters}
        call.inputs = [a if isinstance(a, int) else np.shape(a) for a in args]
        call.key = np.asarray(key).tolist()
        meter.calls.append(call)
        key, *out = orig(self, key, parameters, *args)
        return (key, *call.pending(out))

    functools.update_wrapper(simulate, orig, updated=())
    simulate.__signature__ = sig
    cls.simulate = simulate


def time_simulation(component, meter, label):
    orig = component.simulate

    def simulate(key, batch_size, parameters):
        if not meter.on:
            return orig(key, batch_size, parameters)
        meter.begin()
        call = Call(meter, label)
        call.parameters = dict(parameters)
        call.inputs = [batch_size]
        meter.calls.append(call)
        on, meter.on = meter.on, False
        try:
            key, out = orig(key, batch_size, parameters)
        finally:
            meter.on = on
        return key, call.pending(out)

    component.simulate = simulate


class SlowTerminal(io.StringIO):
    def __init__(self, rng):
        super().__init__()
        self.rng = rng

    def write(self, s):
        world.clock.advance(self.rng.choice([0, 50, 900_000]))
        return super().write(s)


# ---------------------------------------------------------------- the run
class Bench:
    def __init__(self, plan, d, profiles):
        self.plan, self.d, self.g = plan, d, plan["model"]
        self.profiles = profiles
        self.fit = plan["fit"]
        self.meter = Meter(plan["clock"]["t0"])
        self.probes = {"profiles": 0, "plugin_timings": 0, "failed": 0, "jumps": 0, "continued": 0}

    def start(self):
        apt = self.apt = world.boot(8, toy=True)
        world.faults = []
        world.clock.wall_offset = 0
        if self.profiles:
            for cls in self.classes():
                time_plugin(cls, self.meter)
        if self.g["kind"] == "packaged":
            ins = apt.utils.load_json(self.g["file"])
            ins["backend_h5"] = None
        else:
            ins = models.materialise(self.g, os.path.join(self.d, "m"))
            self.h5 = os.path.join(self.d, "m", "chain.h5") if self.plan["backend"] else None
            if self.fit and self.h5:
                ins["backend_h5"] = self.h5
        self.ctx = lab.build(apt, ins)
        self.params = copy.deepcopy(self.ctx.par_config)
        if self.profiles:
            for ln, cn, c in self.sims():
                time_simulation(c, self.meter, f"{ln}/{cn}")
        rng = random.Random(3)
        self.points = lab.gen_points(rng, self.params, 2)
        if self.fit:
            np.random.seed(9)
            self.tag_fit(self.ctx.fitting, nwalkers=self.fit["nwalkers"], iteration=2)

    def classes(self):
        from dst import toy

        seen = []
        mods = [toy] + ([getattr(self.apt.plugins, m) for m in dir(self.apt.plugins)] if self.g["kind"] == "packaged" else [])
        for m in mods:
            for x in vars(m).values() if hasattr(m, "__dict__") else []:
                if isinstance(x, type) and issubclass(x, self.apt.plugin.Plugin) and "simulate" in x.__dict__ \
                        and x is not self.apt.plugin.Plugin and x not in seen:
                    seen.append(x)
        return seen

    def sims(self):
        for ln, llh in self.ctx.likelihoods.items():
            for cn, c in llh.components.items():
                if hasattr(c, "worksheet"):
                    yield ln, cn, c

    def tag_fit(self, fn, **kw):
        # the fit sees a clock of its own, so that profiling before it makes no difference to its keys
        keep, off = world.clock.now_us, world.clock.wall_offset
        world.clock.now_us, world.clock.wall_offset = 123_456_789, 0
        try:
            return fn(batch_size=self.g["batch_size"], moves=fitlife.make_moves(self.fit["moves"]), **kw)
        finally:
            world.clock.now_us, world.clock.wall_offset = keep, off

    def state(self):
        """What profiling must not change."""
        keep, off = world.clock.now_us, world.clock.wall_offset
        world.clock.now_us, world.clock.wall_offset = 987_654_321, 0
        try:
            out = {"posterior": [lab.canon(list(map(float, self.ctx.log_posterior(dict(p), batch_size=self.g["batch_size"]))))
                                 for p in self.points],
                   "lineage": [l.lineage_hash for l in self.ctx.likelihoods.values()],
                   "params": lab.canon(self.ctx.par_config), "needed": sorted(self.ctx.needed_parameters)}
            if self.fit:
                out["best"] = lab.canon([self.ctx.get_post_parameters(), self.ctx.get_post_parameters("median")])
                out["chain"] = lab.canon(np.array(self.ctx.sampler.get_chain()))
                if self.h5:
                    import hashlib

                    out["file"] = hashlib.sha256(file_bytes(self.h5)).hexdigest()
        finally:
            world.clock.now_us, world.clock.wall_offset = keep, off
        return out

    def finish(self):
        out = self.state()
        out.pop("file", None)
        if self.fit:
            self.tag_fit(self.ctx.continue_fitting, iteration=1)
            out["continued"] = lab.canon([np.array(self.ctx.sampler.get_chain()), np.array(self.ctx.sampler.get_log_prob())])
            self.probes["continued"] += 1
        return out

    # -- operations
    def given(self, o):
        rng = random.Random(o["seed"])
        out = lab.full(self.params, lab.gen_points(rng, self.params, 1)[0])
        if o["seed"] % 2:
            # the user asks for other values of the fixed parameters, too
            for k, v in self.params.items():
                if v["prior_type"] == "fixed":
                    out[k] = float(out[k]) * 1.0625
        return out

    def op(self, o):
        m = self.meter
        m.calls, m.n, m.fault = [], 0, copy.deepcopy(o.get("fault"))
        if o["op"] == "clear":
            self.apt.clear_cache()
            return
        if o["op"] == "eval":
            self.ctx.log_posterior(dict(self.points[0]), batch_size=self.g["batch_size"])
            return
        if o["op"] == "other":
            self.apt.clear_cache()
            lab.build(self.apt, models.materialise(self.plan["other"], os.path.join(self.d, "o")))
            return
        out = SlowTerminal(random.Random(o["seed"]))
        m.on = True
        try:
            with redirect_stdout(out):
                judge = getattr(self, "op_" + o["op"])(o)
        except (MemoryError, KeyboardInterrupt):
            if not (m.fault and m.fault.get("done")):
                raise
            self.probes["failed"] += 1
            world.emit("failed", o["op"])
            return
        finally:
            m.on = False
        if judge:
            judge(out.getvalue())
            self.probes["profiles"] += 1
            self.probes["jumps"] += bool(m.fault and m.fault.get("done"))

    def expected(self, label, n_w, n_r, calls):
        """Mean and spread of the timed ones among the calls of one plugin or simulation, and those calls."""
        mine = [c for c in calls if c.what == label]
        if len(mine) < n_w + n_r:
            raise Violation("runs", f"{label}: {len(mine)} calls for {n_w} warm-up and {n_r} timed runs")
        t = [c.total / 1000 for c in mine[n_w: n_w + n_r]]
        return float(np.mean(t)), float(np.std(t)), mine

    def near(self, got, want, kind, what):
        if not abs(float(got) - want) <= TOL + 1e-6 * abs(want):
            raise Violation(kind, f"{what}: {float(got)} msec reported, {want} msec passed")

    def check_component(self, o, key, c, results, calls, params, batch):
        """Timings of one component; consumes its calls."""
        names = [w[0] for w in c.worksheet]
        if [r["plugin"] for r in results] != names:
            raise Violation("plugins", f"{key}: {[r['plugin'] for r in results]} instead of {names}")
        known = {"batch_size"}
        n = 0
        own = {self.hash(v) for v in c.lineage["instances"].values()}
        for r, w in zip(results, c.worksheet):
            if list(r["provides"]) != list(w[1]) or list(r["depends_on"]) != list(w[2]):
                raise Violation("plugins", f"{key}/{r['plugin']}: {r['provides']} from {r['depends_on']}")
            if not set(r["depends_on"]) <= known:
                raise Violation("order", f"{key}/{r['plugin']} before {set(r['depends_on']) - known}")
            known |= set(r["provides"])
            k = o["w"] + o["r"]
            mean, std, mine = self.expected(r["plugin"], o["w"], o["r"], calls[n: n + k])
            n += k
            self.near(r["mean_time_ms"], mean, "plugin-mean", f"{key}/{r['plugin']}")
            self.near(r["std_time_ms"], std, "plugin-spread", f"{key}/{r['plugin']}")
            self.probes["plugin_timings"] += 1
            for call in mine:
                if call.lineage not in own:
                    raise Violation("other-plugin", f"{key}/{r['plugin']} is not the plugin the context simulates with")
                if params is not None:
                    for p, v in call.parameters.items():
                        if v != float(params[p]):
                            raise Violation("parameters", f"{key}/{r['plugin']}: {p}={v} instead of {params[p]}")
                if "batch_size" in r["depends_on"] and call.inputs[list(r["depends_on"]).index("batch_size")] != batch:
                    raise Violation("batch", f"{key}/{r['plugin']}: {call.inputs}")
        return n

    def hash(self, lineage):
        from strax import deterministic_hash

        return deterministic_hash(lineage)

    def pick(self, o):
        sims = list(self.sims())
        return sims[o["seed"] % len(sims)]

    def batch(self, ln, o):
        return o["batch"]

    def op_plugin(self, o):
        apt = self.apt
        ln, cn, c = self.pick(o)
        values = self.ctx.likelihoods[ln].replace_alias(self.given(o))
        rng = random.Random(o["seed"])
        store = {"batch_size": o["batch"]}
        key = apt.randgen.get_key(seed=3)
        stop = rng.randint(1, len(c.worksheet))
        got = []
        for w in c.worksheet[:stop]:
            p = getattr(c, "_functions", {}).get(w[0] + "_" + c.name) or getattr(apt.plugins, w[0])(ln)
            before = len(self.meter.calls)
            key0 = np.asarray(key).tolist()
            key, out, mean, std = apt.profile_plugin(p, key, values, store, n_warmup=o["w"], n_runs=o["r"])
            if sorted(out) != sorted(w[1]):
                raise Violation("outputs", f"{w[0]} provides {w[1]}, not {sorted(out)}")
            if np.asarray(key).tolist() == key0 and o["w"] + o["r"] > 0 and w[0] in ("ToyEnergy", "ToyLight", "ToyObs"):
                raise Violation("key", f"{w[0]} drew random numbers but its key is handed back")
            store.update(out)
            got.append((w[0], mean, std, self.meter.calls[before:]))

        def judge(text):
            for name, mean, std, calls in got:
                m, s, _ = self.expected(name, o["w"], o["r"], calls)
                self.near(mean, m, "plugin-mean", name)
                self.near(std, s, "plugin-spread", name)
                self.probes["plugin_timings"] += 1
        return judge

    def op_component(self, o):
        ln, cn, c = self.pick(o)
        values = self.ctx.likelihoods[ln].replace_alias(self.given(o))
        res = self.apt.profile_component(c, values, batch_size=o["batch"], n_warmup=o["w"], n_runs=o["r"],
                                         verbose=o["verbose"])
        calls = list(self.meter.calls)

        def judge(text):
            self.check_component(o, f"{ln}/{cn}", c, res, calls, values, o["batch"])
            if o["verbose"]:
                self.total(text, "TOTAL", sum(r["mean_time_ms"] for r in res), "total")
        return judge

    def total(self, text, word, want, kind):
        lines = [x for x in text.splitlines() if word in x]
        if not lines:
            raise Violation(kind, f"no line with {word}")
        got = [float(x) for x in re.findall(r"-?\d+\.\d+", lines[-1])]
        if not got or abs(got[0] - want) > TOL + 1e-6 * abs(want):
            raise Violation(kind, f"{lines[-1].strip()}, expected {want}")

    def op_context(self, o):
        params = self.given(o) if o["given"] else None
        res = self.apt.profile_context(self.ctx, batch_size=o["batch"], n_warmup=o["w"], n_runs=o["r"], parameters=params,
                                       verbose=o["verbose"])
        calls = list(self.meter.calls)

        def judge(text):
            self.judge_context(o, res, calls, params)
            if o["verbose"]:
                self.summary(text, res, 5)
        return judge

    def judge_context(self, o, res, calls, params):
        sims = {f"{ln}/{cn}": (ln, c) for ln, cn, c in self.sims()}
        if list(res) != list(sims):
            raise Violation("components", f"{list(res)} instead of {list(sims)}")
        n = 0
        for key, (ln, c) in sims.items():
            values = None if params is None else self.ctx.likelihoods[ln].replace_alias(params)
            n += self.check_component(o, key, c, res[key], calls[n:], values, o["batch"])

    def summary(self, text, res, top):
        for key, rs in res.items():
            lines = [x for x in text[text.rindex("SUMMARY"):].splitlines() if x.startswith(key + ":")]
            want = sum(r["mean_time_ms"] for r in rs)
            got = float(re.findall(r":\s*(-?\d+\.\d+)", lines[0])[0])
            if abs(got - want) > TOL + 1e-6 * want:
                raise Violation("component-total", f"{lines[0]}, expected {want}")
        self.total(text, "Grand total", sum(r["mean_time_ms"] for rs in res.values() for r in rs), "grand-total")
        every = sorted((r["mean_time_ms"] for rs in res.values() for r in rs), reverse=True)[:top]
        tail = text[text.rindex("slowest"):]
        got = [(m.group(1), float(m.group(2))) for m in re.finditer(r"^\d+\. (\w+): (-?\d+\.\d+) ms", tail, re.M)]
        if len(got) != len(every) or any(abs(a[1] - b) > TOL + 1e-6 * b for a, b in zip(got, every)):
            raise Violation("slowest", f"{got} instead of {every}")
        pairs = {(r["plugin"], round(r["mean_time_ms"], 2)) for rs in res.values() for r in rs}
        for name, t in got:
            if not any(name == p and abs(t - q) < 0.02 for p, q in pairs):
                raise Violation("slowest", f"{name} did not take {t} msec")

    def op_full(self, o):
        params = self.given(o) if o["given"] else None
        res = self.apt.profile_full_simulation(self.ctx, batch_size=o["batch"], n_warmup=o["w"], n_runs=o["r"],
                                               parameters=params, verbose=o["verbose"])
        calls = list(self.meter.calls)

        def judge(text):
            self.judge_full(o, res, calls, params)
        return judge

    def judge_full(self, o, res, calls, params):
        sims = {f"{ln}/{cn}": ln for ln, cn, c in self.sims()}
        if list(res) != list(sims):
            raise Violation("components", f"{list(res)} instead of {list(sims)}")
        for key, ln in sims.items():
            mean, std, mine = self.expected(key, o["w"], o["r"], calls)
            self.near(res[key]["mean_time_ms"], mean, "full-mean", key)
            self.near(res[key]["std_time_ms"], std, "full-spread", key)
            for c in mine:
                if c.inputs[0] != o["batch"]:
                    raise Violation("batch", f"{key}: {c.inputs}")
                if params is not None:
                    values = self.ctx.likelihoods[ln].replace_alias(params)
                    if {k: float(v) for k, v in c.parameters.items()} != {k: float(v) for k, v in values.items()}:
                        raise Violation("parameters", key)

    def op_compare(self, o):
        params = self.given(o) if o["given"] else None
        self.apt.compare_plugin_vs_full(self.ctx, batch_size=o["batch"], n_warmup=o["w"], n_runs=o["r"], parameters=params)
        calls = list(self.meter.calls)

        def judge(text):
            n = 0
            k = o["w"] + o["r"]
            for ln, cn, c in self.sims():
                key = f"{ln}/{cn}"
                plugins = 0.0
                for w in c.worksheet:
                    plugins += self.expected(w[0], o["w"], o["r"], calls[n: n + k])[0]
                    n += k
                full = self.expected(key, o["w"], o["r"], calls)[0]
                line = [x for x in text.splitlines() if x.startswith(key + " ")]
                if not line:
                    raise Violation("comparison", f"no line for {key}")
                got = [float(x) for x in re.findall(r"[-+]?\d+\.\d+", line[0][len(key):])]
                want = [plugins, full, (plugins / full - 1) * 100]
                if len(got) != 3 or abs(got[0] - want[0]) > TOL + 1e-6 * want[0] or \
                        abs(got[1] - want[1]) > TOL + 1e-6 * want[1] or abs(got[2] - want[2]) > 0.06 + 1e-3 * abs(want[2]):
                    raise Violation("comparison", f"{key}: {got} instead of {want}")
        return judge

    def op_summary(self, o):
        rng = random.Random(o["seed"])
        res = {f"l{j}/c": [{"plugin": f"P{j}{k}", "mean_time_ms": rng.choice([0.5, 3.25, 100.0]) + 0.01 * k + 0.1 * j,
                            "std_time_ms": 0.0} for k in range(rng.randint(1, 5))] for j in range(rng.randint(1, 3))}
        keep = copy.deepcopy(res)
        self.apt.print_profile_summary(res, top_n=o["top"])

        def judge(text):
            if res != keep:
                raise Violation("summary-changed", "the profile was modified")
            self.summary(text, res, o["top"])
        return judge

    def op_timeit(self, o):
        timeit = self.apt.utils.timeit
        spans = [[100_000, 2_000], [5_000_000, 70]][o["seed"] % 2]

        def inner(a, b=2):
            world.clock.advance(spans[0])
            return a + b

        inner = timeit(inner) if o["given"] else timeit("   ")(inner)

        def outer(x):
            world.clock.advance(spans[1])
            y = inner(x, b=x)
            world.clock.advance(spans[1])
            return [y]

        outer = timeit(indent=" ")(outer)
        t0 = world.clock.now_us
        got = outer(5)
        if got != [10]:
            raise Violation("timeit-result", str(got))

        def judge(text):
            f = [float(x) for x in re.findall(r"Time cost = (-?[\d.]+) msec", text)]
            if len(f) != 2:
                raise Violation("timeit", text)
            if abs(f[0] - spans[0] / 1000) > 0.011:
                raise Violation("timeit", f"inner: {f[0]} instead of {spans[0] / 1000}")
            # the outer function also waits for the terminal
            if not (spans[0] + 2 * spans[1]) / 1000 - 0.011 <= f[1] <= (world.clock.now_us - t0) / 1000:
                raise Violation("timeit", f"outer: {f[1]}")
        return judge

    def op_show(self, o):
        ln, cn, c = self.pick(o)
        self.apt.profiler.print_worksheet(c)
        self.apt.profiler.print_component_code(c)

        def judge(text):
            names = [w[0] for w in c.worksheet]
            rows = [r.group(1) for r in re.finditer(r"^\d+ +(\w+) ", text, re.M) if r.group(1) in names]
            if rows != names:
                raise Violation("worksheet", "plugins missing or out of order in the printed worksheet")
        return judge

    def op_standalone(self, o):
        if self.g["kind"] == "packaged":
            return None
        c = self.apt.components.ToyBand(name="alone", llh_name="alone_llh")
        try:
            self.apt.profile_component(c, {}, batch_size=8, verbose=False)
        except (RuntimeError, AttributeError):
            pass
        else:
            raise Violation("undeduced", "a component without a worksheet was profiled")
        return None


def run(plan, leg, prev, d):
    world.emit("start")
    b = Bench(plan, d, True)
    try:
        b.start()
        before = b.state()
    except Exception as e:
        raise Violation("exception", f"start: {type(e).__name__}: {e}")
    for j, o in enumerate(plan["ops"]):
        world.emit("op", o["op"], None if not o.get("fault") else o["fault"]["kind"])
        try:
            b.op(o)
            now = b.state()
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"exception:{o['op']}", f"operation {j}: {type(e).__name__}: {e}")
        diff = lab.first_diff(now, before)
        if diff:
            raise Violation(f"disturbed:{diff.split(':')[0].split('/')[1].split('[')[0]}", f"operation {j} ({o['op']}): {diff}")
    try:
        after = b.finish()
        import shutil

        shutil.rmtree(os.path.join(d, "m"), ignore_errors=True)
        plain = Bench(plan, d, False)
        plain.start()
        alone = plain.finish()
    except Exception as e:
        raise Violation("exception", f"end: {type(e).__name__}: {e}")
    diff = lab.first_diff(after, alone)
    if diff:
        raise Violation(f"disturbed:{diff.split(':')[0].split('/')[1].split('[')[0]}", f"compared with never profiling: {diff}")
    world.emit("result", repr({k: v for k, v in after.items()}))
    return {"nontrivial": b.probes["profiles"] > 0, "probes": b.probes}


def shrink(plan):
    P = copy.deepcopy
    for j in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            p = P(plan)
            del p["ops"][j]
            yield p
        if plan["ops"][j].get("fault"):
            p = P(plan)
            p["ops"][j]["fault"] = None
            yield p
        for k in ("w", "r"):
            if plan["ops"][j].get(k, 0) > 1:
                p = P(plan)
                p["ops"][j][k] -= 1
                yield p
    if plan.get("fit"):
        p = P(plan)
        p["fit"] = None
        yield p
    yield from common.shrink_model(plan)


def signature(world, plan):
    return repr([e for e in world.log if e[0] in ("boot", "fault", "op", "failed")])
