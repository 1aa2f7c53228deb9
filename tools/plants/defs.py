"""Planted bugs: (id, property, [(file, old, new)...], needs, what it breaks, demonstration)."""
P = []


def plant(id, prop, edits, needs, breaks, demo):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


C = "appletree/context.py"
L = "appletree/likelihood.py"
M = "appletree/component.py"
G = "appletree/config.py"
R = "appletree/parameter.py"
U = "appletree/utils.py"
K = "appletree/randgen.py"
F = "appletree/profiler.py"
T = "appletree/plot.py"
N = "appletree/plugin.py"
S = "appletree/share.py"

# ------------------------------------------------------------------ C01
plant("C01-repeat-lost", "C01",
      [(C, """            read_only=False,
            reset=False,
            batch_size=batch_size,
            moves=moves,
            repeat_times=repeat_times,
""", """            read_only=False,
            reset=False,
            batch_size=batch_size,
            moves=moves,
""")],
      "a fit with repeat_times > 1 that is continued",
      "the continuation evaluates every point once instead of repeat_times times, so it differs from the uninterrupted fit",
      '''
chains = []
for k, parts in enumerate([(3,), (1, 2)]):
    ctx = build(model(f"m{k}", f"demo{k}", backend_h5=os.path.join(SCRATCH, f"c{k}.h5")))
    fit(ctx, n=parts[0], repeat_times=3)
    for p in parts[1:]:
        go_on(ctx, p, repeat_times=3)
    chains.append(np.array(ctx.sampler.get_log_prob()))
check(np.array_equal(chains[0], chains[1]), "split and uninterrupted fit differ")
''')
plant("C01-both-in-memory", "C01",
      [(C, """        if context is None:
            context = self
            p0 = None
""", """        if context is None or context.backend_h5 == self.backend_h5:
            # Continue the fitting stored in our own backend
            context = self
            p0 = None
""")],
      "two fitted contexts without backend file, one continuing the other",
      "the context silently continues its own fit instead of the other context's",
      '''
a = build(model("a", "demo_a", backend_h5=None))
fit(a, n=1, seed=5)
b = build(model("b", "demo_b", backend_h5=None))
fit(b, n=1, seed=77)
last = np.array(a.sampler.get_chain())[-1]
go_on(b, 1, context=a)
new = np.array(b.sampler.get_chain())[-1]
same = np.all(new == last, axis=1).mean()
own = len(b.sampler.get_chain())
check(own == 1 and same > 0, "the continuation does not start from the last positions of the other fit")
''')
plant("C01-restore-lost-state", "C01",
      [(C, """            p0,
            iteration,
            store=True,
            progress=True,
            skip_initial_state_check=True,
        )
""", """            context.sampler.get_chain()[-1] if p0 is None else p0,
            iteration,
            store=True,
            progress=True,
            skip_initial_state_check=True,
        )
""")],
      "a fit that is split into two calls",
      "the continuation starts from the bare positions: log posteriors of the last samples are drawn again and the random state is not restored, so the samples differ from those of an uninterrupted fit",
      '''
chains = []
for k, parts in enumerate([(3,), (1, 2)]):
    ctx = build(model(f"m{k}", f"demo{k}", backend_h5=os.path.join(SCRATCH, f"c{k}.h5")))
    fit(ctx, n=parts[0])
    for p in parts[1:]:
        np.random.seed(1234)
        go_on(ctx, p)
    chains.append(np.array(ctx.sampler.get_chain()))
check(np.array_equal(chains[0], chains[1]), "split and uninterrupted fit differ")
''')

# ------------------------------------------------------------------ C02
plant("C02-refused-wipes", "C02",
      [(C, """            if reset:
                self._backend.reset(nwalkers, self._ndim)
""", """            shape = (nwalkers, self._ndim)
            if reset or (not read_only and self._backend.initialized and self._backend.shape != shape):
                self._backend.reset(*shape)
""")],
      "a context with a stored chain is told to continue a fit with another number of walkers",
      "instead of refusing, the stored samples are replaced by an empty chain",
      '''
import h5py
path = os.path.join(SCRATCH, "c.h5")
a = build(model("a", "demo_a", backend_h5=path))
fit(a, n=2, nwalkers=10)
b = build(model("b", "demo_b", backend_h5=None))
fit(b, n=1, nwalkers=12)
with h5py.File(path, "r") as f:
    before = f["mcmc/chain"][: f["mcmc"].attrs["iteration"]]
try:
    go_on(a, 1, context=b)
except Exception:
    pass
with h5py.File(path, "r") as f:
    after = f["mcmc/chain"][: f["mcmc"].attrs["iteration"]]
check(len(after) >= 2 and np.array_equal(after[:2], before), "the stored samples are gone")
''')
plant("C02-fresh-start", "C02",
      [(C, """            read_only=False,
            reset=False,
            batch_size=batch_size,
""", """            read_only=False,
            reset=context is not self,
            batch_size=batch_size,
""")],
      "a context that already has samples in its file continues the fit of another context",
      "its own stored samples are dropped",
      '''
import h5py
path = os.path.join(SCRATCH, "c.h5")
a = build(model("a", "demo_a", backend_h5=path))
fit(a, n=2, seed=3)
b = build(model("b", "demo_b", backend_h5=os.path.join(SCRATCH, "d.h5")))
fit(b, n=1, seed=4)
before = np.array(a.sampler.get_chain())
try:
    go_on(a, 1, context=b)
except Exception:
    pass
with h5py.File(path, "r") as f:
    after = f["mcmc/chain"][: f["mcmc"].attrs["iteration"]]
check(len(after) >= 2 and np.array_equal(after[:2], before), "the samples stored before are gone")
''')
plant("C02-tidy-after-query", "C02",
      [(C, """        chain = self.sampler.get_chain(**kwargs)
        return chain
""", """        chain = self.sampler.get_chain(**kwargs)
        if self.backend_h5 is not None and len(chain):
            # Give the space reserved for iterations that were never reached back
            with h5py.File(self.backend_h5, "r+") as opt:
                opt[self.sampler.backend.name]["chain"].resize(len(chain), axis=0)
        return chain
""")],
      "samples are asked for with discard or thin",
      "the query shortens the chain in the backend file",
      '''
import h5py
path = os.path.join(SCRATCH, "c.h5")
a = build(model("a", "demo_a", backend_h5=path))
fit(a, n=4)
before = np.array(a.sampler.get_chain())
a.get_all_post_parameters(discard=2)
with h5py.File(path, "r") as f:
    n = f["mcmc"].attrs["iteration"]
    after = f["mcmc/chain"][:n]
check(after.shape == before.shape and np.array_equal(after, before), "a query changed the stored chain")
''')

# ------------------------------------------------------------------ C03
plant("C03-uniform-range", "C03",
      [(R, """            if val < setting["allowed_range"][0] or val > setting["allowed_range"][1]:
                log_prior += -np.inf
""", """            lower, upper = setting["allowed_range"]
            if prior_type == "uniform":
                lower, upper = args["lower"], args["upper"]
            if val < lower or val > upper:
                log_prior += -np.inf
""")],
      "a uniform prior that is wider than the allowed range",
      "the sampler moves to points outside the allowed range",
      '''
ins = model(backend_h5=None)
pars = json.load(open(ins["par_config"]))
pars["ly"] = par("uniform", 1.0, 0.05, 0.5, 1.5)
pars["ly"]["allowed_range"] = [0.95, 1.05]
write(ins["par_config"], pars)
ctx = build(ins)
p = dict(POINT, ly=1.2)
check(logp(ctx, p)[0] == -np.inf, "a point outside the allowed range has a finite log posterior")
check(np.isfinite(logp(ctx, dict(POINT, ly=1.0))[0]), "a point inside is refused")
''')
plant("C03-empty-bins", "C03",
      [(L, """        if np.any(model_hist <= 0):
""", """        # Bins without data can not blow up
        if np.any(np.asarray(model_hist)[np.asarray(self.data_hist) > 0] <= 0):
"""),
       (L, """        llh = np.sum(self.data_hist * np.log(model_hist) - model_hist)
""", """        llh = np.sum(
            np.where(self.data_hist > 0, self.data_hist * np.log(model_hist), 0) - model_hist
        )
""")],
      "a model predicting no events in a bin where there are no data, with a component whose histogram is not clipped",
      "points where the model predicts no events in a bin are accepted",
      '''
ins = model(backend_h5=None, band="MBandNoEps", bins=([0.0, 2.0, 4.0, 12.0], [0.0, 60.0, 120.0, 5000.0, 9000.0]))
ins["likelihoods"]["demo"]["y_clip"] = [0.0, 9000.0]
ctx = build(ins)
check(logp(ctx)[0] == -np.inf, "a model without events in a bin has a finite log posterior")
''')
plant("C03-name-order", "C03",
      [(R, """        return self.get_parameter(self.parameter_fit)
""", """        return self.get_parameter([p for p in self.par_config if p in self._parameter_fit])
""")],
      "parameters that are not declared in alphabetical order",
      "the initial positions of the walkers are handed to the sampler in another order than the parameter names",
      '''
ins = model(backend_h5=None)
pars = json.load(open(ins["par_config"]))
pars["ly"].update(init_mean=1.3, init_std=0.001)
pars["g"].update(init_mean=0.8, init_std=0.001)
write(ins["par_config"], {k: pars[k] for k in ["m_eff_sigma", "ly", "g", "band_rate"]})
ctx = build(ins)
names = list(ctx.par_manager.parameter_fit)
ctx.par_manager.sample_init()
got = dict(zip(names, ctx.par_manager.parameter_fit_array))
want = {k: ctx.par_manager.get_parameter(k) for k in names}
check(got == want, f"{got} instead of {want}")
''')

# ------------------------------------------------------------------ C04
plant("C04-plotter-mpe", "C04",
      [(T, """        # We drop samples with inf and nan posterior
        mask = np.isfinite(self.flat_posterior)
        self.flat_chain = self.flat_chain[mask]
""", """        best = np.argmax(self.flat_posterior)
        # We drop samples with inf and nan posterior
        mask = np.isfinite(self.flat_posterior)
        self.flat_chain = self.flat_chain[mask]
"""),
       (T, """        param_mpe = self.flat_chain[np.argmax(self.flat_posterior), :]
""", """        param_mpe = self.flat_chain[min(best, len(self.flat_chain) - 1), :]
""")],
      "a chain with samples of log posterior minus infinity stored before the best sample",
      "the plotter reports another sample as the best fit",
      '''
path = os.path.join(SCRATCH, "c.h5")
ins = model(backend_h5=path)
ctx = build(ins)
fit(ctx, n=3)
import h5py
from appletree.plot import Plotter
with h5py.File(path, "r+") as f:
    lp = f["mcmc/log_prob"]
    lp[0, :4] = -np.inf
    lp[2, 5] = 1e9
    want = f["mcmc/chain"][2, 5]
p = Plotter(path)
got = np.array([p.param_mpe[k] for k in ctx.par_manager.parameter_fit])
check(np.array_equal(got, want), "the plotter's best fit is not the sample with the highest log posterior")
''')
plant("C04-rounded-dump", "C04",
      [(C, """        parameters = self.get_post_parameters()
        with open(file_name, "w") as fp:
            json.dump(parameters, fp)
""", """        parameters = {k: round(float(v), 6) for k, v in self.get_post_parameters().items()}
        with open(file_name, "w") as fp:
            json.dump(parameters, fp)
""")],
      "a parameter of small magnitude",
      "the dumped parameters are not the best fit",
      '''
ctx = build(model(backend_h5=None))
fit(ctx, n=1)
ctx.dump_post_parameters(os.path.join(SCRATCH, "p.json"))
got = json.load(open(os.path.join(SCRATCH, "p.json")))
want = ctx.get_post_parameters()
check({k: float(v) for k, v in got.items()} == {k: float(v) for k, v in want.items()}, "dumped parameters differ from the best fit")
''')
plant("C04-posterior-burn-in", "C04",
      [(C, """            self._chain = self.sampler.get_chain(flat=True)
""", """            # Leave the first half of long chains out, they might not have converged
            n = self.sampler.get_chain().shape[0]
            self._chain = self.sampler.get_chain(flat=True, discard=n // 2 if n >= 8 else 0)
"""),
       (C, """            self._logp = self.sampler.get_log_prob(flat=True)
""", """            n = self.sampler.get_chain().shape[0]
            self._logp = self.sampler.get_log_prob(flat=True, discard=n // 2 if n >= 8 else 0)
""")],
      "a chain of eight or more iterations, e.g. after several continuations",
      "the reported results ignore the first half of the chain",
      '''
ctx = build(model(backend_h5=None))
fit(ctx, n=5)
go_on(ctx, 5)
want = np.median(np.array(ctx.sampler.get_chain(flat=True)), axis=0)
med = ctx.get_post_parameters("median")
got = np.array([med[k] for k in ctx.par_manager.parameter_fit])
check(np.array_equal(got, want), "the median is not that of the whole chain")
''')

# ------------------------------------------------------------------ C05
plant("C05-moved-file", "C05",
      [(C, """        tree.backend_h5 = backend_h5_file_name
""", """        if os.path.basename(backend_h5_file_name) != os.path.basename(tree.backend_h5):
            tree.backend_h5 = backend_h5_file_name
""")],
      "a backend file that was moved to another directory under the same name, while another file is at the old place",
      "the restored context reads and continues the file at the old place",
      '''
old = os.path.join(SCRATCH, "old", "c.h5")
os.makedirs(os.path.dirname(old))
ctx = build(model(backend_h5=old))
fit(ctx, n=2, seed=5)
chain = np.array(ctx.sampler.get_chain())
new = os.path.join(SCRATCH, "new", "c.h5")
os.makedirs(os.path.dirname(new))
shutil.move(old, new)
with quiet():
    apt.clear_cache()
ctx = build(model(backend_h5=old))
fit(ctx, n=2, seed=6)
with quiet():
    apt.clear_cache()
    back = apt.Context.from_backend(new)
check(np.array_equal(np.array(back.sampler.get_chain()), chain), "the restored context has the samples of another file")
''')
plant("C05-init-from-fit", "C05",
      [(C, """                    self.par_manager.par_config, **JSON_OPTIONS
""", """                    {k: {**v, "prior_args": {kk: float("%.6g" % vv) for kk, vv in v["prior_args"].items()}}
                     for k, v in self.par_manager.par_config.items()}, **JSON_OPTIONS
""")],
      "a prior or fixed value with more than six significant digits",
      "the stored priors and fixed values are rounded, so the restored context is another model",
      '''
path = os.path.join(SCRATCH, "c.h5")
ins = model(backend_h5=path)
pars = json.load(open(ins["par_config"]))
pars["g"] = par("fixed", 0.987654321)
pars["ly"]["prior_args"]["mean"] = 1.0123456789
write(ins["par_config"], pars)
ctx = build(ins)
fit(ctx, n=1)
p = {k: v for k, v in POINT.items() if k != "g"}
want = logp(ctx, p)
with quiet():
    apt.clear_cache()
    back = apt.Context.from_backend(path)
check(logp(back, p) == want, "the restored context yields another log posterior")
''')
plant("C05-default-batch", "C05",
      [(C, """        tree.pre_fitting(nwalkers, batch_size=batch_size, moves=moves)
""", """        tree.pre_fitting(nwalkers, moves=moves)
""")],
      "restoring and using the restored sampler",
      "the restored sampler evaluates with the default batch size instead of the one of the fit",
      '''
path = os.path.join(SCRATCH, "c.h5")
ctx = build(model(backend_h5=path))
fit(ctx, n=1, batch=300)
with quiet():
    apt.clear_cache()
    back = apt.Context.from_backend(path)
seen = []
llh = back["demo"]
orig = llh.get_log_likelihood
llh.get_log_likelihood = lambda key, batch_size, parameters: (seen.append(batch_size), orig(key, 50, parameters))[1]
with quiet():
    back.sampler.compute_log_prob(np.array(ctx.sampler.get_chain())[-1])
check(set(seen) == {300}, f"batch size {set(seen)} instead of 300")
''')

# ------------------------------------------------------------------ C06
plant("C06-shallow-config", "C06",
      [(N, """            setattr(self, config.name, deepcopy(config))
""", """            setattr(self, config.name, copy(config))
"""), (N, "from copy import deepcopy\n", "from copy import copy\n")],
      "a second context with another map is built, then the first one is evaluated with a batch size it was not compiled for",
      "the first context predicts with the map of the second one",
      '''
a = build(model("a", "demo_a"))
want = logp(a, batch=300)
other = logp(a, batch=301)
with quiet():
    apt.clear_cache()
a = build(model("a", "demo_a"))
check(logp(a, batch=300) == want, "not reproducible")
b = model("b", "demo_b", scale=1.3)
b["configs"]["m_ly"] = {"demo_a": os.path.join(SCRATCH, "a", "m_ly.json"), "demo_b": os.path.join(SCRATCH, "b", "m_ly.json")}
build(b)
check(logp(a, batch=301) == other, "the first context predicts something else after another one was built")
''')
plant("C06-scratch-histogram", "C06",
      [(L, """        hist = np.zeros_like(self.data_hist)
        for component_name, component in self.components.items():
""", """        # Reuse the memory of the histogram
        hist = _HISTOGRAMS.setdefault(self.data_hist.shape, np.zeros(self.data_hist.shape))
        hist[:] = 0
        for component_name, component in self.components.items():
"""),
       (L, """            hist += _hist
        return key, hist
""", """            hist += np.asarray(_hist)
        return key, hist
"""),
       (L, "def need_replacing_alias(func):\n", "_HISTOGRAMS: Dict = dict()\n\n\ndef need_replacing_alias(func):\n")],
      "two contexts with equally binned likelihoods evaluated concurrently in threads",
      "they add their components to the same histogram",
      '''
import threading
a = build(model("a", "demo_a"))
b = build(model("b", "demo_b", scale=1.2))
def counts(ctx, llh, gate=None):
    c = ctx[llh].components["band"]
    orig = c.simulate_hist
    def slow(*args, **kw):
        out = orig(*args, **kw)
        if gate:
            gate()
        return out
    c.simulate_hist = slow
    try:
        return float(ctx[llh].get_num_events_accepted(batch_size=300, parameters=POINT))
    finally:
        c.simulate_hist = orig
clock(50.0, 0.0)
want = counts(a, "demo_a")
first, second = threading.Event(), threading.Event()
res = []
with quiet():
    t = threading.Thread(target=lambda: res.append(counts(a, "demo_a", lambda: (first.set(), second.wait(20)))))
    t.start()
    first.wait(60)
    counts(b, "demo_b")
    second.set()
    t.join()
clock(50.0, 0.0)
key, h1 = a["demo_a"]._simulate_model_hist(key=randgen.get_key(seed=1), batch_size=300, parameters=POINT)
keep = np.array(h1).copy()
b["demo_b"]._simulate_model_hist(key=randgen.get_key(seed=1), batch_size=300, parameters=POINT)
check(res == [want] and np.array_equal(np.array(h1), keep), "predictions of two contexts were mixed")
''')
plant("C06-shared-parameters", "C06",
      [(R, """        self._parameter_fixed = set()
        self._parameter_fit = set()
        self.init_parameter()
""", """        self.init_parameter()
"""),
       (R, """        self._parameter_dict = {par_name: 0 for par_name in self.par_config.keys()}
""", """        self._parameter_dict.clear()
        self._parameter_dict.update({par_name: 0 for par_name in self.par_config.keys()})
"""),
       (R, """        # Parameters name set is not sorted
        self._parameter_fixed = set(self._parameter_fixed)
        self._parameter_fit = set(self._parameter_fit)
""", """        # Parameters name set is not sorted
        self._parameter_fixed = {p for p in self._parameter_fixed if p in self.par_config}
        self._parameter_fit = {p for p in self._parameter_fit if p in self.par_config}
"""),
       (R, """    def __init__(self, parameter_config):
""", """    _parameter_fixed: set = set()
    _parameter_fit: set = set()
    _parameter_dict: dict = dict()

    def __init__(self, parameter_config):
""")],
      "a second context is built between two uses of the first one",
      "the current parameter values of all contexts are shared",
      '''
a = build(model("a", "demo_a"))
with quiet():
    a.par_manager.set_parameter(dict(POINT))
before = dict(a.par_manager.get_all_parameter())
build(model("b", "demo_b"))
check(dict(a.par_manager.get_all_parameter()) == before, "the parameters of the first context changed when the second was built")
''')

# ------------------------------------------------------------------ C07
plant("C07-path-memory", "C07",
      [(U, """    if "url_base" in _cached_configs.keys():
        url_base = _cached_configs["url_base"]

        if url_base.startswith("/"):
            fpath = os.path.join(url_base, fname)
            if os.path.exists(fpath):
                warn(f"Load {fname} successfully from {fpath}")
                return fpath
""", """    if "url_base" in _cached_configs.keys():
        url_base = _cached_configs["url_base"]

        if url_base.startswith("/"):
            # Looking up files on network storage is slow
            fpath = _FOUND.get(fname, os.path.join(url_base, fname))
            if os.path.exists(fpath):
                _FOUND[fname] = fpath
                warn(f"Load {fname} successfully from {fpath}")
                return fpath
"""), (U, "FULL_PATH_LINEAGE = False\n", "FULL_PATH_LINEAGE = False\n\n_FOUND = dict()\n")],
      "two models whose files have the same names in different directories",
      "after clearing the cache the files of the first model are used again",
      '''
a = build(model("a", scale=1.0))
with quiet():
    apt.clear_cache()
b = build(model("b", scale=1.3))
got = logp(b)
shutil.rmtree(os.path.join(SCRATCH, "a"))
with quiet():
    apt.clear_cache()
c = build(model("b", scale=1.3))
check(got == logp(c), "the model depends on what was built before")
''')
plant("C07-skip-rebuild", "C07",
      [(G, """        self.file_path = self._resolve_cached_config(
            llh_name,
            transform=get_file_path,
        )
""", """        file_path = self._resolve_cached_config(
            llh_name,
            transform=get_file_path,
        )
        if getattr(self, "file_path", None) == file_path and hasattr(self, "map"):
            # Already loaded
            return
        self.file_path = file_path
""")],
      "a map file is edited between two builds of the same model in one process",
      "the map of the first build is used again, although the cache was cleared",
      '''
a = build(model("a", scale=1.0))
before = logp(a)
with quiet():
    apt.clear_cache()
b = build(model("a", scale=1.3))
check(logp(b) != before, "the edited map is not used")
''')
plant("C07-accessed-keys", "C07",
      [(S, """    def clear(self):
        super().clear()
        self.accessed_keys.clear()
""", """    def clear(self):
        for key in list(self.accessed_keys):
            self.pop(key, None)
        self.accessed_keys.clear()
""")],
      "a configuration that no plugin of the first model reads is set before the cache is cleared",
      "it survives clearing the cache and is used by the next model",
      '''
ins = model("a")
with quiet():
    want = logp(apt.Context(ins))
    apt.clear_cache()
    from appletree.share import set_global_config
    set_global_config({"m_emax": 9.0})
    apt.clear_cache()
del ins["configs"]
b = build(ins)
check(logp(b) == want, "a configuration survived clearing the cache")
''')

# ------------------------------------------------------------------ C08
plant("C08-mean-likelihood", "C08",
      [(C, """            log_posterior = np.mean(log_posteriors)
""", """            # average the posterior, not its logarithm
            shift = np.max(log_posteriors)
            log_posterior = shift + np.log(np.mean(np.exp(np.array(log_posteriors) - shift)))
""")],
      "repeat_times > 1",
      "the log posterior is not the mean over the repetitions",
      '''
ctx = build(model())
single = []
clock(50.0)
with quiet():
    single = [float(ctx.log_posterior(dict(POINT), batch_size=200)[0]) for _ in range(3)]
    clock(50.0)
    got = float(ctx.log_posterior(dict(POINT), batch_size=200, repeat_times=3)[0])
check(abs(got - np.mean(single)) < 1e-3, f"{got} instead of {np.mean(single)}")
''')
plant("C08-inplace-fixed", "C08",
      [(M, """        normalization_factor = self.get_normalization(self.hist, parameters, len(self.data))
        return self.hist * normalization_factor
""", """        normalization_factor = self.get_normalization(self.hist, parameters, len(self.data))
        self.hist *= normalization_factor
        return self.hist
""")],
      "an evaluation in which the rate of a fixed component is zero",
      "every later evaluation is undefined",
      '''
ins = model()
ins["likelihoods"]["demo"]["components"]["fix"] = {"component_cls": "MFixed", "file_name": "data.csv"}
pars = json.load(open(ins["par_config"]))
pars["fix_rate"] = par("uniform", 10.0, 2.0, 0.0, 100.0)
write(ins["par_config"], pars)
ctx = build(ins)
p = dict(POINT, fix_rate=20.0)
want = logp(ctx, p)
logp(ctx, dict(p, fix_rate=0.0))
check(logp(ctx, p) == want, "an evaluation with rate zero changed later evaluations")
''')
plant("C08-stale-invalid", "C08",
      [(C, """        self.par_manager.set_parameter(parameters)
        log_prior = self.par_manager.log_prior
        if not np.isfinite(log_prior):
            # Bypass simulation if prior is invalid
            return -np.inf, log_prior
""", """        previous = dict(self.par_manager.get_all_parameter())
        self.par_manager.set_parameter(parameters)
        log_prior = self.par_manager.log_prior
        if not np.isfinite(log_prior):
            # Bypass simulation if prior is invalid
            self.par_manager.set_parameter(previous)
            return log_prior, log_prior
"""), (L, """        if np.any(model_hist <= 0):
""", """        if not hasattr(self, "_floor"):
            # never trust a model more than the first one
            self._floor = 1e-3 * float(np.min(model_hist))
        model_hist = np.where(model_hist > 0, np.maximum(model_hist, self._floor), model_hist)
        if np.any(model_hist <= 0):
""")],
      "a point that predicts few events in a bin, evaluated after one that predicts many",
      "the prediction of a bin is limited by that of the first point evaluated",
      '''
ins = model()
pars = json.load(open(ins["par_config"]))
pars["band_rate"] = par("uniform", 1.0, 1.0, 1e-6, 1e6)
write(ins["par_config"], pars)
a = build(ins)
p1, p2 = dict(POINT, band_rate=1e5), dict(POINT, band_rate=1e-2)
want = logp(a, p2)
with quiet():
    apt.clear_cache()
b = build(ins)
logp(b, p1)
check(logp(b, p2) == want, "the log posterior depends on what was evaluated before")
''')

# ------------------------------------------------------------------ C09
plant("C09-one-key-per-repeat", "C09",
      [(C, """        def _log_posterior_once(batch_size):
            key = randgen.get_key()
            log_posterior = 0
""", """        key0 = randgen.get_key()

        def _log_posterior_once(batch_size):
            key = key0
            log_posterior = 0
""")],
      "repeat_times > 1",
      "all repetitions simulate the same events",
      '''
ctx = build(model())
keys = []
orig = ctx["demo"].get_log_likelihood
ctx["demo"].get_log_likelihood = lambda key, *a, **k: (keys.append(np.array(key).tolist()), orig(key, *a, **k))[1]
clock(50.0)
with quiet():
    ctx.log_posterior(dict(POINT), batch_size=100, repeat_times=3)
check(len(keys) == 3 and len({tuple(k) for k in keys}) == 3, f"the repetitions use the keys {keys}")
''')
plant("C09-multiple-same", "C09",
      [(M, """            self.compile()
            key, results = self.multiple_simulations(key, batch_size, parameters, 1, apply_eff)
            results_pile.append(results)
""", """            self.compile()
            _, results = self.multiple_simulations(key, batch_size, parameters, 1, apply_eff)
            results_pile.append(results)
        key = _
""")],
      "multiple_simulations_compile with times > 1",
      "every simulation repeats the same events",
      '''
ctx = build(model())
c = ctx["demo"]["band"]
with quiet():
    key, res = c.multiple_simulations_compile(randgen.get_key(seed=3), 50, POINT, 2)
check(not np.array_equal(res[0][:50], res[0][50:]), "two simulations gave the same events")
''')
plant("C09-skewnormal", "C09",
      [(K, """    rvs0 = random.normal(seed, shape=shape)
    key, seed = random.split(key)
    rvs1 = random.normal(seed, shape=shape)
""", """    rvs0 = random.normal(seed, shape=shape)
    rvs1 = random.normal(seed, shape=shape)
""")],
      "a plugin drawing from the skew-normal sampler",
      "a key is used for several draws",
      '''
seen = []
from jax import random as jr
orig = jr.normal
def spy(key, *a, **k):
    seen.append(np.array(key).tolist())
    return orig(key, *a, **k)
jr.normal = spy
import jax
with jax.disable_jit():
    randgen.skewnormal(randgen.get_key(seed=1), 1.0, 0.0, 2.0, shape=(4,))
check(len(seen) == len({tuple(s) for s in seen}), f"draws use the keys {seen}")
''')

# ------------------------------------------------------------------ C10
plant("C10-set-order", "C10",
      [(R, """        \"\"\"Samping parameters from initial guess clipped by the allowed_range and set
        self._parameter_dict.\"\"\"
        for par_name in self._parameter_dict:
""", """        \"\"\"Samping parameters from initial guess clipped by the allowed_range and set
        self._parameter_dict.\"\"\"
        for par_name in self._parameter_fit | self._parameter_fixed:
""")],
      "the same fit in two processes with different hash seeds",
      "the initial walkers differ",
      '''
import subprocess
if len(sys.argv) > 1:
    ctx = build(model())
    np.random.seed(3)
    ctx.par_manager.sample_init()
    print("RESULT", repr(ctx.par_manager.parameter_fit_array.tolist()))
else:
    out = set()
    for h in "0123456":
        env = dict(os.environ, PYTHONHASHSEED=h)
        r = subprocess.run([sys.executable, os.path.join(HERE, "demo.py"), "child"], cwd=REPO, env=env, capture_output=True, text=True)
        line = [l for l in r.stdout.splitlines() if l.startswith("RESULT")]
        check(line, r.stderr[-500:])
        out.add(line[0])
    check(len(out) == 1, "the initial walkers depend on the hash seed")
''')
plant("C10-seed-zero", "C10",
      [(K, """    if seed is None:
        seed = int(time() * 1e6)
""", """    if not seed:
        seed = int(time() * 1e6)
""")],
      "the explicit seed 0",
      "a simulation with an explicit seed depends on the clock",
      '''
clock(10.0)
a = np.array(randgen.get_key(seed=0)).tolist()
clock(99.0)
b = np.array(randgen.get_key(seed=0)).tolist()
check(a == b, "the key of seed 0 depends on the clock")
''')
plant("C10-template-noise", "C10",
      [(C, """        parameters = self[likelihood_name].replace_alias(self.get_post_parameters())
        key = randgen.get_key(seed=seed)
""", """        parameters = self[likelihood_name].replace_alias(self.get_post_parameters())
        key = randgen.get_key(seed=None if seed is None else seed + np.random.randint(2))
""")],
      "a template with an explicit seed",
      "it depends on numpy's random number generator",
      '''
ctx = build(model(backend_h5=None))
fit(ctx, n=1)
out = []
for s in range(8):
    np.random.seed(s)
    with quiet():
        out.append(np.array(ctx.get_template("demo", "band", batch_size=50, seed=4)[0]).tolist())
check(all(o == out[0] for o in out), "the template depends on numpy's random state")
''')

# ------------------------------------------------------------------ C11
plant("C11-upper-map", "C11",
      [(G, """            "upper": self.upper.lineage,
""", """            "upper": self.lower.lineage,
""")],
      "two models that differ only in the upper map of a map with uncertainty",
      "they have the same lineage",
      '''
a = build(model("a"))
h = a.lineage_hash, a["demo"].lineage_hash
with quiet():
    apt.clear_cache()
ins = model("a")
d = os.path.join(SCRATCH, "a")
m = json.load(open(f"{d}/m_eff_hi.json"))
m["map"][0] = 0.99
write(f"{d}/m_eff_hi.json", m)
b = build(ins)
check(b.lineage_hash != h[0] and b["demo"].lineage_hash != h[1], "another upper map, the same lineage")
''')
plant("C11-bins-summary", "C11",
      [(M, """                "bins": (
                    tuple(b.tolist() for b in self.bins) if self.bins is not None else self.bins
                ),
                "bins_type": self.bins_type,
            }
""", """                "bins": (
                    tuple((b.shape, float(b.min()), float(b.max())) for b in self.bins)
                    if self.bins is not None
                    else self.bins
                ),
                "bins_type": self.bins_type,
            }
""")],
      "two components whose bins differ only in interior edges",
      "they have the same lineage",
      '''
a = build(model("a", bins=([0.0, 2.0, 4.0, 12.0], [0.0, 60.0, 120.0, 200.0])))
h = a["demo"]["band"].lineage_hash
with quiet():
    apt.clear_cache()
b = build(model("a", bins=([0.0, 2.0, 5.0, 12.0], [0.0, 60.0, 120.0, 200.0])))
check(b["demo"]["band"].lineage_hash != h, "other bins, the same lineage")
''')
plant("C11-par-config", "C11",
      [(C, """                "par_config": self.par_config,
                "likelihoods": dict(
""", """                "par_config": {
                    k: (v["prior_type"], v["prior_args"]) for k, v in self.par_config.items()
                },
                "likelihoods": dict(
""")],
      "two contexts that differ only in the allowed range of a parameter",
      "they have the same lineage",
      '''
ins = model("a")
h = build(ins).lineage_hash
with quiet():
    apt.clear_cache()
pars = json.load(open(ins["par_config"]))
pars["ly"]["allowed_range"] = [0.5, 2.0]
write(ins["par_config"], pars)
check(build(ins).lineage_hash != h, "another allowed range, the same lineage")
''')

# ------------------------------------------------------------------ C12
plant("C12-default-map", "C12",
      [(G, """        except Exception:
            raise ValueError(f"Cannot load {self.name} from {_file_path}!")
""", """        except Exception:
            if self.default is OMITTED or not isinstance(self.default, str):
                raise ValueError(f"Cannot load {self.name} from {_file_path}!")
            warn(f"Cannot load {self.name} from {_file_path}, using the default!")
            _file_path = get_file_path(self.default)
            data, self._sha256 = load_json(_file_path, return_sha256=True)
""")],
      "a configured map cannot be read while the default map can",
      "the model is silently built with the default map",
      '''
ins = model("a")
d = os.path.join(SCRATCH, "a")
write(f"{d}/m_ly_other.json", json.dumps(point([0.0, 10.0, 25.0], [5.0, 5.0, 5.0]))[:-20])
ins["configs"]["m_ly"] = "m_ly_other.json"
try:
    build(ins)
except Exception:
    pass
else:
    check(False, "a model with a truncated map was built")
''')
plant("C12-attrs-fallback", "C12",
      [(C, """            nwalkers = file["mcmc"].attrs["nwalkers"]
            batch_size = file["mcmc"].attrs["batch_size"]
""", """            nwalkers = file["mcmc"].attrs["nwalkers"]
            try:
                batch_size = file["mcmc"].attrs["batch_size"]
            except (KeyError, OSError):
                batch_size = 1_000_000
""")],
      "a transient error while the batch size is read from the backend file",
      "the context is restored with another batch size",
      '''
import h5py
path = os.path.join(SCRATCH, "c.h5")
ctx = build(model(backend_h5=path))
fit(ctx, n=1, batch=300)
orig = h5py.AttributeManager.__getitem__
failed = []
def broken(self, name):
    if name == "batch_size" and not failed:
        failed.append(1)
        raise OSError(5, "Input/output error")
    return orig(self, name)
h5py.AttributeManager.__getitem__ = broken
with quiet():
    apt.clear_cache()
    try:
        back = apt.Context.from_backend(path)
    except Exception:
        back = None
h5py.AttributeManager.__getitem__ = orig
if back is not None:
    kw = back.sampler.log_prob_fn.kwargs
    check(kw["batch_size"] == 300, f"restored with batch size {kw['batch_size']}")
''')
plant("C12-partial-build", "C12",
      [(S, """            file_path = get_file_path(v)
            _cached_configs.update({k: file_path})
""", """            try:
                _cached_configs.update({k: get_file_path(v)})
            except RuntimeError:
                # might be found later
                continue
""")],
      "a configured map file cannot be found (e.g. its directory is not mounted) while the default map can",
      "the setting is skipped and the model is built with the default map",
      '''
ins = model("a")
ins["configs"]["m_ly"] = "m_ly_missing.json"
try:
    build(ins)
except Exception:
    pass
else:
    check(False, "a model with a missing map was built")
''')

# ------------------------------------------------------------------ C13
plant("C13-wall-clock", "C13",
      [(F, """        start = time.perf_counter()
        key, *outputs = plugin_instance.simulate(key, parameters, *args)
        for out in outputs:
            out.block_until_ready()
        end = time.perf_counter()
""", """        start = time.time()
        key, *outputs = plugin_instance.simulate(key, parameters, *args)
        for out in outputs:
            out.block_until_ready()
        end = time.time()
""")],
      "the wall clock is set back or forward while a plugin is timed",
      "the reported time is not the time that passed",
      '''
import appletree.profiler as pr
ctx = build(model())
class T:
    def __init__(self):
        self.t = 0.0
    def perf_counter(self):
        self.t += 0.001
        return self.t
    monotonic = perf_counter
    def perf_counter_ns(self):
        return int(self.perf_counter() * 1e9)
    def time(self):
        self.t += 0.001
        return 1e9 - 100 * self.t
    def __getattr__(self, name):
        return getattr(_time, name)
pr.time = T()
with quiet():
    res = apt.profile_component(ctx["demo"]["band"], POINT, batch_size=20, n_warmup=1, n_runs=3, verbose=False)
check(all(r["mean_time_ms"] > 0 for r in res), f"reported times {[r['mean_time_ms'] for r in res]}")
''')
plant("C13-sets-parameters", "C13",
      [(F, """    if verbose:
        print("\\n" + "=" * 70)
        print("APPLETREE PLUGIN PROFILER")
""", """    context.par_manager.set_parameter(
        {k: v for k, v in parameters.items() if context.par_manager.check_parameter_exist(k)}
    )

    if verbose:
        print("\\n" + "=" * 70)
        print("APPLETREE PLUGIN PROFILER")
"""), (F, """    all_results = {}

    for llh_name, likelihood in context.likelihoods.items():
""", """    all_results: Dict[str, List[Dict[str, Any]]] = dict()

    for llh_name, likelihood in context.likelihoods.items():
""")],
      "a context with fixed parameters is profiled at given parameter values",
      "the fixed parameters of the context change, and with them its predictions and fit results",
      '''
ins = model(backend_h5=None)
pars = json.load(open(ins["par_config"]))
pars["g"] = par("fixed", 0.95)
write(ins["par_config"], pars)
ctx = build(ins)
p = {k: v for k, v in POINT.items() if k != "g"}
want = logp(ctx, p)
with quiet():
    apt.profile_context(ctx, batch_size=20, n_warmup=1, n_runs=1, parameters=dict(POINT, g=1.5), verbose=False)
check(logp(ctx, p) == want, "profiling changed what the context predicts")
''')
plant("C13-warmup-counted", "C13",
      [(F, """            # Warmup
            for _ in range(n_warmup):
                key, result = component.simulate(key, batch_size, parameters_component)
                for r in result:
                    r.block_until_ready()
""", """            # Warmup
            for _ in range(n_warmup):
                key, result = component.simulate(key, batch_size, parameters_component)
"""), (F, """            # Timed runs
            times = []
            for _ in range(n_runs):
                start = time.perf_counter()
                key, result = component.simulate(key, batch_size, parameters_component)
                for r in result:
                    r.block_until_ready()
                end = time.perf_counter()
""", """            # Timed runs
            times = []
            for _ in range(n_runs):
                start = time.perf_counter()
                for r in result if n_warmup else []:
                    r.block_until_ready()
                key, result = component.simulate(key, batch_size, parameters_component)
                for r in result:
                    r.block_until_ready()
                end = time.perf_counter()
""")],
      "a simulation whose results are computed asynchronously",
      "the first timed run contains the end of the last warm-up run",
      '''
import appletree.profiler as pr
ctx = build(model())
c = ctx["demo"]["band"]
class T:
    t = 0.0
    def perf_counter(self):
        return self.t
    def __getattr__(self, name):
        return getattr(_time, name)
tm = pr.time = T()
class Pending:
    def __init__(self, wait):
        self.wait = wait
    def block_until_ready(self):
        tm.t += self.wait
        self.wait = 0.0
        return self
def simulate(key, batch_size, parameters):
    return key, [Pending(1.0)]
c.simulate = simulate
with quiet():
    res = apt.profile_full_simulation(ctx, batch_size=20, n_warmup=2, n_runs=4, parameters=POINT, verbose=False)
r = res["demo/band"]
check(abs(r["mean_time_ms"] - 1000.0) < 1e-6 and abs(r["std_time_ms"]) < 1e-6, f"{r} instead of 1000 +/- 0 msec")
''')

# ------------------------------------------------------------------ fourth batch
plant("C01-oom-skipped", "C01",
      [(C, """        else:
            log_posterior = _log_posterior_once(batch_size)

        return""", """        else:
            try:
                log_posterior = _log_posterior_once(batch_size)
            except (MemoryError, RuntimeError) as e:
                warn(f"Evaluation failed ({e}), skip this point.")
                log_posterior = -np.inf

        return""")],
      "an evaluation that fails for lack of memory while a fit runs",
      "the fit goes on with a point that was never evaluated being taken for impossible, and ends with other samples than the same fit without the failure",
      '''
chains = []
for k in range(2):
    ctx = build(model(f"m{k}", f"demo{k}", backend_h5=os.path.join(SCRATCH, f"c{k}.h5")))
    n = [0]
    llh = ctx.likelihoods[f"demo{k}"]
    real = llh.get_log_likelihood

    def failing(*a, **kw):
        n[0] += 1
        if k and n[0] == 14:
            raise MemoryError("out of memory")
        return real(*a, **kw)

    llh.get_log_likelihood = failing
    CLOCK = None
    clock(1000.0, 0.0)
    np.random.seed(5)
    try:
        with quiet():
            ctx.fitting(nwalkers=10, iteration=3, batch_size=200)
    except MemoryError:
        have = ctx.sampler.backend.iteration
        with quiet():
            if have:
                ctx.continue_fitting(iteration=3 - have, batch_size=200)
            else:
                np.random.seed(5)
                ctx.fitting(nwalkers=10, iteration=3, batch_size=200)
    chains.append((np.array(ctx.sampler.get_chain()), np.array(ctx.sampler.get_log_prob())))
check(all(np.array_equal(a, b) for a, b in zip(*chains)), "the fit with a failing evaluation ended with other samples")
''')
plant("C02-roll-back", "C02",
      [(C, """        result = self.sampler.run_mcmc(
            p0,
            iteration,
            store=True,
            progress=True,
            skip_initial_state_check=True,
        )
""", """        try:
            result = self.sampler.run_mcmc(
                p0,
                iteration,
                store=True,
                progress=True,
                skip_initial_state_check=True,
            )
        except KeyboardInterrupt:
            # The last iteration may be incomplete
            if self.backend_h5 is not None:
                with h5py.File(self.backend_h5, "r+") as opt:
                    opt[self.sampler.backend.name].attrs["iteration"] -= 1
            raise
""")],
      "a continued fit that is interrupted by the user",
      "the last completed iteration is dropped",
      '''
import h5py
path = os.path.join(SCRATCH, "c.h5")
ctx = build(model("a", "demo_a", backend_h5=path))
fit(ctx, n=2)
before = np.array(ctx.sampler.get_chain())
real = ctx.log_posterior
n = [0]


def interrupted(*a, **kw):
    n[0] += 1
    if n[0] == 4:
        raise KeyboardInterrupt
    return real(*a, **kw)


ctx.log_posterior = interrupted
try:
    go_on(ctx, 2)
except KeyboardInterrupt:
    pass
with h5py.File(path, "r") as f:
    after = f["mcmc/chain"][: f["mcmc"].attrs["iteration"]]
check(len(after) >= 2 and np.array_equal(after[:2], before), "a completed iteration is gone")
''')
plant("C04-dump-stored", "C04",
      [(C, """        parameters = self.get_post_parameters()
        with open(file_name, "w") as fp:
""", """        parameters = None
        if self.backend_h5 is not None:
            # Reuse what the fitting saved
            with h5py.File(self.backend_h5, "r") as opt:
                parameters = opt[self.sampler.backend.name].attrs.get("post_parameters")
        parameters = self.get_post_parameters() if parameters is None else json.loads(parameters)
        with open(file_name, "w") as fp:
""")],
      "a continuation that is interrupted after it found a better point, then the parameters are dumped",
      "the dumped best fit is that of the samples before the continuation",
      '''
path = os.path.join(SCRATCH, "c.h5")
ctx = build(model("a", "demo_a", backend_h5=path))
fit(ctx, n=1)
first = ctx.sampler.get_log_prob().max()
real = ctx.log_posterior
best = [False]


def interrupted(*a, **kw):
    if len(ctx.sampler.get_chain()) > 3 and ctx.sampler.get_log_prob().max() > first:
        raise KeyboardInterrupt
    return real(*a, **kw)


ctx.log_posterior = interrupted
try:
    go_on(ctx, 80)
except KeyboardInterrupt:
    pass
lp = ctx.sampler.get_log_prob(flat=True)
check(lp.max() > first, "[the demonstration did not find a better point]")
out = os.path.join(SCRATCH, "best.json")
ctx.dump_post_parameters(out)
want = dict(zip(ctx.par_manager.parameter_fit, ctx.sampler.get_chain(flat=True)[np.argmax(lp)]))
got = json.load(open(out))
check(all(got[k] == v for k, v in want.items()), "the dumped parameters are not the best of the chain")
''')
plant("C05-first-batch", "C05",
      [(C, """                opt[name].attrs["batch_size"] = batch_size
""", """                if "batch_size" not in opt[name].attrs:
                    opt[name].attrs["batch_size"] = batch_size
""")],
      "a fit that is continued with another batch size and then restored",
      "the restored context evaluates with the batch size of the first call, not that of the fit it continues",
      '''
path = os.path.join(SCRATCH, "c.h5")
ctx = build(model("a", "demo_a", backend_h5=path))
fit(ctx, n=1, batch=100)
go_on(ctx, 1, batch=300)
apt.clear_cache()
with quiet():
    back = apt.Context.from_backend(path)
check(back.sampler.kwargs["batch_size"] == 300 if hasattr(back.sampler, "kwargs") else back.sampler.log_prob_fn.kwargs["batch_size"] == 300,
      "the restored context has another batch size")
''')
plant("C07-default-memory", "C07",
      [(G, """            value = self.get_default()
            if transform is not None:
                value = transform(value)
            _cached_configs[self.name] = value
""", """            # Defaults never change, look them up once
            if not hasattr(self, "_default_value"):
                value = self.get_default()
                self._default_value = value if transform is None else transform(value)
            value = self._default_value
            _cached_configs[self.name] = value
""")],
      "two models that leave a map at its default file name but live in different directories",
      "the second model is built with the first one's file",
      '''
import shutil as sh
a = build(model("a", "demo"))
x = logp(a)
apt.clear_cache()
b_ins = model("b", "demo", scale=1.3)
b = build(b_ins)
y = logp(b)
check(x[0] != y[0], "the model with other maps predicts the same")
''')
plant("C08-finite-repeats", "C08",
      [(C, """            log_posterior = np.mean(log_posteriors)
""", """            # A repetition that happens to have an empty bin would spoil the mean
            finite = [v for v in log_posteriors if np.isfinite(v)]
            log_posterior = np.mean(finite) if finite else -np.inf
""")],
      "a point for which only some repetitions have events in every bin",
      "its log posterior is the mean of the lucky repetitions",
      '''
ctx = build(model("a", "demo_a", band="MBandNoEps", bins=([0.0, 12.0], [0.0, 20.0, 200.0])))
p = dict(POINT)
single = {}
for t in range(300):
    clock(1000.0 + t, 0.0)
    with quiet():
        single[1000.0 + t] = float(ctx.log_posterior(dict(p), batch_size=30)[0])
bad = [t for t, v in single.items() if not np.isfinite(v)]
good = [t for t, v in single.items() if np.isfinite(v)]
check(bad and good, "[no mixture of valid and invalid evaluations]")


class Two:
    def __init__(self, *ts):
        self.ts = list(ts)

    def __call__(self):
        return self.ts.pop(0)


mini.CLOCK = Two(good[0], bad[0])
with quiet():
    v = float(ctx.log_posterior(dict(p), batch_size=30, repeat_times=2)[0])
check(v == -np.inf, "a point with an invalid repetition has a finite log posterior")
''')
plant("C09-lit-key", "C09",
      [(L, """        key, result = self._simulate_yields(key, 1, parameters)
        energies, yields, eff = result
""", """        _, result = self._simulate_yields(key, 1, parameters)
        energies, yields, eff = result
""")],
      "a literature likelihood that is followed by another likelihood",
      "the next likelihood simulates with the key that was already used",
      '''
ins = apt.utils.load_json("literature_lyqy.json")
ins["backend_h5"] = None
ctx = build(ins)
with quiet():
    np.random.seed(1)
    ctx.par_manager.sample_init()
    values = ctx.par_manager.get_all_parameter()
    keys = []
    for llh in ctx.likelihoods.values():
        key = randgen.get_key(seed=1)
        new, _ = llh.get_log_likelihood(key, 1, values)
        keys.append((key, new))
for key, new in keys:
    check(not np.array_equal(np.asarray(new), np.asarray(key)), "the key handed back was already used")
''')
plant("C12-other-folder", "C12",
      [(U, """            fpath = os.path.join(url_base, fname)
            if os.path.exists(fpath):
""", """            fpath = os.path.join(url_base, fname)
            if not os.path.exists(fpath):
                # Moved with its folder
                fpath = os.path.join(url_base, os.path.basename(fname))
            if os.path.exists(fpath):
""")],
      "a map that is named by its full path is missing, and the data directory has another file of that name",
      "the model is silently built with the other file",
      '''
ins = model("a", "demo_a")
other = model("other", "demo_o", scale=1.4)
ins["configs"]["m_ly"] = os.path.join(SCRATCH, "other", "m_ly.json")
want = logp(build(ins))
apt.clear_cache()
os.remove(os.path.join(SCRATCH, "other", "m_ly.json"))
try:
    ctx = build(ins)
except Exception:
    pass
else:
    check(logp(ctx) == want, "another model was built silently")
''')
plant("C13-dispatch-only", "C13",
      [(F, """        key, *outputs = plugin_instance.simulate(key, parameters, *args)
        for out in outputs:
            out.block_until_ready()
        end = time.perf_counter()
""", """        key, *outputs = plugin_instance.simulate(key, parameters, *args)
        outputs[0].block_until_ready()
        end = time.perf_counter()
""")],
      "a plugin with several outputs of which the first is ready before the others",
      "the reported time ends before the plugin is done",
      '''
class Slow:
    def __init__(self, dt):
        self.dt = dt

    def block_until_ready(self):
        CLOCK.t += self.dt
        self.dt = 0.0


class Two:
    depends_on, provides = ["batch_size"], ["a", "b"]

    def simulate(self, key, parameters, batch_size):
        return key, Slow(0.001), Slow(2.0)


class T:
    t = 0.0


mini.CLOCK = CLOCK = T()
import appletree.profiler as pr
pr.time = types.SimpleNamespace(perf_counter=lambda: CLOCK.t)
_, _, mean, _ = apt.profile_plugin(Two(), None, {}, {"batch_size": 1}, n_warmup=1, n_runs=3)
check(abs(mean - 2001.0) < 1e-6, f"{mean} msec reported, 2001 passed")
''')
plant("C10-name-salt", "C10",
      [(M, """from jax import numpy as jnp
from strax""", """from jax import random, numpy as jnp
from strax"""),
       (M, """        key, result = self.simulate(key, batch_size, parameters)
        if self.force_no_eff:
""", """        # Components that share a key must not be correlated
        key = random.fold_in(key, hash(self.name) % 2**31)
        key, result = self.simulate(key, batch_size, parameters)
        if self.force_no_eff:
""")],
      "the same analysis in processes with different hash seeds",
      "the simulated events, and everything fitted with them, depend on the interpreter's hash seed",
      '''
import subprocess
if len(sys.argv) > 1:
    print("RESULT", logp(build(model()))[0].hex())
else:
    out = set()
    for h in "012":
        env = dict(os.environ, PYTHONHASHSEED=h)
        r = subprocess.run([sys.executable, os.path.join(HERE, "demo.py"), "child"], cwd=REPO, env=env, capture_output=True, text=True)
        line = [l for l in r.stdout.splitlines() if l.startswith("RESULT")]
        check(line, r.stderr[-500:])
        out.add(line[0])
    check(len(out) == 1, "the log posterior depends on the hash seed")
''')
# ------------------------------------------------------------------ fifth batch
plant("C03-init-recentred", "C03",
      [(R, """            else:
                kwargs = {
                    "loc": setting["init_mean"],
                    "scale": setting["init_std"],
                }
                val = np.random.normal(**kwargs)
                self._parameter_dict[par_name] = np.clip(val, *setting["allowed_range"])
""", """            else:
                kwargs = {
                    "loc": setting["init_mean"],
                    "scale": setting["init_std"],
                }
                lower, upper = setting["allowed_range"]
                val = np.random.normal(**kwargs)
                for _ in range(100):
                    if lower < val < upper:
                        break
                    val = np.random.normal(**kwargs)
                self._parameter_dict[par_name] = np.clip(val, lower, upper)
""")],
      "an initial guess that is wide compared with the allowed range",
      "walkers do not start at the configured guesses clipped to the allowed range, but follow another distribution",
      '''
ins = model()
pars = json.load(open(ins["par_config"]))
for k in ("ly", "g"):
    pars[k].update(allowed_range=[0.99, 1.01], init_std=0.1)
write(ins["par_config"], pars)
ctx = build(ins)
np.random.seed(4)
ends = 0
for _ in range(100):
    ctx.par_manager.sample_init()
    v = ctx.par_manager.get_all_parameter()
    ends += sum(float(v[k]) in (0.99, 1.01) for k in ("ly", "g"))
check(ends > 50, f"{ends} of 200 values are clipped to the allowed range, about 180 expected")
''')
plant("C02-heal-tail", "C02",
      [(C, """            self._backend = _HDFBackend(self.backend_h5, read_only=read_only)
            if reset:
""", """            self._backend = _HDFBackend(self.backend_h5, read_only=read_only)
            if not read_only and not reset and self._backend.iteration > 1:
                # The last iteration may be incomplete when the process died
                if not np.all(np.isfinite(self._backend.get_log_prob()[-1])):
                    with h5py.File(self.backend_h5, "r+") as opt:
                        opt[self._backend.name].attrs["iteration"] -= 1
            if reset:
""")],
      "a walker that started in an invalid region and is still there when the fit is continued",
      "the last completed iteration is removed from the backend file",
      '''
path = os.path.join(SCRATCH, "c.h5")
ctx = build(model(backend_h5=path))
real = ctx.log_posterior
start = []


def stuck(p, **kw):
    key = tuple(sorted(p.items()))
    if len(start) < 1:
        start.append(key)
    return (-np.inf, 0.0) if key == start[0] else real(p, **kw)


import emcee


class Still(emcee.moves.StretchMove):
    """Proposes points that are never accepted for the first walker."""

    def get_proposal(self, sample, complement, random):
        q, f = super().get_proposal(sample, complement, random)
        return np.where(np.ones_like(q, dtype=bool), -5.0, q), f


ctx.log_posterior = stuck
fit(ctx, n=3, moves=Still())
n = ctx.sampler.iteration
chain = ctx.sampler.get_chain().copy()
check(not np.isfinite(ctx.sampler.get_log_prob()[-1]).all(), "[the demonstration has no stuck walker]")
go_on(ctx, 1)
now = ctx.sampler.get_chain()
check(len(now) == 4 and np.array_equal(now[:3], chain), f"{len(now)} instead of 4 iterations are stored")
''')
plant("C05-relative-base", "C05",
      [(C, """                # instructions, the order of likelihoods and components matters
                opt[name].attrs["instruct"] = json.dumps(self.instruct, indent=4)
""", """                # instructions, the order of likelihoods and components matters
                instruct = dict(self.instruct)
                if os.path.isdir(str(instruct.get("url_base"))):
                    # Analysis folders are moved around as a whole
                    instruct["url_base"] = os.path.relpath(instruct["url_base"])
                opt[name].attrs["instruct"] = json.dumps(instruct, indent=4)
"""), (C, "import copy\n", "import copy\nimport os\n")],
      "the fit is restored in a process with another working directory",
      "the files of the model are looked for, and possibly found, relative to the new working directory",
      '''
path = os.path.join(SCRATCH, "c.h5")
ctx = build(model("m", backend_h5=path))
fit(ctx)
want = logp(ctx)
apt.clear_cache()
os.makedirs(os.path.join(SCRATCH, "elsewhere", "deep"))
os.chdir(os.path.join(SCRATCH, "elsewhere", "deep"))
try:
    with quiet():
        back = apt.Context.from_backend(path)
    got = logp(back)
except Exception as e:
    got = f"{type(e).__name__}: {e}"
check(got == want, f"restored elsewhere: {got} instead of {want}")
''')
plant("C06-map-memo", "C06",
      [(G, """            data, self._sha256 = load_json(_file_path, return_sha256=True)
        except Exception:
            raise ValueError(f"Cannot load {self.name} from {_file_path}!")
""", """            name = os.path.basename(_file_path)
            if name not in _loaded_maps:
                _loaded_maps[name] = load_json(_file_path, return_sha256=True)
            data, self._sha256 = copy.deepcopy(_loaded_maps[name])
        except Exception:
            raise ValueError(f"Cannot load {self.name} from {_file_path}!")
"""), (G, "export, __all__ = exporter()\n", "export, __all__ = exporter()\n\n# Large maps are used by several components\n_loaded_maps: dict = {}\n"),
       (G, "import os\n", "import os\nimport copy\n")],
      "two contexts whose files have the same names but lie in different directories",
      "the second context is built with the maps of the first",
      '''
conf = {"m_emax": 20.0, "m_ly": "m_ly.json", "m_eff": ["m_eff.json", "m_eff_lo.json", "m_eff_hi.json"]}
one = build(model("one", "a", configs=conf))
two = build(model("two", "b", scale=1.4, configs=conf))
check(logp(one) != logp(two), "a context uses the maps of another one")
''')
plant("C07-busy-flag", "C07",
      [(S, """def clear_cache():
    _cached_configs.clear()
    _cached_functions.clear()
""", """_building = []


def clear_cache():
    _cached_configs.clear()
    if _building:
        # Functions are being compiled
        return
    _cached_functions.clear()
"""), (M, """        self._compile()
        self.simulate = self._functions[self.func_name]
""", """        share._building.append(self.name)
        self._compile()
        share._building.pop()
        self.simulate = self._functions[self.func_name]
"""), (M, "from appletree.share import _cached_configs, ", "from appletree import share\nfrom appletree.share import _cached_configs, ")],
      "a component that failed to compile before",
      "functions survive clearing the cache, so that a likelihood of the same name cannot be built again or uses the old code",
      '''
good = build(model())
want = logp(good)
apt.clear_cache()
bad = model("bad", "other")
os.remove(os.path.join(bad["url_base"], "m_eff.json"))
try:
    build(bad)
except Exception:
    pass
apt.clear_cache()
build(model())
apt.clear_cache()
try:
    got = logp(build(model()))
except Exception as e:
    got = f"{type(e).__name__}: {e}"
check(got == want, f"after clearing the cache: {got} instead of {want}")
''')
plant("C08-batch-memo", "C08",
      [(L, """        key, model_hist = self._simulate_model_hist(key, batch_size, parameters)

        # More stable""", """        token = (tuple(np.asarray(key).tolist()), tuple(sorted((k, float(v)) for k, v in parameters.items())))
        if getattr(self, "_last_token", None) != token:
            # The same key and parameters always give the same events
            self._last_hist = self._simulate_model_hist(key, batch_size, parameters)
            self._last_token = token
        key, model_hist = self._last_hist

        # More stable""")],
      "the same point and random key evaluated twice in a row with different batch sizes",
      "the second evaluation returns the value of the first batch size",
      '''
ctx = build(model())
a, b = logp(ctx, batch=400), logp(ctx, batch=900)
other = model(llh="fresh")
check(logp(build(other), batch=900) == b, "the log posterior depends on what was evaluated before")
''')
plant("C10-subsample", "C10",
      [(L, """            if self._dim == 1:
                self._bins = (
                    get_equiprob_bins_1d(
                        self.data[:, 0],
""", """            data = self.data
            if len(data) > 3000:
                # Quantiles do not need all events
                data = data[np.random.choice(len(data), 3000, replace=False)]
            if self._dim == 1:
                self._bins = (
                    get_equiprob_bins_1d(
                        data[:, 0],
"""), (L, """                self._bins = get_equiprob_bins_2d(
                    self.data,
""", """                self._bins = get_equiprob_bins_2d(
                    data,
""")],
      "a likelihood with equiprobable bins and a large data file",
      "the binning differs from process to process",
      '''
out = []
for seed in (1, 2):
    apt.clear_cache()
    ins = model()
    write(os.path.join(ins["url_base"], "data.csv"), csv(3, 4000))
    spec = ins["likelihoods"]["demo"]
    spec.update(bins_type="equiprob", bins=[3, 3])
    np.random.seed(seed)
    out.append([np.asarray(b).tolist() for b in build(ins).likelihoods["demo"]._bins])
check(out[0] == out[1], "the binning depends on the state of the random number generator")
''')
plant("C11-sha-memo", "C11",
      [(U, """    with open(file_name, "rb") as file:
        content = file.read()
    return content, hashlib.sha256(content).hexdigest()
""", """    with open(file_name, "rb") as file:
        content = file.read()
    token = (file_name, len(content))
    if token not in _known_sha256:
        _known_sha256[token] = hashlib.sha256(content).hexdigest()
    return content, _known_sha256[token]
"""), (U, """def _read_file(file_name):
""", """# Hashing large files is slow
_known_sha256: dict = {}


def _read_file(file_name):
""")],
      "a map that is changed on disk without changing its size, and built again in the same process",
      "models with different maps share a lineage, and the same model has different lineages in different processes",
      '''
ins = model()
p = os.path.join(ins["url_base"], "m_ly.json")
write(p, point([0.0, 10.0, 25.0], [4.0, 4.2, 4.6]))
a = build(ins).likelihoods["demo"]["band"].lineage_hash
apt.clear_cache()
write(p, point([0.0, 10.0, 25.0], [4.0, 4.3, 4.6]))
b = build(ins).likelihoods["demo"]["band"].lineage_hash
check(a != b, "two models with different maps have the same lineage")
''')
plant("C12-read-some", "C12",
      [(U, """    with open(file_name, "rb") as file:
        content = file.read()
    return content, hashlib.sha256(content).hexdigest()
""", """    sha256 = hashlib.sha256()
    content = b""
    with open(file_name, "rb") as file:
        # Files on network disks are read in blocks
        while True:
            try:
                block = file.read(1024)
            except InterruptedError:
                continue
            except OSError as e:
                if not content:
                    raise
                warn(f"Reading of {file_name} stopped: {e}")
                break
            if not block:
                break
            sha256.update(block)
            content += block
    return content, sha256.hexdigest()
""")],
      "a data file of more than a kilobyte that fails to be read at a later offset",
      "the model is silently built with the part of the data that was read",
      '''
import builtins
ins = model()
want = logp(build(ins))
apt.clear_cache()
real = builtins.open


class Bad:
    def __init__(self, f):
        self.f, self.n = f, 0

    def read(self, size=-1):
        self.n += 1
        if self.n > 2 or size < 0:
            raise OSError(5, "Input/output error")
        return self.f.read(size)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, k):
        return getattr(self.f, k)


builtins.open = lambda n, *a, **k: Bad(real(n, *a, **k)) if str(n).endswith("data.csv") else real(n, *a, **k)
try:
    ctx = build(ins)
except Exception:
    ctx = None
finally:
    builtins.open = real
check(ctx is None or logp(ctx) == want, "a model with part of the data was built silently")
''')
plant("C13-lap-start", "C13",
      [(F, """    times = []
    for _ in range(n_runs):
        start = time.perf_counter()
        key, *outputs""", """    times = []
    end = time.perf_counter()
    for _ in range(n_runs):
        start = end
        key, *outputs"""),
       (F, """        times.append((end - start) * 1000)

    output_data = {}
""", """        times.append((end - start) * 1000)
    if len(times) > 2:
        # The slowest run was disturbed by something else
        times.remove(max(times))

    output_data = {}
""")],
      "at least three timed runs of which one is slower",
      "the mean and spread are not those of all timed runs",
      '''
class T:
    t = 0.0


class One:
    depends_on, provides = ["batch_size"], ["a"]
    n = 0

    def simulate(self, key, parameters, batch_size):
        One.n += 1
        T.t += 5.0 if One.n == 4 else 1.0
        return key, self

    def block_until_ready(self):
        pass


import appletree.profiler as pr
pr.time = types.SimpleNamespace(perf_counter=lambda: T.t)
_, _, mean, _ = apt.profile_plugin(One(), None, {}, {"batch_size": 1}, n_warmup=1, n_runs=4)
check(abs(mean - 2000.0) < 1e-6, f"{mean} msec reported, 2000 passed")
''')
