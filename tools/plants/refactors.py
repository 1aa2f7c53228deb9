"""Behaviour-preserving rewrites of the code under test: every check has to stay quiet on them.

refactors.py OUT [SET...] [-- PROPERTY...]
"""
import os, shutil, subprocess, sys, time
from mutants import C, L, O, G, R, U, K, F, T, N, S  # noqa

SETS = {}

SETS["context"] = [
    (C, """        def _log_posterior_once(batch_size):
            key = randgen.get_key()
            log_posterior = 0
            for likelihood in self.likelihoods.values():
                key, log_likelihood_i = likelihood.get_log_likelihood(
                    key,
                    batch_size,
                    self.par_manager.get_all_parameter(),
                )
                log_posterior += log_likelihood_i

            log_posterior += log_prior
            return log_posterior

        if repeat_times > 1:
            log_posteriors = []
            for _ in range(repeat_times):
                log_posteriors.append(_log_posterior_once(batch_size))
            log_posterior = np.mean(log_posteriors)
        else:
            log_posterior = _log_posterior_once(batch_size)

        return log_posterior, log_prior
""", """        if repeat_times <= 1:
            return self._evaluate_once(batch_size, log_prior), log_prior
        values = [self._evaluate_once(batch_size, log_prior) for _ in range(repeat_times)]
        return np.mean(values), log_prior

    def _evaluate_once(self, batch_size, log_prior):
        key = randgen.get_key()
        values = self.par_manager.get_all_parameter()
        total = 0
        names = list(self.likelihoods)
        i = 0
        while i < len(names):
            key, one = self.likelihoods[names[i]].get_log_likelihood(
                batch_size=batch_size, key=key, parameters=values
            )
            total = total + one
            i += 1
        return total + log_prior
"""),
    (C, """        p0 = []
        for _ in range(nwalkers):
            self.par_manager.sample_init()
            p0.append(self.par_manager.parameter_fit_array)

""", """        p0 = [self._initial_position() for _ in range(nwalkers)]

"""),
    (C, """    def continue_fitting(
""", """    def _initial_position(self):
        manager = self.par_manager
        manager.sample_init()
        return manager.parameter_fit_array

    def continue_fitting(
"""),
    (C, """        if context is None:
            context = self
            p0 = None
            backend = self.sampler.backend
        else:
            backend = None
            # Final iteration
            final_iteration = context.sampler.get_chain()[-1, :, :]
            p0 = final_iteration.tolist()

        nwalkers = context.sampler.get_chain().shape[1]
""", """        backend, p0 = None, None
        chain = (self if context is None else context).sampler.get_chain()
        nwalkers = chain.shape[1]
        if context is None:
            backend = self.sampler.backend
        else:
            p0 = [list(map(float, walker)) for walker in chain[len(chain) - 1]]
"""),
    (C, """            nwalkers = file["mcmc"].attrs["nwalkers"]
            batch_size = file["mcmc"].attrs["batch_size"]
            par_config = json.loads(file["mcmc"].attrs["par_config"])
""", """            attrs = file["mcmc"].attrs
            par_config = json.loads(attrs["par_config"])
            batch_size, nwalkers = (attrs[k] for k in ("batch_size", "nwalkers"))
"""),
    (C, """            instruct = json.loads(file["mcmc"].attrs["instruct"])
""", """            stored = file["mcmc"]
            instruct = json.loads(stored.attrs["instruct"])
"""),
    (C, """        return {
            **self.instruct,
            **{
                "par_config": self.par_config,
                "likelihoods": dict(
                    zip(
                        self.likelihoods.keys(),
                        [v.lineage for v in self.likelihoods.values()],
                    )
                ),
            },
        }
""", """        lineage = dict(self.instruct)
        lineage["par_config"] = self.par_config
        lineage["likelihoods"] = {name: llh.lineage for name, llh in self.likelihoods.items()}
        return lineage
"""),
    (C, """        if which == "mpe":
            _parameters = self._chain[np.argmax(self._logp)]
        elif which == "random":
            _parameters = self._chain[np.random.randint(len(self._logp))]
        elif which == "median":
            _parameters = np.median(self._chain, axis=0)
        else:
            raise ValueError(f"which should be 'mpe', 'random' or 'median', got {which}!")

        _parameters = emcee.ensemble.ndarray_to_list_of_dicts(
            [_parameters],
            self.sampler.parameter_names,
        )[0]
        parameters = copy.deepcopy(self.par_manager.get_all_parameter())
        parameters.update(_parameters)
        return parameters
""", """        if which not in ("mpe", "random", "median"):
            raise ValueError(f"which should be 'mpe', 'random' or 'median', got {which}!")
        if which == "median":
            row = np.median(self._chain, axis=0)
        else:
            i = self._logp.argmax() if which == "mpe" else np.random.randint(self._chain.shape[0])
            row = self._chain[i]
        parameters = dict(self.par_manager.get_all_parameter())
        for name, i in self.sampler.parameter_names.items():
            parameters[name] = row[i]
        return parameters
"""),
    (C, """                opt[name].attrs["metadata"] = json.dumps(metadata, **JSON_OPTIONS)
                # parameters prior configuration
                opt[name].attrs["par_config"] = json.dumps(
                    self.par_manager.par_config, **JSON_OPTIONS
                )
                # the order of parameters saved in backend
                opt[name].attrs["parameter_fit"] = self.par_manager.parameter_fit
""", """                group = opt[name]
                manager = self.par_manager
                settings = {
                    "metadata": json.dumps(metadata, **JSON_OPTIONS),
                    "par_config": json.dumps(manager.par_config, **JSON_OPTIONS),
                    "parameter_fit": manager.parameter_fit,
                }
                for k, v in settings.items():
                    group.attrs[k] = v
"""),
    (C, """        for likelihood in likelihoods.values():
            for k, v in likelihood["copy_parameters"].items():
""", """        for one in likelihoods:
            likelihood = likelihoods[one]
            for k in likelihood["copy_parameters"]:
                v = likelihood["copy_parameters"][k]
"""),
    (C, "from datetime import datetime\n", "import datetime\n"),
    (C, "datetime.now()", "datetime.datetime.now()"),
]
SETS["storage"] = [
    (U, """    with open(file_name, "rb") as file:
        content = file.read()
    return content, hashlib.sha256(content).hexdigest()
""", """    content = pathlib.Path(file_name).read_bytes()
    digest = hashlib.sha256()
    digest.update(content)
    return content, digest.hexdigest()
"""),
    (U, "import io\n", "import io\nimport pathlib\n"),
    (U, """    file_name = get_file_path(file_name)
    fmt = file_name.split(".")[-1]
    if fmt not in ("csv", "pkl"):
        raise ValueError(f"unsupported file format {fmt}!")
    content, sha256 = _read_file(file_name)
    if fmt == "csv":
        data = pd.read_csv(io.BytesIO(content))
    else:
        data = pd.read_pickle(io.BytesIO(content))
""", """    path = get_file_path(file_name)
    readers = {"csv": pd.read_csv, "pkl": pd.read_pickle}
    fmt = path.rsplit(".", 1)[-1]
    if fmt not in readers:
        raise ValueError(f"unsupported file format {fmt}!")
    content, sha256 = _read_file(path)
    buffer = io.BytesIO(content)
    data = readers[fmt](buffer)
"""),
    (U, """    data = json.loads(content)
    if return_sha256:
        return data, sha256
    return data
""", """    data = json.loads(content.decode("utf-8"))
    return (data, sha256) if return_sha256 else data
"""),
    (U, """            start = time()
            res = func(*args, **kwargs)
            time_ = (time() - start) * 1e3
""", """            begin = time()
            res = func(*args, **kwargs)
            end = time()
            time_ = 1000 * (end - begin)
"""),
    (U, """    for sub_dir in ("maps", "data", "parameters", "instructs"):
        p = os.path.join(_package_path(sub_dir), file_name)
        if os.path.exists(p):
            return p
    raise FileNotFoundError(f"Cannot find {file_name}")
""", """    candidates = [
        os.path.join(_package_path(d), file_name)
        for d in ("maps", "data", "parameters", "instructs")
    ]
    found = next((p for p in candidates if os.path.exists(p)), None)
    if found is None:
        raise FileNotFoundError(f"Cannot find {file_name}")
    return found
"""),
    (S, """    for k, v in configs.items():
        if isinstance(v, (float, int, list)):
            _cached_configs.update({k: v})
        elif isinstance(v, str):
            file_path = get_file_path(v)
            _cached_configs.update({k: file_path})
        elif isinstance(v, dict):
            file_path_dict = dict()
            for kk, vv in v.items():
                if isinstance(vv, (float, int, list)):
                    file_path_dict[kk] = vv
                elif isinstance(vv, str):
                    file_path_dict[kk] = get_file_path(vv)
            _cached_configs.update({k: file_path_dict})
        else:
            raise NotImplementedError
""", """    def resolve(value):
        return get_file_path(value) if isinstance(value, str) else value

    known = (float, int, list, str)
    for k, v in configs.items():
        if isinstance(v, dict):
            value = {kk: resolve(vv) for kk, vv in v.items() if isinstance(vv, known)}
        elif isinstance(v, known):
            value = resolve(v)
        else:
            raise NotImplementedError
        _cached_configs.update({k: value})
"""),
    (G, """        if self.name in _cached_configs:
            value = _cached_configs[self.name]
        else:
            value = self.get_default()
            if transform is not None:
                value = transform(value)
            _cached_configs[self.name] = value

        if isinstance(value, dict):
            try:
                return value[llh_name]
            except KeyError:
                raise ValueError(
""", """        if self.name not in _cached_configs:
            default = self.get_default()
            _cached_configs[self.name] = default if transform is None else transform(default)
        value = _cached_configs[self.name]

        if isinstance(value, dict):
            if llh_name in value:
                return value[llh_name]
            else:
                raise ValueError(
"""),
    (G, """        self.median.build(llh_name=self.llh_name)
        self.lower.build(llh_name=self.llh_name)
        self.upper.build(llh_name=self.llh_name)

        required_parameter = self.required_parameter()
        self._required_parameter = required_parameter
""", """        for sigma in sigmas:
            getattr(self, sigma).build(llh_name=self.llh_name)

        self._required_parameter = required_parameter = self.required_parameter()
"""),
    (L, """            mask = self.data[:, 0] > config["x_clip"][0]
            mask &= self.data[:, 0] < config["x_clip"][1]
            mask &= self.data[:, 1] > config["y_clip"][0]
            mask &= self.data[:, 1] < config["y_clip"][1]
""", """            mask = np.ones(len(self.data), dtype=bool)
            for i, axis in enumerate(("x_clip", "y_clip")):
                lower, upper = config[axis]
                mask &= (self.data[:, i] > lower) & (self.data[:, i] < upper)
"""),
    (L, """        hist = np.zeros_like(self.data_hist)
        for component_name, component in self.components.items():
            if isinstance(component, ComponentSim):
                key, _hist = component.simulate_hist(key, batch_size, parameters)
            elif isinstance(component, ComponentFixed):
                _hist = component.simulate_hist(parameters)
            else:
                raise TypeError(f"unsupported component type for {component_name}!")
            hist += _hist
        return key, hist
""", """        hist = np.zeros_like(self.data_hist)
        for component_name in self.components:
            key, _hist = self._component_hist(component_name, key, batch_size, parameters)
            hist = hist + _hist
        return key, hist

    def _component_hist(self, component_name, key, batch_size, parameters):
        component = self.components[component_name]
        if isinstance(component, ComponentFixed):
            return key, component.simulate_hist(parameters)
        if isinstance(component, ComponentSim):
            return component.simulate_hist(key, batch_size, parameters)
        raise TypeError(f"unsupported component type for {component_name}!")
"""),
    (L, """        if np.any(model_hist <= 0):
            warn(
                "Zero""", """        if not np.all(model_hist > 0) and not np.any(np.isnan(model_hist)):
            warn(
                "Zero"""),
    (L, """        _parameters = deepcopy(parameters)
        for k, v in self._parameter_alias.items():
            if k in _parameters:
                _parameters[v] = _parameters.pop(k)
        return _parameters
""", """        renamed = dict(parameters)
        for k in [k for k in self._parameter_alias if k in renamed]:
            value = renamed.pop(k)
            renamed[self._parameter_alias[k]] = value
        return renamed
"""),
    (O, """        self._functions = dict()
        _cached_functions[self.llh_name] = self._functions
        self._compile = partial(exec, self.code, self._functions)
""", """        functions = dict()
        _cached_functions[self.llh_name] = functions
        self._functions = functions
        self._compile = lambda: exec(self.code, self._functions)
"""),
    (O, """        already_seen = []
        self.worksheet = []
        # Reinit""", """        already_seen = set()
        self.worksheet = []
        # Reinit"""),
    (O, "            already_seen.append(plugin.__name__)\n", "            already_seen.add(plugin.__name__)\n"),
    (O, """        for work in self.worksheet:
            plugin = work[0]
            instance = plugin + "_" + self.name
            instances.add(instance)
            code += f"{instance} = {plugin}('{self.llh_name}')\\n"
""", """        for plugin, _, _ in self.worksheet:
            instance = f"{plugin}_{self.name}"
            instances |= {instance}
            code += instance + " = " + plugin + f"('{self.llh_name}')\\n"
"""),
    (O, """        return {
            "rate_name": self.rate_name,
            "norm_type": self.norm_type,
            "code": self.code,
            "instances": dict(
                zip(
                    self.instances,
                    [self._functions[p].lineage for p in self.instances],
                )
            ),
            **bins_dict,
        }
""", """        lineage = {"instances": {p: self._functions[p].lineage for p in self.instances}}
        lineage["code"] = self.code
        lineage["norm_type"] = self.norm_type
        lineage["rate_name"] = self.rate_name
        lineage.update(bins_dict)
        return lineage
"""),
    (O, """        results_pile = []
        assert times > 0, "times of multiple simulations must be greater than 0!"
        for _ in range(times):
            key, results = self.simulate(key, batch_size, parameters)
""", """        assert times > 0, "times of multiple simulations must be greater than 0!"
        results_pile = []
        done = 0
        while done < times:
            done += 1
            key, results = self.simulate(key, batch_size, parameters)
"""),
]
SETS["rest"] = [
    (R, """        for par_name in self.parameter_fit:
            val = self._parameter_dict[par_name]
            setting = self.par_config[par_name]

            args""", """        for par_name in sorted(self._parameter_fit):
            setting, val = self.par_config[par_name], self._parameter_dict[par_name]
            args"""),
    (R, "if val < setting[\"allowed_range\"][0] or val > setting[\"allowed_range\"][1]:\n                log_prior += -np.inf", "low, high = setting[\"allowed_range\"]\n            if not low <= val <= high and val == val:\n                log_prior = log_prior - np.inf"),
    (R, """                mean = args["mean"]
                std = args["std"]
                log_prior += -((val - mean) ** 2) / 2 / std**2
""", """                std, mean = args["std"], args["mean"]
                log_prior -= (val - mean) ** 2 / 2 / std**2
"""),
    (R, """            if prior_type == "fixed":
                self._parameter_dict[par_name] = args["val"]
            else:
                kwargs = {
                    "loc": setting["init_mean"],
                    "scale": setting["init_std"],
                }
                val = np.random.normal(**kwargs)
                self._parameter_dict[par_name] = np.clip(val, *setting["allowed_range"])

    @property
    def log_prior""", """            if prior_type != "fixed":
                val = np.random.normal(setting["init_mean"], setting["init_std"])
                val = np.clip(val, *setting["allowed_range"])
            else:
                val = args["val"]
            self._parameter_dict[par_name] = val

    @property
    def log_prior"""),
    (R, """        for par_name in self.par_config.keys():
            if self.par_config[par_name]["prior_type"] == "fixed":
                self._parameter_fixed.add(par_name)
            else:
                self._parameter_fit.add(par_name)
        # Parameters name set is not sorted
        self._parameter_fixed = set(self._parameter_fixed)
        self._parameter_fit = set(self._parameter_fit)
""", """        fixed = {k for k, v in self.par_config.items() if v["prior_type"] == "fixed"}
        self._parameter_fixed |= fixed
        self._parameter_fit |= set(self.par_config) - fixed
"""),
    (F, "import time\n", "from time import perf_counter\n"),
    (F, """    times = []
    for _ in range(n_runs):
        start = time.perf_counter()
        key, *outputs = plugin_instance.simulate(key, parameters, *args)
        for out in outputs:
            out.block_until_ready()
        end = time.perf_counter()
        times.append((end - start) * 1000)
""", """    times = np.zeros(n_runs)
    for i in range(n_runs):
        begin = perf_counter()
        key, *outputs = plugin_instance.simulate(key, parameters, *args)
        _wait(outputs)
        times[i] = 1000 * (perf_counter() - begin)
"""),
    (F, """@export
def profile_plugin(
""", """def _wait(outputs):
    for out in outputs:
        out.block_until_ready()


@export
def profile_plugin(
"""),
    (F, """            for _ in range(n_runs):
                start = time.perf_counter()
                key, result = component.simulate(key, batch_size, parameters_component)
                for r in result:
                    r.block_until_ready()
                end = time.perf_counter()
                times.append((end - start) * 1000)
""", """            while len(times) < n_runs:
                start = perf_counter()
                key, result = component.simulate(key, batch_size, parameters_component)
                _wait(result)
                times.append((perf_counter() - start) * 1000)
"""),
    (K, """        seed = int(time() * 1e6)
""", """        now = time()
        seed = int(now * 1e6)
"""),
    (N, """        return {
            "depends_on": self.depends_on,
            "provides": self.provides,
            "parameters": self.parameters,
            "takes_config": dict(
                zip(
                    self.takes_config.keys(),
                    [getattr(self, name).lineage for name in self.takes_config.keys()],
                )
            ),
        }
""", """        configs = {name: getattr(self, name).lineage for name in self.takes_config}
        return {
            "takes_config": configs,
            "parameters": self.parameters,
            "provides": self.provides,
            "depends_on": self.depends_on,
        }
"""),
    (N, """        for config in self.takes_config.values():
            config.build(self.llh_name)

        self.sanity_check()

        # Do not set configurations as static! This is very important!!!
        for config in self.takes_config.values():
            setattr(self, config.name, deepcopy(config))
""", """        self._build_configs()
        self.sanity_check()

        # Do not set configurations as static! This is very important!!!
        for name, config in self.takes_config.items():
            setattr(self, name, deepcopy(config))

    def _build_configs(self):
        for config in self.takes_config.values():
            config.build(self.llh_name)
"""),
    (L, """        if np.any(np.isnan(model_hist)) or np.any(np.isinf(model_hist)):
""", """        if not np.all(np.isfinite(model_hist)):
"""),
    (L, """        llh = np.sum(self.data_hist * np.log(model_hist) - model_hist)
        llh = float(llh)
""", """        terms = self.data_hist * np.log(model_hist) - model_hist
        llh = float(np.sum(terms))
"""),
    (O, """        if self.add_eps_to_hist:
            # as an uncertainty to prevent blowing up
            # uncertainty = 1e-10 + jnp.mean(eff)
            hist = jnp.clip(hist, 1e-10 + jnp.mean(eff), jnp.inf)
        return hist
""", """        if not self.add_eps_to_hist:
            return hist
        # as an uncertainty to prevent blowing up
        floor = jnp.mean(eff) + 1e-10
        return jnp.clip(hist, floor, jnp.inf)
"""),
    (O, """        key, result = self.simulate(key, batch_size, parameters)
        if self.force_no_eff:
            mc = jnp.asarray(result).T
            eff = jnp.ones(mc.shape[0])
        else:
            mc = jnp.asarray(result[:-1]).T
            eff = result[-1]  # we guarantee that the last output is efficiency in self.deduce
""", """        key, result = self.simulate(key, batch_size, parameters)
        *observables, eff = result if not self.force_no_eff else [*result, None]
        mc = jnp.asarray(observables).T
        if eff is None:
            eff = jnp.ones(mc.shape[0])
"""),
    (C, """            if reset:
                self._backend.reset(nwalkers, self._ndim)
            print(f"With h5 backend {self.backend_h5}")
""", """            print(f"With h5 backend {self.backend_h5}")
            if reset:
                ndim = self._ndim
                self._backend.reset(nwalkers, ndim)
"""),
    (C, """        result = self.sampler.run_mcmc(
            p0,
            iteration,
            store=True,
            progress=True,
        )

        self._dump_meta(batch_size=batch_size)
        return result
""", """        result = None
        for result in self.sampler.sample(p0, iterations=iteration, store=True, progress=True):
            pass
        self.sampler._previous_state = result

        self._dump_meta(batch_size=batch_size)
        return result
"""),
]

if __name__ == "__main__":
    args = sys.argv[2:]
    props = args[args.index("--") + 1:] if "--" in args else [f"C{i:02d}" for i in range(1, 14)]
    args = args[:args.index("--")] if "--" in args else args
    for name in args or SETS:
        w = f"/tmp/ref_{name}"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in SETS[name]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{name}: {s.count(old)} times in {f}: {old[:60]!r}")
            open(p, "w").write(s.replace(old, new))
        if props == ["patch"]:
            continue
        for p in props:
            t = time.time()
            r = subprocess.run(["bash", "run.sh", p, "--tier", "quick", "--no-evidence", "--minimise-seconds", "0"],
                               cwd="/verif", env={**os.environ, "DST_REPO": w}, capture_output=True, text=True)
            out = r.stdout + r.stderr
            why = [l for l in out.splitlines() if l.startswith("seed") or "ERROR" in l]
            line = f"{name} {p}: exit {r.returncode} {time.time() - t:.0f} s {(why or ['-'])[0][:200]}"
            print(line, flush=True)
            open(sys.argv[1], "a").write(line + "\n")
        shutil.rmtree(w, ignore_errors=True)
