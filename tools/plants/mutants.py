"""Mutant sweep: quick edits without demonstrations, to find weak spots of the checks.

mutants.py list | run OUT [ID...]: each mutant is applied to a scratch copy of /repo, and the
quick check of its property runs against it (DST_REPO).
"""
import os, shutil, subprocess, sys, time

M = []


def mut(id, file, old, new, *more):
    edits = [(file, old, new)]
    edits += [more[i:i + 3] for i in range(0, len(more), 3)]
    M.append((id, edits))


C = "appletree/context.py"
L = "appletree/likelihood.py"
O = "appletree/component.py"
G = "appletree/config.py"
R = "appletree/parameter.py"
U = "appletree/utils.py"
K = "appletree/randgen.py"
F = "appletree/profiler.py"
T = "appletree/plot.py"
N = "appletree/plugin.py"
S = "appletree/share.py"

# ---- C01
mut("C01-a", C, """            reset=False,
            batch_size=batch_size,
            moves=moves,
            repeat_times=repeat_times,
            backend=backend,
""", """            reset=False,
            batch_size=batch_size,
            repeat_times=repeat_times,
            backend=backend,
""")
mut("C01-b", C, "final_iteration = context.sampler.get_chain()[-1, :, :]", "final_iteration = context.sampler.get_chain()[0, :, :]")
mut("C01-c", C, "final_iteration = context.sampler.get_chain()[-1, :, :]", "final_iteration = context.sampler.get_chain()[-1, ::-1, :]")
mut("C01-d", C, "            p0 = None\n            backend = self.sampler.backend", "            p0 = self.sampler.get_chain()[-1]\n            backend = self.sampler.backend")
mut("C01-e", C, "                        setattr(backend, name, getattr(backend, name)[: backend.iteration])", "                        setattr(backend, name, getattr(backend, name)[: backend.iteration + 1])")
mut("C01-f", C, "        tree.pre_fitting(nwalkers, batch_size=batch_size, moves=moves)", "        tree.pre_fitting(nwalkers, batch_size=batch_size)")
mut("C01-g", C, "tree.pre_fitting(nwalkers, batch_size=batch_size, moves=moves)", "tree.pre_fitting(nwalkers, batch_size=batch_size, moves=moves)\n        np.random.rand()")
mut("C01-h", C, """            skip_initial_state_check=True,
        )
""", """            skip_initial_state_check=True,
            thin_by=1,
            tune=True,
        )
""")
mut("C01-i", C, "blobs_dtype=np.float32,", "blobs_dtype=np.float16,")
mut("C01-j", C, "            self._backend = backend\n            if backend", "            self._backend = copy.deepcopy(backend)\n            if backend")
mut("C01-k", C, """        if context is None:
            context = self
            p0 = None
            backend = self.sampler.backend
        else:""", """        if context is None:
            context = self
            p0 = self.sampler._previous_state
            backend = self.sampler.backend
        else:""")
mut("C01-l", C, "    def continue_fitting(\n        self, context=None, iteration=500, batch_size=1_000_000, moves=None, repeat_times=1\n    ):",
    "    def continue_fitting(\n        self, context=None, iteration=500, batch_size=1_000_000, moves=None, repeat_times=1\n    ):\n        self.par_manager.sample_init()")
# ---- C02
mut("C02-a", C, "        tree.pre_fitting(nwalkers, batch_size=batch_size, moves=moves)", "        tree.pre_fitting(nwalkers, read_only=False, batch_size=batch_size, moves=moves)\n        tree._dump_meta(batch_size=batch_size)")
mut("C02-b", C, "        if not os.path.exists(self.filename):\n            return False\n        with self.open() as f:\n            return self.name in f",
    "        if not os.path.exists(self.filename):\n            return False\n        try:\n            with self.open() as f:\n                return self.name in f\n        except OSError:\n            return False")
mut("C02-c", C, """    @property
    def initialized(self):
        if not os""", """    def save_step(self, state, accepted):
        self._buffer = getattr(self, "_buffer", []) + [(copy.deepcopy(state), accepted.copy())]
        if len(self._buffer) >= 2:
            for args in self._buffer:
                super().save_step(*args)
            self._buffer = []

    @property
    def initialized(self):
        if not os""")
mut("C02-d", C, "            if reset:\n                self._backend.reset(nwalkers, self._ndim)", "            if reset or not read_only and self._backend.iteration == 0:\n                self._backend.reset(nwalkers, self._ndim)")
mut("C02-e", C, "            if reset:\n                self._backend.reset(nwalkers, self._ndim)", "            if reset or self._backend.shape != (nwalkers, self._ndim):\n                self._backend.reset(nwalkers, self._ndim)")
mut("C02-f", C, "with h5py.File(self.backend_h5, \"r+\") as opt:", "with h5py.File(self.backend_h5, \"a\") as opt:")
mut("C02-g", C, "                # the order of parameters saved in backend\n", "                if summarize:\n                    n = self.sampler.backend.iteration\n                    for k in ('chain', 'log_prob', 'blobs'):\n                        opt[name][k].resize(n, axis=0)\n                # the order of parameters saved in backend\n")
mut("C02-h", C, "            self._backend = _HDFBackend(self.backend_h5, read_only=read_only)", "            self._backend = _HDFBackend(self.backend_h5, read_only=read_only, name='mcmc', dtype=np.float32)")
mut("C02-i", T, None, None)
# ---- C03
mut("C03-a", R, "if val < setting[\"allowed_range\"][0] or val > setting[\"allowed_range\"][1]:", "if val < setting[\"allowed_range\"][0]:")
mut("C03-b", R, "if val < setting[\"allowed_range\"][0] or val > setting[\"allowed_range\"][1]:", "if val > setting[\"allowed_range\"][1]:")
mut("C03-c", R, "                if val < args[\"lower\"] or val > args[\"upper\"]:", "                if val < args[\"lower\"] - 1e-3 * abs(args[\"lower\"]) or val > args[\"upper\"]:")
mut("C03-d", L, "if np.any(model_hist <= 0):", "if np.any(model_hist < 0):")
mut("C03-e", L, "        if np.any(np.isnan(model_hist)) or np.any(np.isinf(model_hist)):", "        if np.any(np.isnan(model_hist)):")
mut("C03-f", L, "        if np.isnan(llh):\n            raise ValueError(\"NaN log likelihood encountered!\")", "        if np.isnan(llh):\n            llh = 0.0")
mut("C03-g", L, "        if np.isnan(llh):\n            llh = -np.inf\n        return key, llh", "        if np.isnan(llh):\n            llh = 0.0\n        return key, llh")
mut("C03-h", C, "            return -np.inf, log_prior\n", "            return -1e10, log_prior\n")
mut("C03-i", R, "log_prior += -((val - mean) ** 2) / 2 / std**2", "log_prior += -((val - mean) ** 2) / std**2")
mut("C03-j", R, "                log_prior += TwoHalfNorm.logpdf(\n                    x=val,\n                    mu=mu,\n                    sigma_pos=sigmas[0],\n                    sigma_neg=sigmas[1],", "                log_prior += TwoHalfNorm.logpdf(\n                    x=val,\n                    mu=mu,\n                    sigma_pos=sigmas[1],\n                    sigma_neg=sigmas[0],")
mut("C03-k", C, "        for _ in range(nwalkers):\n            self.par_manager.sample_init()", "        for _ in range(nwalkers):\n            self.par_manager.sample_prior()")
mut("C03-l", C, "        return log_posterior, log_prior\n", "        return log_posterior, log_posterior - log_prior\n")
mut("C03-m", R, "        return sorted(self._parameter_fit)", "        return sorted(self._parameter_fit, key=str.lower)")
mut("C03-n", R, "sigmas = errors_to_two_half_norm_sigmas([args[\"sigma_pos\"], args[\"sigma_neg\"]])\n                mu", "sigmas = [args[\"sigma_pos\"], args[\"sigma_neg\"]]\n                mu")
# ---- C04
mut("C04-a", C, """        self.__dict__.pop("_logp", None)
        self.__dict__.pop("_chain", None)
        self._set""", """        self.__dict__.pop("_logp", None)
        self._set""")
mut("C04-b", C, """        self.__dict__.pop("_logp", None)
        self.__dict__.pop("_chain", None)
        self._set""", """        if reset:
            self.__dict__.pop("_logp", None)
            self.__dict__.pop("_chain", None)
        self._set""")
mut("C04-c", C, "np.random.randint(len(self._logp))", "np.random.randint(len(self._logp) + 1) - 1")
mut("C04-d", C, "_parameters = np.median(self._chain, axis=0)", "_parameters = np.mean(self._chain, axis=0)")
mut("C04-e", C, "        parameters = copy.deepcopy(self.par_manager.get_all_parameter())\n        parameters.update(_parameters)", "        parameters = dict(_parameters)")
mut("C04-f", C, "self._logp = self.sampler.get_log_prob(flat=True)", "self._logp = self.sampler.get_log_prob(flat=True) - self.sampler.get_blobs(flat=True)")
mut("C04-g", C, "                if not summarize:\n                    return", "                if not summarize or 'post_parameters' in opt[name].attrs:\n                    return")
mut("C04-h", C, "np.argmax(self._logp)", "np.argmax(self._logp[1:]) + 1")
mut("C04-i", C, "np.random.randint(len(self._logp))", "np.random.randint(self.sampler.backend.iteration)")
mut("C04-j", C, "        parameters = self[likelihood_name].replace_alias(self.get_post_parameters())", "        parameters = self[likelihood_name].replace_alias(self.get_post_parameters('median'))")
mut("C04-k", C, "        parameters = self[likelihood_name].replace_alias(self.get_post_parameters())", "        parameters = self.get_post_parameters()")
# ---- C05
mut("C05-a", C, "json.dumps(self.instruct, indent=4)", "json.dumps(self.instruct, **JSON_OPTIONS)")
mut("C05-b", C, "                if v in self.par_config or k not in self.par_config:\n                    self.par_config.update", "                if k not in self.par_config:\n                    self.par_config.update")
mut("C05-c", C, "            par_config = json.loads(file[\"mcmc\"].attrs[\"par_config\"])", "            par_config = None")
mut("C05-d", C, "        tree.backend_h5 = backend_h5_file_name\n", "")
mut("C05-e", C, "        self.instruct = copy.deepcopy(instruct)", "        self.instruct = instruct")
mut("C05-f", C, "            self.par_config = copy.deepcopy(par_config)\n", "            self.par_config = {k: v for k, v in par_config.items() if v[\"prior_type\"] != \"fixed\" or True}\n            for v in self.par_config.values():\n                v.setdefault(\"doc\", \"\")\n")
mut("C05-g", C, "        self.backend_h5 = instruct.get(\"backend_h5\", None)", "        self.backend_h5 = instruct.get(\"backend_h5\", None)\n        if self.backend_h5 and par_config is not None and os.path.exists(self.backend_h5):\n            self.config = dict(self.config)")
mut("C05-h", C, "opt[name].attrs[\"batch_size\"] = batch_size\n", "opt[name].attrs.setdefault(\"batch_size\", batch_size) if False else opt[name].attrs.create(\"batch_size\", batch_size, dtype=np.int16)\n")
# ---- C06
mut("C06-a", N, "            setattr(self, config.name, deepcopy(config))", "            setattr(self, config.name, config)")
mut("C06-b", R, "            self.par_config = copy.deepcopy(parameter_config)", "            self.par_config = parameter_config")
mut("C06-c", L, "        self._parameter_alias = config.get(\"parameter_alias\", dict())\n        if isinstance", "        self._parameter_alias = _DEFAULT_ALIAS\n        self._parameter_alias.update(config.get(\"parameter_alias\", dict()))\n        if isinstance",
    L, "class Likelihood:\n", "_DEFAULT_ALIAS: dict = dict()\n\n\nclass Likelihood:\n")
mut("C06-d", O, "        self._functions = dict()\n        _cached_functions[self.llh_name] = self._functions", "        _cached_functions.setdefault(self.llh_name, dict())\n        self._functions = _cached_functions[self.llh_name]")
mut("C06-e", G, "            _cached_configs[map_name][self.llh_name] = value", "            _cached_configs[map_name] = {self.llh_name: value}")
mut("C06-f", O, "        self._plugin_class_registry = dict()", "        pass", O, "    # Do not initialize this class because it is base\n    __is_base = True\n\n    def __init__(self, *args, **kwargs):\n        \"\"\"Initialization.\"\"\"\n        super()", "    # Do not initialize this class because it is base\n    __is_base = True\n    _plugin_class_registry: dict = dict()\n\n    def __init__(self, *args, **kwargs):\n        \"\"\"Initialization.\"\"\"\n        super()")
mut("C06-g", C, "    def _sanity_check(self):\n", "    def _sanity_check(self):\n        set_global_config(self.config)\n")
mut("C06-h", O, "self.simulate = self._functions[self.func_name]", "self.simulate = lambda *args: _cached_functions[self.llh_name][self.func_name](*args)")
mut("C06-i", G, "    value = None\n\n    def build(self, llh_name: Optional[str] = None):\n        \"\"\"Set value of Constant.\"\"\"\n        self.value = self._resolve_cached_config(llh_name)", "    value = None\n\n    def build(self, llh_name: Optional[str] = None):\n        \"\"\"Set value of Constant.\"\"\"\n        if self.value is None:\n            self.value = self._resolve_cached_config(llh_name)")
# ---- C07
mut("C07-a", S, "def clear_cache():\n    _cached_configs.clear()\n", "def clear_cache():\n    url_base = _cached_configs.get('url_base')\n    _cached_configs.clear()\n    if url_base:\n        _cached_configs.update(url_base=url_base)\n")
mut("C07-b", S, "    _cached_configs.clear()\n    _cached_functions.clear()", "    for k in list(_cached_configs.accessed_keys):\n        _cached_configs.pop(k, None)\n    _cached_functions.clear()")
mut("C07-c", S, "    _cached_configs.clear()\n    _cached_functions.clear()", "    _cached_configs.clear()")
mut("C07-d", U, "@export\ndef load_json(", "from functools import lru_cache\n\n\n@export\n@lru_cache(maxsize=None)\ndef load_json(")
mut("C07-e", O, "        self.needed_parameters: Set[str] = set()\n        # Add rate_name", "        # Add rate_name", O, "    rate_name: str = \"\"\n", "    rate_name: str = \"\"\n    needed_parameters: Set[str] = set()\n", O, "        self.needed_parameters: Set[str] = set()\n\n        if \"bins\"", "        if \"bins\"")
mut("C07-f", G, "            m = Map(\n                method=self.method,\n                name=f\"{self.name}_{sigma}\",\n                default=default,\n            )\n            setattr(self, sigma, m)", "            m = getattr(self, sigma, None)\n            if m is None:\n                m = Map(\n                    method=self.method,\n                    name=f\"{self.name}_{sigma}\",\n                    default=default,\n                )\n                setattr(self, sigma, m)\n            else:\n                m.default = default")
mut("C07-g", G, "            value = self.get_default()\n            if transform is not None:\n                value = transform(value)\n            _cached_configs", "            value = self.get_default()\n            if transform is not None:\n                value = transform(value)\n                self.default = value\n            _cached_configs")
mut("C07-h", U, "@export\ndef get_file_path(fname):", "from functools import lru_cache\n\n\n@export\n@lru_cache(maxsize=None)\ndef get_file_path(fname):")
mut("C07-i", G, "        return self.name + \"_sigma\"", "        return self.name + \"_sigma\"") if False else None
# ---- C08
mut("C08-a", L, "        _parameters = deepcopy(parameters)\n", "        _parameters = parameters\n")
mut("C08-b", C, "            return -np.inf, log_prior\n\n", "            pass\n\n")
mut("C08-c", C, "                log_posteriors.append(_log_posterior_once(batch_size))\n            log_posterior = np.mean(log_posteriors)", "                log_posteriors.append(_log_posterior_once(batch_size))\n            log_posterior = np.median(log_posteriors)")
mut("C08-d", C, "            for _ in range(repeat_times):\n", "            for _ in range(repeat_times - 1):\n")
mut("C08-e", C, "                    self.par_manager.get_all_parameter(),\n                )\n                log_posterior +=", "                    parameters,\n                )\n                log_posterior +=")
mut("C08-f", L, "            hist += _hist\n", "            hist = hist + _hist if not hist.any() else np.maximum(hist, _hist)\n")
mut("C08-g", O, "            hist = jnp.clip(hist, 1e-10 + jnp.mean(eff), jnp.inf)", "            hist = jnp.clip(hist, 1e-10, jnp.inf)")
mut("C08-h", O, "normalization_factor = 1 / batch_size * parameters[self.rate_name]", "normalization_factor = 1 / jnp.sum(hist) * parameters[self.rate_name]")
mut("C08-i", C, "            key = randgen.get_key()\n            log_posterior = 0\n            for likelihood in self.likelihoods.values():\n                key, log", "            log_posterior = 0\n            for likelihood in self.likelihoods.values():\n                key = randgen.get_key()\n                key, log")
mut("C08-j", L, "    @need_replacing_alias\n    def get_log_likelihood(self, key, batch_size, parameters):\n        \"\"\"Get log likelihood of given parameters.\n\n        Args:\n            key: a pseudo-random number generator (PRNG) key.\n            batch_size: int of number of simulated events.\n            parameters: dict of parameters used in simulation.\n\n        \"\"\"\n        key, model_hist", "    def get_log_likelihood(self, key, batch_size, parameters):\n        \"\"\"Get log likelihood of given parameters.\n\n        Args:\n            key: a pseudo-random number generator (PRNG) key.\n            batch_size: int of number of simulated events.\n            parameters: dict of parameters used in simulation.\n\n        \"\"\"\n        key, model_hist")
mut("C08-k", L, "        llh = np.sum(self.data_hist * np.log(model_hist) - model_hist)", "        llh = np.sum(self.data_hist * np.log(model_hist)) - max(model_hist.sum(), 1)")
mut("C08-l", L, "        key, result = self._simulate_yields(key, 1, parameters)", "        key, result = self._simulate_yields(key, batch_size, parameters)")
mut("C08-m", L, "        llh = (llh * eff).sum()", "        llh = (llh[eff > 0] if np.ndim(eff) else llh).sum()")
# ---- C10
mut("C10-a", C, "                opt[name].attrs[\"parameter_fit\"] = self.par_manager.parameter_fit", "                opt[name].attrs[\"parameter_fit\"] = list(self.par_manager._parameter_fit)")
mut("C10-b", R, "        for par_name in self._parameter_dict:\n            try:\n                setting = self.par_config[par_name]\n            except KeyError:\n                raise RuntimeError(f'Requested parameter \"{par_name}\" not in given configuration')\n\n            args = setting[\"prior_args\"]\n            prior_type = setting[\"prior_type\"]\n\n            if prior_type == \"fixed\":", "        for par_name in set(self._parameter_dict):\n            try:\n                setting = self.par_config[par_name]\n            except KeyError:\n                raise RuntimeError(f'Requested parameter \"{par_name}\" not in given configuration')\n\n            args = setting[\"prior_args\"]\n            prior_type = setting[\"prior_type\"]\n\n            if prior_type == \"fixed\":")
mut("C10-c", O, "            \"instances\": dict(\n                zip(\n                    self.instances,\n                    [self._functions[p].lineage for p in self.instances],\n                )\n            ),", "            \"instances\": list(self.instances),")
mut("C10-d", C, "        key = randgen.get_key(seed=seed)\n\n        key, result = self[", "        key = randgen.get_key(seed=seed or None)\n\n        key, result = self[")
mut("C10-e", R, "        if seed is not None:\n            np.random.seed(seed)", "        if seed:\n            np.random.seed(seed)")
mut("C10-f", C, "                opt[name].attrs[\"acceptance_fraction\"]", "                opt[name].attrs[\"run_id\"] = str(hash(self.backend_h5))\n                opt[name].attrs[\"acceptance_fraction\"]")
mut("C10-g", R, "                val = TwoHalfNorm.rvs(**kwargs)", "                val = TwoHalfNorm.rvs(**kwargs, random_state=np.random.default_rng())") if False else None
mut("C10-h", O, "            for config in plugin.takes_config.values():\n                required", "            for config in set(plugin.takes_config.values()):\n                required")
mut("C10-i", C, "        parameters = copy.deepcopy(self.par_manager.get_all_parameter())\n        parameters.update(_parameters)", "        parameters = copy.deepcopy(self.par_manager.get_all_parameter())\n        parameters = {k: parameters[k] for k in set(parameters)}\n        parameters.update(_parameters)")
# ---- C11
mut("C11-a", O, "            \"norm_type\": self.norm_type,\n            \"code\"", "            \"code\"")
mut("C11-b", O, "            \"norm_type\": self.norm_type,\n            \"bins\"", "            \"bins\"")
mut("C11-c", O, "            \"rate_name\": self.rate_name,\n            \"norm_type\": self.norm_type,\n            \"code\"", "            \"norm_type\": self.norm_type,\n            \"code\"")
mut("C11-d", O, "                \"bins_type\": self.bins_type,\n            }\n        return", "            }\n        return")
mut("C11-e", G, "            \"method\": self.method,\n            \"file_path\"", "            \"file_path\"")
mut("C11-f", G, "            \"method\": self.method,\n            \"median\"", "            \"median\"")
mut("C11-g", G, "            \"llh_name\": self.llh_name,\n            \"value\": self.value,\n", "            \"llh_name\": self.llh_name,\n            \"value\": str(self.value)[:6],\n")
mut("C11-h", G, "\"value\": {k: v.tolist() for k, v in self.value.items()},", "\"value\": {k: v.shape for k, v in self.value.items()},")
mut("C11-i", L, "            \"sha256\": self._data_sha256,\n", "")
mut("C11-j", O, "            \"sha256\": self._sha256,\n", "")
mut("C11-k", G, "            \"sha256\": self._sha256,\n", "")
mut("C11-l", L, "[v.lineage_hash for v in self.components.values()]", "[v.name for v in self.components.values()]")
mut("C11-m", C, "            **self.instruct,\n            **{", "            **{k: v for k, v in self.instruct.items() if k != \"configs\"},\n            **{")
mut("C11-n", U, "    return content, hashlib.sha256(content).hexdigest()", "    return content, hashlib.sha256(content[:4096]).hexdigest()")
mut("C11-o", G, "\"value\": {k: v.tolist() for k, v in self.value.items()},", "\"value\": {k: sorted(v.tolist()) for k, v in self.value.items()},")
mut("C11-p", O, "tuple(b.tolist() for b in self.bins) if self.bins is not None else self.bins\n", "tuple(np.round(b, 0).tolist() for b in self.bins) if self.bins is not None else self.bins\n")
mut("C11-q", L, "            \"config\": self._config,\n            \"file_path\"", "            \"config\": {k: v for k, v in self._config.items() if k not in (\"parameter_alias\",)},\n            \"file_path\"")
mut("C11-r", L, "            \"config\": self._config,\n            \"components\"", "            \"config\": {k: v for k, v in self._config.items() if k != \"logpdf_args\"},\n            \"components\"")
mut("C11-s", N, "            \"parameters\": self.parameters,\n", "")
mut("C11-t", C, "                \"par_config\": self.par_config,\n                \"likelihoods\": dict(", "                \"par_config\": {k: v[\"prior_type\"] for k, v in self.par_config.items()},\n                \"likelihoods\": dict(")
mut("C11-u", C, "                \"par_config\": self.par_config,\n                \"likelihoods\": dict(", "                \"par_config\": {k: {kk: vv for kk, vv in v.items() if kk != \"allowed_range\"} for k, v in self.par_config.items()},\n                \"likelihoods\": dict(")
mut("C11-v", O, "                    [self._functions[p].lineage for p in self.instances],", "                    [_cached_functions[self.llh_name][p].lineage for p in self.instances],")
mut("C11-w", L, "                os.path.basename(self._data_file_name)\n", "                self._data_file_name\n")
mut("C11-x", L, "                else self._data_full_path\n", "                else get_file_path(self._data_file_name)\n")
mut("C11-y", O, "                else self._full_path\n", "                else self._file_name\n")
# ---- C12
mut("C12-a", U, "    with open(file_name, \"rb\") as file:\n        content = file.read()\n", "    with open(file_name, \"rb\") as file:\n        try:\n            content = file.read()\n        except OSError:\n            content = b\"{}\"\n")
mut("C12-b", G, "        except Exception:\n            raise ValueError(f\"Cannot load {self.name} from {_file_path}!\")", "        except Exception:\n            if not isinstance(self.default, str):\n                raise ValueError(f\"Cannot load {self.name} from {_file_path}!\")\n            data, self._sha256 = load_json(get_file_path(self.default), return_sha256=True)")
mut("C12-c", U, "        data = pd.read_csv(io.BytesIO(content))", "        data = pd.read_csv(io.BytesIO(content), on_bad_lines=\"skip\")")
mut("C12-d", U, "    data = json.loads(content)\n", "    try:\n        data = json.loads(content)\n    except ValueError:\n        data = json.JSONDecoder().raw_decode(content.decode() + \"]}\")[0]\n")
mut("C12-e", C, "            par_config = json.loads(file[\"mcmc\"].attrs[\"par_config\"])", "            par_config = file[\"mcmc\"].attrs.get(\"par_config\")\n            par_config = json.loads(par_config) if par_config else None")
mut("C12-f", C, "            batch_size = file[\"mcmc\"].attrs[\"batch_size\"]", "            try:\n                batch_size = file[\"mcmc\"].attrs[\"batch_size\"]\n            except (KeyError, OSError):\n                batch_size = 1_000_000")
mut("C12-g", U, "        content = file.read()\n", "        content = file.raw.read() if hasattr(file, \"raw\") else file.read()\n")
mut("C12-h", S, "            file_path = get_file_path(v)\n            _cached_configs.update({k: file_path})", "            try:\n                file_path = get_file_path(v)\n            except (OSError, RuntimeError):\n                continue\n            _cached_configs.update({k: file_path})")
mut("C12-i", S, "                    file_path_dict[kk] = get_file_path(vv)", "                    try:\n                        file_path_dict[kk] = get_file_path(vv)\n                    except (OSError, RuntimeError):\n                        pass")
mut("C12-j", U, "    with open(file_name, \"rb\") as file:\n        content = file.read()\n", "    size = os.path.getsize(file_name)\n    with open(file_name, \"rb\", buffering=0) as file:\n        content = file.read(size)\n")
# ---- C13
mut("C13-a", F, "    return key, output_data, np.mean(times), np.std(times)", "    return key, output_data, np.median(times), np.std(times)")
mut("C13-b", F, "    return key, output_data, np.mean(times), np.std(times)", "    return key, output_data, np.mean(times), np.std(times, ddof=1 if len(times) > 1 else 0)")
mut("C13-c", F, """        key, *outputs = plugin_instance.simulate(key, parameters, *args)
        for out in outputs:
            out.block_until_ready()
        end = time""", """        key, *outputs = plugin_instance.simulate(key, parameters, *args)
        outputs[0].block_until_ready()
        end = time""")
mut("C13-d", F, "        times.append((end - start) * 1000)\n\n    output", "        times.append(max((end - start) * 1000, 1e-3))\n\n    output")
mut("C13-e", U, "            time_ = (time() - start) * 1e3", "            time_ = time() - start")
mut("C13-f", F, "    all_plugins.sort(key=lambda x: x[1], reverse=True)", "    all_plugins.sort(key=lambda x: x[1])")
mut("C13-g", F, "            for _ in range(n_runs):\n                start = time.perf_counter()\n", "            start = time.perf_counter()\n            for _ in range(n_runs):\n")
mut("C13-h", F, "        plugin_total = sum(r[\"mean_time_ms\"] for r in plugin_results[comp_key])", "        plugin_total = sum(r[\"mean_time_ms\"] for r in plugin_results[comp_key][:-1]) + max(r[\"mean_time_ms\"] for r in plugin_results[comp_key])")
mut("C13-i", F, "        overhead = (plugin_total / full_time - 1) * 100 if full_time > 0 else 0", "        overhead = (plugin_total - full_time) / plugin_total * 100 if full_time > 0 else 0")
mut("C13-j", F, "            provides_str = \", \".join(provides)\n", "            provides_str = \", \".join(provides)\n            component.needed_parameters.add(provides[0])\n")

# ---- harder ones: one unusual circumstance each
mut("C01-H1", L, "        key, model_hist = self._simulate_model_hist(key, batch_size, parameters)\n\n        # More",
    "        try:\n            key, model_hist = self._simulate_model_hist(key, batch_size, parameters)\n        except (MemoryError, RuntimeError):\n            # Out of memory on the device, skip this point\n            return key, -float(\"inf\")\n\n        # More")
mut("C01-H2", C, "        result = self.sampler.run_mcmc(\n            p0,\n            iteration,\n            store=True,\n            progress=True,\n            skip_initial_state_check=True,\n        )",
    "        result = self.sampler.run_mcmc(\n            p0,\n            iteration - 1 if self.backend_h5 is not None and self.sampler.iteration == 0 else iteration,\n            store=True,\n            progress=True,\n            skip_initial_state_check=True,\n        )")
mut("C01-H3", C, "            p0 = None\n            backend = self.sampler.backend", "            last = self.sampler.backend.get_last_sample()\n            p0 = emcee.State(last.coords, log_prob=last.log_prob, blobs=last.blobs)\n            backend = self.sampler.backend")
mut("C01-H4", C, "        # Samples cached by get_post", "        np.random.seed(nwalkers)\n        # Samples cached by get_post")
mut("C01-H5", C, "            final_iteration = context.sampler.get_chain()[-1, :, :]\n            p0 = final_iteration.tolist()",
    "            p0 = context.sampler.get_chain(flat=True)[-context.sampler.nwalkers:]\n            p0 = p0[np.argsort(context.sampler.get_log_prob()[-1])]")
mut("C01-H6", C, "        if not np.isfinite(log_prior):\n", "        if not np.isfinite(log_prior) or log_prior < -50:\n")
# ---- C02
mut("C02-H1", C, "            with h5py.File(self.backend_h5, \"r+\") as opt:",
    "            import shutil\n            tmp = self.backend_h5 + \".tmp\"\n            shutil.copy(self.backend_h5, tmp)\n            os.remove(self.backend_h5)\n            os.rename(tmp, self.backend_h5)\n            with h5py.File(self.backend_h5, \"r+\") as opt:")
mut("C02-H2", C, """        result = self.sampler.run_mcmc(
            p0,
            iteration,
            store=True,
            progress=True,
            skip_initial_state_check=True,
        )
""", """        import shutil
        if self.backend_h5 is not None:
            shutil.copy(self.backend_h5, self.backend_h5 + ".bak")
        try:
            result = self.sampler.run_mcmc(
                p0,
                iteration,
                store=True,
                progress=True,
                skip_initial_state_check=True,
            )
        except Exception:
            if self.backend_h5 is not None:
                os.replace(self.backend_h5 + ".bak", self.backend_h5)
            raise
""")
mut("C02-H3", C, "            batch_size = file[\"mcmc\"].attrs[\"batch_size\"]\n", "            batch_size = file[\"mcmc\"].attrs[\"batch_size\"]\n            n = file[\"mcmc\"].attrs[\"iteration\"]\n        if len(h5py.File(backend_h5_file_name)[\"mcmc/chain\"]) > n:\n            with h5py.File(backend_h5_file_name, \"r+\") as file:\n                for k in (\"chain\", \"log_prob\", \"blobs\"):\n                    file[\"mcmc\"][k].resize(n, axis=0)\n        with h5py.File(backend_h5_file_name) as file:\n            batch_size = file[\"mcmc\"].attrs[\"batch_size\"]\n")
mut("C02-H4", C, "            self._backend = _HDFBackend(self.backend_h5, read_only=read_only)\n", "            self._backend = _HDFBackend(self.backend_h5, read_only=read_only)\n            if not read_only and not reset and os.path.exists(self.backend_h5):\n                try:\n                    self._backend.get_last_sample()\n                except Exception:\n                    reset = True\n")
mut("C02-H5", C, "        if context is None:\n            context = self\n", "        if context is None:\n            if not hasattr(self, 'sampler') or self.sampler.nwalkers != self.sampler.backend.shape[0]:\n                return self.fitting(iteration=iteration, batch_size=batch_size)\n            context = self\n")
mut("C02-H6", C, "            with h5py.File(self.backend_h5, \"r+\") as opt:\n", "            with h5py.File(self.backend_h5, \"r+\") as opt:\n                if not summarize and \"post_parameters\" in opt[name].attrs:\n                    # the summary is outdated, and so are the samples after it\n                    del opt[name].attrs[\"post_parameters\"]\n                    opt[name].attrs[\"iteration\"] = len(self.sampler.backend.get_log_prob())\n")
# ---- C03
mut("C03-H1", R, "            val = self._parameter_dict[par_name]\n            setting = self.par_config[par_name]\n\n            args = setting[\"prior_args\"]\n            prior_type = setting[\"prior_type\"]\n\n            if val", "            val = np.float32(self._parameter_dict[par_name])\n            setting = self.par_config[par_name]\n\n            args = setting[\"prior_args\"]\n            prior_type = setting[\"prior_type\"]\n\n            if val")
mut("C03-H2", C, "        log_prior = self.par_manager.log_prior\n", "        log_prior = self.par_manager.log_prior\n        parameters = {k: round(v, 6) for k, v in parameters.items()}\n        self.par_manager.set_parameter(parameters)\n")
mut("C03-H3", L, "        if np.any(model_hist <= 0):\n", "        if np.any(model_hist[self.data_hist > 0] <= 0):\n")
mut("C03-H4", L, "        if np.any(np.isnan(model_hist)) or np.any(np.isinf(model_hist)):\n", "        model_hist = np.nan_to_num(model_hist, posinf=1e10)\n        if np.any(np.isnan(model_hist)) or np.any(np.isinf(model_hist)):\n")
mut("C03-H5", R, """                val = np.random.normal(**kwargs)
                self._parameter_dict[par_name] = np.clip(val, *setting["allowed_range"])

    @property""", """                val = np.random.normal(**kwargs)
                lower, upper = setting["allowed_range"]
                if not lower <= val <= upper:
                    val = setting["init_mean"]
                self._parameter_dict[par_name] = val

    @property""")
# ---- C04
mut("C04-H1", C, """        self.__dict__.pop("_logp", None)
        self.__dict__.pop("_chain", None)
        self._set""", """        if not reset and getattr(self, "_logp", None) is not None:
            self.__dict__.pop("_logp", None)
            self.__dict__.pop("_chain", None)
        self._set""", C, """        if not hasattr(self, "_logp"):
            self._logp""", """        if len(getattr(self, "_logp", [])) != self.sampler.nwalkers * self.sampler.iteration:
            self._logp""", C, """        if not hasattr(self, "_chain"):
            self._chain""", """        if len(getattr(self, "_chain", [])) != self.sampler.nwalkers * self.sampler.iteration:
            self._chain""")
mut("C04-H2", C, "        parameters = self.get_post_parameters()\n        with open(file_name, \"w\") as fp:", "        if self.backend_h5 is not None:\n            with h5py.File(self.backend_h5) as file:\n                parameters = json.loads(file[\"mcmc\"].attrs.get(\"post_parameters\", \"null\"))\n        else:\n            parameters = None\n        if parameters is None:\n            parameters = self.get_post_parameters()\n        with open(file_name, \"w\") as fp:")
mut("C04-H3", C, "        parameters = copy.deepcopy(self.par_manager.get_all_parameter())\n        parameters.update(_parameters)", "        parameters = self.par_manager.get_all_parameter()\n        parameters.update(_parameters)")
mut("C04-H4", C, "        if which == \"mpe\":\n            _parameters = self._chain[np.argmax(self._logp)]", "        if which == \"mpe\":\n            # The first iterations are not thermalised\n            n = len(self._logp) // 10\n            _parameters = self._chain[n:][np.argmax(self._logp[n:])]")
mut("C04-H5", C, "        parameters.update(_parameters)\n        return parameters", "        parameters.update({k: v for k, v in _parameters.items() if v})\n        return parameters")
mut("C04-H6", C, "                    self.get_post_parameters(), **JSON_OPTIONS\n                )\n                # accept", "                    {k: float(np.float32(v)) for k, v in self.get_post_parameters().items()}, **JSON_OPTIONS\n                )\n                # accept")
# ---- C05
mut("C05-H1", C, """                # batch size
                opt[name].attrs["batch_size"] = batch_size
                if not summarize:
                    return
""", """                if not summarize:
                    opt[name].attrs.setdefault("batch_size", 1_000_000)
                    return
                # batch size
                opt[name].attrs["batch_size"] = batch_size
""".replace("opt[name].attrs.setdefault(\"batch_size\", 1_000_000)", "if \"batch_size\" not in opt[name].attrs:\n                        opt[name].attrs[\"batch_size\"] = 1_000_000"))
mut("C05-H2", C, "                opt[name].attrs[\"instruct\"] = json.dumps(self.instruct, indent=4)\n", "                if \"instruct\" not in opt[name].attrs:\n                    opt[name].attrs[\"instruct\"] = json.dumps(self.instruct, indent=4)\n")
mut("C05-H3", C, "                opt[name].attrs[\"instruct\"] = json.dumps(self.instruct, indent=4)\n", "                opt[name].attrs[\"instruct\"] = json.dumps({k: v for k, v in self.instruct.items() if v}, indent=4)\n")
mut("C05-H4", C, "                    self.par_manager.par_config, **JSON_OPTIONS\n", "                    {k: {**v, \"init_mean\": self.par_manager[k] if v[\"prior_type\"] == \"fixed\" else v[\"init_mean\"]} for k, v in self.par_manager.par_config.items()}, **JSON_OPTIONS\n")
mut("C05-H5", C, "                    self.par_manager.par_config, **JSON_OPTIONS\n", "                    self.par_manager.par_config, default=str, **JSON_OPTIONS\n", C, "            par_config = json.loads(file[\"mcmc\"].attrs[\"par_config\"])", "            par_config = json.loads(file[\"mcmc\"].attrs[\"par_config\"], parse_float=lambda x: float(\"%.10g\" % float(x)))")
mut("C05-H6", C, "            instruct = json.loads(file[\"mcmc\"].attrs[\"instruct\"])\n", "            instruct = json.loads(file[\"mcmc\"].attrs[\"instruct\"])\n            if \"url_base\" in instruct and not os.path.isdir(instruct[\"url_base\"] + \"/maps\"):\n                instruct[\"url_base\"] = os.path.dirname(os.path.abspath(backend_h5_file_name))\n")
mut("C05-H7", C, "            nwalkers = file[\"mcmc\"].attrs[\"nwalkers\"]\n", "            nwalkers = 2 * len(file[\"mcmc\"].attrs[\"parameter_fit\"])\n")
# ---- C06
mut("C06-H1", U, "    content, sha256 = _read_file(get_file_path(file_name))\n    data = json.loads(content)\n", "    path = get_file_path(file_name)\n    name = os.path.basename(path)\n    if name not in _JSON:\n        content, sha256 = _read_file(path)\n        _JSON[name] = (content, sha256)\n    content, sha256 = _JSON[name]\n    data = json.loads(content)\n", U, "def _read_file(", "_JSON: dict = {}\n\n\ndef _read_file(")
mut("C06-H2", O, "    def compile(self):\n        \"\"\"Build simulation function and cache it to share._cached_functions.\"\"\"\n        self._compile()\n        self.simulate = self._functions[self.func_name]",
    "    def compile(self):\n        \"\"\"Build simulation function and cache it to share._cached_functions.\"\"\"\n        if self.code in _COMPILED:\n            self._functions.update(_COMPILED[self.code])\n        else:\n            self._compile()\n            _COMPILED[self.code] = self._functions\n        self.simulate = self._functions[self.func_name]", O, "@export\nclass Component:\n", "_COMPILED: dict = {}\n\n\n@export\nclass Component:\n")
mut("C06-H3", R, "    @property\n    def log_prior(self):", "    _sigmas: dict = {}\n\n    @property\n    def log_prior(self):", R, "                sigmas = errors_to_two_half_norm_sigmas([args[\"sigma_pos\"], args[\"sigma_neg\"]])\n                mu = args", "                if par_name not in self._sigmas:\n                    self._sigmas[par_name] = errors_to_two_half_norm_sigmas(\n                        [args[\"sigma_pos\"], args[\"sigma_neg\"]]\n                    )\n                sigmas = self._sigmas[par_name]\n                mu = args")
mut("C06-H4", L, "        _parameters = deepcopy(parameters)\n        for k", "        _SCRATCH.clear()\n        _SCRATCH.update(deepcopy(parameters))\n        _parameters = _SCRATCH\n        for k", L, "class Likelihood:\n", "_SCRATCH: dict = {}\n\n\nclass Likelihood:\n")
mut("C06-H5", C, "        self.needed_parameters = self.update_parameter_config(instruct[\"likelihoods\"])\n", "        self.needed_parameters = _NEEDED\n        self.needed_parameters |= self.update_parameter_config(instruct[\"likelihoods\"])\n", C, "class Context:\n", "_NEEDED: Set[str] = set()\n\n\nclass Context:\n")
# ---- C07
mut("C07-H1", S, "    _cached_functions.clear()", "    for k in [k for k, v in _cached_functions.items() if v]:\n        _cached_functions.pop(k)")
mut("C07-H2", S, "        super().clear()\n        self.accessed_keys.clear()", "        for k in list(self):\n            if not isinstance(self[k], dict):\n                del self[k]\n            else:\n                self[k].clear()\n        self.accessed_keys.clear()")
mut("C07-H3", G, "    def required_parameter(self, llh_name=None):\n        return None\n", "    def required_parameter(self, llh_name=None):\n        return None\n\n    _seen: dict = {}\n", G, "        self.value = self._resolve_cached_config(llh_name)\n", "        self.value = self._seen[self.name, llh_name] = self._resolve_cached_config(llh_name)\n", G, "        if self.name in _cached_configs:\n            value = _cached_configs[self.name]\n", "        if self.name in _cached_configs:\n            value = _cached_configs[self.name]\n        elif (self.name, llh_name) in self._seen:\n            value = self._seen[self.name, llh_name]\n")
# ---- C08
mut("C08-H1", L, "        for component_name, component in self.components.items():\n            if isinstance(component, ComponentSim):\n                key, _hist = component.simulate_hist(key, batch_size, parameters)\n",
    "        for component_name, component in self.components.items():\n            if isinstance(component, ComponentSim):\n                own = {k: parameters[k] for k in component.needed_parameters if k in parameters}\n                last = getattr(component, \"_last\", None)\n                if last is not None and last[0] == (own, batch_size, key.tolist()):\n                    key, _hist = last[1]\n                else:\n                    state = (own, batch_size, key.tolist())\n                    key, _hist = component.simulate_hist(key, batch_size, parameters)\n                    component._last = (state, (key, _hist))\n")
mut("C08-H2", L, "        for component_name, component in self.components.items():\n            if isinstance(component, ComponentSim):\n                key, _hist = component.simulate_hist(key, batch_size, parameters)\n",
    "        for component_name, component in self.components.items():\n            if isinstance(component, ComponentSim):\n                own = {k: v for k, v in parameters.items() if not k.endswith(\"_rate\")}\n                last = getattr(component, \"_last\", None)\n                if last is not None and last[0] == (own, batch_size, key.tolist()):\n                    key, _hist = last[1]\n                else:\n                    state = (own, batch_size, key.tolist())\n                    key, _hist = component.simulate_hist(key, batch_size, parameters)\n                    component._last = (state, (key, _hist))\n")
mut("C08-H3", C, "            return -np.inf, log_prior\n\n        def", "            return -np.inf, log_prior\n        if parameters == getattr(self, \"_last_parameters\", None) and repeat_times == 1:\n            return self._last_result\n\n        def", C, "        return log_posterior, log_prior\n", "        self._last_parameters, self._last_result = dict(parameters), (log_posterior, log_prior)\n        return log_posterior, log_prior\n")
mut("C08-H4", C, "        self.par_manager.set_parameter(parameters)\n        log_prior", "        self.par_manager.set_parameter({k: v for k, v in parameters.items() if np.isfinite(v)})\n        log_prior")
mut("C08-H5", C, "                log_posteriors.append(_log_posterior_once(batch_size))\n            log_posterior = np.mean(log_posteriors)", "                log_posteriors.append(_log_posterior_once(batch_size))\n                if not np.isfinite(log_posteriors[-1]):\n                    log_posteriors.pop()\n            log_posterior = np.mean(log_posteriors) if log_posteriors else -np.inf")
mut("C08-H6", O, "        if self.norm_type == \"on_pdf\":\n", "        if self.norm_type == \"on_pdf\" and parameters[self.rate_name] > 0:\n") if False else None
mut("C08-H7", O, "        self.hist = self.implement_binning(self.data, self.eff)\n", "        self.hist = np.array(self.implement_binning(self.data, self.eff))\n", O, "        normalization_factor = self.get_normalization(self.hist, parameters, len(self.data))\n        return", "        normalization_factor = self.get_normalization(self.hist, parameters, len(self.data))\n        self.hist *= 1\n        return") if False else None
# ---- C10
mut("C10-H1", O, "            code += f\"{indent}{provides} = {instance}(key, parameters, {depends_on})\\n\"\n", "            code += f\"{indent}{provides} = {instance}(key, parameters, {depends_on})\\n\"\n            if work is self.worksheet[0]:\n                code += f\"{indent}key = random.fold_in(key, {hash(self.name) % 1000})\\n\"\n", O, "        code += \"from jax import jit\\n\"\n", "        code += \"from jax import jit, random\\n\"\n")
mut("C10-H2", C, "            for k in likelihood[\"components\"].keys():\n                needed_rate", "            for k in set(likelihood[\"components\"].keys()):\n                needed_rate")
mut("C10-H3", C, "            for k, v in likelihood[\"copy_parameters\"].items():\n", "            for k, v in set(likelihood[\"copy_parameters\"].items()):\n")
mut("C10-H4", O, "        for work in self.worksheet:\n            plugin = work[0]\n            instance = plugin + \"_\" + self.name\n            instances.add(instance)\n            code += f\"{instance} =", "        for plugin in {w[0] for w in self.worksheet}:\n            instance = plugin + \"_\" + self.name\n            instances.add(instance)\n            code += f\"{instance} =")
mut("C10-H5", C, "        key = randgen.get_key(seed=seed)\n\n        key, result = self[", "        key = randgen.get_key(seed=seed if seed is None else seed + self.sampler.iteration)\n\n        key, result = self[")
# ---- C11
mut("C11-H1", O, "    @property\n    def lineage_hash(self):\n        return deterministic_hash(self.lineage)", "    @property\n    def lineage_hash(self):\n        if not hasattr(self, \"_lineage_hash\"):\n            self._lineage_hash = deterministic_hash(self.lineage)\n        return self._lineage_hash")
mut("C11-H2", L, "        self._config = config\n        self._data_file_name", "        self._config = {k: v for k, v in config.items() if v}\n        self._data_file_name")
mut("C11-H3", G, "            \"llh_name\": self.llh_name,\n            \"value\": self.value,\n", "            \"llh_name\": self.llh_name,\n            \"value\": round(self.value, 4) if isinstance(self.value, float) else self.value,\n")
mut("C11-H4", C, "        self.instruct = copy.deepcopy(instruct)\n", "        self.instruct = dict(instruct)\n")
mut("C11-H5", O, "tuple(b.tolist() for b in self.bins) if", "tuple((b.min(), b.max(), b.size) for b in self.bins) if")
mut("C11-H6", O, "                    [self._functions[p].lineage for p in self.instances],", "                    [type(self._functions[p])(self.llh_name).lineage for p in self.instances],")
# ---- C12
mut("C12-H1", U, "    with open(file_name, \"rb\") as file:\n        content = file.read()\n", "    content = b\"\"\n    with open(file_name, \"rb\", buffering=0) as file:\n        while True:\n            block = file.read(65536)\n            content += block\n            if len(block) < 65536:\n                break\n")
mut("C12-H2", U, "    if os.path.isfile(fname):\n        return fname\n", "    if os.path.isfile(fname):\n        return fname\n    if os.path.isabs(fname):\n        # the file was moved, look for it in the usual places\n        fname = os.path.basename(fname)\n")
mut("C12-H3", C, "            par_config = load_json(par_config)\n        return par_config", "            par_config = load_json(par_config)\n        return par_config") if False else None
mut("C12-H4", L, "        data, self._data_sha256 = load_data(self._data_full_path, return_sha256=True)\n        self.data = data[self._bins_on].to_numpy()", "        data, self._data_sha256 = load_data(self._data_full_path, return_sha256=True)\n        self.data = data[self._bins_on].dropna().to_numpy()") if False else None
mut("C12-H5", G, "        if self.name in _cached_configs:\n            value = _cached_configs[self.name]\n        else:\n            value = self.get_default()\n            if transform is not None:\n                value = transform(value)\n            _cached_configs[self.name] = value\n", "        if self.name in _cached_configs:\n            value = _cached_configs[self.name]\n        else:\n            value = self.get_default()\n            if transform is not None:\n                try:\n                    value = transform(value)\n                except RuntimeError:\n                    value = transform(value.replace(\"_1.json\", \".json\"))\n            _cached_configs[self.name] = value\n")
mut("C12-H6", C, "        if \"url_base\" in instruct.keys():\n            self.update_url_base(instruct[\"url_base\"])", "        if \"url_base\" in instruct.keys() and os.access(instruct[\"url_base\"], os.R_OK):\n            self.update_url_base(instruct[\"url_base\"])")


def dropped_keys():
    """Every place where a new key is taken: use the old one again."""
    import glob, re
    for f in sorted(glob.glob("/repo/appletree/plugins/*.py")) + ["/repo/appletree/randgen.py"]:
        lines = open(f).read().split("\n")
        for i, line in enumerate(lines):
            if re.match(r"\s+key, .*= .*\(", line):
                rel = os.path.relpath(f, "/repo")
                # the line with its predecessors, which makes it unique
                k = i
                while "\n".join(lines).count("\n".join(lines[k:i + 1])) > 1:
                    k -= 1
                old = "\n".join(lines[k:i + 1])
                new = "\n".join(lines[k:i] + [line.replace("key, ", "_key, ", 1)])
                mut(f"C09-{os.path.basename(f)[:-3]}-{i + 1}", rel, old, new)


dropped_keys()
mut("C09-clock", K, "        return random.fold_in(random.PRNGKey(seed % 2**32), seed // 2**32)\n", "")
mut("C09-clock-s", K, "seed = int(time() * 1e6)", "seed = int(time())")
mut("C09-clock-ms", K, "seed = int(time() * 1e6)", "seed = int(time() * 1e3)")
mut("C09-a", C, """                key, log_likelihood_i =""", """                _, log_likelihood_i =""")
mut("C09-b", L, "key, _hist = component.simulate_hist(key", "_, _hist = component.simulate_hist(key")
mut("C09-c", L, "key, _result = component.simulate_weighted_data(key", "_, _result = component.simulate_weighted_data(key")
mut("C09-d", L, "        key, result = self._simulate_yields(key, 1, parameters)", "        _, result = self._simulate_yields(key, 1, parameters)")
mut("C09-e", O, "            key, results = self.simulate(key, batch_size, parameters)", "            _, results = self.simulate(key, batch_size, parameters)")
mut("C09-f", O, "            key, results = self.multiple_simulations(key", "            _, results = self.multiple_simulations(key")
mut("C09-g", F, "        key, *outputs = plugin_instance.simulate(key, parameters, *args)\n        for out in outputs:\n            out.block_until_ready()\n        end", "        _, *outputs = plugin_instance.simulate(key, parameters, *args)\n        for out in outputs:\n            out.block_until_ready()\n        end")
mut("C09-h", L, "        key, model_hist = self._simulate_model_hist(key, batch_size, parameters)\n\n        # More", "        _, model_hist = self._simulate_model_hist(key, batch_size, parameters)\n\n        # More")
mut("C09-i", C, """        def _log_posterior_once(batch_size):
            key = randgen.get_key()
""", """        first = randgen.get_key()

        def _log_posterior_once(batch_size):
            key = first
""")
mut("C09-j", O, """        code += f"{indent}return {output}\\n"
""", """        code = code.replace("key, " + self.worksheet[-1][1][0] + " =", "_key, " + self.worksheet[-1][1][0] + " =")
        code += f"{indent}return {output}\\n"
""")
M = [m for m in M if m[1][0][1] is not None]


def run(id, edits):
    w = f"/tmp/mut_{id}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            n = s.count(old)
            if n < 1:
                return f"{id}: OLD TEXT NOT FOUND in {f}: {old[:60]!r}"
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        t = time.time()
        r = subprocess.run(["bash", "run.sh", id.split("-")[0], "--tier", "quick", "--no-evidence",
                            "--minimise-seconds", "0"], cwd="/verif",
                           env={**os.environ, "DST_REPO": w}, capture_output=True, text=True)
        out = r.stdout + r.stderr
        why = [l for l in out.splitlines() if l.startswith("seed")]
        return f"{id}: exit {r.returncode} {time.time() - t:.0f} s {(why or ['-'])[0][:150]}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        print(*[m[0] for m in M])
    else:
        only = sys.argv[3:]
        for id, edits in M:
            if id in ("C01-a", "C01-b") and not only:
                continue
            if only and id not in only and id.split("-")[0] not in only:
                continue
            line = run(id, edits)
            print(line, flush=True)
            open(sys.argv[2], "a").write(line + "\n")
