From bfe676d318e2aa2b1c2a30b7c557101ea656a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 01/28] fix: parse the instruct stored in a backend file as
 JSON

from_backend evaluated the JSON text as Python, so any null, true, false,
NaN or Infinity in the instruct made the chain impossible to restore.
---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 2e49d3e..def8b48 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -60,7 +60,7 @@ class Context:
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
-            instruct = eval(file["mcmc"].attrs["instruct"])
+            instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
         tree = cls(instruct)
-- 
2.43.0


From dbb52ce51e3a10b37f80bcf9307ff590448ab245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 02/28] fix: forget cached samples when a new sampler is
 prepared

get_post_parameters kept the samples of the first call forever, so after
continue_fitting or a second fitting it reported (and stored in the backend
file) the best fit of an outdated chain.
---
 appletree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index def8b48..690728e 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -222,6 +222,9 @@ class Context:
         repeat_times=1,
     ):
         """Prepare for fitting, initialize backend and sampler."""
+        # Samples cached by get_post_parameters belong to the previous sampler
+        self.__dict__.pop("_logp", None)
+        self.__dict__.pop("_chain", None)
         self._set_backend(nwalkers, read_only=read_only, reset=reset)
         self.sampler = emcee.EnsembleSampler(
             nwalkers,
-- 
2.43.0


From 0966971b1eac6680d7a042afa6a7bd2a64fac820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 03/28] fix: continue_fitting without a backend file

A context without backend_h5 lost its chain when it continued its own fit:
the new sampler got an empty backend, and run_mcmc had nothing to start from.
---
 appletree/context.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index 690728e..9b0e052 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -202,9 +202,9 @@ class Context:
     def _ndim(self):
         return len(self.par_manager.parameter_fit_array)
 
-    def _set_backend(self, nwalkers=100, read_only=True, reset=False):
+    def _set_backend(self, nwalkers=100, read_only=True, reset=False, backend=None):
         if self.backend_h5 is None:
-            self._backend = None
+            self._backend = backend
             print("With no backend")
         else:
             self._backend = emcee.backends.HDFBackend(self.backend_h5, read_only=read_only)
@@ -220,12 +220,18 @@ class Context:
         batch_size=1_000_000,
         moves=None,
         repeat_times=1,
+        backend=None,
     ):
-        """Prepare for fitting, initialize backend and sampler."""
+        """Prepare for fitting, initialize backend and sampler.
+
+        Args:
+            backend: in-memory backend to be continued, only used when there is no backend_h5.
+
+        """
         # Samples cached by get_post_parameters belong to the previous sampler
         self.__dict__.pop("_logp", None)
         self.__dict__.pop("_chain", None)
-        self._set_backend(nwalkers, read_only=read_only, reset=reset)
+        self._set_backend(nwalkers, read_only=read_only, reset=reset, backend=backend)
         self.sampler = emcee.EnsembleSampler(
             nwalkers,
             self._ndim,
@@ -287,7 +293,9 @@ class Context:
         if context is None:
             context = self
             p0 = None
+            backend = self.sampler.backend
         else:
+            backend = None
             # Final iteration
             final_iteration = context.sampler.get_chain()[-1, :, :]
             p0 = final_iteration.tolist()
@@ -302,6 +310,7 @@ class Context:
             batch_size=batch_size,
             moves=moves,
             repeat_times=repeat_times,
+            backend=backend,
         )
 
         result = self.sampler.run_mcmc(
-- 
2.43.0


From 97989d16b2099f2dd3f2c7d3ab074425fc61f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 04/28] fix: twohalfnorm used the same key twice

The half and the size of the deviation were drawn from the same key, so they
were not independent.
---
 appletree/randgen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6d9a3ea..1e0d52d 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -640,6 +640,7 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
     use_pos_half = random.uniform(seed, shape, minval=0.0, maxval=1.0) < pos_half_prob
     use_neg_half = ~use_pos_half
 
+    key, seed = random.split(key)
     n_sigma = jnp.abs(random.normal(seed, shape=shape))
     offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
     rvs = offset + mu
-- 
2.43.0


From 3ba2b33ea3755a9d70bce82fc92a172ac4c5833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 05/28] fix: lineage of a plugin describes its own configs

The configs in takes_config are shared by all instances of a plugin and are
rebuilt for every new instance, so the lineage of a plugin changed when
another likelihood or context was created.
---
 appletree/plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 212ad6b..9914510 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -100,7 +100,7 @@ class Plugin:
             "takes_config": dict(
                 zip(
                     self.takes_config.keys(),
-                    [v.lineage for v in self.takes_config.values()],
+                    [getattr(self, name).lineage for name in self.takes_config.keys()],
                 )
             ),
         }
-- 
2.43.0


From 66bcb6d14022128c4af9f133533394e3f159cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 06/28] fix: a built SigmaMap keeps its scaler

apply looked up the name of the scaler in the global configuration when the
simulation was traced, which can be after that configuration was cleared or
replaced by another context.
---
 appletree/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4845980..5f0073a 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -488,6 +488,7 @@ class SigmaMap(Config):
         self.upper.build(llh_name=self.llh_name)
 
         required_parameter = self.required_parameter()
+        self._required_parameter = required_parameter
         if required_parameter is not None:
             print(
                 f"{self.llh_name}'s map {self.name} is using "
@@ -541,10 +542,10 @@ class SigmaMap(Config):
 
     def apply(self, pos, parameters):
         """Apply SigmaMap with sigma and position."""
-        if self.required_parameter() is None:
+        if self._required_parameter is None:
             sigma = 1.0
         else:
-            sigma = parameters[self.required_parameter()]
+            sigma = parameters[self._required_parameter]
         median = self.median.apply(pos)
         lower = self.lower.apply(pos)
         upper = self.upper.apply(pos)
-- 
2.43.0


From 06080d1edbf04c9b2ca857d9ba63eb068e086e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 07/28] fix: a component keeps using its own plugins

lineage, compile and the normalization of bootstrapped events looked the
plugins up in the global cache, which fails after clear_cache, or finds the
plugins of another context with the same likelihood name.
---
 appletree/component.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index de7c5d6..f192c3e 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -165,9 +165,7 @@ class Component:
             if self._use_mcinput:
                 bootstrap_name = self._plugin_class_registry["energy"].__name__
                 bootstrap_name = bootstrap_name + "_" + self.name
-                n_events_selected = _cached_functions[self.llh_name][
-                    bootstrap_name
-                ].g4.n_events_selected
+                n_events_selected = self._functions[bootstrap_name].g4.n_events_selected
                 normalization_factor = 1 / n_events_selected * parameters[self.rate_name]
             else:
                 normalization_factor = 1 / batch_size * parameters[self.rate_name]
@@ -397,8 +395,9 @@ class ComponentSim(Component):
     @code.setter
     def code(self, code):
         self._code = code
-        _cached_functions[self.llh_name] = dict()
-        self._compile = partial(exec, self.code, _cached_functions[self.llh_name])
+        self._functions = dict()
+        _cached_functions[self.llh_name] = self._functions
+        self._compile = partial(exec, self.code, self._functions)
 
     def deduce(
         self,
@@ -435,7 +434,7 @@ class ComponentSim(Component):
     def compile(self):
         """Build simulation function and cache it to share._cached_functions."""
         self._compile()
-        self.simulate = _cached_functions[self.llh_name][self.func_name]
+        self.simulate = self._functions[self.func_name]
 
     def simulate_hist(self, key, batch_size, parameters):
         """Simulate and return histogram.
@@ -585,7 +584,7 @@ class ComponentSim(Component):
             "instances": dict(
                 zip(
                     self.instances,
-                    [_cached_functions[self.llh_name][p].lineage for p in self.instances],
+                    [self._functions[p].lineage for p in self.instances],
                 )
             ),
             **bins_dict,
-- 
2.43.0


From edd186c355ed08b89c26892f5e61fc8c19e94f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 08/28] fix: multiple_simulations_compile without g4 config

It raised KeyError for every model that does not bootstrap Geant4 events.
---
 appletree/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index f192c3e..07ed992 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -113,7 +113,7 @@ class Component:
         limit of GPU."""
         results_pile = []
         for _ in range(times):
-            if _cached_configs["g4"] and self._use_mcinput:
+            if _cached_configs.get("g4") and self._use_mcinput:
                 if isinstance(_cached_configs["g4"], dict):
                     g4_file_name = _cached_configs["g4"][self.llh_name][0]
                     _cached_configs["g4"][self.llh_name] = [
-- 
2.43.0


From 67159bf095bace61d14f94a82e9261e3469f0245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 09/28] fix: sum the log prior in a fixed order

The terms were added in the iteration order of a set of strings, which
changes from process to process, and the rounding of the sum with it.
---
 appletree/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/parameter.py b/appletree/parameter.py
index 03baebb..1456b73 100644
--- a/appletree/parameter.py
+++ b/appletree/parameter.py
@@ -140,7 +140,7 @@ class Parameter:
         """
         log_prior = 0
 
-        for par_name in self._parameter_fit:
+        for par_name in self.parameter_fit:
             val = self._parameter_dict[par_name]
             setting = self.par_config[par_name]
 
-- 
2.43.0


From 9cac65e689eeb13b91c15230b963d1b1aafb9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 10/28] fix: lineage of ConstantSet can be dumped

dump_lineage failed because numpy arrays are not JSON serializable.
---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 5f0073a..ced896e 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -597,5 +597,5 @@ class ConstantSet(Config):
     def lineage(self):
         return {
             "llh_name": self.llh_name,
-            "value": self.value,
+            "value": {k: v.tolist() for k, v in self.value.items()},
         }
-- 
2.43.0


From b0541e3ce230d053456553e5f9a85eed87a0d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 11/28] fix: the context keeps its own copy of the instruct

What the caller does to the dictionary afterwards ended up in the backend
file, which was then restored as another model.
---
 appletree/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index 9b0e052..514cc8a 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -37,8 +37,8 @@ class Context:
         if "url_base" in instruct.keys():
             self.update_url_base(instruct["url_base"])
 
-        self.instruct = instruct
-        self.config = instruct.get("configs", {})
+        self.instruct = copy.deepcopy(instruct)
+        self.config = self.instruct.get("configs", {})
         set_global_config(self.config)
 
         self.backend_h5 = instruct.get("backend_h5", None)
-- 
2.43.0


From 142e16c5c2442ee3e2519a3300736285f5c56f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 12/28] fix: do not wipe a chain whose file can not be opened

emcee reports a backend file as not initialized when opening it fails for any
reason, e.g. because it is locked for a moment, and the sampler then resets
it: continue_fitting lost the whole chain.
---
 appletree/context.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 514cc8a..79db5f4 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -20,6 +20,21 @@ from appletree.share import _cached_configs, set_global_config
 os.environ["OMP_NUM_THREADS"] = "1"
 
 
+class _HDFBackend(emcee.backends.HDFBackend):
+    """Backend which never takes a file that can not be opened for an empty one.
+
+    The sampler would reset such a backend, i.e. wipe the chain stored in the file.
+
+    """
+
+    @property
+    def initialized(self):
+        if not os.path.exists(self.filename):
+            return False
+        with self.open() as f:
+            return self.name in f
+
+
 class Context:
     """Combine all likelihood (e.g. Rn220, Ar37), handle MCMC and post-fitting analysis."""
 
@@ -207,7 +222,7 @@ class Context:
             self._backend = backend
             print("With no backend")
         else:
-            self._backend = emcee.backends.HDFBackend(self.backend_h5, read_only=read_only)
+            self._backend = _HDFBackend(self.backend_h5, read_only=read_only)
             if reset:
                 self._backend.reset(nwalkers, self._ndim)
             print(f"With h5 backend {self.backend_h5}")
-- 
2.43.0


From 46cd8ff1de56bd6282c7d63b5fc4afaf3095150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 13/28] fix: store the settings of a fitting before its first
 sample

They were only written after the last iteration, so the samples of a fitting
that was interrupted could neither be restored nor plotted.
---
 appletree/context.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index 79db5f4..b001adb 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -283,6 +283,8 @@ class Context:
             moves=moves,
             repeat_times=repeat_times,
         )
+        # An interrupted fitting can only be restored if its settings are already there
+        self._dump_meta(batch_size=batch_size, summarize=False)
 
         result = self.sampler.run_mcmc(
             p0,
@@ -327,6 +329,7 @@ class Context:
             repeat_times=repeat_times,
             backend=backend,
         )
+        self._dump_meta(batch_size=batch_size, summarize=False)
 
         result = self.sampler.run_mcmc(
             p0,
@@ -382,8 +385,15 @@ class Context:
         with open(file_name, "w") as fp:
             json.dump(parameters, fp)
 
-    def _dump_meta(self, batch_size, metadata=None):
-        """Save parameters name as attributes."""
+    def _dump_meta(self, batch_size, metadata=None, summarize=True):
+        """Save parameters name as attributes.
+
+        Args:
+            batch_size: int of number of simulated events.
+            metadata: dict of metadata.
+            summarize: bool, whether also save the summary of the samples.
+
+        """
         if metadata is None:
             metadata = {
                 "version": apt.__version__,
@@ -397,10 +407,6 @@ class Context:
                 opt[name].attrs["par_config"] = json.dumps(
                     self.par_manager.par_config, **JSON_OPTIONS
                 )
-                # max posterior parameters
-                opt[name].attrs["post_parameters"] = json.dumps(
-                    self.get_post_parameters(), **JSON_OPTIONS
-                )
                 # the order of parameters saved in backend
                 opt[name].attrs["parameter_fit"] = self.par_manager.parameter_fit
                 # instructions
@@ -411,6 +417,12 @@ class Context:
                 opt[name].attrs["_cached_configs"] = json.dumps(_cached_configs, **JSON_OPTIONS)
                 # batch size
                 opt[name].attrs["batch_size"] = batch_size
+                if not summarize:
+                    return
+                # max posterior parameters
+                opt[name].attrs["post_parameters"] = json.dumps(
+                    self.get_post_parameters(), **JSON_OPTIONS
+                )
                 # acceptance fraction of MCMC
                 opt[name].attrs["acceptance_fraction"] = self.sampler.acceptance_fraction
                 # autocorrelation time
-- 
2.43.0


From 343e0d7b508f20e7a25565661c932b542a43fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 14/28] fix: keep the order of likelihoods and components in
 the stored instruct

They were sorted by name, so the restored context handed other random keys to
its likelihoods than the context which started the fitting.
---
 appletree/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index b001adb..23dae95 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -409,8 +409,8 @@ class Context:
                 )
                 # the order of parameters saved in backend
                 opt[name].attrs["parameter_fit"] = self.par_manager.parameter_fit
-                # instructions
-                opt[name].attrs["instruct"] = json.dumps(self.instruct, **JSON_OPTIONS)
+                # instructions, the order of likelihoods and components matters
+                opt[name].attrs["instruct"] = json.dumps(self.instruct, indent=4)
                 # configs
                 opt[name].attrs["config"] = json.dumps(self.config, **JSON_OPTIONS)
                 # configurations, maybe users will manually add some maps
-- 
2.43.0


From 8ea981381ff4e9e39474086ae3eb0108be003df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 15/28] fix: restore the parameters stored in the backend file

from_backend read the parameter file named in the instruct again, which is
not what was fitted if the context was created with par_config, and may have
changed or be gone.
---
 appletree/context.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index 23dae95..49ca739 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -78,7 +78,8 @@ class Context:
             instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
-        tree = cls(instruct)
+            par_config = json.loads(file["mcmc"].attrs["par_config"])
+        tree = cls(instruct, par_config=par_config)
         # Overwrite the backend_h5 file name. If the user renames the
         # backend file then it could be different from the one in intruct
         tree.backend_h5 = backend_h5_file_name
@@ -489,7 +490,9 @@ class Context:
             for k, v in likelihood["copy_parameters"].items():
                 # specify rate scale
                 # normalization factor, for AC & ER, etc.
-                self.par_config.update({k: self.par_config[v]})
+                # Already done if par_config was restored from a backend
+                if v in self.par_config or k not in self.par_config:
+                    self.par_config.update({k: self.par_config[v]})
                 from_parameters.append(v)
                 needed_parameters.add(k)
             for k in likelihood["components"].keys():
-- 
2.43.0


From 1e200de6b8bca9462ada14acedd33bed50ffb9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 16/28] fix: continue an interrupted fitting without a backend
 file

emcee can not shrink the space it has reserved for the interrupted fitting, so
continue_fitting failed if it was asked for fewer iterations than were left.
---
 appletree/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index 49ca739..6c9d386 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -221,6 +221,11 @@ class Context:
     def _set_backend(self, nwalkers=100, read_only=True, reset=False, backend=None):
         if self.backend_h5 is None:
             self._backend = backend
+            if backend is not None:
+                # Drop the space reserved for iterations that were never reached
+                for name in ("chain", "log_prob", "blobs"):
+                    if getattr(backend, name) is not None:
+                        setattr(backend, name, getattr(backend, name)[: backend.iteration])
             print("With no backend")
         else:
             self._backend = _HDFBackend(self.backend_h5, read_only=read_only)
-- 
2.43.0


From 56b38675b546a55a3f752ea920a4a620388f4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 17/28] fix: lineage describes files as they were loaded

---
 appletree/component.py  | 7 +++++--
 appletree/config.py     | 7 +++++--
 appletree/likelihood.py | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index 07ed992..436fcc7 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -609,6 +609,9 @@ class ComponentFixed(Component):
     def deduce(self, data_names: Union[List[str], Tuple[str]] = ["cs1", "cs2"]):
         """Deduce the needed parameters and make the fixed histogram."""
         self.data = load_data(self._file_name)[list(data_names)].to_numpy()
+        # The lineage describes the file that was loaded
+        self._full_path = get_file_path(self._file_name)
+        self._sha256 = calculate_sha256(self._full_path)
         self.eff = jnp.ones(len(self.data))
         self.hist = self.implement_binning(self.data, self.eff)
         self.needed_parameters.add(self.rate_name)
@@ -643,9 +646,9 @@ class ComponentFixed(Component):
             "file_path": (
                 os.path.basename(self._file_name)
                 if not utils.FULL_PATH_LINEAGE
-                else get_file_path(self._file_name)
+                else self._full_path
             ),
-            "sha256": calculate_sha256(get_file_path(self._file_name)),
+            "sha256": self._sha256,
         }
 
 
diff --git a/appletree/config.py b/appletree/config.py
index ced896e..1130e02 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -213,6 +213,9 @@ class Map(Config):
             data = load_json(self.file_path)
         except Exception:
             raise ValueError(f"Cannot load {self.name} from {_file_path}!")
+        # The lineage describes the file that was loaded
+        self._full_path = _file_path
+        self._sha256 = calculate_sha256(_file_path)
 
         coordinate_type = data["coordinate_type"]
         if isinstance(coordinate_type, list):
@@ -383,9 +386,9 @@ class Map(Config):
             "file_path": (
                 os.path.basename(self.file_path)
                 if not utils.FULL_PATH_LINEAGE
-                else get_file_path(self.file_path)
+                else self._full_path
             ),
-            "sha256": calculate_sha256(get_file_path(self.file_path)),
+            "sha256": self._sha256,
         }
 
 
diff --git a/appletree/likelihood.py b/appletree/likelihood.py
index 765c856..d96a003 100644
--- a/appletree/likelihood.py
+++ b/appletree/likelihood.py
@@ -87,6 +87,9 @@ class Likelihood:
         self._sanity_check()
 
         self.data = load_data(self._data_file_name)[self._bins_on].to_numpy()
+        # The lineage describes the file that was loaded
+        self._data_full_path = get_file_path(self._data_file_name)
+        self._data_sha256 = calculate_sha256(self._data_full_path)
         if self._dim == 1:
             mask = self.data[:, 0] > config["clip"][0]
             mask &= self.data[:, 0] < config["clip"][1]
@@ -442,9 +445,9 @@ class Likelihood:
             "file_path": (
                 os.path.basename(self._data_file_name)
                 if not utils.FULL_PATH_LINEAGE
-                else get_file_path(self._data_file_name)
+                else self._data_full_path
             ),
-            "sha256": calculate_sha256(get_file_path(self._data_file_name)),
+            "sha256": self._data_sha256,
             "components": dict(
                 zip(
                     self.components.keys(),
-- 
2.43.0


From 3ccc80adecf26b7a8faaa8e3088cc0e1d74fee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 18/28] fix: plot the maps a context was built with

---
 appletree/plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index b291874..8e64846 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -469,11 +469,12 @@ def _collect_maps(context):
             # Only iterate over plugins actually used in the
             # simulation (worksheet), not all registered plugins.
             for work in component.worksheet:
-                provides = work[1]
-                # Look up the plugin class via its first provides name
-                plugin_class = component._plugin_class_registry[provides[0]]
+                # Look up the plugin instance, the configs of the
+                # plugin class belong to the last built instance.
+                plugin = component._functions[work[0] + "_" + component.name]
 
-                for config in plugin_class.takes_config.values():
+                for config_name in plugin.takes_config.keys():
+                    config = getattr(plugin, config_name)
                     if isinstance(config, SigmaMap):
                         key = (
                             config.median.file_path,
-- 
2.43.0


From 2cbe59ccc0411a6c70d7c4d7431d45ad9d237f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 19/28] fix: best-fit template of a likelihood with parameter
 alias

---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 6c9d386..a3605f7 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -450,7 +450,7 @@ class Context:
             seed: random seed.
 
         """
-        parameters = self.get_post_parameters()
+        parameters = self[likelihood_name].replace_alias(self.get_post_parameters())
         key = randgen.get_key(seed=seed)
 
         key, result = self[likelihood_name][component_name].simulate(
-- 
2.43.0


From 071b88bf8e745e0230fc1bdcaf18c1d0f1bc8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 20/28] fix: hash the content that was loaded, not the file
 afterwards

---
 appletree/component.py  |  8 ++++----
 appletree/config.py     |  6 ++----
 appletree/likelihood.py |  7 +++----
 appletree/utils.py      | 41 ++++++++++++++++++++++++++++++++---------
 4 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index 436fcc7..64b3568 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -12,7 +12,7 @@ from appletree import utils
 from appletree.config import OMITTED
 from appletree.plugin import Plugin
 from appletree.share import _cached_configs, _cached_functions, set_global_config
-from appletree.utils import exporter, get_file_path, load_data, calculate_sha256
+from appletree.utils import exporter, get_file_path, load_data
 from appletree.hist import make_hist_mesh_grid, make_hist_irreg_bin_1d, make_hist_irreg_bin_2d
 
 export, __all__ = exporter()
@@ -608,10 +608,10 @@ class ComponentFixed(Component):
 
     def deduce(self, data_names: Union[List[str], Tuple[str]] = ["cs1", "cs2"]):
         """Deduce the needed parameters and make the fixed histogram."""
-        self.data = load_data(self._file_name)[list(data_names)].to_numpy()
-        # The lineage describes the file that was loaded
+        # The lineage describes the content that was loaded
         self._full_path = get_file_path(self._file_name)
-        self._sha256 = calculate_sha256(self._full_path)
+        data, self._sha256 = load_data(self._full_path, return_sha256=True)
+        self.data = data[list(data_names)].to_numpy()
         self.eff = jnp.ones(len(self.data))
         self.hist = self.implement_binning(self.data, self.eff)
         self.needed_parameters.add(self.rate_name)
diff --git a/appletree/config.py b/appletree/config.py
index 1130e02..3a1fb2e 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -16,7 +16,6 @@ from appletree.utils import (
     get_file_path,
     integrate_midpoint,
     cumulative_integrate_midpoint,
-    calculate_sha256,
 )
 from appletree import interpolation
 from appletree.interpolation import FLOAT_POS_MIN, FLOAT_POS_MAX
@@ -210,12 +209,11 @@ class Map(Config):
         # try to find the path first
         _file_path = get_file_path(self.file_path)
         try:
-            data = load_json(self.file_path)
+            # The lineage describes the content that was loaded
+            data, self._sha256 = load_json(_file_path, return_sha256=True)
         except Exception:
             raise ValueError(f"Cannot load {self.name} from {_file_path}!")
-        # The lineage describes the file that was loaded
         self._full_path = _file_path
-        self._sha256 = calculate_sha256(_file_path)
 
         coordinate_type = data["coordinate_type"]
         if isinstance(coordinate_type, list):
diff --git a/appletree/likelihood.py b/appletree/likelihood.py
index d96a003..ba3280c 100644
--- a/appletree/likelihood.py
+++ b/appletree/likelihood.py
@@ -16,7 +16,6 @@ from appletree.utils import (
     load_data,
     get_equiprob_bins_1d,
     get_equiprob_bins_2d,
-    calculate_sha256,
 )
 from appletree.component import Component, ComponentSim, ComponentFixed
 from appletree.randgen import TwoHalfNorm, BandTwoHalfNorm
@@ -86,10 +85,10 @@ class Likelihood:
         self.needed_parameters: Set[str] = set()
         self._sanity_check()
 
-        self.data = load_data(self._data_file_name)[self._bins_on].to_numpy()
-        # The lineage describes the file that was loaded
+        # The lineage describes the content that was loaded
         self._data_full_path = get_file_path(self._data_file_name)
-        self._data_sha256 = calculate_sha256(self._data_full_path)
+        data, self._data_sha256 = load_data(self._data_full_path, return_sha256=True)
+        self.data = data[self._bins_on].to_numpy()
         if self._dim == 1:
             mask = self.data[:, 0] > config["clip"][0]
             mask &= self.data[:, 0] < config["clip"][1]
diff --git a/appletree/utils.py b/appletree/utils.py
index 6b08084..4c4b747 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -1,3 +1,4 @@
+import io
 import os
 import json
 from warnings import warn
@@ -98,29 +99,51 @@ def use_xenon_plot_style():
     plt.rcParams.update(params)
 
 
+def _read_file(file_name):
+    """Content of the file, and the sha256 of that very content."""
+    with open(file_name, "rb") as file:
+        content = file.read()
+    return content, hashlib.sha256(content).hexdigest()
+
+
 @export
-def load_data(file_name: str):
+def load_data(file_name: str, return_sha256: bool = False):
     """Load data from file.
 
     The suffix can be ".csv", ".pkl".
 
+    Args:
+        file_name: name of the file.
+        return_sha256: whether to return also the sha256 of the content that was loaded.
+
     """
     file_name = get_file_path(file_name)
     fmt = file_name.split(".")[-1]
+    if fmt not in ("csv", "pkl"):
+        raise ValueError(f"unsupported file format {fmt}!")
+    content, sha256 = _read_file(file_name)
     if fmt == "csv":
-        data = pd.read_csv(file_name)
-    elif fmt == "pkl":
-        data = pd.read_pickle(file_name)
+        data = pd.read_csv(io.BytesIO(content))
     else:
-        raise ValueError(f"unsupported file format {fmt}!")
+        data = pd.read_pickle(io.BytesIO(content))
+    if return_sha256:
+        return data, sha256
     return data
 
 
 @export
-def load_json(file_name: str):
-    """Load data from json file."""
-    with open(get_file_path(file_name), "r") as file:
-        data = json.load(file)
+def load_json(file_name: str, return_sha256: bool = False):
+    """Load data from json file.
+
+    Args:
+        file_name: name of the file.
+        return_sha256: whether to return also the sha256 of the content that was loaded.
+
+    """
+    content, sha256 = _read_file(get_file_path(file_name))
+    data = json.loads(content)
+    if return_sha256:
+        return data, sha256
     return data
 
 
-- 
2.43.0


From 7a4ef4f752622d68a98bdd703d2d65df337a8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 21/28] fix: profile the plugins a component simulates with

---
 appletree/profiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/appletree/profiler.py b/appletree/profiler.py
index d18219b..417f2b6 100644
--- a/appletree/profiler.py
+++ b/appletree/profiler.py
@@ -109,8 +109,12 @@ def profile_component(
         plugin_name = work[0]
         provides = work[1]
 
-        plugin_class = component._plugin_class_registry[provides[0]]
-        plugin_instance = plugin_class(component.llh_name)
+        # Profile the plugins that the component simulates with
+        plugin_instance = component._functions.get(plugin_name + "_" + component.name)
+        if plugin_instance is None:
+            # The component is not compiled yet
+            plugin_class = component._plugin_class_registry[provides[0]]
+            plugin_instance = plugin_class(component.llh_name)
 
         key, output_data, mean_time, std_time = profile_plugin(
             plugin_instance,
-- 
2.43.0


From 13ebebfde95371695747d9618eba751c50922cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 22/28] fix: uniform prior vanishes outside its bounds

---
 appletree/parameter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/parameter.py b/appletree/parameter.py
index 1456b73..a30389f 100644
--- a/appletree/parameter.py
+++ b/appletree/parameter.py
@@ -167,7 +167,9 @@ class Parameter:
             elif prior_type == "free":
                 pass
             elif prior_type == "uniform":
-                pass
+                # The prior vanishes outside its bounds
+                if val < args["lower"] or val > args["upper"]:
+                    log_prior += -np.inf
 
         return log_prior
 
-- 
2.43.0


From 21374526570095005a4280b6fc94bd86120e6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 23/28] fix: read the samples from the backend file that was
 found

---
 appletree/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index a3605f7..1868164 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -74,7 +74,9 @@ class Context:
     @classmethod
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
-        with h5py.File(get_file_path(backend_h5_file_name)) as file:
+        # The search for files can depend on the context to be initialized
+        backend_h5_file_name = get_file_path(backend_h5_file_name)
+        with h5py.File(backend_h5_file_name) as file:
             instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
-- 
2.43.0


From 8cef131f0c394cb1c267908fcdc5b6650950785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 24/28] fix: keys taken from the clock do not repeat every 72
 minutes

---
 appletree/randgen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 1e0d52d..5651a12 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -37,6 +37,8 @@ def get_key(seed=None):
     """Generate a key for jax.random."""
     if seed is None:
         seed = int(time() * 1e6)
+        # Without x64 only the lower 32 bits of a seed are used, i.e. keys would repeat every 72 min
+        return random.fold_in(random.PRNGKey(seed % 2**32), seed // 2**32)
     return random.PRNGKey(seed)
 
 
-- 
2.43.0


From 5d684615d73f0a3b9369b12ce1c9566956bbfee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 25/28] fix: packaged contexts can be restored from a backend
 file

---
 appletree/contexts/er_only.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/appletree/contexts/er_only.py b/appletree/contexts/er_only.py
index d50ddcc..c3daa87 100644
--- a/appletree/contexts/er_only.py
+++ b/appletree/contexts/er_only.py
@@ -1,20 +1,17 @@
 from appletree.context import Context
-from appletree.utils import get_file_path
 
 
 class ContextRn220(Context):
     """A specified context for ER response by Rn220 fit."""
 
-    def __init__(self):
+    def __init__(self, instruct="rn220.json", par_config=None):
         """Initialization."""
-        config = get_file_path("rn220.json")
-        super().__init__(config)
+        super().__init__(instruct, par_config=par_config)
 
 
 class ContextRn220Ar37(Context):
     """A specified context for ER response by Rn220 & Ar37 combined fit."""
 
-    def __init__(self):
+    def __init__(self, instruct="rn220_ar37.json", par_config=None):
         """Initialization."""
-        config = get_file_path("rn220_ar37.json")
-        super().__init__(config)
+        super().__init__(instruct, par_config=par_config)
-- 
2.43.0


From 46d4f777e4f792db87468c2c70885970b5acbb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 26/28] fix: samples cached while a fitting runs are refreshed

---
 appletree/context.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index 1868164..af688b3 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -361,6 +361,12 @@ class Context:
         """
         # Assign attributes for the first time
         # This speeds up if the user wanna call this function many times
+        # Cached samples are outdated once more iterations have been stored
+        iteration = self.sampler.backend.iteration
+        if getattr(self, "_cached_iteration", iteration) != iteration:
+            self.__dict__.pop("_logp", None)
+            self.__dict__.pop("_chain", None)
+        self._cached_iteration = iteration
         if not hasattr(self, "_logp"):
             self._logp = self.sampler.get_log_prob(flat=True)
         if not hasattr(self, "_chain"):
-- 
2.43.0


From 036218b8b1b72c25571cb43d70800e9344b56e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 27/28] fix: keys can still be taken from a clock that shows a
 time before 1970

---
 appletree/randgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 5651a12..4667408 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -38,7 +38,7 @@ def get_key(seed=None):
     if seed is None:
         seed = int(time() * 1e6)
         # Without x64 only the lower 32 bits of a seed are used, i.e. keys would repeat every 72 min
-        return random.fold_in(random.PRNGKey(seed % 2**32), seed // 2**32)
+        return random.fold_in(random.PRNGKey(seed % 2**32), seed // 2**32 % 2**32)
     return random.PRNGKey(seed)
 
 
-- 
2.43.0


From a31cdead93578f8245f16fc1f40328f84068122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 28/28] fix: lineage of a SigmaMap names its scaler

---
 appletree/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/config.py b/appletree/config.py
index 3a1fb2e..a62d572 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -563,6 +563,7 @@ class SigmaMap(Config):
             "median": self.median.lineage,
             "lower": self.lower.lineage,
             "upper": self.upper.lineage,
+            "scaler": self._required_parameter,
         }
 
 
-- 
2.43.0

