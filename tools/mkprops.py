"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
CTX, LLH, CMP, CFG, PAR, PLG, SHR, RNG, UTL, PLT, PRF = [
    "appletree/%s.py" % n for n in ("context", "likelihood", "component", "config", "parameter", "plugin", "share",
                                    "randgen", "utils", "plot", "profiler")]

prop("C01", "An interrupted and continued fit is the same fit as an uninterrupted one",
     "A fit that takes several calls - because it was split on purpose, interrupted, stopped by a failing evaluation or "
     "a storage error, or because its process died and the fit was restored from its backend file - ends with exactly "
     "the samples, log posteriors, log priors and acceptance counts that one uninterrupted call with the same random "
     "seeds and clock produces, with or without a backend file. A context that continues the fit of another context "
     "starts from the last positions of that fit and leaves the other context's file unchanged.",
     ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
     "all models, numbers of walkers, moves and repeats; all ways of cutting the fit into calls; all points at which a "
     "process is killed, interrupted, an evaluation fails or the backend file cannot be opened or grown; all ways of "
     "carrying on (same object, restored in the same process, restored in a new process)",
     "The tests continue one finished fit once, never stop in the middle, never compare with an uninterrupted fit, and "
     "never restore in a new process.",
     [CTX, LLH, SHR], [("continue_fitting", CTX), ("from_backend", CTX), ("backend selection and sampler set-up", CTX),
                       ("settings stored with the chain", CTX)],
     [("sampler backend", "chain, log posterior, blobs, acceptances, sampler random state", CTX)],
     ["backend file", "sampler chain", "value returned by the fit call"])
prop("C02", "Completed sampling iterations are durable, unaltered and stored exactly once",
     "As soon as a sampling iteration has completed it is in the backend file, and no later crash, interruption, "
     "failing evaluation, storage error, restart, restoration, continuation or query removes, changes, duplicates or "
     "reorders it; only a newly started fit may replace it. Restoring a context from the file, asking it for results "
     "and plotting do not modify the file, and a continuation that is refused because of its arguments leaves the "
     "stored samples as they were.",
     ["crash_points", "fault_sequences", "histories"],
     "all kill, interruption and storage-error points during fits and continuations, and all sequences of calls",
     "The tests look at a backend file once, after a fit that finished normally.",
     [CTX, PLT], [("backend opened read-only or read-write and reset only for new fits", CTX),
                  ("a file that cannot be opened is not taken for an empty one", CTX), ("read-only plotter", PLT)],
     [("backend file", "durable chain", CTX)], ["backend file after every fault and every call"])
prop("C03", "Every stored sample is a true evaluation of the model inside the allowed ranges",
     "Every sample in a chain carries the log posterior and log prior that the model actually yielded for exactly "
     "those values of the parameters named in the file: an independent evaluation of the configured priors reproduces "
     "the stored log prior, and re-evaluating the model with the same random key reproduces the stored log posterior. "
     "A new fit starts at points drawn from the configured initial guesses, clipped to the allowed ranges. The sampler "
     "never moves to a point where a parameter is outside its allowed range or the bounds of its uniform prior, or where "
     "the model predicts no, negative, infinite or undefined events in a bin, or where the likelihood is undefined.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "all models, priors, allowed ranges, fixed parameters, aliases and shared rates, also after faults and restarts",
     "The tests check that the chain has the right shape; they never re-evaluate a stored sample or check the names.",
     [CTX, PAR, LLH], [("log posterior and log prior of a point", CTX), ("prior of each parameter", PAR),
                       ("order of the fitted parameters", PAR), ("rejection of invalid histograms", LLH)],
     [("current parameter values", "set anew for every evaluation", PAR)],
     ["backend file", "restored context"])
prop("C04", "Reported fit results describe the whole chain and the configured parameters",
     "After every completed fit call the reported best fit is the stored sample with the highest log posterior of the "
     "whole chain, the reported medians are those of the whole chain, and a randomly drawn parameter set is a stored "
     "sample, each completed with the configured values of the fixed parameters. The summary in the backend file, the "
     "dumped parameter file, the best-fit template and the plotter agree with it, also after the fit was continued, "
     "repeated, restored or interrupted, and after they were asked for while the fit was running.",
     ["histories", "configurations", "fault_sequences"],
     "all sequences of fits, continuations, restorations and queries, for all models; all burn-in and thinning choices "
     "of the plotter",
     "The tests call the query once after one fit, so stale results of an earlier state of the chain cannot show.",
     [CTX, PLT], [("post-fit queries", CTX), ("summary written to the backend file", CTX), ("arrays of the plotter", PLT)],
     [("cached samples", "must belong to the current chain", CTX)],
     ["get_post_parameters", "get_template", "dump_post_parameters", "attributes of the backend file", "Plotter"])
prop("C05", "A context restored from a backend file is the model that was fitted",
     "A context restored from a backend file - in the same or another process, after an interrupted or a finished fit, "
     "after the file was moved, and whatever happened in the meantime to the dictionaries, instruct files or parameter "
     "files the original context was created from - has the same parameters, fixed values, priors, allowed ranges, "
     "configuration, number of walkers and batch size, and yields identical log priors and log posteriors for every "
     "parameter point and random key. What it stores when it continues describes the same model again.",
     ["histories", "configurations", "crash_points"],
     "all models and configuration styles (files, dictionaries, null and boolean options, per-likelihood values); all "
     "points at which the original fit stopped",
     "The tests restore one context from a finished fit and only check that plotting or template generation runs.",
     [CTX, PAR, SHR], [("settings stored in the backend file", CTX), ("from_backend", CTX),
                       ("own copy of instruct and parameters", CTX)],
     [("instruct", "what is stored and restored", CTX), ("par_config", "priors and ranges", PAR)],
     ["restored context: parameters, log_posterior, sampler"])
prop("C06", "Contexts that live in the same process do not influence each other",
     "When several contexts with different likelihood names and the same or fully specified configurations live in one "
     "process, every interleaving of building, evaluating, fitting, continuing and querying them - call by call, or "
     "several fits running concurrently in threads - gives each of them exactly the results, files and lineage it has "
     "when it is alone. Clearing the cache does not change what an existing context predicts or reports.",
     ["schedules", "histories", "configurations"],
     "all interleavings of operations on two or three contexts, and all switches between concurrently running fits at "
     "evaluations and file accesses",
     "The tests run one context after the other and clear the cache in between.",
     [CTX, CMP, CFG, PLG, SHR], [("per-likelihood configuration values", SHR), ("per-instance copies of configs", PLG),
                                 ("one namespace of compiled code per likelihood", CMP)],
     [("global configuration", "shared by all contexts", SHR), ("global function cache", "keyed by likelihood", SHR),
      ("config objects of plugin classes", "shared by all instances", PLG)],
     ["predictions, chains, parameters and lineage of each context"])
prop("C07", "After clearing the cache a process behaves like a new one",
     "After the cache is cleared, any model can be configured and built again, and has the same needed parameters, "
     "binning, predictions and lineage as in a new process, whatever was configured, built, simulated, fitted, or "
     "failed to build before - in particular models with the same likelihood names and other settings.",
     ["histories", "configurations", "fault_sequences"],
     "all histories of building, failing to build, simulating and fitting other models before the cache is cleared",
     "The tests clear the cache between fixed models with fixed settings and never compare with a new process.",
     [SHR, CFG, PLG, CMP], [("clear_cache", SHR), ("configs are rebuilt for every plugin instance", PLG)],
     [("global configuration", "emptied", SHR), ("config objects of plugin classes", "survive clearing", PLG)],
     ["needed parameters, histograms, log posterior, lineage hashes"])
prop("C08", "The log posterior is a pure function of parameters, settings and random key",
     "The log posterior of a point is its log prior plus the log likelihood of every likelihood, computed from the "
     "events that the evaluation's random key generates (the mean of these over the repetitions asked for), where each "
     "likelihood sees its own renamed parameters and the histogram of a likelihood is the sum of its normalised "
     "components. It does not depend on anything evaluated before, including points that were invalid or whose evaluation "
     "failed or was interrupted; a point outside an allowed range gets minus infinity without being simulated.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "all sequences of evaluated points, valid, out of range or failing at any point, for all models",
     "The tests evaluate single points and check that the result is finite.",
     [CTX, LLH, CMP, PAR], [("log_posterior", CTX), ("get_log_likelihood", LLH), ("simulate_hist and normalisation", CMP),
                            ("set_parameter", PAR)],
     [("current parameter values", "left over from the previous point", PAR)],
     ["Context.log_posterior", "Likelihood.get_log_likelihood"])
prop("C09", "No random key is consumed twice",
     "Within one evaluation or simulation - across plugins, components, likelihoods, repeated and multiple simulations "
     "- every random draw uses a key that was not used for any other draw and was not already split, and the key "
     "handed back to the caller is unused. Evaluations at different clock readings use different keys.",
     ["programs", "inputs", "histories"],
     "all models, packaged and generated, all parameters, and all random samplers the package provides",
     "Reused keys only show as subtle correlations between quantities that should be independent; the tests check no "
     "correlations.",
     [RNG, CTX, CMP, "appletree/plugins"], [("every sampler splits its key and returns a new one", RNG),
                                            ("keys are threaded through plugins, components and likelihoods", CMP)],
     [("random key", "threaded through the simulation", CMP)], ["keys consumed by the jax.random calls"])
prop("C10", "A seeded analysis is reproducible in every process",
     "With the same model files, seeds and clock, every process produces the same binning, initial walkers, simulated "
     "events, histograms, chains, stored results and lineage hashes, independently of the interpreter's hash seed "
     "and of what the process did before. A simulation or template with an explicit seed does not depend on the clock or on other random number generators.",
     ["schedules", "histories", "configurations"],
     "all models and seeds, all hash seeds, all clocks",
     "Tests run in one process, so differences between processes cannot show.",
     [CTX, PAR, CMP, LLH, RNG], [("parameters are kept in sorted order", PAR), ("get_key", RNG), ("get_template", CTX)],
     [("sets of names", "iteration order differs between processes", PAR)],
     ["backend file, template, lineage hash of several processes"])
prop("C11", "Lineage identifies exactly what a model was built from",
     "The lineage of a component, likelihood or context changes whenever the value of a constant or set of constants, the "
     "content of a map, data or fixed-component file, the parameter that scales an uncertain map, the binning, the set of plugins or components, for a likelihood any "
     "of its settings, or for a context any setting of its instruct or parameters it was built with differs, and is the "
     "same for equally built models. It describes the files as they were loaded, does not change afterwards - whatever else "
     "is built, cleared, or written to disk - and, for plugins, components and likelihoods, does not depend on the directory "
     "in which files named without a directory are found, unless full paths were asked for.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "all single changes of a model, all histories of building, clearing and changing files on disk in between",
     "The tests print or hash a lineage once; they never compare lineages of different models or histories.",
     [PLG, CFG, CMP, LLH, CTX, UTL], [("lineage of configs, plugins, components, likelihoods and context", CFG),
                                      ("calculate_sha256", UTL)],
     [("content hashes of files", "fixed when the file is loaded", CFG)], ["lineage", "lineage_hash", "dump_lineage"])
prop("C12", "A storage fault while building never yields a silently different model",
     "When an instruct, parameter, map or data file, or a backend file, cannot be found, opened or read, returns fewer "
     "bytes than requested, or is a JSON or backend file that was cut short, then building or restoring a context either "
     "raises an error or gives exactly the model of the intact files. After a failed attempt, clearing the cache and trying again with "
     "healthy storage gives the intact model.",
     ["fault_sequences", "inputs"],
     "all files a model reads, all read errors, short reads and truncation points, and all sequences of failed and "
     "successful attempts",
     "The tests never inject an I/O fault.",
     [UTL, CFG, LLH, CTX, SHR], [("load_json and load_data", UTL), ("map loading errors are re-raised", CFG)],
     [("global configuration", "half filled after a failed build", SHR)],
     ["predictions and lineage of the context that was built", "exception that was raised"])
prop("C13", "Profiling reports the time that passed and leaves the model alone",
     "The profiler reports, for every plugin of every simulated component in execution order, the mean and spread over "
     "the timed runs of the time that passed on the clock, and nothing of the warm-up runs; totals, comparisons and the "
     "time-cost report of instrumented functions agree with the same clock. Profiling does not change what the context "
     "predicts, its fitted parameters, or its backend file.",
     ["schedules", "configurations", "inputs"],
     "all sequences of durations, numbers of warm-up and timed runs, and models",
     "Tests cannot control the real clock, so they only check that times are positive.",
     [PRF, UTL], [("profile_plugin, profile_component, profile_context", PRF), ("timeit", UTL)],
     [("clock", "read before and after every timed run", PRF)], ["returned results", "printed report"])
# pure functions: see not_applicable
prop("C14", "Histogramming conserves weight for every binning",
     "Every simulated or measured event inside the binned region is counted with its weight in exactly one bin, and "
     "events outside are in none.",
     ["inputs"], "all event sets, weights and bin edges", "Tests sample a handful of data sets.",
     ["appletree/hist.py"], [("make_hist_irreg_bin_1d/2d, make_hist_mesh_grid", "appletree/hist.py")])
prop("C15", "Map interpolation reproduces its grid and stays within its neighbours",
     "At a grid point an interpolated map returns the value of that grid point, and elsewhere a value between those of "
     "the neighbouring grid points, for every coordinate type and method.",
     ["inputs"], "all maps and positions", "Tests sample known functions at few points.",
     ["appletree/interpolation.py", CFG], [("interpolators", "appletree/interpolation.py")])
prop("C16", "Plugins run after everything they depend on",
     "For every set of registered plugins and requested outputs, each needed plugin is executed exactly once, after "
     "all plugins it depends on, and an unsatisfiable request is refused.",
     ["programs"], "all plugin graphs", "Tests use the packaged graphs.",
     [CMP], [("dependencies_deduce, dependencies_simplify", CMP)])
prop("C17", "Random samplers follow their distributions",
     "Every provided random sampler has the documented distribution for all valid parameters and shapes.",
     ["inputs"], "all parameters", "Tests do not check distributions.", [RNG], [("samplers", RNG)])
prop("C18", "Map plots show the values and edges of the maps",
     "Collapsed and plotted maps show the averages over exactly the selected bins at the right bin edges, for linear "
     "and logarithmic axes.",
     ["inputs"], "all maps and collapse specifications", "Tests use a few maps.", [PLT], [("collapse and plot", PLT)])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
