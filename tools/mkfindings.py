"""Writes known_findings.json: defects that were repaired (they suppress nothing) and known ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
commit = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log.splitlines()}
F = [
 ("C05", "fix: parse the instruct stored in a backend file as JSON", "from_backend evaluated the stored JSON as Python and failed with NameError for null, true or false options"),
 ("C04", "fix: forget cached samples when a new sampler is prepared", "get_post_parameters after a second fit or a continuation reported the samples of the first"),
 ("C01", "fix: continue_fitting without a backend file", "a context without a backend file could not continue its own fit"),
 ("C09", "fix: twohalfnorm used the same key twice", "randgen.twohalfnorm drew the side and the size of the deviation with one key"),
 ("C11", "fix: lineage of a plugin describes its own configs", "plugin lineage was taken from the class attributes, which the next build overwrites (also C06)"),
 ("C06", "fix: a built SigmaMap keeps its scaler", "a SigmaMap looked its scaler up in the global configuration at every use, so that clearing the cache or another context changed or broke it (also C07)"),
 ("C06", "fix: a component keeps using its own plugins", "compiled code of a component used whatever was registered globally under the likelihood's name"),
 ("C09", "fix: multiple_simulations_compile without g4 config", "multiple_simulations_compile could not run for any component"),
 ("C10", "fix: sum the log prior in a fixed order", "the log prior was summed in the iteration order of a set, so its last bits depended on the hash seed"),
 ("C11", "fix: lineage of ConstantSet can be dumped", "dump_lineage failed for contexts with a ConstantSet"),
 ("C05", "fix: the context keeps its own copy of the instruct", "changing the caller's dictionary afterwards changed what the context stored and restored"),
 ("C02", "fix: do not wipe a chain whose file can not be opened", "a backend file that could not be opened was taken for an empty one and reset, losing the chain (also C01)"),
 ("C01", "fix: store the settings of a fitting before its first sample", "a fit killed before it finished could not be restored or was restored with other settings (also C05)"),
 ("C01", "fix: keep the order of likelihoods and components in the stored instruct", "the stored instruct was sorted by name, so a restored context used the random key in another order (also C05)"),
 ("C05", "fix: restore the parameters stored in the backend file", "from_backend read the parameter file again instead of the stored parameters"),
 ("C01", "fix: continue an interrupted fitting without a backend file", "an interrupted in-memory fit could not be continued: rows that were never sampled counted"),
 ("C11", "fix: lineage describes files as they were loaded", "lineage hashed files when it was asked for, not as they were loaded (also C06)"),
 ("C06", "fix: plot the maps a context was built with", "plot_maps showed the maps of the most recently built context"),
 ("C04", "fix: best-fit template of a likelihood with parameter alias", "get_template failed or used wrong values for likelihoods with a parameter alias"),
 ("C12", "fix: hash the content that was loaded, not the file afterwards", "a file that was cut short between being parsed and being hashed gave the intact model with another lineage (also C11)"),
 ("C13", "fix: profile the plugins a component simulates with", "the profiler instantiated plugins from the global configuration: after clearing the cache, or building another model, it failed or timed other plugins"),
 ("C03", "fix: uniform prior vanishes outside its bounds", "samples outside the bounds of a uniform prior were accepted when allowed_range is wider"),
 ("C05", "fix: read the samples from the backend file that was found", "a backend file named without its directory was read for the settings, but not found, or another one taken, for the samples"),
 ("C09", "fix: keys taken from the clock do not repeat every 72 minutes", "without x64 a key took only the lower 32 bits of the microsecond clock, so evaluations 2**32 microseconds apart shared their keys"),
 ("C13", "fix: keys can still be taken from a clock that shows a time before 1970", "the repair above of 8cef131 let get_key fail with OverflowError where the wall clock was stepped to before 1970"),
 ("C05", "fix: packaged contexts can be restored from a backend file", "the packaged context classes did not take the instruct and parameters that from_backend hands them, so their fits could not be restored"),
 ("C04", "fix: samples cached while a fitting runs are refreshed", "the summary and the results asked for after a fit were those of the samples known when a result was first asked for while it ran"),
 ("C11", "fix: lineage of a SigmaMap names its scaler", "models in which different parameters scale an uncertain map shared a lineage (all but their likelihoods' own settings)"),
]
EXTRA = []
findings = [{"id": f"fixed-{i + 1}", "property": p, "status": "fixed", "text": f"fixed: property={p} {commit[s]} {w}"}
            for i, (p, s, w) in enumerate(F)] + EXTRA
json.dump({"findings": findings}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
open(os.path.join(V, "known_findings.json"), "a").write("\n")
