"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TECH = {
 "C01": "seeded search over crash, interruption, failure and storage-fault histories of simulated fits, refinement against an uninterrupted reference run",
 "C02": "seeded search over crash and fault histories; the backend file is checked as an invariant after every fault and call",
 "C03": "seeded search over fit histories; every stored sample is matched with a recorded evaluation and re-evaluated in a fresh simulated process",
 "C04": "seeded search over fit histories with interleaved queries; results compared with a reference computed from the raw chain",
 "C05": "seeded search over fit histories with crashes and disk changes; restoration in another simulated process compared with the original model",
 "C06": "seeded search over interleavings of contexts and over thread schedules; refinement against each context run alone",
 "C07": "seeded search over process histories with failed builds and faults; comparison with a freshly started simulated process",
 "C08": "seeded search over evaluation histories with interrupted and failing evaluations; comparison with fresh contexts and a numpy reference model",
 "C09": "seeded search over models, programs and clocks; every random key drawn in a simulated run is recorded and checked for reuse",
 "C10": "seeded search over histories; the same seed is run in simulated processes with other hash seeds, noise and clocks and the records compared",
 "C11": "seeded search over single changes of a model, process histories and disk changes; lineage compared between the simulated runs",
 "C12": "seeded search over injected read errors, short reads and truncations while building and restoring; comparison with the fault-free model",
 "C13": "seeded search over simulated clocks; the profiler's report is compared with a reference computed from the recorded clock readings",
}
NOTE = {
 "default": "Exploration by seeded sampling: no violation in the runs counted in the evidence file, each exactly repeatable from its seed. It is not exhaustive. Trusted: the seams and reference models in dst/, numpy, h5py, emcee and XLA; detector physics is mostly a small toy model written against the public plugin API.",
}
PURE = "pure function of its arguments: no concurrency, time, I/O, randomness from outside, crash or multi-party behaviour on which the property depends, so simulation has nothing to schedule and no fault to inject; "
NA = {
 "C14": PURE + "an input-space technique (property-based testing, proof) is the right tool. C08's reference histogram exercises it on the simulated events only.",
 "C15": PURE + "an input-space technique is the right tool.",
 "C16": PURE + "the graphs are resolved deterministically from the registered plugins; C06, C07 and C10 compare whole models between histories and hash seeds, which includes the resolved order, but do not decide it for every graph.",
 "C17": "a statistical statement about one draw's distribution: no schedule or fault can influence it, and seeded simulation replaces exactly the randomness it is about. C09 decides the part that depends on how keys are threaded.",
 "C18": PURE + "C06 checks that the plots of coexisting contexts do not mix.",
}
have = [p[:-3].upper() for p in sorted(os.listdir(os.path.join(V, "dst/checks"))) if p.startswith("c") and p.endswith(".py")]
checks = [{"property": c, "quick_cmd": f"bash run.sh {c} --tier quick", "thorough_cmd": f"bash run.sh {c} --tier thorough",
           "evidence_file": f"evidence/{c}.json", "technique": T + TECH[c], "level": "exploration",
           "level_note": NOTE.get(c, NOTE["default"])} for c in have]
na = [{"property": p, "reason": r} for p, r in NA.items()]
na += [{"property": p, "reason": "check not built yet"} for p in TECH if p not in have]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none: /repo contains no hooks",
               "enable": "every seam (clock, file and HDF5 I/O, sampler evaluations, module state, jax.random) is patched from outside by dst/seams.py in the simulator's own processes, so /repo is run as it is",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "The commits in /repo are fix: commits for defects these checks found; see known_findings.json and DESIGN.md. bash run.sh PROPERTY --replay FILE replays a recorded violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
