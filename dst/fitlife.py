"""Engine: the life of one fit, through crashes, interruptions, storage errors and restarts.

A seeded 'user' builds a context, fits in chunks, and after every fault carries on the way the plan
says (same object, restored context in the same process, or new process).  Everything observable is
recorded; the checks judge the record.
"""

import copy
import os

import numpy as np

from . import models
from .seams import (BudgetExceeded, HarnessError, LineProbe, SimKill, Violation, file_bytes, read_h5,
                    world)

LINES_PER_EVAL = 60
USER_ERRORS = (KeyboardInterrupt, MemoryError, OSError, RuntimeError, FloatingPointError)


def hop(params):
    """A move that proposes the edges of what is allowed, and points just beyond, and favours whatever it proposes.

    Only a log posterior of minus infinity can keep the sampler from accepting such a proposal.
    """
    edges = []
    for k in sorted(k for k, v in params.items() if v["prior_type"] != "fixed"):
        s = params[k]
        lo, hi = s["allowed_range"]
        marks = [lo, hi]
        if s["prior_type"] == "uniform":
            marks += [s["prior_args"]["lower"], s["prior_args"]["upper"]]
        w = max(s["init_std"], 1e-6)
        out = []
        for m in marks:
            out += [m, np.nextafter(m, -np.inf), np.nextafter(m, np.inf), m - 1e-3 * w, m + 1e-3 * w, m - w, m + w]
        edges.append((out, w))

    def propose(coords, random):
        q = np.array(coords)
        for x in q:
            j = random.randint(len(edges))
            out, w = edges[j]
            if random.rand() < 0.6:
                x[j] = out[random.randint(len(out))]
            else:
                x[j] += 0.3 * w * random.randn()
        return q, np.full(len(q), 1e9)

    return propose


def make_moves(spec, params=None):
    import emcee

    if not spec:
        return None
    table = {
        "stretch": lambda: emcee.moves.StretchMove(a=1.7),
        "de": lambda: emcee.moves.DEMove(),
        "gauss": lambda: emcee.moves.GaussianMove(1e-4),
        "walk": lambda: emcee.moves.WalkMove(s=3),
        "hop": lambda: emcee.moves.MHMove(hop(params)),
    }
    if isinstance(spec, str):
        return table[spec]()
    return [(table[n](), w) for n, w in spec]


def gen_fit(rng, genome, long=False):
    ndim = models.fit_count(genome)
    nwalkers = max(2 * ndim, 4)
    nwalkers += 0 if long else rng.choice([0, 0, 2])
    total = rng.randint(60, 160) if long else rng.randint(3, 8)
    chunks, left = [], total
    while left > 0:
        c = rng.randint(1, left)
        chunks.append(c)
        left -= c
    return {
        "nwalkers": nwalkers,
        "total": total,
        "chunks": chunks,
        "moves": rng.choice([None, None, None, "stretch", "de", [["stretch", 0.5], ["de", 0.5]]]),
        "repeat_times": rng.choice([1, 1, 1, 2]),
        "seed": rng.randrange(2**31),
    }


def gen_faults(rng, fit, kinds, life):
    """Faults of one life.  Evaluation indices cover the whole call; storage indices too."""
    nw, tot = fit["nwalkers"], fit["total"]
    rep = fit["repeat_times"]
    n_eval = nw * (tot + 1)
    out = []
    kind = rng.choice(kinds)
    if kind in ("kill", "interrupt"):
        at = rng.choice(["eval", "eval", "evaldone", "clockread", "h5open", "h5flush", "h5synced", "line"])
        if at == "h5flush" and kind == "interrupt":
            at = "eval"
        k = {
            "eval": lambda: rng.randint(1, n_eval),
            "evaldone": lambda: rng.choice([nw * rng.randint(1, tot + 1), rng.randint(1, n_eval)]),
            "clockread": lambda: rng.randint(1, n_eval * rep),
            "h5open": lambda: rng.randint(1, 8 + 2 * tot),
            "h5flush": lambda: rng.randint(1, 4 + tot),
            "h5synced": lambda: rng.randint(1, 4 + tot),
            "line": lambda: rng.choice([rng.randint(1, 4000), rng.randint(3000, 30000)]),
        }[at]()
        out.append({"kind": kind, "at": at, "k": k})
    elif kind == "evalerr":
        at = rng.choice(["eval", "clockread", "evalline", "evalline"])
        out.append({"kind": kind, "at": at, "k": rng.randint(1, n_eval * (LINES_PER_EVAL if at == "evalline" else 1)),
                    "exc": rng.choice(["MemoryError", "RuntimeError", "OSError"])})
    elif kind == "h5err":
        out.append({"kind": kind, "at": "h5open", "k": rng.randint(1, 10 + 2 * tot)})
    elif kind == "h5readerr":
        out.append({"kind": kind, "at": "h5read", "k": rng.choice([rng.randint(1, 30), rng.randint(1, 30 + 20 * tot)])})
    elif kind == "enospc":
        out.append({"kind": kind, "at": "h5write", "k": rng.randint(1, 4 + tot)})
    return out


class Record:
    """What happened."""

    def __init__(self):
        self.calls = []          # one entry per fit call
        self.reads = []
        self.snapshots = []      # durable state after each call / life
        self.violations = []


class FitLife:
    def __init__(self, plan, directory, backend="chain.h5", hooks=None):
        self.plan = plan
        self.fit = plan["fit"]
        self.genome = plan["model"]
        self.dir = directory
        self.instruct = models.materialise(self.genome, directory) if self.genome["kind"] == "toy" else None
        self.h5 = os.path.join(directory, backend) if backend else None
        self.rec = Record()
        self.hooks = hooks or {}
        self.ctx = None
        self.apt = None
        self.stored = 0          # iterations known to be durable
        self.calls = 0
        self.built_by = None

    # -- building ------------------------------------------------------
    def make_instruct(self):
        if self.genome["kind"] == "packaged":
            ins = self.apt.utils.load_json(self.genome["file"])
            ins["backend_h5"] = None
        else:
            ins = copy.deepcopy(self.instruct)
        if self.h5 is not None:
            ins["backend_h5"] = self.h5
        return ins

    def build(self):
        ins = self.make_instruct()
        style = self.plan.get("par_style", "file")
        if style == "dict":
            par = copy.deepcopy(self.genome["params"])
            if self.plan.get("drop_par_key"):
                ins.pop("par_config", None)
            self.ctx = self.apt.Context(ins, par_config=par)
        elif style == "path":
            import json

            p = os.path.join(self.dir, "instruct.json")
            with open(p, "w") as f:
                json.dump(ins, f)
            self.ctx = self.apt.Context(p)
        else:
            self.ctx = self.apt.Context(ins)
        self.built_by = "build"
        if self.plan.get("mutate_instruct"):
            # the caller's dictionary belongs to the caller again
            for v in ins["likelihoods"].values():
                v["bins"] = [1, 1]
                v["components"].clear()
            ins["configs"] = {"toy_gain": 5.0}
            ins["likelihoods"].clear()
        return self.ctx

    def restore(self):
        self.ctx = self.apt.Context.from_backend(self.h5, moves=make_moves(self.fit["moves"], self.params()))
        self.built_by = "restore"
        return self.ctx

    def params(self):
        return models.effective_params(self.genome) if self.genome["kind"] == "toy" else None

    # -- fit calls -----------------------------------------------------
    def kwargs(self):
        kw = dict(batch_size=self.genome["batch_size"], moves=make_moves(self.fit["moves"], self.params()))
        if self.fit["repeat_times"] != 1:
            kw["repeat_times"] = self.fit["repeat_times"]
        return kw

    def n_stored(self):
        if self.h5 is not None:
            d = read_h5(self.h5)
            return d["iteration"] if d and d["present"] else 0
        s = getattr(self.ctx, "sampler", None)
        return int(s.backend.iteration) if s is not None else 0

    def raw(self):
        """Chain, log-probability, blobs and acceptances as stored."""
        if self.h5 is not None:
            d = read_h5(self.h5)
            if not d or not d["present"]:
                return None
            return d
        b = self.ctx.sampler.backend
        it = int(b.iteration)
        return {"iteration": it, "chain": b.chain[:it], "log_prob": b.log_prob[:it],
                "blobs": None if b.blobs is None else b.blobs[:it], "accepted": b.accepted,
                "attrs": {}, "present": True}

    def call(self, n, fresh):
        """One fit call of n iterations; returns the exception it ended with, or None."""
        start = 0 if fresh else self.n_stored()
        e0 = len(world.evals)
        b0 = world.counts.get("eval", 0)
        entry = {"fresh": fresh, "n": n, "start": start, "evals_from": e0}
        world.emit("call", "fitting" if fresh else "continue", n, start)
        err = None
        world.forget_pending()
        if fresh:
            world.new_fit()
        try:
            if fresh:
                np.random.seed(self.fit["seed"] % 2**32)
                result = self.ctx.fitting(nwalkers=self.fit["nwalkers"], iteration=n, **self.kwargs())
            else:
                result = self.ctx.continue_fitting(iteration=n, **self.kwargs())
            entry["result"] = (np.array(result.coords), np.array(result.log_prob))
        except SimKill as e:
            err = e
        except BudgetExceeded:
            raise Violation("no-progress", f"fit call of {n} iterations exceeded its step bound")
        except BaseException as e:
            err = e
        entry["err"] = None if err is None else type(err).__name__
        entry["errmsg"] = None if err is None else str(err)[:300]
        entry["evals_begun"] = world.counts.get("eval", 0) - b0
        entry["evals"] = len(world.evals) - e0
        world.emit("ret", entry["err"], entry["evals_begun"])
        self.rec.calls.append(entry)
        return err

    # -- the life ------------------------------------------------------
    def run(self):
        plan, fit = self.plan, self.fit
        lives = plan["lives"]
        chunks = list(fit["chunks"])
        self._need_proc = True
        li = 0
        spare = 0
        reactions = list(plan.get("reactions", []))
        total = fit["total"]
        done = False
        guard = 0
        while not done:
            guard += 1
            if guard > 60:
                raise Violation("no-progress", "the fit does not complete although the faults have stopped")
            if self._need_proc:
                life = lives[li] if li < len(lives) else {"np_seed": 1000 + li, "faults": []}
                li += 1
                self.apt = world.boot(life["np_seed"], toy=True, faults=life["faults"])
                self.ctx = None
                self._need_proc = False
            try:
                if self.ctx is None:
                    if self.h5 is not None and self.n_stored() >= 1:
                        self._op("from_backend", self.restore)
                    else:
                        self._op("build", self.build)
                    self._hook("built")
                have = self.n_stored()
                left = total - have
                if left <= 0:
                    done = True
                    break
                c = min(chunks.pop(0) if chunks else left, left)
                err = self.call(c, fresh=have == 0)
                if err is not None and not isinstance(err, SimKill) and not self._planned(err):
                    raise Violation(f"unexpected-exception:{'fitting' if have == 0 else 'continue_fitting'}",
                                    f"{type(err).__name__}: {err}")
            except SimKill as e:
                err = e
            except Violation:
                raise
            except USER_ERRORS as e:
                err = e
                if not self._planned(e):
                    raise Violation(f"unexpected-exception:{self._where}", f"{type(e).__name__}: {e}")
            except (HarnessError, BudgetExceeded):
                raise
            except Exception as e:
                raise Violation(f"unexpected-exception:{self._where}", f"{type(e).__name__}: {e}")
            self._hook("after", err)
            if err is None:
                continue
            if isinstance(err, SimKill):
                if not world.dead:
                    raise HarnessError("kill without death")
                if self.h5 is None:
                    raise HarnessError("in-memory fit was killed")
                self._need_proc = True
                world.dead = False
                continue
            # the process is still alive
            r = reactions.pop(0) if reactions else "same"
            world.emit("react", r)
            if r == "newproc" and self.h5 is not None:
                self._need_proc = True
            elif r == "restore" and self.h5 is not None:
                self.apt.clear_cache()
                self.ctx = None
            elif self.ctx is not None and not hasattr(self.ctx, "sampler") and self.n_stored() >= 1:
                self.apt.clear_cache()
                self.ctx = None
            elif self.ctx is None or not self._usable():
                self.apt.clear_cache()
                self.ctx = None
        return self.rec

    def _usable(self):
        return self.ctx is not None

    def _planned(self, err):
        """Was this exception (or its cause) injected by the plan in this life?"""
        return any(f.get("done") for f in world.faults) and _injected(err)

    def _op(self, name, fn):
        self._where = name
        world.emit("op", name)
        return fn()

    def _hook(self, name, *a):
        h = self.hooks.get(name)
        if h:
            h(self, *a)


def _injected(err):
    seen = 0
    while err is not None and seen < 10:
        s = str(err)
        if isinstance(err, (KeyboardInterrupt,)) or "simulated" in s or "unable to lock file" in s \
                or "No space left" in s or "Input/output error" in s:
            return True
        err = err.__cause__ or err.__context__
        seen += 1
    return False


def same_array(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def diff_runs(got, ref):
    """First difference between two stored chains, or None."""
    for key in ("iteration",):
        if got[key] != ref[key]:
            return f"{key}: {got[key]} instead of {ref[key]}"
    for key in ("chain", "log_prob", "blobs", "accepted"):
        if not same_array(got[key], ref[key]):
            a, b = np.asarray(got[key], dtype=float), np.asarray(ref[key], dtype=float)
            where = ""
            if a.shape == b.shape:
                bad = np.argwhere(~((a == b) | (np.isnan(a) & np.isnan(b))))
                where = f" first at {bad[0].tolist() if len(bad) else 'dtype'}"
            return f"{key} differs{where}"
    return None
