"""The simulator: one object owns the clock, the disk, process life and death, and every fault.

Installed in a worker interpreter before appletree is imported.  Nothing in /repo is changed: the
seams are the ones the code already has (the ``time`` module, ``open``, ``h5py.File``, the sampler's
call of the log-probability function, numpy's global random state, the module table).
"""

import builtins
import errno
import gc
import hashlib
import io
import json
import os
import random
import shutil
import sys
import threading
import time
import zlib

import numpy as np

_real = {
    "time": time.time,
    "time_ns": time.time_ns,
    "perf_counter": time.perf_counter,
    "perf_counter_ns": time.perf_counter_ns,
    "monotonic": time.monotonic,
    "monotonic_ns": time.monotonic_ns,
    "process_time": time.process_time,
    "sleep": time.sleep,
    "open": builtins.open,
}
real_open = builtins.open


class SimKill(BaseException):
    """The simulated process dies here (power loss, SIGKILL)."""


class HarnessError(Exception):
    """The harness itself is wrong; never a verdict about appletree."""


class BudgetExceeded(BaseException):
    """A run did more work than its bound allows (liveness)."""


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


FAULT_KINDS = (
    "kill", "interrupt", "evalerr", "h5err", "h5readerr", "enospc", "missing", "readerr", "openerr", "shortread",
    "truncate", "diskchange", "clockjump",
)


class Clock:
    """Simulated wall clock, in integer microseconds.

    frozen: never moves.  tick: every read by the code under test advances it by a seeded step.
    keyed: a function of what is being evaluated (so it does not depend on history), plus the number
    of reads made during that evaluation.
    """

    def __init__(self, spec):
        self.mode = spec.get("mode", "frozen")
        self.recount = self.mode == "keyed" and bool(spec.get("recount"))
        self.t0 = int(spec.get("t0", 1_600_000_000_000_000))
        self.rng = random.Random(spec.get("seed", 0))
        self.steps = spec.get("steps", [1, 10, 1000, 1_000_000])
        self.now_us = self.t0
        self.local = threading.local()
        self.reads = 0
        self.jumps = {}
        self.advanced = 0
        self.wall_offset = 0  # what stepping the wall clock adds to time.time()
        self.values = []

    def read_us(self):
        self.reads += 1
        j = self.jumps.get(self.reads)
        if j:
            self.now_us += j
            world.fired("clockjump")
        if self.mode == "tick":
            d = self.rng.choice(self.steps)
            self.now_us += d
            self.advanced += d
        if self.mode == "keyed":
            loc = self.local
            loc.reads = getattr(loc, "reads", 0) + 1
            v = self.now_us + getattr(loc, "key", 0) + loc.reads * 7919
        else:
            v = self.now_us
        if len(self.values) < 200000:
            self.values.append(v)
        return v

    def set_key(self, obj):
        self.local.key = zlib.crc32(obj) % 900_000_007
        self.local.reads = 0

    def advance(self, us):
        self.now_us += us
        self.advanced += abs(us)


class World:
    def __init__(self):
        self.active = False
        self.reset({})
        self.installed = False
        self.scratch = None

    # ------------------------------------------------------------ run control
    def reset(self, plan):
        self.log = []
        self.counts = {}
        self.fault_counts = {}
        self.clock = Clock(plan.get("clock", {}))
        self.life = -1
        self.life_counts = {}
        self.faults = []
        self.dead = False
        self.booting = False
        self.killed_by = None
        self.evals = []
        self.eval_hook = None
        self.budget = plan.get("budget", 200000)
        self.steps = 0
        self.h5_open_image = {}
        self.h5_depth = 0
        self.read_faults = []
        self.reads_of = {}
        self.party = None
        self.yield_hook = None
        self.sim_evals = 0
        self.h5_log = []
        self.seen = {}           # evaluations of a point whose iteration has been stored
        self.pending = []        # evaluations since then
        self.saving = False
        self.in_eval = False
        self.harness = 0
        self.pyrandom_seed = plan.get("pyrandom", 0)

    def emit(self, *ev):
        self.log.append(ev)

    def digest(self):
        h = hashlib.sha256()
        for ev in self.log:
            h.update(repr(ev).encode())
        return h.hexdigest()

    def fired(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    def count(self, what):
        n = self.life_counts.get(what, 0) + 1
        self.life_counts[what] = n
        self.counts[what] = self.counts.get(what, 0) + 1
        return n

    # ------------------------------------------------------------ fault points
    def point(self, where):
        """A seam was reached: number it and fire the fault planned for it, if any."""
        if self.dead:
            raise SimKill("dead")
        self.steps += 1
        if self.steps > self.budget:
            raise BudgetExceeded(f"more than {self.budget} steps")
        n = self.count(where)
        for f in self.faults:
            if f.get("done") or f["at"] != where or f["k"] != n:
                continue
            f["done"] = True
            return self.fire(f)
        return None

    def line_point(self):
        if self.dead or self.booting:
            return
        n = self.count("line")
        m = self.count("evalline") if self.in_eval else None
        for f in self.faults:
            if not f.get("done") and (f["at"] == "line" and f["k"] == n or f["at"] == "evalline" and f["k"] == m):
                f["done"] = True
                self.fire(f)

    def fire(self, f):
        kind = f["kind"]
        self.fired(kind)
        self.emit("fault", kind, f["at"], f["k"])
        if kind == "kill":
            self.die(f)
        if kind == "interrupt":
            raise KeyboardInterrupt("simulated ^C")
        if kind == "evalerr":
            raise {"MemoryError": MemoryError, "RuntimeError": RuntimeError, "OSError": OSError,
                   "FloatingPointError": FloatingPointError}[f.get("exc", "MemoryError")](
                "simulated evaluation failure")
        if kind == "h5err":
            raise BlockingIOError(errno.EAGAIN, "Unable to synchronously open file (unable to lock file)")
        if kind == "h5readerr":
            if f.get("exc") == "KeyError":
                raise KeyError("Can't open attribute (simulated read failure)")
            raise OSError(errno.EIO, "Can't synchronously read data (Input/output error)")
        if kind == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device")
        return f

    def die(self, f=None):
        self.dead = True
        self.killed_by = f
        raise SimKill("killed")

    # ------------------------------------------------------------ simulated process
    def boot(self, np_seed=0, toy=True, faults=()):
        """Start a fresh simulated process: new module state, new random state."""
        self.life += 1
        self.life_counts = {}
        self.faults = [dict(f) for f in faults]
        self.dead = False
        self.h5_depth = 0
        self.booting = True
        try:
            return self._boot(np_seed, toy)
        finally:
            self.booting = False

    def _boot(self, np_seed, toy):
        purge()
        np.random.seed(np_seed % (2**32))
        random.seed(self.pyrandom_seed + self.life)
        self.emit("boot", self.life)
        import appletree as apt

        if not apt.__file__.startswith(REPO + "/appletree/"):
            raise HarnessError(f"appletree imported from {apt.__file__}")
        if toy:
            from dst import toy as toy_module

            toy_module.install()
        return apt

    # ------------------------------------------------------------ what has been stored
    def new_fit(self):
        self.seen, self.pending = {}, []

    def forget_pending(self):
        self.pending = []

    def stored(self):
        for items in self.pending:
            self.seen[items] = self.seen.get(items, 0) + 1
        self.pending = []

    # ------------------------------------------------------------ seams
    def in_eval_begin(self, x, wrapper):
        items = _as_items(x)
        if self.clock.recount:
            # a point evaluated again after it was stored meets another time
            self.clock.set_key(repr((items, self.seen.get(items, 0))).encode())
            self.pending.append(items)
        else:
            self.clock.set_key(repr(items).encode())
        if self.yield_hook:
            self.yield_hook("eval")
        self.point("eval")
        return items


world = World()
REPO = os.environ.get("DST_REPO", "/repo")


def _as_items(x):
    if isinstance(x, dict):
        return tuple((k, float(v)) for k, v in sorted(x.items()))
    return tuple(("#%d" % i, float(v)) for i, v in enumerate(np.atleast_1d(x)))


def purge():
    """Forget appletree and the toy model, as a new interpreter would."""
    for k in list(sys.modules):
        if k == "appletree" or k.startswith("appletree.") or k == "dst.toy":
            del sys.modules[k]
    try:
        import dst

        if hasattr(dst, "toy"):
            delattr(dst, "toy")
    except Exception:
        pass


def _from_code_under_test(depth=2):
    f = sys._getframe(depth)
    # decorators of the standard library may sit in between
    name = f.f_globals.get("__name__", "")
    return name.startswith("appletree") or name.startswith("dst.toy")


def _mk_clock(name, scale, as_int):
    real = _real[name]
    wall = name in ("time", "time_ns")

    def read():
        if world.active and _from_code_under_test():
            world.point("clockread")
            us = world.clock.read_us()
            if wall:
                us += world.clock.wall_offset
            return us * 1000 if as_int else us / 1e6
        return real()

    read.__name__ = name
    return read


def _install_clock():
    for name in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(time, name, _mk_clock(name, 1e-6, False))
    for name in ("time_ns", "perf_counter_ns", "monotonic_ns"):
        setattr(time, name, _mk_clock(name, 1000, True))

    def sleep(s):
        if world.active and _from_code_under_test():
            world.clock.advance(int(s * 1e6))
            return
        _real["sleep"](s)

    time.sleep = sleep


# ---------------------------------------------------------------- HDF5
def _install_h5():
    import h5py

    base = h5py.File
    world.real_h5 = base

    class File(base):
        def __init__(self, name, mode="r", *args, **kwargs):
            sim = world.active and isinstance(name, (str, os.PathLike))
            self._sim = None
            if sim:
                path = os.path.abspath(os.fspath(name))
                if world.yield_hook:
                    world.yield_hook("h5")
                world.point("h5open")
                if mode != "r":
                    world.point("h5write")
                image = None
                if os.path.exists(path):
                    with real_open(path, "rb") as f:
                        image = f.read()
                super().__init__(name, mode, *args, **kwargs)
                self._sim = (path, mode, image)
            else:
                super().__init__(name, mode, *args, **kwargs)

        def __exit__(self, *exc):
            # the file of a session that failed half way is closed, too
            self._failed = exc and exc[0] is not None
            return super().__exit__(*exc)

        def close(self):
            sim = getattr(self, "_sim", None)
            if sim is None or not self.id.valid:
                super().close()
                return
            self._sim = None
            path, mode, image = sim
            if mode != "r" and not world.dead:
                # the moment before the session's writes reach the disk
                try:
                    world.point("h5flush")
                except BaseException:
                    super().close()
                    _restore(path, image)
                    raise
            super().close()
            if mode != "r":
                if world.dead:
                    _restore(path, image)
                else:
                    with real_open(path, "rb") as f:
                        after = f.read()
                    if world.h5_log is not None:
                        world.h5_log.append((path, hashlib.sha256(after).hexdigest()))
                    if world.saving and not getattr(self, "_failed", False):
                        world.stored()
                    world.point("h5synced")

    h5py.File = File

    def reads(cls):
        orig = cls.__getitem__

        def getitem(self, *a, **k):
            if world.active and not world.harness:
                world.point("h5read")
            return orig(self, *a, **k)

        cls.__getitem__ = getitem

    reads(h5py.AttributeManager)
    reads(h5py.Dataset)
    import h5py._hl.files  # noqa: F401


def _restore(path, image):
    if image is None:
        if os.path.exists(path):
            os.remove(path)
    else:
        with real_open(path, "wb") as f:
            f.write(image)


# ---------------------------------------------------------------- plain files
class _FaultyRaw(io.RawIOBase):
    """A raw file that may return fewer bytes than asked for, or fail at an offset."""

    def __init__(self, path, fault):
        self._f = io.FileIO(path, "r")
        self._fault = fault
        self._rng = random.Random(fault.get("seed", 0))
        self._pos = 0
        self.name = path

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        self._pos = self._f.seek(*a)
        return self._pos

    def tell(self):
        return self._f.tell()

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        f = self._fault
        want = len(b)
        if f["kind"] == "readerr":
            off = f.get("offset", 0)
            pos = self._f.tell()
            if pos >= off:
                world.fired("readerr")
                raise OSError(errno.EIO, "Input/output error")
            want = min(want, off - pos)
        elif f["kind"] == "shortread":
            k = self._rng.choice([1, 3, 17, 100, 4095, 4097, 10**9])
            if k < want:
                world.fired("shortread")
                want = k
        elif f["kind"] == "truncate":
            pos = self._f.tell()
            if pos + want > f["offset"]:
                world.fired("truncate")
                want = max(0, f["offset"] - pos)
        data = self._f.read(want)
        b[: len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            self._f.close()
        super().close()


def _install_open():
    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        if not (world.active and world.scratch and isinstance(file, (str, os.PathLike))):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.abspath(os.fspath(file))
        watched = path.startswith(world.scratch + os.sep) or path.startswith(REPO + "/appletree/")
        if not watched or path.endswith((".py", ".pyc")):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if any(c in mode for c in "wax+"):
            if world.dead:
                raise SimKill("dead")
            f = world.point("fwrite")
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        base = os.path.basename(path)
        k = world.reads_of.get(base, 0) + 1
        world.reads_of[base] = k
        world.point("fread")
        fault = None
        for f in world.read_faults:
            if f["file"] in (base, "*") and (f.get("nth") in (None, k)):
                fault = f
                break
        if fault is not None:
            if fault["kind"] == "diskchange":
                if not fault.get("done"):
                    fault["done"] = True
                    world.fired("diskchange")
                    with real_open(path, "rb") as fh:
                        data = fh.read()
                    with real_open(path, "wb") as fh:
                        fh.write(fault["content"].encode() if fault.get("content") is not None else data)
                fault = None
            elif fault["kind"] == "openerr":
                world.fired("openerr")
                raise OSError(getattr(errno, fault.get("errno", "EMFILE")), "simulated open failure", path)
        if fault is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = _FaultyRaw(path, fault)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, buffer_size=8192 if buffering < 2 else buffering)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline)

    builtins.open = sim_open
    io.open = sim_open


# ---------------------------------------------------------------- sampler
def _install_sampler():
    from emcee import ensemble

    orig = ensemble._FunctionWrapper.__call__

    def call(self, x):
        if not world.active:
            return orig(self, x)
        items = world.in_eval_begin(x, self)
        world.sim_evals += 1
        world.in_eval = True
        try:
            out = orig(self, x)
        finally:
            world.in_eval = False
        rec = (items, float(out[0]), tuple(float(v) for v in out[1:]))
        if world.eval_hook:
            world.eval_hook(rec)
        world.evals.append(rec)
        world.point("evaldone")
        return out

    ensemble._FunctionWrapper.__call__ = call

    from emcee.backends import Backend, HDFBackend

    def wrap(cls):
        save = cls.save_step

        def save_step(self, *a, **k):
            if not world.active:
                return save(self, *a, **k)
            world.saving = True
            try:
                out = save(self, *a, **k)
            finally:
                world.saving = False
            world.stored()
            return out

        cls.save_step = save_step

    wrap(Backend)
    wrap(HDFBackend)


def install():
    if world.installed:
        return
    world.installed = True
    _install_clock()
    _install_open()
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    _install_h5()
    _install_sampler()


# ---------------------------------------------------------------- asynchronous interruption
class LineProbe:
    """Counts executed lines of appletree's own orchestration code; a planned fault can strike at any
    of them, as a real ^C, a real kill or a real context switch would."""

    TOOL = 3
    FILES = ("context.py", "likelihood.py", "parameter.py", "component.py", "config.py", "share.py")

    def __init__(self, files=None, hook=None):
        self.files = tuple(f"{REPO}/appletree/{f}" for f in (files or self.FILES))
        self.hook = hook

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "dst")
        except ValueError:
            raise HarnessError("monitoring tool id is taken")

        def on_line(code, line):
            if code.co_filename not in self.files or code.co_name == "<module>":
                return mon.DISABLE
            if not world.active:
                return None
            if self.hook:
                self.hook(code, line)
            else:
                world.line_point()
            return None

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)


# ---------------------------------------------------------------- reading files as the harness
def read_h5(path):
    """Everything in a backend file, through the unpatched library."""
    if not os.path.exists(path):
        return None
    world.harness += 1
    try:
        return _read_h5(path)
    finally:
        world.harness -= 1


def _read_h5(path):
    out = {}
    with world.real_h5(path, "r") as f:
        if "mcmc" not in f:
            return {"present": False}
        g = f["mcmc"]
        it = int(g.attrs["iteration"])
        out["present"] = True
        out["iteration"] = it
        out["chain"] = g["chain"][:it]
        out["log_prob"] = g["log_prob"][:it]
        out["blobs"] = g["blobs"][:it] if "blobs" in g else None
        out["accepted"] = g["accepted"][...]
        out["attrs"] = {k: g.attrs[k] for k in g.attrs}
    return out


def file_bytes(path):
    if not os.path.exists(path):
        return None
    with real_open(path, "rb") as f:
        return f.read()


def cleanup(directory):
    if directory and os.path.isdir(directory):
        shutil.rmtree(directory, ignore_errors=True)


_tasks = 0


def collect():
    """Reference cycles keep old simulated processes alive; clear them now and then."""
    global _tasks
    _tasks += 1
    if _tasks % 4 == 0:
        gc.collect()
