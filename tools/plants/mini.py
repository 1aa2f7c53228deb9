"""A small detector model and helpers for the demonstrations; everything is written into a scratch directory."""
import atexit, contextlib, copy, io, json, os, shutil, sys, tempfile, types, warnings

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
SCRATCH = tempfile.mkdtemp(prefix="demo_")
HOME = os.getpid()
atexit.register(lambda: os.getpid() == HOME and shutil.rmtree(SCRATCH, ignore_errors=True))
os.chdir(SCRATCH)
warnings.simplefilter("ignore")
import time as _time

_real_time = _time.time
CLOCK = None


def _fake_time():
    if CLOCK is not None and str(sys._getframe(1).f_globals.get("__name__", "")).startswith("appletree"):
        return CLOCK()
    return _real_time()


_time.time = _fake_time
with contextlib.redirect_stdout(io.StringIO()):
    import numpy as np
    import appletree as apt
    from appletree import randgen
assert apt.__file__.startswith(REPO), apt.__file__
from functools import partial
from jax import jit, numpy as jnp
from appletree.config import Constant, ConstantSet, Map, SigmaMap, takes_config
from appletree.component import ComponentFixed, ComponentSim
from appletree.plugin import Plugin


@takes_config(Constant(name="m_emax", type=float, default=20.0))
class MEnergy(Plugin):
    depends_on = ["batch_size"]
    provides = ["energy"]

    @partial(jit, static_argnums=(0, 3))
    def simulate(self, key, parameters, batch_size):
        key, energy = randgen.uniform(key, 0.5, self.m_emax.value, shape=(batch_size,))
        return key, energy


@takes_config(Map(name="m_ly", method="LERP", default="m_ly.json"))
class MLight(Plugin):
    depends_on = ["energy"]
    provides = ["cs1", "cs2"]
    parameters = ("ly", "g")

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, energy):
        light = self.m_ly.apply(energy) * parameters["ly"] * energy
        key, n1 = randgen.normal(key, jnp.zeros_like(energy), jnp.ones_like(energy))
        key, n2 = randgen.normal(key, jnp.zeros_like(energy), jnp.ones_like(energy))
        return key, (light + n1) * 0.1, jnp.abs(energy * 8.0 + n2) * parameters["g"]


@takes_config(SigmaMap(name="m_eff", method="LERP", default=["m_eff.json", "m_eff_lo.json", "m_eff_hi.json"]))
class MEff(Plugin):
    depends_on = ["cs1", "cs2"]
    provides = ["eff"]

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, cs1, cs2):
        return key, jnp.clip(self.m_eff.apply(cs1, parameters), 0.0, 1.0)


class MBand(ComponentSim):
    norm_type = "on_pdf"

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.register((MEnergy, MLight, MEff))


class MBandNoEps(MBand):
    add_eps_to_hist = False


class MFixed(ComponentFixed):
    norm_type = "on_pdf"


class MFixedNoEps(ComponentFixed):
    norm_type = "on_pdf"
    add_eps_to_hist = False


mod = types.ModuleType("mini_model")
for x in (MEnergy, MLight, MEff, MBand, MBandNoEps, MFixed, MFixedNoEps):
    x.__module__ = "mini_model"
    setattr(mod, x.__name__, x)
apt.add_plugin_extensions(apt.plugins, mod)
apt.add_component_extensions(apt.components, mod)


def point(x, y):
    return {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": list(x), "map": list(y)}


def write(path, obj):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "w") as f:
        f.write(obj if isinstance(obj, str) else json.dumps(obj))
    return path


def csv(seed, n=200):
    r = np.random.RandomState(seed)
    e = r.uniform(0.5, 20, n)
    s1 = np.clip(4 * e * 0.1, 0.05, 11.5)
    s2 = np.clip(e * 8 * 1.0 + r.normal(0, 1, n), 0.5, 195.0)
    return "cs1,cs2\n" + "\n".join(f"{a!r},{b!r}" for a, b in zip(s1.tolist(), s2.tolist())) + "\n"


def par(kind="norm", mean=1.0, std=0.1, lo=0.3, hi=3.0, **extra):
    args = {"norm": {"mean": mean, "std": std}, "uniform": {"lower": lo, "upper": hi}, "free": {},
            "fixed": {"val": mean}}[kind]
    return {"prior_type": kind, "prior_args": args, "allowed_range": [lo, hi], "init_mean": mean, "init_std": std,
            "unit": "", "doc": "", **extra}


def model(sub="m", llh="demo", scale=1.0, bins=([0.0, 2.0, 4.0, 12.0], [0.0, 60.0, 120.0, 200.0]), band="MBand", **top):
    """Write the files of a model and return its instruct."""
    d = os.path.join(SCRATCH, sub)
    x = [0.0, 3.0, 6.0, 9.0, 14.0]
    write(f"{d}/m_ly.json", point([0.0, 10.0, 25.0], [4.0 * scale, 4.2 * scale, 4.6 * scale]))
    write(f"{d}/m_eff.json", point(x, [0.5, 0.7, 0.8, 0.9, 0.9]))
    write(f"{d}/m_eff_lo.json", point(x, [0.4, 0.6, 0.7, 0.8, 0.8]))
    write(f"{d}/m_eff_hi.json", point(x, [0.6, 0.8, 0.9, 1.0, 1.0]))
    write(f"{d}/data.csv", csv(1))
    pars = {"ly": par(), "g": par(), "m_eff_sigma": par(mean=0.0, std=1.0, lo=-3.0), "band_rate": par("uniform", 200.0, 20.0, 1.0, 900.0)}
    write(f"{d}/par.json", pars)
    ins = {"url_base": d, "par_config": f"{d}/par.json", "configs": {"m_emax": 20.0},
           "likelihoods": {llh: {"components": {"band": band}, "copy_parameters": {}, "data_file_name": "data.csv",
                                 "bins_type": "irreg", "bins_on": ["cs1", "cs2"], "bins": [list(bins[0]), [list(bins[1])] * (len(bins[0]) - 1)],
                                 "x_clip": [0.0, 12.0], "y_clip": [0.0, 200.0]}}}
    ins.update(top)
    return ins


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def build(ins):
    with quiet():
        return apt.Context(ins)


class Clock:
    """Simulated clock for the random keys."""

    def __init__(self, t=1000.0, step=1.0):
        self.t, self.step = t, step

    def __call__(self):
        self.t += self.step
        return self.t


def clock(t=1000.0, step=1.0):
    global CLOCK
    CLOCK = Clock(t, step)


POINT = {"ly": 1.05, "g": 0.95, "m_eff_sigma": 0.3, "band_rate": 180.0}


def logp(ctx, p=None, batch=400, t=50.0, **kw):
    clock(t)
    with quiet():
        return tuple(float(v) for v in ctx.log_posterior(dict(p or POINT), batch_size=batch, **kw))


def fit(ctx, n=2, seed=5, nwalkers=10, batch=200, t=1000.0, **kw):
    np.random.seed(seed)
    clock(t)
    with quiet():
        ctx.fitting(nwalkers=nwalkers, iteration=n, batch_size=batch, **kw)


def go_on(ctx, n=1, context=None, batch=200, **kw):
    with quiet():
        ctx.continue_fitting(context, iteration=n, batch_size=batch, **kw)


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
