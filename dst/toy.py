"""A small detector model, written against appletree's public extension API.

It has the same shape as the packaged models (energy spectrum -> yields -> observables -> acceptance,
maps, maps with uncertainty, constants, fitted parameters), but compiles in a fraction of a second,
so that thousands of whole fits can be simulated.  It is re-imported after every simulated process
start, because its classes belong to the appletree module objects of that process.
"""

import sys
from functools import partial

from jax import jit
from jax import numpy as jnp

import appletree as apt
from appletree import randgen
from appletree.config import Constant, ConstantSet, Map, SigmaMap, takes_config
from appletree.component import ComponentFixed, ComponentSim
from appletree.plugin import Plugin


@takes_config(
    Constant(name="toy_emin", type=float, default=0.5, help="lower energy"),
    Constant(name="toy_emax", type=float, default=20.0, help="upper energy"),
)
class ToyEnergy(Plugin):
    depends_on = ["batch_size"]
    provides = ["energy"]

    @partial(jit, static_argnums=(0, 3))
    def simulate(self, key, parameters, batch_size):
        key, energy = randgen.uniform(
            key, self.toy_emin.value, self.toy_emax.value, shape=(batch_size,)
        )
        return key, energy


@takes_config(
    Map(name="toy_ly", method="LERP", default="toy_ly.json", help="light yield"),
)
class ToyLight(Plugin):
    depends_on = ["energy"]
    provides = ["light", "charge"]
    parameters = ("ly", "fluct")

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, energy):
        mean = self.toy_ly.apply(energy) * parameters["ly"]
        key, light = randgen.normal(key, mean * energy, parameters["fluct"] * jnp.sqrt(energy))
        key, u = randgen.uniform(key, 0.0, 1.0, shape=jnp.shape(energy))
        charge = energy * (6.0 + u) - light * 0.3
        return key, light, charge


@takes_config(
    Constant(name="toy_gain", type=float, default=2.0, help="gain"),
)
class ToyObs(Plugin):
    depends_on = ["light", "charge"]
    provides = ["cs1", "cs2"]
    parameters = ("g1", "g2")

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, light, charge):
        cs1 = light * parameters["g1"]
        key, n = randgen.normal(key, jnp.zeros_like(charge), jnp.ones_like(charge))
        cs2 = charge * parameters["g2"] * self.toy_gain.value + n
        return key, cs1, cs2


@takes_config(
    SigmaMap(
        name="toy_eff",
        method="LERP",
        default=["toy_eff.json", "toy_eff_lo.json", "toy_eff_hi.json"],
        help="acceptance",
    ),
)
class ToyEff(Plugin):
    depends_on = ["cs1"]
    provides = ["acc"]

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, cs1):
        acc = jnp.clip(self.toy_eff.apply(cs1, parameters), 0.0, 1.0)
        return key, acc


@takes_config(
    Map(name="toy_cut", method="LERP", default="toy_cut.json", help="cut acceptance"),
)
class ToyCut(Plugin):
    depends_on = ["cs2", "acc"]
    provides = ["eff"]

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, cs2, acc):
        return key, acc * jnp.clip(self.toy_cut.apply(cs2), 0.0, 1.0)


@takes_config(
    Constant(name="toy_line", type=float, default=9.0, help="line energy"),
    Constant(name="toy_width", type=float, default=1.5, help="line width"),
)
class ToyLine(Plugin):
    depends_on = ["batch_size"]
    provides = ["energy"]

    @partial(jit, static_argnums=(0, 3))
    def simulate(self, key, parameters, batch_size):
        key, energy = randgen.truncate_normal(
            key, self.toy_line.value, self.toy_width.value, 0.1, 40.0, shape=(batch_size,)
        )
        return key, energy


@takes_config(
    Map(name="toy_spec", method="LERP", default="toy_spec.json", help="energy spectrum"),
)
class ToySpectrum(Plugin):
    depends_on = ["batch_size"]
    provides = ["energy"]

    @partial(jit, static_argnums=(0, 3))
    def simulate(self, key, parameters, batch_size):
        key, u = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
        return key, jnp.clip(self.toy_spec.apply(u), 0.1, 40.0)


@takes_config(
    Map(name="toy_field", method="LERP", default="toy_field.json", help="acceptance in two dimensions"),
)
class ToyField(Plugin):
    depends_on = ["cs1", "cs2", "acc"]
    provides = ["eff"]

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, cs1, cs2, acc):
        pos = jnp.stack([jnp.clip(cs1, 0.2, 11.0), jnp.clip(cs2, 2.0, 240.0)]).T
        return key, acc * jnp.clip(self.toy_field.apply(pos), 0.0, 1.0)


@takes_config(
    ConstantSet(
        name="toy_points",
        default=[["mu", "sigma"], [[2.0, 5.0, 9.0], [0.2, 0.3, 0.4]]],
        help="energies of literature points",
    ),
)
class ToyPoints(Plugin):
    depends_on = ["batch_size"]
    provides = ["energy"]

    @partial(jit, static_argnums=(0, 3))
    def simulate(self, key, parameters, batch_size):
        n = self.toy_points.set_volume
        key, energy = randgen.normal(key, shape=(batch_size, n), **self._kw())
        return key, jnp.clip(energy, 0.05, jnp.inf).reshape(-1)

    def _kw(self):
        v = self.toy_points.value
        return dict(mean=v["mu"], std=v["sigma"])


class ToyPointsEff(Plugin):
    depends_on = ["energy"]
    provides = ["eff"]

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, energy):
        return key, jnp.where(energy < 15.0, 1.0, 0.0)


class ToyBand(ComponentSim):
    norm_type = "on_pdf"

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        for p in (ToyEnergy, ToyLight, ToyObs, ToyEff, ToyCut):
            self.register(p)


@takes_config(
    Constant(name="toy_glitch_mode", type=int, default=0, help="what goes wrong"),
    Constant(name="toy_glitch_at", type=float, default=1.0, help="light yield beyond which it does"),
)
class ToyGlitch(Plugin):
    """An acceptance that is nonsense in a part of the parameter space."""

    depends_on = ["cs1", "cs2", "acc"]
    provides = ["eff"]
    parameters = ("ly",)

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, cs1, cs2, acc):
        mode = self.toy_glitch_mode.value
        bad = {0: jnp.nan, 1: jnp.inf, 2: 0.0, 3: -1.0, 4: -jnp.inf}[mode]
        hit = (parameters["ly"] > self.toy_glitch_at.value) & (cs1 > 3.0)
        return key, jnp.where(hit, bad, acc)


class ToyGlitchBand(ComponentSim):
    norm_type = "on_pdf"
    add_eps_to_hist = False

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        for p in (ToyEnergy, ToyLight, ToyObs, ToyEff, ToyGlitch):
            self.register(p)


class ToyGlitchEps(ToyGlitchBand):
    add_eps_to_hist = True


class ToyGlitchSim(ToyGlitchBand):
    norm_type = "on_sim"


class ToyBandSim(ToyBand):
    norm_type = "on_sim"
    add_eps_to_hist = False


class ToyPeak(ComponentSim):
    norm_type = "on_pdf"
    add_eps_to_hist = False

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.register((ToyLine, ToyLight, ToyObs, ToyEff, ToyCut))


class ToyMapped(ComponentSim):
    """With a spectrum given as a distribution and an acceptance map in two dimensions."""

    norm_type = "on_pdf"

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.register((ToySpectrum, ToyLight, ToyObs, ToyEff, ToyField))


class ToyYield(ComponentSim):
    """Literature points: yields at given energies."""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.register((ToyPoints, ToyLight, ToyPointsEff))


@takes_config(
    Constant(name="toy_glitch_at", type=float, default=1.0, help="light yield beyond which it does"),
)
class ToyGlitchPoints(Plugin):
    """Literature points that are undefined in a part of the parameter space."""

    depends_on = ["energy"]
    provides = ["eff"]
    parameters = ("ly",)

    @partial(jit, static_argnums=(0,))
    def simulate(self, key, parameters, energy):
        hit = (parameters["ly"] > self.toy_glitch_at.value) & (energy > 4.0)
        return key, jnp.where(hit, jnp.nan, 1.0)


class ToyGlitchYield(ComponentSim):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.register((ToyPoints, ToyLight, ToyGlitchPoints))


class ToyFixed(ComponentFixed):
    norm_type = "on_pdf"


class NestNR(ComponentSim):
    """A nuclear-recoil band out of the packaged NEST v2 plugins."""

    norm_type = "on_pdf"
    add_eps_to_hist = False

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.register(apt.plugins.common.FixedEnergySpectra)
        self.register(apt.plugins.common.PositionSpectra)
        p = apt.plugins
        for name in ("TotalQuanta", "ThomasImelBox", "QyNR", "LyNR", "MeanNphNe", "MeanExcitonIon", "TrueExcitonIonNR",
                     "OmegaNR", "TruePhotonElectronNR"):
            self.register(getattr(p.nestv2, name))
        self.register_all(p.detector)
        self.register_all(p.reconstruction)
        self.register_all(p.efficiency)


def install():
    me = sys.modules[__name__]
    apt.add_plugin_extensions(apt.plugins, me)
    apt.add_component_extensions(apt.components, me)
