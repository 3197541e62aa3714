"""Shared by C07, C08, C09 and C19: models whose integrals are those of VIOps.tla."""
import math

import numpy as np

from common import fl


def mat(a):
    return np.array([[fl(x) for x in r] for r in a])


def vec(a):
    return np.array([fl(x) for x in a])


def log_of(p):
    """log of a rational, also of one that a float cannot represent."""
    from fractions import Fraction

    q = Fraction(p)

    def ln(n):
        k = max(n.bit_length() - 60, 0)
        return math.log(n >> k) + k * math.log(2)

    return ln(q.numerator) - ln(q.denominator)


def bound(e, s2):
    return 0.5 * (fl(e["rat"]) + log_of(e["det"]) - e["n"] * math.log(2 * math.pi * s2))


def data(d):
    return np.array([float(o[0]) for o in d]), np.array([fl(o[1]) for o in d])


_stub = None


def stub_class():
    """A model of which all integrals are given tables: what depends on the kind of model
    is replaced, all of the inference is the real code. Times are indices of the tables."""
    global _stub
    if _stub is not None:
        return _stub
    import jax.numpy as jnp
    from gpcm.model import AbstractGPCM

    class Stub(AbstractGPCM):
        def __init__(self, m, scheme):
            AbstractGPCM.__init__(self, scheme)
            self.n_u, self.n_z = len(m["ku"]), len(m["kz"])
            self.tab = {k: jnp.array(mat(m[k])) for k in ("ku", "kz", "iux")}
            self.tab["ihx"] = jnp.array(vec(m["ihx"]))
            self.tab["ihz"] = jnp.array(np.stack([mat(x) for x in m["ihz"]]))
            self.tab["iuz"] = jnp.array(np.stack([mat(x) for x in m["iuz"]]))
            self.the_noise = fl(m["s2"])
            self.extent = 4.0
            # A variable that nothing depends on, as a witness.
            self.vs.positive(init=1.5, name="witness")
            self.vs.positive(init=self.the_noise, name="noise")

        def __prior__(self):
            self.noise = self.ps.noise.positive(self.the_noise)
            AbstractGPCM.__prior__(self)

        def _at(self, name, t):
            i = jnp.round(jnp.asarray(t)).astype(int) - 1
            return jnp.take(self.tab[name], i, axis=0)

        def compute_K_u(self):
            return self.tab["ku"]

        def compute_K_z(self):
            return self.tab["kz"]

        def compute_i_hx(self, t1=None, t2=None):
            return self._at("ihx", t1) + 0 * t2

        def compute_I_ux(self, t1=None, t2=None):
            return self.tab["iux"]

        def compute_I_hz(self, t):
            return self._at("ihz", t)

        def compute_I_uz(self, t):
            return self._at("iuz", t)

    _stub = Stub
    return Stub


def natural(q):
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal

    return NaturalNormal(jnp.array(mat(q["lam"])), jnp.array(mat(q["prec"])))


def set_q(model, q_u, q_z):
    """Set the approximate posterior of the current stage."""
    instance = model()
    instance.approximation.q_u = natural(q_u)
    instance.approximation.q_z = natural(q_z)


def params(q):
    from lab import dense

    return np.asarray(dense(q.lam)), np.asarray(dense(q.prec))


def rational(x):
    """A float as an exact rational of the specification."""
    from fractions import Fraction

    f = Fraction(float(x))
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def ratmat(a):
    return [[rational(x) for x in r] for r in np.atleast_2d(np.asarray(a))]


def real_models(scheme):
    """Small models of every kind, well conditioned, with times and data for these."""
    from gpcm.gpcm import CGPCM, GPCM
    from gpcm.rgpcm import RGPCM

    t = np.array([0.5, 1.0, 1.7, 2.6, 3.5])
    y = np.array([0.6, -0.4, 1.3, 0.2, -0.9])
    return [
        ("GPCM", lambda: GPCM(scheme=scheme, noise=0.2, alpha=0.4, gamma=1.3, omega=0.8,
                              t_u=np.array([-1.5, 0.0, 1.5]),
                              t_z=np.array([-0.6, 1.4, 3.1, 4.4])), t, y),
        ("CGPCM", lambda: CGPCM(scheme=scheme, noise=0.1, alpha=0.5, gamma=1.1, omega=0.9,
                                t_u=np.array([0.2, 1.6, 3.0]),
                                t_z=np.array([-0.6, 1.0, 2.5])), t, y),
        ("RGPCM", lambda: RGPCM(scheme=scheme, noise=0.05, lam=0.6, alpha=0.9, gamma=0.5,
                                t_u=np.array([0.0, 1.1, 2.4]), a=-1.0, b=5.0,
                                m_max=2, ms=np.array([0, 1, 2, 3])), t, y),
    ]


def tables(model, t):
    """The integrals that a model reports, exactly."""
    from lab import dense

    inst = model()
    d = lambda x: np.asarray(dense(x))
    ihx = d(inst.compute_i_hx(t, t))
    ihz, iuz = d(inst.compute_I_hz(t)), d(inst.compute_I_uz(t))
    return dict(
        ku=ratmat(d(inst.compute_K_u())), kz=ratmat(d(inst.compute_K_z())),
        kui="", kzi="", s2=rational(float(d(inst.noise))),
        iux=ratmat(d(inst.compute_I_ux())),
        ihx=[rational(x) for x in np.broadcast_to(ihx, (len(t),))],
        ihz=[ratmat(x) for x in ihz], iuz=[ratmat(x) for x in iuz],
    )


def ratnat(q):
    l, p = params(q)
    return dict(lam=ratmat(l), prec=ratmat(p))
