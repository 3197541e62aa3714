"""Numbers for the symbolic values of GaussOps.tla."""
import math

import numpy as np
from scipy.special import ndtr

from common import F, fl

_X, _W = np.polynomial.legendre.leggauss(40)


def root(q):
    return math.sqrt(float(F(q)))


def mass(v):
    """sqrt((2 pi)^k / det) exp(expo)."""
    return math.sqrt((2 * math.pi) ** v["k"] / float(F(v["det"]))) * math.exp(
        fl(v["expo"])
    )


def _lim(s, sd, sign):
    return sign * math.inf if s == "inf" else float(F(s)) / sd


def prob(v):
    """Probability (signed) of the box under the normal."""
    d = len(v["v"])
    if d == 0:
        return 1.0
    sd = [root(x) for x in v["v"]]
    lo = [_lim(s, x, -1) for s, x in zip(v["lo"], sd)]
    hi = [_lim(s, x, 1) for s, x in zip(v["hi"], sd)]
    if d == 1:
        # The difference with the smaller cancellation.
        if min(lo[0], hi[0]) > 0:
            return float(ndtr(-lo[0]) - ndtr(-hi[0]))
        return float(ndtr(hi[0]) - ndtr(lo[0]))
    rho = fl(v["cov"]) / (sd[0] * sd[1])
    s = math.sqrt(1 - rho * rho)
    a, b = max(min(lo[0], 12), -12), max(min(hi[0], 12), -12)
    edges = np.linspace(a, b, 25 if s > 0.2 else 401)
    tot = 0.0
    for p, q in zip(edges[:-1], edges[1:]):
        x = (p + q) / 2 + (q - p) / 2 * _X
        f = np.exp(-0.5 * x * x) / math.sqrt(2 * math.pi)
        f = f * (ndtr((hi[1] - rho * x) / s) - ndtr((lo[1] - rho * x) / s))
        tot += (q - p) / 2 * float(np.sum(_W * f))
    return tot
