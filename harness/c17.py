"""Randomness: behaviours of Lifecycle.tla that draw random numbers."""
import life
from life import replay  # noqa: F401

OPS = ["cond", "setq", "setsmp", "seed", "post-sample", "kernel", "filter", "prior-sample", "elbo-state", "fourier"]


def run(check):
    p = check.pick
    for scheme in ("mf", "st"):
        life.verify(check, scheme, ["cond", "setq", "setsmp", "seed", "post-sample", "kernel", "elbo-state"], p(4, 5))
    b = life.behaviours(check, "mf", OPS, p(14, 24), p(24, 200), check.seed, "rng", ["stub1", "stub2"])
    b += life.behaviours(check, "st", OPS, p(14, 24), p(14, 100), check.seed + 1, "rng", ["stub1", "stub2"])
    b += life.behaviours(check, "mf", OPS, 10, p(4, 30), check.seed + 2, "rng", ["GPCM", "RGPCM", "CGPCM"])
    # Fitting and asking for deterministic results draws nothing.
    b += life.behaviours(check, "mf", ["cond", "setq", "fit", "seed", "inst"], 10, p(6, 40), check.seed + 3, "all",
                         ["stub1", "stub2"])
    check.replay_all(b)
