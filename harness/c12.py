"""Saving and loading: behaviours of Lifecycle.tla that save and load."""
import life
from life import replay  # noqa: F401

OPS = ["inst", "cond", "hyper", "setq", "fit", "save", "load", "new"]


def run(check):
    p = check.pick
    small = ["cond", "setq", "hyper", "save", "load", "new"]
    for scheme in ("mf", "st"):
        life.verify(check, scheme, small + ["setsmp"] * (scheme == "st"), p(5, 6), 3)
    b = life.behaviours(check, "mf", OPS, p(16, 28), p(30, 200), check.seed, "save", ["stub1", "stub2"])
    b += life.behaviours(check, "mf", ["cond", "hyper", "setq", "save", "load", "new"], 12, p(4, 24),
                         check.seed + 1, "save", ["GPCM", "RGPCM"])
    b += life.behaviours(check, "st", OPS + ["setsmp"], p(16, 24), p(12, 80), check.seed + 2, "save",
                         ["stub1", "stub2"])
    b += life.behaviours(check, "st", ["cond", "setsmp", "save", "load", "new"], 14, p(7, 40), check.seed + 3,
                         "save", ["stub1", "stub2"], 4)
    check.replay_all(b)
