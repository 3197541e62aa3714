"""Models, instances and posteriors do not disturb each other: Lifecycle.tla."""
import life
from life import replay  # noqa: F401

OPS = ["inst", "cond", "hyper", "setq", "setsmp", "fit", "refuse"]


def run(check):
    p = check.pick
    for scheme in ("mf", "st"):
        life.verify(check, scheme, OPS, p(4, 5))
    b = life.behaviours(check, "mf", OPS, p(12, 20), p(28, 200), check.seed, "all", ["stub1", "stub2"])
    b += life.behaviours(check, "mf", OPS, 10, p(4, 24), check.seed + 1, "all", ["GPCM", "RGPCM"])
    b += life.behaviours(check, "st", OPS, p(10, 16), p(14, 100), check.seed + 2, "all", ["stub1", "stub2"])
    check.replay_all(b)
