"""Integrals of exponentiated quadratics: the final states of GaussInt.tla."""
import numpy as np

from common import F, fl
from gaussval import mass, prob

NAMES = ["x", "y", "z", "s", "t"]
XV = {"x": 0.5, "y": -0.25, "z": 1.0}
GRID = [(-0.5, 0.0), (-0.5, 0.75), (1.0, 0.0), (1.0, 0.75)]


def poly(E, pairs):
    p = E.Poly()
    for m, c in pairs:
        q = F(c)
        t = E.const(int(q) if q.denominator == 1 and abs(q) < 10**6 else float(q))
        for n, k in zip(NAMES, m):
            if k > 0:
                t = t * E.var(n, k)
        p = p + t
    return p


def limit(E, pairs, as_number):
    if as_number and all(sum(m) == 0 for m, _ in pairs):
        return float(sum((F(c) for _, c in pairs), F("0")))
    return poly(E, pairs)


def evaluate(E, case, ep, s, t):
    names = [NAMES[v - 1] for v in case["order"]]
    rest = {n: fl(case["unit"]) * XV[n] for n in "xyz" if n not in names}
    env = dict(rest, s=s, t=t)
    if case["api"] == "full":
        return ep.integrate(*names, **env)
    if case["api"] == "half":
        return ep.integrate_half(*names, **env)
    lims = []
    for i, (n, k) in enumerate(zip(names, case["kinds"])):
        # The sign of an infinite limit does not matter.
        neg = np.inf if (case["n"] + i) % 3 == 0 else -np.inf
        pos = -np.inf if (case["n"] + i) % 5 == 0 else np.inf
        num = (case["n"] + i) % 2 == 0
        lo = limit(E, case["lo"][i], num) if k in ("from", "between") else neg
        hi = limit(E, case["hi"][i], num) if k in ("upto", "between") else pos
        lims.append((n, lo, hi))
    return ep.integrate_box(*lims, **env)


def replay(check, case):
    from gpcm import exppoly as E

    pre = fl(case["pre"])
    ep = E.ExpPoly(pre, poly(E, case["p"]))
    shown = str(ep)
    want = [pre * mass(v) * prob(v) for v in case["values"]]
    scale = max(abs(pre * mass(v)) for v in case["values"])
    clause = f"{case['api']}-{len(case['order'])}"
    where = f"case {case['n']} {case['kinds']} in units of {case['unit']}"
    unit = fl(case["unit"])
    grid = [(unit * s, unit * t) for s, t in GRID]
    # One point at a time.
    for (s, t), w, v in zip(grid, want, case["values"]):
        good, g = check.guarded(clause, evaluate, E, case, ep, s, t)
        if not good:
            return
        check.close(g, w, clause, 1e-6, 1e-8 * abs(pre * mass(v)), what=where)
    # Arrays of parameters: elementwise, and broadcast.
    s = np.array([g[0] for g in grid])
    t = np.array([g[1] for g in grid])
    good, g = check.guarded(clause, evaluate, E, case, ep, s, t)
    if good:
        check.close(g * np.ones(4), want, "elementwise", 1e-6, 1e-8 * scale, what=where)
    s = unit * np.array([-0.5, 1.0])[:, None]
    t = unit * np.array([0.0, 0.75])[None, :]
    good, g = check.guarded(clause, evaluate, E, case, ep, s, t)
    if good:
        check.close(
            g * np.ones((2, 2)), np.reshape(want, (2, 2)), "broadcast", 1e-6,
            1e-8 * scale, what=where,
        )
    check.expect(str(ep) == shown, "integrand-unchanged", where)


def refused(check):
    """Integrals that do not exist in closed form are refused."""
    from gpcm import exppoly as E

    x, y, s = E.var("x"), E.var("y"), E.var("s")
    for p in [x + s, -(x**4) + s, s * 1 + y, -(x**3) - x**2, E.const(1)]:
        ep = E.ExpPoly(1, p)
        check.raises("refused", RuntimeError, lambda: ep.integrate("x", s=1.0, y=1.0))
        check.raises(
            "refused", RuntimeError, lambda: ep.integrate_half("x", s=1.0, y=1.0)
        )
        check.raises(
            "refused", RuntimeError,
            lambda: ep.integrate_box(("x", -1.0, 1.0), s=1.0, y=1.0),
        )
    for p in [-(x**2) + s * y, -(x**2) + x * y, -(y**2), -(x**2) - y**3]:
        ep = E.ExpPoly(1, p)
        check.raises("refused", RuntimeError, lambda: ep.integrate_half("x", "y", s=1.0))
        check.raises(
            "refused", RuntimeError,
            lambda: ep.integrate_box(("x", -1.0, 1.0), ("y", -np.inf, 1.0), s=1.0),
        )
    for p in [-s * x**2, -(x**2) * y - y**2, -(1 + s**2) * x**2 + y * s]:
        ep = E.ExpPoly(1, p)
        check.raises("refused", RuntimeError, lambda: ep.integrate("x", s=1.0, y=1.0))


def run(check):
    num = check.pick(420, 6000)
    r = check.tlc(
        "GaussInt", {"Out": "", "Num": num}, invariants=["Concave", "Confluent", "Covariant", "Emit"]
    )
    check.replay_all(r.records)
    check.case = "refused"
    refused(check)
    check.samples.append(r.records[0])
