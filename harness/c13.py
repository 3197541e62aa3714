"""Elliptical slice sampling: environments of ESS.tla, traces judged by ESSTrace.tla."""
import math

import numpy as np

import vi
from common import fl


class Stop(Exception):
    """The sampler does not come to an end."""


def ext(l):
    if math.isnan(l):
        return dict(t="x", v="0")
    if math.isinf(l):
        return dict(t="+" if l > 0 else "-", v="0")
    return dict(t="n", v=vi.rational(l))


def rats(x):
    return [vi.rational(v) for v in np.asarray(x, dtype=float).ravel()]


class Env:
    """The likelihood, the prior and the random numbers of one environment."""

    def __init__(self, e, seed):
        self.e, self.events, self.calls = e, [], 0
        self.shape = (e["n"], 1) if e["col"] else (e["n"],)
        self.x0 = np.array([fl(v) for v in e["x0"]])
        self.a = np.array([fl(v) for v in e["a"]])
        self.m = np.array([fl(v) for v in e["m"]])
        self.priors, self.fracs, self.exps = 0, 0, 0
        self.x, self.y = None, None
        self.rng = np.random.RandomState(seed)

    def lik(self, x):
        e, d = self.e, x.ravel() - self.x0
        kind = e["lik"]
        if kind == "flat":
            return 0.25
        if kind == "gauss":
            return float(-0.5 * np.sum((x.ravel() - self.m) ** 2) * 3)
        if kind == "far":
            return float(-500 * np.sum((x.ravel() - 2 * self.m) ** 2))
        if kind == "half":
            return float(-np.inf) if self.a @ d < -0.25 else float(-np.sum(d**2))
        if kind == "nan":
            return float(np.nan) if self.a @ d < -0.25 else float(-np.sum(d**2))
        if kind == "storm":
            bad = self.priors in self.e["storm"]
            return float(-np.inf) if bad else float(-0.1 * np.sum(d**2))
        if kind == "spike":
            return float(-1e4 * np.sqrt(np.sum(d**2)))
        if kind == "steps":
            return float(np.floor(4 * np.sin(3 * x.ravel()).sum()))
        raise ValueError(kind)

    def log_lik(self, x):
        self.calls += 1
        if self.calls > 15000:
            raise Stop
        x = np.array(x, dtype=float)
        l = self.lik(x)
        ev = dict(k="ll", x=rats(x), l=ext(l), c="1", s="0", phi="0")
        if self.x is not None and self.y is not None and x.shape == self.shape:
            # Where on the ellipse it is.
            m = np.stack([self.x.ravel(), self.y.ravel()], axis=1)
            (c, s), *_ = np.linalg.lstsq(m, x.ravel(), rcond=None)
            ev.update(flat=bool(np.linalg.matrix_rank(m, tol=1e-6) < 2), c=vi.rational(c), s=vi.rational(s),
                      phi=vi.rational(math.atan2(s, c) % (2 * math.pi)))
        self.events.append(ev)
        return l

    def prior(self):
        p = self.e["prior"]
        y = np.array([fl(v) for v in p[self.priors % len(p)]])
        self.priors += 1
        # Two in a row are independent, also if the list is short.
        y = (y * (1 + 0.01 * (self.priors // len(p)))).reshape(self.shape)
        if not self.e["given"] and self.priors == 1:
            self.x0 = y.ravel().copy()
        self.events.append(dict(k="prior", y=rats(y)))
        self.y = y
        return y.copy()

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = float(low), float(high)
        if self.e["real"] or self.fracs > 3000:
            f = self.rng.random_sample()
        else:
            fr = self.e["frac"]
            f = fl(fr[self.fracs % len(fr)])
        self.fracs += 1
        v = lo + f * (hi - lo)
        self.events.append(dict(k="unif", lo=vi.rational(lo), hi=vi.rational(hi), v=vi.rational(v),
                                c=vi.rational(math.cos(v)), s=vi.rational(math.sin(v))))
        return v if size is None else np.full(size, v)

    def exponential(self, scale=1.0, size=None):
        xs = self.e["exp"]
        v = float(scale) * (self.rng.exponential() if self.e["real"] else fl(xs[self.exps % len(xs)]))
        self.exps += 1
        self.events.append(dict(k="exp", scale=vi.rational(scale), v=vi.rational(v)))
        return v if size is None else np.full(size, v)

    def state(self, ess):
        self.x = np.array(ess.x, dtype=float)
        self.events.append(dict(k="state", x=rats(ess.x), l=ext(float(ess.log_lik_x))))


def record(e, seed, single=False):
    from gpcm.sample import ESS

    env = Env(e, seed)
    ev = env.events
    old = np.random.uniform, np.random.exponential
    np.random.uniform, np.random.exponential = env.uniform, env.exponential
    returned = []
    try:
        if e["given"]:
            ev.append(dict(k="at", x=rats(env.x0)))
            ess = ESS(env.log_lik, env.prior, x_init=env.x0.reshape(env.shape))
        else:
            ess = ESS(env.log_lik, env.prior)
        env.state(ess)
        for c in e["calls"]:
            if c["op"] == "move":
                x = np.array([fl(v) for v in c["x"]]).reshape(env.shape)
                if not np.isfinite(env.lik(x)):
                    continue
                ev.append(dict(k="at", x=rats(x)))
                ess.move(x)
            else:
                for num in [1] * c["num"] if single else [c["num"]]:
                    ev.append(dict(k="call", num=num))
                    xs = ess.sample(num=num, trace=c["op"] == "trace")
                    returned += list(xs)
                    ev.append(dict(k="ret", xs=[rats(x) for x in xs]))
                    env.state(ess)
            env.state(ess)
    finally:
        np.random.uniform, np.random.exponential = old
    ev.append(dict(k="final", xs=[rats(x) for x in returned]))
    return ev, len(returned)


def full(e, seed):
    ev, _ = record(e, seed)
    # Every proposal follows an angle that was drawn from a bracket.
    seen = all(
        ev[i - 1]["k"] == "unif" and ev[i - 1]["lo"] != "0"
        for i, x in enumerate(ev)
        if x["k"] == "ll" and ev[i - 1]["k"] != "at" and (i > 1 or e["given"])
    )
    if not seen:
        # The random numbers do not show the angles. Sample one at a time, to know the state
        # that every ellipse goes through; the angles are then those of the proposals.
        ev, _ = record(e, seed, single=True)
        if any(x.get("flat") for x in ev):
            return None  # The state and the prior draw are collinear: angles cannot be told.
        return dict(events=[x for x in ev if x["k"] != "unif"], seen=False)
    return dict(events=ev, seen=True)


def traces(check, envs, what):
    recs = []
    for e in envs:
        check.case = e
        for again in (0, 1) if e["real"] else (0,):
            with check.limit(120):
                ok, r = check.guarded("samples", full, e, check.seed + again)
            if ok and r:
                recs.append((e, r))
    if not recs:
        return
    res = check.tlc("ESSTrace", {"In": [t for _, t in recs], "Out": ""}, invariants=["Emit"])
    best = {}
    for a in res.records:
        b = best.get(a["k"])
        if b is None or (a["done"], a["i"]) > (b["done"], b["i"]):
            best[a["k"]] = a
    for k, (e, t) in enumerate(recs):
        check.case = e
        check.traces += 1
        check.ok(what, len(t["events"]))
        a = best.get(k + 1)
        if a is None or not a["done"]:
            i = a["i"] if a else 0
            check.fail("not-a-step", f"environment {e['k']} ({e['lik']}), event {i} of {len(t['events'])}: "
                                     f"{str(t['events'][i - 1])[:300]} in {str(a and a['s'])[:500]}")
            if len(check.violations) > 3:
                return
    check.sample(dict(environment={k: recs[0][0][k] for k in ("lik", "calls")}, events=recs[0][1]["events"][:8]))


def replay(check, e):
    traces(check, [e], "events")


def run(check):
    r = check.tlc("ESS", {"Out": "", "N": check.pick(5, 6), "Cases": check.pick(150, 1500)},
                  invariants=["InBracket", "OnSlice", "Reversible", "Emit"])
    traces(check, r.records, "events")
