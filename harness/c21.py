"""What the analysis of an experiment reports and draws: Analysis.tla."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import warnings

import numpy as np
from common import REPO

import life

os.environ.setdefault("MPLBACKEND", "Agg")


class Directory:
    def __init__(self, root):
        self.root = root

    def file(self, *name):
        return os.path.join(self.root, *name)


def parse(s):
    """An expression as nested lists."""
    tokens = re.findall(r"[()]|[^\s()]+", s)

    def go():
        x = tokens.pop(0)
        if x != "(":
            return x
        out = []
        while tokens[0] != ")":
            out.append(go())
        tokens.pop(0)
        return out

    return go()


def autocovariance(y):
    n = len(y)
    d = y - np.mean(y)
    return np.array([np.sum(d[: n - k] * d[k:]) / (n - k) for k in range(n)])


def evaluate(e, env):
    if isinstance(e, str):
        return float(e) if re.match(r"-?[\d.]+$", e) else env[e]
    a = [evaluate(x, env) for x in e[1:]]
    return env[e[0]](*a)


def functions(check_kernel):
    from gpcm.util import estimate_psd

    return {
        "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "sqrt": np.sqrt,
        "positive": lambda a: np.maximum(a, 0), "min": np.min, "max": np.max,
        "true": check_kernel, "autocorr": autocovariance,
        # Decided by C15.
        "psd_x": lambda t, k: np.asarray(estimate_psd(t, k, db=True)[0]),
        "psd_y": lambda t, k: np.asarray(estimate_psd(t, k, db=True)[1]),
    }


def flat(x):
    return life.flat(x)


def environment(model, post, y_, opts, structured):
    """Everything that expressions may refer to, from the posterior."""
    t, y = opts["t"], opts["y"]
    grid = opts["t_plot"] if opts["t_plot"] is not None else t
    mean, var = (flat(x) for x in post.predict(grid))
    env = dict(t=t, y=y, t0=t[0], t_plot=grid, mean=mean, var=var, noise=float(post.noise), t_u=flat(post.t_u))
    if hasattr(post, "t_z"):
        env["t_z"] = flat(post.t_z)
    if opts["truth"] is not None:
        env["truth_x"], env["truth_y"] = opts["truth"]
    if structured:
        for k, pred in (("k", post.predict_kernel()), ("p", post.predict_psd())):
            env[k + "_x"] = flat(pred.x)
            env[k + "_mean"] = flat(pred.mean)
            for lev in ("68", "95"):
                for side in ("lower", "upper"):
                    env[f"{k}_{side}_{lev}"] = flat(getattr(pred, f"err_{lev}_{side}"))
            env[k + "_samples"] = np.asarray(pred.all_samples, dtype=float)
    else:
        # These are summaries of random samples: only their inputs are determined.
        for k, pred in (("k", post.predict_kernel(num_samples=2)), ("p", post.predict_psd(num_samples=2))):
            env[k + "_x"] = flat(pred.x)
    if model.name == "RGPCM":
        m, v = (flat(x) for x in post.predict_fourier())
        ms, mm, length = np.asarray(post.ms), int(post.m_max), float(post.b - post.a)
        c, s = ms <= mm, ms > mm
        env.update(freq_cos=ms[c] / length, z_mean_cos=m[c], z_var_cos=v[c],
                   freq_sin=(ms[s] - mm) / length, z_mean_sin=m[s], z_var_sin=v[s])
    return env


def rows(*xs):
    return np.stack(np.broadcast_arrays(*[np.asarray(x, dtype=float).ravel() for x in xs]), axis=1)


def inside(want, got, exact=True):
    """Whether all rows of `want` are in `got`, and if `exact`, conversely."""
    if want.size == 0 or got.size == 0 or want.shape[1] != got.shape[1]:
        return False
    tol = 1e-6 * np.maximum(np.abs(want).max(axis=0), 1e-9) + 1e-12
    d = np.all(np.abs(want[:, None, :] - got[None, :, :]) <= tol, axis=2)
    return bool(np.all(d.any(axis=1)) and (not exact or np.all(d.any(axis=0))))


def drawn(ax):
    """Everything in a panel: lines, points, bands and error bars."""
    from matplotlib.collections import LineCollection, PathCollection, PolyCollection

    lines = [(ln.get_label(), rows(ln.get_xdata(), ln.get_ydata())) for ln in ax.get_lines() if len(ln.get_xdata())]
    points, bands, bars = [], [], []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            points.append((c.get_label(), np.asarray(c.get_offsets(), dtype=float)))
        elif isinstance(c, PolyCollection):
            bands.append(np.concatenate([p.vertices for p in c.get_paths()]))
        elif isinstance(c, LineCollection):
            bars.append(np.array([[s[0][0], min(s[0][1], s[1][1]), max(s[0][1], s[1][1])]
                                  for s in c.get_segments() if len(s) == 2]))
    return lines, points, bands, bars


def judge_panel(check, ax, p, env, where):
    lines, points, bands, bars = drawn(ax)
    labels = {x for x, _ in lines + points}
    for x in p["absent"]:
        check.expect(x not in labels, "not-given", f"{x} in {where}")
    for c in p["curves"]:
        try:
            x, lo, hi = (evaluate(parse(c[k]), env) for k in ("x", "lower", "upper"))
        except KeyError:
            continue  # Not determined.
        what = f"{c['kind']} {c['label']} {c['lower']}..{c['upper']} over {c['x']}, {where}"
        if c["kind"] == "line":
            got = [r for ln, r in lines if not c["label"] or ln == c["label"]]
            want = rows(x, lo)
            # In decibels, what is nearly zero is not determined.
            keep = want[:, 1] > want[:, 1].max() - 70 if p["figure"] == "psd" else np.ones(len(want), bool)
            ok = any(r.shape == want.shape and np.allclose(r[:, 0], want[:, 0], rtol=1e-6, atol=1e-9)
                     and np.all(np.abs(r - want)[keep, 1] <= 1e-6 * np.abs(want[:, 1]).max() + 1e-12) for r in got)
        elif c["kind"] == "points":
            got = [r for ln, r in points if not c["label"] or ln == c["label"]]
            ok = any(len(r) == np.size(x) and inside(rows(x, lo), r) for r in got)
        elif c["kind"] == "band":
            want = np.concatenate([rows(x, lo), rows(x, hi)])
            if p["figure"] == "psd":
                want = want[want[:, 1] > want[:, 1].max() - 70]
            ok = any(inside(want, b, exact=p["figure"] != "psd") for b in bands)
        else:
            ok = bool(bars) and inside(rows(x, lo, hi), np.concatenate(bars), exact=False)
        check.expect(ok, f"drawn-{p['figure']}", what)
    if p["samples"] in env:
        all_ = env[p["samples"]]
        x = env[p["samples"][0] + "_x"]
        all_ = all_ if all_.shape[0] == len(x) else all_.T
        found = set()
        for ln, r in lines:
            if len(r) == len(x) and np.allclose(r[:, 0], x):
                m = np.all(np.abs(all_ - r[:, 1:]) <= 1e-6 * np.abs(all_).max(), axis=0)
                found |= set(np.argwhere(m).ravel().tolist())
        check.expect(len(found) >= min(3, all_.shape[1]), "drawn-samples", f"{len(found)} in {where}")
    for lim, get in ((p["xlim"], ax.get_xlim), (p["ylim"], ax.get_ylim)):
        if lim:
            try:
                want = [evaluate(parse(e), env) for e in lim]
            except KeyError:
                continue
            check.close(list(get()), want, "limits", 1e-9, 1e-9, what=where)


def make(E, names, scheme, seed, t, y):
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal
    from lab import dense

    models = E.build_models(names, scheme=scheme, noise=0.15, window=1.2, scale=0.6, t=t, y=y,
                            fix_window_scale=False, n_u=4, n_z=6, extend_t_z=False)
    rng = np.random.default_rng(seed)
    for m in models:
        inst = m()
        a = inst.approximation
        for s, n, k in (("u", inst.n_u, inst.K_u), ("z", inst.n_z, inst.K_z)):
            d = np.sqrt(np.diag(np.asarray(dense(k))))
            c = 0.4 * rng.standard_normal((n, n))
            setattr(a, "q_" + s, NaturalNormal(jnp.array(d[:, None] * rng.standard_normal((n, 1))),
                                               jnp.array(d[:, None] * (c @ c.T + np.eye(n)) * d[None, :])))
            if scheme == "structured":
                setattr(a, f"q_{s}_samples", [jnp.array(rng.standard_normal((n, 1)) / d[:, None]) for _ in range(5)])
    return models


def number(text, key):
    m = re.findall(rf"^.*?\b{re.escape(key)}:\s*(\S+)", text, re.M)
    return [float(x) for x in m if re.match(r"-?[\d.]+(e[-+]?\d+)?$", x)]


def replay(check, rec):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import jax.numpy as jnp
    import lab.jax as B
    import matplotlib.pyplot as plt
    import wbml.out
    from experiments import experiment as E
    from stheno import EQ, Delta

    cfg = rec["cfg"]
    opt = set(cfg["opt"])
    structured = cfg["scheme"] == "structured"
    seed = check.seed + rec["idx"]
    rng = np.random.default_rng(seed)
    t = np.linspace(0.5, 4.0, 8) if "spaced" in opt else np.array([0.5, 0.6, 1.9, 2.0, 2.2, 3.7, 3.9, 4.0])
    y = np.sin(2 * t) + 0.3 * rng.standard_normal(len(t))
    x_plot = np.linspace(0.0, 4.5, 11)
    opts = dict(t=t, y=y, t_plot=x_plot if "plot" in opt else None,
                truth=(np.linspace(0, 4, 7), rng.standard_normal(7)) if "truth" in opt else None)
    kw = {k: v for k, v in (("t_plot", opts["t_plot"]), ("truth", opts["truth"])) if v is not None}
    noise, length = 0.2, 0.9
    if "kernel" in opt:
        kw["true_kernel"] = EQ().stretch(length)
    if "noisy" in opt:
        kw["true_noisy_kernel"] = EQ().stretch(length) + noise * Delta()
    if "comparative" in opt:
        kw["comparative_kernel"] = lambda vs: vs.pos(1.0) * EQ().stretch(vs.pos(0.8)) + vs.pos(0.3) * Delta()
    ranges = {f: (0.1 * (k + 1), 0.7 * (k + 1)) for k, f in enumerate(("function", "kernel", "psd"))}
    if cfg["xr"]:
        kw["x_range"] = {f: ranges[f] for f in cfg["xr"]}
    if cfg["yr"]:
        kw["y_range"] = {f: ranges[f] for f in cfg["yr"]}
    where = f"{cfg['models']} {cfg['scheme']} {sorted(opt)}"

    names = list(cfg["models"])
    quiet = contextlib.redirect_stdout(io.StringIO())
    with quiet:
        models = make(E, names, cfg["scheme"], seed, t, y)
        twins = make(E, names, cfg["scheme"], seed, t, y)
    scratch = tempfile.mkdtemp(prefix="c21-")
    plt.close("all")
    try:
        wd = Directory(scratch) if "save" in opt else None
        held = [life.contents(m) for m in models]
        state = B.create_random_state(jnp.float64, seed=seed)
        # What must be shown.
        with quiet, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            envs = {}
            for x, m in zip(names, twins):
                envs[x] = environment(m, m.condition(t, y)(), y, opts, structured)
                envs[x].update(functions(lambda s: np.exp(-0.5 * (np.asarray(s) - np.asarray(s)[0]) ** 2 / length**2)))
            B.set_global_random_state(state)
            elbos = [float(m.elbo(t, y)) for m in twins]
        B.set_global_random_state(state)
        text = io.StringIO()
        streams = list(wbml.out.streams)
        wbml.out.streams[:] = [text]
        old_digits = getattr(wbml.out, "digits", None)
        if old_digits is not None:
            wbml.out.digits = 9
        plt.close("all")
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(text):
                warnings.simplefilter("ignore")
                ok, _ = check.guarded("analyse", E.analyse_models, models, t, y, wd=wd, **kw)
        finally:
            wbml.out.streams[:] = streams
            if old_digits is not None:
                wbml.out.digits = old_digits
        if not ok:
            return
        text = text.getvalue()
        # What was reported.
        section = text[text.find("ELBOs"):] if "ELBOs" in text else ""
        for x, e in zip([m.name for m in twins], elbos):
            got = number(section, x)
            check.expect(bool(got) and abs(got[0] - e) <= 2e-3 * (1 + abs(e)), "elbo", f"{x}: {got} instead of {e}, {where}")
        k = np.exp(-0.5 * (t[:, None] - t[None, :]) ** 2 / length**2)

        def lml(k):
            return -0.5 * (y @ np.linalg.solve(k, y) + np.linalg.slogdet(2 * np.pi * k)[1])

        true = number(text, "LML under true GP")
        if "noisy" in opt:
            want = lml(k + noise * np.eye(len(t)))
            check.expect(len(true) == 1 and abs(true[0] - want) <= 2e-3 * (1 + abs(want)), "true-likelihood", f"{true} instead of {want}, {where}")
        else:
            check.expect(not true, "true-likelihood", where)
        best = number(text, "LML under optimised GP")
        if "comparative" in opt:
            from scipy.optimize import minimize

            def f(p):
                a, b, c = np.exp(p)
                return -lml(a * np.exp(-0.5 * (t[:, None] - t[None, :]) ** 2 / b**2) + (c + 1e-10) * np.eye(len(t)))

            r = minimize(f, np.log([1.0, 0.8, 0.3]), method="L-BFGS-B", bounds=[(-8, 8)] * 3)
            check.expect(len(best) == 1 and best[0] >= -f(np.log([1.0, 0.8, 0.3])) - 2e-3, "optimised-likelihood", f"{best} {where}")
            check.expect(len(best) == 1 and abs(best[0] + r.fun) <= 0.05 * (1 + abs(r.fun)), "optimised-likelihood",
                         f"{best} instead of {-r.fun}, {where}")
        else:
            check.expect(not best, "optimised-likelihood", where)
        # Models are as they were, other than what estimating the structured bound fits.
        for m, c in zip(models, held):
            now = life.contents(m)
            keep = [v for v in c if not (structured and re.match(r"q_[uz]\[0\]\.(lam|prec)$", v))]
            check.expect(all(v in now and np.array_equal(now[v], c[v]) for v in keep), "models-kept", f"{m.name} {where}")
            check.expect(not m.instantiated and not m.posterior, "models-kept", f"{m.name} {where}")
        # What was drawn.
        axes = {}
        for n in plt.get_fignums():
            for ax in plt.figure(n).axes:
                axes.setdefault(ax.get_title(), []).append((n, ax))
        for p in [p for p in rec["page"] if p["what"] == "panel"]:
            got = axes.pop(p["title"], [])
            if check.expect(len(got) == 1, "panels", f"{p['title']} {len(got)} times, {where}"):
                judge_panel(check, got[0][1], p, dict(envs[p["model"]], x_range_lower=ranges.get(p["figure"], (0, 0))[0],
                            x_range_upper=ranges.get(p["figure"], (0, 0))[1], y_range_lower=ranges.get(p["figure"], (0, 0))[0],
                            y_range_upper=ranges.get(p["figure"], (0, 0))[1]), f"{p['title']} {where}")
        check.expect(not [x for x in axes if x], "panels", f"also {sorted(axes)} {where}")
        out = set(os.listdir(scratch))
        want = {f"prediction_{f}.pdf" for f in ("function", "kernel", "psd", "fourier")} if wd else set()
        check.expect(out == want and all(os.path.getsize(os.path.join(scratch, f)) > 500 for f in out), "saved-figures", f"{sorted(out)} {where}")
    finally:
        plt.close("all")
        shutil.rmtree(scratch, ignore_errors=True)


def bundled(check, rec):
    """The settings with which the bundled experiments on synthetic data ask for an analysis."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import runpy
    from unittest import mock

    from experiments import experiment as E

    scratch, old, streams = tempfile.mkdtemp(prefix="c21-"), os.getcwd(), (sys.stdout, sys.stderr)
    seen = []
    try:
        os.chdir(scratch)
        setup = lambda name: (None, Directory(scratch))  # noqa: E731
        with mock.patch.object(E, "setup", setup), mock.patch.object(E, "run", lambda *a, **k: seen.append(k)), \
                warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            ok, _ = check.guarded("bundled", runpy.run_module, f"experiments.{rec['name']}", run_name="__main__")
    finally:
        sys.stdout, sys.stderr = streams
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    if not ok or not check.expect(len(seen) == 1, "bundled", f"{rec['name']}: {len(seen)} runs"):
        return
    k = seen[0]
    t, grid = np.asarray(k["t"]), np.asarray(k["t_plot"])
    env = dict(functions(None), t=t, t_plot=grid)
    lo, hi = (evaluate(parse(e), env) for e in rec["xlim"])
    # A panel has a width, and shows where the data are.
    check.expect(hi > lo, "bundled-grid", f"{rec['name']}: predictions from {lo} to {hi}")
    check.expect(bool(np.any((t >= lo) & (t <= hi))), "bundled-grid", f"{rec['name']}: no data between {lo} and {hi}")
    check.expect(np.all(np.diff(grid) > 0), "bundled-grid", f"{rec['name']}: inputs do not increase")
    check.expect(np.array_equal(k["truth"][0], grid) and np.shape(k["truth"][1]) == grid.shape, "bundled-truth", rec["name"])
    check.expect(len(t) == len(k["y"]), "bundled-data", rec["name"])
    x = np.array([0.0, 0.3, 1.7])
    diff = life.flat(k["true_noisy_kernel"](x).mat) - life.flat(k["true_kernel"](x).mat)
    check.close(diff, (float(k["noise"]) * np.eye(3)).ravel(), "bundled-noise", 1e-6, 1e-9, what=rec["name"])


def run(check):
    check.tlc("Analysis", {"Out": "", "Full": False}, spec="Spec", invariants=["Complete", "Given", "OneEach"],
              properties=["Frame", "Finishes"])
    r = check.tlc("Analysis", {"Out": "", "Full": True}, spec="Spec", invariants=["Complete", "Given", "OneEach", "Emit"],
                  properties=["Frame"])
    by = {}
    for x in r.records:
        by.setdefault((tuple(x["cfg"]["models"]), x["cfg"]["scheme"]), []).append(x)
    rng = np.random.default_rng(check.seed)
    recs = []
    for k in sorted(by):
        for i in rng.permutation(len(by[k]))[: check.pick(2, 12)]:
            recs.append(dict(by[k][i], idx=len(recs)))
    recs.sort(key=lambda x: -len(x["cfg"]["models"]))
    check.replay_all(recs)
    panel = next(p for x in r.records if "plot" in x["cfg"]["opt"] and not x["cfg"]["xr"] for p in x["page"]
                 if p["what"] == "panel" and p["figure"] == "function")
    check.replay_all([dict(name=n, xlim=panel["xlim"]) for n in ("eq", "smk")], fn="bundled")
