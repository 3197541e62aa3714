"""The experiment runner: behaviours of Runner.tla."""
import argparse
import contextlib
import hashlib
import io
import os
import pickle
import shutil
import sys
import tempfile
import warnings
from unittest import mock

import numpy as np
from common import REPO, fl

import life

os.environ.setdefault("MPLBACKEND", "Agg")


class Broken(Exception):
    """Training that breaks off."""


class Directory:
    """A working directory without logging."""

    def __init__(self, root):
        self.root = root

    def file(self, *name):
        path = os.path.join(self.root, *name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        return path


def classes():
    from gpcm.gpcm import CGPCM, GPCM
    from gpcm.rgpcm import RGPCM

    return {"gpcm": GPCM, "cgpcm": CGPCM, "gprv": RGPCM}


def vec(x):
    return np.array([fl(v) for v in x])


def reference(m):
    """The model that the settings ask for."""
    s = m["settings"]
    kw = {k: fl(s[k]) for k in ("noise", "window", "scale")}
    kw.update({k: s[k] for k in ("scheme", "fix_window", "fix_scale")})
    kw.update({k: s[k] for k in ("n_u", "n_z", "m_max") if s[k] != 0})
    if s["extend_t_z"]:
        kw["extend_t_z"] = True
    return classes()[m["class"]](t=vec(s["t"]), **kw)


ATTRS = {
    "gpcm": ["noise", "alpha", "alpha_t", "gamma", "omega", "t_u", "t_z", "n_u", "n_z", "extent", "causal"],
    "gprv": ["noise", "alpha", "alpha_t", "gamma", "gamma_t", "lam", "t_u", "n_u", "ms", "m_max", "a", "b", "extent"],
}
ATTRS["cgpcm"] = ATTRS["gpcm"]


def same(a, b):
    a, b = life.flat(a), life.flat(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def judge_built(check, model, m, where):
    """A model just built is the one asked for."""
    cls = classes()[m["class"]]
    if not check.expect(type(model) is cls, "built-class", f"{type(model).__name__} for {m['class']} {where}"):
        return
    check.expect(model.name == m["name"], "built-name", f"{model.name} {where}")
    check.expect(model.scheme == m["settings"]["scheme"], "built-scheme", f"{model.scheme} {where}")
    ref = reference(m)()
    inst = model()
    for a in ATTRS[m["class"]]:
        check.expect(same(getattr(inst, a), getattr(ref, a)), "built-setting",
                     f"{a}: {getattr(inst, a)} instead of {getattr(ref, a)} {where}")
    got = set(inst.vs.names)
    check.expect(got == set(ref.vs.names), "built-variables", f"{sorted(got)} {where}")
    f = m["settings"]
    check.expect(("alpha" in got) == (not f["fix_window"]), "built-fixed", f"alpha {where}")
    check.expect((("lambda" if m["class"] == "gprv" else "gamma") in got) == (not f["fix_scale"]), "built-fixed", f"scale {where}")


class Fits:
    """Stands in for fitting: moves the variables if it may, and may break off."""

    def __init__(self, check, session, tokens, expected):
        self.check, self.session, self.tokens, self.expected = check, session, tokens, expected
        self.log = []
        self.disk_at_fit = []

    def __call__(self, model, t, y, **kw):
        import jax.numpy as jnp

        self.disk_at_fit.append(dict(self.snapshot()))
        if self.session["crash"] == len(self.log) + 1:
            raise Broken()
        self.log.append((model.name, np.array(t), np.array(y), dict(kw)))
        model()
        self.tokens[("init", model.name, self.session["cfg"]["fix"])] = life.contents(model)
        if kw.get("optimise_hypers", True):
            rng = np.random.RandomState(100 * self.session["id"] + len(model.name))
            for n in model.vs.names:
                z = np.asarray(model.vs.get_latent_vector(n))
                model.vs.set_latent_vector(jnp.array(z + rng.uniform(0.05, 0.25, z.shape)), n)
            self.tokens[(str(self.session["id"]), model.name, self.session["cfg"]["fix"])] = life.contents(model)

    def snapshot(self):
        return {}


def value(tokens, origin, name, fix, var):
    for f in (fix, not fix):
        c = tokens.get((origin, name, f))
        if c is not None and var in c:
            return c[var]
    return None


def files(root):
    d = os.path.join(root, "models")
    if not os.path.isdir(d):
        return {}
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def digest(x):
    return hashlib.sha1(x).hexdigest()[:8]


def argv(s):
    out = ["x.py", "p"]
    if not s["bare"]:
        out += [f"--seed={s['seed']}", f"--scheme={s['cfg']['scheme']}"]
    if s["iters"]:
        out += ["--iters", str(s["iters"])]
    if s["load"]:
        out += ["--load"]
    if s["fix_hypers"]:
        out += ["--fix-hypers"]
    if s["names"]:
        out += ["--model"] + s["names"]
    return out


def session(check, E, rec, step, root, tokens, where):
    s, c, models = step["session"], step["session"]["cfg"], step["models"]
    before = files(root)
    t = vec(c["t"])
    y = np.sin(1 + np.arange(len(t)))
    fits = Fits(check, s, tokens, step["fits"])
    fits.snapshot = lambda: files(root)
    analysed = []
    built = []

    def analyse(models_, t_, y_, *args, **kw):
        analysed.append((models_, t_, y_, args, kw, [life.contents(m) for m in models_]))

    settings = dict(noise=fl(c["noise"]), window=fl(c["window"]), scale=fl(c["scale"]), t=t, y=y,
                    fix_window_scale=c["fix"], n_u=c["n_u"] or None, n_z=c["n_z"] or None, extend_t_z=c["extend"])
    wd = Directory(root) if s["wd"] else None
    error = None
    C = classes()
    with contextlib.ExitStack() as stack:
        for cls in (C["gpcm"], C["cgpcm"], C["gprv"]):
            stack.enter_context(mock.patch.object(cls, "fit", lambda self, *a, **k: fits(self, *a, **k)))
        stack.enter_context(mock.patch.object(E, "analyse_models", analyse))
        stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
        # The working directory of an experiment redirects these for good.
        stack.enter_context(mock.patch.object(sys, "stderr", sys.stderr))
        try:
            if s["how"] in ("run", "argv"):
                if s["how"] == "argv":
                    with mock.patch.object(sys, "argv", argv(s)):
                        args, real = E.setup("experiment")
                    check.expect(np.array_equal(np.random.get_state()[1], np.random.RandomState(s["seed"]).get_state()[1]),
                                 "setup-seed", where)
                    check.expect(os.path.realpath(real.file("q")).startswith(os.path.realpath(os.getcwd())), "setup-directory", where)
                    check.expect([x for x in args.model] == (s["names"] or ["gpcm", "gprv", "cgpcm"])
                                 or sorted(args.model) == ["cgpcm", "gprv", "gpcm"], "setup-models", f"{args.model} {where}")
                else:
                    args = argparse.Namespace(model=list(s["names"]), scheme=c["scheme"], iters=s["iters"] or None,
                                              fix_hypers=s["fix_hypers"], load=s["load"], seed=s["seed"], path=[])
                E.run(args, wd, t_plot=t + 1, **settings)
            else:
                built = E.build_models(list(s["names"]), scheme=c["scheme"], **settings)
                if s["how"] == "train":
                    config = {"iters": s["iters"]} if s["iters"] else {}
                    if s["fix_hypers"]:
                        config["optimise_hypers"] = False
                    E.train_models(built, t, y, config, s["load"] and s["wd"], wd=wd)
        except Exception as e:
            error = e
    outcome = step["outcome"]
    want = {"refused": ValueError, "missing": FileNotFoundError, "crashed": Broken}.get(outcome)
    if want is None:
        if not check.expect(error is None, "goes-through", f"{type(error).__name__}: {error} {where}"):
            return False
    else:
        check.expect(isinstance(error, want), "breaks-off", f"{type(error).__name__}: {error} instead of {want.__name__} {where}")
        if outcome == "refused":
            for x in s["names"]:
                if x not in C:
                    check.expect(x in str(error), "refused-names", f"{error} {where}")
    # What was trained, and how.
    check.expect([x[0] for x in fits.log] == [{"gpcm": "GPCM", "cgpcm": "CGPCM", "gprv": "RGPCM"}[x] for x in step["fits"]],
                 "trained", f"{[x[0] for x in fits.log]} {where}")
    for name, t_, y_, kw in fits.log:
        check.expect(np.array_equal(t_, t) and np.array_equal(y_, y), "trained-data", f"{name} {where}")
        check.expect(bool(kw.get("optimise_hypers", True)) == (not s["fix_hypers"]), "trained-hypers", f"{kw} {where}")
        check.expect(kw.get("iters", 0) == s["iters"], "trained-iters", f"{kw} {where}")
        check.expect(set(kw) <= {"iters", "optimise_hypers"}, "trained-config", f"{kw} {where}")
    # What is on disk.
    after = files(root)
    check.expect(set(after) == {x + ".pickle" for x in step["files"]}, "files", f"{sorted(after)} {where}")
    for f in after:
        if f in before and f[:-7] not in step["saved"]:
            check.expect(after[f] == before[f], "files-kept", f"{f} {where}")
    for k, snap in enumerate(fits.disk_at_fit):
        # Everything trained so far is there when the next is trained.
        for name in step["saved"][:k]:
            check.expect(name + ".pickle" in snap and snap[name + ".pickle"] == after.get(name + ".pickle"), "saved-at-once",
                         f"{name} {where}")
    for x, contents in (step["contents"] or {}).items():
        name = {"gpcm": "GPCM", "cgpcm": "CGPCM", "gprv": "RGPCM"}[x]
        if name + ".pickle" not in after:
            continue
        data = pickle.loads(after[name + ".pickle"])
        check.expect(set(data) == set(contents), "saved-variables", f"{name}: {sorted(data)} {where}")
        for v, origin in contents.items():
            w = value(tokens, origin, name, c["fix"], v)
            check.expect(w is not None and v in data and np.array_equal(np.asarray(data[v]), w), "saved-value",
                         f"{v} of {name} from {origin} {where}")
    # What is built and analysed.
    if step["analysed"]:
        if not check.expect(len(analysed) == 1, "analysed", f"{len(analysed)} times {where}"):
            return False
        built, t_, y_, args_, kw, _ = analysed[0]
        check.expect(np.array_equal(np.asarray(t_), t) and np.array_equal(np.asarray(y_), y), "analysed-data", where)
        check.expect(kw.get("wd", args_[0] if args_ else None) is wd, "analysed-directory", where)
        check.expect("t_plot" in kw and np.array_equal(kw["t_plot"], t + 1), "analysed-arguments", f"{sorted(kw)} {where}")
    else:
        check.expect(not analysed, "analysed", f"{outcome} {where}")
    if outcome in ("built", "done"):
        check.expect([m.name for m in built] == [m["name"] for m in models], "built", f"{[m.name for m in built]} {where}")
        for model, m in zip(built, models):
            if outcome == "built":
                judge_built(check, model, m, where)
                continue
            inst = model()
            got = life.contents(model)
            check.expect(set(got) == set(m["contents"]), "variables", f"{m['name']}: {sorted(got)} {where}")
            for v, origin in m["contents"].items():
                w = value(tokens, origin, m["name"], c["fix"], v)
                if w is None:  # Nothing of this kind was ever trained.
                    w = life.contents(_fresh(m)).get(v)
                check.expect(v in got and same(got[v], w), "contents", f"{v} of {m['name']} from {origin} {where}")
            ref = _fresh(m)()
            for what, a in (("window", "alpha"), ("scale", "lam" if m["class"] == "gprv" else "gamma")):
                if what in m["fixed"]:
                    check.expect(same(getattr(inst, a), getattr(ref, a)), "fixed", f"{a} of {m['name']} {where}")
            check.expect(model.scheme == m["settings"]["scheme"], "scheme", f"{model.scheme} {where}")
    return True


def _fresh(m):
    model = reference(m)
    model()
    return model


def replay(check, rec):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from experiments import experiment as E

    scratch = tempfile.mkdtemp(prefix="c18-")
    old = os.getcwd()
    import wbml.out

    streams = sys.stdout, sys.stderr
    logs = list(wbml.out.streams)
    try:
        os.chdir(scratch)
        root = os.path.join(scratch, "shared")
        tokens = {}
        for k, step in enumerate(rec["steps"]):
            s = step["session"]
            where = f"(session {k + 1}: {s['how']} {s['names']} load={s['load']} {step['outcome']})"
            wbml.out.streams[:] = logs
            if not session(check, E, rec, step, root, tokens, where):
                return
    finally:
        sys.stdout, sys.stderr = streams
        wbml.out.streams[:] = logs
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)


def real(check, rec):
    """The models themselves, trained, saved, loaded and analysed."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from experiments import experiment as E

    scratch = tempfile.mkdtemp(prefix="c18-")
    try:
        wd = Directory(scratch)
        t = np.linspace(0, 3, 8)
        y = np.sin(2 * t)
        kw = dict(noise=0.1, window=1.0, scale=0.5, t=t, y=y, n_u=3, n_z=4, fix_window_scale=rec["fix"])
        seen = []
        inner = E.analyse_models

        def analyse(models, *a, **k):
            first = [life.contents(m) for m in models]
            if rec["analyse"]:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    inner(models, *a, **k)
            seen.append((models, first, [life.contents(m) for m in models]))

        for k, load in enumerate((False, True)):
            held = files(scratch)
            args = argparse.Namespace(model=rec["names"], scheme=rec["scheme"], iters=10, fix_hypers=rec["fix_hypers"], load=load)
            with mock.patch.object(E, "analyse_models", analyse), contextlib.redirect_stdout(io.StringIO()):
                ok, _ = check.guarded("real-run", E.run, args, wd, **kw)
            if not ok:
                return
            if load:
                check.expect(files(scratch) == held, "real-files-kept")
        (m1, _, c1), (m2, _, c2) = seen
        check.expect([m.name for m in m1] == [m.name for m in m2] == rec["expect"], "real-models",
                     f"{[m.name for m in m1]}")
        with contextlib.redirect_stdout(io.StringIO()):
            new = E.build_models(rec["names"], scheme=rec["scheme"], extend_t_z=False, **kw)
        for a, b, n in zip(m1, m2, new):
            a(), b(), n()
            ca, cb, cn = life.contents(a), life.contents(b), life.contents(n)
            # Fitting also stores the approximate posterior with the variables.
            check.expect(set(ca) == set(cb) and set(ca) >= set(cn), "real-variables", f"{a.name}: {sorted(ca)} {sorted(cb)} {sorted(cn)}")
            check.expect(all(np.array_equal(ca[v], cb[v]) for v in ca), "real-round-trip", a.name)
            kept = all(np.allclose(ca[v], cn[v], rtol=1e-12) for v in cn)
            check.expect(kept == (rec["fix_hypers"] or rec["scheme"] == "mean-field-ca"), "real-hypers", f"{a.name} fix_hypers={rec['fix_hypers']}")
        for _, x, z in seen:
            check.expect(all(np.array_equal(p[v], q[v]) for p, q in zip(x, z) for v in p), "real-analysis-frame")
        if rec["analyse"]:
            for f in ("function", "kernel", "psd"):
                check.expect(os.path.getsize(wd.file(f"prediction_{f}.pdf")) > 0 if os.path.exists(wd.file(f"prediction_{f}.pdf")) else False,
                             "real-figures", f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(check):
    steps = check.pick(6, 12)
    r = check.tlc("Runner", {"Out": "", "Steps": steps}, spec="Spec",
                  invariants=["Provenance", "Sorted", "ExactlyAsked", "RoundTrip", "FixedHypers", "Emit"],
                  properties=["Frame"], simulate=check.pick(60, 600), depth=steps + 3)
    check.replay_all(r.records)
    cases = [dict(names=["gprv", "gpcm"], expect=["GPCM", "RGPCM"], scheme="mean-field-ca", fix=False, fix_hypers=False, analyse=False),
             dict(names=["cgpcm"], expect=["CGPCM"], scheme="structured", fix=False, fix_hypers=False, analyse=False),
             dict(names=["gprv", "cgpcm"], expect=["CGPCM", "RGPCM"], scheme="mean-field-gradient", fix=True, fix_hypers=False, analyse=False),
             dict(names=["gpcm"], expect=["GPCM"], scheme="mean-field-collapsed-gradient", fix=True, fix_hypers=True, analyse=False),
             dict(names=["cgpcm", "gpcm"], expect=["GPCM", "CGPCM"], scheme="mean-field-gradient", fix=False, fix_hypers=True, analyse=False),
             dict(names=["gprv"], expect=["RGPCM"], scheme="structured", fix=False, fix_hypers=True, analyse=False),
             dict(names=["gprv", "gpcm"], expect=["GPCM", "RGPCM"], scheme="mean-field-ca", fix=False, fix_hypers=False, analyse=True)]
    check.replay_all(cases, fn="real")
