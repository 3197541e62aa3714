"""Mean-field inference: behaviours of VI.tla replayed, and recorded states of fits judged
by VITrace.tla."""
import numpy as np

import vi
from common import fl

RT = 1e-6


def judge_state(check, model, case, ans, where):
    """What the implementation says in a state of the machine."""
    s2 = fl(case["m"]["s2"])
    t, y = vi.data(case["ask"])
    st = ans["s"]
    inst = model()
    for name in ("u", "z"):
        for kind in ("p_", "q_"):
            ok, q = check.guarded("state", lambda: getattr(inst.approximation, kind + name))
            if not ok:
                return
            l, p = vi.params(q)
            clause = "prior" if kind == "p_" else "posterior"
            want = st[kind[0] + name]
            scale = 1 + np.abs(vi.mat(want["prec"])).max()
            check.close(l, vi.mat(want["lam"]), clause, 1e-5, 1e-6 * scale, what=f"{kind}{name} lam of {where}")
            check.close(p, vi.mat(want["prec"]), clause, 1e-5, 1e-6 * scale, what=f"{kind}{name} precision of {where}")
    for clause, kw in (("elbo", {}), ("over_u", {"collapsed": "u"}), ("over_z", {"collapsed": "z"})):
        ok, e = check.guarded(clause, lambda: model.elbo(t, y, **kw))
        w = vi.bound(ans[clause], s2)
        ok and check.close(e, w, clause, 1e-5, 1e-6, what=where)


def replay(check, rec):
    if "model" in rec:
        return models(check, [rec["model"]])
    case = rec["case"]
    where = f"case {case['k']} (n_u={case['m']['nu']}, n_z={case['m']['nz']})"
    model = vi.stub_class()(case["m"], "mean-field-ca")
    vi.set_q(model, case["qu"], case["qz"])
    judge_state(check, model, case, rec["log"][0], f"{where} initially")
    for k, (x, ans) in enumerate(zip(case["script"], rec["log"][1:])):
        t, y = vi.data(x["d"])
        here = f"{where} after {[s['op'] for s in case['script'][:k + 1]]}"
        if x["op"] == "fit":
            ok, _ = check.guarded("fit", model.fit, t, y, iters=x["rounds"])
        else:
            ok, model2 = check.guarded("condition", model.condition, t, y)
            if ok:
                model = model2
                vi.set_q(model, x["qu"], x["qz"])
        if not ok:
            return
        judge_state(check, model, case, ans, here)


def record(rec, got, name, model, t, y, extra=None):
    """Append the state of the model to the trace, and what it says to `got`."""
    ap = model().approximation
    r = dict(
        kind="mf", id=len(rec), m=vi.tables(model, t),
        d=[[i + 1, vi.rational(v)] for i, v in enumerate(y)],
        qu=vi.ratnat(ap.q_u), qz=vi.ratnat(ap.q_z), pu=vi.ratnat(ap.p_u), pz=vi.ratnat(ap.p_z),
    )
    rec.append(r)
    got.append(dict(
        name=name, n=len(y), noise=float(model().noise),
        elbo=float(model.elbo(t, y)),
        over_u=float(model.elbo(t, y, collapsed="u")),
        over_z=float(model.elbo(t, y, collapsed="z")),
        **(extra or {}),
    ))


def random_q(rng, model):
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal

    inst = model()
    for name, n, k in (("u", inst.n_u, inst.K_u), ("z", inst.n_z, inst.K_z)):
        from lab import dense

        k = np.asarray(dense(k))
        a = 0.3 * rng.standard_normal((n, n))
        s = np.sqrt(np.diag(k))
        # Comparable to the prior.
        p = k + s[:, None] * (a @ a.T + 0.3 * np.eye(n)) * s[None, :]
        l = s[:, None] * rng.standard_normal((n, 1))
        setattr(inst.approximation, "q_" + name, NaturalNormal(jnp.array(l), jnp.array(p)))


def record_models(check, scheme, which):
    """Histories of the real models."""
    rec, got = [], []
    for name, make, t, y in vi.real_models(scheme):
        if name not in which:
            continue
        rng = np.random.default_rng(check.seed + len(name))
        model = make()
        random_q(rng, model)
        record(rec, got, f"{name}, some posterior", model, t, y)
        model.fit(t, y, iters=2)
        record(rec, got, f"{name}, two iterations", model, t, y)
        model.fit(t, y, iters=20000)
        record(rec, got, f"{name}, converged", model, t, y, dict(fixed=True))
        # Further data, which includes data at the same times.
        post = model.condition(t, y)
        random_q(rng, post)
        record(rec, got, f"{name}, conditioned", post, t[::-1][:3] - 0.1, y[:3])
        post.fit(t[:3], y[2:], iters=20000)
        record(rec, got, f"{name}, conditioned and converged", post, t[:3], y[2:], dict(fixed=True))
    return rec, got


def models(check, which):
    ok, r = check.guarded("models", record_models, check, "mean-field-ca", which)
    if not ok:
        return
    rec, got = r
    res = check.tlc("VITrace", {"In": rec, "Out": "", "Bits": 240}, invariants=["Bounds", "Emit"])
    for a in res.records:
        g, r = got[a["id"]], rec[a["id"]]
        for k in ("elbo", "over_u", "over_z"):
            check.close(g[k], vi.bound(a[k], g["noise"]), k, 1e-5, 1e-5, what=g["name"])
        if g.get("fixed"):
            for q, b in (("qu", "bu"), ("qz", "bz")):
                for k in ("lam", "prec"):
                    w = vi.mat(a[b][k])
                    check.close(vi.mat(r[q][k]), w, "fixed-point", 1e-4,
                                1e-4 * (np.abs(w).max() + np.sqrt(np.abs(vi.mat(a[b]["prec"])).max())),
                                what=f"{q} {k} of {g['name']}")
            check.close(g["over_u"], g["elbo"], "fixed-point", 1e-6, 1e-6, what=g["name"])
            check.close(g["over_z"], g["elbo"], "fixed-point", 1e-6, 1e-6, what=g["name"])
        else:
            check.expect(g["over_u"] >= g["elbo"] - 1e-8, "collapsed-is-maximum", g["name"])
            check.expect(g["over_z"] >= g["elbo"] - 1e-8, "collapsed-is-maximum", g["name"])



def run(check):
    r = check.tlc(
        "VI",
        {"Out": "", "Cases": check.pick(60, 400), "Steps": check.pick(4, 6), "Mode": "mf", "Bits": 0},
        invariants=["Proper", "FirstPrinciples", "Optimal", "NotBelowNoise", "Emit"],
    )
    check.replay_all(r.records + [{"model": k} for k in ("GPCM", "CGPCM", "RGPCM")])
