"""The structured scheme: conditionals, log normaliser, Gibbs sampling and bound."""
import math

import numpy as np

import vi
from common import fl


def nat_close(check, q, want, clause, where):
    l, p = vi.params(q)
    wl, wp = vi.mat(want["lam"]), vi.mat(want["prec"])
    check.close(p, wp, clause, 1e-6, 1e-7 * np.abs(wp).max(), what=f"precision of {where}")
    check.close(l, wl, clause, 1e-6, 1e-7 * (np.abs(wl).max() + 1e-3), what=f"lam of {where}")


def conditionals(check, model, t, y, us, zs, ans, s2, where):
    import jax.numpy as jnp

    ap = model().approximation
    ok, ts = check.guarded("terms", ap.construct_terms, jnp.array(t), jnp.array(y))
    if not ok:
        return
    for z, w in zip(zs, ans["condu"]):
        ok, q = check.guarded("conditional-u", ap.q_u_optimal, ts, jnp.array(z))
        ok and nat_close(check, q, w, "conditional-u", where)
    for u, w, l in zip(us, ans["condz"], ans["logz"]):
        ok, q = check.guarded("conditional-z", ap.q_z_optimal, ts, jnp.array(u))
        ok and nat_close(check, q, w, "conditional-z", where)
        ok, g = check.guarded("log-normaliser", ap.log_Z_u, ts, jnp.array(u))
        ok and check.close(np.squeeze(np.asarray(g)), vi.bound(l, s2), "log-normaliser", 1e-6, 1e-6, what=where)


def moments(check, s, want, clause, where):
    """Samples in columns are of the normal `want`; 6 standard deviations."""
    P = vi.mat(want["prec"])
    m = np.linalg.solve(P, vi.mat(want["lam"]))
    L = np.linalg.cholesky(P)
    white(check, L.T @ (s - m), clause, where)


def white(check, w, clause, where, independent=False):
    """Every column of `w` is white noise."""
    n = w.shape[1]
    check.expect(np.all(np.isfinite(w)), clause, f"{where}: not finite")
    check.expect(np.abs(w.mean(axis=1)).max() < 6 / math.sqrt(n), clause,
                 f"{where}: whitened mean {w.mean(axis=1)} of {n}")
    c = w @ w.T / n
    tol = 6 * np.where(np.eye(len(c)), math.sqrt(2 / n), math.sqrt(1 / n)) + 10 / n
    check.expect(np.all(np.abs(c - np.eye(len(c))) < tol), clause,
                 f"{where}: whitened second moment {c.tolist()} of {n}")


def replay(check, rec):
    if "model" in rec:
        return models(check, rec)
    if "fit" in rec:
        return fitted(check, rec)
    import jax.numpy as jnp
    import lab.jax as B

    case, ans = rec["case"], rec["log"][0]
    where = f"case {case['k']}"
    s2 = fl(case["m"]["s2"])
    model = vi.stub_class()(case["m"], "structured")
    vi.set_q(model, case["qu"], case["qz"])
    t, y = vi.data(case["d"])
    us, zs = [vi.mat(u) for u in case["us"]], [vi.mat(z) for z in case["zs"]]
    conditionals(check, model, t, y, us, zs, ans, s2, where)

    # The bound for a posterior that has almost all of its mass at one value.
    inst = model()
    p0 = 1e9
    from gpcm.normal import NaturalNormal

    nu = case["m"]["nu"]
    for u, l in zip(us[:2], ans["logz"]):
        inst.approximation.q_u = NaturalNormal(jnp.array(p0 * u), jnp.array(p0 * np.eye(nu)))
        state = B.create_random_state(jnp.float64, seed=1)
        ok, r = check.guarded("bound", inst.approximation.elbo_collapsed_z, state,
                              jnp.array(t), jnp.array(y), num_samples=20)
        if ok:
            K = vi.mat(case["m"]["ku"])
            kl = 0.5 * (np.trace(K) / p0 + float((u.T @ K @ u)[0, 0]) - nu
                        + nu * math.log(p0) - np.linalg.slogdet(K)[1])
            w = vi.bound(l, s2) - kl
            check.close(np.squeeze(np.asarray(r[1])), w, "bound", 1e-4, 1e-3 * (1 + abs(w)), what=where)


def gibbs_steps(check, model, t, y, u0, z0, n):
    """Many single Gibbs steps from the same state."""
    import jax.numpy as jnp
    import lab.jax as B

    ap = model().approximation
    state = B.create_random_state(jnp.float64, seed=5)
    us, zs, es = [], [], []
    for _ in range(n):
        state, e, u, z = ap.elbo_gibbs(state, jnp.array(t), jnp.array(y), jnp.array(u0),
                                       jnp.array(z0), num_samples=1)
        us.append(np.asarray(u))
        zs.append(np.asarray(z))
        es.append(float(np.squeeze(np.asarray(e))))
    return us, zs, es


def fitted(check, rec):
    """Record Gibbs samples and bounds of the implementation, and judge them by the
    conditionals and log normalisers of the specification."""
    import jax.numpy as jnp
    import lab.jax as B

    case = rec["fit"]
    if isinstance(case, str):
        name, make, t, y = [x for x in vi.real_models("structured") if x[0] == case][0]
        model = make()
        tab = vi.tables(model, t)
        d = [[i + 1, vi.rational(v)] for i, v in enumerate(y)]
        where = name
        rng = np.random.default_rng(check.seed)
        from c07 import random_q

        random_q(rng, model)
    else:
        model = vi.stub_class()(case["m"], "structured")
        vi.set_q(model, case["qu"], case["qz"])
        t, y = vi.data(case["d"])
        tab, d = case["m"], case["d"]
        where = f"case {case['k']}"
    tab = {k: tab[k] for k in ("ku", "kz", "kui", "kzi", "s2", "iux", "ihx", "ihz", "iuz")}
    s2 = fl(tab["s2"])
    inst = model()
    nu, nz = inst.n_u, inst.n_z

    # Single steps.
    u0, z0 = np.ones((nu, 1)), np.linspace(-1, 1, nz)[:, None] + 0.5
    ok, r = check.guarded("gibbs-step", gibbs_steps, check, model, t, y, u0, z0, 150)
    if not ok:
        return
    us, zs, es = r
    k1 = min(len(us), 24)
    # The chain that a fit stores.
    ok, _ = check.guarded("fit", model.fit, t, y, iters=rec["iters"], optimise_hypers=False)
    if not ok:
        return
    ap = model().approximation
    su, sz = np.asarray(ap.q_u_samples), np.asarray(ap.q_z_samples)
    good = su.shape == (nu, 1000) and sz.shape == (nz, 1000)
    check.expect(good, "stored", f"{where}: {su.shape} and {sz.shape}")
    if not good:
        return
    pick = np.arange(0, 999, check.pick(17, 5))
    fu = [su[:, i:i + 1] for i in pick]
    fz = [sz[:, i:i + 1] for i in pick]
    # The bound.
    B.set_random_seed(check.seed)
    ok, e = check.guarded("elbo", model.elbo, t, y)
    ok2, e2 = check.guarded("elbo", model.elbo, t, y, num_samples=50)
    if not (ok and ok2):
        return
    ap = model().approximation
    ql, qp = vi.params(ap.q_u)
    rng = np.random.default_rng(check.seed)
    qm, qL = np.linalg.solve(qp, ql), np.linalg.cholesky(np.linalg.inv(qp))
    bu = [qm + qL @ rng.standard_normal((nu, 1)) for _ in range(check.pick(100, 300))]

    rm = vi.ratmat
    recs = [
        dict(kind="st", predict=False, id=0, m=tab, d=d, zs=[rm(z0)], us=[rm(u) for u in us[:k1]]),
        dict(kind="st", predict=False, id=1, m=tab, d=d, zs=[rm(z) for z in fz], us=[rm(u) for u in fu]),
        dict(kind="st", predict=False, id=2, m=tab, d=d, zs=[], us=[rm(u) for u in bu]),
        dict(kind="mf", id=3, m=tab, d=d, qu=vi.ratnat(ap.q_u), qz=vi.ratnat(ap.q_z),
             pu=vi.ratnat(ap.p_u), pz=vi.ratnat(ap.p_z)),
    ]
    res = check.tlc("VITrace", {"In": recs, "Out": "", "Bits": 240}, invariants=["Bounds", "Emit"], workers=2)
    a = {x["id"]: x for x in res.records}

    moments(check, np.hstack(us), a[0]["condu"][0], "gibbs-u", f"{where}, single steps")
    K = vi.mat(tab["ku"])
    for i in range(k1):
        pr = 0.5 * (np.linalg.slogdet(K)[1] - nu * math.log(2 * math.pi)
                    - float((us[i].T @ K @ us[i])[0, 0]))
        w = vi.bound(a[0]["logz"][i], s2) + pr
        check.close(es[i], w, "gibbs-objective", 1e-5, 1e-5, what=where)

    def whiten(x, q):
        P = vi.mat(q["prec"])
        return np.linalg.cholesky(P).T @ (x - np.linalg.solve(P, vi.mat(q["lam"])))

    white(check, np.hstack([whiten(z, q) for z, q in zip(zs, a[0]["condz"])]), "gibbs-z", f"{where}, single steps")
    white(check, np.hstack([whiten(z, q) for z, q in zip(fz, a[1]["condz"])]), "chain-z",
          f"{where}, samples stored by fit")
    if rec["iters"] <= 1000:
        # Consecutive samples.
        nxt = [su[:, i + 1:i + 2] for i in pick]
        white(check, np.hstack([whiten(u, q) for u, q in zip(nxt, a[1]["condu"])]), "chain-u",
              f"{where}, samples stored by fit")
    ls = np.array([vi.bound(l, s2) for l in a[2]["logz"]])
    kl = 0.5 * (fl(a[3]["klu"]["rat"]) + vi.log_of(a[3]["klu"]["det"]))
    w, sd = ls.mean() - kl, ls.std()
    for g, n in ((e, 1000), (e2, 50)):
        tol = 6 * sd * math.sqrt(1 / len(ls) + 1 / n) + 1e-5 * (1 + abs(w))
        check.close(g, w, "elbo", 0, tol, what=f"{where}, {n} samples")
    mf = vi.bound(a[3]["elbo"], s2)
    check.expect(float(e) > mf - 6 * sd / math.sqrt(1000) - 1e-6 * (1 + abs(mf)), "at-least-mean-field",
                 f"{where}: {e} < {mf}")


def models(check, rec):
    name, make, t, y = [x for x in vi.real_models("structured") if x[0] == rec["model"]][0]
    rng = np.random.default_rng(check.seed + 20)
    model = make()
    inst = model()
    m = vi.tables(model, t)
    su = 1 / np.sqrt(np.abs(np.diag(vi.mat(m["ku"]))))[:, None]
    sz = 1 / np.sqrt(np.abs(np.diag(vi.mat(m["kz"]))))[:, None]
    us = [su * rng.standard_normal((inst.n_u, 1)) for _ in range(4)]
    zs = [sz * rng.standard_normal((inst.n_z, 1)) for _ in range(4)]
    r = dict(kind="st", predict=False, id=0, m=m, d=[[i + 1, vi.rational(v)] for i, v in enumerate(y)],
             us=[vi.ratmat(u) for u in us], zs=[vi.ratmat(z) for z in zs])
    res = check.tlc("VITrace", {"In": [r], "Out": "", "Bits": 240}, invariants=["Bounds", "Emit"])
    conditionals(check, model, t, y, us, zs, res.records[0], float(inst.noise), name)


def run(check):
    st = check.tlc(
        "VI",
        {"Out": "", "Cases": check.pick(60, 400), "Steps": 0, "Mode": "st", "Bits": 0},
        invariants=["Proper", "FirstPrinciples", "Evidence", "Gibbs", "Emit"], seed=check.seed + 300,
    )
    cases = [r["case"] for r in st.records]
    fits = [{"fit": c, "iters": 40 if i % 2 else 3000} for i, c in enumerate(cases[:check.pick(5, 24)])]
    fits += [{"fit": n, "iters": 60} for n in ("GPCM", "CGPCM", "RGPCM")]
    check.replay_all([{"model": k} for k in ("GPCM", "CGPCM", "RGPCM")] + fits + st.records)
