"""Predictions: moments of VI.tla in every state of a history, and for the real models of
VITrace.tla."""
import numpy as np

import vi
from common import fl


def judge(check, model, idx, pred, clause, where, scale=1.0, **kw):
    """Predict at times `idx` (from one), in this order."""
    t = np.array([float(i) for i in idx])
    ok, r = check.guarded(clause, model.predict, t, **kw)
    if not ok:
        return
    check.expect(len(r) == 2, "two-moments", where)
    for k, name in enumerate(("mean", "variance")):
        w = np.array([fl(pred[i - 1][k]) for i in idx])
        check.close(r[k], w, f"{clause}-{name}", 1e-6, 1e-7 * (1 + scale), what=f"{where}, times {idx}")


def size(pred):
    return max(fl(p[1]) + fl(p[0]) ** 2 for p in pred)


def mean_field(check, rec):
    case = rec["case"]
    where = f"case {case['k']}"
    model = vi.stub_class()(case["m"], "mean-field-ca")
    vi.set_q(model, case["qu"], case["qz"])
    orders = [[1, 2, 3, 4], [4, 2], [3, 3, 1], [2]]
    for k, ans in enumerate(rec["log"]):
        if k:
            x = case["script"][k - 1]
            t, y = vi.data(x["d"])
            if x["op"] == "fit":
                ok, _ = check.guarded("fit", model.fit, t, y, iters=x["rounds"])
            else:
                ok, model2 = check.guarded("condition", model.condition, t, y)
                if ok:
                    model = model2
                    vi.set_q(model, x["qu"], x["qz"])
            if not ok:
                return
        here = f"{where} after {[s['op'] for s in case['script'][:k]]}"
        judge(check, model, orders[k % len(orders)], ans["pred"], "predict", here, size(ans["pred"]))
        # One instance, asked several times.
        inst = model()
        for idx in ([1, 2], [3, 4], [1, 2]):
            judge(check, inst, idx, ans["pred"], "predict", f"{here}, an instance", size(ans["pred"]))
        ok, f = check.guarded("fourier", model.predict_fourier)
        if ok:
            mu, var = (vi.mat(a) for a in ans["four"])
            sc = 1 + np.abs(var).max() + np.abs(mu).max()
            check.close(f[0], mu[:, 0], "fourier-mean", 1e-6, 1e-7 * sc, what=here)
            check.close(f[1], np.diag(var), "fourier-variance", 1e-6, 1e-7 * sc, what=here)


def set_samples(model, us, zs):
    import jax.numpy as jnp

    ap = model().approximation
    ap.q_u_samples = [jnp.array(vi.mat(u)) for u in us]
    ap.q_z_samples = [jnp.array(vi.mat(z)) for z in zs]


def structured(check, rec):
    case, ans = rec["case"], rec["log"][0]
    where = f"case {case['k']}, {len(case['us'])} samples"
    model = vi.stub_class()(case["m"], "structured")
    vi.set_q(model, case["qu"], case["qz"])
    set_samples(model, case["us"], case["zs"])
    t, y = vi.data(case["d"])
    ok, post = check.guarded("condition", model.condition, t, y)
    if not ok:
        return
    sc = size(ans["pred"])
    judge(check, post, [1, 2, 3, 4], ans["pred"], "structured", where, sc)
    judge(check, post, [4, 1, 1], ans["pred"], "structured", where, sc)
    judge(check, post, [3], ans["pred"], "structured", where, sc)
    inst = post()
    for idx in ([1, 2], [3, 4]):
        judge(check, inst, idx, ans["pred"], "structured", f"{where}, an instance", sc)
    if len(case["us"]) == 1:
        judge(check, post, [2, 3], ans["pred"], "structured", where, sc, num_samples=1)
    # Moments of the samples of the other set.
    z = np.array([vi.mat(z)[:, 0] for z in case["zs"]])
    ok, f = check.guarded("fourier", post.predict_fourier)
    if ok:
        check.close(f[0], z.mean(axis=0), "fourier-mean", 1e-6, 1e-9, what=where)
        check.close(f[1], z.var(axis=0), "fourier-variance", 1e-6, 1e-7, what=where)


def models(check, rec):
    """The real models."""
    import jax.numpy as jnp
    from c07 import random_q

    recs, got = [], []
    tp = np.array([3.1, 0.8, 1.0, 2.2])
    for scheme in ("mean-field-gradient", "structured"):
        name, make, t, y = [x for x in vi.real_models(scheme) if x[0] == rec["model"]][0]
        rng = np.random.default_rng(check.seed + 10 + len(name))
        model = make()
        random_q(rng, model)
        both = np.concatenate([t[:3], tp])
        d = [[i + 1, vi.rational(v)] for i, v in enumerate(y[:3])]
        m = vi.tables(model, both)
        ap = model().approximation
        if scheme == "structured":
            us = np.asarray(ap.q_u.sample(4))
            zs = np.asarray(ap.q_z.sample(4))
            ap.q_u_samples = [jnp.array(us[:, i:i + 1]) for i in range(4)]
            ap.q_z_samples = [jnp.array(zs[:, i:i + 1]) for i in range(4)]
            recs.append(dict(kind="st", predict=True, id=len(recs), m=m, d=d, zs=[],
                             us=[vi.ratmat(us[:, i:i + 1]) for i in range(4)]))
        else:
            q = dict(qu=vi.ratnat(ap.q_u), qz=vi.ratnat(ap.q_z))
            recs.append(dict(kind="mf", id=len(recs), m=m, d=d, pu=q["qu"], pz=q["qz"], **q))
        post = model.condition(t[:3], y[:3])
        got.append([f"{name}, {scheme}",
                    check.guarded("predict", post.predict, both),
                    check.guarded("predict", post.predict, both[::-1]),
                    [check.guarded("predict", post.predict, both[i:i + 1]) for i in range(len(both))],
                    float(model().noise)])
        if scheme != "structured":
            # The prior predicts: zero and the variance of the model at every time.
            ok, r = check.guarded("prior", make().predict, both)
            if ok:
                ihx = vi.vec(m["ihx"])
                check.close(r[0], np.zeros(len(both)), "prior-mean", 0, 1e-9, what=name)
                check.close(r[1], ihx + float(model().noise), "prior-variance", 1e-6, 1e-9, what=name)
    res = check.tlc("VITrace", {"In": recs, "Out": "", "Bits": 240}, invariants=["Bounds", "Emit"])
    for a in res.records:
        where, fwd, rev, single, noise = got[a["id"]]
        w = np.array([[fl(p[0]), fl(p[1])] for p in a["pred"]]).T
        sc = 1e-6 * (1 + np.max(w[1] + w[0] ** 2))
        for k, name in enumerate(("mean", "variance")):
            if fwd[0]:
                check.close(fwd[1][k], w[k], f"model-{name}", 1e-5, sc, what=where)
            if rev[0]:
                check.close(rev[1][k], w[k][::-1], f"model-{name}", 1e-5, sc, what=f"{where}, reversed")
            for i, (ok, r) in enumerate(single):
                if ok:
                    check.close(r[k], w[k][i:i + 1], f"model-{name}", 1e-5, sc, what=f"{where}, time {i} only")
        if fwd[0]:
            check.expect(np.all(np.asarray(fwd[1][1]) > noise - sc), "not-below-noise", where)


def replay(check, rec):
    if "model" in rec:
        models(check, rec)
    elif "pu" in str(rec["log"][0].get("s", "")):
        mean_field(check, rec)
    else:
        structured(check, rec)


def run(check):
    mf = check.tlc(
        "VI",
        {"Out": "", "Cases": check.pick(30, 200), "Steps": check.pick(4, 6), "Mode": "mf", "Bits": 0},
        invariants=["Proper", "FirstPrinciples", "NotBelowNoise", "Emit"], seed=check.seed + 100,
    )
    st = check.tlc(
        "VI",
        {"Out": "", "Cases": check.pick(60, 400), "Steps": 0, "Mode": "st", "Bits": 0},
        invariants=["Proper", "FirstPrinciples", "NotBelowNoise", "Emit"], seed=check.seed + 200,
    )
    check.replay_all([{"model": k} for k in ("GPCM", "CGPCM", "RGPCM")] + mf.records + st.records)
