"""Normals in natural parameters: the behaviours of Natural.tla."""
import math

import numpy as np

from common import F, fl

RT, AT = 1e-6, 1e-9


def mat(a):
    return np.array([[fl(x) for x in r] for r in a])


def prec(kind, p, jax):
    """The same matrix as different types."""
    import jax.numpy as jnp
    from matrix import Dense, Diagonal, LowRank

    arr = (lambda x: jnp.array(x)) if jax else (lambda x: x)
    if kind == "dense":
        return arr(mat(p["m"]))
    if kind == "Dense":
        return Dense(arr(mat(p["m"])))
    if kind == "diag":
        return Diagonal(arr(np.diag(mat(p["d"]))))
    return Diagonal(arr(np.diag(mat(p["d"])))) + LowRank(left=arr(mat(p["b"])))


def judge(check, dist, others, q, a, xs, where):
    from lab import dense

    x = xs[1] if q == "logpdf2" else xs[0]
    other = {"kl2": others[1], "self": dist}.get(q, others[0])
    a = a["a"]
    ok = True
    if q in ("mean", "var", "m2"):
        ok, g = check.guarded(q, lambda: dense(getattr(dist, q)))
        ok and check.close(g, mat(a), q, RT, AT, what=where)
    elif q == "moments":
        ok, g = check.guarded(q, dist.to_normal)
        if ok:
            check.close(dense(g.mean), mat(a[0]), "to_normal", RT, AT, what=where)
            check.close(dense(g.var), mat(a[1]), "to_normal", RT, AT, what=where)
    elif q in ("logpdf", "logpdf2"):
        w = 0.5 * (math.log(fl(a["det"])) - a["dim"] * math.log(2 * math.pi) - fl(a["quad"]))
        ok, g = check.guarded(q, lambda: dense(dist.logpdf(x)))
        ok and check.close(g, w, q, RT, 1e-8, what=where)
    else:
        w = 0.5 * (fl(a["rat"]) + math.log(fl(a["det"])))
        f = (lambda: dense(dist.kl(other))) if q != "lk" else (lambda: dense(other.kl(dist)))
        ok, g = check.guarded(q, f)
        if ok:
            check.close(g, w, "kl", RT, 1e-8, what=f"{q} of {where}")
            check.expect(float(g) > -1e-8, "kl-nonnegative", where)


def build(check, c, n):
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal
    from stheno import Normal

    jax = n % 2 == 0
    k1 = "Dense" if c["k1"] == "dense" and n % 3 == 0 else c["k1"]
    k2 = "Dense" if c["k2"] == "dense" and n % 5 == 0 else c["k2"]
    arr = (lambda x: jnp.array(x)) if jax else (lambda x: x)
    p1, p2 = prec(k1, c["p1"], jax), prec(k2, c["p2"], jax)
    l1, l2 = arr(mat(c["l1"])), arr(mat(c["l2"]))
    if c["from"] == "natural":
        dist = NaturalNormal(l1, p1)
    else:
        dist = NaturalNormal.from_normal(Normal(l1, p1))
    others = [NaturalNormal(l2, p2), NaturalNormal(arr(mat(c["l3"])), prec("dense", c["p3"], jax))]
    return dist, others, [arr(mat(c["x"])), arr(mat(c["x2"]))]


def replay(check, rec):
    from lab import dense

    c, n = rec["case"], rec["idx"]
    where = f"{c['from']} {c['k1']} {c['n']}, other {c['k2']}, asked {c['script']}"
    ok, r = check.guarded("construct", build, check, c, n)
    if not ok:
        return
    dist, others, xs = r
    check.expect(dist.dim == c["n"], "dim", where)
    check.expect("float64" in str(dist.dtype), "dtype", f"{where}: {dist.dtype}")
    for q, a in zip(c["script"], rec["asked"]):
        judge(check, dist, others, q, a, xs, where)
    if c["from"] == "natural":
        # The parameters themselves are not changed by asking.
        check.close(dense(dist.prec), mat(c["p1"]["m"]), "parameters", RT, AT, what=where)
        check.close(dense(dist.lam), mat(c["l1"]), "parameters", RT, AT, what=where)


def sampling(check, rec):
    """Samples have the moments; also after other questions were asked."""
    from lab import dense
    import lab.jax as B
    import jax.numpy as jnp

    c, n = rec["case"], rec["idx"]
    dist, _, _ = build(check, c, 2 * n)
    if c["from"] == "natural":
        P, l = mat(c["p1"]["m"]), mat(c["l1"])
        V = np.linalg.inv(P)
        m = V @ l
    else:
        V, m = mat(c["p1"]["m"]), mat(c["l1"])
    if n % 2:
        dist.m2
    N = 40000
    where = f"{c['from']} {c['k1']} {c['n']}"
    state = B.create_random_state(jnp.float64, seed=100 + n)
    ok, r = check.guarded("sample", lambda: dist.sample(state, N))
    if not ok:
        return
    s = np.asarray(dense(r[1]))
    check.expect(s.shape == (c["n"], N), "sample-shape", f"{where}: {s.shape}")
    if s.shape != (c["n"], N):
        return
    se = np.sqrt(np.diag(V) / N)[:, None]
    d = np.abs(s.mean(axis=1, keepdims=True) - m)
    check.expect(np.all(d < 6 * se), "sample-mean", f"{where}: off by {d / se} sd")
    C = (s - m) @ (s - m).T / N
    seC = np.sqrt((np.outer(np.diag(V), np.diag(V)) + V**2) / N)
    d = np.abs(C - V) / seC
    check.expect(np.all(d < 6), "sample-variance", f"{where}: off by {d} sd")
    # Normality of a projection: fourth moment.
    w = np.ones(c["n"])
    z = (w @ (s - m)) / math.sqrt(w @ V @ w)
    k = np.mean(z**4)
    check.expect(abs(k - 3) < 6 * math.sqrt(96 / N), "sample-normal", f"{where}: {k}")
    # Independent columns.
    r1 = np.mean(z[1:] * z[:-1])
    check.expect(abs(r1) < 6 / math.sqrt(N), "sample-independent", f"{where}: {r1}")
    one = check.guarded("sample", lambda: dist.sample(state))
    if one[0]:
        check.expect(np.shape(dense(one[1][1])) == (c["n"], 1), "sample-shape", where)
    glob = check.guarded("sample", lambda: dist.sample(3))
    if glob[0]:
        check.expect(np.shape(dense(glob[1])) == (c["n"], 3), "sample-shape", where)


def run(check):
    r = check.tlc(
        "Natural",
        {"Out": "", "Len3": check.pick(3, 4)},
        invariants=["Definite", "Moments", "Bayes", "HistoryFree", "Emit"],
    )
    check.replay_all(dict(x, idx=n) for n, x in enumerate(r.records))
    some = r.records[:: max(1, len(r.records) // check.pick(16, 80))]
    check.replay_all([dict(x, idx=n) for n, x in enumerate(some)], fn="sampling")
