"""Kernels given filter values and draws from the prior: KernelApprox.tla and KernelSample.tla."""
import numpy as np
from common import fl

import vi
from vi import mat, ratmat, rational


def dense(x):
    from lab import dense as d

    return np.asarray(d(x), dtype=float)


def stub(rec):
    """A model with the integrals of a record."""
    import jax.numpy as jnp
    from gpcm.model import AbstractGPCM

    ku, prior = jnp.array(mat(rec["ku"])), jnp.array(mat(rec["prior"]))
    cross = jnp.array(np.array([[mat(x) for x in r] for r in rec["cross"]]))
    s2 = fl(rec["s2"])

    class Stub(AbstractGPCM):
        def __init__(self):
            AbstractGPCM.__init__(self, "mean-field")
            self.n_u, self.n_z, self.extent = ku.shape[0], 1, 4.0
            self.vs.positive(init=s2, name="noise")

        def __prior__(self):
            self.noise = self.ps.noise.positive(s2)
            AbstractGPCM.__prior__(self)

        def compute_K_u(self):
            return ku

        def compute_K_z(self):
            return jnp.eye(1)

        def _i(self, t):
            return jnp.round(jnp.asarray(t)).astype(int) - 1

        def compute_i_hx(self, t1=None, t2=None):
            t1 = jnp.ones(()) if t1 is None else t1
            t2 = jnp.ones(()) if t2 is None else t2
            return prior[self._i(t1), self._i(t2)]

        def compute_I_ux(self, t1=None, t2=None):
            x = cross
            x = x[0:1] if t1 is None else jnp.take(x, self._i(t1), axis=0)
            x = x[:, 0:1] if t2 is None else jnp.take(x, self._i(t2), axis=1)
            if t1 is None and t2 is None:
                return x[0, 0]
            return x[0] if t1 is None else x[:, 0] if t2 is None else x

        def compute_I_hz(self, t):
            return jnp.zeros((len(t), 1, 1))

        def compute_I_uz(self, t):
            return jnp.zeros((len(t), self.n_u, 1))

    return Stub


def replay(check, rec):
    """Kernels at given values of the filter."""
    import jax.numpy as jnp

    inst = stub(rec)()()
    n = len(rec["prior"])
    t = np.arange(1.0, n + 1)
    rng = np.random.default_rng(len(str(rec)))
    scale = np.abs(mat(rec["prior"])).max() + 1e-3
    for u, k in zip(rec["us"], rec["ks"]):
        k, u = mat(k), mat(u)
        sub = [rng.permutation(n)[: rng.integers(1, n + 1)] for _ in range(2)]
        for i, j in [(np.arange(n), np.arange(n)), sub, (sub[1], np.arange(n))]:
            # Values are a vector or a column.
            for v in (u[:, 0], u):
                ok, got = check.guarded("kernel", inst.kernel_approx, t[i], t[j], jnp.array(v))
                if ok:
                    check.close(dense(got), k[np.ix_(i, j)], "kernel", 1e-6, 1e-6 * scale, what=f"times {i} {j}")


def real_cases(check):
    """Models with times that are, and are not, equally spaced."""
    from gpcm.gpcm import CGPCM, GPCM
    from gpcm.rgpcm import RGPCM

    out = []
    for k in range(check.pick(2, 12)):
        rng = np.random.default_rng([check.seed, k])
        r = lambda a, b: float(rng.uniform(a, b))
        t = np.sort(rng.uniform(-1.5, 4.0, 6))
        off = r(-0.3, 0.3)
        out += [
            ("GPCM", GPCM(scheme="mean-field", noise=r(0.02, 0.3), alpha=r(0.3, 1), gamma=r(0.6, 1.5), omega=r(0.5, 1),
                          t_u=np.array([-1.3, 0.0, 1.4][: 3 - k % 2]) + off, t_z=np.array([-0.6, 1.4, 3.1])), t),
            ("CGPCM", CGPCM(scheme="mean-field", noise=r(0.02, 0.3), alpha=r(0.3, 1), gamma=r(0.6, 1.5), omega=r(0.5, 1),
                            t_u=np.array([0.1, 1.2, 2.4][: 3 - k % 2]), t_z=np.array([-0.6, 1.0, 2.5])), t),
            ("RGPCM", RGPCM(scheme="mean-field", noise=r(0.02, 0.3), lam=r(0.4, 1), alpha=r(0.7, 1.2), gamma=r(0.2, 0.5),
                            t_u=np.array([0.6, 1.5, 2.4][: 3 - k % 2]), a=-3.0, b=6.0, m_max=1, ms=np.array([0, 1, 2])), t),
        ]
    return out


def normal(inst, t1, t2):
    """The integrals of a model, as exact rationals."""
    return dict(ku=ratmat(dense(inst.compute_K_u())),
                prior=ratmat(dense(inst.compute_i_hx(np.array(t1)[:, None], np.array(t2)[None, :]))),
                cross=[[ratmat(x) for x in r] for r in dense(inst.compute_I_ux(np.array(t1), np.array(t2)))])


def at_values(check, cases):
    """Real models at given values: kernels are those of the specification."""
    recs, got = [], []
    for k, (name, model, t) in enumerate(cases):
        inst = model()
        rng = np.random.default_rng([7, check.seed, k])
        t1, t2 = t, np.sort(rng.uniform(-1, 3, 4))
        L = np.linalg.cholesky(dense(inst.compute_K_u()))
        m = len(L)
        us = [np.zeros(m)] + [L[:, i] for i in range(m)] + [L @ rng.standard_normal(m) for _ in range(2)]
        post = model.condition(t, np.cos(t))
        values = []
        for u in us:
            ok, v = check.guarded("kernel-real", inst.kernel_approx, t1, t2, np.array(u))
            if not ok:
                return
            v = dense(v)
            values.append(v)
            check.close(dense(post().kernel_approx(t1, t2, np.array(u))), v, "kernel-posterior", 1e-9, 1e-9, what=name)
            check.close(dense(inst.kernel_approx(t2, t1, np.array(u))).T, v, "kernel-symmetric", 1e-6, 1e-7, what=name)
            full = dense(inst.kernel_approx(t1, t1, np.array(u)))
            check.expect(np.linalg.eigvalsh((full + full.T) / 2).min() > -1e-6 * (1 + np.abs(full).max()), "kernel-psd", name)
        # Averaged over the prior of the values.
        avg = values[0] + sum(v - values[0] for v in values[1 : m + 1])
        prior = dense(inst.compute_i_hx(t1[:, None], t2[None, :]))
        check.close(avg, prior, "kernel-average", 1e-6, 1e-6, what=name)
        recs.append(dict(normal(inst, t1, t2), us=[ratmat(np.array(u)[:, None]) for u in us], id=k))
        got.append(values)
    r = check.tlc("KernelSample", {"In": recs, "Out": ""}, invariants=["EmitAt"])
    for rec in r.records:
        for g, k in zip(got[rec["id"]], rec["ks"]):
            check.close(g, mat(k), "kernel-real", 1e-6, 1e-6, what=cases[rec["id"]][0])


def draw(check, model, t, num, normalise, lazy):
    """Draws from the prior. Both an instance and a model can be asked."""
    out = []
    inst = model()
    for k in range(num):
        kw = {} if not normalise and k % 2 else dict(normalise=normalise)
        ok, v = check.guarded("sample", (model if lazy and k < 3 else inst).sample, np.array(t), **kw)
        if not ok:
            return None
        K, y = dense(v[0]), dense(v[1])
        n = len(t)
        if not (check.expect(K.shape == (n, n), "sample-shape", f"{K.shape}") and
                check.expect(y.shape == (n,), "sample-shape", f"{y.shape}") and
                check.expect(np.all(np.isfinite(K)) and np.all(np.isfinite(y)), "sample-finite")):
            return None
        if normalise:
            check.close(K[0, 0], 1.0, "normalised", 1e-9, 0)
        out.append((K, y))
    return out


def sampled(check, rec):
    """A worker: draws for one model."""
    import json

    import lab.jax as B

    B.set_random_seed(check.seed + rec["id"])
    if "stub" in rec:
        model = stub(rec["stub"])()
        t = np.arange(1.0, len(rec["stub"]["prior"]) + 1)
        base = {k: rec["stub"][k] for k in ("ku", "prior", "cross", "s2")}
    else:
        _, model, t = real_cases(check)[rec["real"]]
        inst = model()
        base = dict(normal(inst, t, t), s2=rational(dense(inst.noise)))
    draws = draw(check, model, t, rec["num"], rec["normalise"], True)
    # A posterior has no prior draws.
    if "real" in rec:
        post = model.condition(t, np.sin(t))
        check.raises("refused", (Exception,), lambda: post.sample(t))
        check.raises("refused", (Exception,), lambda: post().sample(t))
    if draws is None:
        return
    with open(rec["file"], "w") as f:
        json.dump(dict(base, id=rec["id"], normalise=rec["normalise"],
                       draws=[dict(k=ratmat((K + K.T) / 2), y=[rational(x) for x in y]) for K, y in draws]), f)


def run(check):
    import json
    import os

    recs = []
    for d, m, x in ((2, 1, 1), (3, 2, 1), (3, 3, 2), (4, 2, 3)):
        r = check.tlc("KernelApprox", {"Out": "", "D": d, "M": m, "T": 4, "XS": x}, spec="Spec",
                      invariants=["Correct", "Averages", "Known", "Even", "Invertible", "Emit"],
                      simulate=check.pick(12, 150), depth=2)
        recs += r.records
    check.replay_all(recs)
    # Draws for models with kernels that determine the values of the filter.
    r = check.tlc("KernelApprox", {"Out": "", "D": 3, "M": 2, "T": 6, "XS": 1}, spec="Spec",
                  invariants=["Correct", "Averages", "Emit"], simulate=40, depth=2, seed=check.seed + 5)

    stubs = sorted(r.records, key=condition)[: check.pick(3, 10)]
    cases = real_cases(check)
    at_values(check, cases)
    jobs = []
    for normalise in (False, True):
        jobs += [dict(stub=s, num=check.pick(150, 500), normalise=normalise) for s in stubs]
        jobs += [dict(real=k, num=check.pick(60, 200), normalise=normalise) for k, c in enumerate(cases) if k % 6 >= 3 or check.thorough]
    for k, j in enumerate(jobs):
        j.update(id=k, file=os.path.join(check.work, f"draws{k}.json"))
    check.replay_all(jobs, fn="sampled")
    files = [json.load(open(j["file"])) for j in jobs if os.path.exists(j["file"])]
    r = check.tlc("KernelSample", {"In": files, "Out": ""}, invariants=["EmitDraw"])
    by = {}
    for x in r.records:
        by.setdefault(x["id"], []).append(x)
    for f in files:
        got = by.get(f["id"], [])
        assert len(got) == len(f["draws"])
        # Shifting a filter in time hardly changes its kernel, so kernels need not determine the filter.
        judge(check, got, jobs[f["id"]], condition(f) < 200)


def condition(s):
    """How well kernels determine the values of the filter."""
    g = []
    for a in s["cross"]:
        for x in map(mat, a):
            m = len(x)
            g.append([x[i, j] + (x[j, i] if i != j else 0) for i in range(m) for j in range(i, m)])
    d = np.linalg.svd(np.array(g))[1]
    return d[0] / d[-1] if d[-1] > 0 else np.inf


def judge(check, draws, job, determined):
    where = f"draws {job['id']} ({'stub' if 'stub' in job else 'real model %d' % job['real']}, normalise={job['normalise']})"
    check.case = dict(job, stub=None)
    ws = []
    for d in sorted(draws, key=lambda d: d["i"]):
        f = d["fit"]
        rel = fl(f["residual"]) / (fl(f["size"]) + 1e-6)
        check.expect(rel < 1e-10, "draw-kernel", f"residual {rel} {where}")
        w = mat(f["w"])
        ws.append(np.trace(w))
        if not determined:
            continue
        e = np.linalg.eigvalsh(w)
        # One value of the filter for the whole kernel.
        check.expect(e[-1] >= 0 and np.abs(e[:-1]).max(initial=0) <= 1e-4 * (e[-1] + 1e-3), "draw-rank", f"{e} {where}")
        check.expect(fl(f["kappa"]) > 0, "draw-scale", where)
    for d in draws:
        for s in d["stats"]:
            if s["name"].startswith(("u", "whole u")) and not determined:
                continue
            z = (fl(s["got"]) - fl(s["want"])) / np.sqrt(fl(s["var"])) if fl(s["var"]) > 0 else 0.0
            check.expect(abs(z) < 6, "draw-distribution", f"{s['name']}: {z:.2f} standard deviations off {where}")
    ws = np.array(ws)
    check.expect(len(np.unique(np.round(ws / np.abs(ws).max(), 9))) > len(ws) // 2, "draws-differ", where)
