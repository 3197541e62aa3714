"""Summaries of samples: Summary.tla; predictions: Predictions.tla."""
import numpy as np
from common import fl

import vi

LOWER = {"b68": "err_68_lower", "b95": "err_95_lower", "b99": "err_99_lower"}
UPPER = {"b68": "err_68_upper", "b95": "err_95_upper", "b99": "err_99_upper"}


def subset(check, s, where):
    """Some of the samples are shown, up to three, none of them twice."""
    a = np.asarray(s.all_samples).reshape(-1, np.shape(s.all_samples)[-1])
    b = np.asarray(s.samples).reshape(-1, np.shape(s.samples)[-1])
    n = a.shape[1]
    if not check.expect(b.shape == (a.shape[0], min(3, n)), "samples", f"{b.shape} of {a.shape} {where}"):
        return
    # Columns may be equal, so match these.
    left = list(range(n))
    for j in range(b.shape[1]):
        hit = [i for i in left if np.array_equal(a[:, i], b[:, j], equal_nan=True)]
        if not check.expect(hit, "samples", f"column {j} is not a sample, {where}"):
            return
        left.remove(hit[0])


def summaries(check, rec):
    """All sequences of samples of the same length at once: one per input."""
    import jax.numpy as jnp
    from gpcm.util import summarise_samples

    cols = rec["cols"]
    n = len(cols[0]["xs"])
    x = np.linspace(-1, 2, len(cols))
    samples = np.array([[fl(v) for v in c["xs"]] for c in cols]).T
    db = rec["grid"] == "positive"
    tr = (lambda v: 10 * np.log10(v)) if db else (lambda v: v)
    orders = [("all", samples, x)]
    if len(cols) % 2 == 0:
        # Samples of matrices.
        orders.append(("matrix", samples.reshape(n, 2, -1), x[: len(cols) // 2]))
    for name, sam, xx in orders:
        for arr in (np.array, jnp.array):
            where = f"{n} samples, {name}, dB: {db}"
            kept = sam.copy()
            ok, s = check.guarded("summarise", summarise_samples, arr(xx), arr(sam), db=db)
            if not ok:
                continue
            check.close(s.x, xx, "inputs", 0, 0, what=where)
            shape = sam.shape[1:]
            w = lambda f: tr(np.array([f(c) for c in cols])).reshape(shape)
            check.close(s.mean, w(lambda c: fl(c["mean"])), "mean", 1e-9, 1e-12, what=where)
            if not db:
                check.close(s.var, w(lambda c: fl(c["var"])), "variance", 1e-9, 1e-12, what=where)
            for b in LOWER:
                check.close(getattr(s, LOWER[b]), w(lambda c: fl(c["lower"][b])), "quantile", 1e-9, 1e-12, what=f"{LOWER[b]} {where}")
                check.close(getattr(s, UPPER[b]), w(lambda c: fl(c["upper"][b])), "quantile", 1e-9, 1e-12, what=f"{UPPER[b]} {where}")
            check.close(s.all_samples, tr(kept).transpose(tuple(reversed(range(kept.ndim)))), "all-samples", 1e-12, 0, what=where)
            check.ok("order", len(cols))
            subset(check, s, where)
            check.expect(np.array_equal(sam, kept), "unchanged", where)
            if not db:
                # Without `db` is the default.
                ok, s2 = check.guarded("summarise", summarise_samples, arr(xx), arr(sam))
                ok and check.close(s2.mean, s.mean, "default", 0, 0, what=where)


_stub = None


def stub():
    global _stub
    if _stub is None:
        import jax.numpy as jnp
        from mlkernels import EQ

        Stub = vi.stub_class()

        class Kernels(Stub):
            """Times are indices of the tables, from zero."""

            def __init__(self, m, scheme):
                one = [[["1"] * m["nz"]] * m["nz"]] * 4, [[["1"] * m["nz"]] * m["nu"]] * 4
                Stub.__init__(self, dict(m, s2="1", ihz=one[0], iuz=one[1]), scheme)
                self.t_u = jnp.linspace(0.0, 2.0, self.n_u)
                self.extent = 3.0

            def _at(self, name, t):
                return Stub._at(self, name, jnp.asarray(t) + 1)

            def compute_I_ux(self, t1=None, t2=None):
                # At all pairs of times.
                shape = tuple(len(t) for t in (t1, t2) if t is not None)
                return jnp.broadcast_to(self.tab["iux"], shape + self.tab["iux"].shape)

            def k_h(self):
                return EQ()

        _stub = Kernels
    return _stub


def assign(model, s):
    """Store samples of the current posterior."""
    import jax.numpy as jnp

    ap = model().approximation
    ap.q_u_samples = [jnp.array([[fl(v)] for v in u]) for u in s["us"]]
    ap.q_z_samples = [jnp.array([[fl(v)] for v in z]) for z in s["zs"]]


def summary_of(check, s, x, values, where, db=False, rtol=1e-6, atol=1e-8):
    """A prediction is the summary of these samples."""
    from gpcm.util import summarise_samples

    values = np.asarray(values)
    w = summarise_samples(np.asarray(x), values, db=db)
    check.close(s.x, x, "prediction-inputs", 1e-9, 1e-12, what=where)
    for f in ("all_samples", "mean", "err_68_lower", "err_68_upper", "err_95_lower", "err_95_upper",
              "err_99_lower", "err_99_upper") + (() if db else ("var",)):
        check.close(getattr(s, f), getattr(w, f), "prediction", rtol, atol, what=f"{f} {where}")
    subset(check, s, where)


def replay(check, rec):
    if "cols" in rec:
        return summaries(check, rec)
    if "cov" in rec:
        return filters(check, rec)
    if "real" in rec:
        return real(check, rec["real"], rec["scheme"])
    import jax.numpy as jnp
    from gpcm.util import estimate_psd, min_phase

    m = rec["run"]["m"]
    model = stub()(m, "structured")
    data = (np.array([0.0, 2.0]), np.array([0.3, -0.2]))
    assign(model, rec["run"]["first"])
    ok, model = check.guarded("condition", model.condition, *data)
    if not ok:
        return
    done = []
    for step in rec["log"]:
        x, a = step["x"], step["a"]
        op, num = x["op"], x["num"]
        done.append(op)
        where = f"model {rec['run']['k']}: {done}, {num} samples"
        t = np.array(x["t"], dtype=float) - 1
        if op == "fit":
            assign(model, x)
        elif op == "cond":
            ok, model = check.guarded("condition", model.condition, *data)
            if not ok:
                return
        elif op == "kernel":
            v = np.array([[fl(k) for k in r] for r in a["values"]])
            ok, s = check.guarded("kernel", model.predict_kernel, t_k=jnp.array(t), num_samples=num)
            ok and summary_of(check, s, t, v, "kernel " + where)
            ok, r = check.guarded("kernel", model.sample_kernel, jnp.array(t), num_samples=num)
            if ok:
                check.close(r[0], t, "prediction-inputs", 0, 0, what=where)
                check.close(r[1], v, "kernel", 1e-6, 1e-8, what=where)
        elif op == "psd":
            v = np.array([[fl(k) for k in r] for r in a["values"]])
            t = np.arange(4.0)
            ok, s = check.guarded("psd", model.predict_psd, t_k=jnp.array(t), num_samples=num)
            if ok:
                psds = [estimate_psd(t, k) for k in v]
                summary_of(check, s, psds[0][0], [p[1] for p in psds], "psd " + where, True, 1e-5, 1e-4)
        elif op == "fourier":
            ok, s = check.guarded("fourier", model.predict_fourier, num_samples=num)
            if ok:
                check.close(s[0], [fl(k) for k in a["mean"]], "fourier", 1e-8, 1e-9, what=where)
                check.close(s[1], [fl(k) for k in a["var"]], "fourier", 1e-8, 1e-9, what=where)
        elif op == "filter":
            v = np.array([[fl(k) for k in r] for r in a["values"]])
            phase = x["phase"] and m["nu"] > 1
            if phase and np.abs(np.fft.fft(v, axis=1)).min() < 0.05:
                continue
            th = np.linspace(0.0, 2.0, m["nu"])
            ok, s = check.guarded("filter", model.predict_filter, t_h=jnp.array(th), num_samples=num, min_phase=phase)
            if ok:
                w = np.array([min_phase(r) for r in v]) if phase else v
                summary_of(check, s, th, w, f"filter (minimum phase: {phase}) " + where, False, 2e-3, 2e-3)


def real(check, name, scheme):
    """Default inputs, and posteriors that are almost certain."""
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal
    from lab import dense

    _, make, t, y = [x for x in vi.real_models(scheme) if x[0] == name][0]
    model = make()
    rng = np.random.default_rng([check.seed, len(name)])
    e = float(model.extent)
    where = f"{name} {scheme}"
    for stage in ("prior", "posterior"):
        if stage == "posterior":
            inst = model()
            ap = inst.approximation
            if scheme == "structured":
                us = [jnp.array(0.3 * rng.standard_normal((inst.n_u, 1))) for _ in range(4)]
                zs = [jnp.array(rng.standard_normal((inst.n_z, 1))) for _ in range(4)]
                ap.q_u_samples, ap.q_z_samples = us, zs
                num = 4
            else:
                us = [jnp.array(0.3 * rng.standard_normal((inst.n_u, 1)))]
                p = 1e12 * np.eye(inst.n_u)
                ap.q_u = NaturalNormal(jnp.array(p @ us[0]), jnp.array(p))
                a = rng.standard_normal((inst.n_z, inst.n_z))
                pz, lz = a @ a.T + np.eye(inst.n_z), rng.standard_normal((inst.n_z, 1))
                ap.q_z = NaturalNormal(jnp.array(lz), jnp.array(pz))
                num = 7
                us = us * num
            model = model.condition(t, y)
        else:
            num = 6
        w = f"{where} {stage}"
        ok, s = check.guarded("kernel", model.predict_kernel, num_samples=num)
        if ok:
            grid = np.linspace(0, e, 300)
            if stage == "posterior":
                inst = model()
                ks = [np.asarray(dense(inst.kernel_approx(jnp.array(grid), jnp.zeros(1), jnp.reshape(dense(inst.K_u) @ u, -1))))[:, 0]
                      for u in us]
                summary_of(check, s, grid, ks, "kernel " + w, False, 1e-4, 1e-4)
            else:
                check.close(s.x, grid, "prediction-inputs", 1e-9, 1e-12, what=w)
                check.expect(np.shape(s.all_samples) == (300, num), "prediction", w)
                subset(check, s, w)
        ok, s = check.guarded("psd", model.predict_psd, num_samples=num)
        if ok:
            check.expect(np.shape(s.all_samples) == (len(s.x), num), "prediction", w)
            # Frequencies are those of the spacing of the default inputs.
            df = 1 / (2 * e / 999) / (2 * (1000 + 2000) - 2)
            check.close(s.x, df * np.arange(len(s.x)), "prediction-inputs", 1e-6, 1e-9, what="psd " + w)
        ok, s = check.guarded("fourier", model.predict_fourier)
        if ok:
            check.expect(np.shape(s[0]) == np.shape(s[1]) == (model.n_z,), "fourier", w)
            if stage == "posterior":
                if scheme == "structured":
                    z = np.concatenate([np.asarray(z) for z in zs], axis=1)
                    m1, v = z.mean(1), z.var(1)
                else:
                    v = np.linalg.inv(pz)
                    m1, v = (v @ lz)[:, 0], np.diag(v)
                check.close(s[0], m1, "fourier", 1e-6, 1e-8, what=w)
                check.close(s[1], v, "fourier", 1e-6, 1e-8, what=w)
        for phase in (True, False):
            ok, s = check.guarded("filter", model.predict_filter, num_samples=3, min_phase=phase)
            if ok:
                lo = 0 if phase else -e
                check.close(s.x, np.linspace(lo, lo + 2 * e, 601), "prediction-inputs", 1e-9, 1e-9, what="filter " + w)
                check.expect(np.shape(s.all_samples) == (601, 3), "prediction", "filter " + w)
        if stage == "posterior" and name != "RGPCM":
            # At the inducing points, the filter is the inducing variables.
            inst = model()
            ok, s = check.guarded("filter", model.predict_filter, t_h=jnp.array(inst.t_u), num_samples=num, min_phase=False)
            if ok:
                v = np.stack([np.asarray(dense(inst.K_u) @ u)[:, 0] for u in us])
                summary_of(check, s, np.asarray(inst.t_u), v, "filter " + w, False, 2e-3, 2e-3)


def filters(check, rec):
    """The filter given the inducing variables: a case of FilterGP.tla."""
    import jax
    import jax.numpy as jnp
    import lab.jax as B
    from gpcm.gpcm import GPCM
    from lab import dense

    c, g = rec["case"], rec["grid"]
    d = fl(c["d"])
    t_u = d * np.array(c["t_u"], dtype=float)
    # Rounding puts inducing points on either side of the origin.
    t_u = t_u + (1e-16 if c["late"] else -1e-16) * (t_u == 0)
    model = GPCM(scheme="structured", noise=0.1, alpha=-np.log(fl(c["q"])) / d**2, gamma=-np.log(fl(c["r"])) / d**2,
                 alpha_t=fl(c["a"]), omega=1.0, t_u=t_u, t_z=np.array([0.0, 1.0]), causal=c["causal"])
    t = d * np.arange(-g, g + 1)
    t[g] = 1e-12 * d  # At the origin, from the right.
    u = np.array([fl(x) for x in c["u"]])[:, None]
    mean, cov = np.array([fl(x[0]) for x in rec["mean"]]), np.array([[fl(x) for x in r] for r in rec["cov"]])
    where = f"filter of {c}"

    def sample(u, num):
        ap = model().approximation
        ap.q_u_samples = [jnp.array(np.linalg.solve(np.asarray(dense(model().K_u)), u))] * num
        ap.q_z_samples = [jnp.zeros((2, 1))] * num
        m = model.condition(np.array([0.0]), np.array([0.0]))
        np.random.seed(7)
        B.set_global_random_state(jax.random.PRNGKey(7))
        return m.predict_filter(t_h=t, num_samples=num, min_phase=False)

    num = 600
    ok, s = check.guarded("filter", sample, u, num)
    if not ok:
        return
    x = np.asarray(s.all_samples)
    if not check.expect(x.shape == (len(t), num), "prediction", f"{x.shape} {where}"):
        return
    size = max(np.sqrt(np.max(np.diag(cov))), np.max(np.abs(mean)))
    sd = np.sqrt(np.maximum(np.diag(cov), 0))
    # What is certain, is.
    for i in np.flatnonzero(sd == 0):
        check.close(x[i], np.full(num, mean[i]), "filter-certain", 1e-3, 1e-3 * size, what=f"time {i - g} {where}")
    # The samples are normal with the right moments.
    i = np.flatnonzero(sd > 1e-3 * size)
    z = (x[i].mean(1) - mean[i]) / sd[i] * np.sqrt(num)
    check.expect(np.all(np.abs(z) < 5.5), "filter-mean", f"{z} {where}")
    v = x[i].var(1) / sd[i] ** 2
    check.expect(np.all(np.abs(v - 1) < 5.5 * np.sqrt(2 / num)), "filter-variance", f"{v} {where}")
    r = np.corrcoef(x[i]) if len(i) > 1 else np.ones((1, 1))
    w = cov[np.ix_(i, i)] / np.outer(sd[i], sd[i])
    check.expect(np.all(np.abs(r - w) < 5.5 / np.sqrt(num)), "filter-correlation", f"{np.abs(r - w).max()} {where}")


def run(check):
    recs = []
    for grid in ("signed", "positive"):
        r = check.tlc("Summary", {"Out": "", "Max": check.pick(5, 7), "Grid": grid}, spec="Spec",
                      invariants=["Sorted", "Nested", "Symmetric", "Emit"])
        by = {}
        for x in r.records:
            by.setdefault(len(x["xs"]), []).append(x)
        recs += [dict(grid=grid, cols=v) for _, v in sorted(by.items())]
    r = check.tlc("Predictions", {"Out": "", "Runs": check.pick(40, 400), "Steps": check.pick(6, 10)}, spec="Spec",
                  invariants=["Proper", "Emit"], properties=["Frame"])
    recs += r.records
    r = check.tlc("FilterGP", {"Out": "", "Grid": 3}, spec="Spec", invariants=["Batch", "Certain", "Variances", "Emit"],
                  properties=["Learns"], simulate=check.pick(24, 200), depth=8)
    recs += r.records
    recs = [dict(real=k, scheme=s) for k in ("GPCM", "CGPCM", "RGPCM") for s in ("structured", "mean-field-ca")] + recs
    check.replay_all(recs)
