"""The same problem told differently: behaviours of Symmetry.tla."""
import numpy as np
from common import fl

SPAN = (-3.0, 3.0)
ASK_T = np.array([0.0, -2.5, 1.25, 0.5, 4.0])
ASK_K = np.array([0.0, 0.5, 1.0, 1.5, 2.0, 2.5])
ASK_H = np.array([0.3, 0.9, 1.7, 2.3])  # No inducing points: what is certain cannot be sampled.


def make(s, world, alpha_t=None):
    from gpcm.gpcm import CGPCM, GPCM
    from gpcm.rgpcm import RGPCM

    time = lambda x: (-1.0 if world["mirror"] else 1.0) * np.asarray(x) * 2.0 ** world["unit"] + fl(world["zero"])
    kw = dict(scheme="mean-field-ca", window=fl(s["window"]) * 2.0 ** world["unit"], scale=fl(s["scale"]) * 2.0 ** world["unit"],
              noise=2.0 ** (s["noise"] + 2 * world["amp"] + world["doubled"]), n_u=s["n_u"],
              t=tuple(sorted(time(SPAN))))
    if alpha_t is not None:
        kw["alpha_t"] = alpha_t
    if s["kind"] == "RGPCM":
        return RGPCM(m_max=s["n_z"], **kw), time
    return {"GPCM": GPCM, "CGPCM": CGPCM}[s["kind"]](n_z=s["n_z"], **kw), time


def root(k):
    """The symmetric square root: it does not depend on how points are numbered."""
    w, v = np.linalg.eigh(0.5 * (k + k.T))
    return (v * np.sqrt(w)) @ v.T


def normal(inst, which, weights, sign, mirror):
    """An approximate posterior that is the same in units of the prior."""
    from gpcm.normal import NaturalNormal
    from lab import dense

    r = root(np.asarray(dense(getattr(inst, "K_" + which))))
    n = len(r)
    m = 0.3 * np.array([weights[i % len(weights)] + 0.1 * i for i in range(n)])
    i = np.arange(n)
    prec = np.diag(2.0 + 0.25 * i) + 0.1 * np.cos(i[:, None] + i[None, :]) 
    if mirror:
        m, prec = m[::-1], prec[::-1, ::-1]
    m = sign * m
    import jax.numpy as jnp

    p = r @ prec @ r
    return NaturalNormal(jnp.array((r @ prec @ m)[:, None]), jnp.array(p)), r @ m


def represent(x, form):
    import jax.numpy as jnp

    x = np.array(x, dtype=float)
    if form == "jax":
        return jnp.array(x)
    if form == "strided":
        y = np.full(2 * len(x), np.nan)
        y[::2] = x
        return y[::2]
    if form == "readonly":
        x.flags.writeable = False
        return x
    if form == "integer" and np.all(x == np.round(x)):
        return x.astype(int)
    if form == "single" and np.all(x == x.astype(np.float32)):
        return x.astype(np.float32)
    if form == "reversed-view":
        return x[::-1].copy()[::-1]
    return x


def ask(s, world, obs, form, alpha_t):
    """Every answer to be compared; random ones from the same state of the generators."""
    import jax
    import lab.jax as B

    model, time = make(s, world, alpha_t)
    inst = model()
    out = {"alpha_t": np.asarray(inst.alpha_t)}
    q_u, u = normal(inst, "u", s["w_u"], world["u"], world["mirror"])
    q_z, _ = normal(inst, "z", s["w_z"], world["z"], world["mirror"])
    a = inst.approximation
    a.q_u, a.q_z = q_u, q_z
    t = represent([fl(o["t"]) for o in obs], form["t"])
    y = represent([fl(o["y"]) for o in obs], form["y"])
    inst = model()
    noise = float(np.asarray(inst.noise))
    out["elbo"] = np.asarray(inst.elbo(t, y))
    out["elbo-u"] = np.asarray(inst.elbo(t, y, collapsed="u"))
    out["elbo-z"] = np.asarray(inst.elbo(t, y, collapsed="z"))
    ask_t = represent(time(ASK_T), form["t"])
    # The posterior; approximate posteriors are what was set.
    inst = model.condition(t, y)()
    mean, var = inst.predict(ask_t)
    out["mean"], out["var"] = np.asarray(mean), np.asarray(var) - noise
    out["kernel"] = np.asarray(inst.kernel_approx(ask_t, ask_t, u))
    k_t = represent(ASK_K * 2.0 ** world["unit"], form["t"])
    # What is random is asked if the same randomness means the same.
    if world["u"] == 1 and not world["mirror"]:
        def seed():
            np.random.seed(3)
            B.set_global_random_state(jax.random.PRNGKey(5))

        seed()
        k = inst.predict_kernel(k_t, num_samples=4)
        out["k-x"], out["k-mean"], out["k-var"], out["k-low"] = k.x, k.mean, k.var, k.err_95_lower
        seed()
        p = inst.predict_psd(k_t, num_samples=4)
        out["psd-x"], out["psd-mean"] = p.x, p.mean
        seed()
        h = inst.predict_filter(represent(ASK_H * 2.0 ** world["unit"], form["y"]), num_samples=4, min_phase=False)
        out["h-x"], out["h-mean"], out["h-var"] = h.x, h.mean, h.var
        seed()
        big, y_sampled = model.sample(represent(time(ASK_T[1:4]), form["y"]))
        out["sampled-kernel"] = np.asarray(big)
        if world["doubled"] == 0:
            out["sampled"] = np.asarray(y_sampled)
    # Some updates, from there: the second prior is the first posterior.
    for q in ("u", "z"):
        normal_q, _ = normal(inst, q, s["w_" + q][::-1], world[q], world["mirror"])
        setattr(inst.approximation, "q_" + q, normal_q)
    ts = inst.approximation.construct_terms(t, y)
    inst.approximation.q_u = inst.approximation.q_u_optimal_mean_field(ts, inst.approximation.q_z)
    inst.approximation.q_z = inst.approximation.q_z_optimal_mean_field(ts, inst.approximation.q_u)
    out["elbo-second"] = np.asarray(inst.elbo(t, y))
    inst = inst.condition(t, y)()
    mean, var = inst.predict(ask_t)
    out["mean-second"], out["var-second"] = np.asarray(mean), np.asarray(var) - noise
    return {k: np.asarray(v, dtype=float) for k, v in out.items()}


# The dimension of an answer; whether the sign of the signal matters.
WHAT = {"alpha_t": ("alpha_t", 0), "mean": ("mean", 1), "var": ("var", 0), "kernel": ("kernel", 0), "k-x": ("t", 0),
        "k-mean": ("kernel", 0), "k-var": ("kernel2", 0), "k-low": ("kernel", 0), "psd-x": ("freq", 0), "psd-mean": ("psd", 0),
        "h-x": ("t", 0), "h-mean": ("h", 0), "h-var": ("h2", 0), "sampled-kernel": ("kernel", 0), "sampled": ("y", 0),
        "mean-second": ("mean", 1), "var-second": ("var", 0)}
SAME = dict(amp=0, unit=0, zero="0", sign=1, u=1, z=1, mirror=False, doubled=0)


def replay(check, rec):
    s = rec["setup"]
    plain = {"t": "numpy", "y": "numpy"}
    ok, base = check.guarded("ask", ask, s, SAME, rec["first"], plain, None)
    if not ok:
        return
    done = []
    for i, step in enumerate(rec["steps"]):
        done.append(step["op"])
        if i + 1 not in (len(rec["steps"]) // 2, len(rec["steps"])):
            continue
        world = step["world"]
        where = f"{s['kind']} {done} {world} {step['form']} obs={step['obs']}"
        f = {k: 2.0 ** (v / 2) for k, v in step["factors"].items()}
        f["kernel2"], f["h2"] = f["kernel"] ** 2, f["h"] ** 2
        # The default follows the units of time; not that of the signal, which is a choice.
        alpha_t = float(base["alpha_t"]) * f["alpha_t"] if world["amp"] else None
        ok, got = check.guarded("ask", ask, s, world, step["obs"], step["form"], alpha_t)
        if not ok:
            continue
        # Covariances are regularised by 1e-12, which has a unit.
        loose = 4.0 ** max(0, -5 - world["amp"]) * 2.0 ** max(0, abs(world["unit"]) - 2)
        offset = fl(step["ledger"]["tp"]) * np.log(2 * np.pi) + fl(step["ledger"]["two"]) * np.log(2)
        for k, v in got.items():
            if k.startswith("elbo"):
                check.close(v, base[k] + offset, "bound", 1e-5 * loose, 1e-4 * loose, what=f"{k} {where}")
                continue
            dim, odd = WHAT[k]
            if k in ("h-mean", "h-var") and s["kind"] == "RGPCM":
                dim = "one"  # What is shown of a filter that is white noise has no scale.
            want = base[k] * (world["sign"] if odd else 1)
            if k == "psd-mean" and loose == 1:
                want = want + 10 * np.log10(f[dim])
            elif k == "psd-mean":
                v, want = 10 ** (v / 10), 10 ** (want / 10) * f[dim]
            else:
                want = want * f[dim]
            size = float(np.max(np.abs(want)))
            check.close(v, want, k, 1e-4 * loose, max((1e-6 if loose == 1 else 1e-4 * loose) * size, 1e-300), what=where)


def run(check):
    recs = []
    for kind in ("GPCM", "CGPCM", "RGPCM"):
        steps = check.pick(6, 12)
        r = check.tlc("Symmetry", {"Out": "", "Kind": kind, "Steps": steps}, spec="Spec",
                      invariants=["Path", "Sign", "Ledger", "Fit", "Lags", "Emit"],
                      simulate=check.pick(20, 200), depth=steps + 3)
        recs += r.records
    check.replay_all(recs)
