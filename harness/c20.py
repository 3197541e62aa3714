"""Learnable parameters: behaviours of Params.tla."""
import numpy as np
from common import fl

import life


def make(s):
    from gpcm.gpcm import CGPCM, GPCM
    from gpcm.rgpcm import RGPCM

    h = {k: fl(v) for k, v in s["hyp"].items()}
    vec = lambda x: np.array([fl(v) for v in x])
    kw = dict(scheme=s["scheme"], noise=h["noise"], alpha=h["alpha"], alpha_t=h["alpha_t"], gamma=h["gamma"],
              t_u=vec(s["t_u"]), **{f"fix_{x}": True for x in s["fix"]})
    if s["kind"] == "RGPCM":
        return RGPCM(lam=h["lambda"], gamma_t=fl(s["gamma_t"]), a=-3.0, b=5.0, m_max=1, ms=np.array([0, 1, 2]), **kw)
    return {"GPCM": GPCM, "CGPCM": CGPCM}[s["kind"]](omega=h["omega"], t_z=vec(s["t_z"]), **kw)


def flat(x):
    from lab import dense

    return np.atleast_1d(np.asarray(dense(x), dtype=float)).copy()


def attributes(inst, step):
    return {a: flat(getattr(inst, a)) for a in step["attrs"]}


def judge(check, inst, values, step, where, over=None):
    """The attributes of an instance, from the values of its variables."""

    def part(p):
        name = p["var"]
        if name == "none":
            return np.array([fl(x) for x in p["val"]])
        return over[name] if over and name in over else values[name]

    got = attributes(inst, step)
    for a, e in step["attrs"].items():
        check.close(got[a], part(e["num"]) / part(e["den"]), "attribute", 1e-9, 1e-12 if a in ("t_u", "t_z") else 1e-300, what=f"{a} {where}")
    return got


def matrices(check, inst, kind, where):
    """A model near where it started is one: covariances are."""
    from lab import dense

    for n in ("K_u", "K_z"):
        k = np.asarray(dense(getattr(inst, "compute_" + n)()))
        if not check.expect(np.all(np.isfinite(k)), "finite", f"{n} {where}"):
            continue
        tol = 1e-9 * np.abs(k).max()
        check.expect(np.abs(k - k.T).max() <= tol, "symmetric", f"{n} {where}")
        check.expect(np.linalg.eigvalsh(k).min() >= -tol, "positive-definite", f"{n} {where}")
    t = np.array([0.3, 1.1])
    for n, x in (("i_hx", inst.compute_i_hx(t, t)), ("I_hz", inst.compute_I_hz(t)), ("I_uz", inst.compute_I_uz(t)),
                 ("I_ux", inst.compute_I_ux())):
        check.expect(np.all(np.isfinite(np.asarray(dense(x)))), "finite", f"{n} {where}")


def replay(check, rec):
    import jax.numpy as jnp

    s = rec["setup"]
    model = make(s)
    first = model()
    olds = [(first, None, None)]
    done = []
    before = {k: np.atleast_1d(v) for k, v in life.contents(model).items()}
    init = {k: np.array([fl(x) for x in v]) for k, v in rec["init"].items()}
    for k, v in init.items():
        if k in before:
            check.close(before[k], v, "initial", 1e-9, 1e-12, what=f"{k} {s}")
    for step in rec["steps"]:
        op, arg = step["op"], step["arg"]
        done.append(op if op in ("look", "other") else f"{op} {arg}")
        where = f"{s['kind']} fix={s['fix']} t_u={s['t_u']}: {done[-3:]}"
        over = None
        shape = lambda n, v: jnp.array(v).reshape(np.shape(np.asarray(model.vs[n])))
        if op == "assign":
            ok, _ = check.guarded("assign", model.vs.assign, arg["name"], shape(arg["name"], [fl(x) for x in arg["value"]]))
            if not ok:
                return
        elif op == "move":
            for n in sorted(arg["to"]):
                z = np.array([fl(x) for x in arg["to"][n]])
                if arg["size"] == "small":
                    z = z + np.asarray(model.vs.get_latent_vector(n))
                ok, _ = check.guarded("move", model.vs.set_latent_vector, jnp.array(z), n)
                if not ok:
                    return
        if op == "other":
            vs = model.vs.copy()
            over = {arg["name"]: np.array([fl(x) for x in arg["value"]])}
            vs.assign(arg["name"], shape(arg["name"], over[arg["name"]]))
            ok, inst = check.guarded("instantiate", lambda: model(vs))
        else:
            ok, inst = check.guarded("instantiate", lambda: model())
        if not ok:
            return
        values = {k: np.atleast_1d(v) for k, v in life.contents(model).items()}
        check.expect(set(values) == set(step["names"]), "learnable", f"{sorted(values)} {where}")
        for n, d in step["domains"].items():
            if n not in values:
                return
            v = values[n]
            lo = -np.inf if d["lo"] == "none" else fl(d["lo"])
            hi = np.inf if d["hi"] == "none" else fl(d["hi"])
            # Rounding may end at a bound.
            pad = 1e-9 * max(1.0, *[abs(b) for b in (lo, hi) if np.isfinite(b)], 0) if np.isfinite(hi) else 0.0
            check.expect(np.all(v >= lo - pad) and np.all(v <= hi + pad) and np.all(np.isfinite(v)), "domain",
                         f"{n} = {v} not in {lo, hi} {where}")
            if d["lo"] == "0" and d["hi"] == "none":
                check.expect(np.all(v > 0), "positive", f"{n} = {v} {where}")
            if np.isfinite(hi) and op == "move" and arg["size"] == "far" and n in arg["to"]:
                # Only the ends are out of reach: far out, every point between is approached.
                far = np.abs([fl(x) for x in arg["to"][n]]) >= 30
                end = np.minimum(np.abs(v - lo), np.abs(v - hi)) < 1e-6 * (hi - lo)
                check.expect(np.all(end[far]), "bounds", f"{n} = {v} for {lo, hi} {where}")
            known = [x for x in step["values"][n] if x != "?"]
            if known:
                check.close(v, [fl(x) for x in step["values"][n]], "value", 1e-7, 1e-9, what=f"{n} {where}")
            elif not (op == "move" and n in arg["to"]):
                check.expect(np.array_equal(v, before[n]), "frame", f"{n}: {before[n]} -> {v} {where}")
        got = judge(check, inst, values, step, where, over)
        if s["kind"] == "RGPCM":
            check.expect(np.all(got["gamma"] <= got["alpha"]) and np.all(got["gamma"] > 0), "below", f"{got} {where}")
        if step["moved"] == "no" and op != "other":
            matrices(check, inst, s["kind"], where)
        for i, a, st in olds:
            if a is not None:
                now = attributes(i, st)
                check.expect(all(np.array_equal(now[n], a[n]) for n in a), "old-instance", where)
        olds.append((inst, got, step))
        olds = olds[-3:]
        before = values


def run(check):
    recs = []
    for kind in ("GPCM", "CGPCM", "RGPCM"):
        steps = check.pick(6, 14)
        r = check.tlc("Params", {"Out": "", "Kind": kind, "Steps": steps}, spec="Spec",
                      invariants=["Valid", "Open", "Exactly", "Below", "Emit"], properties=["Frame"],
                      simulate=check.pick(50, 400), depth=steps + 3)
        recs += [x for x in r.records]
    check.replay_all(recs)
