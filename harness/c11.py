"""Fitting: behaviours of FitFrame.tla."""
import numpy as np

import life
import vi

_stub = None
GIVEN = (0.4, 0.8)


def stub():
    """Tables that depend on a learnable hyperparameter, and flags that fix these."""
    global _stub
    if _stub is None:
        import jax.numpy as jnp
        from gpcm.model import AbstractGPCM
        from mlkernels import EQ

        class Fitted(AbstractGPCM):
            """f(t) = h' C(t) x with h ~ N(0, scale (H + tilt vv')) and x ~ N(0, 1), u and z
            linear in h and x: all integrals are those of one model, for all hyperparameters."""

            def __init__(self, rng, n_u, n_z, scheme, fix):
                h = 0.4 * rng.standard_normal((3, 3))
                self.h0, self.v = h @ h.T + 0.5 * np.eye(3), rng.standard_normal((3, 1))
                self.l_u = 0.3 * rng.standard_normal((n_u, 3)) + np.eye(n_u, 3)
                self.l_z = 0.3 * rng.standard_normal((n_z, 3)) + np.eye(n_z, 3)
                self.c = np.stack([np.linalg.qr(rng.standard_normal((3, 3)))[0] for _ in range(4)])
                AbstractGPCM.__init__(self, scheme)
                self.n_u, self.n_z, self.extent = n_u, n_z, 4.0
                self.t_u = jnp.linspace(0.0, 2.0, n_u)
                self.fix = fix

            def __prior__(self):
                self.noise, self.scale = GIVEN
                if "noise" not in self.fix:
                    self.noise = self.ps.noise.positive(GIVEN[0])
                if "scale" not in self.fix:
                    self.scale = self.ps.scale.positive(GIVEN[1])
                self.tilt = self.ps.tilt.positive(0.7)
                AbstractGPCM.__prior__(self)

            def _h(self):
                return self.scale * (self.h0 + self.tilt * self.v @ self.v.T)

            def _c(self, t):
                return jnp.take(self.c, jnp.round(jnp.asarray(t)).astype(int) - 1, axis=0)

            def compute_K_u(self):
                return self.l_u @ self._h() @ self.l_u.T

            def compute_K_z(self):
                return jnp.array(self.l_z @ self.l_z.T)

            def compute_i_hx(self, t1=None, t2=None):
                return jnp.trace(self._h()) + 0 * t1 + 0 * t2

            def compute_I_ux(self, t1=None, t2=None):
                return self.l_u @ self._h() @ self._h() @ self.l_u.T

            def compute_I_hz(self, t):
                return self.l_z @ jnp.swapaxes(self._c(t), 1, 2) @ self._h() @ self._c(t) @ self.l_z.T

            def compute_I_uz(self, t):
                return self.l_u @ self._h() @ self._c(t) @ self.l_z.T

            def k_h(self):
                return self.scale * EQ()

        _stub = Fitted
    return _stub


class Made:
    """A model, the data for it, and the values of what is fixed."""

    def __init__(self, rec):
        cfg, kind = rec["cfg"], rec["kind"]
        fix = set(cfg["fix"])
        if kind == "stub":
            cls = stub()
            self.make = lambda: cls(np.random.default_rng(7), 2, 2, cfg["scheme"], fix)
            self.data = {"d1": ([1.0, 3.0, 2.0], [0.5, -1.0, 1.5]), "d2": ([4.0, 1.0], [1.0, 2.0])}
            self.fixed = {"noise": ("noise", GIVEN[0]), "scale": ("scale", GIVEN[1])}
        else:
            from gpcm.gpcm import CGPCM, GPCM
            from gpcm.rgpcm import RGPCM

            flags = {f"fix_{x}": True for x in fix}
            t = np.array([0.5, 1.0, 1.7, 2.6, 3.5])
            y = np.array([0.6, -0.4, 1.3, 0.2, -0.9])
            kw = {
                "GPCM": dict(noise=0.2, alpha=0.4, gamma=1.3, omega=0.8, t_u=np.array([-1.5, 0.0, 1.5]),
                             t_z=np.array([-0.6, 1.4, 3.1])),
                "CGPCM": dict(noise=0.1, alpha=0.5, gamma=1.1, omega=0.9, t_u=np.array([0.2, 1.6, 3.0]),
                              t_z=np.array([-0.6, 1.0, 2.5])),
                "RGPCM": dict(noise=0.05, lam=0.6, alpha=0.9, gamma=0.5, t_u=np.array([0.0, 1.1, 2.4]),
                              a=-1.0, b=5.0, m_max=1, ms=np.array([0, 1, 2])),
            }[kind]
            cls = {"GPCM": GPCM, "CGPCM": CGPCM, "RGPCM": RGPCM}[kind]
            self.make = lambda: cls(scheme=cfg["scheme"], **kw, **flags)
            self.data = {"d1": (t[:4], y[:4]), "d2": (t[1:], y[1:])}
            s = "lam" if kind == "RGPCM" else "gamma"
            self.fixed = {"noise": ("noise", kw["noise"]), "window": ("alpha", kw["alpha"]), "scale": (s, kw[s])}
        self.fixed = {k: v for k, v in self.fixed.items() if k in fix}
        self.mf = cfg["scheme"] != "structured"
        self.iters = dict(iters=15) if self.mf else dict(iters=15, num_samples=3)
        if not self.mf or cfg["opt"] != "yes":
            self.iters["optimise_hypers"] = {"yes": True, "no": False, "some": 3}[cfg["opt"]]

    def start(self, model, seed):
        """Some posterior, so that nothing is left to chance."""
        import jax.numpy as jnp
        from gpcm.normal import NaturalNormal
        from lab import dense

        rng = np.random.default_rng(seed)
        inst = model()
        for s, n, k in (("u", inst.n_u, inst.K_u), ("z", inst.n_z, inst.K_z)):
            d = np.sqrt(np.diag(np.asarray(dense(k))))
            a = 0.4 * rng.standard_normal((n, n))
            q = NaturalNormal(jnp.array(d[:, None] * rng.standard_normal((n, 1))),
                              jnp.array(d[:, None] * (a @ a.T + np.eye(n)) * d[None, :]))
            setattr(inst.approximation, "q_" + s, q)

    def get(self, d):
        t, y = self.data[d]
        return np.array(t), np.array(y)


def changed(a, b):
    """Names of which the value is different."""
    return {n for n in b if n not in a or a[n].shape != b[n].shape or
            np.abs(a[n] - b[n]).max() > 1e-12 * (1e-12 + np.abs(a[n]).max())}


def twin(made, model, script):
    """A model with the same variables and history."""
    other = made.make()
    for k, step in enumerate(script):
        made.start(other, 0)
        if step["op"] == "cond":
            other = other.condition(*made.get(step["d"]))
    made.start(other, 0)
    for n in model.vs.names:
        if n in other.vs:
            other.vs.assign(n, model.vs[n])
        else:
            other.vs.unbounded(init=model.vs[n], visible=False, name=n)
    return other


def replay(check, rec):
    import jax.numpy as jnp
    import lab.jax as B

    made = Made(rec)
    model = made.make()
    cfg = rec["cfg"]
    done = []
    for k, step in enumerate(rec["log"]):
        first = k == 0 or rec["log"][k - 1]["op"] == "cond"
        if first:
            made.start(model, check.seed + k)
        before = life.contents(model)
        done.append(step["op"])
        where = f"{rec['kind']} {cfg['scheme']} {cfg['opt']} fix={cfg['fix']} {done}"
        if step["op"] == "cond":
            ok, model = check.guarded("condition", model.condition, *made.get(step["d"]))
            if not ok:
                return
            made_changed = changed(before, life.contents(model))
            check.expect(not made_changed & set(before), "condition-changes-nothing", f"{where}: {made_changed}")
            continue
        t, y = made.get(step["d"])
        e0 = float(model.elbo(t, y)) if made.mf else None
        # Determinism is checked for the last fit.
        again = k == len(rec["log"]) - 1 and rec.get("twin")
        other = twin(made, model, rec["log"][:k]) if again else None
        state = np.asarray(B.global_random_state(jnp.float64)).copy()
        ok, _ = check.guarded("fit", model.fit, t, y, **made.iters)
        if not ok:
            return
        check.expect(np.array_equal(state, np.asarray(B.global_random_state(jnp.float64))), "random-state", where)
        after = life.contents(model)
        ch = changed(before, after)
        want = set(step["touch"])
        check.expect(not ch - want, "changes-only", f"{where}: also changed {sorted(ch - want)}")
        check.expect(not want - ch, "changes-all", f"{where}: did not change {sorted(want - ch)}")
        missing = set(step["exist"]) - set(after)
        check.expect(not missing, "stored", f"{where}: {sorted(missing)} do not exist")
        check.expect(not {n for n in set(after) - set(step["exist"]) - {"witness"}}, "only-variables",
                     f"{where}: {sorted(set(after) - set(step['exist']))}")
        check.expect(all(np.all(np.isfinite(v)) for v in after.values()), "finite", where)
        inst = model()
        for attr, v in made.fixed.values():
            check.close(np.asarray(getattr(inst, attr), dtype=float), v, "fixed", 1e-12, 0, what=f"{attr} {where}")
        if not made.mf:
            for s, n in (("u", inst.n_u), ("z", inst.n_z)):
                x = getattr(inst.approximation, f"q_{s}_samples")
                check.expect(x.shape == (n, 1000), "samples", f"{x.shape} {where}")
        else:
            e1 = float(model.elbo(t, y))
            check.expect(e1 >= e0 - 1e-7 * (1 + abs(e0)), "never-worse", f"{where}: {e0} -> {e1}")
        if other is not None:
            # Whatever the random state of the user is.
            B.set_global_random_state(B.create_random_state(jnp.float64, seed=k + 99))
            np.random.seed(k + 99)
            ok, _ = check.guarded("fit", other.fit, t, y, **made.iters)
            if ok:
                o = life.contents(other)
                bad = [n for n in o if n in after and (o[n].shape != after[n].shape or
                       np.abs(o[n] - after[n]).max() > 1e-6 * (1e-6 + np.abs(after[n]).max()))]
                check.expect(not bad, "deterministic", f"{where}: {bad}")


def run(check):
    recs = []
    for kind in ("stub", "GPCM", "CGPCM", "RGPCM"):
        stub = kind == "stub"
        for alternate in (False, True) if stub else (False,):
            depth = 5 if alternate else check.pick(3 if stub else 1, 4 if stub else 2)
            r = check.tlc("FitFrame", {"Out": "", "Kind": kind, "Depth": depth, "Alternate": alternate},
                          invariants=["Emit"], spec="Spec", properties=["Frame", "Stored"])
            by = {}
            for x in r.records:
                c = x["cfg"]
                by.setdefault((c["scheme"], c["opt"]), []).append(x)
            # Different flags and histories for every scheme.
            for j, k in enumerate(sorted(by)):
                keep = k[0] != "structured" and k[1] == "no"
                ca = k[0] == "mean-field-ca" and not keep
                if alternate:
                    num = check.pick(1, 4) if k[1] != "some" and (ca or k[0] == "structured") else check.pick(0, 2)
                elif keep:
                    num = check.pick(1, 8) if stub or k[0] != "mean-field-ca" else 0
                elif stub:
                    num = check.pick(3, 24)
                else:
                    # One variable per hyperparameter exists whatever is fitted.
                    num = len(by[k]) if ca else check.pick(1, 5)
                rng = np.random.default_rng([check.seed, j, len(kind), ord(kind[0])])
                for n, i in enumerate(rng.permutation(len(by[k]))[:num]):
                    recs.append(dict(by[k][i], twin=n == 0 and (stub or ca)))
    # The long ones first.
    recs.sort(key=lambda x: (x["cfg"]["scheme"] != "structured", x["kind"]))
    check.replay_all(recs)
