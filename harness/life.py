"""Behaviours of Lifecycle.tla on the real code: used by C10, C12 and C17.

The specification gives a term for every result. Results with the same term must be the
same; results with different terms must differ."""
import os
import pickle
import shutil
import tempfile

import numpy as np

import vi

HYPERS = {"h0": (0.3, 1.0), "h1": (0.7, 1.6), "h2": (0.15, 0.7)}
_seen = {}
ORDERS = [0, 1, 2], [1, 2, 0]  # In which to ask for predictions.


def flat(x):
    from lab import dense

    if isinstance(x, (tuple, list)):
        return np.concatenate([flat(v) for v in x]) if len(x) else np.zeros(0)
    return np.atleast_1d(np.asarray(dense(x), dtype=float)).ravel()


def judge(check, name, term, value, where):
    """Same terms, same results; different terms, different results."""
    v = flat(value)
    reg = _seen.setdefault(name, {})
    clause = term.split("(")[0]
    check.ok(clause)
    if not np.all(np.isfinite(v)):
        check.fail(clause, f"{term} is not finite, {where}")
        return
    if term in reg:
        w = reg[term]
        scale = np.abs(w).max() if len(w) else 0
        if v.shape != w.shape or np.abs(v - w).max() > 1e-6 * scale + 1e-9:
            check.fail(clause, f"{term}: got {v[:6]}, before {w[:6]}, {where}")
        return
    for o, w in list(reg.items())[-60:]:
        if "K(" in term and not name.startswith("stub"):
            break  # The hyperparameters that are varied here do not affect all priors.
        if o.split("(")[0] == clause and v.shape == w.shape and len(v):
            if np.abs(v - w).max() <= 1e-10 * (1e-9 + np.abs(w).max()):
                check.fail(clause, f"{term} and {o} have the same value {v[:4]}, {where}")
                break
    reg[term] = v


def stub_with_scale():
    """A stub all of whose integrals depend on a hyperparameter."""
    import jax.numpy as jnp
    import lab.jax as B
    from mlkernels import EQ

    Stub = vi.stub_class()

    class Scaled(Stub):
        def __init__(self, m, scheme, noise, scale):
            Stub.__init__(self, m, scheme)
            for n in list(self.vs.names):
                self.vs.delete(n)
            self.the_noise, self.scale0 = noise, scale
            self.t_u = jnp.linspace(0.0, 2.0, self.n_u)

        def __prior__(self):
            self.scale = self.ps.scale.positive(self.scale0)
            Stub.__prior__(self)

        def compute_K_u(self):
            return self.scale * Stub.compute_K_u(self)

        def compute_K_z(self):
            return self.scale**2 * Stub.compute_K_z(self)

        def compute_i_hx(self, t1=None, t2=None):
            return self.scale * Stub.compute_i_hx(self, t1, t2)

        def compute_I_ux(self, t1=None, t2=None):
            return self.scale**2 * Stub.compute_I_ux(self, t1, t2)

        def compute_I_hz(self, t):
            return self.scale**3 * Stub.compute_I_hz(self, t)

        def compute_I_uz(self, t):
            return self.scale**2 * Stub.compute_I_uz(self, t)

        def k_h(self):
            return self.scale * EQ()

    return Scaled


def random_tables(rng, nu, nz):
    def frac(x):
        return vi.rational(np.round(x * 64) / 64)

    H = rng.standard_normal((3, 3)) * 0.4
    H = H @ H.T + 0.5 * np.eye(3)
    Lu = rng.standard_normal((nu, 3)) * 0.3 + np.eye(nu, 3)
    Lz = rng.standard_normal((nz, 3)) * 0.3 + np.eye(nz, 3)
    C = [np.linalg.qr(rng.standard_normal((3, 3)))[0] for _ in range(4)]
    r = vi.ratmat
    return dict(
        ku=r(Lu @ H @ Lu.T), kz=r(Lz @ Lz.T), s2="1", iux=r(Lu @ H @ H @ Lu.T),
        ihx=[vi.rational(np.trace(H))] * 4,
        ihz=[r(Lz @ c.T @ H @ c @ Lz.T) for c in C],
        iuz=[r(Lu @ H @ c @ Lz.T) for c in C],
    )


class World:
    """How to construct, assign and ask; for stubs and real models."""

    def __init__(self, name, scheme):
        import jax.numpy as jnp

        self.name, self.scheme = name, scheme
        rng = np.random.default_rng(sum(map(ord, name)))
        full = {"mf": "mean-field-ca", "st": "structured"}[scheme]
        if name.startswith("stub"):
            nu, nz = {"stub1": (2, 3), "stub2": (3, 1)}[name]
            tab = random_tables(rng, nu, nz)
            cls = stub_with_scale()
            self.make = lambda: cls(tab, full, *HYPERS["h0"])
            self.t = {"d1": [1.0, 3.0, 2.0], "d2": [4.0, 1.0]}
            self.tp = np.array([2.0, 4.0, 1.0])
            self.names = ("noise", "scale")
        else:
            _, make, t, _ = [x for x in vi.real_models(full) if x[0] == name][0]
            self.make = make
            self.t = {"d1": t[:3], "d2": t[[4, 2]]}
            self.tp = np.array([1.2, 3.3, 0.4])
            self.names = ("noise", "alpha_t")
            inst = make()()
            nu, nz = inst.n_u, inst.n_z
        self.nu, self.nz = nu, nz
        self.t.update(d3=self.t["d1"], d4=self.t["d1"][::-1])
        self.y = {"d1": [0.5, -1.0, 1.5], "d2": [1.0, 2.0], "d3": [1.5, 0.5, 0.25], "d4": [0.5, -1.0, 1.5]}
        ref = self.make()()
        from lab import dense

        kscale = {"u": np.diag(np.asarray(dense(ref.K_u))), "z": np.diag(np.asarray(dense(ref.K_z)))}
        self.q = {}
        for k in ("qa", "qb", "qc"):
            pair = []
            for s, n in (("u", nu), ("z", nz)):
                d = np.sqrt(kscale[s])
                a = 0.5 * rng.standard_normal((n, n))
                pair.append((d[:, None] * rng.standard_normal((n, 1)),
                             d[:, None] * (a @ a.T + np.eye(n)) * d[None, :]))
            self.q[k] = pair
        self.s = {}
        for k, num in (("sa", 3), ("sb", 4)):
            self.s[k] = [[rng.standard_normal((n, 1)) / np.sqrt(kscale[s])[:, None] for _ in range(num)]
                         for s, n in (("u", nu), ("z", nz))]
        if name.startswith("stub"):
            self.hyper0 = HYPERS["h0"]
            self.hypers = HYPERS
        else:
            m = self.make()()
            base = (float(m.noise), float(m.alpha_t))
            self.hypers = {"h0": base, "h1": (base[0] * 2, base[1] * 1.3), "h2": (base[0] / 2, base[1] * 0.8)}
        self.j = jnp

    def data(self, d):
        return np.array(self.t[d]), np.array(self.y[d])

    def assign(self, model, x):
        model()
        for n, v in zip(self.names, self.hypers[x]):
            model.vs.assign(n, v)

    def set_q(self, handle, q):
        from gpcm.normal import NaturalNormal

        inst = handle if handle.instantiated else handle()
        for n, (l, p) in zip(("q_u", "q_z"), self.q[q]):
            setattr(inst.approximation, n, NaturalNormal(self.j.array(l), self.j.array(p)))

    def set_s(self, handle, s):
        inst = handle if handle.instantiated else handle()
        inst.approximation.q_u_samples = [self.j.array(x) for x in self.s[s][0]]
        inst.approximation.q_z_samples = [self.j.array(x) for x in self.s[s][1]]


_worlds = {}


def world(name, scheme):
    if (name, scheme) not in _worlds:
        _worlds[name, scheme] = World(name, scheme)
    return _worlds[name, scheme]


def summary(r):
    return [r.x, r.mean, r.err_68_lower, r.err_95_upper, r.all_samples]


def unorder(x, order):
    """Undo the order of the inputs, along the axis of the inputs."""
    x = np.asarray(x)
    axis = next((i for i, n in enumerate(x.shape) if n == len(order)), 0)
    return np.take(x, np.argsort(order), axis=axis)


def observe(check, W, hs, obs, used, tag, where, deep):
    for i, (h, a) in enumerate(zip(hs, obs)):
        if not used[a["w"] - 1]:
            continue  # Asking would use it.
        here = f"handle {i + 1} {where}"
        ok, inst = check.guarded("instantiate", lambda: h if a["inst"] else h())
        if not ok:
            continue
        want = W.hypers[a["noise"]]
        got = [float(np.asarray(getattr(inst, n))) for n in W.names]
        check.close(got, want, "hyperparameters", 1e-9, 0, what=here)
        check.expect(inst.posterior == (a["stage"] > 0), "posterior-flag", here)
        for c, name in (("prior", "p_"), ("post", "q_")):
            if a[c]:
                for s in "uz":
                    q = getattr(inst.approximation, name + s)
                    judge(check, tag + s, "q:" + a[c], vi.params(q), here)
        for d in sorted(a["elbo"]):
            if a["elbo"][d]:
                t, y = W.data(d)
                ok, e = check.guarded("elbo", h.elbo, t, y)
                ok and judge(check, tag, a["elbo"][d], e, here)
        if a["pred"]:
            for order in ORDERS:
                ok, r = check.guarded("pred", h.predict, W.tp[order])
                ok and judge(check, tag, a["pred"], [np.asarray(x)[np.argsort(order)] for x in r], here)
        if a["four"]:
            ok, r = check.guarded("four", h.predict_fourier)
            ok and judge(check, tag, a["four"], r, here)
        if a["kern"] and deep:
            for order in ORDERS:
                ok, r = check.guarded("kern", h.predict_kernel, W.j.array(W.tp[order]))
                # Three of the samples, for plotting, are chosen randomly.
                ok and judge(check, tag, a["kern"], [unorder(x, order) for x in summary(r)], here)


def rng_value():
    """The global random state. (Initial values of posteriors and the choice of samples to
    plot come from that of NumPy, which nothing declares.)"""
    import jax.numpy as jnp
    import lab.jax as B

    jx = np.asarray(B.global_random_state(jnp.float64)).astype(np.int64)
    return tuple(jx.ravel().tolist())


def draw(check, W, hs, o, tag, where):
    import jax.numpy as jnp
    import lab.jax as B

    h = hs[o["i"] - 1]
    state = None
    if o["state"]:
        state = B.create_random_state(jnp.float64, seed=int(o["state"][4:]))
    k = o["kind"]
    new = None
    if k == "post-sample":
        inst = h if h.instantiated else h()
        f = inst.approximation.q_u.sample
        if state is None:
            ok, r = check.guarded(k, f, 3)
        else:
            ok, r = check.guarded(k, f, state, 3)
    elif k == "elbo-state":
        inst = h if h.instantiated else h()
        t, y = W.data("d1")
        ok, r = check.guarded(k, inst.approximation.elbo, state, jnp.array(t), jnp.array(y))
    elif k == "kernel":
        ok, r = check.guarded(k, h.predict_kernel, jnp.array(W.tp), num_samples=3)
    elif k == "filter":
        ok, r = check.guarded(k, h.predict_filter, jnp.array(np.linspace(0, 1, 4)), num_samples=3)
    elif k == "fourier":
        ok, r = check.guarded(k, h.predict_fourier, num_samples=3)
    elif k == "prior-sample":
        ok, r = check.guarded(k, h.sample, np.array(sorted(W.tp)))
    if not ok:
        return
    if state is not None:
        new, r = r
        judge_state(check, o["next"], tuple(np.asarray(new).astype(np.int64).ravel().tolist()), where)
    judge(check, tag + k, o["res"], summary(r) if k in ("kernel", "filter") else r, where)


_states = {}


def judge_state(check, term, value, where):
    """Random states, also those returned by operations with an explicit state."""
    check.ok("random-state")
    if term in _states:
        if _states[term] != value:
            check.fail("random-state", f"{term} is {value}, was {_states[term]}, {where}")
        return
    # A draw moves on: never back to a state that it came from, and seeds differ.
    for o, v in _states.items():
        past = o in ("seed0", "seed1", "seed2") if not term.startswith("next(") else f"({o}," in term
        if past and v == value:
            check.fail("random-state", f"{term} and {o} are both {value}, {where}")
            break
    _states[term] = value


def seed(s):
    import jax.numpy as jnp
    import lab.jax as B

    np.random.seed(int(s[4:]))
    B.set_global_random_state(B.create_random_state(jnp.float64, seed=int(s[4:])))


def contents(model):
    from lab import dense

    return {n: np.array(np.asarray(dense(model.vs[n]))) for n in model.vs.names}


def replay(check, rec):
    import jax.numpy as jnp
    import lab.jax as B

    W = world(rec["model"], rec["scheme"])
    tag = f"{rec['model']}/{rec['scheme']}/"
    seed("seed0")
    base = [W.make(), W.make()]
    hs, ws = [base[0], base[1]], [1, 2]
    files = {}
    tmp = tempfile.mkdtemp(dir=check.work)
    done = []
    for n, step in enumerate(rec["log"]):
        o = step["o"]
        quiet = B.global_random_state(jnp.float64)
        op = o["op"]
        done.append(op if "i" not in o else f"{op}{o['i']}")
        where = f"{tag} after {' '.join(done)}"
        ok = True
        if op == "inst":
            ok, r = check.guarded(op, hs[o["i"] - 1])
            if ok:
                hs.append(r)
                ws.append(ws[o["i"] - 1])
        elif op == "cond":
            h = hs[o["i"] - 1]
            t, y = W.data(o["d"])
            ok, r = check.guarded(op, h.condition, t, y)
            if ok:
                if h.instantiated:
                    hs[o["i"] - 1] = r
                else:
                    hs.append(r)
                    ws.append(ws[o["i"] - 1])
        elif op == "hyper":
            W.assign(base[o["w"] - 1], o["x"])
        elif op == "setq":
            ok, _ = check.guarded(op, W.set_q, hs[o["i"] - 1], o["q"])
        elif op == "setsmp":
            ok, _ = check.guarded(op, W.set_s, hs[o["i"] - 1], o["s"])
        elif op == "fit":
            t, y = W.data(o["d"])
            it = dict(iters=2) if rec["scheme"] == "mf" else dict(iters=8, optimise_hypers=False)
            ok, _ = check.guarded(op, hs[o["i"] - 1].fit, t, y, **it)
        elif op == "new":
            base[o["w"] - 1] = W.make()
            keep = [i for i in range(len(hs)) if ws[i] != o["w"]]
            hs = [hs[i] for i in keep] + [base[o["w"] - 1]]
            ws = [ws[i] for i in keep] + [o["w"]]
        elif op == "save":
            m = base[o["w"] - 1]
            path = os.path.join(tmp, o["f"])
            before = contents(m)
            ok, _ = check.guarded(op, m.save, path)
            after = contents(m)
            check.expect(same(before, after), "save-pure", where)
            files[o["f"]] = before
            again = os.path.join(tmp, "again")
            ok2, _ = check.guarded(op, m.save, again)
            if ok and ok2:
                check.expect(open(path, "rb").read() == open(again, "rb").read(), "save-twice", where)
        elif op == "load":
            m = base[o["w"] - 1]
            before = contents(m)
            bytes0 = open(os.path.join(tmp, o["f"]), "rb").read()
            ok, _ = check.guarded(op, m.load, os.path.join(tmp, o["f"]))
            check.expect(bytes0 == open(os.path.join(tmp, o["f"]), "rb").read(), "load-keeps-file", where)
            if ok:
                after = contents(m)
                want = dict(before, **files[o["f"]])
                check.expect(same(after, want, 1e-9), "load-exactly", f"{where}: {diff(after, want)}")
                # Saving again gives the same content.
                again = os.path.join(tmp, "again2")
                fresh = W.make()
                ok, _ = check.guarded(op, fresh.load, os.path.join(tmp, o["f"]))
                if ok:
                    fresh.save(again)
                    check.expect(same(read(again), files[o["f"]], 1e-9), "save-what-was-loaded", where)
        elif op == "seed":
            seed(o["s"])
        elif op == "draw":
            draw(check, W, hs, o, tag, where)
        elif op == "refuse":
            h = hs[o["i"] - 1]
            if o["what"] == "sample":
                check.raises("refuse-sample", RuntimeError, lambda: h.sample(W.tp))
            elif o["what"] == "collapsed":
                t, y = W.data("d1")
                check.raises("refuse-collapsed", ValueError, h.elbo, t, y, collapsed="x")
            else:
                check.raises("refuse-ps", AttributeError, lambda: h.ps)
        if not ok:
            return
        if op in ("hyper", "setq", "setsmp"):
            # The first access to a posterior initialises it randomly.
            B.set_global_random_state(quiet)
        if rec["watch"] == "rng":
            # Observing would hide draws that are not declared.
            now = rng_value()
            judge_state(check, step["rng"], now, where)
        else:
            observe(check, W, hs, step["obs"], step["used"], tag, where, True)
            if rec["watch"] == "all":
                now = rng_value()
                judge_state(check, step["rng"], now, where)
        if len(check.violations) > 5:
            return
    shutil.rmtree(tmp, ignore_errors=True)


def read(path):
    with open(path, "rb") as f:
        return pickle.load(f)


def same(a, b, rtol=0.0):
    if set(a) != set(b):
        return False
    return all(
        np.shape(a[k]) == np.shape(b[k])
        and np.all(np.abs(a[k] - b[k]) <= rtol * (1e-3 + np.abs(b[k]).max() if np.size(b[k]) else 0))
        for k in a
    )


def diff(a, b):
    r = sorted(set(a) ^ set(b))
    r += [k for k in a if k in b and not same({k: a[k]}, {k: b[k]}, 1e-9)]
    return r[:6]


def behaviours(check, scheme, ops, depth, num, seed, watch, models, handles=5):
    r = check.tlc(
        "Lifecycle",
        {"Out": "", "Scheme": scheme, "Ops": set(ops), "Depth": depth, "MaxHandles": handles},
        invariants=["TypeOK", "Functional", "Emit"], simulate=num, depth=depth + 1, seed=seed,
    )
    import json

    one = {}
    for x in r.records:
        key = json.dumps([s["o"] for s in x["log"][:-1]])
        one.setdefault(key, []).append(x)
    res = []
    for i, k in enumerate(sorted(one)):
        x = one[k][(7 * i) % len(one[k])]
        res.append(dict(x, model=models[i % len(models)], watch=watch))
    return res


def verify(check, scheme, ops, depth, handles=4):
    """The action properties, exhaustively for short behaviours."""
    check.tlc(
        "Lifecycle",
        {"Out": "", "Scheme": scheme, "Ops": set(ops), "Depth": depth, "MaxHandles": handles},
        invariants=["TypeOK", "Functional"], spec="Spec", view="View",
        properties=["Pure", "CondFrame", "StageFrame", "SaveLoad", "RngFrame", "Restores", "FileFrame"],
    )
