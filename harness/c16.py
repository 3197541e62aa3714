"""Utilities: behaviours of Matrices.tla and Curvature.tla."""
import numpy as np
from common import fl

import vi


def poly(pairs, B):
    """A polynomial as a function of a column vector."""
    terms = [(list(m), fl(c)) for m, c in pairs]

    def f(x):
        total = 0 * x[0, 0]
        for m, c in terms:
            p = c
            for i, k in enumerate(m):
                for _ in range(k):
                    p = p * x[i, 0]
            total = total + p
        return total

    return f


def col(x):
    return np.array([[fl(v)] for v in x])


def matrices(check, rec):
    import jax.numpy as jnp
    from gpcm.util import closest_psd, invert_perm
    from lab import dense
    from matrix import Dense

    for k, e in enumerate(rec["log"]):
        a = vi.mat(e["a"])
        where = f"eigenvalues {rec['e']}: {e['a']}"
        for name, x in (("numpy", a.copy()), ("jax", jnp.array(a)), ("Dense", Dense(jnp.array(a)))):
            ok, g = check.guarded("nearest", closest_psd, x)
            ok and check.close(dense(g), vi.mat(e["nearest"]), "nearest", 1e-8, 1e-9, what=f"{name} {where}")
            # The rank is not stable: only if it is full.
            if not e["singular"]:
                ok, g = check.guarded("inverse", closest_psd, x, inv=True)
                ok and check.close(dense(g), vi.mat(e["inverse"]), "inverse", 1e-8, 1e-9, what=f"{name} {where}")
        p = [i - 1 for i in e["perm"]]
        for x in (list(p), np.array(p), tuple(p)):
            ok, g = check.guarded("permutation", invert_perm, x)
            if ok:
                check.expect([int(i) for i in g] == [i - 1 for i in e["inv"]], "permutation", f"{p}: {g}")
                check.expect(list(np.array(p)[np.asarray(g)]) == list(range(len(p))), "permutation", f"{p}: {g}")


def replay(check, rec):
    if "log" in rec:
        return matrices(check, rec)
    import jax
    import jax.numpy as jnp
    import lab.jax as B
    from gpcm.util import hessian, laplace_approximation, maximum_a_posteriori
    from lab import dense

    where = f"case {rec['k']}: {rec['poly']} at {rec['at']}"
    x = jnp.array(col(rec["at"]))
    f = poly(rec["poly"], B)
    check.close(float(f(x)), fl(rec["value"]), "polynomial", 1e-9, 1e-9, what=where)
    ok, h = check.guarded("hessian", hessian, f, x)
    ok and check.close(h, vi.mat(rec["hess"]), "hessian", 1e-9, 1e-9, what=where)
    ok, h = check.guarded("hessian", lambda: jax.jit(lambda z: hessian(f, z))(x))
    ok and check.close(h, vi.mat(rec["hess"]), "hessian", 1e-9, 1e-9, what=f"compiled {where}")
    for bad in (x[:, 0], jnp.concatenate([x, x], axis=1)):
        check.raises("column", ValueError, hessian, f, bad)
    g, g2, start = poly(rec["f"], B), poly(rec["f2"], B), jnp.array(col(rec["start"]))
    where = f"case {rec['k']}: {rec['f']} from {rec['start']}"
    mu = col(rec["mu"])
    kept = np.array(start)
    tol = 1e-3
    ok, m = check.guarded("mode", maximum_a_posteriori, g, start)
    if ok:
        check.close(m, mu, "mode", tol, tol, what=where)
    check.expect(np.array_equal(kept, start), "unchanged", where)
    tol2 = 1e-2 if rec["quartic"] else 1e-6
    ok, d = check.guarded("laplace", laplace_approximation, g, start)
    if ok:
        check.close(dense(d.mean), mu, "laplace-mean", tol, tol, what=where)
        check.close(dense(d.var), vi.mat(rec["var"]), "laplace-variance", tol2, tol2, what=where)
    ok, d = check.guarded("laplace", laplace_approximation, g, start, f_eval=g2)
    if ok:
        check.close(dense(d.mean), mu, "laplace-mean", tol, tol, what=where)
        check.close(dense(d.var), vi.mat(rec["var2"]), "laplace-variance", 1e-6, 1e-6, what=f"other evaluation {where}")


def run(check):
    r = check.tlc("Matrices", {"Out": "", "Runs": check.pick(60, 500), "Steps": check.pick(8, 12)}, spec="Spec",
                  invariants=["Orthogonal", "Projection", "Penrose", "Composes", "Emit"])
    recs = list(r.records)
    r = check.tlc("Curvature", {"Out": "", "Runs": check.pick(50, 300)}, spec="Spec",
                  invariants=["Symmetric", "Mode", "Exact", "Emit"])
    check.replay_all(recs + r.records)
