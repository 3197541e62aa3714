"""Estimates of spectra, filters and autocorrelations: Spectrum.tla and Series.tla."""
from fractions import Fraction

import numpy as np
from common import fl

import vi


def plain_table(n, which):
    """Cosines or sines of multiples of 2 pi / n, as rationals with many digits."""
    # pi by Machin's formula.
    def atan_inv(k):
        s, term, i = Fraction(0), Fraction(1, k), 0
        while abs(term) > Fraction(1, 10**40):
            s += term / (2 * i + 1) * (-1) ** i
            term /= k * k
            i += 1
        return s

    pi = 4 * (4 * atan_inv(5) - atan_inv(239))
    pi = Fraction(round(pi * 10**38), 10**38)
    res = []
    for i in range(n):
        x = 2 * pi * Fraction(i, n)
        if x > pi:
            x -= 2 * pi
        x = Fraction(round(x * 10**36), 10**36)
        s, term, k = Fraction(0), (Fraction(1) if which == "cos" else x), 0
        while abs(term) > Fraction(1, 10**34):
            s += term
            a = 2 * k + (1 if which == "cos" else 2)
            term = -Fraction(round(term * x * x / (a * (a + 1)) * 10**36), 10**36)
            k += 1
        res.append(str(Fraction(round(s * 10**30), 10**30)))
    return res


_tables = {}


def tab(n, which):
    if (n, which) not in _tables:
        _tables[n, which] = plain_table(n, which)
    return _tables[n, which]


def series(check, recs):
    """Autocorrelations."""
    import jax.numpy as jnp
    from gpcm.util import autocorr

    for rec in recs:
        x = np.array([fl(v) for v in rec["xs"]])
        n = len(x)
        for window in (False, True):
            want = np.array([fl(v) for v in rec["wcov" if window else "cov"]])
            for lags in (None, 0, 1, n - 1, n + 2):
                sel = want if lags is None else want[: lags + 1]
                where = f"{rec['xs']} lags={lags} window={window}"
                kw = dict(window=True) if window else {}
                if lags is not None:
                    kw["lags"] = lags
                xx = jnp.array(x) if lags == 0 else x.reshape(1, n) if lags == 1 else x
                ok, g = check.guarded("autocovariance", autocorr, xx, cov=True, **kw)
                ok and check.close(g, sel, "autocovariance", 1e-9, 1e-10, what=where)
                if rec["constant"]:
                    continue
                ok, g = check.guarded("autocorrelation", autocorr, xx, **kw)
                ok and check.close(g, sel / want[0], "autocorrelation", 1e-9, 1e-10, what=where)
        check.expect(np.array_equal(x, [fl(v) for v in rec["xs"]]), "unchanged", str(rec["xs"]))


def replay(check, rec):
    if "series" in rec:
        return series(check, rec["series"])
    if "h" in rec:
        return phase(check, rec)
    import jax.numpy as jnp
    from gpcm.util import estimate_psd

    r, res = rec["r"], rec["res"]
    k, dt = np.array([fl(x) for x in r["k"]]), fl(r["dt"])
    t = dt * np.arange(len(k))
    where = f"kernel {r['k']} at spacing {r['dt']}, {r['zero']} zeros"
    f, s = [fl(x) for x in res["freqs"]], np.array([fl(x) for x in res["psd"]])
    for arr in (np.array, jnp.array):
        for kw in ({}, dict(db=False), dict(db=True)):
            kw = dict(kw, **({} if r["zero"] == 2000 else dict(n_zero=r["zero"])))
            ok, g = check.guarded("spectrum", estimate_psd, arr(t), arr(k), **kw)
            if not ok:
                continue
            check.close(g[0], f, "frequencies", 1e-9, 1e-12, what=where)
            if kw.get("db"):
                if s.min() > 1e-6 * s.max():
                    check.close(g[1], 10 * np.log10(s), "decibel", 1e-6, 1e-6, what=where)
            else:
                check.close(g[1], s, "spectrum", 1e-8, 1e-9 * s.max(), what=where)
                check.expect(np.all(np.asarray(g[1]) >= 0), "non-negative", where)
    # Without a number of zeros, there are many.
    ok, g = check.guarded("spectrum", estimate_psd, t, k)
    ok2, w = check.guarded("spectrum", estimate_psd, t, k, n_zero=2000)
    if ok and ok2:
        check.close(g[0], w[0], "default", 1e-12, 0, what=where)
        check.close(g[1], w[1], "default", 1e-9, 1e-12, what=where)
    check.raises("time-zero", ValueError, estimate_psd, t + dt, k)


def phase(check, rec):
    import jax.numpy as jnp
    from gpcm.util import min_phase

    h = np.array(rec["h"])
    n = len(h)
    spec = np.fft.fft(h)
    want = np.real(np.fft.ifft(np.abs(spec) * np.exp(1j * np.array([fl(x) for x in rec["phase"]]))))
    scale = np.abs(want).max()
    where = f"filter of length {n}: {rec['h'][:6]}"
    for name, x in (("filter", h), ("jax", jnp.array(h)), ("negated", -h), ("delayed", np.roll(h, 1 + n // 3)),
                    ("reversed", h[::-1].copy())):
        kept = np.array(x)
        ok, g = check.guarded("minimum-phase", min_phase, x)
        if not ok:
            continue
        # All of these have the same magnitudes.
        check.close(g, want, "minimum-phase", 1e-6, 1e-7 * scale, what=f"{name} {where}")
        check.close(np.abs(np.fft.fft(np.asarray(g))), np.abs(spec), "magnitude", 1e-6, 1e-8 * np.abs(spec).max(), what=f"{name} {where}")
        check.expect(np.array_equal(kept, np.array(x)), "unchanged", where)
    ok, g = check.guarded("minimum-phase", min_phase, 3 * h)
    ok and check.close(g, 3 * want, "minimum-phase", 1e-6, 1e-7 * scale, what=f"scaled {where}")
    ok, g = check.guarded("minimum-phase", lambda: min_phase(min_phase(h)))
    ok and check.close(g, want, "idempotent", 1e-6, 1e-7 * scale, what=where)


def run(check):
    r = check.tlc("Series", {"Out": "", "Max": check.pick(5, 6), "Many": check.thorough}, spec="Spec",
                  invariants=["Definition", "Windowed", "Emit"])
    recs = [dict(series=r.records[i::14]) for i in range(14)]
    rng = np.random.default_rng(check.seed)
    q = lambda x, b=64: str(Fraction(int(round(float(x) * b)), b))
    trace = []
    for i in range(check.pick(60, 400)):
        n = int(rng.integers(2, 9)) if i % 3 else int(rng.integers(2, 30))
        zero = int(rng.choice([0, 1, 2, 5, 17]))
        zero = max(zero, 3 - n)
        dt = ["1", "1/4", "3/2", "5/8", "1/1000"][i % 5]
        kind = i % 4
        lag = np.arange(n)
        k = {0: np.exp(-lag / 3), 1: np.cos(lag) * np.exp(-lag / 9), 2: rng.standard_normal(n), 3: (1 + lag) * np.exp(-lag)}[kind] * 2
        k[0] = abs(k[0]) + 1 / 64
        trace.append(dict(kind="psd", id=i, k=[q(x) for x in k], zero=zero, dt=dt, cos=tab(2 * (n + zero) - 2, "cos")))
    hs = {}
    for i in range(check.pick(40, 200)):
        n = int(rng.integers(2, 14)) if i % 3 else int(rng.integers(2, 40))
        h = rng.standard_normal(n) * np.exp(-np.arange(n) / 4 * (i % 2)) if i % 5 else np.eye(n)[i % n] + 0.4 * np.eye(n)[(i + 1) % n]
        spec = np.abs(np.fft.fft(h))
        if spec.min() < 1e-2 * spec.max():
            continue
        j = 1000 + i
        hs[j] = h
        trace.append(dict(kind="phase", id=j, lm=[vi.rational(float(x)) for x in np.log(spec)], sin=tab(n, "sin")))
    r = check.tlc("Spectrum", {"In": trace, "Out": ""}, spec="Spec", invariants=["Power", "Symmetric", "Odd", "Emit"])
    byid = {x["id"]: x for x in trace}
    for x in r.records:
        if x["id"] in hs:
            recs.append(dict(h=[float(v) for v in hs[x["id"]]], phase=x["res"]["phase"]))
        else:
            recs.append(dict(r={k: v for k, v in byid[x["id"]].items() if k != "cos"}, res=x["res"]))
    check.replay_all(recs)
