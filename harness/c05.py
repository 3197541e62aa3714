"""Construction of models: the final states of Construct.tla."""
import math
import warnings

import numpy as np

from common import F, fl

RT = 1e-9


def val(v):
    return sum(
        float(F(c)) * float(F(r)) ** 0.25 * math.pi ** (k / 4) for c, r, k in v
    )


def arguments(c, flavour):
    """The arguments of the constructor. Flavours differ in types only."""
    kw = {}
    if c["class"] == "RGPCM":
        names = ["alpha", "alpha_t", "gamma", "gamma_t", "lam", "n_u", "t_u", "n_z",
                 "m_max", "ms"]
    else:
        names = ["alpha", "alpha_t", "gamma", "omega", "n_u", "t_u", "n_z", "t_z"]
    for k in names:
        v = c[k]
        if v in ("none", 0, []):
            continue
        if k in ("n_u", "n_z", "m_max"):
            kw[k] = v
        elif k == "ms":
            kw[k] = np.array(v)
        elif k in ("t_u", "t_z"):
            kw[k] = np.array([fl(x) for x in v])
        else:
            kw[k] = fl(v)
    kw["window"], kw["scale"] = fl(c["window"]), fl(c["scale"])
    t = [fl(x) for x in c["t"]]
    kw["t"] = t if flavour % 2 else np.array(t)
    if c["noise"] != "none":
        kw["noise"] = fl(c["noise"])
    if c["cap_u"]:
        kw["n_u_cap"] = c["cap_u"]
    for bit, k in enumerate(["fix_noise", "fix_window", "fix_scale"]):
        if c["fix"] >> bit & 1:
            kw[k] = True
    if c["class"] == "RGPCM":
        if c["cap_m"]:
            kw["m_max_cap"] = c["cap_m"]
        if c["ab"] in ("a", "ab"):
            kw["a"] = -20.0
        if c["ab"] in ("b", "ab"):
            kw["b"] = 15.0
        if flavour % 3 == 0:
            kw["extend_t_z"] = True  # Does nothing.
    else:
        if c["cap_z"]:
            kw["n_z_cap"] = c["cap_z"]
        if c["causal"] != "none":
            kw["causal"] = c["causal"] == "yes"
        if c["extend"]:
            kw["extend_t_z"] = True
    # Arguments that are not needed may be omitted.
    if flavour % 5 == 0:
        if "alpha" in kw and ("n_u" in kw or "t_u" in kw):
            del kw["window"]
        if "gamma" in kw and c["class"] != "RGPCM" and ("n_u" in kw or "t_u" in kw) and (
            "n_z" in kw or "t_z" in kw
        ):
            del kw["scale"]
    return kw


def replay(check, rec):
    from gpcm.gpcm import CGPCM, GPCM
    from gpcm.rgpcm import RGPCM

    c, f, n = rec["cfg"], rec["f"], rec["idx"]
    cls = {"GPCM": GPCM, "CGPCM": CGPCM, "RGPCM": RGPCM}[c["class"]]
    kw = arguments(c, n)
    scheme = ["structured", "mean-field-ca", "Mean-Field-Gradient"][n % 3]
    if n % 4:
        kw["scheme"] = scheme
    else:
        scheme = "structured"
    where = f"{c['class']} with {sorted(kw)}"
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        ok, m = check.guarded("construct", lambda: cls(**kw))
    if not ok:
        return
    said = [str(w.message) for w in ws if issubclass(w.category, UserWarning)
            and "inducing" in str(w.message)]
    check.expect(len(said) == len(rec["warn"]), "warnings",
                 f"{where}: warned {said}, expected {rec['warn']}")

    def number(name, want):
        if name == "omega_t":
            # Derived from `omega`.
            pass
        check.close(getattr(m, name, None), want, name, RT, 1e-12, what=where)

    number("noise", 5e-2 if c["noise"] == "none" else fl(c["noise"]))
    for k in ("alpha", "alpha_t", "gamma", "extent"):
        number(k, val(f[k]))
    for bit, k in enumerate(["fix_noise", "fix_window", "fix_scale"]):
        check.expect(getattr(m, k, None) == bool(c["fix"] >> bit & 1), k, where)
    check.close(m.t_u, [val(x) for x in f["t_u"]], "t_u", RT, 1e-9, what=where)
    check.expect(m.n_u == len(f["t_u"]), "n_u", f"{where}: {m.n_u}")
    if c["class"] == "RGPCM":
        number("lam", val(f["lam"]))
        number("gamma_t", val(f["gamma_t"]))
        number("a", val(f["a"]))
        number("b", val(f["b"]))
        check.expect(m.m_max == f["m_max"], "m_max", f"{where}: {m.m_max}, "
                                                    f"expected {f['m_max']}")
        check.close(m.ms, f["ms"], "ms", 0, 0, what=where)
        check.expect(m.n_z == len(f["ms"]), "n_z", f"{where}: {m.n_z}")
        keep = ["noise", "alpha", "alpha_t", "lam", "gamma", "gamma_t", "t_u", "a", "b",
                "m_max", "ms", "n_u", "n_z", "extent"]
    else:
        check.expect(bool(m.causal) == rec["causal"], "causal", where)
        check.close(m.t_z, [val(x) for x in f["t_z"]], "t_z", RT, 1e-9, what=where)
        check.expect(m.n_z == len(f["t_z"]), "n_z", f"{where}: {m.n_z}")
        number("omega", val(f["omega"]))
        number("omega_t", val(f["omega_t"]))
        keep = ["noise", "alpha", "alpha_t", "gamma", "omega", "omega_t", "t_u", "t_z",
                "n_u", "n_z", "extent"]
    check.expect(m.scheme == scheme.lower(), "scheme", f"{where}: {m.scheme}")

    # An instance keeps these values.
    if n % 7 == 0 and m.n_u < 40 and m.n_z < 80:
        ok, i = check.guarded("instance", m)
        if ok:
            for k in keep:
                check.close(getattr(i, k), np.asarray(getattr(m, k), dtype=float),
                            "instance-keeps", 1e-6, 1e-9, what=f"{k} of {where}")
                check.expect(np.all(np.isfinite(np.asarray(getattr(i, k), dtype=float))),
                             "instance-finite", f"{k} of {where}")


def refused(check):
    """Unknown schemes are refused upon instantiation; known ones are not."""
    from gpcm.gpcm import GPCM
    from gpcm.rgpcm import RGPCM

    kw = dict(window=1.0, scale=0.5, t=np.linspace(0, 2, 5))
    for cls in (GPCM, RGPCM):
        for s in ("mean_field", "ca", "", "structured "):
            m = cls(scheme=s, **kw)
            check.raises("unknown-scheme", ValueError, m)
        for s in ("structured", "mean-field", "mean-field-ca", "mean-field-gradient",
                  "mean-field-collapsed-gradient", "mean-field-ca-gradient",
                  "mean-field-ca-collapsed-gradient", "MEAN-FIELD"):
            ok, m = check.guarded("known-scheme", lambda: cls(scheme=s, **kw)())
    check.expect(GPCM.name == "GPCM", "name", GPCM.name)
    check.expect(RGPCM.name == "RGPCM", "name", RGPCM.name)


def run(check):
    r = check.tlc(
        "Construct",
        {"Out": "", "Per": check.pick(1, 12)},
        invariants=["Progress", "Confluent", "UnityPower", "Covers", "BelowWindow",
                    "Extended", "Emit"],
    )
    check.replay_all(dict(x, idx=n) for n, x in enumerate(r.records))
    check.case = "schemes"
    refused(check)
