"""Covariances and integrals of the GPCM and the CGPCM: the values of GPCMInt.tla."""
import collections
import math

import numpy as np

from common import F, fl
from gaussval import mass, prob

RT = 1e-6


def make(m):
    from gpcm.gpcm import CGPCM, GPCM

    # Both ways to ask for a causal model.
    cls = CGPCM if m["causal"] and m["n"] % 4 == 0 else GPCM
    kw = {} if cls is CGPCM else {"causal": m["causal"]}
    return cls(
        scheme="mean-field",
        noise=0.1,
        alpha=fl(m["al"]),
        alpha_t=fl(m["at"]),
        gamma=fl(m["ga"]),
        omega=fl(m["om"]),
        t_u=vec(m["u"]),
        t_z=vec(m["z"]),
        **kw,
    )


def vec(q):
    return np.array([fl(x) for x in q])


def number(m, v):
    ot = (2 * fl(m["om"]) / math.pi) ** 0.25
    s = fl(m["at"]) ** v["at"] * ot ** v["ot"] * mass(v)
    # Second: the size relative to which rounding is measured.
    return s * prob(v), s


def replay(check, case):
    from lab import dense

    m, vals = case["model"], {tuple(k): v for k, v in case["values"]}
    nu, nz, ns, nt = (len(m[k]) for k in "uzst")
    s, t = vec(m["s"]), vec(m["t"])
    where = f"model {m['n']}{' (causal)' if m['causal'] else ''} in units of {m['unit']}"

    def ask(q, *ijxy):
        return number(m, vals[(q,) + ijxy])

    def judge(clause, f, shape, index):
        """`index` maps an index of the result to an index of the specification."""
        ok, got = check.guarded(clause, f)
        if not ok:
            return
        w = np.zeros(shape)
        tol = np.zeros(shape)
        for i in np.ndindex(*shape):
            w[i], size = index(*i)
            tol[i] = 1e-8 * size
        check.close(dense(got), w, clause, RT, tol, what=f"{clause} of {where}")

    prior = make(m)
    instances = [prior(), prior]
    if m["n"] % 3 == 0:
        instances.append(prior().condition(np.array([0.0, 0.5]), np.array([0.5, 1.0])))
    for x in instances:
        inst = x
        judge("K_u", lambda: inst.compute_K_u(), (nu, nu),
              lambda i, j: ask("K_u", i + 1, j + 1, 0, 0))
        judge("K_z", lambda: inst.compute_K_z(), (nz, nz),
              lambda i, j: ask("K_z", i + 1, j + 1, 0, 0))
        if x is prior and m["n"] % 4:
            continue
        # `i_hx`: elementwise with broadcasting and defaults.
        judge("i_hx", lambda: inst.compute_i_hx(s[:, None], t[None, :]), (ns, nt),
              lambda i, j: ask("i_hx", 0, 0, i + 1, j + 1))
        judge("i_hx", lambda: inst.compute_i_hx(), (),
              lambda: ask("i_hx", 0, 0, 0, 0))
        judge("i_hx", lambda: inst.compute_i_hx(t1=s), (ns,),
              lambda i: ask("i_hx", 0, 0, i + 1, 0))
        judge("i_hx", lambda: inst.compute_i_hx(t2=t), (nt,),
              lambda i: ask("i_hx", 0, 0, 0, i + 1))
        # `I_ux`.
        judge("I_ux", lambda: inst.compute_I_ux(s, t), (ns, nt, nu, nu),
              lambda i, j, k, l: ask("I_ux", k + 1, l + 1, i + 1, j + 1))
        judge("I_ux", lambda: inst.compute_I_ux(), (nu, nu),
              lambda k, l: ask("I_ux", k + 1, l + 1, 0, 0))
        judge("I_ux", lambda: inst.compute_I_ux(t1=s), (ns, nu, nu),
              lambda i, k, l: ask("I_ux", k + 1, l + 1, i + 1, 0))
        judge("I_ux", lambda: inst.compute_I_ux(t2=t), (nt, nu, nu),
              lambda j, k, l: ask("I_ux", k + 1, l + 1, 0, j + 1))
        judge("I_hz", lambda: inst.compute_I_hz(t), (nt, nz, nz),
              lambda i, k, l: ask("I_hz", k + 1, l + 1, 0, i + 1))
        judge("I_uz", lambda: inst.compute_I_uz(t), (nt, nu, nz),
              lambda i, k, l: ask("I_uz", k + 1, l + 1, 0, i + 1))
        # The same questions at the same number of other times: in the opposite order.
        judge("I_ux", lambda: inst.compute_I_ux(s[::-1], t[::-1]), (ns, nt, nu, nu),
              lambda i, j, k, l: ask("I_ux", k + 1, l + 1, ns - i, nt - j))
        judge("I_hz", lambda: inst.compute_I_hz(t[::-1]), (nt, nz, nz),
              lambda i, k, l: ask("I_hz", k + 1, l + 1, 0, nt - i))
        judge("I_uz", lambda: inst.compute_I_uz(t[::-1]), (nt, nu, nz),
              lambda i, k, l: ask("I_uz", k + 1, l + 1, 0, nt - i))

    # The kernel of the filter and of the transform as functions of time.
    from gpcm.exppoly import const

    u = prior()
    ok, got = check.guarded("k_h", lambda: [
        [float(u.k_h(const(a), const(b)).eval()) for b in vec(m["u"])]
        for a in vec(m["u"])])
    if ok:
        w = [[ask("K_u", i + 1, j + 1, 0, 0)[0] for j in range(nu)] for i in range(nu)]
        check.close(got, w, "k_h", RT, 1e-12, what=f"k_h(t1, t2) of {where}")
    # The kernel object has the causality constraint of the model.
    x = vec(m["u"])
    ok, got = check.guarded("k_h", lambda: dense(u.k_h()(x)))
    if ok:
        w = np.array(w)
        if m["causal"]:
            w = w * (x[:, None] >= 0) * (x[None, :] >= 0)
        check.close(got, w, "k_h", RT, 1e-10, what=f"k_h() of {where}")


def run(check):
    num = check.pick(48, 600)
    r = check.tlc(
        "GPCMInt",
        {"Out": "", "Num": num},
        invariants=["Proper", "OrderFree", "Symmetric", "CauchySchwarz", "Stationary",
                    "HalfPower", "Covariant", "Tidy", "Emit"],
    )
    cases = collections.OrderedDict()
    for rec in r.records:
        n = rec["model"]["n"]
        a = rec["ask"]
        c = cases.setdefault(n, {"model": rec["model"], "values": []})
        c["values"].append([(a["q"], a["i"], a["j"], a["x"], a["y"]), rec["value"]])
    check.replay_all(cases.values())
