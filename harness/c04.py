"""Covariances and integrals of the RGPCM: the values of RGPCMInt.tla."""
import collections
import math

import numpy as np

from common import fl

RT = 1e-6


def vec(q):
    return np.array([fl(x) for x in q])


def make(m):
    from gpcm.rgpcm import RGPCM

    a = fl(m["a"])
    return RGPCM(
        scheme="mean-field",
        noise=0.1,
        alpha=fl(m["al"]),
        alpha_t=fl(m["at"]),
        lam=fl(m["la"]),
        gamma=fl(m["ga"]),
        gamma_t=fl(m["gt"]),
        a=a,
        b=a + 2 * math.pi / fl(m["q"]),
        m_max=m["mm"],
        ms=np.array(m["ms"]),
        t_u=vec(m["u"]),
    )


def number(m, rec):
    if rec["ask"]["q"] == "K_z":
        x, y = (fl(g) for g in rec["gram"])
        return x + y * math.pi, abs(x) + abs(y)
    s = fl(m["at"]) ** rec["pw"]["at"] * fl(m["gt"]) ** rec["pw"]["gt"]
    tot, size = 0.0, 0.0
    for cr, ci, xr, xi in rec["value"]:
        c = complex(fl(cr), fl(ci)) * np.exp(complex(fl(xr), fl(xi)))
        tot += c.real
        size += abs(c)
    return s * tot, s * max(size, 1e-4 * fl(m["unit"]) ** rec["dim"])


def replay(check, case):
    from lab import dense

    m = case["model"]
    vals = {tuple(k): v for k, v in case["values"]}
    nu, nz, ns, nt = len(m["u"]), len(m["ms"]), len(m["s"]), len(m["t"])
    a = fl(m["a"])
    s, t = a + vec(m["s"]), a + vec(m["t"])
    where = f"model {m['n']}, ms {m['ms']} of M = {m['mm']}, unit {m['unit']}"

    def judge(clause, f, shape, index):
        ok, got = check.guarded(clause, f)
        if not ok:
            return
        w, tol = np.zeros(shape), np.zeros(shape)
        for i in np.ndindex(*shape):
            w[i], size = vals[(clause,) + tuple(index(*i))]
            tol[i] = 1e-8 * size
        check.close(dense(got), w, clause, RT, tol, what=f"{clause} of {where}")

    prior = make(m)
    instances = [prior(), prior]
    if m["n"] % 3 == 0:
        instances.append(prior().condition(t, np.ones(nt)))
    for x in instances:
        i_ = x
        judge("K_u", lambda: i_.compute_K_u(), (nu, nu), lambda i, j: (i + 1, j + 1, 0, 0))
        judge("K_z", lambda: i_.compute_K_z(), (nz, nz), lambda i, j: (i + 1, j + 1, 0, 0))
        if x is prior and m["n"] % 4:
            continue
        judge("i_hx", lambda: i_.compute_i_hx(s[:, None], t[None, :]), (ns, nt),
              lambda i, j: (0, 0, i + 1, j + 1))
        judge("i_hx", lambda: i_.compute_i_hx(), (), lambda: (0, 0, 0, 0))
        judge("i_hx", lambda: i_.compute_i_hx(t1=s), (ns,), lambda i: (0, 0, i + 1, 0))
        judge("i_hx", lambda: i_.compute_i_hx(t2=t), (nt,), lambda i: (0, 0, 0, i + 1))
        judge("I_ux", lambda: i_.compute_I_ux(s, t), (ns, nt, nu, nu),
              lambda i, j, k, l: (k + 1, l + 1, i + 1, j + 1))
        judge("I_ux", lambda: i_.compute_I_ux(), (nu, nu),
              lambda k, l: (k + 1, l + 1, 0, 0))
        judge("I_ux", lambda: i_.compute_I_ux(t1=s), (ns, nu, nu),
              lambda i, k, l: (k + 1, l + 1, i + 1, 0))
        judge("I_ux", lambda: i_.compute_I_ux(t2=t), (nt, nu, nu),
              lambda j, k, l: (k + 1, l + 1, 0, j + 1))
        judge("I_hz", lambda: i_.compute_I_hz(t), (nt, nz, nz),
              lambda i, k, l: (k + 1, l + 1, 0, i + 1))
        judge("I_uz", lambda: i_.compute_I_uz(t), (nt, nu, nz),
              lambda i, k, l: (k + 1, l + 1, 0, i + 1))
        # The same questions at the same number of other times: in the opposite order.
        judge("I_ux", lambda: i_.compute_I_ux(s[::-1], t[::-1]), (ns, nt, nu, nu),
              lambda i, j, k, l: (k + 1, l + 1, ns - i, nt - j))
        judge("I_hz", lambda: i_.compute_I_hz(t[::-1]), (nt, nz, nz),
              lambda i, k, l: (k + 1, l + 1, 0, nt - i))
        judge("I_uz", lambda: i_.compute_I_uz(t[::-1]), (nt, nu, nz),
              lambda i, k, l: (k + 1, l + 1, 0, nt - i))
    # The kernel of the filter: windowed and causal.
    x = np.concatenate([-vec(m["u"]), vec(m["u"]), [0.0]])
    ok, got = check.guarded("k_h", lambda: dense(prior().k_h()(x)))
    if ok:
        al, la = fl(m["al"]), fl(m["la"])
        w = np.exp(-al * (np.abs(x[:, None]) + np.abs(x)) - la * np.abs(x[:, None] - x))
        w = w * (x[:, None] >= 0) * (x >= 0)
        check.close(got, w, "k_h", RT, 1e-10, what=f"k_h() of {where}")


def resonant(check):
    """Where alpha - gamma = lambda, the closed form is a quotient of zeros, but the
    integral exists: it is the limit of those at nearby values."""
    from gpcm.rgpcm import RGPCM

    def make(la):
        return RGPCM(scheme="mean-field", noise=0.1, alpha=2.0, lam=la, gamma=1.0,
                     t_u=np.array([0.0, 0.5, 1.0]), a=-2.0, b=3.0, m_max=1)

    check.case = "alpha = 2, gamma = 1, lambda = 1"
    near = [np.asarray(make(1 + e).compute_I_ux()) for e in (1e-4, -1e-4)]
    got = make(1.0).compute_I_ux()
    check.close(got, (near[0] + near[1]) / 2, "I_ux-resonant", 1e-4, 1e-8)


def run(check):
    num = check.pick(40, 500)
    r = check.tlc(
        "RGPCMInt",
        {"Out": "", "Num": num},
        invariants=["Proper", "RealValue", "Fubini", "Symmetric", "Transposed",
                    "Stationary", "Covariant", "Tidy", "Cut", "GramForms", "Emit"],
    )
    cases = collections.OrderedDict()
    for rec in r.records:
        a = rec["ask"]
        m = rec["model"]
        c = cases.setdefault(m["n"], {"model": m, "values": []})
        c["values"].append([(a["q"], a["i"], a["j"], a["x"], a["y"]), number(m, rec)])
    check.replay_all(cases.values())
    resonant(check)
