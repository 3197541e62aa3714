"""Polynomials and exponentiated polynomials: replay of the walks of PolyWalk.tla."""
import math
import re

import numpy as np

from common import F, fl

NAMES = ["x", "y", "t1"]


def number(s, flavour):
    q = F(s)
    if flavour == 1:
        return float(q)
    if flavour == 2:
        return np.float64(q)
    if flavour == 3:
        return np.int64(q) if q.denominator == 1 else np.float64(q)
    return int(q) if q.denominator == 1 else float(q)


def build(pairs, E, flavour=0):
    """Construct an expected polynomial from its terms."""
    terms = []
    for m, c in pairs:
        fs = [E.Factor(NAMES[i], k) for i, k in enumerate(m) if k > 0]
        terms.append(E.Term(number(c, flavour), *fs))
    return E.Poly(*terms)


def apply(o, reg, ereg, E, fv):
    num = lambda s: number(s, fv)
    op = o["op"]
    if op == "var":
        return E.var(NAMES[o["v"] - 1], o["n"]) if o["n"] > 1 else E.var(
            NAMES[o["v"] - 1]
        )
    if op == "const":
        return E.const(num(o["x"]))
    if op == "zero":
        return E.Poly()
    if op == "terms":
        v, w = NAMES[o["v"] - 1], NAMES[o["w"] - 1]
        return E.Poly(
            E.Term(num(o["x"]), E.Factor(v, o["n"]), E.Factor(w)),
            E.Term(num(o["y"]), E.Factor(w, o["n"])),
        )
    if op == "sum":
        v, w = NAMES[o["v"] - 1], NAMES[o["w"] - 1]
        ts = [E.Term(num(x), E.Factor(v), E.Factor(w)) for x in o["xs"]]
        ts.insert(1, E.Term(num(o["x"]), E.Factor(w)))
        return E.Poly(*ts)
    r = ereg if op in ("emul", "emulc", "ermul", "eneg", "esubst", "etrans") else reg
    a = r[o["i"] - 1]
    if op == "emake":
        return E.ExpPoly(num(o["x"]), a)
    if op == "add":
        return a + reg[o["j"] - 1]
    if op == "sub":
        return a - reg[o["j"] - 1]
    if op == "mul":
        return a * reg[o["j"] - 1]
    if op in ("neg", "eneg"):
        return -a
    if op == "pow":
        return a ** o["n"]
    if op == "addc":
        return a + num(o["x"])
    if op == "radd":
        return num(o["x"]) + a if fv not in (2, 3) else a.__radd__(num(o["x"]))
    if op == "subc":
        return a - num(o["x"])
    if op == "rsub":
        return num(o["x"]) - a if fv not in (2, 3) else a.__rsub__(num(o["x"]))
    if op in ("mulc", "emulc"):
        return a * num(o["x"])
    if op in ("rmul", "ermul"):
        return num(o["x"]) * a if fv not in (2, 3) else a.__rmul__(num(o["x"]))
    if op == "collect":
        return a.collect_for(E.Factor(NAMES[o["v"] - 1], o["n"]))
    if op == "reject":
        return a.reject(NAMES[o["v"] - 1])
    if op in ("subst", "esubst"):
        return a.substitute(NAMES[o["v"] - 1], reg[o["j"] - 1])
    if op == "etrans":
        return a.translate_var(NAMES[o["v"] - 1], reg[o["j"] - 1])
    if op == "emul":
        return a * ereg[o["j"] - 1]
    raise KeyError(op)


def printed(p, point):
    """The value of what is printed: sums of `c * x^2 y^1`, with `exp` of these."""
    text = re.sub(r"(?<=[\w)]) +(?=[A-Za-z_])", " * ", str(p).replace("^", "**"))
    return eval(text, {"__builtins__": {}, "exp": math.exp}, dict(zip(NAMES, point)))


POINTS = [[2.0, -1.0, 1.5], [0.0, 1.0, -0.5]]


def observe(check, o, p, regs, E, where):
    """Ask everything the specification has an answer to."""
    isexp = o["op"].startswith("e")
    if isexp:
        check.expect(
            isinstance(p, E.ExpPoly), "result-type", f"{where}: {type(p).__name__}"
        )
        want = E.ExpPoly(number(o["c"], 1), build(o["poly"], E, 1))
        check.expect(p == want and want == p, "value", f"{where}: {p} != {want}")
        check.expect(
            not p == E.ExpPoly(number(o["c"], 1) + 1, want.poly),
            "equality",
            f"{where}: {p} equals another constant",
        )
        for pt, ev in zip(POINTS, (o["eval"], o["eval2"])):
            e = fl(ev)
            if abs(e) < 200:
                # Vectors of inputs are evaluated elementwise.
                arr = {n: np.array([v, v]) for n, v in zip(NAMES, pt)}
                w = fl(o["c"]) * math.exp(e)
                check.close(
                    p.eval(**arr) * np.ones(2), [w, w], "eval", 1e-9, what=where
                )
                check.close(p.eval(**dict(zip(NAMES, pt))), w, "eval", 1e-9, what=where)
                check.close(printed(p, pt), w, "printed", 1e-9, what=f"{where}: {p}")
    else:
        if not check.expect(
            isinstance(p, E.Poly), "result-type", f"{where}: {type(p).__name__}"
        ):
            return
        want = build(o["poly"], E, 1)
        check.expect(p == want and want == p, "value", f"{where}: {p} != {want}")
        # A polynomial which differs in one coefficient is not equal.
        for i in range(len(o["poly"])):
            other = [list(x) for x in o["poly"]]
            other[i][1] = str(F(other[i][1]) + 1)
            check.expect(not p == build(other, E, 1), "equality", f"{where}: {p}")
        check.expect(
            not p == want + E.var("fresh"), "equality", f"{where}: {p} equals + fresh"
        )
        for i, n in enumerate(NAMES):
            d = p.highest_power(n)
            check.expect(d == o["deg"][i], "highest-power",
                         f"{where}: power of {n} in {p} is {d}, not {o['deg'][i]}")
            d = p.is_function_of(n)
            check.expect(bool(d) == o["dep"][i], "is-function-of",
                         f"{where}: {p} of {n}: {d}")
        check.expect(p.highest_power("nope") == 0, "highest-power", f"{where}: {p}")
        check.expect(not p.is_function_of("nope"), "is-function-of", f"{where}: {p}")
        check.expect(bool(p.is_constant()) == o["const"], "is-constant", f"{where}: {p}")
        for pt, ev in zip(POINTS, (o["eval"], o["eval2"])):
            check.close(p.eval(**dict(zip(NAMES, pt))), fl(ev), "eval", 1e-9, what=where)
            check.close(printed(p, pt), fl(ev), "printed", 1e-9, what=f"{where}: {p}")
            arr = {n: np.array([v, v, v]) for n, v in zip(NAMES, pt)}
            check.close(
                p.eval(**arr) * np.ones(3), [fl(ev)] * 3, "eval", 1e-9, what=where
            )
    for j, e in enumerate(o["eqs"]):
        check.expect((regs[j] == p) == e and (p == regs[j]) == e, "equality",
                     f"{where}: {p} == {regs[j]} should be {e}")


def replay(check, case):
    from gpcm import exppoly as E

    fv = case["flavour"]
    reg = [E.var(n) for n in NAMES]
    ereg = [E.ExpPoly(E.var(n)) for n in NAMES[:2]]
    for s, o in enumerate(case["steps"]):
        where = f"step {s + 1} ({o['op']})"
        before = [str(x) for x in reg + ereg]
        good, p = check.guarded("defined", apply, o, reg, ereg, E, fv)
        if not good:
            return
        # No operation changes its operands.
        check.expect([str(x) for x in reg + ereg] == before, "operands-unchanged", where)
        r = ereg if o["op"].startswith("e") else reg
        r[o["k"] - 1] = p
        n = len(check.violations)
        good, _ = check.guarded("defined", observe, check, o, p, r, E, where)
        if not good or len(check.violations) > n:
            return


def errors(check):
    """Calls outside the domain of the specification are refused."""
    from gpcm import exppoly as E

    x = E.var("x")
    check.raises("refused", RuntimeError, lambda: x ** -1)
    check.raises("refused", ValueError, lambda: E.Factor("x", 0))
    check.raises("refused", ValueError, lambda: E.Factor("x", -1))


def run(check):
    # Every short behaviour.
    r1 = check.tlc(
        "PolyWalk",
        {"Out": "", "Depth": 1, "Random": False, "Level": 2},
        invariants=["Canonical", "RingLaws", "SubstLaw", "SplitLaw", "Emit"],
    )
    # Long random behaviours.
    depth = check.pick(16, 30)
    r2 = check.tlc(
        "PolyWalk",
        {"Out": "", "Depth": depth, "Random": True, "Level": 2},
        invariants=["Canonical", "RingLaws", "SubstLaw", "SplitLaw", "Emit"],
        simulate=check.pick(150, 2500),
        depth=depth + 2,
    )
    # The order of the variables in sets depends on the hashes of strings: every process has
    # different ones.
    check.replay_all([{"flavour": i % 4, "steps": s} for i, s in enumerate(r1.records + r2.records)])
    check.case = "errors"
    errors(check)
    check.samples.append(r2.records[0][-1])
