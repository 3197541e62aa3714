------------------------------- MODULE Curvature -------------------------------
(***************************************************************************)
(* Polynomial functions, their second derivatives, and log-densities of    *)
(* which the mode and the curvature at the mode are known.                 *)
(***************************************************************************)
EXTENDS PolyOps, RMat, FiniteSets, Json

CONSTANTS Out, Runs
RE(X) == RandomElement(X)

Diff(p, i) == LET D == {m \in DOMAIN p : m[i] > 0}
              IN TLCEval([x \in {[m EXCEPT ![i] = @ - 1] : m \in D} |->
                  LET m == [x EXCEPT ![i] = @ + 1] IN RMul(RInt(m[i]), p[m])])
Hess(nv, p, x) == TLCEval([i \in 1..nv |-> [j \in 1..nv |-> PEval(Diff(Diff(p, i), j), x)]])
Grad(nv, p, x) == TLCEval([i \in 1..nv |-> PEval(Diff(p, i), x)])

Num == {"-2","-1","-1/2","1/3","1/2","1","3/2"}
RECURSIVE RandPoly(_,_)
RandPoly(nv, k) == IF k = 0 THEN PZero
  ELSE PAdd(PMono(TLCEval([i \in 1..nv |-> RE(0..2)]), RE(Num)), RandPoly(nv, k - 1))
Tri(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RE({"1","3/2","2"}) ELSE IF i > j THEN RE(Num) ELSE "0"]])
\* The quadratic form of a matrix around a point.
RECURSIVE SumP(_)
SumP(s) == IF s = <<>> THEN PZero ELSE PAdd(Head(s), SumP(Tail(s)))
Lin(nv, v, mu) == SumP(TLCEval([i \in 1..nv |-> PScale(PSub(PVar(nv, i), PConst(nv, mu[i])), v[i])]))
Quad(nv, t, mu) == SumP(TLCEval([k \in 1..nv |-> LET l == TLCEval(Lin(nv, [i \in 1..nv |-> t[i][k]], mu)) IN PMul(l, l)]))

\* -(x - mu)' P (x - mu) / 2, and perhaps a fourth power that leaves mode and curvature alone.
RandCase(k) ==
  LET nv == TLCEval(RE(1..3)) t == TLCEval(Tri(nv)) mu == TLCEval([i \in 1..nv |-> RE(Num \cup {"0"})])
      t2 == TLCEval(Tri(nv))
      quartic == RE(1..3) = 1
      l == TLCEval(Lin(nv, TLCEval([i \in 1..nv |-> RE(Num)]), mu))
      l2 == TLCEval(PMul(l, l))
      f == TLCEval(PAdd(PScale(Quad(nv, t, mu), "-1/2"), PConst(nv, RE(Num))))
  IN [k |-> k, nv |-> nv, poly |-> TLCEval(RandPoly(nv, RE(1..5))), at |-> TLCEval([i \in 1..nv |-> RE(Num)]),
      f |-> IF quartic THEN TLCEval(PSub(f, PScale(PMul(l2, l2), "1/8"))) ELSE f, quartic |-> quartic,
      mu |-> mu, start |-> TLCEval([i \in 1..nv |-> RE(Num \cup {"4"})]),
      \* Evaluated there, but not where its own mode is.
      f2 |-> TLCEval(PAdd(PScale(Quad(nv, t2, [i \in 1..nv |-> "1/5"]), "-1/2"), PVar(nv, 1)))]

VARIABLES c, stage
Init == \E k \in 1..Runs : c = TLCEval(RandCase(k)) /\ stage = "drawn"
Hessian == Hess(c.nv, c.poly, c.at)
Precision == MScale(Hess(c.nv, c.f, c.mu), "-1")
Precision2 == MScale(Hess(c.nv, c.f2, c.mu), "-1")
Next == stage = "drawn" /\ stage' = "answered" /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, stage>>
-----------------------------------------------------------------------------
Symmetric == MSym(Hessian)
\* The second-order expansion is exact for what is quadratic; the third derivatives vanish.
Mode == Grad(c.nv, c.f, c.mu) = [i \in 1..c.nv |-> "0"] /\ MPD(Precision) /\ MPD(Precision2)
Exact == ~c.quartic => Hess(c.nv, c.f, c.at) = Hess(c.nv, c.f, c.mu)
Emit == stage = "answered" => WriteLine(ToJson([k |-> c.k, nv |-> c.nv, poly |-> PJson(c.poly), at |-> c.at, f |-> PJson(c.f), f2 |-> PJson(c.f2), mu |-> c.mu,
   start |-> c.start, quartic |-> c.quartic, value |-> PEval(c.poly, c.at), hess |-> Hessian, var |-> MInv(Precision), var2 |-> MInv(Precision2)]), Out)
=============================================================================
