------------------------------ MODULE GaussInt ------------------------------
(***************************************************************************)
(* Integration of exponentiated quadratics.  A case is an integrand, the   *)
(* variables to integrate in some order with their limits, and a grid of   *)
(* values for the other variables.  The steps integrate the unbounded      *)
(* variables one by one in any order; every order must arrive at the same  *)
(* value.  The final states are evaluated by the implementation.           *)
(* Everything is measured in some unit: a change of unit multiplies the    *)
(* value by its power and changes nothing else.                            *)
(***************************************************************************)
EXTENDS GaussOps, TLC, Json

CONSTANTS Out, Num

NV == 5                       \* x, y, z, s, t
IVars == {1,2,3}
Weights == {"1/4", "1/2", "1", "3/2"}
Steep == {"1/4", "1/2", "1", "3/2", "20", "100"}   \* Nearly degenerate in other directions.
Forms == {f \in [1..NV -> -1..1] : \E i \in IVars : f[i] # 0}
Lins == [1..NV -> -1..1]
Pre == {"1", "2", "-1", "1/2", "-3/4"}
Grid == << <<"-1/2","0">>, <<"-1/2","3/4">>, <<"1","0">>, <<"1","3/4">> >>
XVals == <<"1/2", "-1/4", "1">>  \* values of x, y, z where these are not integrated

PLin(f) == FoldSet(LAMBDA i, acc : PAdd(PMono(MUnit(NV,i,1), RInt(f[i])), acc),
                   PZero, 1..NV)
S == PVar(NV,4)
T == PVar(NV,5)
K(c) == PConst(NV,c)
Limits == {K("-1"), K("0"), K("1/2"), K("2"), K("-3/2"), S, T, PNeg(S),
           PAdd(S, K("1")), PSub(T, S), PAdd(PScale(T,"2"), K("-1/2")), PMul(S,T)}

Orders1 == {<<i>> : i \in IVars}
Orders2 == {<<i,j>> : i \in IVars, j \in IVars} \ {<<i,i>> : i \in IVars}
Orders3 == {<<i,j,6-i-j>> : <<i,j>> \in Orders2}

\* The kinds of intervals: the whole line, up to a limit, from a limit, between limits.
Kinds == {"full", "upto", "from", "between"}
KindSeqs(n) == {q \in [1..n -> Kinds] : Cardinality({i \in 1..n : q[i] # "full"}) <= 2}
Apis(n, kinds) == {"box"} \cup (IF \A i \in 1..n : kinds[i] = "full" THEN {"full"} ELSE {})
                          \cup (IF n <= 2 THEN {"half"} ELSE {})

Units == {"1", "1/16", "1/4096", "1/1048576", "32", "8192", "1048576"}

RE(X) == RandomElement(X)
RandCase(n) ==
  LET o == RE(Orders1 \cup Orders2 \cup Orders3)
      kinds0 == RE(KindSeqs(Len(o)))
      api == RE(Apis(Len(o), kinds0))
      kinds == IF api = "half" THEN [i \in 1..Len(o) |-> "upto"] ELSE kinds0
      f1 == RE(Forms) f2 == RE(Forms) f3 == RE(Forms)
      q(w, f) == PScale(PMul(PLin(f), PLin(f)), RNeg(w))
      diag == FoldSet(LAMBDA i, acc : PAdd(q("1/4", [j \in 1..NV |-> IF i=j THEN 1 ELSE 0]), acc),
                      PZero, {o[i] : i \in 1..Len(o)})
      \* A dependence that is not quadratic in the parameters is allowed.
      extra == RE({PZero, PMul(S,T), PNeg(PMul(S, PMul(S,S))), PMul(PVar(NV, o[1]), PMul(S,T))})
      lin == PScale(PLin(RE(Lins)), RE({"1/2", "1", "-1/4"}))
      p == PAdd(PAdd(PAdd(q(RE(IF n % 3 = 0 THEN Steep ELSE Weights), f1), q(RE(Weights), f2)), q(RE(Weights), f3)),
                PAdd(diag, PAdd(extra, PAdd(lin, K(RE({"0", "1/2", "-1"}))))))
      c == IF n % 2 = 0 THEN "1" ELSE RE(Units)
      lims == [i \in 1..Len(o) |-> IF api = "half" THEN <<PZero, PZero>>
                                   ELSE <<PScale(PUnit(RE(Limits), c), c), PScale(PUnit(RE(Limits), c), c)>>]
  IN [n |-> n, unit |-> c, order |-> o, kinds |-> kinds, api |-> api, pre |-> RE(Pre),
      p |-> PUnit(p, c), lo |-> [i \in 1..Len(o) |-> lims[i][1]], hi |-> [i \in 1..Len(o) |-> lims[i][2]]]

VARIABLES case, gs, left
vars == <<case, gs, left>>

IV(c) == {c.order[i] : i \in 1..Len(c.order)}
FullVars(c) == {c.order[i] : i \in {j \in 1..Len(c.order) : c.kinds[j] = "full"}}
Pt(c, gp) == [i \in 1..NV |-> RMul(c.unit, IF i <= 3 THEN XVals[i] ELSE Grid[gp][i-3])]
Start(c) == [gp \in 1..Len(Grid) |-> GForm(NV, PFix(NV, c.p, IV(c), Pt(c,gp)), IV(c))]

Init == \E n \in 1..Num :
          /\ case = RandCase(n)
          /\ gs = Start(case)
          /\ left = FullVars(case)

Integrate(i) == /\ i \in left
                /\ gs' = [gp \in DOMAIN gs |-> GMarg(gs[gp], i)]
                /\ left' = left \ {i}
                /\ UNCHANGED case
Next == \E i \in IVars : Integrate(i)

BoxOrder(c) == SelectSeq(c.order, LAMBDA v : v \notin FullVars(c))
LimAt(c, l, gp) == PEval(l, Pt(c,gp))
Pos(c, v) == CHOOSE i \in 1..Len(c.order) : c.order[i] = v
Lo(c, gp) == [a \in 1..Len(BoxOrder(c)) |->
               LET i == Pos(c, BoxOrder(c)[a])
               IN IF c.kinds[i] \in {"from", "between"} THEN LimAt(c, c.lo[i], gp) ELSE "inf"]
Hi(c, gp) == [a \in 1..Len(BoxOrder(c)) |->
               LET i == Pos(c, BoxOrder(c)[a])
               IN IF c.kinds[i] \in {"upto", "between"} THEN LimAt(c, c.hi[i], gp) ELSE "inf"]
Value(c, g, gp) == GBox(g, BoxOrder(c), Lo(c,gp), Hi(c,gp))
Values == [gp \in DOMAIN gs |-> Value(case, gs[gp], gp)]

\* Strictly concave, so that the integral exists.
Concave == \A gp \in DOMAIN gs : \A i \in gs[gp].S : RLt("0", gs[gp].A[i][i])
\* The order in which variables are integrated does not matter.
Confluent == left = {} =>
  \A gp \in DOMAIN gs :
    /\ gs[gp] = GMargSet(Start(case)[gp], FullVars(case))
    \* Integrating a box of the whole line is integrating the variables.
    /\ LET g == Value(case, gs[gp], gp)
           f == GMargSet(Start(case)[gp], IV(case))
       IN g.k = f.k /\ g.det = f.det /\ g.expo = f.c

\* The value in other units.
InUnits(c, d) == [c EXCEPT !.unit = RMul(c.unit, d), !.p = PUnit(c.p, d),
                  !.lo = [i \in DOMAIN c.lo |-> PScale(PUnit(c.lo[i], d), d)],
                  !.hi = [i \in DOMAIN c.hi |-> PScale(PUnit(c.hi[i], d), d)]]
Covariant == left = {} =>
  LET d == "3/7"
      c == InUnits(case, d)
      by(x) == IF x = "inf" THEN x ELSE RMul(d, x)
  IN \A gp \in DOMAIN gs :
       LET v == Value(case, gs[gp], gp)
           w == Value(c, GMargSet(Start(c)[gp], FullVars(case)), gp)
       IN /\ w.k = v.k /\ w.expo = v.expo /\ w.det = RDiv(v.det, RPow(RMul(d,d), v.k))
          /\ w.v = [i \in DOMAIN v.v |-> RMul(v.v[i], RMul(d,d))] /\ w.cov = RMul(v.cov, RMul(d,d))
          /\ w.lo = [i \in DOMAIN v.lo |-> by(v.lo[i])] /\ w.hi = [i \in DOMAIN v.hi |-> by(v.hi[i])]

\* Variances of the remaining two variables are not nearly degenerate.
Tame == \A gp \in DOMAIN gs : LET v == Values[gp] IN
          /\ Len(v.v) = 2 => RLt(RMul(v.cov, v.cov), RMul("9999/10000", RMul(v.v[1], v.v[2])))
          /\ RLt(RAbs(v.expo), "12")

Emit == (left = {} /\ Tame) =>
  WriteLine(ToJson([n |-> case.n, unit |-> case.unit, api |-> case.api, order |-> case.order, kinds |-> case.kinds,
     pre |-> case.pre, p |-> PJson(case.p),
     lo |-> [i \in DOMAIN case.lo |-> PJson(case.lo[i])],
     hi |-> [i \in DOMAIN case.hi |-> PJson(case.hi[i])],
     values |-> Values]), Out)
=============================================================================
