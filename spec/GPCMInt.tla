------------------------------ MODULE GPCMInt ------------------------------
(***************************************************************************)
(* The covariances and integrals of the GPCM and the CGPCM.                *)
(*                                                                         *)
(*   k_h(s,t)   = at^2 exp(-al (s^2 + t^2) - ga (s - t)^2)                 *)
(*   k_xs(s,t)  = ot exp(-om (s - t)^2),   ot = (2 om / pi)^(1/4)          *)
(*   K_u[i,j]   = k_h(u_i, u_j)                                            *)
(*   K_z[i,j]   = int k_xs(z_i,a) k_xs(a,z_j) da                           *)
(*   i_hx(s,t)  = int k_h(s-a, t-a) da                                     *)
(*   I_ux(s,t)[i,j] = int k_h(s-a, u_i) k_h(u_j, t-a) da                   *)
(*   I_hz(t)[i,j] = int int k_h(t-a, t-b) k_xs(a,z_i) k_xs(z_j,b) da db    *)
(*   I_uz(t)[i,j] = int k_h(t-a, u_i) k_xs(a,z_j) da                       *)
(*                                                                         *)
(* where in the causal model only noise a, b up to the time contributes.   *)
(* A state is a model with one quantity at one index.  The steps integrate *)
(* out the unbounded variables in any order.                               *)
(***************************************************************************)
EXTENDS GaussOps, TLC, Json

CONSTANTS Out, Num

NV == 2                      \* The integration variables a and b.
A == PVar(NV, 1)
B == PVar(NV, 2)
K(c) == PConst(NV, c)
Sub(p, q) == PAdd(p, PNeg(q))
Sq(p) == PMul(p, p)

\* Exponents.  The scales are counted separately.
KH(m, s, t) == PNeg(PAdd(PScale(PAdd(Sq(s), Sq(t)), m.al), PScale(Sq(Sub(s,t)), m.ga)))
KX(m, s, t) == PScale(Sq(Sub(s,t)), RNeg(m.om))

RE(X) == RandomElement(X)
Pts == {"-3/2","-1","-3/4","-1/4","0","1/8","1/2","1","5/4","7/4"}
RECURSIVE RandSeq(_,_)
\* A sequence of n different points in any order.
RandSeq(S, n) == IF n = 0 THEN <<>> ELSE LET x == RE(S) IN <<x>> \o RandSeq(S \ {x}, n-1)
\* Time is measured in some unit.
Units == {"1", "1/64", "1/16384", "1/1048576", "512", "65536"}
By(q, c) == [i \in DOMAIN q |-> RMul(q[i], c)]
InUnits(m, c) == [m EXCEPT !.unit = RMul(@, c), !.al = RDiv(@, RSq(c)), !.ga = RDiv(@, RSq(c)),
                          !.om = RDiv(@, RSq(c)), !.u = By(@, c), !.z = By(@, c), !.s = By(@, c),
                          !.t = By(@, c)]
RandModel(n) == InUnits(
  [n |-> n, unit |-> "1", causal |-> (n % 2 = 0),
   al |-> RE({"1/4","1/2","1","2","3"}), ga |-> RE({"1/8","1/2","1","5/2"}),
   om |-> RE({"1/2","1","4"}), at |-> RE({"1","1/2","3/2","2"}),
   u |-> RandSeq(Pts, RE({2,3})), z |-> RandSeq(Pts, RE({2,3})),
   s |-> RandSeq(Pts, RE({1,2})), t |-> RandSeq(Pts, RE({2,3}))],
  IF n % 4 \in {0,3} THEN "1" ELSE RE(Units))

\* What is asked for: a quantity and its indices; index 0 of a time is the default, zero.
T0(q, i) == IF i = 0 THEN "0" ELSE q[i]
Asks(m) ==
  LET U == DOMAIN m.u Z == DOMAIN m.z S == DOMAIN m.s T == DOMAIN m.t
      Q == [q : {"K_u"}, i : U, j : U, x : {0}, y : {0}]
           \cup [q : {"K_z"}, i : Z, j : Z, x : {0}, y : {0}]
           \cup [q : {"i_hx"}, i : {0}, j : {0}, x : S \cup {0}, y : T \cup {0}]
           \cup [q : {"I_ux"}, i : U, j : U, x : S \cup {0}, y : T \cup {0}]
           \cup [q : {"I_hz"}, i : Z, j : Z, x : {0}, y : T]
           \cup [q : {"I_uz"}, i : U, j : Z, x : {0}, y : T]
  IN Q

\* Exponent, powers of at and ot, integration variables and the time up to which these run.
Integrand(m, r) ==
  LET s == T0(m.s, r.x) t == T0(m.t, r.y)
      mn == IF RLt(s, t) THEN s ELSE t
      u(i) == K(m.u[i]) z(i) == K(m.z[i])
      a(v) == Sub(K(v), A) b(v) == Sub(K(v), B)
  IN CASE r.q = "K_u"  -> [e |-> KH(m, u(r.i), u(r.j)), at |-> 2, ot |-> 0, S |-> {}, up |-> "inf"]
       [] r.q = "K_z"  -> [e |-> PAdd(KX(m, z(r.i), A), KX(m, A, z(r.j))), at |-> 0, ot |-> 2,
                           S |-> {1}, up |-> "inf"]
       [] r.q = "i_hx" -> [e |-> KH(m, a(s), a(t)), at |-> 2, ot |-> 0, S |-> {1}, up |-> mn]
       [] r.q = "I_ux" -> [e |-> PAdd(KH(m, a(s), u(r.i)), KH(m, u(r.j), a(t))), at |-> 4, ot |-> 0,
                           S |-> {1}, up |-> mn]
       [] r.q = "I_hz" -> [e |-> PAdd(KH(m, a(t), b(t)), PAdd(KX(m, A, z(r.i)), KX(m, z(r.j), B))),
                           at |-> 2, ot |-> 2, S |-> {1,2}, up |-> t]
       [] r.q = "I_uz" -> [e |-> PAdd(KH(m, a(t), u(r.i)), KX(m, A, z(r.j))), at |-> 2, ot |-> 1,
                           S |-> {1}, up |-> t]

VARIABLES model, ask, g, left
vars == <<model, ask, g, left>>

Bounded(m, r) == m.causal /\ r.q # "K_z"      \* The past only.

Init == /\ \E n \in 1..Num : model = RandModel(n)
        /\ ask = [q |-> "none"] /\ g = <<>> /\ left = {}

Ask(r) == /\ ask.q = "none"
          /\ ask' = r
          /\ LET w == Integrand(model, r)
             IN g' = GForm(NV, w.e, w.S) /\ left' = IF Bounded(model, r) THEN {} ELSE w.S
          /\ UNCHANGED model
Integrate(v) == /\ v \in left
                /\ g' = GMarg(g, v) /\ left' = left \ {v} /\ UNCHANGED <<model, ask>>
Next == (\E r \in Asks(model) : Ask(r)) \/ \E v \in 1..NV : Integrate(v)

Done == ask.q # "none" /\ left = {}
Order(S) == IF S = {} THEN <<>> ELSE IF S = {1} THEN <<1>> ELSE <<1,2>>
Value(m, r, f) ==
  LET w == Integrand(m, r)
      o == Order(f.S)
      ub == [i \in DOMAIN o |-> w.up]
      v == GBox(f, o, [i \in DOMAIN o |-> "inf"], ub)
  IN [k |-> v.k, det |-> v.det, expo |-> v.expo, v |-> v.v, cov |-> v.cov,
      lo |-> v.lo, hi |-> v.hi, at |-> w.at, ot |-> w.ot]
Full(m, r) == LET w == Integrand(m, r)
                  f == GForm(NV, w.e, w.S)
              IN Value(m, r, IF Bounded(m, r) THEN f ELSE GMargSet(f, w.S))

----------------------------------------------------------------------------
\* The integrand decays in the variables that are integrated.
Proper == ask.q # "none" => \A v \in g.S : RLt("0", g.A[v][v])
\* Fubini.
OrderFree == Done => Value(model, ask, g) = Full(model, ask)
\* The quantities have the symmetries of covariances.
Swap(r) == [r EXCEPT !.i = r.j, !.j = r.i]
Symmetric == Done =>
  /\ ask.q \in {"K_u", "K_z"} => Full(model, ask) = Full(model, Swap(ask))
  /\ ask.q = "I_hz" /\ ~model.causal => Full(model, ask) = Full(model, Swap(ask))
\* Cauchy-Schwarz for the covariances.
CauchySchwarz == (Done /\ ask.q \in {"K_u","K_z"}) =>
  LET d(i) == Full(model, [ask EXCEPT !.i = i, !.j = i])
      e == Full(model, ask)
  IN RLe(RMul("2", e.expo), RAdd(d(ask.i).expo, d(ask.j).expo))
\* The prior on the function is stationary: moving all times and all noise moves nothing.
Move(q, c) == [i \in DOMAIN q |-> RAdd(q[i], c)]
Moved(m, c) == [m EXCEPT !.s = Move(m.s, c), !.t = Move(m.t, c), !.z = Move(m.z, c)]
Stationary == (Done /\ (ask.q \in {"i_hx","I_ux"} => ask.x # 0 /\ ask.y # 0)) =>
  LET v == Full(model, ask) w == Full(Moved(model, RMul("3/4", model.unit)), ask)
  IN v = w
\* In the causal model only the past contributes: the kernel at equal times is the one of
\* the acausal model integrated up to zero, so half of it.
HalfPower == (Done /\ model.causal /\ ask.q = "i_hx" /\ ask.x = 0 /\ ask.y = 0) =>
  Value(model, ask, g).hi = <<"0">>

\* Changing the unit of time changes the value by its power and nothing else.
Covariant == Done =>
  LET v == Full(model, ask) w == Full(InUnits(model, "5/3"), ask)
  IN /\ w.k = v.k /\ w.expo = v.expo /\ w.det = RDiv(v.det, RPow("25/9", v.k))
     /\ w.hi = [i \in DOMAIN v.hi |-> IF v.hi[i] = "inf" THEN "inf" ELSE RMul("5/3", v.hi[i])]

\* In its own unit, a model has the values it was drawn from.
Tidy == RMul(model.al, RSq(model.unit)) \in {"1/4","1/2","1","2","3"}
        /\ \A i \in DOMAIN model.t : RDiv(model.t[i], model.unit) \in Pts

Emit == Done =>
  WriteLine(ToJson([model |-> model, ask |-> ask, value |-> Value(model, ask, g)]), Out)
=============================================================================
