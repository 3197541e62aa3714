------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* How the constructors resolve their arguments.  A configuration gives    *)
(* some arguments; every rule resolves one quantity from others that are   *)
(* resolved already.  The rules fire in any order.                         *)
(*                                                                         *)
(* A value is a sequence of terms <<c, r, k>>, for c r^(1/4) pi^(k/4), to  *)
(* be summed; numbers of points are integers.                              *)
(***************************************************************************)
EXTENDS BigRat, FiniteSets, TLC, Json

CONSTANTS Out, Per      \* Random values per combination of given arguments.

RE(X) == RandomElement(X)
None == "none"        \* no rational
NoInt == 0             \* no integer
NoSeq == <<>>          \* no sequence
Mono(c, r, k) == << <<c, r, k>> >>
Rat(c) == Mono(c, "1", 0)
\* The value of a rational multiple of a power of pi to a quarter power, for one term, r = 1.
Root4(v) == Mono("1", v[1][1], v[1][3] \div 4)          \* k must be a multiple of 4
Root2(v) == Mono("1", RMul(v[1][1], v[1][1]), v[1][3] \div 2)
Inv(v) == Mono(RDiv("1", v[1][1]), "1", -(v[1][3]))
Scale(v, c) == [i \in DOMAIN v |-> <<RMul(c, v[i][1]), v[i][2], v[i][3]>>]
MulPi(v, n) == [i \in DOMAIN v |-> <<v[i][1], v[i][2], v[i][3] + 4 * n>>]
Plus(v, w) == v \o w
IsRat(v) == \A i \in DOMAIN v : v[i][2] = "1" /\ v[i][3] = 0
ToRat(v) == RSumSeq([i \in DOMAIN v |-> v[i][1]])

PiLo == "314159265358979323846/100000000000000000000"
PiHi == "314159265358979323847/100000000000000000000"
\* Values of the form x + y pi, with x and y rational, are compared exactly.
LinBound(v, hi) == RSumSeq([i \in DOMAIN v |->
   IF v[i][3] = 0 THEN v[i][1]
   ELSE RMul(v[i][1], IF (RSign(v[i][1]) > 0) = hi THEN PiHi ELSE PiLo)])
Lo(v) == LinBound(v, FALSE)
Hi(v) == LinBound(v, TRUE)
LinCeil(v) == RCeil(Hi(v))
LinLt(v, w) == RLt(Hi(v), Lo(w))
\* Smallest integer that is not below (x4)^(1/4), for x4 = c pi^(k/4) with a multiple of 4 as k.
P4(x) == RMul(RMul(x, x), RMul(x, x))
PiPow(k, p) == RPow(p, k)
RECURSIVE CeilFrom(_,_)
CeilFrom(n, x4) == IF RLe(x4, P4(RInt(n))) THEN n ELSE CeilFrom(n + 1, x4)

----------------------------------------------------------------------------
(* Configurations. *)
Bit(n, i) == (n \div (2^i)) % 2 = 1
Ws == {"1/2", "1", "2", "3/4", "5/8", "3"}
\* Scales relative to the window, so that 4 window / scale is and is not an integer.
Ss == {"1/2", "1/4", "1/8", "3/8", "5/16", "1", "5/64", "1/100"}
Ts == { <<"0","1/2","2">>, <<"-3/2","5/4","-1/4","1">>, <<"1","9/4","25/8">>, <<"-4","-1/2">>,
        <<"3","1","0">> }
RECURSIVE SortS(_)
SortS(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : RLe(x,y)
                                     IN <<x>> \o SortS(S \ {x})
RECURSIVE RandSub(_,_)
RandSub(S, n) == IF n = 0 THEN {} ELSE LET x == RE(S) IN {x} \cup RandSub(S \ {x}, n-1)

RECURSIVE RandSeq(_,_)
RandSeq(S, n) == IF n = 0 THEN <<>> ELSE LET x == RE(S) IN <<x>> \o RandSeq(S \ {x}, n-1)

\* Which arguments are given: bits of mask.
GConfig(mask, rep) ==
  LET w == RE(Ws) s == RMul(w, RE(Ss))
      tu == SortS(RandSub({"-1","-1/2","-1/8","0","1/4","1","3/2"}, RE(2..4)))
      tz == SortS(RandSub({"-2","-1","-1/3","0","1/2","1","9/4"}, RE(2..4)))
      giv(i, v) == IF Bit(mask, i) THEN v ELSE None
      gin(i, v) == IF Bit(mask, i) THEN v ELSE NoInt
      nu == RE({2, 3, 4, 7, 10})
      nz == RE({2, 3, 6, 9})
  IN [class |-> RE({"GPCM", "CGPCM"}), mask |-> mask, rep |-> rep,
      causal |-> IF Bit(mask, 8) THEN RE({"yes", "no"}) ELSE None,
      window |-> w, scale |-> s, t |-> RE(Ts),
      alpha |-> giv(0, RE({"1/2","1","3","1/4"})), alpha_t |-> giv(1, RE({"1","1/2","3"})),
      gamma |-> giv(2, RE({"1","1/3","2"})), omega |-> giv(3, RE({"1","5/2","6"})),
      n_u |-> gin(4, nu), t_u |-> IF Bit(mask, 5) /\ ~Bit(mask, 4) THEN tu ELSE NoSeq,
      n_z |-> gin(6, nz), t_z |-> IF Bit(mask, 7) /\ ~Bit(mask, 6) THEN tz ELSE NoSeq,
      extend |-> RE({TRUE, FALSE}) /\ ~(Bit(mask, 7) /\ ~Bit(mask, 6)),
      cap_u |-> RE({0, 6, 9, 12, 40}), cap_z |-> RE({0, 3, 5, 20}),
      noise |-> RE({None, "1/8", "1/100"}), fix |-> RE({0,1,2,3,4,5,6,7})]
RConfig(mask, rep) ==
  LET w == RE(Ws) s == RMul(w, RE(Ss))
      tu == SortS(RandSub({"1/8","0","1/4","1","3/2","7/8"}, RE(2..4)))
      mm == RE({1, 2, 5})
      giv(i, v) == IF Bit(mask, i) THEN v ELSE None
      gin(i, v) == IF Bit(mask, i) THEN v ELSE NoInt
  IN [class |-> "RGPCM", mask |-> mask, rep |-> rep, window |-> w, scale |-> s, t |-> RE(Ts),
      alpha |-> giv(0, RE({"1/2","1","3","1/4"})), alpha_t |-> giv(1, RE({"1","1/2","3"})),
      gamma |-> giv(2, RE({"1/8","1/3","2"})), gamma_t |-> giv(3, RE({"1","3/2"})),
      lam |-> giv(4, RE({"1","7/2"})), n_u |-> gin(5, RE({2,3,6,9,40})),
      t_u |-> IF Bit(mask, 6) /\ ~Bit(mask, 5) THEN tu ELSE NoSeq,
      ab |-> IF Bit(mask, 7) THEN RE({"a", "b", "ab"}) ELSE None,
      m_max |-> gin(8, mm),
      n_z |-> gin(9, RE({2, 3, 6, 7})),
      ms |-> IF Bit(mask, 8) /\ RE({TRUE,FALSE}) THEN RandSeq(0..2, 3) ELSE NoSeq,
      cap_u |-> RE({0, 6, 9}), cap_m |-> RE({0, 3, 10}),
      noise |-> RE({None, "1/8"}), fix |-> RE({0,1,2,3,4,5,6,7})]

TMin(c) == SortS({c.t[i] : i \in DOMAIN c.t})[1]
TMax(c) == LET q == SortS({c.t[i] : i \in DOMAIN c.t}) IN q[Len(q)]
IsC(c) == c.class # "RGPCM"
Causal(c) == IF c.causal = None THEN c.class = "CGPCM" ELSE c.causal = "yes"
Cap(x, d) == IF x = NoInt THEN d ELSE x

----------------------------------------------------------------------------
(* The rules. *)
Names(c) == IF IsC(c)
  THEN {"alpha","alpha_t","gamma","extent","reach","num_u","t_u","num_z","spacing","extra","t_z",
        "omega","omega_t"}
  ELSE {"alpha","alpha_t","lam","extent","reach","num_u","t_u","a","b","m_max","ms","gamma","gamma_t"}

Deps(c, x) ==
  IF IsC(c) THEN
    CASE x \in {"alpha"} -> {}
      [] x \in {"alpha_t", "gamma", "extent", "reach"} -> {"alpha"}
      [] x = "num_u" -> {}
      [] x = "t_u" -> {"reach", "num_u"}
      [] x = "num_z" -> {}
      [] x = "spacing" -> {"num_z"}
      [] x = "extra" -> {"spacing", "reach"}
      [] x = "t_z" -> {"spacing", "num_z", "extra"}
      [] x = "omega" -> {"spacing"}
      [] x = "omega_t" -> {"omega"}
  ELSE
    CASE x = "alpha" -> {}
      [] x \in {"alpha_t", "extent", "reach"} -> {"alpha"}
      [] x = "lam" -> {}
      [] x = "num_u" -> {}
      [] x = "t_u" -> {"reach", "num_u"}
      [] x = "a" -> {"t_u"}
      [] x = "b" -> {}
      [] x = "m_max" -> {"a", "b"}
      [] x = "ms" -> {"m_max"}
      [] x = "gamma" -> {"alpha", "t_u"}
      [] x = "gamma_t" -> {"gamma"}

\* Two inducing points per wiggle of the filter, on both sides or over twice the range.
AutoNumU(c) == RCeil(RDiv(RMul("4", c.window), c.scale))
NumU(c) == IF c.n_u # NoInt THEN c.n_u
           ELSE IF AutoNumU(c) > Cap(c.cap_u, 300) THEN Cap(c.cap_u, 300) ELSE AutoNumU(c)
WarnU(c) == c.t_u = NoSeq /\ c.n_u = NoInt /\ AutoNumU(c) > Cap(c.cap_u, 300)
AutoNumZ(c) == RCeil(RDiv(RMul("2", RSub(TMax(c), TMin(c))), c.scale))
NumZ(c) == IF c.n_z # NoInt THEN c.n_z
           ELSE IF AutoNumZ(c) > Cap(c.cap_z, 300) THEN Cap(c.cap_z, 300) ELSE AutoNumZ(c)
WarnZ(c) == c.t_z = NoSeq /\ c.n_z = NoInt /\ AutoNumZ(c) > Cap(c.cap_z, 300)

\* The length scale of exp(-alpha t^2): sqrt(pi / (4 alpha)).
FactorToScale(al) == Root2(Scale(MulPi(Inv(al), 1), "1/4"))
ScaleToFactor(s) == Mono(RDiv("1/4", RMul(s, s)), "1", 4)
Grid(d, lo, hi) == [i \in 1..(hi - lo + 1) |-> Scale(d, RInt(lo + i - 1))]

GRes(c, f, x) ==
  CASE x = "alpha" -> IF c.alpha # None THEN Rat(c.alpha) ELSE ScaleToFactor(c.window)
    \* Unity power: int k_h(p, p) dp = 1.
    [] x = "alpha_t" -> IF c.alpha_t # None THEN Rat(c.alpha_t)
                        ELSE Root4(Scale(MulPi(f.alpha, -1), IF Causal(c) THEN "8" ELSE "2"))
    [] x = "gamma" -> IF c.gamma # None THEN Rat(c.gamma)
                      ELSE Plus(ScaleToFactor(c.scale), Scale(f.alpha, "-1/2"))
    [] x = "extent" -> Scale(FactorToScale(f.alpha), "4")
    [] x = "reach" -> Scale(FactorToScale(f.alpha), "2")
    [] x = "num_u" -> IF c.t_u # NoSeq THEN Len(c.t_u) ELSE NumU(c)
    [] x = "t_u" ->
         IF c.t_u # NoSeq THEN [i \in DOMAIN c.t_u |-> Rat(c.t_u[i])]
         ELSE IF Causal(c)
         \* From zero to the reach, and two more before zero.
         THEN Grid(Scale(f.reach, RFrac(1, f.num_u - 1)), -2, f.num_u - 1)
         \* An odd number, symmetric.
         ELSE LET h == f.num_u \div 2 IN Grid(Scale(f.reach, RFrac(1, h)), -h, h)
    [] x = "num_z" -> IF c.t_z # NoSeq THEN Len(c.t_z) ELSE NumZ(c)
    [] x = "spacing" -> IF c.t_z # NoSeq THEN RSub(c.t_z[2], c.t_z[1])
                        ELSE RDiv(RSub(TMax(c), TMin(c)), RInt(f.num_z - 1))
    \* Enough points at the same spacing to cover the reach of the filter.
    [] x = "extra" -> IF ~c.extend THEN 0
                      ELSE LET v == f.reach[1]
                               c4 == RMul(P4(RDiv(v[1], f.spacing)), v[2])
                           IN CeilFrom(0, RMul(c4, PiPow(v[3], PiHi)))
    [] x = "t_z" -> IF c.t_z # NoSeq THEN [i \in DOMAIN c.t_z |-> Rat(c.t_z[i])]
                    ELSE [i \in 1..(f.num_z + f.extra + IF Causal(c) THEN 0 ELSE f.extra) |->
                           Rat(RAdd(TMin(c), RMul(RInt(i - 1 - f.extra), f.spacing)))]
    [] x = "omega" -> IF c.omega # None THEN Rat(c.omega)
                      ELSE ScaleToFactor(RDiv(f.spacing, "2"))
    [] x = "omega_t" -> Root4(Scale(MulPi(f.omega, -1), "2"))

MaxU(f) == f.t_u[Len(f.t_u)]
AutoM(c, f) == LinCeil(Scale(Plus(f.b, Scale(f.a, "-1")), RDiv("1", c.scale)))
WarnM(c, f) == c.m_max = NoInt /\ c.n_z = NoInt /\ AutoM(c, f) > Cap(c.cap_m, 150)
GammaMax(f) == Scale(f.alpha, "2/3")
RRes(c, f, x) ==
  CASE x = "alpha" -> IF c.alpha # None THEN Rat(c.alpha) ELSE Rat(RDiv("1", c.window))
    [] x = "alpha_t" -> IF c.alpha_t # None THEN Rat(c.alpha_t) ELSE Root2(Scale(f.alpha, "2"))
    [] x = "lam" -> IF c.lam # None THEN Rat(c.lam) ELSE Rat(RDiv("1", c.scale))
    [] x = "extent" -> Scale(Inv(f.alpha), "4")
    [] x = "reach" -> MulPi(Inv(f.alpha), 1)
    [] x = "num_u" -> IF c.t_u # NoSeq THEN Len(c.t_u) ELSE NumU(c)
    [] x = "t_u" -> IF c.t_u # NoSeq THEN [i \in DOMAIN c.t_u |-> Rat(c.t_u[i])]
                    ELSE Grid(Scale(f.reach, RFrac(1, f.num_u - 1)), 0, f.num_u - 1)
    [] x = "a" -> IF c.ab \in {"a", "ab"} THEN Rat("-20") ELSE Plus(Rat(TMin(c)), Scale(MaxU(f), "-1"))
    [] x = "b" -> IF c.ab \in {"b", "ab"} THEN Rat("15") ELSE Rat(TMax(c))
    [] x = "m_max" -> IF c.m_max # NoInt THEN c.m_max
                      ELSE IF c.n_z # NoInt THEN (c.n_z + 1) \div 2
                      ELSE IF AutoM(c, f) > Cap(c.cap_m, 150) THEN Cap(c.cap_m, 150)
                      ELSE AutoM(c, f)
    [] x = "ms" -> IF c.ms # NoSeq THEN c.ms
                   ELSE [i \in 1..(2 * f.m_max + 1) |-> i - 1]
    [] x = "gamma" ->
         LET g == IF c.gamma # None THEN Rat(c.gamma)
                  ELSE Scale(Inv(Plus(f.t_u[2], IF f.t_u[1][1][1] = "0" THEN <<>>
                                      ELSE Scale(f.t_u[1], "-1"))), "1/2")
             \* For two terms the difference is rational.
             d == IF c.gamma = None /\ c.t_u # NoSeq
                  THEN Rat(RDiv("1/2", RSub(c.t_u[2], c.t_u[1]))) ELSE g
             \* Compare via multiples of 1/pi: the inverse of pi is between the inverses.
             below == IF IsRat(d) THEN RLt(ToRat(d), ToRat(GammaMax(f)))
                      ELSE RLt(RDiv(d[1][1], PiLo), ToRat(GammaMax(f)))
         IN IF below THEN d ELSE GammaMax(f)
    [] x = "gamma_t" -> IF c.gamma_t # None THEN Rat(c.gamma_t)
                        ELSE Root2(Scale(f.gamma, "2"))

Res(c, f, x) == IF IsC(c) THEN GRes(c, f, x) ELSE RRes(c, f, x)

VARIABLES cfg, f
vars == <<cfg, f>>

Init == /\ \E rep \in 1..Per :
             \/ \E mask \in 0..511 : cfg = GConfig(mask, rep)
             \/ \E mask \in 0..1023 : cfg = RConfig(mask, rep)
        /\ f = [x \in {} |-> 0]

\* Inputs for which the documentation says what happens.
Valid(c) ==
  IF IsC(c)
  THEN /\ c.gamma = None =>
              RLt("0", Lo(Plus(ScaleToFactor(c.scale),
                               Scale(IF c.alpha # None THEN Rat(c.alpha) ELSE ScaleToFactor(c.window), "-1/2"))))
       /\ (c.t_u # NoSeq \/ NumU(c) >= 2) /\ (c.t_z # NoSeq \/ NumZ(c) >= 2)
  ELSE c.t_u # NoSeq \/ NumU(c) >= 2

Resolve(x) == /\ x \in Names(cfg) \ DOMAIN f
              /\ Deps(cfg, x) \subseteq DOMAIN f
              /\ f' = [y \in DOMAIN f \cup {x} |-> IF y = x THEN Res(cfg, f, x) ELSE f[y]]
              /\ UNCHANGED cfg
\* Checking every order of all rules of every configuration adds nothing but time: the first
\* enabled rule fires, except for a tenth of the configurations.
RuleOrder == IF IsC(cfg)
  THEN <<"alpha","alpha_t","gamma","extent","reach","num_u","t_u","num_z","spacing","extra","t_z","omega","omega_t">>
  ELSE <<"alpha","alpha_t","lam","extent","reach","num_u","t_u","a","b","m_max","ms","gamma","gamma_t">>
Ordered(x) == \E i \in DOMAIN RuleOrder :
                RuleOrder[i] = x /\ \A j \in 1..(i-1) : RuleOrder[j] \in DOMAIN f
Next == Valid(cfg) /\ \E x \in Names(cfg) : (cfg.mask % 64 # 5 => Ordered(x)) /\ Resolve(x)

Done == DOMAIN f = Names(cfg)
----------------------------------------------------------------------------
Progress == Valid(cfg) => (Done \/ ENABLED Next)
RECURSIVE RunFrom(_,_,_)
RunFrom(c, g, q) == IF q = <<>> THEN g
  ELSE RunFrom(c, [y \in DOMAIN g \cup {Head(q)} |-> IF y = Head(q) THEN Res(c, g, Head(q)) ELSE g[y]], Tail(q))
Confluent == (Done /\ cfg.mask % 64 = 5) => f = RunFrom(cfg, [x \in {} |-> 0], RuleOrder)

\* Fourth power of one term.
Q4(v) == <<RMul(P4(v[1][1]), v[1][2]), v[1][3]>>
UnityPower == Done =>
  IF IsC(cfg)
  THEN /\ cfg.alpha_t = None =>   \* at^4 pi / (2 al) = 1, or 4 if only half of it counts
            LET p == Q4(f.alpha_t)
            IN /\ RDiv(p[1], RMul("2", f.alpha[1][1])) = (IF Causal(cfg) THEN "4" ELSE "1")
               /\ p[2] = (f.alpha[1][3] \div 4) - 1
       /\ LET p == Q4(f.omega_t) IN /\ RDiv(p[1], RMul("2", f.omega[1][1])) = "1"
                                   /\ p[2] = (f.omega[1][3] \div 4) - 1
  ELSE /\ cfg.alpha_t = None => Q4(f.alpha_t)[1] = RSq(RMul("2", f.alpha[1][1]))
       /\ cfg.gamma_t = None => Q4(f.gamma_t)[1] = RSq(RMul("2", f.gamma[1][1]))
\* Automatic inducing points reach the documented extent, and start at it or at zero.
Covers == (Done /\ cfg.t_u = NoSeq) =>
  /\ f.t_u[Len(f.t_u)] = f.reach
  /\ IF ~IsC(cfg) THEN f.t_u[1] = Scale(f.reach, "0")
     ELSE IF Causal(cfg) THEN f.t_u[3] = Scale(f.reach, "0") /\ Len(f.t_u) = f.num_u + 2
     ELSE f.t_u[1] = Scale(f.reach, "-1") /\ Len(f.t_u) % 2 = 1
\* The decay of the inter-domain transform is below that of the window.
BelowWindow == (Done /\ ~IsC(cfg)) =>
  \/ f.gamma = GammaMax(f)
  \/ RLt(IF IsRat(f.gamma) THEN ToRat(f.gamma) ELSE RDiv(f.gamma[1][1], PiLo), ToRat(GammaMax(f)))
\* Extension covers the reach.
Extended == (Done /\ IsC(cfg) /\ cfg.extend) =>
  LET v == f.reach[1] IN
  RLe(RMul(RMul(P4(v[1]), v[2]), PiPow(v[3], PiLo)), P4(RMul(RInt(f.extra), f.spacing)))

\* Rounding does not decide: a ceiling of something irrational is not within rounding of an integer.
Tame == IsC(cfg) /\ cfg.extend =>
  LET v == f.reach[1]
      x4 == RMul(RMul(P4(RDiv(v[1], f.spacing)), v[2]), PiPow(v[3], PiLo))
  IN /\ RLt(RMul(x4, "1001/1000"), P4(RInt(f.extra)))
     /\ RLt(P4(RInt(f.extra - 1)), RMul(x4, "999/1000"))
Warnings == IF IsC(cfg) THEN {x \in {"u", "z"} : (x = "u" /\ WarnU(cfg)) \/ (x = "z" /\ WarnZ(cfg))}
            ELSE {x \in {"u", "m"} : (x = "u" /\ WarnU(cfg)) \/ (x = "m" /\ WarnM(cfg, f))}
Emit == (Done /\ Tame) =>
  WriteLine(ToJson([cfg |-> cfg, f |-> f, causal |-> IF IsC(cfg) THEN Causal(cfg) ELSE FALSE,
                             warn |-> Warnings]), Out)
=============================================================================
