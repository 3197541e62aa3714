------------------------------ MODULE FilterGP ------------------------------
(***************************************************************************)
(* The filter given the values of the inducing variables.  Times are       *)
(* multiples of a unit d.  With exp(-gamma d^2) = r and exp(-alpha d^2) = q*)
(* the kernel of the filter before the causality constraint is             *)
(*   k(i, j) = a^2 q^(i^2 + j^2) r^((i - j)^2),                            *)
(* all rational.  Values of the filter become known one at a time, then    *)
(* causality makes the filter zero at negative times: what is known at     *)
(* negative times still counts for the other times.                        *)
(***************************************************************************)
EXTENDS RMat, FiniteSets, Json

CONSTANTS Out, Grid      \* Times are -Grid..Grid.

RE(X) == RandomElement(X)
Times == (-Grid)..Grid
P == 2 * Grid + 1
At(k) == k - Grid - 1                        \* The time of the k-th point.
Ix(t) == t + Grid + 1

VARIABLES case, mean, cov, given, n
vars == <<case, mean, cov, given, n>>

K(c) == MMake(P, P, LAMBDA i, j : RMul(RSq(c.a), RMul(RPow(c.q, At(i) * At(i) + At(j) * At(j)),
                                                      RPow(c.r, (At(i) - At(j)) * (At(i) - At(j))))))
Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
Values == {"-2", "-1", "-1/3", "1/2", "1", "5/2"}

Case(k) ==
  LET size == RE(1..4)
      S == RE({s \in SUBSET Times : Cardinality(s) = size})
      a == RE({"1/2", "1", "3", "7/4"})
      q == RE({"4/5", "9/10", "7/8"})
  IN [a |-> a, q |-> q, r |-> RE({"1/2", "1/3", "3/4"}),
      d |-> RE({"1/4", "1", "3/2", "1/50"}), causal |-> RE({TRUE, TRUE, FALSE}), t_u |-> Sorted(S),
      \* Values of a size that the prior finds likely.
      u |-> TLCEval([i \in S |-> RMul(RE(Values), RMul(a, RPow(q, i * i)))]), late |-> RE({TRUE, FALSE})]

Init == case = <<>> /\ mean = <<>> /\ cov = <<>> /\ given = {} /\ n = 0
Begin == n = 0 /\ n' = 1 /\ \E c \in {Case(n)} : case' = c /\ cov' = K(c) /\ mean' = MZeros(P, 1) /\ given' = {}
\* The value at one time becomes known.
Learn == n = 1 /\ \E t \in {RE({case.t_u[i] : i \in DOMAIN case.t_u} \ given)} :
  LET k == Ix(t)
      gain(i) == RDiv(cov[i][k], cov[k][k])
      err == RSub(case.u[t], mean[k][1])
  IN /\ given' = given \cup {t}
     /\ mean' = TLCEval([i \in 1..P |-> <<RAdd(mean[i][1], RMul(gain(i), err))>>])
     /\ cov' = MMake(P, P, LAMBDA i, j : RSub(cov[i][j], RMul(gain(i), cov[k][j])))
     /\ n' = IF given' = {case.t_u[i] : i \in DOMAIN case.t_u} THEN 2 ELSE 1
     /\ UNCHANGED case
Future(i) == ~case.causal \/ At(i) >= 0
Constrain == n = 2 /\ n' = 3 /\ UNCHANGED <<case, given>>
  /\ mean' = TLCEval([i \in 1..P |-> <<IF Future(i) THEN mean[i][1] ELSE "0">>])
  /\ cov' = MMake(P, P, LAMBDA i, j : IF Future(i) /\ Future(j) THEN cov[i][j] ELSE "0")
Next == Begin \/ Learn \/ Constrain
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* All at once is the same.
Batch == n = 2 =>
  LET s == case.t_u m == Len(s)
      kuu == MMake(m, m, LAMBDA i, j : K(case)[Ix(s[i])][Ix(s[j])])
      ktu == MMake(P, m, LAMBDA i, j : K(case)[i][Ix(s[j])])
      u == TLCEval([i \in 1..m |-> <<case.u[s[i]]>>])
  IN /\ mean = MTimes(ktu, MSolve(kuu, u))
     /\ cov = MMinus(K(case), MTimes(ktu, MSolve(kuu, MT(ktu))))
Certain == n \in {1, 2} => \A t \in given : mean[Ix(t)][1] = case.u[t] /\ cov[Ix(t)][Ix(t)] = "0"
Variances == n > 0 => MSym(cov) /\ \A i \in 1..P : RSign(cov[i][i]) >= 0
\* Learning never makes anything less certain.
Learns == [][ n = 1 => \A i \in 1..P : RLe(cov'[i][i], cov[i][i]) ]_vars
Emit == n = 3 => WriteLine(ToJson([case |-> [case EXCEPT !.u = [i \in DOMAIN case.t_u |-> case.u[case.t_u[i]]]],
                                   mean |-> mean, cov |-> cov, grid |-> Grid]), Out)
=============================================================================
