------------------------------ MODULE SelfTest ------------------------------
(* The overrides of BigRat and RMat agree with the definitions in RatDef   *)
(* and RMatDef.                                                            *)
EXTENDS RMat, RMatDef, RatDef
CONSTANT N, D
Rats == {Norm(n,d) : n \in -N..N, d \in 1..D}
S(a) == IF a[2] = 1 THEN ToString(a[1]) ELSE ToString(a[1]) \o "/" \o ToString(a[2])
VARIABLES a, b
Init == a \in Rats /\ b \in Rats
Next == UNCHANGED <<a,b>>
Agree ==
  /\ RAdd(S(a),S(b)) = S(DAdd(a,b))
  /\ RSub(S(a),S(b)) = S(DSub(a,b))
  /\ RMul(S(a),S(b)) = S(DMul(a,b))
  /\ b[1] # 0 => RDiv(S(a),S(b)) = S(DDiv(a,b))
  /\ RLt(S(a),S(b)) = DLt(a,b)
  /\ RFloor(S(a)) = DFloor(a) /\ RCeil(S(a)) = DCeil(a)
  /\ RSign(S(a)) = DSign(a)
  /\ RNeg(S(a)) = S(DSub(<<0,1>>,a))
  /\ RFrac(2*a[1], 2*a[2]) = S(a) /\ RInt(a[1]) = ToString(a[1])
  /\ RRound(S(a),1) = S(Norm(DFloor(Norm(2*a[1],a[2])),2))
  /\ RPow(S(a),3) = S(DMul(a,DMul(a,a)))
\* Matrices made of the two rationals.
X(n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |->
             CASE (i + j) % 3 = 0 -> S(a) [] (i + j) % 3 = 1 -> S(b) [] OTHER -> RFrac(i + 2*j, 3)]])
PD(n) == MPlus(DMTimes(X(n, n), DMT(X(n, n))), MEye(n))
Matrices ==
  /\ MPlus(X(2,3), X(2,3)) = DMPlus(X(2,3), X(2,3))
  /\ MMinus(X(3,2), DMT(X(2,3))) = DMMinus(X(3,2), DMT(X(2,3)))
  /\ MScale(X(2,2), S(b)) = DMScale(X(2,2), S(b))
  /\ MTimes(X(2,3), X(3,4)) = DMTimes(X(2,3), X(3,4))
  /\ MDot(X(3,2), X(3,2)) = DMDot(X(3,2), X(3,2))
  /\ MSolve(PD(3), X(3,2)) = DMSolve(PD(3), X(3,2))
  /\ MDet(PD(3)) = DMDet(PD(3)) /\ MDet(PD(1)) = DMDet(PD(1))
=============================================================================
