------------------------------- MODULE RatDef -------------------------------
(* Rationals as pairs <<n, d>> of integers with d > 0, in plain TLA+.       *)
EXTENDS Integers

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n,d) == LET s == IF d < 0 THEN -1 ELSE 1
                 g == Gcd(Abs(n), Abs(d))
             IN <<(s*n) \div g, (s*d) \div g>>
DAdd(a,b) == Norm(a[1]*b[2] + b[1]*a[2], a[2]*b[2])
DSub(a,b) == Norm(a[1]*b[2] - b[1]*a[2], a[2]*b[2])
DMul(a,b) == Norm(a[1]*b[1], a[2]*b[2])
DDiv(a,b) == Norm(a[1]*b[2], a[2]*b[1])
DLt(a,b)  == a[1]*b[2] < b[1]*a[2]
DFloor(a) == a[1] \div a[2]
DCeil(a)  == -((-a[1]) \div a[2])
DSign(a)  == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
DStr(a)   == IF a[2] = 1 THEN <<a[1]>> ELSE a
=============================================================================
