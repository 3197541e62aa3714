------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational numbers.  A rational is a string "n" or "n/d" in lowest  *)
(* terms.  The basic operators are evaluated by java/BigRat.java, because  *)
(* the integers of TLC have 32 bits; the definitions below say what they   *)
(* are in terms of the uninterpreted values Num and Den.  SelfTest.tla     *)
(* compares every one of them to RatDef.tla, the same operators on pairs   *)
(* of integers in plain TLA+.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

RInt(n)    == CHOOSE r \in STRING : TRUE   \* the integer n (or rational n)
RFrac(n,d) == CHOOSE r \in STRING : TRUE   \* n/d
RAdd(a,b)  == CHOOSE r \in STRING : TRUE
RSub(a,b)  == CHOOSE r \in STRING : TRUE
RMul(a,b)  == CHOOSE r \in STRING : TRUE
RDiv(a,b)  == CHOOSE r \in STRING : TRUE
RNeg(a)    == CHOOSE r \in STRING : TRUE
RLt(a,b)   == CHOOSE r \in BOOLEAN : TRUE
RSign(a)   == CHOOSE r \in {-1,0,1} : TRUE
RCeil(a)   == CHOOSE r \in Int : TRUE
RRound(a,k) == CHOOSE r \in STRING : TRUE  \* the largest multiple of 2^-k that is not above a
RFloor(a)  == CHOOSE r \in Int : TRUE

\* Appends a line to a file. CSVWrite does not lock, so that long lines of several workers mix.
WriteLine(line, file) == TRUE

RLe(a,b)   == ~RLt(b,a)
RMax(a,b)  == IF RLt(a,b) THEN b ELSE a
RMin(a,b)  == IF RLt(a,b) THEN a ELSE b
RAbs(a)    == IF RSign(a) < 0 THEN RNeg(a) ELSE a
RSq(a)     == RMul(a,a)

RECURSIVE RPow(_,_)
RPow(a,n)  == IF n = 0 THEN "1" ELSE RMul(a, RPow(a, n-1))

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSumSeq(Tail(s)))

\* Sum of f[i] for i in the interval a..b.
RECURSIVE RSumTo(_,_,_)
RSumTo(f(_), a, b) == IF a > b THEN "0" ELSE RAdd(f(a), RSumTo(f, a+1, b))
=============================================================================
