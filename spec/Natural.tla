------------------------------ MODULE Natural ------------------------------
(***************************************************************************)
(* Normal distributions in natural parameters.  The state is a             *)
(* distribution, two others, two points and the questions that have been   *)
(* asked, with answers.  Questions are asked in any order, any number of   *)
(* times, about any of the others and the points.                          *)
(***************************************************************************)
EXTENDS RMat, TLC, Json

CONSTANTS Out, Len3     \* Ask all sequences of this many questions.

RE(X) == RandomElement(X)
Ent == {"-1","-1/2","0","1/3","1/2","1","2"}
Pos == {"1/2","1","2","3/2"}
\* Positive definite: a product of a triangular matrix and its transpose.
Tri(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RE(Pos) ELSE IF i > j THEN RE(Ent) ELSE "0"]])
RandPD(n) == MOuter(Tri(n))
RandDiag(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RE(Pos) ELSE "0"]])
RandVec(n) == TLCEval([i \in 1..n |-> <<RE(Ent)>>])
\* A diagonal and a rank one.
RandLow(n) == LET d == RandDiag(n) b == RandVec(n)
              IN [d |-> d, b |-> b, m |-> MPlus(d, MOuter(b))]


Questions == {"mean", "var", "m2", "logpdf", "logpdf2", "kl", "kl2", "lk", "self", "moments"}
\* All sequences, and each with random distributions.
Scripts == [1..Len3 -> Questions]

RandPrec(n, kind) ==
  CASE kind = "dense" -> [m |-> RandPD(n), d |-> <<>>, b |-> <<>>]
    [] kind = "diag" -> LET d == RandDiag(n) IN [m |-> d, d |-> d, b |-> <<>>]
    [] kind = "low" -> LET l == RandLow(n) IN [m |-> l.m, d |-> l.d, b |-> l.b]
Kinds == {"dense", "dense", "diag", "low"}
RandCase(s) ==
  LET n == TLCEval(RE({1,2,3,4}))
      from == TLCEval(RE({"natural", "moment"}))
      \* The dependency that inverts a low-rank plus diagonal matrix cannot invert the result again.
      k1 == TLCEval(RE(IF from = "moment" THEN Kinds \ {"low"} ELSE Kinds))
      k2 == TLCEval(RE(Kinds))
  IN [script |-> s, n |-> n, k1 |-> k1, k2 |-> k2, p1 |-> RandPrec(n, k1), p2 |-> RandPrec(n, k2),
      p3 |-> RandPrec(n, "dense"), l1 |-> RandVec(n), l2 |-> RandVec(n), l3 |-> RandVec(n),
      x |-> RandVec(n), x2 |-> RandVec(n), from |-> from]

VARIABLES case, asked
vars == <<case, asked>>
P(c) == IF c.from = "natural" THEN NN(c.l1, c.p1.m) ELSE NFrom(c.l1, c.p1.m)
Q(c) == NN(c.l2, c.p2.m)
Q2(c) == NN(c.l3, c.p3.m)

Answer(c, q) ==
  CASE q = "mean" -> [a |-> NMean(P(c))]
    [] q = "var" -> [a |-> NVar(P(c))]
    [] q = "m2" -> [a |-> NM2(P(c))]
    [] q = "logpdf" -> [a |-> NLogpdf(P(c), c.x)]
    [] q = "logpdf2" -> [a |-> NLogpdf(P(c), c.x2)]
    [] q = "kl2" -> [a |-> NKL(P(c), Q2(c))]
    [] q = "self" -> [a |-> NKL(P(c), P(c))]
    [] q = "kl" -> [a |-> NKL(P(c), Q(c))]
    [] q = "lk" -> [a |-> NKL(Q(c), P(c))]
    [] q = "moments" -> [a |-> <<NMean(P(c)), NVar(P(c))>>]

Init == \E s \in Scripts : case = TLCEval(RandCase(s)) /\ asked = <<>>
Ask == /\ Len(asked) < Len3
       /\ asked' = Append(asked, TLCEval(Answer(case, case.script[Len(asked) + 1])))
       /\ UNCHANGED case
Next == Ask
Done == Len(asked) = Len3

Definite == asked = <<>> => MPD(case.p1.m) /\ MPD(case.p2.m)
\* The moments are consistent.
Moments == asked = <<>> =>
  LET p == P(case) IN
  /\ NM2(p) = MPlus(NVar(p), MOuter(NMean(p)))
  /\ MTimes(p.prec, NVar(p)) = MEye(case.n)
  /\ NFrom(NMean(p), NVar(p)) = p
  /\ NKL(p, p) = [rat |-> "0", det |-> "1"]
\* The KL divergence is not negative: rat + log det >= 0. A rational bound on the logarithm:
\* log x >= 1 - 1/x, sharp enough if the precisions are equal.
\* Multiplying densities adds natural parameters: the product is the density of the sum, up to a
\* constant that does not depend on x.
Bayes == asked = <<>> =>
  LET p == P(case) q == Q(case)
      s == NN(MPlus(p.lam, q.lam), MPlus(p.prec, q.prec))
      c(x) == RSub(RAdd(NLogpdf(p, x).quad, NLogpdf(q, x).quad), NLogpdf(s, x).quad)
  IN c(case.x) = c(MZeros(case.n, 1)) /\ c(case.x) = c(NMean(s))
\* An answer does not depend on what was asked before.
HistoryFree == \A i, j \in DOMAIN asked : case.script[i] = case.script[j] => asked[i] = asked[j]
Emit == Done => WriteLine(ToJson([case |-> case, asked |-> asked]), Out)
=============================================================================
