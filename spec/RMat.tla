-------------------------------- MODULE RMat --------------------------------
(***************************************************************************)
(* Exact matrices: sequences of rows of rationals.  For speed,             *)
(* java/RMat.java evaluates some of the operators; see SelfTest.tla.       *)
(***************************************************************************)
EXTENDS BigRat, TLC
(* TLC evaluates the elements of a function whenever these are asked for, and again each time; *)
(* TLCEval makes it evaluate all of them once.                                                 *)

Rows(a) == Len(a)
Cols(a) == IF a = <<>> THEN 0 ELSE Len(a[1])
MMake(n, m, F(_,_)) == TLCEval([i \in 1..n |-> [j \in 1..m |-> F(i,j)]])
MZeros(n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |-> "0"]])
MEye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]])
MPlus(a, b) == TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RAdd(a[i][j], b[i][j])]])
MMinus(a, b) == TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RSub(a[i][j], b[i][j])]])
MScale(a, c) == TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RMul(c, a[i][j])]])
MT(a) == TLCEval([j \in 1..Cols(a) |-> [i \in 1..Rows(a) |-> a[i][j]]])
MTimes(a, b) == TLCEval([i \in DOMAIN a |-> [j \in 1..Cols(b) |->
                  RSumTo(LAMBDA k : RMul(a[i][k], b[k][j]), 1, Cols(a))]])
MMul3(a, b, c) == MTimes(MTimes(a, b), c)
MTrace(a) == RSumTo(LAMBDA k : a[k][k], 1, Rows(a))
\* Sum of elementwise products.
MDot(a, b) == RSumTo(LAMBDA i : RSumTo(LAMBDA j : RMul(a[i][j], b[i][j]), 1, Cols(a)), 1, Rows(a))
MOuter(a) == MTimes(a, MT(a))
RECURSIVE MSum(_,_,_)
MSum(s, n, m) == IF s = <<>> THEN MZeros(n, m) ELSE MPlus(Head(s), MSum(Tail(s), n, m))
MCol(v) == [i \in DOMAIN v |-> <<v[i]>>]
MFlat(a) == [i \in DOMAIN a |-> a[i][1]]
MSym(a) == \A i \in DOMAIN a : \A j \in DOMAIN a : a[i][j] = a[j][i]

\* One step of Gauss-Jordan elimination on [a | b] with pivot k.
GJStep(ab, k) ==
  LET p == TLCEval([j \in DOMAIN ab[k] |-> RDiv(ab[k][j], ab[k][k])])
  IN TLCEval([i \in DOMAIN ab |-> IF i = k THEN p
                          ELSE [j \in DOMAIN p |-> RSub(ab[i][j], RMul(ab[i][k], p[j]))]])
RECURSIVE GJ(_,_,_)
GJ(ab, k, n) == IF k > n THEN ab ELSE GJ(GJStep(ab, k), k + 1, n)
\* No pivoting: for matrices all of whose leading minors are not zero.
MSolve(a, b) ==
  LET n == Rows(a)
      r == GJ(TLCEval([i \in 1..n |-> a[i] \o b[i]]), 1, n)
  IN TLCEval([i \in 1..n |-> SubSeq(r[i], n + 1, n + Cols(b))])
MInv(a) == MSolve(a, MEye(Rows(a)))
RECURSIVE MDet(_)
MDet(a) ==
  IF a = <<>> THEN "1"
  ELSE LET n == Rows(a) p == a[1][1]
       IN RMul(p, MDet(TLCEval([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
                 RSub(a[i+1][j+1], RDiv(RMul(a[i+1][1], a[1][j+1]), p))]])))
\* Positive definite: all leading minors are positive.
MPD(a) == MSym(a) /\ \A k \in 1..Rows(a) :
            RLt("0", MDet(TLCEval([i \in 1..k |-> [j \in 1..k |-> a[i][j]]])))

\* Normals in natural parameters: precision P and lam = P mean.
NN(l, p) == [lam |-> l, prec |-> p]
NVar(n) == MInv(n.prec)
NMean(n) == MSolve(n.prec, n.lam)
NM2(n) == MPlus(NVar(n), MOuter(NMean(n)))
NFrom(mean, var) == NN(MSolve(var, mean), MInv(var))
\* logpdf = (log det - dim log 2 pi - quad) / 2.
NLogpdf(n, x) == LET d == MMinus(x, NMean(n))
                 IN [quad |-> MTimes(MT(d), MTimes(n.prec, d))[1][1], det |-> MDet(n.prec),
                     dim |-> Rows(n.prec)]
\* kl = (rat + log det) / 2.
NKL(n, o) == LET d == MMinus(NMean(n), NMean(o))
             IN [rat |-> RSub(RAdd(MDot(o.prec, NVar(n)), MTimes(MT(d), MTimes(o.prec, d))[1][1]),
                              RInt(Rows(n.prec))),
                 det |-> RDiv(MDet(n.prec), MDet(o.prec))]
=============================================================================
