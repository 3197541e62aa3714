------------------------------ MODULE RMatDef -------------------------------
(* The operators of RMat.tla without overrides: SelfTest.tla compares them. *)
EXTENDS BigRat, TLC
DRows(a) == Len(a)
DCols(a) == IF a = <<>> THEN 0 ELSE Len(a[1])
DMMake(n, m, F(_,_)) == TLCEval([i \in 1..n |-> [j \in 1..m |-> F(i,j)]])
DMZeros(n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |-> "0"]])
DMEye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]])
DMPlus(a, b) == TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RAdd(a[i][j], b[i][j])]])
DMMinus(a, b) == TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RSub(a[i][j], b[i][j])]])
DMScale(a, c) == TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RMul(c, a[i][j])]])
DMT(a) == TLCEval([j \in 1..DCols(a) |-> [i \in 1..DRows(a) |-> a[i][j]]])
DMTimes(a, b) == TLCEval([i \in DOMAIN a |-> [j \in 1..DCols(b) |->
                  RSumTo(LAMBDA k : RMul(a[i][k], b[k][j]), 1, DCols(a))]])
DMMul3(a, b, c) == DMTimes(DMTimes(a, b), c)
DMTrace(a) == RSumTo(LAMBDA k : a[k][k], 1, DRows(a))
\* Sum of elementwise products.
DMDot(a, b) == RSumTo(LAMBDA i : RSumTo(LAMBDA j : RMul(a[i][j], b[i][j]), 1, DCols(a)), 1, DRows(a))
DMOuter(a) == DMTimes(a, DMT(a))
RECURSIVE DMSum(_,_,_)
DMSum(s, n, m) == IF s = <<>> THEN DMZeros(n, m) ELSE DMPlus(Head(s), DMSum(Tail(s), n, m))
DMCol(v) == [i \in DOMAIN v |-> <<v[i]>>]
DMFlat(a) == [i \in DOMAIN a |-> a[i][1]]
DMSym(a) == \A i \in DOMAIN a : \A j \in DOMAIN a : a[i][j] = a[j][i]

\* One step of Gauss-Jordan elimination on [a | b] with pivot k.
DGJStep(ab, k) ==
  LET p == TLCEval([j \in DOMAIN ab[k] |-> RDiv(ab[k][j], ab[k][k])])
  IN TLCEval([i \in DOMAIN ab |-> IF i = k THEN p
                          ELSE [j \in DOMAIN p |-> RSub(ab[i][j], RMul(ab[i][k], p[j]))]])
RECURSIVE DGJ(_,_,_)
DGJ(ab, k, n) == IF k > n THEN ab ELSE DGJ(DGJStep(ab, k), k + 1, n)
\* No pivoting: for matrices all of whose leading minors are not zero.
DMSolve(a, b) ==
  LET n == DRows(a)
      r == DGJ(TLCEval([i \in 1..n |-> a[i] \o b[i]]), 1, n)
  IN TLCEval([i \in 1..n |-> SubSeq(r[i], n + 1, n + DCols(b))])
DMInv(a) == DMSolve(a, DMEye(DRows(a)))
RECURSIVE DMDet(_)
DMDet(a) ==
  IF a = <<>> THEN "1"
  ELSE LET n == DRows(a) p == a[1][1]
       IN RMul(p, DMDet(TLCEval([i \in 1..(n-1) |-> [j \in 1..(n-1) |->
                 RSub(a[i+1][j+1], RDiv(RMul(a[i+1][1], a[1][j+1]), p))]])))
=============================================================================
