------------------------------ MODULE GaussOps ------------------------------
(***************************************************************************)
(* Exact integrals of exp(p) for a polynomial p that is quadratic and      *)
(* concave in the integrated variables.                                    *)
(*                                                                         *)
(* A Gaussian form [S, A, b, c, det, k] over the variables S stands for    *)
(*   sqrt((2 pi)^k / det) * exp(-x'Ax/2 + b'x + c),   x indexed by S.      *)
(* Integrating a variable out completes the square.                        *)
(***************************************************************************)
EXTENDS PolyOps, Sequences

\* The form of p in the variables S; all other variables have been replaced by numbers.
GForm(nv, p, S) ==
  [S |-> S,
   A |-> [i \in S |-> [j \in S |->
           IF i = j THEN RMul("-2", PCoef(p, MUnit(nv,i,2)))
           ELSE RNeg(PCoef(p, MAdd(MUnit(nv,i,1), MUnit(nv,j,1))))]],
   b |-> [i \in S |-> PCoef(p, MUnit(nv,i,1))],
   c |-> PCoef(p, MOne(nv)),
   det |-> "1", k |-> 0]

\* Integrate variable i over the real line.
GMarg(g, i) ==
  LET a == g.A[i][i]
      T == g.S \ {i}
  IN [S |-> T,
      A |-> [j \in T |-> [l \in T |->
               RSub(g.A[j][l], RDiv(RMul(g.A[i][j], g.A[i][l]), a))]],
      b |-> [j \in T |-> RSub(g.b[j], RDiv(RMul(g.A[i][j], g.b[i]), a))],
      c |-> RAdd(g.c, RDiv(RMul(g.b[i], g.b[i]), RMul("2", a))),
      det |-> RMul(g.det, a), k |-> g.k + 1]

RECURSIVE GMargSeq(_,_)
GMargSeq(g, s) == IF s = <<>> THEN g ELSE GMargSeq(GMarg(g, Head(s)), Tail(s))
RECURSIVE GMargSet(_,_)
GMargSet(g, S) == IF S = {} THEN g
                  ELSE LET i == CHOOSE x \in S : TRUE IN GMargSet(GMarg(g,i), S \ {i})

\* Replace variables outside of S by numbers, x is indexed by all variables.
PFix(nv, p, S, x) ==
  LET f[T \in SUBSET ((1..nv) \ S)] ==
        IF T = {} THEN p
        ELSE LET i == CHOOSE v \in T : TRUE
             IN PSubst(nv, f[T \ {i}], i, PConst(nv, x[i]))
  IN f[(1..nv) \ S]

(* The integral of a form with one or two variables over a box.  A limit is *)
(* "inf" or a rational.  The result stands for                              *)
(*   sqrt((2 pi)^k / det) exp(expo) P(lo < X < hi)                          *)
(* for X normal with mean mu, variances v and covariance v12.               *)
GBox(g, order, lo, hi) ==
  LET d == Len(order)
      tot == GMargSet(g, g.S)
      i == order[1]
      j == order[2]
      det == RSub(RMul(g.A[i][i], g.A[j][j]), RMul(g.A[i][j], g.A[i][j]))
      V(a,b) == IF a = i /\ b = i THEN RDiv(g.A[j][j], det)
                ELSE IF a = j /\ b = j THEN RDiv(g.A[i][i], det)
                ELSE RDiv(RNeg(g.A[i][j]), det)
      mu == CASE d = 0 -> <<>>
              [] d = 1 -> <<RDiv(g.b[i], g.A[i][i])>>
              [] d = 2 -> <<RAdd(RMul(V(i,i), g.b[i]), RMul(V(i,j), g.b[j])),
                            RAdd(RMul(V(i,j), g.b[i]), RMul(V(j,j), g.b[j]))>>
      v == CASE d = 0 -> <<>>
             [] d = 1 -> <<RDiv("1", g.A[i][i])>>
             [] d = 2 -> <<V(i,i), V(j,j)>>
      cov == IF d = 2 THEN V(i,j) ELSE "0"
  IN [k |-> tot.k, det |-> tot.det, expo |-> tot.c, v |-> v, cov |-> cov,
      lo |-> [a \in 1..d |-> IF lo[a] = "inf" THEN "inf" ELSE RSub(lo[a], mu[a])],
      hi |-> [a \in 1..d |-> IF hi[a] = "inf" THEN "inf" ELSE RSub(hi[a], mu[a])]]
=============================================================================
