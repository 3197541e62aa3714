----------------------------- MODULE KernelApprox -----------------------------
(***************************************************************************)
(* The kernel of f_i = h' C_i x given values of the filter, for a filter h *)
(* of finitely many random numbers, cov(h) = S, and white x:               *)
(* K(i, j | h) = h' C_i C_j' h.  What is observed of h is u = A h.  The    *)
(* kernel given u is the conditional expectation.                          *)
(*                                                                         *)
(* The implementation is given cov(u) = A S A', the prior kernel, and      *)
(* cov(u, h) C_i C_j' cov(h, u), and must find the conditional expectation *)
(***************************************************************************)
EXTENDS RMat, Json, FiniteSets

CONSTANTS Out, D, M, T, XS    \* Numbers of h's, u's, times and x's.

RE(X) == RandomElement(X)
Coef == {"-2", "-1", "-1/2", "0", "1/3", "1", "3/2"}
VARIABLES case, n
Rand(k, a, b) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..b |-> RE(Coef)])])
\* Unit lower triangular with a diagonal: always invertible.
Lower(k, a) == TLCEval([i \in 1..a |-> TLCEval([j \in 1..a |-> IF i < j THEN "0" ELSE IF i = j THEN RE({"1/2", "1", "2"}) ELSE RE(Coef)])])
\* The first coefficients of A are triangular, so that cov(u) can be inverted.
RandA(k) == LET l == Lower(k, M) r == Rand(k, M, D) IN TLCEval([i \in 1..M |-> [j \in 1..D |-> IF j <= M THEN l[i][j] ELSE r[i][j]]])

Quad(m, i, j) == MTimes(m.c[i], MT(m.c[j]))
Cov(m) == MTimes(m.l, MT(m.l))                       \* cov(h)
CovU(m) == MMul3(m.a, Cov(m), MT(m.a))
CovHU(m) == MTimes(Cov(m), MT(m.a))
Prior(m, i, j) == MDot(Cov(m), Quad(m, i, j))
CrossU(m, i, j) == MMul3(MT(CovHU(m)), Quad(m, i, j), CovHU(m))

\* Conditional mean and variance of h.
Gain(m) == MTimes(CovHU(m), MInv(CovU(m)))
CondVar(m) == MMinus(Cov(m), MTimes(Gain(m), MT(CovHU(m))))
Kernel(m, i, j, u) ==
  LET g == MTimes(Gain(m), u)
  IN RAdd(MMul3(MT(g), Quad(m, i, j), g)[1][1], MDot(CondVar(m), Quad(m, i, j)))
\* What the inference uses.
Formula(m, i, j, u) ==
  LET ki == MInv(CovU(m)) v == MTimes(ki, u) x == CrossU(m, i, j)
  IN RAdd(RSub(Prior(m, i, j), MDot(ki, x)), MMul3(MT(v), x, v)[1][1])

Model(k) == [l |-> Lower(k, D), a |-> RandA(k), c |-> TLCEval([i \in 1..T |-> Rand(k, D, XS)])]
Random(k) == LET m == TLCEval(Model(k))
             IN [m |-> m, us |-> TLCEval([q \in 1..3 |-> IF q = 3 THEN MZeros(M, 1) ELSE Rand(k, M, 1)]),
                 s2 |-> RE({"1/10", "1/2", "1/50"})]
Init == case = <<>> /\ n = 0
Next == n = 0 /\ n' = 1 /\ \E c \in {Random(n)} : case' = c
Spec == Init /\ [][Next]_<<case, n>>

-----------------------------------------------------------------------------
Times == 1..T
\* The formula is the conditional second moment.
Correct == n = 1 => \A q \in DOMAIN case.us : \A i, j \in Times :
  Kernel(case.m, i, j, case.us[q]) = Formula(case.m, i, j, case.us[q])
\* A quadratic polynomial is averaged exactly by its values at zero and at the columns of a root of cov(u): at
\* those of A L here, which has more columns than rows.
Root(m) == MTimes(m.a, m.l)
ColOf(a, k) == [i \in DOMAIN a |-> <<a[i][k]>>]
Averages == n = 1 => \A i, j \in Times :
  LET z == Kernel(case.m, i, j, MZeros(M, 1))
  IN RAdd(z, RSumTo(LAMBDA k : RSub(Kernel(case.m, i, j, ColOf(Root(case.m), k)), z), 1, D)) = Prior(case.m, i, j)
\* With everything observed there is nothing left to average.
Known == n = 1 /\ M = D => \A i, j \in Times : Kernel(case.m, i, j, MZeros(M, 1)) = "0"
Even == n = 1 => \A q \in DOMAIN case.us : \A i, j \in Times :
  Kernel(case.m, i, j, case.us[q]) = Kernel(case.m, j, i, MScale(case.us[q], "-1"))
\* Observing more variables changes the kernel by as much as these say.
Invertible == n = 1 => MPD(CovU(case.m))
Emit == n = 1 => WriteLine(ToJson(
  [ku |-> CovU(case.m), s2 |-> case.s2,
   prior |-> MMake(T, T, LAMBDA i, j : Prior(case.m, i, j)),
   cross |-> TLCEval([i \in Times |-> TLCEval([j \in Times |-> CrossU(case.m, i, j)])]),
   us |-> case.us,
   ks |-> TLCEval([q \in DOMAIN case.us |-> MMake(T, T, LAMBDA i, j : Kernel(case.m, i, j, case.us[q]))])]), Out)
=============================================================================
