------------------------------- MODULE ExpLin -------------------------------
(***************************************************************************)
(* Exact sums of exponentials of affine functions of two variables, with   *)
(* complex rational coefficients.  An expression maps an exponent          *)
(*    <<s1, s2, k>>, which stands for exp(s1 x1 + s2 x2 + k),              *)
(* to its coefficient, which is never zero.  Exponentials of different     *)
(* complex rationals are linearly independent over the complex rationals   *)
(* (Lindemann and Weierstrass), so two expressions without variables have  *)
(* the same value exactly if they are the same function.                   *)
(***************************************************************************)
EXTENDS BigRat, Sequences, FiniteSets, FiniteSetsExt

C(r, i) == <<r, i>>
C0 == C("0", "0")
C1 == C("1", "0")
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CNeg(a) == <<RNeg(a[1]), RNeg(a[2])>>
CSub(a, b) == CAdd(a, CNeg(b))
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])),
                RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CInv(a) == LET n == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
           IN <<RDiv(a[1], n), RDiv(RNeg(a[2]), n)>>
CReal(r) == <<r, "0">>

EZero == [x \in {} |-> C0]
ETerm(c, e) == IF c = C0 THEN EZero ELSE [x \in {e} |-> c]
EConst(c) == ETerm(c, <<C0, C0, C0>>)
EAt(f, x) == IF x \in DOMAIN f THEN f[x] ELSE C0
EAdd(f, g) == LET D == {x \in (DOMAIN f) \cup (DOMAIN g) : CAdd(EAt(f,x), EAt(g,x)) # C0}
              IN [x \in D |-> CAdd(EAt(f,x), EAt(g,x))]
EScale(f, c) == IF c = C0 THEN EZero ELSE [x \in DOMAIN f |-> CMul(f[x], c)]
ENeg(f) == EScale(f, C("-1", "0"))
ExAdd(x, y) == <<CAdd(x[1], y[1]), CAdd(x[2], y[2]), CAdd(x[3], y[3])>>
ESum(S, F(_)) == FoldSet(LAMBDA x, acc : EAdd(F(x), acc), EZero, S)
EMul(f, g) == ESum((DOMAIN f) \X (DOMAIN g),
                   LAMBDA p : ETerm(CMul(f[p[1]], g[p[2]]), ExAdd(p[1], p[2])))

\* Replace variable v by m times the other variable plus q, for rationals m and q.
ExSubst(x, v, m, q) ==
  LET w == 3 - v
      s == CAdd(x[w], CMul(x[v], CReal(m)))
      k == CAdd(x[3], CMul(x[v], CReal(q)))
  IN [i \in 1..3 |-> IF i = v THEN C0 ELSE IF i = w THEN s ELSE k]
ESubst(f, v, m, q) == ESum(DOMAIN f, LAMBDA x : ETerm(f[x], ExSubst(x, v, m, q)))
EValueAt(f, v, q) == ESubst(f, v, "0", q)

EDiff(f, v) == ESum(DOMAIN f, LAMBDA x : ETerm(CMul(f[x], x[v]), x))

\* Can be integrated: nothing is constant in the variable.
EIntegrable(f, v) == \A x \in DOMAIN f : x[v] # C0
EPrim(f, v) == ESum(DOMAIN f, LAMBDA x : ETerm(CMul(f[x], CInv(x[v])), x))
\* Integrate v from lo to hi, both <<m, q>> for m times the other variable plus q.
EInt(f, v, lo, hi) == LET p == EPrim(f, v)
                      IN EAdd(ESubst(p, v, hi[1], hi[2]), ENeg(ESubst(p, v, lo[1], lo[2])))
\* Integrate from minus infinity; everything decays there.
EDecays(f, v) == \A x \in DOMAIN f : RLt("0", x[v][1])
EIntTail(f, v, hi) == ESubst(EPrim(f, v), v, hi[1], hi[2])

\* exp, cosine and sine of w x_v, and a function of exp.
EExp(v, s, k) == ETerm(C1, [i \in 1..3 |-> IF i = v THEN CReal(s) ELSE IF i = 3 THEN CReal(k) ELSE C0])
EOsc(v, w) == ETerm(C1, [i \in 1..3 |-> IF i = v THEN C("0", w) ELSE C0])
ECos(v, w) == EAdd(EScale(EOsc(v, w), C("1/2","0")), EScale(EOsc(v, RNeg(w)), C("1/2","0")))
ESin(v, w) == EAdd(EScale(EOsc(v, w), C("0","-1/2")), EScale(EOsc(v, RNeg(w)), C("0","1/2")))

EClosed(f) == \A x \in DOMAIN f : x[1] = C0 /\ x[2] = C0
\* A real number: conjugate exponents have conjugate coefficients.
EReal(f) == \A x \in DOMAIN f :
              LET y == <<C0, C0, <<x[3][1], RNeg(x[3][2])>> >>
              IN EAt(f, y) = <<f[x][1], RNeg(f[x][2])>>
\* As a set of <<coefficient, exponent>>.
EJson(f) == {<<f[x][1], f[x][2], x[3][1], x[3][2]>> : x \in DOMAIN f}
=============================================================================
