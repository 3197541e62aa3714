------------------------------- MODULE PolyOps -------------------------------
(***************************************************************************)
(* Multivariate polynomials with rational coefficients.                    *)
(* A monomial is a tuple of exponents, one for every variable.  A          *)
(* polynomial is the function from the monomials with a non-zero           *)
(* coefficient to this coefficient, so two polynomials are equal iff they  *)
(* are equal as functions: the representation is canonical.                *)
(***************************************************************************)
EXTENDS BigRat, FiniteSets, FiniteSetsExt

PCoef(p,m) == IF m \in DOMAIN p THEN p[m] ELSE "0"
PMake(S, f(_)) == LET D == {m \in S : f(m) # "0"} IN [m \in D |-> f(m)]
PZero == [m \in {} |-> "0"]
MAdd(m,n) == [i \in DOMAIN m |-> m[i] + n[i]]
MSub(m,n) == [i \in DOMAIN m |-> m[i] - n[i]]
MLe(m,n)  == \A i \in DOMAIN m : m[i] <= n[i]
MUnit(nv,i,k) == [j \in 1..nv |-> IF j = i THEN k ELSE 0]
MOne(nv) == [j \in 1..nv |-> 0]

RSumSet(f(_), S) == FoldSet(LAMBDA x, acc : RAdd(f(x), acc), "0", S)
RProdSet(f(_), S) == FoldSet(LAMBDA x, acc : RMul(f(x), acc), "1", S)

PMono(m,c) == IF c = "0" THEN PZero ELSE [x \in {m} |-> c]
PConst(nv,c) == PMono(MOne(nv), c)
PVar(nv,i) == PMono(MUnit(nv,i,1), "1")

PAdd(p,q) == PMake(DOMAIN p \cup DOMAIN q, LAMBDA m : RAdd(PCoef(p,m), PCoef(q,m)))
PScale(p,c) == PMake(DOMAIN p, LAMBDA m : RMul(p[m], c))
PNeg(p) == PScale(p, "-1")
PSub(p,q) == PAdd(p, PNeg(q))
PMul(p,q) ==
  PMake({MAdd(m,n) : m \in DOMAIN p, n \in DOMAIN q},
        LAMBDA s : RSumSet(LAMBDA m : IF MLe(m,s)
                                      THEN RMul(p[m], PCoef(q, MSub(s,m)))
                                      ELSE "0", DOMAIN p))
RECURSIVE PPow(_,_,_)
PPow(nv,p,k) == IF k = 0 THEN PConst(nv,"1") ELSE PMul(p, PPow(nv,p,k-1))

PDeg(p,i) == IF DOMAIN p = {} THEN 0 ELSE Max({m[i] : m \in DOMAIN p})
PTotal(p) == IF DOMAIN p = {} THEN 0
             ELSE Max({FoldSet(LAMBDA i, a : m[i] + a, 0, DOMAIN m) : m \in DOMAIN p})
PDepends(p,i) == \E m \in DOMAIN p : m[i] > 0
PIsConst(p) == \A m \in DOMAIN p : \A i \in DOMAIN m : m[i] = 0

\* The terms with exactly variable i to the power k, divided by it.
PCollect(p,i,k) ==
  LET D == {m \in DOMAIN p : m[i] = k}
      N == {[m EXCEPT ![i] = 0] : m \in D}
  IN [n \in N |-> p[[n EXCEPT ![i] = k]]]
\* The terms that do not depend on variable i.
PReject(p,i) == LET D == {m \in DOMAIN p : m[i] = 0} IN [m \in D |-> p[m]]

\* Variable i replaced by q.
PSubst(nv,p,i,q) ==
  FoldSet(LAMBDA k, acc : PAdd(PMul(PCollect(p,i,k), PPow(nv,q,k)), acc),
          PZero, {m[i] : m \in DOMAIN p})

PEval(p,x) == RSumSet(LAMBDA m : RMul(p[m], RProdSet(LAMBDA i : RPow(x[i], m[i]),
                                                    DOMAIN m)), DOMAIN p)

\* The same function of variables in units of c: p(x / c).
PUnit(p,c) == PMake(DOMAIN p, LAMBDA m : RDiv(p[m], RPow(c, FoldSet(LAMBDA i, a : m[i] + a, 0, DOMAIN m))))

PJson(p) == {<<m, p[m]>> : m \in DOMAIN p}
=============================================================================
