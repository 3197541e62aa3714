------------------------------- MODULE VIOps --------------------------------
(***************************************************************************)
(* Sparse variational inference for f_i = h' C_i x with the inducing       *)
(* variables u = K_u uhat and z = K_z zhat.  Distributions are over uhat   *)
(* and zhat, whose prior precisions are K_u and K_z.                       *)
(*                                                                         *)
(* A model m has the noise s2, the precisions ku and kz, and the integrals *)
(* iux, ihx[i], ihz[i] and iuz[i], for i in an index set of times.  Data   *)
(* are a sequence of observations <<i, y>>.                                *)
(*                                                                         *)
(* Logarithms: [rat, det, n] is (rat + log det - n log(2 pi s2)) / 2.      *)
(***************************************************************************)
EXTENDS RMat

CONSTANT Bits   \* 0: exact. Otherwise intermediate results have this many bits after the point.
Trim(a) == IF Bits = 0 THEN a
           ELSE TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RRound(a[i][j], Bits)]])
TrimN(q) == NN(Trim(q.lam), Trim(q.prec))
VMean(q) == Trim(NMean(q))
VVar(q) == Trim(NVar(q))
VM2(q) == LET a == VMean(q) IN Trim(MPlus(VVar(q), MOuter(a)))

SumD(d, F(_)) == RSumTo(LAMBDA k : F(d[k]), 1, Len(d))
SumDM(d, n, k, F(_)) == MSum(TLCEval([j \in DOMAIN d |-> F(d[j])]), n, k)

\* What depends on the model only, and is used often.
WithInverses(m) == [m EXCEPT !.kui = Trim(MInv(m.ku)), !.kzi = Trim(MInv(m.kz))]

\* Moments of f_i given that uhat has the first two moments u, u2, and zhat has z, z2.
M1(m, i, u, z) == MMul3(MT(u), m.iuz[i], z)[1][1]
M2(m, i, u2, z2) ==
  LET du == MMinus(u2, m.kui)
      dz == MMinus(z2, m.kzi)
  IN RAdd(RAdd(m.ihx[i], MDot(du, m.iux)),
          RAdd(MDot(dz, m.ihz[i]), MDot(du, MMul3(m.iuz[i], dz, MT(m.iuz[i])))))

\* Expected log-likelihood.
Misfit(m, d, u, u2, z, z2) ==
  SumD(d, LAMBDA o : RAdd(RSub(RSq(o[2]), RMul(RMul("2", o[2]), M1(m, o[1], u, z))),
                          M2(m, o[1], u2, z2)))
ELL(m, d, u, u2, z, z2) ==
  [rat |-> RNeg(RDiv(Misfit(m, d, u, u2, z, z2), m.s2)), det |-> "1", n |-> Len(d)]

Plus(a, b) == [rat |-> RAdd(a.rat, b.rat), det |-> RMul(a.det, b.det), n |-> a.n + b.n]
Minus(a, b) == [rat |-> RSub(a.rat, b.rat), det |-> RDiv(a.det, b.det), n |-> a.n - b.n]
KL(q, p) ==
  LET d == MMinus(VMean(q), VMean(p))
  IN [rat |-> RSub(RAdd(MDot(p.prec, VVar(q)), MTimes(MT(d), MTimes(p.prec, d))[1][1]), RInt(Rows(q.prec))),
      det |-> RDiv(MDet(q.prec), MDet(p.prec)), n |-> 0]
LogPdf(q, x) == \* Without the constant -dim/2 log 2 pi.
  LET l == NLogpdf(q, x) IN [rat |-> RNeg(l.quad), det |-> l.det, n |-> 0]

PriorU(m) == NN(MZeros(Rows(m.ku), 1), m.ku)
PriorZ(m) == NN(MZeros(Rows(m.kz), 1), m.kz)

ELBO(m, d, qu, qz, pu, pz) ==
  Minus(Minus(ELL(m, d, VMean(qu), VM2(qu), VMean(qz), VM2(qz)), KL(qu, pu)), KL(qz, pz))

\* The optimal factor given the moments of the other factor.
QU(m, d, pu, z, z2) ==
  LET nu == Rows(m.ku) dz == MMinus(z2, m.kzi)
  IN TrimN(NN(MPlus(pu.lam, MScale(SumDM(d, nu, 1, LAMBDA o : MScale(MTimes(m.iuz[o[1]], z), o[2])),
                             RDiv("1", m.s2))),
        MPlus(pu.prec, MScale(SumDM(d, nu, nu,
                 LAMBDA o : MPlus(m.iux, MMul3(m.iuz[o[1]], dz, MT(m.iuz[o[1]])))), RDiv("1", m.s2)))))
QZ(m, d, pz, u, u2) ==
  LET nz == Rows(m.kz) du == MMinus(u2, m.kui)
  IN TrimN(NN(MPlus(pz.lam, MScale(SumDM(d, nz, 1, LAMBDA o : MScale(MTimes(MT(m.iuz[o[1]]), u), o[2])),
                             RDiv("1", m.s2))),
        MPlus(pz.prec, MScale(SumDM(d, nz, nz,
                 LAMBDA o : MPlus(m.ihz[o[1]], MMul3(MT(m.iuz[o[1]]), du, m.iuz[o[1]]))), RDiv("1", m.s2)))))
BestU(m, d, pu, qz) == QU(m, d, pu, VMean(qz), VM2(qz))
BestZ(m, d, pz, qu) == QZ(m, d, pz, VMean(qu), VM2(qu))

\* The structured scheme: exact conditionals, for values.
CondU(m, d, z) == QU(m, d, PriorU(m), z, MOuter(z))
CondZ(m, d, u) == QZ(m, d, PriorZ(m), u, MOuter(u))
\* log of the integral of exp(ELL(u, z)) p(z) over z, evaluated at any z by Bayes' rule.
LogZAt(m, d, u, z) ==
  LET q == TLCEval(CondZ(m, d, u))
  IN Minus(Plus(ELL(m, d, u, MOuter(u), z, MOuter(z)), LogPdf(PriorZ(m), z)), LogPdf(q, z))
LogZ(m, d, u) == LogZAt(m, d, u, MZeros(Rows(m.kz), 1))

\* Predictions of a new noisy observation.
PredMF(m, i, pu, pz) ==
  LET a == M1(m, i, VMean(pu), VMean(pz))
  IN <<a, RAdd(RSub(M2(m, i, VM2(pu), VM2(pz)), RSq(a)), m.s2)>>
\* The mean over samples of u; z is integrated out given the data.
PredS(m, d, i, us) ==
  LET q == TLCEval([k \in DOMAIN us |-> CondZ(m, d, us[k])])
      a == TLCEval([k \in DOMAIN us |-> M1(m, i, us[k], VMean(q[k]))])
      b == TLCEval([k \in DOMAIN us |-> M2(m, i, MOuter(us[k]), VM2(q[k]))])
      n == RInt(Len(us))
      a1 == RDiv(RSumSeq(a), n)
  IN <<a1, RAdd(RSub(RDiv(RSumSeq(b), n), RSq(a1)), m.s2)>>

\* The result of a coordinate update in the implementation is a floating-point number.
Digits == 100
RoundM(a) == TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RRound(a[i][j], Digits)]])
RoundN(q) == NN(RoundM(q.lam), RoundM(q.prec))
=============================================================================
