--------------------------------- MODULE VI ---------------------------------
(***************************************************************************)
(* Inference in a model that is finite-dimensional, so that it can be      *)
(* written down in full: h in R^P with covariance H, x in R^P white,       *)
(* f_i = h' C_i x with C_i a signed permutation, u = Lu h, z = Lz x.       *)
(*                                                                         *)
(* The machine holds the current prior and posterior of both sets of       *)
(* inducing variables.  It is driven by a script of                        *)
(*   fit:   rounds of coordinate updates of q(u), then of q(z),            *)
(*   cond:  the posterior becomes the prior; a new posterior is started.   *)
(* What every question that can be asked in a state answers is emitted.    *)
(***************************************************************************)
EXTENDS VIOps, FiniteSets, Json

CONSTANTS Out, Cases, Steps, Mode    \* Mode: "mf" or "st"

P == 3
RE(X) == RandomElement(X)
Ent == {"-1","-1/2","0","0","1/2","1"}
Pos == {"1/2","1","3/2"}
Tri(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RE(Pos) ELSE IF i > j THEN RE(Ent) ELSE "0"]])
RandPD(n) == LET t == TLCEval(Tri(n)) IN MPlus(MOuter(t), MScale(MEye(n), "1/4"))
RandVec(n) == TLCEval([i \in 1..n |-> <<RE(Ent \cup {"2/3","-4/3"})>>])
\* Of full rank: triangular up to a permutation of the columns.
Perms == {p \in [1..P -> 1..P] : Cardinality({p[i] : i \in 1..P}) = P}
RandRows(n) == LET p == TLCEval(RE(Perms)) t == TLCEval(Tri(P))
               IN TLCEval([i \in 1..n |-> [j \in 1..P |-> t[i][p[j]]]])
RandSP(x) == LET p == TLCEval(RE(Perms)) s == TLCEval([i \in 1..P |-> RE({"1","-1"})])
          IN TLCEval([i \in 1..P |-> [j \in 1..P |-> IF p[i] = j THEN s[i] ELSE "0"]])
Times == 1..4
RandModel(x) ==
  LET nu == TLCEval(RE(1..P)) nz == TLCEval(RE(1..P))
      H == TLCEval(RandPD(P)) Lu == TLCEval(RandRows(nu)) Lz == TLCEval(RandRows(nz))
      C == TLCEval([i \in Times |-> RandSP(i)])
      LH == MTimes(Lu, H)
  IN WithInverses([nu |-> nu, nz |-> nz, s2 |-> RE({"1/4","1","2"}), H |-> H, Lu |-> Lu, Lz |-> Lz, C |-> C,
      ku |-> MTimes(LH, MT(Lu)), kz |-> MOuter(Lz), kui |-> <<>>, kzi |-> <<>>,
      iux |-> MOuter(LH),
      ihx |-> TLCEval([i \in Times |-> MTrace(H)]),
      ihz |-> TLCEval([i \in Times |-> MTimes(MMul3(Lz, MT(C[i]), H), MTimes(C[i], MT(Lz)))]),
      iuz |-> TLCEval([i \in Times |-> MTimes(LH, MTimes(C[i], MT(Lz)))])])

\* Observations at any times, also several at the same time and out of order.
RandData(x) == LET n == TLCEval(RE({1,2,2,3,3})) IN TLCEval([k \in 1..n |-> <<RE(Times), RE({"-2","-1","1/2","1","5/2"})>>])
RandQ(n) == NN(RandVec(n), RandPD(n))
RandStep(m) == [op |-> RE({"fit","fit","cond"}), rounds |-> RE({1,1,2,3}), d |-> RandData(m.nu),
                qu |-> RandQ(m.nu), qz |-> RandQ(m.nz)]
RandCase(k) ==
  LET m == TLCEval(RandModel(k))
  IN TLCEval([k |-> k, m |-> m, qu |-> RandQ(m.nu), qz |-> RandQ(m.nz), ask |-> RandData(k),
      script |-> TLCEval([s \in 1..Steps |-> RandStep(m)]),
      us |-> TLCEval([s \in 1..RE(1..4) |-> RandVec(m.nu)]), zs |-> TLCEval([s \in 1..4 |-> RandVec(m.nz)]),
      d |-> RandData(k)])

VARIABLES case, at, st, log
vars == <<case, at, st, log>>
m == case.m

\* A state of the machine: prior, posterior, number of times conditioned.
S0(c) == [pu |-> PriorU(c.m), pz |-> PriorZ(c.m), qu |-> c.qu, qz |-> c.qz, stage |-> 0]
RECURSIVE Rounds(_,_,_,_)
Rounds(mm, d, s, k) ==
  IF k = 0 THEN s
  ELSE LET qu == TLCEval(RoundN(BestU(mm, d, s.pu, s.qz)))
           qz == TLCEval(RoundN(BestZ(mm, d, s.pz, qu)))
       IN Rounds(mm, d, [s EXCEPT !.qu = qu, !.qz = qz], k - 1)
Apply(s, x) ==
  CASE x.op = "fit" -> Rounds(m, x.d, s, x.rounds)
    [] x.op = "cond" -> [pu |-> s.qu, pz |-> s.qz, qu |-> x.qu, qz |-> x.qz, stage |-> s.stage + 1]
Answers(s) ==
  [s |-> s,
   elbo |-> ELBO(m, case.ask, s.qu, s.qz, s.pu, s.pz),
   over_u |-> ELBO(m, case.ask, BestU(m, case.ask, s.pu, s.qz), s.qz, s.pu, s.pz),
   over_z |-> ELBO(m, case.ask, s.qu, BestZ(m, case.ask, s.pz, s.qu), s.pu, s.pz),
   pred |-> TLCEval([i \in Times |-> PredMF(m, i, s.pu, s.pz)]),
   four |-> <<NMean(s.pz), NVar(s.pz)>>]
Structured ==
  [condu |-> TLCEval([k \in DOMAIN case.zs |-> CondU(m, case.d, case.zs[k])]),
   condz |-> TLCEval([k \in DOMAIN case.us |-> CondZ(m, case.d, case.us[k])]),
   logz |-> TLCEval([k \in DOMAIN case.us |-> LogZ(m, case.d, case.us[k])]),
   pred |-> TLCEval([i \in Times |-> PredS(m, case.d, i, case.us)])]

Init == \E k \in 1..Cases :
          /\ case = RandCase(k) /\ at = 0
          /\ st = S0(case)
          /\ log = IF Mode = "mf" THEN <<TLCEval(Answers(st))>> ELSE <<TLCEval(Structured)>>
Next == /\ Mode = "mf" /\ at < Steps
        /\ at' = at + 1 /\ UNCHANGED case
        /\ st' = TLCEval(Apply(st, case.script[at + 1]))
        /\ log' = Append(log, TLCEval(Answers(st')))
Done == Mode = "st" \/ at = Steps

-----------------------------------------------------------------------------
\* First principles: h | u and x | z are normal; f_i = h' C_i x.
MeanH(u) == MMul3(m.H, MT(m.Lu), u)
VarH == LET HL == MTimes(m.H, MT(m.Lu)) IN MMinus(m.H, MTimes(HL, MTimes(m.kui, MT(HL))))
MeanX(z) == MTimes(MT(m.Lz), z)
VarX == MMinus(MEye(P), MMul3(MT(m.Lz), m.kzi, m.Lz))
Second(i, u2, z2) ==
  LET HL == MTimes(m.H, MT(m.Lu))
      hh == MPlus(VarH, MTimes(HL, MTimes(u2, MT(HL))))
      xx == MPlus(VarX, MMul3(MT(m.Lz), z2, m.Lz))
  IN MTrace(MTimes(MTimes(hh, m.C[i]), MTimes(xx, MT(m.C[i]))))
FirstPrinciples ==
  \A i \in Times :
    /\ M1(m, i, NMean(st.qu), NMean(st.qz)) =
         MTimes(MMul3(MT(MeanH(NMean(st.qu))), m.C[i], MeanX(NMean(st.qz))), <<<<"1">>>>)[1][1]
    /\ M2(m, i, NM2(st.qu), NM2(st.qz)) = Second(i, NM2(st.qu), NM2(st.qz))
    \* Averaged over the prior the moments are those of the exact prior.
    /\ M2(m, i, m.kui, m.kzi) = MTrace(m.H)
Proper == /\ MPD(m.ku) /\ MPD(m.kz) /\ MPD(st.qu.prec) /\ MPD(st.qz.prec)

\* What a factor loses with respect to the optimal factor is exactly a KL divergence.
Same(a, b) == a.rat = b.rat /\ a.det = b.det /\ a.n = b.n
Optimal ==
  Mode = "mf" =>
  LET bu == TLCEval(BestU(m, case.ask, st.pu, st.qz)) bz == TLCEval(BestZ(m, case.ask, st.pz, st.qu))
      e == TLCEval(ELBO(m, case.ask, st.qu, st.qz, st.pu, st.pz))
  IN /\ Same(ELBO(m, case.ask, bu, st.qz, st.pu, st.pz), Plus(e, KL(st.qu, bu)))
     /\ Same(ELBO(m, case.ask, st.qu, bz, st.pu, st.pz), Plus(e, KL(st.qz, bz)))
\* The log normaliser does not depend on where Bayes' rule is applied; any q(z) bounds it, and
\* exactly by the KL divergence.
Evidence ==
  Mode = "st" => \A k \in DOMAIN case.us :
  LET u == case.us[k] l == TLCEval(LogZ(m, case.d, u))
      uu == MOuter(u) qz == case.qz
      bound == Minus(ELL(m, case.d, u, uu, NMean(qz), NM2(qz)), KL(qz, PriorZ(m)))
      cz == TLCEval(CondZ(m, case.d, u))
  IN /\ \A j \in DOMAIN case.zs : Same(LogZAt(m, case.d, u, case.zs[j]), l)
     /\ Same(Plus(bound, KL(qz, cz)), l)
     \* Closed form.
     /\ l.det = RDiv(MDet(m.kz), MDet(cz.prec))
\* Both conditionals belong to the same joint density: the ratio q(u|z)/q(z|u) factorises.
Joint(u, z) == Plus(Plus(ELL(m, case.d, u, MOuter(u), z, MOuter(z)), LogPdf(PriorU(m), u)), LogPdf(PriorZ(m), z))
Gibbs ==
  Mode = "st" => \A k \in DOMAIN case.us : \A j \in DOMAIN case.zs :
  LET u == case.us[k] z == case.zs[j] v == case.us[1] w == case.zs[1]
  IN /\ Same(Minus(Joint(u, z), LogPdf(CondU(m, case.d, z), u)), Minus(Joint(v, z), LogPdf(CondU(m, case.d, z), v)))
     /\ Same(Minus(Joint(u, z), LogPdf(CondZ(m, case.d, u), z)), Minus(Joint(u, w), LogPdf(CondZ(m, case.d, u), w)))
NotBelowNoise ==
  /\ Mode = "mf" => \A i \in Times : RLe(m.s2, PredMF(m, i, st.pu, st.pz)[2])
  /\ Mode = "st" => \A i \in Times : RLe(m.s2, PredS(m, case.d, i, case.us)[2])
Emit == Done => WriteLine(ToJson([case |-> case, log |-> log]), Out)
=============================================================================
