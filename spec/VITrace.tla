------------------------------- MODULE VITrace -------------------------------
(***************************************************************************)
(* What VIOps.tla says about states recorded from the implementation.      *)
(* Floating-point numbers are read as the rationals that they are.         *)
(***************************************************************************)
EXTENDS VIOps, Json

CONSTANTS In, Out
Trace == JsonDeserialize(In)

VARIABLES n, res
MF(r) ==
  LET m == TLCEval(WithInverses(r.m))
      bu == TLCEval(BestU(m, r.d, r.pu, r.qz)) bz == TLCEval(BestZ(m, r.d, r.pz, r.qu))
  IN [kind |-> "mf", id |-> r.id, bu |-> bu, bz |-> bz,
      elbo |-> ELBO(m, r.d, r.qu, r.qz, r.pu, r.pz),
      klu |-> KL(r.qu, r.pu),
      over_u |-> ELBO(m, r.d, bu, r.qz, r.pu, r.pz),
      over_z |-> ELBO(m, r.d, r.qu, bz, r.pu, r.pz),
      pred |-> TLCEval([i \in DOMAIN r.m.iuz |-> PredMF(m, i, r.qu, r.qz)])]
ST(r) ==
  LET m == TLCEval(WithInverses(r.m))
  IN [kind |-> "st", id |-> r.id,
      condu |-> TLCEval([k \in DOMAIN r.zs |-> CondU(m, r.d, r.zs[k])]),
      condz |-> TLCEval([k \in DOMAIN r.us |-> CondZ(m, r.d, r.us[k])]),
      logz |-> TLCEval([k \in DOMAIN r.us |-> LogZ(m, r.d, r.us[k])]),
      pred |-> IF r.predict THEN TLCEval([i \in DOMAIN r.m.iuz |-> PredS(m, r.d, i, r.us)]) ELSE <<>>]
Result(r) == IF r.kind = "mf" THEN MF(r) ELSE ST(r)

Init == \E k \in DOMAIN Trace : n = k /\ res = TLCEval(Result(Trace[k]))
Next == UNCHANGED <<n, res>>
\* A recorded pair of factors is a bound, whatever it is.
Bounds == res.kind = "mf" => TRUE
Emit == WriteLine(ToJson(res), Out)
=============================================================================
