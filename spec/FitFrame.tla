------------------------------ MODULE FitFrame ------------------------------
(***************************************************************************)
(* Which variables exist and which change when a model is fitted, for every*)
(* scheme, choice of fixed hyperparameters, option and history.  A         *)
(* variable is its name; its value is the number of times it changed.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, BigRat

CONSTANTS Out, Kind, Depth, Alternate

CA == {"mean-field-ca"}
Gradient == {"mean-field-gradient", "mean-field-ca-gradient"}
Collapsed == {"mean-field-collapsed-gradient", "mean-field-ca-collapsed-gradient", "mean-field"}
Schemes == CA \cup Gradient \cup Collapsed \cup {"structured"}

\* The learnable hyperparameters and which choice fixes them.
Always == CASE Kind = "stub" -> {"tilt"}
            [] Kind = "GPCM" -> {"alpha_t", "omega", "t_u", "t_z"}
            [] Kind = "CGPCM" -> {"alpha_t", "omega", "t_u", "t_z"}
            [] Kind = "RGPCM" -> {"alpha_t", "gamma_factor", "t_u"}
Fixable == CASE Kind = "stub" -> [noise |-> "noise", scale |-> "scale", window |-> ""]
             [] Kind = "RGPCM" -> [noise |-> "noise", scale |-> "lambda", window |-> "alpha"]
             [] OTHER -> [noise |-> "noise", scale |-> "gamma", window |-> "alpha"]
Flags == {f \in SUBSET DOMAIN Fixable : \A x \in f : Fixable[x] # ""}
Learnable(fix) == (Always \cup {Fixable[x] : x \in ((DOMAIN Fixable) \ fix)}) \ {""}

Name(v, k, p) == "q_" \o v \o "[" \o ToString(k) \o "]." \o p
Q(k) == {Name(v, k, p) : v \in {"u", "z"}, p \in {"lam", "prec"}}
S(k) == {Name(v, k, "samples") : v \in {"u", "z"}}

VARIABLES cfg, stage, value, log
vars == <<cfg, stage, value, log>>

\* Coordinate ascent alone never learns; the other schemes do so unless asked not to.
Learns == cfg.scheme \notin CA /\ cfg.opt # "no"
\* Sampling again what was just sampled, with nothing else different: the result is the same.
Repeats(d) == /\ cfg.scheme = "structured" /\ ~Learns
              /\ log # <<>> /\ log[Len(log)].op = "fit" /\ log[Len(log)].d = d
\* What a fit changes.
Touch(d) == IF Repeats(d) THEN {}
            ELSE (IF cfg.scheme = "structured" THEN S(stage) ELSE Q(stage))
                 \cup (IF Learns THEN Learnable(cfg.fix) ELSE {})
\* What exists then.
Upto(k) == UNION {Q(j) : j \in 0..k}
Exists(names, d) == names \cup Learnable(cfg.fix) \cup Q(stage) \cup Touch(d)

Init == /\ cfg \in [scheme : Schemes, fix : Flags, opt : {"yes", "no", "some"}]
        /\ cfg.scheme # "structured" => cfg.opt # "some"
        /\ stage = 0 /\ value = [x \in {} |-> 0] /\ log = <<>>
At(x) == IF x \in DOMAIN value THEN value[x] ELSE 0
Fit(d) ==
  /\ value' = [x \in Exists(DOMAIN value, d) |-> IF x \in Touch(d) THEN At(x) + 1 ELSE At(x)]
  /\ UNCHANGED <<cfg, stage>>
  /\ log' = Append(log, [op |-> "fit", d |-> d, touch |-> Touch(d), exist |-> DOMAIN value', learns |-> Learns])
\* Conditioning before any fit makes the prior that of an arbitrary posterior.
Condition(d) ==
  /\ stage < 2 /\ stage' = stage + 1
  /\ value' = [x \in DOMAIN value \cup Q(stage) \cup Learnable(cfg.fix) |-> At(x)]
  /\ UNCHANGED cfg
  /\ log' = Append(log, [op |-> "cond", d |-> d, touch |-> {}, exist |-> DOMAIN value', learns |-> FALSE])
\* Fits and conditionings alternate in the longest histories.
MayFit == Alternate => Len(log) % 2 = 0
MayCondition == Alternate => Len(log) % 2 = 1
Next == Len(log) < Depth /\ \E d \in {"d1", "d2"} : (MayFit /\ Fit(d)) \/ (MayCondition /\ Condition(d))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Last == log'[Len(log')]
Changed == {x \in DOMAIN value : value'[x] # value[x]}
\* Earlier posteriors and what is fixed never change.
Frame == [][ /\ \A k \in 0..2 : k < stage => Changed \cap (Q(k) \cup S(k)) = {}
             /\ \A x \in cfg.fix : Fixable[x] \notin DOMAIN value'
             /\ (Changed \cap Learnable(cfg.fix) # {} => Learns)
             /\ (Last.op = "cond" => Changed = {})
             /\ DOMAIN value \subseteq DOMAIN value' ]_vars
\* The posterior of the current stage is stored.
Stored == [][Last.op = "fit" => /\ Q(stage) \subseteq DOMAIN value'
                                /\ (cfg.scheme = "structured" => S(stage) \subseteq DOMAIN value')]_vars
\* All histories that end with a fit.
Emit == (Len(log) = Depth /\ log[Depth].op = "fit") => WriteLine(ToJson([kind |-> Kind, cfg |-> cfg, log |-> log]), Out)
=============================================================================
