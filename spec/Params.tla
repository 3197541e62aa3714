------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The learnable parameters of the models: which variables exist, where    *)
(* these may be, and what an instance makes of them.  A variable is a      *)
(* sequence of numbers (a scalar is a sequence of one), every number       *)
(* either a known rational or, after a move in the unconstrained space,    *)
(* unknown but in its domain.                                              *)
(***************************************************************************)
EXTENDS BigRat, FiniteSets, TLC, Json

CONSTANTS Out, Kind, Steps

RE(X) == RandomElement(X)
None == "none"
\* Positive parameters range over everything from almost zero to very large numbers.
Anything == [lo |-> None, hi |-> None]
Positive == [lo |-> "0", hi |-> None]
Between(a, b) == [lo |-> a, hi |-> b]

First(tu) == tu[1]
Final(tu) == tu[Len(tu)]
\* Half as far again as the outermost point, on either side of zero.
Margin(tu) == RDiv(RMax(RAbs(First(tu)), RAbs(Final(tu))), "2")
TuDomain(tu) ==
  IF Kind = "RGPCM" THEN Between("-1/10000", RMul("3/2", Final(tu)))
  ELSE Between(IF RSign(First(tu)) < 0 THEN RMul("3/2", First(tu)) ELSE RSub(First(tu), Margin(tu)),
               IF RSign(Final(tu)) > 0 THEN RMul("3/2", Final(tu)) ELSE RAdd(Final(tu), Margin(tu)))

Flags == {"noise", "window", "scale"}
Fixes(f) == CASE f = "noise" -> "noise"
              [] f = "window" -> "alpha"
              [] f = "scale" -> IF Kind = "RGPCM" THEN "lambda" ELSE "gamma"

TUs == IF Kind = "RGPCM" THEN {<<"0","1","5/2">>, <<"1/8","1/4">>, <<"0","3/4","7/4","4">>}
       ELSE {<<"-3/2","0","3/2">>, <<"-1","1/2">>, <<"1/4","1","3">>, <<"-3","-2","-1/2">>, <<"0","5/4">>, <<"-2","-1","0">>}
TZs == {<<"-1/2","3/2","3","17/4">>, <<"0","1">>, <<"-4","-2","-1">>}
NonNegTZ == <<"0">>

VARIABLES setup, val, out, moved, n
vars == <<setup, val, out, moved, n>>

Scalar(x) == <<x>>
\* The initial value of everything that is a variable or would be.
Initial(s) ==
  IF Kind = "RGPCM"
  THEN [x \in {"noise","alpha","alpha_t","lambda","gamma_factor","t_u"} |->
         CASE x = "t_u" -> s.t_u
           [] x = "gamma_factor" -> Scalar(RDiv(s.hyp["alpha"], s.hyp["gamma"]))
           [] OTHER -> Scalar(s.hyp[x])]
  ELSE [x \in {"noise","alpha","alpha_t","gamma","omega","t_u","t_z"} |->
         CASE x = "t_u" -> s.t_u [] x = "t_z" -> s.t_z [] OTHER -> Scalar(s.hyp[x])]
Learnable(s) == DOMAIN Initial(s) \ {Fixes(f) : f \in s.fix}
Domain(s, x) == CASE x = "t_u" -> TuDomain(s.t_u)
                  [] x = "t_z" -> Anything
                  [] x = "gamma_factor" -> Between("1", "10000")
                  [] OTHER -> Positive

\* The attributes of an instance: a value, or a ratio of two.
Attrs(s, v) ==
  LET Get(x) == IF x \in DOMAIN v THEN [var |-> x, val |-> v[x]] ELSE [var |-> None, val |-> Initial(s)[x]]
      Plain(x) == [num |-> Get(x), den |-> [var |-> None, val |-> <<"1">>]]
      Const(x) == [num |-> [var |-> None, val |-> <<x>>], den |-> [var |-> None, val |-> <<"1">>]]
  IN IF Kind = "RGPCM"
     THEN [a \in {"noise","alpha","alpha_t","lam","gamma","gamma_t","t_u"} |->
            CASE a = "lam" -> Plain("lambda")
              [] a = "gamma" -> [num |-> Get("alpha"), den |-> Get("gamma_factor")]
              [] a = "gamma_t" -> Const(s.gamma_t)
              [] OTHER -> Plain(a)]
     ELSE [a \in {"noise","alpha","alpha_t","gamma","omega","t_u","t_z"} |-> Plain(a)]

Setup(k) ==
  [kind |-> Kind, fix |-> RE(SUBSET Flags), t_u |-> RE(TUs), t_z |-> RE(TZs), gamma_t |-> RE({"1","3/2"}),
   hyp |-> [noise |-> RE({"1/8","1/100","2"}), alpha |-> RE({"1/2","1","3"}), alpha_t |-> RE({"1","1/2","3"}),
            gamma |-> IF Kind = "RGPCM" THEN RE({"1/8","1/4","1/3"}) ELSE RE({"1","1/3","2"}),
            omega |-> RE({"1","5/2","6"}), lambda |-> RE({"1","7/2","1/4"})],
   scheme |-> RE({"structured", "mean-field-ca"})]

Emission(op, arg, old, new) ==
  [op |-> op, arg |-> arg, names |-> DOMAIN new, values |-> new,
   domains |-> [x \in DOMAIN new |-> Domain(setup, x)], attrs |-> Attrs(setup, new), moved |-> moved']

\* (A random choice in an initial state would be the same for all behaviours.)
Init == setup = <<>> /\ val = <<>> /\ out = <<>> /\ n = -1 /\ moved = "no"
Begin == /\ n = -1 /\ n' = 0
         /\ \E s \in {Setup(n)} : setup' = s /\ val' = [x \in Learnable(s) |-> Initial(s)[x]]
         /\ UNCHANGED <<out, moved>>

Inside(d, w, k) == \* the k-th of some values in the domain
  IF d.lo = None THEN <<"-7","-1/3","0","2/5","9">>[k]
  ELSE IF d.hi = None THEN <<"1/1000","1/7","1","13/4","250">>[k]
  ELSE RAdd(d.lo, RMul(RSub(d.hi, d.lo), <<"1/50","1/4","1/2","5/7","24/25">>[k]))
Unknown(w) == [i \in DOMAIN w |-> "?"]

\* A variable is given a value.
Assign == \E x \in {RE(DOMAIN val)} : \E ks \in {[i \in DOMAIN val[x] |-> RE(1..5)]} :
  LET new == [i \in DOMAIN val[x] |-> Inside(Domain(setup, x), val[x][i], ks[i])]
  IN /\ val' = [val EXCEPT ![x] = new]
     /\ moved' = "yes"
     /\ out' = Append(out, Emission("assign", [name |-> x, value |-> new], val, val'))

\* The optimiser moves everything, or one variable.
Draws == {"-60", "-12", "-5/2", "0", "1/3", "5", "30"}
Small == {"-1/4", "-1/10", "0", "1/8", "1/4"}
Move == \E size \in {RE({"far", "far", "small"})} :
        \E xs \in {IF RE({TRUE, FALSE}) THEN DOMAIN val ELSE {RE(DOMAIN val)}} :
        \E arg \in {[x \in xs |-> [i \in DOMAIN val[x] |-> IF size = "far" THEN RE(Draws) ELSE RE(Small)]]} :
  /\ val' = [x \in DOMAIN val |-> IF x \in xs THEN Unknown(val[x]) ELSE val[x]]
  /\ moved' = IF size = "small" THEN moved ELSE "yes"
  /\ out' = Append(out, Emission("move", [size |-> size, to |-> arg], val, val'))

\* An instance with other variables than those of the model leaves the model alone.
Other == \E x \in {RE(DOMAIN val)} : \E k \in {RE(1..5)} :
  LET new == [i \in DOMAIN val[x] |-> Inside(Domain(setup, x), val[x][i], k)]
  IN /\ UNCHANGED <<val, moved>>
     /\ out' = Append(out, [Emission("other", [name |-> x, value |-> new], val, val)
                            EXCEPT !.attrs = Attrs(setup, [val EXCEPT ![x] = new])])

\* Instances do not follow the variables any more.
Look == /\ UNCHANGED <<val, moved>>
        /\ out' = Append(out, Emission("look", <<>>, val, val))

Next == Begin \/ (n \in 0..(Steps - 1) /\ n' = n + 1 /\ UNCHANGED setup /\ \E c \in {RE(1..7)} :
  IF c <= 2 THEN Assign ELSE IF c <= 5 THEN Move ELSE IF c = 6 THEN Other ELSE Look)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InDomain(d, r) == /\ d.lo # None => RLt(d.lo, r)
                  /\ d.hi # None => RLt(r, d.hi)
Known(w) == \A i \in DOMAIN w : w[i] # "?"
\* Every known value is valid, from the start.
Valid == n >= 0 => \A x \in DOMAIN val : \A i \in DOMAIN val[x] : val[x][i] = "?" \/ InDomain(Domain(setup, x), val[x][i])
\* Domains are not empty and contain all inducing points, so learning can start anywhere.
Open == n >= 0 => \A x \in DOMAIN val : LET d == Domain(setup, x) IN d.lo # None /\ d.hi # None => RLt(d.lo, d.hi)
\* What is fixed is not a variable; nothing else is missing.
Exactly == n >= 0 => DOMAIN val = DOMAIN Initial(setup) \ {Fixes(f) : f \in setup.fix}
\* If the window and the factor are known, the inter-domain decay is below that of the window.
Below == (n >= 0 /\ Kind = "RGPCM" /\ "gamma_factor" \in DOMAIN val /\ Known(val["gamma_factor"])) => RLt("1", val["gamma_factor"][1])
\* A step changes what it says only.
Frame == [][ n >= 0 => \A x \in DOMAIN val : val'[x] # val[x] =>
              LET o == out'[Len(out')] IN (o.op = "assign" /\ o.arg.name = x) \/ (o.op = "move" /\ x \in DOMAIN o.arg.to) ]_vars
Emit == n = Steps => WriteLine(ToJson([setup |-> setup, init |-> Initial(setup), steps |-> out]), Out)
=============================================================================
