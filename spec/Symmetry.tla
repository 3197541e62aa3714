------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* What the answers of a model may depend on.  The same problem is told in *)
(* different ways: the observations in another order, other arrays, other  *)
(* units of time and of the signal, another origin of time, the other sign,*)
(* time backwards, every observation twice with twice the noise.  Every    *)
(* quantity has a dimension, which follows from the equations of the model;*)
(* with it, a retelling determines every answer from the first one.        *)
(***************************************************************************)
EXTENDS BigRat, FiniteSets, Bags, TLC, Json

CONSTANTS Out, Kind, Steps

RE(X) == RandomElement(X)

-----------------------------------------------------------------------------
(* Dimensions: signal^s time^t, exponents in halves. *)
D(s, t) == [s |-> s, t |-> t]
Dim ==
  [one |-> D(0, 0), t |-> D(0, 2), y |-> D(2, 0), f |-> D(2, 0), noise |-> D(4, 0), kernel |-> D(4, 0),
   psd |-> D(4, 2), freq |-> D(0, -2), window |-> D(0, 2), scale |-> D(0, 2), alpha |-> IF Kind = "RGPCM" THEN D(0, -2) ELSE D(0, -4),
   white |-> D(0, -1), alpha_t |-> D(2, -1),
   h |-> IF Kind = "RGPCM" THEN D(2, -2) ELSE D(2, -1),
   x |-> IF Kind = "RGPCM" THEN D(0, 0) ELSE D(0, -1),
   var |-> D(4, 0), mean |-> D(2, 0)]
\* Both sides of equations of the model: products.
Equations ==
  {<<<<"f">>, <<"h", "x", "t">>>>,                      \* the convolution
   <<<<"white", "white", "t">>, <<"one">>>>,            \* white noise integrates to one
   <<<<"y">>, <<"f">>>>, <<<<"noise">>, <<"y", "y">>>>, <<<<"kernel">>, <<"f", "f">>>>,
   <<<<"psd">>, <<"kernel", "t">>>>, <<<<"freq", "t">>, <<"one">>>>,
   <<<<"mean">>, <<"y">>>>, <<<<"var">>, <<"y", "y">>>>}
  \cup (IF Kind = "RGPCM"
        THEN {<<<<"h">>, <<"alpha_t", "white">>>>, <<<<"x">>, <<"one">>>>, <<<<"alpha", "window">>, <<"one">>>>}
        ELSE {<<<<"h">>, <<"alpha_t">>>>, <<<<"x">>, <<"white">>>>, <<<<"alpha", "window", "window">>, <<"one">>>>})
RECURSIVE Total(_, _)
Total(p, c) == IF p = <<>> THEN 0 ELSE Dim[Head(p)][c] + Total(Tail(p), c)
ASSUME \A e \in Equations : \A c \in {"s", "t"} : Total(e[1], c) = Total(e[2], c)
\* Half the exponent of two by which a quantity changes.
Factor(w, q) == w.amp * Dim[q].s + w.unit * Dim[q].t

-----------------------------------------------------------------------------
(* amp, unit: exponents of two; doubled: how often everything was repeated. *)
Same == [amp |-> 0, unit |-> 0, zero |-> "0", sign |-> 1, u |-> 1, z |-> 1, mirror |-> FALSE, doubled |-> 0]

VARIABLES setup, first, obs, w, ledger, form, out, n
vars == <<setup, first, obs, w, ledger, form, out, n>>

Forms == {"numpy", "jax", "strided", "readonly", "integer", "single", "reversed-view"}
Times == {"-3", "-2", "-1", "0", "1", "2", "3"}
Values == {"-4", "-2", "-1", "0", "1", "2", "3", "6"}
Two(k) == IF k >= 0 THEN RInt(2 ^ k) ELSE RDiv("1", RInt(2 ^ (-k)))

Init == setup = <<>> /\ first = <<>> /\ obs = <<>> /\ w = Same /\ ledger = [tp |-> "0", two |-> "0"] /\ form = [t |-> "numpy", y |-> "numpy"] /\ out = <<>> /\ n = -1
Begin ==
  /\ n = -1 /\ n' = 0
  /\ \E s \in {[kind |-> Kind, window |-> RE({"2", "3"}), scale |-> RE({"1", "3/2"}), noise |-> RE({-4, -2, 0}),
                n_u |-> RE({3, 4, 5}), n_z |-> RE({3, 5, 6}), w_u |-> [i \in 1..5 |-> RE(-2..2)], w_z |-> [i \in 1..24 |-> RE(-2..2)]]} :
     \E m \in {RE(1..5)} : \E o \in {[i \in 1..m |-> [t |-> RE(Times), y |-> RE(Values)]]} :
       setup' = s /\ first' = o /\ obs' = o
  /\ UNCHANGED <<w, ledger, form, out>>

Told(op) == out' = Append(out, [op |-> op, obs |-> obs', world |-> w', ledger |-> ledger', form |-> form',
                                factors |-> [q \in DOMAIN Dim |-> Factor(w', q)]])
Keep == UNCHANGED <<setup, first>>
Map(g(_)) == obs' = [i \in DOMAIN obs |-> g(obs[i])]

Swap == /\ Len(obs) > 1
        /\ \E i \in {RE(DOMAIN obs)} : \E j \in {RE(DOMAIN obs \ {i})} :
             obs' = [obs EXCEPT ![i] = obs[j], ![j] = obs[i]]
        /\ UNCHANGED <<w, ledger, form>> /\ Told("swap")
Turn == /\ obs' = [i \in DOMAIN obs |-> obs[Len(obs) + 1 - i]]
        /\ UNCHANGED <<w, ledger, form>> /\ Told("turn")
Represent == /\ \E a \in {RE(Forms)} : \E b \in {RE(Forms)} : form' = [t |-> a, y |-> b]
             /\ UNCHANGED <<obs, w, ledger>> /\ Told("represent")
Stretch == \E k \in {RE({j \in {-6, -2, -1, 1, 2, 6} : w.unit + j \in -8..8})} :
  /\ Map(LAMBDA o : [o EXCEPT !.t = RMul(o.t, Two(k))])
  /\ w' = [w EXCEPT !.unit = @ + k, !.zero = RMul(@, Two(k))]
  /\ UNCHANGED <<ledger, form>> /\ Told("stretch")
\* The density of a value is per unit of the signal.
Amplify == \E k \in {RE({j \in {-8, -5, -2, -1, 1, 2, 8} : w.amp + j \in -9..12})} :
  /\ Map(LAMBDA o : [o EXCEPT !.y = RMul(o.y, Two(k))])
  /\ w' = [w EXCEPT !.amp = @ + k]
  /\ ledger' = [ledger EXCEPT !.two = RSub(@, RInt(Len(obs) * k))]
  /\ UNCHANGED form /\ Told("amplify")
Shift == \E d \in {RE({"-5", "-1", "1/2", "3", "64"})} :
  /\ Map(LAMBDA o : [o EXCEPT !.t = RAdd(o.t, d)])
  /\ w' = [w EXCEPT !.zero = RAdd(@, d)]
  /\ UNCHANGED <<ledger, form>> /\ Told("shift")
\* The signal is a product of the filter and the excitation.
Negate == \E a \in {RE({"u", "z"})} :
  /\ Map(LAMBDA o : [o EXCEPT !.y = RNeg(o.y)])
  /\ w' = [w EXCEPT ![a] = -@, !.sign = -@]
  /\ UNCHANGED <<ledger, form>> /\ Told("negate")
Both == /\ w' = [w EXCEPT !.u = -@, !.z = -@]
        /\ UNCHANGED <<obs, ledger, form>> /\ Told("both")
\* Only the acausal model has no direction of time.
Mirror == /\ Kind = "GPCM"
          /\ Map(LAMBDA o : [o EXCEPT !.t = RNeg(o.t)])
          /\ w' = [w EXCEPT !.mirror = ~@, !.zero = RNeg(@)]
          /\ UNCHANGED <<ledger, form>> /\ Told("mirror")
\* Log of the noise variance, as an exponent of two.
LogNoise == setup.noise + 2 * w.amp + w.doubled
Double == /\ w.doubled < 2
          /\ obs' = obs \o obs
          /\ w' = [w EXCEPT !.doubled = @ + 1]
          /\ ledger' = [tp |-> RSub(ledger.tp, RDiv(RInt(Len(obs)), "2")),
                        two |-> RSub(ledger.two, RAdd(RDiv(RInt(Len(obs) * LogNoise), "2"), RInt(Len(obs))))]
          /\ UNCHANGED form /\ Told("double")

Next == Begin \/ (n \in 0..(Steps - 1) /\ n' = n + 1 /\ Keep /\
  \E c \in {RE(1..13)} :
  IF c = 1 /\ Len(obs) > 1 THEN Swap ELSE IF c = 2 THEN Turn ELSE IF c <= 4 THEN Represent ELSE IF c <= 6 THEN Stretch
  ELSE IF c <= 8 THEN Amplify ELSE IF c = 9 THEN Shift ELSE IF c = 10 THEN Negate ELSE IF c = 11 THEN Both
  ELSE IF c = 12 THEN (IF Kind = "GPCM" THEN Mirror ELSE Both) ELSE (IF w.doubled < 2 THEN Double ELSE Turn))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Where all of it ends, from where it began: the path does not matter. *)
Image(o) == [t |-> RAdd(RMul(IF w.mirror THEN RNeg(o.t) ELSE o.t, Two(w.unit)), w.zero),
             y |-> RMul(RMul(o.y, RInt(w.sign)), Two(w.amp))]
Times2(b) == [x \in DOMAIN b |-> (2 ^ w.doubled) * b[x]]
BagOf(s) == LET e == {s[i] : i \in DOMAIN s} IN [x \in e |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Path == n >= 0 => BagOf(obs) = Times2(BagOf([i \in DOMAIN first |-> Image(first[i])]))
Sign == w.sign = w.u * w.z
\* The logarithms of the constants in front of two likelihoods.
Front(m, k) == [tp |-> RDiv(RInt(-m), "2"), two |-> RDiv(RInt(-m * k), "2")]
Ledger == n >= 0 =>
  LET a == Front(Len(first), setup.noise)
      b == Front(Len(obs), LogNoise)
  IN ledger = [tp |-> RSub(b.tp, a.tp), two |-> RSub(b.two, a.two)]
\* The sum of squares over the noise is the same however it is told.
RECURSIVE Squares(_)
Squares(s) == IF s = <<>> THEN "0" ELSE RAdd(RMul(Head(s).y, Head(s).y), Squares(Tail(s)))
Fit == n >= 0 => RDiv(Squares(obs), Two(LogNoise)) = RDiv(Squares(first), Two(setup.noise))
\* Differences of times in units of the window.
Lags == n >= 0 => \A i \in DOMAIN obs : \A j \in DOMAIN obs : \E a \in DOMAIN first : \E b \in DOMAIN first :
          RSub(obs[i].t, obs[j].t) = RMul(Two(w.unit), RMul(IF w.mirror THEN "-1" ELSE "1", RSub(first[a].t, first[b].t)))
Emit == n = Steps => WriteLine(ToJson([setup |-> setup, first |-> first, steps |-> out]), Out)
=============================================================================
