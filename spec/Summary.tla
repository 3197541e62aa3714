------------------------------- MODULE Summary -------------------------------
(***************************************************************************)
(* What summarises samples: the samples arrive one at a time.  The sums of *)
(* the samples and of their squares are maintained, and the samples are    *)
(* kept in order; the mean, the variance and the quantiles follow.         *)
(***************************************************************************)
EXTENDS BigRat, Sequences, FiniteSets, TLC, Json

CONSTANTS Out, Max, Grid

Values == IF Grid = "signed" THEN {"-1", "0", "1/2", "3"} ELSE {"1/8", "1", "5/2"}
\* Probability in the lower tail of every band.
Tails == [b68 |-> "4/25", b95 |-> "1/40", b99 |-> "3/2000"]

VARIABLES xs, sorted, sum, sumsq
vars == <<xs, sorted, sum, sumsq>>

RECURSIVE Insert(_,_)
Insert(s, x) == IF s = <<>> THEN <<x>>
                ELSE IF RLe(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
Init == xs = <<>> /\ sorted = <<>> /\ sum = "0" /\ sumsq = "0"
Sample(x) == /\ xs' = Append(xs, x) /\ sorted' = Insert(sorted, x)
             /\ sum' = RAdd(sum, x) /\ sumsq' = RAdd(sumsq, RSq(x))
Next == Len(xs) < Max /\ \E x \in Values : Sample(x)
Spec == Init /\ [][Next]_vars

n == Len(xs)
Mean == RDiv(sum, RInt(n))
Var == RSub(RDiv(sumsq, RInt(n)), RSq(Mean))
\* Between the order statistics on both sides, linearly.
Quantile(p) ==
  LET at == RMul(RInt(n - 1), p)
      k == RFloor(at)
      f == RSub(at, RInt(k))
  IN IF k + 1 >= n THEN sorted[n]
     ELSE RAdd(sorted[k + 1], RMul(f, RSub(sorted[k + 2], sorted[k + 1])))
Lower(b) == Quantile(Tails[b])
Upper(b) == Quantile(RSub("1", Tails[b]))

-----------------------------------------------------------------------------
Ordered == \A i \in 1..(n - 1) : RLe(sorted[i], sorted[i + 1])
Sorted == n > 0 => Ordered /\ \A v \in Values :
  Cardinality({i \in 1..n : xs[i] = v}) = Cardinality({i \in 1..n : sorted[i] = v})
Nested == n > 0 =>
  /\ RLe(sorted[1], Lower("b99")) /\ RLe(Lower("b99"), Lower("b95")) /\ RLe(Lower("b95"), Lower("b68"))
  /\ RLe(Lower("b68"), Upper("b68"))
  /\ RLe(Upper("b68"), Upper("b95")) /\ RLe(Upper("b95"), Upper("b99")) /\ RLe(Upper("b99"), sorted[n])
  /\ RSign(Var) >= 0 /\ RLe(sorted[1], Mean) /\ RLe(Mean, sorted[n])
\* The bands cannot be skewed by turning the samples around.
Symmetric == n > 0 => \A b \in DOMAIN Tails :
  LET neg == [i \in 1..n |-> RNeg(sorted[n + 1 - i])]
      at == RMul(RInt(n - 1), Tails[b])
      k == RFloor(at)
  IN n > 1 => Upper(b) = RNeg(RAdd(neg[k + 1], RMul(RSub(at, RInt(k)), RSub(neg[k + 2], neg[k + 1]))))
Emit == n > 0 => WriteLine(ToJson([xs |-> xs, mean |-> Mean, var |-> Var,
    lower |-> [b \in DOMAIN Tails |-> Lower(b)], upper |-> [b \in DOMAIN Tails |-> Upper(b)]]), Out)
=============================================================================
