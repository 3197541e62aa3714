-------------------------------- MODULE Series --------------------------------
(***************************************************************************)
(* Autocovariances of a series that arrives one value at a time.           *)
(* Maintained are the number, the sum, the products at every lag, and the  *)
(* sums of the first and last values that the products leave out; the      *)
(* estimates follow from these, and equal their definitions.               *)
(***************************************************************************)
EXTENDS BigRat, Sequences, TLC, Json

CONSTANTS Out, Max, Many
Values == IF Many THEN {"-1", "0", "1/2", "2", "-7/3"} ELSE {"-1", "0", "1/2", "2"}

VARIABLES xs, sum, prod
vars == <<xs, sum, prod>>
n == Len(xs)
Init == xs = <<>> /\ sum = "0" /\ prod = <<>>
\* prod[k + 1] is the sum of the products at lag k.
Value(x) == /\ xs' = Append(xs, x)
            /\ sum' = RAdd(sum, x)
            /\ prod' = [k \in 1..(n + 1) |-> IF k = n + 1 THEN RMul(xs'[1], x)
                                              ELSE RAdd(prod[k], RMul(x, xs'[n + 2 - k]))]
Next == n < Max /\ \E x \in Values : Value(x)
Spec == Init /\ [][Next]_vars

Mean == RDiv(sum, RInt(n))
Head0(k) == RSumTo(LAMBDA i : xs[i], 1, k)
Tail0(k) == RSumTo(LAMBDA i : xs[i], n - k + 1, n)
\* Sum of the products of deviations from the mean at lag k.
Dev(k) == RAdd(RSub(prod[k + 1], RMul(Mean, RSub(RSub(RMul("2", sum), Head0(k)), Tail0(k)))),
               RMul(RInt(n - k), RSq(Mean)))
\* Divided by the number of products, or, with a triangular window, by that at lag zero.
Cov(k) == RDiv(Dev(k), RInt(n - k))
WCov(k) == RDiv(Dev(k), RInt(n))

-----------------------------------------------------------------------------
Definition == n > 0 => \A k \in 0..(n - 1) :
  Dev(k) = RSumTo(LAMBDA i : RMul(RSub(xs[i], Mean), RSub(xs[i + k], Mean)), 1, n - k)
\* The windowed estimate is one of a valid process: bounded by the variance; all of it sums to zero.
Windowed == n > 0 => /\ \A k \in 0..(n - 1) : RLe(RAbs(WCov(k)), WCov(0))
                     /\ RAdd(WCov(0), RMul("2", RSumTo(LAMBDA k : WCov(k), 1, n - 1))) = "0"
Emit == n > 0 => WriteLine(ToJson([xs |-> xs, cov |-> [k \in 1..n |-> Cov(k - 1)], wcov |-> [k \in 1..n |-> WCov(k - 1)],
    constant |-> WCov(0) = "0"]), Out)
=============================================================================
