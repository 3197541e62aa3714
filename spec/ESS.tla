-------------------------------- MODULE ESS --------------------------------
(***************************************************************************)
(* Elliptical slice sampling.                                              *)
(*                                                                         *)
(* First, the algorithm itself on a circle of N angles, with the current   *)
(* state at angle 0: the bracket is the whole circle, cut somewhere; an    *)
(* angle is drawn uniformly from the bracket; if it is not on the slice,   *)
(* the bracket is cut there, towards the current state.  TLC explores      *)
(* every slice and every choice, and checks that the kernel is reversible: *)
(* this is why shrinking towards the current state is right.               *)
(*                                                                         *)
(* Second, random environments for the implementation: what the likelihood *)
(* and the prior return, what random numbers come, and what is called.     *)
(* What the implementation then does is judged by ESSTrace.tla.            *)
(***************************************************************************)
EXTENDS BigRat, FiniteSets, TLC, Json

CONSTANTS Out, N, Cases

\* Angles are 0..N-1. A bracket that contains x: it reaches a below x and b above x, in total
\* a + b + 1 angles.
RECURSIVE Reach(_,_,_,_,_)
\* The probability to end at angle x + d, d in -a..b, for the slice S (a set of angles).
Reach(S, x, a, b, d) ==
  LET at(k) == (x + k + 2 * N) % N
      one(k) == IF at(k) \in S THEN (IF k = d THEN "1" ELSE "0")
                ELSE IF k > 0 THEN (IF d < k THEN Reach(S, x, a, k - 1, d) ELSE "0")
                ELSE (IF d > k THEN Reach(S, x, -k - 1, b, d) ELSE "0")
  IN RDiv(RSumTo(one, -a, b), RInt(a + b + 1))
\* Average over the cut: between any two neighbouring angles.
Kernel(S, x, z) ==
  LET cut(b) == RSumTo(LAMBDA k : IF (x + k + 2 * N) % N = z THEN Reach(S, x, N - 1 - b, b, k) ELSE "0", -(N - 1 - b), b)
  IN RDiv(RSumTo(cut, 0, N - 1), RInt(N))

VARIABLES slice, cur, lo, hi, phase, case
vars == <<slice, cur, lo, hi, phase, case>>

RE(X) == RandomElement(X)
Num == {"-2","-1","-1/2","1/4","1/2","1","3/2","3"}
Vec(n) == TLCEval([i \in 1..n |-> RE(Num)])
Fracs == {"0", "1/1000", "1/8", "1/4", "1/2", "5/8", "7/8", "999/1000"}
Exps == {"1/1000000", "1/10", "1", "1", "3", "20"}
Liks == {"flat", "gauss", "far", "half", "nan", "storm", "spike", "steps"}
Call(n) == LET op == TLCEval(RE({"sample","sample","sample","sample","sample","move","trace"}))
           IN [op |-> op, num |-> IF op = "trace" THEN RE({1, 3, 24}) ELSE RE({0, 1, 1, 2, 5}), x |-> Vec(n)]
Environment(k) ==
  LET n == TLCEval(RE({1, 2, 2, 3})) l == TLCEval(RE(Liks))
  IN TLCEval([k |-> k, n |-> n, col |-> RE(BOOLEAN), given |-> RE(BOOLEAN), x0 |-> Vec(n), lik |-> l,
      a |-> Vec(n), m |-> Vec(n),
      prior |-> TLCEval([j \in 1..7 |-> Vec(n)]),
      storm |-> TLCEval(RE({{1}, {2, 3}, {1, 2, 3}, {4, 6}})),
      \* Sometimes one that rejects as slowly as possible.
      frac |-> TLCEval(IF RE(1..4) = 1 THEN <<RE(Fracs)>> ELSE [j \in 1..RE({5, 11, 13}) |-> RE(Fracs)]),
      exp |-> TLCEval([j \in 1..5 |-> RE(Exps)]),
      real |-> RE(1..5) = 1,       \* Real random numbers instead.
      calls |-> TLCEval([j \in 1..RE(3..6) |-> Call(n)])])

Init == \/ /\ slice \in SUBSET (0..N-1) /\ cur \in slice /\ lo = 0 /\ hi = 0 /\ phase = "cut" /\ case = <<>>
        \/ /\ slice = {} /\ cur = 0 /\ lo = 0 /\ hi = 0 /\ phase = "env"
           /\ \E k \in 1..Cases : case = Environment(k)
Cut == /\ phase = "cut" /\ \E b \in 0..N-1 : hi' = b /\ lo' = -(N - 1 - b)
       /\ phase' = "draw" /\ UNCHANGED <<slice, cur, case>>
Draw == /\ phase = "draw"
        /\ \E k \in lo..hi :
             IF (cur + k + 2 * N) % N \in slice
             THEN phase' = "cut" /\ cur' = (cur + k + 2 * N) % N /\ lo' = 0 /\ hi' = 0
             ELSE /\ phase' = phase /\ cur' = cur
                  /\ IF k > 0 THEN hi' = k - 1 /\ lo' = lo ELSE lo' = k + 1 /\ hi' = hi
        /\ UNCHANGED <<slice, case>>
Next == Cut \/ Draw

-----------------------------------------------------------------------------
\* The current state is in the bracket: a draw can always be accepted.
InBracket == phase = "draw" => lo <= 0 /\ 0 <= hi /\ hi - lo < N
OnSlice == phase \in {"cut", "draw"} => cur \in slice
Reversible == phase = "cut" =>
  /\ \A z \in slice : Kernel(slice, cur, z) = Kernel(slice, z, cur)
  /\ RSumTo(LAMBDA z : IF z \in slice THEN Kernel(slice, cur, z) ELSE "0", 0, N - 1) = "1"
Emit == phase = "env" => WriteLine(ToJson(case), Out)
=============================================================================
