------------------------------- MODULE Matrices -------------------------------
(***************************************************************************)
(* A matrix with known eigenvalues is rotated and reflected, and gets an   *)
(* antisymmetric part; the positive semi-definite matrix that is nearest   *)
(* to it, and the inverse of that on its range, move along.                *)
(*                                                                         *)
(* A permutation is changed by transpositions; so is its inverse.          *)
(***************************************************************************)
EXTENDS Integers, RMat, FiniteSets, Json

CONSTANTS Out, Runs, Steps
RE(X) == RandomElement(X)

Angles == {<<"3/5","4/5">>, <<"5/13","-12/13">>, <<"8/17","15/17">>, <<"-7/25","24/25">>}
\* Also repeated ones, and pairs of opposite sign.
Eigs == {"-3","-1","-1/4","1/4","1","1","3","5/2"}
RandRun(k) == LET n == TLCEval(RE(1..4)) IN
  [k |-> k, n |-> n, e |-> TLCEval([i \in 1..n |-> IF RE(1..7) = 1 THEN "0" ELSE RE(Eigs)]),
   script |-> TLCEval([s \in 1..Steps |-> [op |-> RE({"rotate","rotate","rotate","reflect","skew","swap"}),
     i |-> RE(1..n), j |-> RE(1..n), angle |-> RE(Angles), x |-> RE({"1","-1/2","3"})]])]

VARIABLES run, at, q, skew, perm, inverse, log
vars == <<run, at, q, skew, perm, inverse, log>>
n == run.n
Diag(e) == TLCEval([i \in DOMAIN e |-> [j \in DOMAIN e |-> IF i = j THEN e[i] ELSE "0"]])
With(f(_)) == MMul3(q, Diag([i \in 1..n |-> f(run.e[i])]), MT(q))
Keep(x) == x
Plus(x) == IF RSign(x) > 0 THEN x ELSE "0"
Invert(x) == IF RSign(x) > 0 THEN RDiv("1", x) ELSE "0"
Sym == With(Keep)
A == MPlus(Sym, skew)
Nearest == With(Plus)
Inverse == With(Invert)

Init == \E k \in 1..Runs : /\ run = TLCEval(RandRun(k)) /\ at = 0 /\ q = MEye(run.n) /\ skew = MZeros(run.n, run.n)
                           /\ perm = [i \in 1..(run.n + 1) |-> i] /\ inverse = perm /\ log = <<>>
Rotate(i, j, c, s) == q' = TLCEval([a \in 1..n |-> [b \in 1..n |->
   IF a = i THEN RSub(RMul(c, q[i][b]), RMul(s, q[j][b]))
   ELSE IF a = j THEN RAdd(RMul(s, q[i][b]), RMul(c, q[j][b])) ELSE q[a][b]]])
Entry == [a |-> A', nearest |-> Nearest', inverse |-> Inverse', singular |-> "0" \in {run.e[i] : i \in 1..n},
          perm |-> perm', inv |-> inverse']
Step == LET x == run.script[at + 1] IN
  /\ at < Steps /\ at' = at + 1 /\ UNCHANGED run
  /\ IF x.op = "rotate" /\ x.i # x.j THEN Rotate(x.i, x.j, x.angle[1], x.angle[2])
     ELSE IF x.op = "reflect" THEN q' = TLCEval([q EXCEPT ![x.i] = [b \in 1..n |-> RNeg(q[x.i][b])]])
     ELSE q' = q
  /\ skew' = IF x.op = "skew" /\ x.i # x.j
             THEN TLCEval([skew EXCEPT ![x.i][x.j] = RAdd(@, x.x), ![x.j][x.i] = RSub(@, x.x)]) ELSE skew
  \* The positions i and i + j (cyclically) are exchanged.
  /\ LET s == x.i + x.j b == IF s > n + 1 THEN s - n - 1 ELSE s IN
     /\ perm' = [perm EXCEPT ![x.i] = perm[b], ![b] = perm[x.i]]
     /\ inverse' = [inverse EXCEPT ![perm[x.i]] = b, ![perm[b]] = x.i]
Log == log' = Append(log, Entry)
Next == Step /\ Log
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Orthogonal == MOuter(q) = MEye(n)
\* Nearest: symmetric, and what is taken away is orthogonal to it and of the other sign.
Projection == LET p == Nearest r == MMinus(p, Sym) IN
  /\ MSym(p) /\ MTimes(p, r) = MZeros(n, n)
  /\ \A k \in 1..n : LET v == MCol([i \in 1..n |-> q[i][k]]) IN
       /\ RSign(MMul3(MT(v), p, v)[1][1]) >= 0 /\ RSign(MMul3(MT(v), r, v)[1][1]) >= 0
\* The conditions of Moore and Penrose.
Penrose == LET p == Nearest g == Inverse IN
  /\ MMul3(p, g, p) = p /\ MMul3(g, p, g) = g /\ MSym(MTimes(p, g)) /\ MSym(MTimes(g, p))
Composes == \A i \in 1..(n + 1) : inverse[perm[i]] = i /\ perm[inverse[i]] = i
Emit == at = Steps => WriteLine(ToJson([k |-> run.k, e |-> run.e, log |-> log]), Out)
=============================================================================
