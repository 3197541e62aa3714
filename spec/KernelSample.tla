----------------------------- MODULE KernelSample -----------------------------
(***************************************************************************)
(* Recorded draws from the prior: kernel matrices K, and functions y.      *)
(* For a model with the precision of u, prior kernel and cross terms as in *)
(* KernelApprox.tla, there must be a v = cov(u)^-1 u with                  *)
(*   kappa K(i, j) = prior(i, j) - tr(cov(u)^-1 X(i, j)) + v' X(i, j) v,   *)
(* where kappa is one, or for normalised draws such that K(1, 1) = 1.      *)
(* This is linear in W = v v' and kappa.  Given these, the draws must be   *)
(* distributed as they should be: u as its prior, y as a function with     *)
(* kernel K and noise.                                                     *)
(***************************************************************************)
EXTENDS RMat, Json

CONSTANTS In, Out
Trace == JsonDeserialize(In)
Bits == 120
Tr(a) == TLCEval([i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> RRound(a[i][j], Bits)]])

Mu(r) == Rows(r.ku)
NT(r) == Rows(r.prior)
\* Upper triangles, row by row.
RECURSIVE PairsFrom(_,_,_)
PairsFrom(i, j, k) == IF i > k THEN <<>> ELSE << <<i, j>> >> \o (IF j = k THEN PairsFrom(i + 1, i + 1, k) ELSE PairsFrom(i, j + 1, k))
Pairs(k) == PairsFrom(1, 1, k)
Unknowns(r) == Pairs(Mu(r))
Equations(r) == Pairs(NT(r))
Coef(r, e, x) == LET X == r.cross[e[1]][e[2]]
                 IN IF x[1] = x[2] THEN X[x[1]][x[1]] ELSE RAdd(X[x[1]][x[2]], X[x[2]][x[1]])
Base(r, e, ki) == RSub(r.prior[e[1]][e[2]], MDot(ki, r.cross[e[1]][e[2]]))
\* The linear equations for a draw.
Lhs(r, d) == LET es == Equations(r) xs == Unknowns(r)
  IN TLCEval([i \in DOMAIN es |-> TLCEval([j \in 1..(Len(xs) + (IF r.normalise THEN 1 ELSE 0)) |->
       IF j <= Len(xs) THEN Coef(r, es[i], xs[j]) ELSE RNeg(d.k[es[i][1]][es[i][2]])])])
Rhs(r, d, ki) == LET es == Equations(r)
  IN TLCEval([i \in DOMAIN es |-> <<RSub(IF r.normalise THEN "0" ELSE d.k[es[i][1]][es[i][2]], Base(r, es[i], ki))>>])
Fitted(r, d, ki) ==
  LET g == Lhs(r, d) b == Rhs(r, d, ki)
      x == Tr(MSolve(MTimes(MT(g), g), MTimes(MT(g), b)))
      res == MMinus(MTimes(g, x), b)
      xs == Unknowns(r)
      at(i, j) == CHOOSE k \in DOMAIN xs : xs[k] = <<IF i < j THEN i ELSE j, IF i < j THEN j ELSE i>>
  IN [w |-> MMake(Mu(r), Mu(r), LAMBDA i, j : x[at(i, j)][1]),
      kappa |-> IF r.normalise THEN x[Len(x)][1] ELSE "1",
      residual |-> RRound(MDot(res, res), Bits), size |-> RRound(MDot(b, b), Bits)]
Noisy(r, d) == MPlus(d.k, MScale(MEye(NT(r)), r.s2))

Div(a, b) == RRound(RDiv(a, b), Bits)
R(a) == RRound(a, Bits)
\* Statistics of a draw: the value, its mean, and its variance.
Stat(name, got, want, var) == [name |-> name, got |-> R(got), want |-> R(want), var |-> R(var)]
Stats(r, ki, f, y, s) ==
  LET xs == Unknowns(r)
      times == 1..NT(r)
      v == Tr(MSolve(s, MCol(y)))
  IN [k \in 1..Len(xs) |-> LET x == xs[k] IN
        Stat("u" \o ToString(x), f.w[x[1]][x[2]], ki[x[1]][x[2]],
             RAdd(RMul(ki[x[1]][x[1]], ki[x[2]][x[2]]), RSq(ki[x[1]][x[2]])))]
     \o <<Stat("whole u", MDot(r.ku, f.w), RInt(Mu(r)), RInt(2 * Mu(r))),
          Stat("whole y", MDot(MCol(y), v), RInt(NT(r)), RInt(2 * NT(r)))>>
     \o [i \in times |-> Stat("y" \o ToString(i), Div(RSq(y[i]), s[i][i]), "1", "2")]
     \o [i \in times |-> LET j == (i % NT(r)) + 1
                             p == Div(RSq(s[i][j]), RMul(s[i][i], s[j][j])) IN
          Stat("y" \o ToString(<<i, j>>), Div(RMul(RMul(y[i], y[j]), s[i][j]), RMul(s[i][i], s[j][j])), p, RMul(p, RAdd("1", p)))]
Add(a, b) == IF a = <<>> THEN b
             ELSE TLCEval([k \in DOMAIN a |-> [a[k] EXCEPT !.got = RAdd(@, b[k].got), !.want = RAdd(@, b[k].want), !.var = RAdd(@, b[k].var)]])

\* The kernel at given values, from given integrals.
At(r) ==
  LET ki == Tr(MInv(r.ku))
  IN [id |-> r.id, ks |-> TLCEval([q \in DOMAIN r.us |-> LET v == Tr(MTimes(ki, r.us[q])) IN
       TLCEval([i \in DOMAIN r.prior |-> TLCEval([j \in DOMAIN r.prior[i] |->
         RRound(RAdd(RSub(r.prior[i][j], MDot(ki, r.cross[i][j])), MMul3(MT(v), r.cross[i][j], v)[1][1]), Bits)])])])]

\* The draws of a case, one after another.
VARIABLES n, i, ki, fit, sums
vars == <<n, i, ki, fit, sums>>
Init == \E k \in DOMAIN Trace : /\ n = k /\ i = 0 /\ fit = <<>> /\ sums = <<>>
                                /\ ki = IF "us" \in DOMAIN Trace[k] THEN <<At(Trace[k])>> ELSE Tr(MInv(Trace[k].ku))
Read == /\ "draws" \in DOMAIN Trace[n] /\ i < Len(Trace[n].draws)
        /\ i' = i + 1
        /\ \E f \in {TLCEval(Fitted(Trace[n], Trace[n].draws[i + 1], ki))} :
           \E s \in {Tr(Noisy(Trace[n], Trace[n].draws[i + 1]))} :
             /\ fit' = f
             /\ sums' = Add(sums, TLCEval(Stats(Trace[n], ki, f, Trace[n].draws[i + 1].y, s)))
        /\ UNCHANGED <<n, ki>>
Next == Read
EmitAt == "us" \in DOMAIN Trace[n] => WriteLine(ToJson(ki[1]), Out)
EmitDraw == i > 0 => WriteLine(ToJson([id |-> Trace[n].id, i |-> i, fit |-> fit,
                                       stats |-> IF i = Len(Trace[n].draws) THEN sums ELSE <<>>]), Out)
=============================================================================
