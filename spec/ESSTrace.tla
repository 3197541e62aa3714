------------------------------ MODULE ESSTrace ------------------------------
(***************************************************************************)
(* Traces of an elliptical slice sampler: every evaluation of the          *)
(* likelihood, every draw from the prior, random numbers, calls and what   *)
(* they returned, in order.  The machine accepts a trace if it is one of   *)
(* the sampler.  What is not observed is chosen: a slice height or a       *)
(* bracket, if the random numbers were not seen, and whether a proposal    *)
(* was accepted.                                                           *)
(*                                                                         *)
(* Values of the likelihood are [t, v]: t = "n" for the number v, "-", "+" *)
(* for the infinities, "x" for not a number.                               *)
(***************************************************************************)
EXTENDS BigRat, TLC, Json

CONSTANTS In, Out
Trace == JsonDeserialize(In)
Pi2 == "710/113"            \* Off by 5.3e-7.
Eps == "1/100000000"
Few == 20                   \* A draw with this many rejections has not failed "too often".

Near(a, b) == RLe(RAbs(RSub(a, b)), RMul(Eps, RAdd("1", RAbs(b))))
NearV(x, y) == DOMAIN x = DOMAIN y /\ \A i \in DOMAIN x : Near(x[i], y[i])
SameL(a, b) == a.t = b.t /\ (a.t = "n" => Near(a.v, b.v))
Angle(a, b) == RLe(RAbs(RSub(a, b)), "1/100000")
\* a > b: for certain, and possibly (numerically).
Above(a, b) == /\ a.t # "x" /\ b.t # "x"
               /\ CASE a.t = "n" /\ b.t = "n" -> RLt(b.v, a.v)
                    [] a.t = "+" -> b.t # "+"
                    [] a.t = "-" -> FALSE
                    [] OTHER -> b.t = "-"
Close(a, b) == a.t = "n" /\ b.t = "n" /\ RLe(RAbs(RSub(a.v, b.v)), RMul("1/1000000000000", RAdd("1", RAbs(b.v))))
Minus(a, e) == IF a.t = "n" THEN [a EXCEPT !.v = RSub(@, e)] ELSE a
NoL == [t |-> "?", v |-> "0"]

\* x, lx: the state and the remembered likelihood. y: the ellipse. u: the slice, if seen.
\* ulo, uhi: what is known about it otherwise. lo, hi: the bracket. th: the angle drawn.
\* tlo, thi: what is known about where the bracket was cut, if that was not seen.
VARIABLES k, i, s
vars == <<k, i, s>>
Ev == Trace[k].events
Now == Ev[i]
Blank == [phase |-> "new", x |-> <<>>, lx |-> NoL, y |-> <<>>, u |-> NoL, ulo |-> NoL, uhi |-> NoL,
          lo |-> "", hi |-> "", tlo |-> "0", thi |-> Pi2, th |-> <<>>, rej |-> 0, left |-> 0, got |-> <<>>, all |-> <<>>]
Go(t) == s' = t /\ i' = i + 1 /\ UNCHANGED k
Fresh(t) == [t EXCEPT !.y = <<>>, !.u = NoL, !.ulo = NoL, !.uhi = NoL, !.lo = "", !.hi = "", !.tlo = "0",
                      !.thi = Pi2, !.th = <<>>, !.rej = 0, !.phase = "pre"]

Init == k \in DOMAIN Trace /\ i = 1 /\ s = Blank

\* Construction and moving: at the given state, or at a draw from the prior.
At == /\ Now.k = "at" /\ s.phase \in {"new", "idle"}
      /\ Go([s EXCEPT !.phase = "moving", !.x = Now.x])
AtPrior == /\ Now.k = "prior" /\ s.phase = "new"
           /\ Go([s EXCEPT !.phase = "moving", !.x = Now.y])
Arrive == /\ Now.k = "ll" /\ s.phase = "moving" /\ NearV(Now.x, s.x)
          /\ Go([s EXCEPT !.phase = "idle", !.lx = Now.l])
Call == /\ Now.k = "call" /\ s.phase = "idle"
        /\ Go(IF Now.num = 0 THEN [s EXCEPT !.got = <<>>] ELSE Fresh([s EXCEPT !.left = Now.num, !.got = <<>>]))
Return == /\ Now.k = "ret" /\ s.phase = "idle" /\ s.left = 0
          /\ Len(Now.xs) = Len(s.got) /\ \A j \in DOMAIN s.got : NearV(Now.xs[j], s.got[j])
          /\ Go([s EXCEPT !.all = @ \o s.got])
\* What the sampler says its state is.
State == /\ Now.k = "state" /\ s.phase = "idle" /\ NearV(Now.x, s.x) /\ SameL(Now.l, s.lx)
         /\ Go(s)
\* States that were returned do not change later.
Final == /\ Now.k = "final" /\ s.phase = "idle"
         /\ Len(Now.xs) = Len(s.all) /\ \A j \in DOMAIN s.all : NearV(Now.xs[j], s.all[j])
         /\ Go(s)

\* A slice height below the current likelihood, an ellipse, and a bracket; in any order.
Height == /\ Now.k = "exp" /\ s.phase = "pre" /\ s.u.t = "?"
          /\ Now.scale = "1" /\ RSign(Now.v) >= 0
          /\ Go([s EXCEPT !.u = Minus(s.lx, Now.v)])
Ellipse == /\ Now.k = "prior" /\ s.phase = "pre" /\ s.y = <<>>
           /\ Go([s EXCEPT !.y = Now.y])
Bracket == /\ Now.k = "unif" /\ s.phase = "pre" /\ s.lo = ""
           /\ Angle(Now.lo, "0") /\ Angle(Now.hi, Pi2)
           /\ Go([s EXCEPT !.lo = RSub(Now.v, Pi2), !.hi = Now.v])
\* An angle from the bracket.
Turn == /\ Now.k = "unif" /\ s.phase \in {"pre", "slice"} /\ s.lo # "" /\ s.th = <<>>
        /\ Angle(Now.lo, s.lo) /\ Angle(Now.hi, s.hi)
        \* The current state is in the bracket.
        /\ RLe(s.lo, "1/100000") /\ RLe("-1/100000", s.hi)
        /\ Go([s EXCEPT !.phase = "slice", !.th = <<Now.v, Now.c, Now.s>>])

OnEllipse(x, c, n) ==
  /\ RLe(RAbs(RSub(RAdd(RSq(c), RSq(n)), "1")), "1/1000000")
  /\ \A j \in DOMAIN x : RLe(RAbs(RSub(x[j], RAdd(RMul(c, s.x[j]), RMul(n, s.y[j])))),
                             RMul("1/1000000", RAdd("1", RAdd(RAbs(s.x[j]), RAbs(s.y[j])))))
Accepted(l) == Fresh([s EXCEPT !.x = Now.x, !.lx = l, !.left = @ - 1, !.got = Append(@, Now.x)])
Next1(t) == IF t.left = 0 THEN [t EXCEPT !.phase = "idle"] ELSE t
MayAccept(l) == IF s.u.t # "?" THEN Above(l, s.u) \/ Close(l, s.u)
                ELSE l.t # "x" /\ (s.ulo.t = "?" \/ Above(l, s.ulo))
MayReject(l) == IF s.u.t # "?" THEN ~Above(l, s.u) \/ Close(l, s.u)
                ELSE l.t = "x" \/ Above(s.lx, l) \/ s.lx.t = "-"
Floor(l) == IF s.u.t = "?" /\ l.t # "x" /\ (s.ulo.t = "?" \/ Above(l, s.ulo)) THEN l ELSE s.ulo
Max(l) == Floor(l)
\* The bracket shrinks to the proposal, towards the current state.
Propose ==
  /\ Now.k = "ll" /\ s.y # <<>>
  /\ \/ /\ s.th # <<>>
        /\ OnEllipse(Now.x, s.th[2], s.th[3])
        /\ \/ MayAccept(Now.l) /\ Go(Next1(Accepted(Now.l)))
           \/ /\ MayReject(Now.l)
              /\ Go([s EXCEPT !.th = <<>>, !.rej = @ + 1, !.ulo = Max(Now.l),
                     !.hi = IF RSign(s.th[1]) > 0 THEN s.th[1] ELSE @,
                     !.lo = IF RSign(s.th[1]) > 0 THEN @ ELSE s.th[1]])
     \* If the angles were not seen: the angle is that of the proposal, or one turn less.
     \/ /\ ~Trace[k].seen /\ s.phase \in {"pre", "slice"} /\ s.th = <<>>
        /\ OnEllipse(Now.x, Now.c, Now.s)
        /\ LET p == Now.phi q == RSub(p, Pi2)
               pos == IF s.hi = "" THEN TRUE ELSE RLe(p, RAdd(s.hi, "1/1000000000"))
               neg == IF s.lo = "" THEN TRUE ELSE RLe(s.lo, RAdd(q, "1/1000000000"))
           IN \/ MayAccept(Now.l) /\ (IF pos THEN TRUE ELSE neg) /\ Go(Next1(Accepted(Now.l)))
              \/ /\ MayReject(Now.l)
                 /\ \/ /\ pos /\ RLe(p, s.thi)
                       /\ Go([s EXCEPT !.rej = @ + 1, !.phase = "slice", !.hi = p, !.ulo = Max(Now.l),
                                       !.tlo = IF s.hi = "" THEN RMax(@, p) ELSE @])
                    \/ /\ neg /\ RLe(s.tlo, p)
                       /\ Go([s EXCEPT !.rej = @ + 1, !.phase = "slice", !.lo = q, !.ulo = Max(Now.l),
                                       !.thi = IF s.lo = "" THEN RMin(@, p) ELSE @])
\* A draw that failed is abandoned: start again from the same state.
Abandon == /\ s.phase = "slice" /\ s.th = <<>> /\ s.rej >= Few
           /\ Now.k \in {"exp", "prior", "unif"}
           /\ s' = Fresh(s) /\ UNCHANGED <<k, i>>

Step == i <= Len(Ev) /\ (At \/ AtPrior \/ Arrive \/ Call \/ Return \/ State \/ Final \/ Height \/ Ellipse
                         \/ Bracket \/ Turn \/ Propose \/ Abandon)
Next == Step
Emit == IF i > Len(Ev) THEN WriteLine(ToJson([k |-> k, i |-> i, done |-> TRUE, s |-> s.phase]), Out)
        ELSE ENABLED Step \/ WriteLine(ToJson([k |-> k, i |-> i, done |-> FALSE, s |-> s]), Out)
=============================================================================
