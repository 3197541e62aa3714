----------------------------- MODULE Predictions -----------------------------
(***************************************************************************)
(* Predictions of the kernel, the spectrum, the Fourier features and the   *)
(* filter, for a model with a structured posterior: which samples these    *)
(* summarise, at which inputs, and what the samples are.  The posterior is *)
(* that of the last conditioning, whatever is fitted afterwards.           *)
(*                                                                         *)
(* The integrals are given tables; what samples of the kernel and of the   *)
(* Fourier features are is then exact.                                     *)
(***************************************************************************)
EXTENDS RMat, FiniteSets, Json

CONSTANTS Out, Runs, Steps

RE(X) == RandomElement(X)
P == 3
Ent == {"-1","-1/2","1/4","1/2","1"}
Tri(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RE({"1/2","1","3/2"}) ELSE IF i > j THEN RE(Ent) ELSE "0"]])
RandPD(n) == LET t == TLCEval(Tri(n)) IN MPlus(MOuter(t), MScale(MEye(n), "1/4"))
RandSamples(n, num) == TLCEval([k \in 1..num |-> [i \in 1..n |-> RE(Ent \cup {"0","2/3","-4/3"})]])
Times == 1..4
RandModel(k) ==
  LET nu == TLCEval(RE(1..P)) nz == TLCEval(RE(1..P))
      ku == TLCEval(RandPD(nu)) iux == TLCEval(RandPD(nu)) tr == MDot(MInv(ku), iux)
  IN [nu |-> nu, nz |-> nz, ku |-> ku, kz |-> RandPD(nz), iux |-> iux,
      \* Power is positive.
      ihx |-> TLCEval([i \in Times |-> RAdd(tr, IF i = 1 THEN RE({"2","1/2"}) ELSE RE({"-1/3","1/2","1"}))])]
RandStep(m) ==
  [op |-> RE({"fit","cond","kernel","kernel","psd","fourier","filter"}),
   us |-> RandSamples(m.nu, 5), zs |-> RandSamples(m.nz, 5),
   num |-> RE({1, 2, 3, 5, 9}), given |-> RE(BOOLEAN), phase |-> RE(BOOLEAN),
   t |-> RE({<<1>>, <<2,4>>, <<3,1,2>>, <<1,2,3,4>>})]
RandRun(k) == LET m == TLCEval(RandModel(k)) IN
  [k |-> k, m |-> m, first |-> TLCEval([us |-> RandSamples(m.nu, 5), zs |-> RandSamples(m.nz, 5)]),
   script |-> TLCEval([s \in 1..Steps |-> RandStep(m)])]

VARIABLES run, at, post, next, log
vars == <<run, at, post, next, log>>
m == run.m

\* The model starts conditioned on something, with samples of a posterior.
Init == \E k \in 1..Runs : run = TLCEval(RandRun(k)) /\ at = 0 /\ post = run.first /\ next = <<>> /\ log = <<>>

Used(samples, num) == [k \in 1..(IF num < Len(samples) THEN num ELSE Len(samples)) |-> samples[k]]
\* Conditional on the inducing variables, k(t) = i(t) - tr(K_u^-1 I) + u' I u.
Kernel(u, i) == LET c == MCol(u) IN
  RAdd(RSub(m.ihx[i], MDot(MInv(m.ku), m.iux)), MMul3(MT(c), m.iux, c)[1][1])
MeanOf(s, f(_)) == RDiv(RSumTo(LAMBDA k : f(s[k]), 1, Len(s)), RInt(Len(s)))
Answer(x) ==
  CASE x.op = "kernel" ->
         LET us == Used(post.us, x.num) IN [num |-> Len(us), values |-> TLCEval([k \in DOMAIN us |-> [j \in DOMAIN x.t |-> Kernel(us[k], x.t[j])]])]
    [] x.op = "psd" ->
         LET us == Used(post.us, x.num) IN [num |-> Len(us), values |-> TLCEval([k \in DOMAIN us |-> [j \in Times |-> Kernel(us[k], j)]])]
    [] x.op = "fourier" ->
         LET zs == Used(post.zs, x.num)
             mean(i) == MeanOf(zs, LAMBDA z : z[i])
         IN [num |-> Len(zs), mean |-> TLCEval([i \in 1..m.nz |-> mean(i)]),
             var |-> TLCEval([i \in 1..m.nz |-> RSub(MeanOf(zs, LAMBDA z : RSq(z[i])), RSq(mean(i)))])]
    [] x.op = "filter" ->
         LET us == Used(post.us, x.num) IN [num |-> Len(us), values |-> TLCEval([k \in DOMAIN us |-> MFlat(MTimes(m.ku, MCol(us[k])))])]
    [] OTHER -> [num |-> 0]
Step == /\ at < Steps /\ at' = at + 1 /\ UNCHANGED run
        /\ LET x == run.script[at'] IN
           /\ next' = IF x.op = "fit" THEN [us |-> x.us, zs |-> x.zs] ELSE IF x.op = "cond" THEN <<>> ELSE next
           \* Conditioning on what was not fitted is of no use.
           /\ post' = IF x.op = "cond" /\ next # <<>> THEN next ELSE post
           /\ log' = Append(log, [x |-> [x EXCEPT !.op = IF x.op = "cond" /\ next = <<>> THEN "nothing" ELSE x.op], a |-> Answer(x)])
Next == Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Nothing but conditioning changes what is predicted.
Frame == [][post' # post => run.script[at'].op = "cond"]_vars
Proper == log # <<>> =>
  LET l == log[Len(log)] IN
  /\ l.x.op = "fourier" => \A i \in DOMAIN l.a.var : RSign(l.a.var[i]) >= 0
  /\ l.x.op \in {"kernel","psd","fourier","filter"} => l.a.num \in 1..5
Emit == at = Steps => WriteLine(ToJson([run |-> [k |-> run.k, m |-> run.m, first |-> run.first], log |-> log]), Out)
=============================================================================
