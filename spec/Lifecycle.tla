------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* What users do with models: instantiate, condition, fit, ask, assign     *)
(* variables, save, load, and draw random numbers, in any order.           *)
(*                                                                         *)
(* Values are terms: strings that say what they were computed from and     *)
(* nothing else.  Two results of the implementation that have the same     *)
(* term must be the same, and two that have different terms must differ.   *)
(* So a term is the complete list of what a result depends on.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, BigRat

CONSTANTS Out, Scheme,     \* "mf" or "st"
          Ops,             \* Enabled operations.
          Depth, MaxHandles

Worlds == 1..2             \* Models of the same kind that were constructed separately.
Stages == 0..2
Hypers == {"h1", "h2"}
QTokens == {"qa", "qb", "qc"}
STokens == {"sa", "sb"}
Data == {"d1", "d2", "d3"}  \* The times of `d3` are those of `d1`.
Asked == Data \cup {"d4"}    \* The values of `d4` are those of `d1`.
Files == {"f1", "f2"}
Seeds == {"seed1", "seed2"}

VARIABLES store,    \* The variables of every world.
          handles,  \* Models (not instantiated) and instances that the user holds.
          files, rng,
          log       \* What was done, and what must be observed then.
vars == <<store, handles, files, rng, log>>

NoVars == [s \in Stages |-> ""]
\* `used`: whether the hyperparameters are variables yet; before, they are what was given.
Fresh == [hyper |-> "h0", used |-> FALSE, q |-> NoVars, smp |-> NoVars]
Stage(h) == Len(h.hist)
St(h) == store[h.w]
Hyper(h) == IF h.inst THEN h.hyper ELSE St(h).hyper
Term(f, xs) ==
  LET RECURSIVE T(_)
      T(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o T(Tail(s))
  IN f \o "(" \o T(xs) \o ")"

K(h) == Term("K", <<Hyper(h)>>)
Prior(h) == IF Stage(h) = 0 THEN K(h) ELSE St(h).q[Stage(h) - 1]
Post(h) == St(h).q[Stage(h)]
Smp(h) == IF Stage(h) = 0 THEN "" ELSE St(h).smp[Stage(h) - 1]

\* The data that a posterior was conditioned on last.
Last(h) == IF h.hist = <<>> THEN "" ELSE h.hist[Len(h.hist)]

\* Terms of everything that can be asked of a handle without using randomness; "" if it cannot.
Answers(h) ==
  [prior |-> Prior(h), post |-> Post(h), stage |-> Stage(h), w |-> h.w, inst |-> h.inst,
   noise |-> Hyper(h),
   elbo |-> IF Scheme = "mf" /\ Prior(h) # "" /\ Post(h) # ""
            THEN [d \in Asked |-> Term("elbo", <<Hyper(h), Prior(h), Post(h), d>>)]
            ELSE [d \in Asked |-> ""],
   \* At every time, whatever the other times are and in whichever order.
   pred |-> IF Scheme = "mf"
            THEN IF Prior(h) = "" THEN "" ELSE Term("pred", <<Hyper(h), Prior(h)>>)
            ELSE IF Smp(h) = "" THEN "" ELSE Term("pred", <<Hyper(h), Smp(h), Last(h)>>),
   four |-> IF Scheme = "mf"
            THEN IF Prior(h) = "" THEN "" ELSE Term("four", <<Prior(h)>>)
            ELSE IF Smp(h) = "" THEN "" ELSE Term("four", <<Smp(h)>>),
   \* The kernel needs samples: deterministic only if these are stored.
   kern |-> IF Scheme = "st" /\ Smp(h) # "" THEN Term("kern", <<Hyper(h), Smp(h)>>) ELSE ""]
Observe(hs) == [i \in DOMAIN hs |-> Answers(hs[i])]

\* Instantiating makes variables of the hyperparameters.
Use(w) == [store EXCEPT ![w].used = TRUE]

NewHandle(w) == [w |-> w, hist |-> <<>>, inst |-> FALSE, hyper |-> ""]
Record(op) == log' = Append(log, [o |-> op, rng |-> rng', used |-> [w \in Worlds |-> store'[w].used],
                                  obs |-> Observe(handles)'])

Init == /\ store = [w \in Worlds |-> Fresh]
        /\ handles = <<NewHandle(1), NewHandle(2)>>
        /\ files = [f \in Files |-> [there |-> FALSE, s |-> Fresh]]
        /\ rng = "seed0" /\ log = <<>>

On(op) == op \in Ops
Room == Len(handles) < MaxHandles

Instantiate(i) ==
  /\ On("inst") /\ Room /\ ~handles[i].inst
  /\ LET h == handles[i]
     IN /\ store' = Use(h.w)
        /\ handles' = Append(handles, [h EXCEPT !.inst = TRUE, !.hyper = St(h).hyper])
  /\ UNCHANGED <<files, rng>>
  /\ Record([op |-> "inst", i |-> i])
\* Conditioning a model gives a new model. Conditioning an instance continues with that instance.
Condition(i, d) ==
  /\ On("cond") /\ Stage(handles[i]) < 2
  /\ LET h == handles[i] g == [h EXCEPT !.hist = Append(@, d)]
     IN IF h.inst THEN handles' = [handles EXCEPT ![i] = g]
        ELSE Room /\ handles' = Append(handles, g)
  /\ UNCHANGED <<store, files, rng>>
  /\ Record([op |-> "cond", i |-> i, d |-> d])
SetHyper(w, x) ==
  /\ On("hyper") /\ store[w].hyper # x
  /\ store' = [Use(w) EXCEPT ![w].hyper = x]
  /\ UNCHANGED <<handles, files, rng>>
  /\ Record([op |-> "hyper", w |-> w, x |-> x])
SetPost(i, q) ==
  /\ On("setq")
  /\ LET h == handles[i]
     IN /\ Post(h) # q
        /\ store' = [Use(h.w) EXCEPT ![h.w].q[Stage(h)] = q]
  /\ UNCHANGED <<handles, files, rng>>
  /\ Record([op |-> "setq", i |-> i, q |-> q])
SetSamples(i, s) ==
  /\ On("setsmp") /\ Scheme = "st"
  /\ LET h == handles[i]
     IN /\ St(h).smp[Stage(h)] # s
        /\ store' = [Use(h.w) EXCEPT ![h.w].smp[Stage(h)] = s]
  /\ UNCHANGED <<handles, files, rng>>
  /\ Record([op |-> "setsmp", i |-> i, s |-> s])
\* Fitting a model: here with a scheme that does not learn hyperparameters.
Fit(i, d) ==
  /\ On("fit") /\ Len(log) > 0
  /\ LET h == handles[i] IN
     /\ ~h.inst /\ Prior(h) # "" /\ Post(h) # ""
     /\ Len(Post(h)) < 40
     /\ store' = IF Scheme = "mf"
                 THEN [Use(h.w) EXCEPT ![h.w].q[Stage(h)] = Term("fit", <<Hyper(h), Prior(h), Post(h), d>>)]
                 ELSE [Use(h.w) EXCEPT ![h.w].smp[Stage(h)] = Term("gibbs", <<Hyper(h), Post(h), d>>)]
  /\ UNCHANGED <<handles, files, rng>>
  /\ Record([op |-> "fit", i |-> i, d |-> d])
Save(w, f) ==
  /\ On("save")
  /\ files' = [files EXCEPT ![f] = [there |-> TRUE, s |-> store[w]]]
  /\ UNCHANGED <<store, handles, rng>>
  /\ Record([op |-> "save", w |-> w, f |-> f])
\* Only what is in the file changes.
Load(w, f) ==
  /\ On("load") /\ files[f].there
  /\ LET s == files[f].s o == store[w]
         pick(a, b) == IF a = "" THEN b ELSE a
     IN store' = [store EXCEPT ![w] =
          [hyper |-> IF s.used THEN s.hyper ELSE o.hyper, used |-> o.used \/ s.used,
           q |-> [k \in Stages |-> pick(s.q[k], o.q[k])],
           smp |-> [k \in Stages |-> pick(s.smp[k], o.smp[k])]]]
  /\ UNCHANGED <<handles, files, rng>>
  /\ Record([op |-> "load", w |-> w, f |-> f])
\* Construct the model of a world again; handles of the old one are dropped.
New(w) ==
  /\ On("new") /\ \E i \in DOMAIN handles : handles[i].w = w /\ Stage(handles[i]) > 0
  /\ store' = [store EXCEPT ![w] = Fresh]
  /\ handles' = Append(SelectSeq(handles, LAMBDA h : h.w # w), NewHandle(w))
  /\ UNCHANGED <<files, rng>>
  /\ Record([op |-> "new", w |-> w])

\* Randomness. `rng` is the global state; a draw moves it on.
Advance(what) == Term("next", <<rng, what>>)
Seed(s) ==
  /\ On("seed") /\ rng # s /\ rng' = s /\ UNCHANGED <<store, handles, files>>
  /\ Record([op |-> "seed", s |-> s])
\* A random question: `explicit` is the random state given, or "".
Draw(i, kind, explicit) ==
  /\ On(kind)
  /\ LET h == handles[i]
         source == IF explicit = "" THEN rng ELSE explicit
         of == CASE kind = "post-sample" -> <<Post(h)>>
                 [] kind = "kernel" -> IF Scheme = "mf" THEN <<Hyper(h), Prior(h)>> ELSE IF Stage(h) = 0 THEN <<Hyper(h), K(h)>> ELSE <<Hyper(h), Smp(h)>>
                 [] kind = "filter" -> <<Hyper(h), IF Scheme = "mf" THEN Prior(h) ELSE IF Stage(h) = 0 THEN K(h) ELSE Smp(h)>>
                 [] kind = "prior-sample" -> <<Hyper(h)>>
                 [] kind = "elbo-state" -> <<Hyper(h), Prior(h), Post(h)>>
                 [] kind = "fourier" -> <<IF Stage(h) = 0 THEN K(h) ELSE Smp(h)>>
         \* Stored samples are used as they are.
         random == CASE kind = "kernel" -> Scheme = "mf" \/ Stage(h) = 0
                     [] kind = "fourier" -> Scheme = "st" /\ Stage(h) = 0
                     [] kind = "elbo-state" -> FALSE
                     [] OTHER -> TRUE
         body == Term(kind, of)
         how == IF Scheme = "st" /\ Stage(h) > 0 THEN kind \o "-stored" ELSE kind
     IN /\ \A k \in DOMAIN of : of[k] # ""
        /\ Len(source) < 60
        /\ kind \in {"prior-sample"} => Stage(h) = 0
        /\ kind \in {"elbo-state"} => Scheme = "mf" /\ explicit # ""
        /\ kind \in {"kernel", "fourier", "filter", "prior-sample"} => explicit = ""
        /\ kind \in {"fourier"} => random
        /\ rng' = IF random /\ explicit = "" THEN Advance(how) ELSE rng
        /\ store' = Use(h.w)
        /\ UNCHANGED <<handles, files>>
        /\ Record([op |-> "draw", i |-> i, kind |-> kind, state |-> explicit,
                   res |-> IF random THEN Term("draw", <<source, body>>) ELSE body,
                   next |-> IF random THEN Term("next", <<source, how>>) ELSE source])

\* What is refused.
Refuse(i, what) ==
  /\ On("refuse")
  /\ LET h == handles[i]
     IN CASE what = "sample" -> Stage(h) > 0
          [] what = "collapsed" -> Scheme = "mf" /\ Prior(h) # "" /\ Post(h) # ""
          [] what = "ps" -> ~h.inst
  /\ UNCHANGED <<store, handles, files, rng>>
  /\ Record([op |-> "refuse", i |-> i, what |-> what])

Kinds == {"post-sample", "kernel", "filter", "prior-sample", "elbo-state", "fourier"}
Go == Len(log) < Depth
I == DOMAIN handles
AInst == Go /\ \E i \in I : Instantiate(i)
ACond == Go /\ \E i \in I : \E d \in Data : Condition(i, d)
AFit == Go /\ \E i \in I : \E d \in Data : Fit(i, d)
APost == Go /\ \E i \in I : \E q \in QTokens : SetPost(i, q)
ASmp == Go /\ \E i \in I : \E s \in STokens : SetSamples(i, s)
ADraw == Go /\ \E i \in I : \E kind \in Kinds : Draw(i, kind, "")
ADrawFrom == Go /\ \E i \in I : \E kind \in Kinds : \E e \in Seeds : Draw(i, kind, e)
ARefuse == Go /\ \E i \in I : \E what \in {"sample", "collapsed", "ps"} : Refuse(i, what)
ANew == Go /\ \E w \in Worlds : New(w)
AHyper == Go /\ \E w \in Worlds : \E x \in Hypers : SetHyper(w, x)
ASave == Go /\ \E w \in Worlds : \E f \in Files : Save(w, f)
ALoad == Go /\ \E w \in Worlds : \E f \in Files : Load(w, f)
ASeed == Go /\ \E s \in Seeds : Seed(s)
\* Simulation picks one of these and then one of its successors.
Next == \/ AInst \/ ACond \/ AFit \/ APost \/ ASmp \/ ADraw \/ ADrawFrom \/ ARefuse \/ ANew \/ AHyper
        \/ ASave \/ ALoad \/ ASeed
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
LastOp == log'[Len(log')].o
Kept == {i \in DOMAIN handles : i \in DOMAIN handles' /\ handles'[i] = handles[i]}
Same(i) == Answers(handles[i])' = Answers(handles[i])
\* These never change what any model or instance says.
Pure == [][LastOp.op \in {"inst", "save", "draw", "refuse", "seed"} => \A i \in DOMAIN handles : Same(i)]_vars
\* Conditioning changes only an instance that is conditioned itself.
CondFrame == [][LastOp.op = "cond" => \A i \in DOMAIN handles : (i # LastOp.i \/ ~handles[i].inst) => Same(i)]_vars
\* Fitting or setting a posterior: earlier stages and other worlds keep everything; the prior of
\* the stage and what is predicted at the stage stay.
StageFrame == [][LastOp.op \in {"fit", "setq", "setsmp"} =>
  LET g == handles[LastOp.i] IN
  \A i \in DOMAIN handles :
    LET h == handles[i] IN
    /\ (h.w # g.w \/ Stage(h) < Stage(g)) => Same(i)
    /\ (h.w = g.w /\ Stage(h) = Stage(g)) =>
         /\ Answers(h)'.prior = Answers(h).prior /\ Answers(h)'.pred = Answers(h).pred
         /\ Answers(h)'.four = Answers(h).four]_vars
\* Loading what was saved restores every answer.
SaveLoad == [][LastOp.op = "load" =>
  \A i \in DOMAIN handles : handles[i].w # LastOp.w => Same(i)]_vars
\* Loading into a model that has not been used makes it equal to the saved one.
Restores == [][LastOp.op = "load" =>
  (store[LastOp.w] = Fresh => store'[LastOp.w] = files[LastOp.f].s)]_vars
\* What was saved does not change until it is saved again.
FileFrame == [][\A f \in Files : files'[f] # files[f] => LastOp.op = "save" /\ LastOp.f = f]_vars
\* The global random state moves on only by draws from it.
RngFrame == [][rng' # rng => LastOp.op = "seed" \/ (LastOp.op = "draw" /\ LastOp.state = "")]_vars
TypeOK == /\ \A i \in DOMAIN handles : Stage(handles[i]) \in Stages
          /\ Len(handles) <= MaxHandles
\* A term lists neither another world nor a later stage: by construction of Answers. An answer of
\* a model depends on the history only through the stage and, in the structured scheme, the data.
Functional ==
  \A i, j \in DOMAIN handles :
    LET a == handles[i] b == handles[j] IN
    (store[a.w] = store[b.w] /\ a.inst = b.inst /\ a.hyper = b.hyper /\ Stage(a) = Stage(b) /\ Last(a) = Last(b))
      => [Answers(a) EXCEPT !.w = 0] = [Answers(b) EXCEPT !.w = 0]
View == <<store, handles, files, rng>>
Emit == (Len(log) = Depth) => WriteLine(ToJson([scheme |-> Scheme, log |-> log]), Out)
=============================================================================
