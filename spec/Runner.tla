------------------------------- MODULE Runner --------------------------------
(***************************************************************************)
(* The experiment runner over a series of sessions that share a working    *)
(* directory.  Every session builds models anew; a file has the contents   *)
(* of one model.  The contents of a model give, for every variable, where  *)
(* its value comes from: "init" or the session that trained it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, BigRat

CONSTANTS Out, Steps

RE(X) == RandomElement(X)
NoInt == 0
None == "none"
Good == {"gpcm", "cgpcm", "gprv"}
Bad == {"gpmc", "rgpcm", "GPCM", "", "gp"}
\* The order in which models are built, trained, analysed and plotted.
Order == <<"gpcm", "cgpcm", "gprv">>
Title(x) == CASE x = "gpcm" -> "GPCM" [] x = "cgpcm" -> "CGPCM" [] x = "gprv" -> "RGPCM"
Schemes == {"structured", "mean-field", "mean-field-ca", "mean-field-gradient", "mean-field-collapsed-gradient",
            "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient"}
SetOf(s) == {s[i] : i \in DOMAIN s}
Asked(names) == SelectSeq(Order, LAMBDA x : x \in SetOf(names))

\* A default that the constructors choose is not given.
Settings(x, c) ==
  [scheme |-> c.scheme, noise |-> c.noise, window |-> c.window, scale |-> c.scale, t |-> c.t, n_u |-> c.n_u,
   fix_window |-> c.fix, fix_scale |-> c.fix,
   n_z |-> IF x = "gprv" THEN NoInt ELSE c.n_z,
   m_max |-> IF x = "gprv" /\ c.n_z # NoInt THEN (c.n_z + 1) \div 2 ELSE NoInt,
   extend_t_z |-> IF x = "gprv" THEN FALSE ELSE c.extend]

Learnable(x, c) ==
  {"noise", "alpha_t", "t_u"} \cup
  (IF x = "gprv" THEN {"gamma_factor"} ELSE {"omega", "t_z"}) \cup
  (IF c.fix THEN {} ELSE {"alpha", IF x = "gprv" THEN "lambda" ELSE "gamma"})
Fresh(x, c) == [v \in Learnable(x, c) |-> "init"]
Trained(x, c, s) == [v \in Learnable(x, c) |-> IF s.fix_hypers THEN "init" ELSE ToString(s.id)]
\* What is in a file goes over what is there.
Over(file, fresh) == [v \in DOMAIN file \cup DOMAIN fresh |-> IF v \in DOMAIN file THEN file[v] ELSE fresh[v]]

VARIABLES setup, disk, out, n
vars == <<setup, disk, out, n>>
Setup(k) == [noise |-> RE({"1/8", "1/20"}), window |-> RE({"1", "3/4", "5/8"}), scale |-> RE({"1/2", "1/4", "3/8"}),
             t |-> RE({<<"0","1/2","1","3/2","2">>, <<"-1","0","5/4","2">>, <<"1","9/4","25/8">>}),
             n_u |-> RE({NoInt, 3, 4, 6}), n_z |-> RE({NoInt, 2, 3, 5, 8}), extend |-> RE({TRUE, FALSE})]

Init == setup = <<>> /\ disk = <<>> /\ out = <<>> /\ n = -1
Begin == /\ n = -1 /\ n' = 0 /\ setup' = Setup(n) /\ UNCHANGED <<disk, out>>

RECURSIVE Names(_)
Names(k) == IF k = 0 THEN <<>> ELSE <<RE(Good)>> \o Names(k - 1)
WithBad(s) == LET i == RE(0..Len(s)) IN SubSeq(s, 1, i) \o <<RE(Bad)>> \o SubSeq(s, i + 1, Len(s))

\* A session: how it is started, what is asked for, and when it breaks off.
Session(k) ==
  LET how == RE({"run", "run", "run", "argv", "train", "build"})
      plain == Names(RE(0..4))
      names == IF how # "argv" /\ RE(1..6) = 1 THEN WithBad(plain) ELSE plain
      \* On the command line, neither a seed nor a scheme.
      bare == how = "argv" /\ RE(1..3) = 1
  IN [id |-> k, how |-> how, names |-> names, load |-> RE(1..5) <= 2, fix_hypers |-> RE(1..3) = 1, iters |-> RE({NoInt, NoInt, 1, 7, 25}),
      \* Only training may go without a working directory.
      wd |-> how # "train" \/ RE({TRUE, FALSE}),
      seed |-> IF bare THEN 0 ELSE RE(0..3), bare |-> bare, crash |-> IF RE(1..4) = 1 THEN RE(1..3) ELSE 0,
      cfg |-> [setup EXCEPT !.n_u = @] @@ [scheme |-> IF bare THEN "structured" ELSE RE(Schemes), fix |-> RE({TRUE, FALSE})]]

\* Given no names on the command line, all.
Names0(s) == IF s.how = "argv" /\ s.names = <<>> THEN Order ELSE s.names
Unknown(s) == SetOf(Names0(s)) \ Good
Models(s) == Asked(Names0(s))
Loads(s) == s.load /\ (s.how # "train" \/ s.wd)
Missing(s) == {i \in DOMAIN Models(s) : Models(s)[i] \notin DOMAIN disk}
\* How many models are trained in full.
NumTrained(s) == IF s.crash = 0 \/ s.crash > Len(Models(s)) THEN Len(Models(s)) ELSE s.crash - 1

Outcome(s) ==
  IF Unknown(s) # {} THEN "refused"
  ELSE IF s.how = "build" THEN "built"
  ELSE IF Loads(s) THEN (IF Missing(s) # {} THEN "missing" ELSE "done")
  ELSE IF NumTrained(s) < Len(Models(s)) THEN "crashed" ELSE "done"
Fits(s) == IF Outcome(s) \in {"refused", "built"} \/ Loads(s) THEN <<>>
           ELSE SubSeq(Models(s), 1, NumTrained(s))
\* A model is saved as soon as it is trained.
DiskAfter(s) == IF ~s.wd THEN disk
                ELSE LET f == Fits(s) IN [x \in DOMAIN disk \cup SetOf(f) |->
                        IF x \in SetOf(f) THEN Trained(x, s.cfg, s) ELSE disk[x]]
\* The models as these are in the end.
After(s) == [i \in DOMAIN Models(s) |->
   LET x == Models(s)[i] IN
   [name |-> Title(x), class |-> x, settings |-> Settings(x, s.cfg),
    contents |-> IF Outcome(s) \notin {"done"} THEN Fresh(x, s.cfg)
                 ELSE IF Loads(s) THEN Over(disk[x], Fresh(x, s.cfg)) ELSE Trained(x, s.cfg, s),
    \* An instance uses what is fixed, whatever is in the file.
    fixed |-> IF s.cfg.fix THEN {"window", "scale"} ELSE {}]]

Run == \E s \in {Session(n + 1)} :
  /\ disk' = DiskAfter(s)
  /\ out' = Append(out, [session |-> s, outcome |-> Outcome(s), models |-> After(s), fits |-> Fits(s),
                         analysed |-> s.how \in {"run", "argv"} /\ Outcome(s) = "done",
                         saved |-> IF s.wd THEN [i \in DOMAIN Fits(s) |-> Title(Fits(s)[i])] ELSE <<>>,
                         files |-> {Title(x) : x \in DOMAIN disk'},
                         contents |-> [x \in DOMAIN disk' |-> disk'[x]]])
Next == Begin \/ (n \in 0..(Steps - 1) /\ n' = n + 1 /\ Run /\ UNCHANGED setup)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ids == {ToString(k) : k \in 1..Steps}
\* Where a file comes from is a session that trained this model, and had a working directory.
Provenance == \A x \in DOMAIN disk : \A v \in DOMAIN disk[x] : disk[x][v] # "init" =>
   \E i \in DOMAIN out : /\ ToString(out[i].session.id) = disk[x][v]
                         /\ x \in SetOf(out[i].fits) /\ out[i].session.wd /\ ~out[i].session.fix_hypers
Sorted == \A i \in DOMAIN out : \A a, b \in DOMAIN out[i].models : a < b =>
   LET pos(x) == CHOOSE k \in DOMAIN Order : Order[k] = x
   IN pos(out[i].models[a].class) < pos(out[i].models[b].class)
ExactlyAsked == \A i \in DOMAIN out : out[i].outcome # "refused" =>
   {m.class : m \in SetOf(out[i].models)} = SetOf(Names0(out[i].session))
\* Loading, refusal and building change no file; training changes those of models trained only.
Frame == [][ n >= 0 => LET o == out'[Len(out')] IN
   /\ (Loads(o.session) \/ o.outcome \in {"refused", "built"} \/ ~o.session.wd) => disk' = disk
   /\ DOMAIN disk \subseteq DOMAIN disk'
   /\ \A x \in DOMAIN disk : x \notin SetOf(o.fits) => disk'[x] = disk[x] ]_vars
\* Training and loading in the next session give back the same model, if the setup is the same.
RoundTrip == \A i \in DOMAIN out : i > 1 =>
   LET a == out[i - 1] b == out[i]
   IN (a.outcome = "done" /\ a.session.wd /\ ~Loads(a.session) /\ b.outcome = "done" /\ Loads(b.session)) =>
      \A x \in SetOf(a.models) : \A y \in SetOf(b.models) :
        (x.class = y.class /\ a.session.cfg.fix = b.session.cfg.fix) => x.contents = y.contents
FixedHypers == \A i \in DOMAIN out : (out[i].outcome = "done" /\ ~Loads(out[i].session) /\ out[i].session.fix_hypers) =>
   \A m \in SetOf(out[i].models) : \A v \in DOMAIN m.contents : m.contents[v] = "init"
Emit == n = Steps => WriteLine(ToJson([setup |-> setup, steps |-> out]), Out)
=============================================================================
