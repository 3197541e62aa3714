------------------------------ MODULE Analysis -------------------------------
(***************************************************************************)
(* The analysis of an experiment: what is reported and drawn for a         *)
(* selection of models and options, and what that says.                    *)
(*                                                                         *)
(* What is drawn is an expression in named quantities.  The quantities of  *)
(* a model are the answers of the posterior that is the model conditioned  *)
(* on the data; the others are the data and what the caller gives.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, BigRat

CONSTANTS Out, Full   \* Whether to choose from all options.

Order == <<"gpcm", "cgpcm", "gprv">>
Title(x) == CASE x = "gpcm" -> "GPCM" [] x = "cgpcm" -> "CGPCM" [] x = "gprv" -> "RGPCM"
SetOf(s) == {s[i] : i \in DOMAIN s}
Selections == {SelectSeq(Order, LAMBDA x : x \in S) : S \in (SUBSET SetOf(Order)) \ {{}}}
Figures == <<"function", "kernel", "psd", "fourier">>
Options == {"plot", "truth", "kernel", "noisy", "comparative", "spaced", "save"}
Ranges == {"function", "kernel", "psd"}

VARIABLES cfg,      \* What is asked for.
          todo,     \* What is left to do.
          page,     \* What was reported and drawn.
          stage,    \* The posteriors of the models.
          rng       \* The global random state, as the number of estimates drawn from it.
vars == <<cfg, todo, page, stage, rng>>

-----------------------------------------------------------------------------
\* Expressions.
Op(f, a) == "(" \o f \o " " \o a \o ")"
Op2(f, a, b) == "(" \o f \o " " \o a \o " " \o b \o ")"
Plus(a, b) == Op2("+", a, b)
Minus(a, b) == Op2("-", a, b)
Times(a, b) == Op2("*", a, b)
Sqrt(a) == Op("sqrt", a)
\* Standard deviation of the function, without noise, and of an observation.
StdF == Sqrt(Op("positive", Minus("var", "noise")))
StdY == Sqrt("var")

Line(l, x, y) == [kind |-> "line", label |-> l, x |-> x, lower |-> y, upper |-> y]
Band(x, a, b) == [kind |-> "band", label |-> "", x |-> x, lower |-> a, upper |-> b]
Points(l, x, y) == [kind |-> "points", label |-> l, x |-> x, lower |-> y, upper |-> y]
Bars(x, y, e) == [kind |-> "bars", label |-> "", x |-> x, lower |-> Minus(y, e), upper |-> Plus(y, e)]
If(b, s) == IF b THEN s ELSE {}
Has(o) == o \in cfg.opt
HasTz(x) == x \in {"gpcm", "cgpcm"}

Grid == IF Has("plot") THEN "t_plot" ELSE "t"
Curves(f, x) ==
  CASE f = "function" ->
         {Points("Data", "t", "y"), Line("Prediction", Grid, "mean"),
          Band(Grid, Minus("mean", StdF), Plus("mean", StdF)),
          Band(Grid, Minus("mean", Times("2", StdF)), Plus("mean", Times("2", StdF))),
          Line("", Grid, Minus("mean", Times("2", StdY))), Line("", Grid, Plus("mean", Times("2", StdY)))}
         \cup If(HasTz(x), {Points("", "t_z", Times("0", "t_z"))})
         \cup If(Has("truth"), {Line("Truth", "truth_x", "truth_y")})
    [] f = "kernel" ->
         {Line("Prediction", "k_x", "k_mean"), Band("k_x", "k_lower_68", "k_upper_68"),
          Band("k_x", "k_lower_95", "k_upper_95"), Points("", "t_u", Times("0", "t_u"))}
         \cup If(Has("kernel"), {Line("True", "k_x", Op("true", "k_x"))})
         \cup If(Has("spaced"), {Line("Autocorrelation", Minus("t", "t0"), Op("autocorr", "y"))})
    [] f = "psd" ->
         {Line("Prediction", "p_x", "p_mean"), Band("p_x", "p_lower_68", "p_upper_68"),
          Band("p_x", "p_lower_95", "p_upper_95")}
         \cup If(Has("kernel"), {Line("True", Op2("psd_x", "p_x", Op("true", "p_x")), Op2("psd_y", "p_x", Op("true", "p_x")))})
         \cup If(Has("spaced"), {LET a == Minus("t", "t0") b == Op("autocorr", "y")
                                 IN Line("Autocorrelation", Op2("psd_x", a, b), Op2("psd_y", a, b))})
    [] f = "fourier" -> {}
\* The features: cosines of the frequencies up to m_max, and sines of the frequencies after that.
Cosines == {Bars("freq_cos", "z_mean_cos", Times("1.96", Sqrt("z_var_cos")))}
Sines == {Bars("freq_sin", "z_mean_sin", Times("1.96", Sqrt("z_var_sin")))}
\* Samples of the posterior, all different.
Samples(f) == CASE f = "kernel" -> "k_samples" [] f = "psd" -> "p_samples" [] OTHER -> ""
\* Limits of the axes: those given, or these.
XLimit(f) ==
  IF f \in cfg.xr THEN <<"x_range_lower", "x_range_upper">>
  ELSE CASE f = "function" -> <<Op("min", Grid), Op("max", Grid)>>
         [] f = "kernel" -> <<"0", Op("max", "k_x")>>
         [] f = "psd" -> <<"0", IF Has("spaced") THEN Op("max", Op2("psd_x", Minus("t", "t0"), Op("autocorr", "y")))
                                ELSE Op("max", "p_x")>>
         [] OTHER -> <<>>
YLimit(f) == IF f \in cfg.yr THEN <<"y_range_lower", "y_range_upper">> ELSE <<>>
Panel(f, x, title, curves) ==
  [what |-> "panel", figure |-> f, model |-> x, title |-> title, curves |-> curves, samples |-> Samples(f),
   xlim |-> XLimit(f), ylim |-> YLimit(f), absent |->
     {l \in {"Truth", "True", "Autocorrelation"} : \A c \in curves : c.label # l}]
Name(f) == CASE f = "function" -> "Function" [] f = "kernel" -> "Kernel" [] f = "psd" -> "PSD"
Panels(f, x) ==
  IF f # "fourier" THEN <<Panel(f, x, Name(f) \o " (" \o Title(x) \o ")", Curves(f, x))>>
  ELSE IF x # "gprv" THEN <<>>
  ELSE <<Panel(f, x, "Cosine Features (" \o Title(x) \o ")", Cosines), Panel(f, x, "Sine Features (" \o Title(x) \o ")", Sines)>>

-----------------------------------------------------------------------------
Structured == cfg.scheme = "structured"
Models == cfg.models
Number(w, k) == [what |-> w, model |-> k]
\* What there is to do, in order.
Each(w) == [k \in DOMAIN Models |-> [do |-> w, k |-> k]]
Tasks ==
  Each("variables")
  \o (IF Has("noisy") THEN <<[do |-> "true", k |-> 0]>> ELSE <<>>)
  \o (IF Has("comparative") THEN <<[do |-> "optimised", k |-> 0]>> ELSE <<>>)
  \o Each("elbo")
  \o Each("function") \o Each("kernel") \o Each("psd") \o Each("fourier")

Choices == IF Full THEN SUBSET Options ELSE {Options, {}, {"plot", "spaced"}}
Init == /\ cfg \in [models : Selections, scheme : {"structured", "mean-field-ca"}, opt : Choices,
                    xr : IF Full THEN {{}, {"kernel"}, {"function", "psd"}} ELSE {{}},
                    yr : IF Full THEN {{}, {"psd"}, {"kernel", "function"}} ELSE {{}}]
        /\ todo = <<[do |-> "start", k |-> 0]>> /\ page = <<>>
        /\ stage = [k \in DOMAIN cfg.models |-> 0] /\ rng = 0
Start == todo[1].do = "start" /\ todo' = Tasks /\ UNCHANGED <<cfg, page, stage, rng>>
Work ==
  /\ todo[1].do # "start"
  /\ LET w == todo[1].do k == todo[1].k
     IN CASE w = "variables" -> page' = Append(page, Number("variables", Models[k])) /\ rng' = rng
          [] w = "true" -> page' = Append(page, Number("true", "")) /\ rng' = rng
          [] w = "optimised" -> page' = Append(page, Number("optimised", "")) /\ rng' = rng
          \* The structured bound is estimated from samples, in the order of the models.
          [] w = "elbo" -> /\ page' = Append(page, [what |-> "elbo", model |-> Models[k], draws |-> rng])
                           /\ rng' = IF Structured THEN rng + 1 ELSE rng
          [] OTHER -> page' = page \o Panels(w, Models[k]) /\ rng' = rng
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<cfg, stage>>
Next == todo # <<>> /\ (Start \/ Work)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Done == todo = <<>>
Of(f, x) == {i \in DOMAIN page : page[i].what = "panel" /\ page[i].figure = f /\ page[i].model = x}
\* One panel per model and figure, in the order of the models.
Complete == Done =>
  /\ \A x \in SetOf(Models) : \A f \in {"function", "kernel", "psd"} : Cardinality(Of(f, x)) = 1
  /\ \A x \in SetOf(Models) : Cardinality(Of("fourier", x)) = IF x = "gprv" THEN 2 ELSE 0
  /\ \A i \in DOMAIN page : page[i].what \in {"panel", "elbo"} => page[i].model \in SetOf(Models)
\* What is drawn uses only what was given.
Given ==
  \A i \in DOMAIN page : page[i].what = "panel" =>
    \A c \in page[i].curves :
      /\ c.label = "Truth" => Has("truth")
      /\ c.label = "True" => Has("kernel")
      /\ c.label = "Autocorrelation" => Has("spaced")
\* The bands with noise contain those without: by construction of the expressions, the same centre.
OneEach == Done => \A x \in SetOf(Models) : Cardinality({i \in DOMAIN page : page[i].what = "elbo" /\ page[i].model = x}) = 1
\* Models are conditioned, not changed.
Frame == [][stage' = stage]_vars
Finishes == <>Done
Emit == Done => WriteLine(ToJson([cfg |-> cfg, page |-> page]), Out)
=============================================================================
