------------------------------ MODULE RGPCMInt ------------------------------
(***************************************************************************)
(* The covariances and integrals of the rough model.  With a white noise w *)
(* and a process x with kernel exp(-la |s - t|), the function is           *)
(*    f(t) = int_0^oo at exp(-al p) w(p) x(t - p) dp,                      *)
(* the inducing variables are                                              *)
(*    u(v) = int_{-oo}^v gt exp(-ga (v - p)) w(p) dp,                      *)
(* and z_m is the inner product of x with the m-th basis function in the   *)
(* space of the kernel of x on [a, b], so cov(z_m, x(t)) = phi_m(t).  The  *)
(* basis functions are cos(om_m (t - a)), m <= M, and sin(om_{m-M} (t-a)), *)
(* M < m <= 2 M, om_m = 2 pi m / (b - a); outside of [a, b] the former     *)
(* continue as exp(-la dist) and the latter as zero.                       *)
(*                                                                         *)
(* b - a is 2 pi / q, so that om_m = q m is rational.  Times are relative  *)
(* to a.  A state is a model with one quantity at one index; the steps     *)
(* integrate over the pieces of the domain in any order.                   *)
(***************************************************************************)
EXTENDS ExpLin, TLC, Json

CONSTANTS Out, Num

RE(X) == RandomElement(X)
RECURSIVE RandSeq(_,_)
RandSeq(S, n) == IF n = 0 THEN <<>> ELSE LET x == RE(S) IN <<x>> \o RandSeq(S \ {x}, n-1)

Us == {"0", "1/4", "1/2", "5/8", "1"}
\* Time is measured in some unit.
Units == {"1/8", "1/1024", "1/65536", "64", "32768"}
By(x, c) == [i \in DOMAIN x |-> RMul(x[i], c)]
InUnits(m, c) == [m EXCEPT !.unit = RMul(@, c), !.al = RDiv(@, c), !.ga = RDiv(@, c), !.la = RDiv(@, c),
                          !.q = RDiv(@, c), !.a = RMul(@, c), !.u = By(@, c), !.s = By(@, c), !.t = By(@, c)]
RandModel(n) ==
  LET q == RE({"1", "2", "1/2", "3/2"})
      mm == RE({1, 2, 2})
      nm == RE(2..IF mm = 1 THEN 3 ELSE 4)
      al == RE({"1", "2", "3/2", "3"})
      ga == RMul(al, RE({"1/2", "1/4", "2/5", "3/5", "1/10"}))
      la == RE({"3/7", "11/13", "5/3", "4", "10/3"})   \* Never al - ga.
      \* Times between one and the end of the interval.
      tt == {RDiv(x, q) : x \in {"2", "9/4", "3", "4", "5", "6"}}
      t1 == {t \in tt : RLe("1", t)}
      c == IF n % 2 = 0 THEN "1" ELSE RE(Units)
  IN InUnits([n |-> n, unit |-> "1", q |-> q, a |-> RE({"-2", "0", "3/4", "-1/2"}), al |-> al, ga |-> ga, la |-> la,
      at |-> RE({"1", "1/2", "2"}), gt |-> RE({"1", "3/2", "1/3"}), mm |-> mm,
      ms |-> RandSeq(0..(2*mm), nm), u |-> RandSeq(Us, RE({2,3})),
      s |-> RandSeq(t1, RE({1,2})), t |-> RandSeq(t1, RE({2,3}))], c)

\* Index zero of a time is the default: zero, which is -a relative to a.
T0(m, x, i) == IF i = 0 THEN RNeg(m.a) ELSE x[i]
Asks(m) ==
  LET U == DOMAIN m.u Z == DOMAIN m.ms S == DOMAIN m.s T == DOMAIN m.t
  IN [q : {"K_u"}, i : U, j : U, x : {0}, y : {0}]
     \cup [q : {"K_z"}, i : Z, j : Z, x : {0}, y : {0}]
     \cup [q : {"i_hx"}, i : {0}, j : {0}, x : S \cup {0}, y : T \cup {0}]
     \cup [q : {"I_ux"}, i : U, j : U, x : S \cup {0}, y : T \cup {0}]
     \cup [q : {"I_hz"}, i : Z, j : Z, x : {0}, y : T]
     \cup [q : {"I_uz"}, i : U, j : Z, x : {0}, y : T]

IsCos(m, k) == k <= m.mm
Phi(m, k, v) == IF IsCos(m, k) THEN ECos(v, RMul(m.q, RInt(k)))
                ELSE ESin(v, RMul(m.q, RInt(k - m.mm)))
PhiBefore(m, k, v) == IF IsCos(m, k) THEN EExp(v, m.la, "0") ELSE EZero

(* An integral is a set of pieces: integrate f over variable v from lo to hi; lo may be "-inf". *)
(* I_ux: x1 in [0, u_j] belongs to time x, x2 in [0, u_i] to time y; the kernel of x at distance *)
(* |d - x1 + x2|, with d the difference of the times, has a kink at x2 = x1 - d.                 *)
Sgn(d, sg, la) == \* exp(-la sg (d - x1 + x2))
  ETerm(C1, <<CReal(RMul(la, sg)), CReal(RNeg(RMul(la, sg))), CReal(RNeg(RMul(la, RMul(sg, d))))>>)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : \A y \in S : RLe(x, y) IN <<x>> \o Sorted(S \ {x})
\* Integrate variable o last. The kink is at x_i = x_o + e, where e = -d if o = 1 and e = d if o = 2.
IuxPieces(m, r, o) ==
  LET d == RSub(T0(m, m.s, r.x), T0(m, m.t, r.y))
      top == <<m.u[r.j], m.u[r.i]>>
      i == 3 - o
      e == IF o = 1 THEN RNeg(d) ELSE d
      \* Beyond the kink the sign of d - x1 + x2 is that of x2, the opposite of that of x1.
      above == IF i = 2 THEN "1" ELSE "-1"
      base == ETerm(C1, <<CReal(RSub(m.ga, m.al)), CReal(RSub(m.ga, m.al)),
                          CReal(RMul(RNeg(m.ga), RAdd(top[1], top[2])))>>)
      fab == EMul(base, Sgn(d, above, m.la))
      fbe == EMul(base, Sgn(d, RNeg(above), m.la))
      \* Where the kink enters and leaves [0, top[i]].
      cuts == {c \in {RNeg(e), RSub(top[i], e)} : RLt("0", c) /\ RLt(c, top[o])}
      ps == Sorted({"0", top[o]} \cup cuts)
      zero == <<"0","0">>
      end == <<"0", top[i]>>
      kink == <<"1", e>>
      inner(mid) == LET k == RAdd(mid, e)
                    IN IF RLe(k, "0") THEN EInt(fab, i, zero, end)
                       ELSE IF RLe(top[i], k) THEN EInt(fbe, i, zero, end)
                       ELSE EAdd(EInt(fbe, i, zero, kink), EInt(fab, i, kink, end))
  IN {[v |-> o, lo |-> ps[k], hi |-> ps[k+1],
       f |-> inner(RDiv(RAdd(ps[k], ps[k+1]), "2"))] : k \in 1..(Len(ps)-1)}

Pieces(m, r) ==
  LET t == T0(m, m.t, r.y)
  IN CASE r.q = "K_u" ->
            \* int_{-oo}^{min} gt^2 exp(-ga (u_i - p)) exp(-ga (u_j - p)) dp
            {[v |-> 1, lo |-> "-inf", hi |-> RMin(m.u[r.i], m.u[r.j]),
              f |-> EExp(1, RMul("2", m.ga), RMul(RNeg(m.ga), RAdd(m.u[r.i], m.u[r.j])))]}
       [] r.q = "i_hx" ->
            {[v |-> 1, lo |-> "-inf", hi |-> "0",
              f |-> EExp(1, RMul("2", m.al),
                         RMul(RNeg(m.la), RAbs(RSub(T0(m, m.s, r.x), t))))]}
       [] r.q = "I_ux" -> IuxPieces(m, r, 1)
       [] r.q = "I_hz" ->
            LET k == m.ms[r.i] l == m.ms[r.j]
                w == EExp(1, RMul("2", m.al), RMul(RNeg(RMul("2", m.al)), t))
            IN {[v |-> 1, lo |-> "-inf", hi |-> "0",
                 f |-> EMul(w, EMul(PhiBefore(m,k,1), PhiBefore(m,l,1)))],
                [v |-> 1, lo |-> "0", hi |-> t, f |-> EMul(w, EMul(Phi(m,k,1), Phi(m,l,1)))]}
       [] r.q = "I_uz" ->
            \* p from 0 to u, with noise at time t - p: integrate the latter.
            {[v |-> 1, lo |-> RSub(t, m.u[r.i]), hi |-> t,
              f |-> EMul(EExp(1, RSub(m.al, m.ga),
                              RSub(RMul(RNeg(m.al), t), RMul(m.ga, RSub(m.u[r.i], t)))),
                         Phi(m, m.ms[r.j], 1))]}
       [] r.q = "K_z" -> {}

Do1(p) == IF p.lo = "-inf" THEN EIntTail(p.f, p.v, <<"0", p.hi>>)
          ELSE EInt(p.f, p.v, <<"0", p.lo>>, <<"0", p.hi>>)
Total(ps) == ESum(ps, Do1)

Pw(r) == CASE r.q = "K_u" -> [at |-> 0, gt |-> 2] [] r.q = "K_z" -> [at |-> 0, gt |-> 0]
           [] r.q = "i_hx" -> [at |-> 2, gt |-> 0] [] r.q = "I_ux" -> [at |-> 2, gt |-> 2]
           [] r.q = "I_hz" -> [at |-> 2, gt |-> 0] [] r.q = "I_uz" -> [at |-> 1, gt |-> 1]

(* The inner product of the space of exp(-la |s - t|) on [a, b]:                               *)
(*   (1 / (2 la)) int f' g' + la^2 f g + (f(a) g(a) + f(b) g(b)) / 2.                          *)
(* The functions have period b - a.  The value is <<x, y>>, for x + y pi.                      *)
Period(m, f) == CMul(EAt(f, <<C0,C0,C0>>), CReal(RDiv("2", m.q)))   \* times pi
Gram(m, k, l) ==
  LET f == Phi(m,k,1) g == Phi(m,l,1)
      int == EAdd(EMul(EDiff(f,1), EDiff(g,1)), EScale(EMul(f,g), CReal(RMul(m.la, m.la))))
  IN << EAt(EValueAt(EMul(f,g), 1, "0"), <<C0,C0,C0>>)[1],
        RDiv(Period(m, int)[1], RMul("2", m.la)) >>
\* The same inner product, written as that of the innovations.
Gram2(m, k, l) ==
  LET f == Phi(m,k,1) g == Phi(m,l,1)
      in(h) == EAdd(EDiff(h,1), EScale(h, CReal(m.la)))
  IN << EAt(EValueAt(EMul(f,g), 1, "0"), <<C0,C0,C0>>)[1],
        RDiv(Period(m, EMul(in(f), in(g)))[1], RMul("2", m.la)) >>

VARIABLES model, ask, left, acc
vars == <<model, ask, left, acc>>

Init == /\ \E n \in 1..Num : model = RandModel(n)
        /\ ask = [q |-> "none"] /\ left = {} /\ acc = EZero
Ask(r) == /\ ask.q = "none" /\ ask' = r /\ left' = Pieces(model, r)
          /\ UNCHANGED <<model, acc>>
Add(p) == /\ p \in left /\ left' = left \ {p} /\ acc' = EAdd(acc, Do1(p))
          /\ UNCHANGED <<model, ask>>
Next == (\E r \in Asks(model) : Ask(r)) \/ (\E p \in left : Add(p))

Done == ask.q # "none" /\ left = {}

----------------------------------------------------------------------------
Proper == \A p \in left : /\ p.hi = p.lo \/ EIntegrable(p.f, p.v)
                          /\ p.lo = "-inf" => EDecays(p.f, p.v)
RealValue == Done => EClosed(acc) /\ EReal(acc)
\* Integrate over x2 last.
Fubini == (Done /\ ask.q = "I_ux") => acc = Total(IuxPieces(model, ask, 2))
Symmetric ==
  /\ (Done /\ ask.q \in {"K_u","I_hz"}) =>
       acc = Total(Pieces(model, [ask EXCEPT !.i = ask.j, !.j = ask.i]))
  /\ (Done /\ ask.q = "K_z") =>
       Gram(model, model.ms[ask.i], model.ms[ask.j]) = Gram(model, model.ms[ask.j], model.ms[ask.i])
\* Swapping the times transposes.
Transposed == (Done /\ ask.q = "I_ux" /\ ask.x # 0 /\ ask.y # 0) =>
  acc = Total(Pieces([model EXCEPT !.s = model.t, !.t = model.s],
                     [ask EXCEPT !.i = ask.j, !.j = ask.i, !.x = ask.y, !.y = ask.x]))
\* Only the difference of the times matters.
Shift(x) == [i \in DOMAIN x |-> RAdd(x[i], RMul("5/7", model.unit))]
Stationary == (Done /\ ask.q \in {"i_hx", "I_ux"} /\ ask.x # 0 /\ ask.y # 0) =>
  acc = Total(Pieces([model EXCEPT !.s = Shift(model.s), !.t = Shift(model.t)], ask))
\* Changing the unit of time changes the value by its power and nothing else.
Dim(r) == CASE r.q = "I_ux" -> 2 [] r.q = "K_z" -> 0 [] OTHER -> 1
Covariant == Done =>
  LET m == InUnits(model, "5/3")
  IN /\ Total(Pieces(m, ask)) = EScale(acc, CReal(RPow("5/3", Dim(ask))))
     /\ ask.q = "K_z" => Gram(m, m.ms[ask.i], m.ms[ask.j]) = Gram(model, model.ms[ask.i], model.ms[ask.j])
Tidy == \A i \in DOMAIN model.u : RDiv(model.u[i], model.unit) \in Us
\* Pieces can be cut anywhere.
Cut == \A p \in left : (p.lo # "-inf") =>
  LET c == RDiv(RAdd(p.lo, p.hi), "2")
  IN Do1(p) = EAdd(Do1([p EXCEPT !.hi = c]), Do1([p EXCEPT !.lo = c]))
GramForms == (Done /\ ask.q = "K_z") =>
  Gram(model, model.ms[ask.i], model.ms[ask.j]) = Gram2(model, model.ms[ask.i], model.ms[ask.j])

Emit == Done =>
  WriteLine(ToJson([model |-> model, ask |-> ask, pw |-> Pw(ask), dim |-> Dim(ask), value |-> EJson(acc),
      gram |-> IF ask.q = "K_z" THEN Gram(model, model.ms[ask.i], model.ms[ask.j]) ELSE <<"0","0">>]), Out)
=============================================================================
