------------------------------ MODULE PolyWalk ------------------------------
(***************************************************************************)
(* A machine with registers that hold polynomials and exponentiated        *)
(* polynomials.  Every step is one call of the algebra.  The behaviours    *)
(* are replayed on the implementation, which must agree on the result and  *)
(* on every question about it after every step, so that the history by     *)
(* which a polynomial was made can never be observed.                      *)
(***************************************************************************)
EXTENDS PolyOps, Sequences, TLC, Json

CONSTANTS Out,       \* file to which behaviours are written
          Depth,     \* number of steps of a behaviour
          Random,    \* TRUE: one random instance of the operands per step
          Level      \* which operations

NV == 3
Vars == 1..NV
Regs == 1..3
ERegs == 1..2
Consts == {"-2", "-1", "0", "1", "2", "3", "1/2", "-3/4"}
Point == <<"2", "-1", "3/2">>
Point2 == <<"0", "1", "-1/2">>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

VARIABLES reg, ereg, hist, done
vars == <<reg, ereg, hist, done>>

Obs(p) == [poly  |-> PJson(p),
           deg   |-> [i \in Vars |-> PDeg(p,i)],
           dep   |-> [i \in Vars |-> PDepends(p,i)],
           const |-> PIsConst(p),
           eval  |-> PEval(p, Point),
           eval2 |-> PEval(p, Point2)]

\* The coefficients must remain exact in the floating point numbers of the code.
Small(p) == /\ Cardinality(DOMAIN p) <= 10 /\ PTotal(p) <= 6
            /\ \A m \in DOMAIN p : /\ RLt(RAbs(p[m]), "4096")
                                   /\ LET c == RMul(p[m], "64") IN RCeil(c) = RFloor(c)

Init == /\ reg = [r \in Regs |-> PVar(NV, r)]
        /\ ereg = [e \in ERegs |-> [c |-> "1", p |-> PVar(NV, e)]]
        /\ hist = <<>> /\ done = FALSE

Put(k, op, p) ==
  /\ Small(p)
  /\ reg' = [reg EXCEPT ![k] = p]
  /\ hist' = Append(hist, op @@ [k |-> k] @@ Obs(p)
                       @@ [eqs |-> [j \in Regs |-> reg'[j] = p]])
  /\ UNCHANGED <<ereg, done>>

PutE(k, op, e) ==
  /\ Small(e.p)
  /\ ereg' = [ereg EXCEPT ![k] = e]
  /\ hist' = Append(hist, op @@ [k |-> k, c |-> e.c] @@ Obs(e.p)
                       @@ [eqs |-> [j \in ERegs |-> ereg'[j] = e]])
  /\ UNCHANGED <<reg, done>>

SetVar == \E k \in Pick(Regs), v \in Pick(Vars), n \in Pick(1..3) :
            Put(k, [op |-> "var", v |-> v, n |-> n], PMono(MUnit(NV,v,n),"1"))
SetConst == \E k \in Pick(Regs), c \in Pick(Consts) :
            Put(k, [op |-> "const", x |-> c], PConst(NV,c))
SetZero == \E k \in Pick(Regs) : Put(k, [op |-> "zero"], PZero)
\* A sum of terms given explicitly; terms may have variables and monomials in common.
SetTerms == \E k \in Pick(Regs), c \in Pick(Consts), d \in Pick(Consts),
              v \in Pick(Vars), w \in Pick(Vars), n \in Pick(1..2) :
            Put(k, [op |-> "terms", x |-> c, y |-> d, v |-> v, w |-> w, n |-> n],
                PAdd(PMul(PMono(MUnit(NV,v,n),c), PVar(NV,w)),
                     PMono(MUnit(NV,w,n),d)))
\* Several terms, most with the same monomial, which may cancel in any order.
SetSum == \E k \in Pick(Regs), c \in Pick(Consts \ {"0"}), d \in Pick(Consts \ {"0"}), v \in Pick(Vars),
             w \in Pick(Vars) :
            LET m == RNeg(c)
                xs == IF v = 1 THEN <<c, m, d>> ELSE IF v = 2 THEN <<c, d, m, c>> ELSE <<d, c, m, RNeg(d), "1">>
            IN Put(k, [op |-> "sum", xs |-> xs, x |-> d, v |-> v, w |-> w],
                   PAdd(PMul(PConst(NV, RSumSeq(xs)), PMul(PVar(NV, v), PVar(NV, w))), PMono(MUnit(NV,w,1),d)))
Binary == \E k \in Pick(Regs), i \in Pick(Regs), j \in Pick(Regs) :
            \/ Put(k, [op |-> "add", i |-> i, j |-> j], PAdd(reg[i], reg[j]))
            \/ Put(k, [op |-> "sub", i |-> i, j |-> j], PSub(reg[i], reg[j]))
            \/ Put(k, [op |-> "mul", i |-> i, j |-> j], PMul(reg[i], reg[j]))
Unary == \E k \in Pick(Regs), i \in Pick(Regs) :
            \/ Put(k, [op |-> "neg", i |-> i], PNeg(reg[i]))
            \/ \E n \in 0..3 : Put(k, [op |-> "pow", i |-> i, n |-> n],
                                   PPow(NV, reg[i], n))
Scalar == \E k \in Pick(Regs), i \in Pick(Regs), c \in Pick(Consts) :
            \/ Put(k, [op |-> "addc", i |-> i, x |-> c], PAdd(reg[i], PConst(NV,c)))
            \/ Put(k, [op |-> "radd", i |-> i, x |-> c], PAdd(reg[i], PConst(NV,c)))
            \/ Put(k, [op |-> "subc", i |-> i, x |-> c], PSub(reg[i], PConst(NV,c)))
            \/ Put(k, [op |-> "rsub", i |-> i, x |-> c], PSub(PConst(NV,c), reg[i]))
            \/ Put(k, [op |-> "mulc", i |-> i, x |-> c], PScale(reg[i], c))
            \/ Put(k, [op |-> "rmul", i |-> i, x |-> c], PScale(reg[i], c))
Select == \E k \in Pick(Regs), i \in Pick(Regs), v \in Pick(Vars) :
            \/ \E n \in 1..3 : Put(k, [op |-> "collect", i |-> i, v |-> v, n |-> n],
                                   PCollect(reg[i], v, n))
            \/ Put(k, [op |-> "reject", i |-> i, v |-> v], PReject(reg[i], v))
Subst == \E k \in Pick(Regs), i \in Pick(Regs), j \in Pick(Regs), v \in Pick(Vars) :
            /\ PDeg(reg[i],v) * PTotal(reg[j]) <= 6
            /\ Put(k, [op |-> "subst", i |-> i, j |-> j, v |-> v],
                   PSubst(NV, reg[i], v, reg[j]))

EMake == \E k \in Pick(ERegs), i \in Pick(Regs), c \in Pick(Consts) :
            PutE(k, [op |-> "emake", i |-> i, x |-> c], [c |-> c, p |-> reg[i]])
EMul == \E k \in Pick(ERegs), i \in Pick(ERegs), j \in Pick(ERegs) :
            PutE(k, [op |-> "emul", i |-> i, j |-> j],
                 [c |-> RMul(ereg[i].c, ereg[j].c), p |-> PAdd(ereg[i].p, ereg[j].p)])
EScale == \E k \in Pick(ERegs), i \in Pick(ERegs), c \in Pick(Consts) :
            \/ PutE(k, [op |-> "emulc", i |-> i, x |-> c],
                    [ereg[i] EXCEPT !.c = RMul(@, c)])
            \/ PutE(k, [op |-> "ermul", i |-> i, x |-> c],
                    [ereg[i] EXCEPT !.c = RMul(@, c)])
            \/ PutE(k, [op |-> "eneg", i |-> i], [ereg[i] EXCEPT !.c = RNeg(@)])
ESubst == \E k \in Pick(ERegs), i \in Pick(ERegs), j \in Pick(Regs), v \in Pick(Vars) :
            /\ PDeg(ereg[i].p,v) * PTotal(reg[j]) <= 6
            /\ \/ PutE(k, [op |-> "esubst", i |-> i, j |-> j, v |-> v],
                       [ereg[i] EXCEPT !.p = PSubst(NV, @, v, reg[j])])
               \/ PutE(k, [op |-> "etrans", i |-> i, j |-> j, v |-> v],
                       [ereg[i] EXCEPT !.p =
                          PSubst(NV, @, v, PAdd(PVar(NV,v), reg[j]))])

Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<reg, ereg, hist>>
Step == /\ Len(hist) < Depth
        /\ \/ SetVar \/ SetConst \/ SetZero \/ SetTerms \/ SetSum
           \/ Binary \/ Unary \/ Scalar \/ Select \/ Subst
           \/ Level > 1 /\ (EMake \/ EMul \/ EScale \/ ESubst)

Next == Step \/ Finish

Emit == ~done \/ WriteLine(ToJson(hist), Out)

(* What makes this specification a ring of polynomials, checked on every    *)
(* visited state.                                                           *)
Canonical == \A r \in Regs : \A m \in DOMAIN reg[r] : reg[r][m] # "0"
RingLaws ==
  LET p == reg[1] q == reg[2] s == reg[3] IN
  /\ PAdd(p,q) = PAdd(q,p)
  /\ PSub(p,p) = PZero
  /\ PMul(p,q) = PMul(q,p)
  /\ PMul(p, PAdd(q,s)) = PAdd(PMul(p,q), PMul(p,s))
  /\ PEval(PMul(p,q), Point) = RMul(PEval(p,Point), PEval(q,Point))
  /\ PEval(PAdd(p,q), Point) = RAdd(PEval(p,Point), PEval(q,Point))
SubstLaw ==
  LET p == reg[1] q == reg[2] IN
  PEval(PSubst(NV,p,1,q), Point) = PEval(p, [Point EXCEPT ![1] = PEval(q,Point)])
\* A polynomial is the sum of what collect and reject select.
SplitLaw ==
  LET p == reg[1] IN
  p = PAdd(PReject(p,1),
           FoldSet(LAMBDA k, acc : PAdd(PMul(PCollect(p,1,k), PMono(MUnit(NV,1,k),"1")), acc),
                   PZero, 1..Max({1, PDeg(p,1)})))
=============================================================================
