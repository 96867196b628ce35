-------------------------------- MODULE Easing --------------------------------
(***************************************************************************)
(* The easing operations of the runtime, over x clamped to [0, 1].         *)
(*                                                                         *)
(* Each family is given by its ease-in curve f; the other three are its    *)
(* reflections: out(x) = 1 - f(1 - x), inOut runs f on the first half and  *)
(* out on the second (each at half height), outIn the other way round.     *)
(* Back's and Elastic's combined forms use their own constants.  Expo and  *)
(* Elastic do not quite reach their end points; the end points of the      *)
(* whole curve (not the seam of a combined one) are set to 0 and 1.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Float64

Pi == "x400921fb54442d18"
C1 == "1.70158"
C2 == FMul(C1, "1.525")

Half(x) == FDiv(x, "2")
Dbl(x) == FMul(x, "2")
One(x) == FSub("1", x)

P2(x) == FPow("2", x)
Wave(x, shift, period) == FUn("Sin", FMul(FSub(x, shift), FDiv(Dbl(Pi), period)))

\* c: the overshoot
BackIn(x, c) == FSub(FMul(FAdd(c, "1"), FMul(x, FMul(x, x))), FMul(c, FMul(x, x)))
\* p: the period of the oscillation
ElasticIn(x, p) ==
  FNeg(FMul(P2(FSub(FMul("10", x), "10")), Wave(FMul("10", x), "10.75", p)))

Curve(family, x) ==
  CASE family = "Quad"    -> FMul(x, x)
    [] family = "Cubic"   -> FMul(x, FMul(x, x))
    [] family = "Quart"   -> FMul(FMul(x, x), FMul(x, x))
    [] family = "Quint"   -> FMul(x, FMul(FMul(x, x), FMul(x, x)))
    [] family = "Sine"    -> One(FUn("Cos", Half(FMul(x, Pi))))
    [] family = "Circ"    -> One(FUn("Sqrt", One(FMul(x, x))))
    [] family = "Expo"    -> P2(FSub(FMul("10", x), "10"))
    [] family = "Back"    -> BackIn(x, C1)
    [] family = "Elastic" -> ElasticIn(x, "3")

\* The curve used by the combined inOut form.
CurveIO(family, x) ==
  CASE family = "Back" -> BackIn(x, C2)
    [] family = "Elastic" ->
         \* half of the combined curve, whose phase differs from the plain one
         FNeg(FMul(P2(FSub(FMul("10", x), "10")), Wave(FMul("10", x), "11.125", "4.5")))
    [] OTHER -> Curve(family, x)

OutOf(f(_), x) == One(f(One(x)))

Ease(dir, family, y) ==
  LET x == FMax("0", FMin("1", y))
      fst == FLt(x, "0.5") = "1"
      F(t) == Curve(family, t)
      G(t) == CurveIO(family, t)
      O(t) == OutOf(F, t)
  IN CASE family \in {"Expo", "Elastic"} /\ x \in {"0", "1"} -> x
       [] dir = "In"    -> F(x)
       [] dir = "Out"   -> O(x)
       [] dir = "InOut" -> IF fst THEN Half(G(Dbl(x))) ELSE FAdd(Half(OutOf(G, FSub(Dbl(x), "1"))), "0.5")
       [] dir = "OutIn" -> IF fst THEN Half(O(Dbl(x))) ELSE FAdd(Half(F(FSub(Dbl(x), "1"))), "0.5")

EaseTable ==
  [n \in {"Ease" \o d \o f : d \in {"In", "Out", "InOut", "OutIn"},
          f \in {"Quad", "Cubic", "Quart", "Quint", "Sine", "Circ", "Expo", "Back", "Elastic"}} |->
     CHOOSE p \in {"In", "Out", "InOut", "OutIn"} \X
                  {"Quad", "Cubic", "Quart", "Quint", "Sine", "Circ", "Expo", "Back", "Elastic"} :
       "Ease" \o p[1] \o p[2] = n]
EaseOps == DOMAIN EaseTable
EaseOp(op, x) == LET p == EaseTable[op] IN Ease(p[1], p[2], x)
=============================================================================
