--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* Value-level meaning of the operations of the Sonolus runtime.           *)
(*                                                                         *)
(* "undef" is the unspecified value: an uninitialised temporary, or the    *)
(* result of an operation outside its domain (division by zero, logarithm  *)
(* of a negative number, minimum of a NaN ...).  A program whose           *)
(* observable behaviour depends on it promises nothing.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Float64, Easing

U == "undef"

Bool(b) == IF b THEN "1" ELSE "0"
NonFinite(a) == a \in {"nan", "inf", "-inf"}

AnyU(a) == \E i \in 1..Len(a) : a[i] = U
AnyNan(a) == \E i \in 1..Len(a) : a[i] = "nan"

Mul(x, y) == IF (x = "0" /\ NonFinite(y)) \/ (y = "0" /\ NonFinite(x)) THEN U ELSE FMul(x, y)
Div(x, y) == IF y = "0" THEN U ELSE FDiv(x, y)
Mod(x, y) == IF y = "0" \/ NonFinite(x) THEN U ELSE FMod(x, y)
Rem(x, y) == IF y = "0" \/ NonFinite(x) THEN U ELSE FRem(x, y)
Min2(x, y) == IF x = "nan" \/ y = "nan" THEN U ELSE FMin(x, y)
Max2(x, y) == IF x = "nan" \/ y = "nan" THEN U ELSE FMax(x, y)
\* Powers are specified where their value is exact (small integral exponents of dyadic
\* rationals); elsewhere libraries may differ in the last place and nothing is promised here.
Pow(x, y) == IF FIsInt(FMul(x, "64")) /\ y \in {"0", "1", "2", "3"} /\ FLe(FAbs(x), "1024") = "1"
             THEN FPow(x, y) ELSE U

\* Binary application with the unspecified value absorbing.
B2(Op(_, _), x, y) == IF x = U \/ y = U THEN U ELSE Op(x, y)
U1(Op(_), x) == IF x = U THEN U ELSE Op(x)

RECURSIVE FoldFrom(_, _, _, _)
FoldFrom(Op(_, _), acc, a, i) ==
  IF i > Len(a) THEN acc ELSE FoldFrom(Op, B2(Op, acc, a[i]), a, i + 1)
FoldL(Op(_, _), a) == IF Len(a) = 0 THEN "0" ELSE FoldFrom(Op, a[1], a, 2)

Clamp(x, a, b) == B2(Max2, a, B2(Min2, b, x))
Clamp01(x) == B2(Max2, "0", B2(Min2, "1", x))
Add2(x, y) == B2(FAdd, x, y)
Sub2(x, y) == B2(FSub, x, y)
Mul2(x, y) == B2(Mul, x, y)
Div2(x, y) == B2(Div, x, y)
ToIntegral(Op(_), x) == IF x = U \/ NonFinite(x) THEN U ELSE Op(x)
Domain(ok, op, x) == IF ok THEN FUn(op, x) ELSE U

JudgeIn(d, lo, hi) == FLe(lo, d) = "1" /\ FLe(d, hi) = "1"
Judge(d, a1, b1, a2, b2, a3, b3) ==
  IF JudgeIn(d, a1, b1) THEN "1"
  ELSE IF JudgeIn(d, a2, b2) THEN "2"
  ELSE IF JudgeIn(d, a3, b3) THEN "3" ELSE "0"

RECURSIVE AndFrom(_, _)
AndFrom(a, i) ==
  IF a[i] = U THEN U ELSE IF a[i] = "0" \/ i = Len(a) THEN a[i] ELSE AndFrom(a, i + 1)
RECURSIVE OrFrom(_, _)
OrFrom(a, i) ==
  IF a[i] = U THEN U ELSE IF a[i] # "0" \/ i = Len(a) THEN a[i] ELSE OrFrom(a, i + 1)

Truthy(v) == v # "0"

\* Index (into the operand list, from 1) of the arm a multi-way value op selects,
\* 0 for "no arm".  n is the number of operands, D whether the last is a default.
RECURSIVE KeyArm(_, _, _)
KeyArm(a, i, last) ==
  IF i + 1 > last THEN 0
  ELSE IF a[i] = U THEN 0
  ELSE IF FEq(a[1], a[i]) = "1" THEN i + 1
  ELSE KeyArm(a, i + 2, last)
IntArm(t, narms) ==
  IF FIsInt(t) /\ FLe("0", t) = "1" /\ FLt(t, FOfInt(narms)) = "1" THEN FToInt(t) + 1 ELSE 0

PureOps3(op, a) ==
  CASE op = "Lerp"         -> Add2(a[1], Mul2(Sub2(a[2], a[1]), a[3]))
    [] op = "LerpClamped"  -> Add2(a[1], Mul2(Sub2(a[2], a[1]), Clamp01(a[3])))
    [] op = "Unlerp"       -> Div2(Sub2(a[3], a[1]), Sub2(a[2], a[1]))
    [] op = "UnlerpClamped" -> Clamp01(Div2(Sub2(a[3], a[1]), Sub2(a[2], a[1])))
    [] op = "Remap"        -> Add2(a[3], Div2(Mul2(Sub2(a[4], a[3]), Sub2(a[5], a[1])), Sub2(a[2], a[1])))
    [] op = "RemapClamped" -> Add2(a[3], Mul2(Sub2(a[4], a[3]), Clamp01(Div2(Sub2(a[5], a[1]), Sub2(a[2], a[1])))))
    [] op = "Judge"        -> IF AnyU(a) \/ AnyNan(a) THEN U
                              ELSE Judge(FSub(a[1], a[2]), a[3], a[4], a[5], a[6], a[7], a[8])
    [] op = "JudgeSimple"  -> IF AnyU(a) \/ AnyNan(a) THEN U
                              ELSE Judge(FSub(a[1], a[2]), FNeg(a[3]), a[3], FNeg(a[4]), a[4], FNeg(a[5]), a[5])
    [] op \in {"Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh", "Arctan"} ->
         IF a[1] = U \/ NonFinite(a[1]) THEN U
         ELSE LET r == FUn(op, a[1]) IN IF NonFinite(r) THEN U ELSE r
    [] op \in {"Arcsin", "Arccos"} ->
         IF a[1] = U THEN U ELSE Domain(FLe(FAbs(a[1]), "1") = "1", op, a[1])
    [] op = "Log"          -> IF a[1] = U \/ a[1] = "inf" THEN U ELSE Domain(FLt("0", a[1]) = "1", op, a[1])
    [] op = "Arctan2"      -> IF AnyU(a) \/ AnyNan(a) \/ a[1] = "0" \/ a[2] = "0" THEN U ELSE FAtan2(a[1], a[2])
    [] op \in EaseOps      -> IF a[1] = U \/ a[1] = "nan" THEN U ELSE EaseOp(op, a[1])
    [] OTHER               -> "?"

\* A pure operation of the runtime (level lookups, stream reads ...) the specification
\* leaves uninterpreted: some fixed function of its operands.
RECURSIVE HashArgs(_, _, _)
HashArgs(h, a, i) ==
  IF i > Len(a) THEN h
  ELSE HashArgs(FMod(FAdd(FMul(h, "7"), IF NonFinite(a[i]) THEN "5" ELSE a[i]), "97"), a, i + 1)

PureOp2(op, a) ==
  CASE op = "And"      -> IF Len(a) = 0 THEN "0" ELSE AndFrom(a, 1)
    [] op = "Or"       -> IF Len(a) = 0 THEN "0" ELSE OrFrom(a, 1)
    [] op = "Min"      -> B2(Min2, a[1], a[2])
    [] op = "Max"      -> B2(Max2, a[1], a[2])
    [] op = "Mod"      -> FoldL(Mod, a)
    [] op = "Divide"   -> FoldL(Div, a)
    [] op = "Floor"    -> ToIntegral(FFloor, a[1])
    [] op = "Abs"      -> U1(FAbs, a[1])
    [] op = "GreaterOr" -> B2(FGe, a[1], a[2])
    [] op = "LessOr"   -> B2(FLe, a[1], a[2])
    [] op = "Ceil"     -> ToIntegral(FCeil, a[1])
    [] op = "Round"    -> ToIntegral(FRint, a[1])
    [] op = "Trunc"    -> ToIntegral(FTrunc, a[1])
    [] op = "Frac"     -> ToIntegral(LAMBDA x : FMod(x, "1"), a[1])
    [] op = "Rem"      -> FoldL(Rem, a)
    [] op = "Power"    -> FoldL(Pow, a)
    [] op = "Sign"     -> IF a[1] = U \/ a[1] = "nan" THEN U ELSE FSign(a[1])
    [] op = "Clamp"    -> Clamp(a[1], a[2], a[3])
    [] op = "If"       -> IF a[1] = U THEN U ELSE IF Truthy(a[1]) THEN a[2] ELSE a[3]
    [] op = "Switch"   -> IF a[1] = U THEN U
                          ELSE LET k == KeyArm(a, 2, Len(a)) IN IF k = 0 THEN "0" ELSE a[k]
    [] op = "SwitchWithDefault" ->
         IF a[1] = U THEN U
         ELSE LET k == KeyArm(a, 2, Len(a) - 1) IN IF k = 0 THEN a[Len(a)] ELSE a[k]
    [] op = "SwitchInteger" ->
         IF a[1] = U THEN U
         ELSE LET k == IntArm(a[1], Len(a) - 1) IN IF k = 0 THEN "0" ELSE a[k + 1]
    [] op = "SwitchIntegerWithDefault" ->
         IF a[1] = U THEN U
         ELSE LET k == IntArm(a[1], Len(a) - 2) IN IF k = 0 THEN a[Len(a)] ELSE a[k + 1]
    [] op = "Degree"   -> Mul2(a[1], "x404ca5dc1a63c1f8")
    [] op = "Radian"   -> Mul2(a[1], "x3f91df46a2529d39")
    [] OTHER -> LET r == PureOps3(op, a)
                IN IF r = "?" THEN (IF AnyU(a) THEN U ELSE HashArgs("3", a, 1)) ELSE r

PureOp(op, a) ==
  CASE op = "Add"      -> FoldL(FAdd, a)
    [] op = "Subtract" -> FoldL(FSub, a)
    [] op = "Multiply" -> FoldL(Mul, a)
    [] op = "Equal"    -> B2(FEq, a[1], a[2])
    [] op = "NotEqual" -> B2(FNe, a[1], a[2])
    [] op = "Less"     -> B2(FLt, a[1], a[2])
    [] op = "Greater"  -> B2(FGt, a[1], a[2])
    [] op = "Not"      -> IF a[1] = U THEN U ELSE Bool(a[1] = "0")
    [] op = "Negate"   -> U1(FNeg, a[1])
    [] OTHER           -> PureOp2(op, a)

\* n-th answer of the environment to an effectful or nondeterministic operation
\* with these operands (the environment's choice, fixed per run so that two
\* programs can be compared on the same environment).
EnvAnswer(op, a, n) ==
  IF AnyU(a) THEN U
  ELSE CASE op = "RandomInteger" -> FAdd(a[1], FMod(FOfInt(n), Max2("1", FSub(a[2], a[1]))))
         [] op = "Random"        -> FAdd(a[1], Mul2(FSub(a[2], a[1]), FDiv(FMod(FOfInt(n), "8"), "8")))
         [] op \in {"DebugLog", "DebugPause"} -> "0"
         [] OTHER                -> FAdd(FMul(HashArgs("1", a, 1), "16"), FOfInt(n))
=============================================================================
