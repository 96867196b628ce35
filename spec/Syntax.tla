-------------------------------- MODULE Syntax --------------------------------
(***************************************************************************)
(* Which engine programs are well formed: every function is applied to a   *)
(* number of operands it is defined for, and every operand is an earlier   *)
(* entry of the table.  The runtime refuses anything else.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Easing

Nullary == {"DebugPause", "StackInit", "StackLeave", "StackGetPointer", "StackGetFramePointer", "StackPop"}
Unary == {"Abs", "Arccos", "Arcsin", "Arctan", "Ceil", "Cos", "Cosh", "Degree", "Floor", "Frac", "Log", "Negate",
          "Not", "Radian", "Round", "Sign", "Sin", "Sinh", "Tan", "Tanh", "Trunc", "Block", "DebugLog",
          "HasEffectClip", "HasParticleEffect", "HasSkinSprite"}
Binary == {"Equal", "NotEqual", "Less", "LessOr", "Greater", "GreaterOr", "Min", "Max", "Arctan2", "Random",
           "RandomInteger", "Get", "While", "DoWhile", "Break",
           "IncrementPost", "IncrementPre", "DecrementPost", "DecrementPre"}
Ternary == {"Clamp", "If", "Lerp", "LerpClamped", "Unlerp", "UnlerpClamped", "GetPointed", "Set",
            "SetAdd", "SetSubtract", "SetMultiply", "SetDivide", "SetMod", "SetRem", "SetPower",
            "IncrementPostPointed", "IncrementPrePointed", "DecrementPostPointed", "DecrementPrePointed"}
Quaternary == {"GetShifted", "SetPointed", "SetAddPointed", "SetSubtractPointed", "SetMultiplyPointed",
               "SetDividePointed", "SetModPointed", "SetRemPointed", "SetPowerPointed", 
               "IncrementPostShifted", "IncrementPreShifted", "DecrementPostShifted", "DecrementPreShifted"}
Quinary == {"Copy", "Remap", "RemapClamped", "SetShifted", "SetAddShifted", "SetSubtractShifted",
            "SetMultiplyShifted", "SetDivideShifted", "SetModShifted", "SetRemShifted", "SetPowerShifted", "JudgeSimple"}
Octary == {"Judge"}

\* operations folding a non-empty operand list
Folding == {"Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power"}

ArityOk(f, n) ==
  CASE f \in Nullary -> n = 0
    [] f \in Unary \/ f \in EaseOps -> n = 1
    [] f \in Binary -> n = 2
    [] f \in Ternary -> n = 3
    [] f \in Quaternary -> n = 4
    [] f \in Quinary -> n = 5
    [] f \in Octary -> n = 8
    [] f \in Folding -> n >= 1
    [] f = "JumpLoop" -> n >= 1
    [] f = "Switch" -> n % 2 = 1
    [] f = "SwitchWithDefault" -> n >= 2 /\ n % 2 = 0
    [] f = "SwitchInteger" -> n >= 1
    [] f = "SwitchIntegerWithDefault" -> n >= 2
    [] OTHER -> TRUE

WellFormed(N) ==
  \A i \in 1..Len(N) :
    \/ N[i].f = ""
    \/ /\ ArityOk(N[i].f, Len(N[i].a))
       /\ \A j \in 1..Len(N[i].a) : N[i].a[j] \in 1..(i - 1)
=============================================================================
