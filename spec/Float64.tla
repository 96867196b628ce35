------------------------------- MODULE Float64 -------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers as TLC values.                                *)
(*                                                                         *)
(* A number is a string in canonical form: an integral double below 2^53   *)
(* is its decimal numeral ("3", "-17"; both zeros are "0"), "nan", "inf",  *)
(* "-inf", and every other double is "x" followed by the 16 hex digits of  *)
(* its bits.  Equality of two such strings is identity of the doubles they *)
(* denote, except that the sign of zero and NaN payloads are abstracted    *)
(* away (the compiler documents both as unspecified).                      *)
(*                                                                         *)
(* TLC has 32-bit integers and no reals, so the operators below are        *)
(* declared here and evaluated by the module override                      *)
(* tlc2.module.Float64 (java/Float64.java), exactly as TLC evaluates the   *)
(* standard module Integers.                                               *)
(***************************************************************************)

FAdd(a, b) == CHOOSE r \in STRING : TRUE      \* a + b
FSub(a, b) == CHOOSE r \in STRING : TRUE      \* a - b
FMul(a, b) == CHOOSE r \in STRING : TRUE      \* a * b
FDiv(a, b) == CHOOSE r \in STRING : TRUE      \* a / b
FMod(a, b) == CHOOSE r \in STRING : TRUE      \* floored remainder (sign of b)
FRem(a, b) == CHOOSE r \in STRING : TRUE      \* truncated remainder (sign of a)
FPow(a, b) == CHOOSE r \in STRING : TRUE      \* a to the b
FMin(a, b) == CHOOSE r \in STRING : TRUE      \* b if b < a, else a
FMax(a, b) == CHOOSE r \in STRING : TRUE      \* b if b > a, else a
FNeg(a)    == CHOOSE r \in STRING : TRUE
FAbs(a)    == CHOOSE r \in STRING : TRUE
FSign(a)   == CHOOSE r \in STRING : TRUE
FFloor(a)  == CHOOSE r \in STRING : TRUE
FCeil(a)   == CHOOSE r \in STRING : TRUE
FRint(a)   == CHOOSE r \in STRING : TRUE      \* nearest integer, ties to even
FTrunc(a)  == CHOOSE r \in STRING : TRUE
FEq(a, b)  == CHOOSE r \in {"0", "1"} : TRUE  \* IEEE comparisons, as numbers
FNe(a, b)  == CHOOSE r \in {"0", "1"} : TRUE
FLt(a, b)  == CHOOSE r \in {"0", "1"} : TRUE
FLe(a, b)  == CHOOSE r \in {"0", "1"} : TRUE
FGt(a, b)  == CHOOSE r \in {"0", "1"} : TRUE
FGe(a, b)  == CHOOSE r \in {"0", "1"} : TRUE
FUn(op, a) == CHOOSE r \in STRING : TRUE      \* Sin, Cos, ..., Log, Sqrt
FAtan2(a, b) == CHOOSE r \in STRING : TRUE
FIsInt(a)  == CHOOSE r \in BOOLEAN : TRUE     \* integral and |a| < 2^30
FToInt(a)  == CHOOSE r \in {0} : TRUE         \* that integer, as a TLC integer
FOfInt(i)  == CHOOSE r \in STRING : TRUE
FClose(a, b, u) == CHOOSE r \in BOOLEAN : TRUE \* differ by at most u units in the last place of 1
FNear(a, b, u) == CHOOSE r \in BOOLEAN : TRUE \* within u units in the last place
=============================================================================
