------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The two abstract machines between which the compiler translates.        *)
(*                                                                         *)
(*  - the SOURCE machine runs a control-flow graph of basic blocks over    *)
(*    named temporaries and numbered memory blocks;                        *)
(*  - the ENGINE machine runs the expression-tree language of the Sonolus  *)
(*    runtime (Execute / If / Switch* / JumpLoop / Block / Break / Get* /  *)
(*    Set* / fused read-modify-write / native operations).                 *)
(*                                                                         *)
(* Both keep a machine state                                               *)
(*   m    memory: <<block, index>> -> value (strings, see Float64)         *)
(*   tr   the ordered trace of observable events: writes to memory other   *)
(*        than temporaries, and every side-effecting operation with its    *)
(*        operands                                                         *)
(*   dr   the ordered trace of random draws                                *)
(*   cnt  how often each effect/draw has been asked with the same operands *)
(*   x    "run", "stuck" (no promise is made from here on), "fuel",        *)
(*        "brk" (unwinding to an enclosing Block), "done"                  *)
(*   bn, r  levels left to unwind, and the value carried                   *)
(*   f    fuel                                                             *)
(*   u    an unspecified value has been computed (engine machine, for      *)
(*        tables that mark no node as pure)                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Ops, Syntax

\* What memory nobody has written in the run holds: "hash" (some fixed unknown) or "minus1".
CONSTANT Unwritten

TempBlk == "10000"
TempCap == 4096

Draws == {"Random", "RandomInteger"}

\* Side-effecting (or nondeterministic) operations.
SetOps == {"Set", "SetShifted", "SetPointed"}
IncDec == {"IncrementPost", "IncrementPre", "DecrementPost", "DecrementPre"}
IncDecS == {"IncrementPostShifted", "IncrementPreShifted", "DecrementPostShifted", "DecrementPreShifted"}
IncDecP == {"IncrementPostPointed", "IncrementPrePointed", "DecrementPostPointed", "DecrementPrePointed"}
Rmw == {"SetAdd", "SetSubtract", "SetMultiply", "SetDivide", "SetMod", "SetRem", "SetPower"}
RmwS == {"SetAddShifted", "SetSubtractShifted", "SetMultiplyShifted", "SetDivideShifted",
         "SetModShifted", "SetRemShifted", "SetPowerShifted"}
RmwP == {"SetAddPointed", "SetSubtractPointed", "SetMultiplyPointed", "SetDividePointed",
         "SetModPointed", "SetRemPointed", "SetPowerPointed"}

RmwBin(op) ==
  CASE op \in {"SetAdd", "SetAddShifted", "SetAddPointed"} -> "Add"
    [] op \in {"SetSubtract", "SetSubtractShifted", "SetSubtractPointed"} -> "Subtract"
    [] op \in {"SetMultiply", "SetMultiplyShifted", "SetMultiplyPointed"} -> "Multiply"
    [] op \in {"SetDivide", "SetDivideShifted", "SetDividePointed"} -> "Divide"
    [] op \in {"SetMod", "SetModShifted", "SetModPointed"} -> "Mod"
    [] op \in {"SetRem", "SetRemShifted", "SetRemPointed"} -> "Rem"
    [] OTHER -> "Power"

------------------------------------------------------------------------------
(* Memory *)

GoodAddr(b, i) ==
  /\ b # U /\ i # U /\ FIsInt(b) /\ FIsInt(i)
  /\ FLe("0", i) = "1" /\ FLe(i, "65535") = "1"

\* Content of memory nobody has written in this run.
Default(b, i) == IF Unwritten = "minus1" THEN "-1" ELSE HashArgs("2", <<b, i>>, 1)

Rd(m, b, i) ==
  IF <<b, i>> \in DOMAIN m THEN m[<<b, i>>]
  ELSE IF ~GoodAddr(b, i) \/ b = TempBlk THEN U
  ELSE Default(b, i)

Stuck(s) == [s EXCEPT !.x = "stuck"]

Wr(s, b, i, v) ==
  IF ~GoodAddr(b, i) THEN Stuck(s)
  ELSE IF b = TempBlk
       THEN IF FLt(i, FOfInt(TempCap)) = "1"
            THEN [s EXCEPT !.m = (<<b, i>> :> v) @@ s.m]
            ELSE [s EXCEPT !.x = "temp-overflow"]
       ELSE [s EXCEPT !.m = (<<b, i>> :> v) @@ s.m,
                      !.tr = Append(s.tr, <<"w", b, i, v>>)]

A2(x, y) == B2(FAdd, x, y)

\* An effectful or nondeterministic operation: an event and an answer.
RECURSIVE CopyMem(_, _, _, _, _, _, _)
CopyMem(m0, m, sb, si, db, di, n) ==
  IF n = 0 THEN m
  ELSE LET k == FOfInt(n - 1)
       IN CopyMem(m0, (<<db, FAdd(di, k)>> :> Rd(m0, sb, FAdd(si, k))) @@ m, sb, si, db, di, n - 1)

Effect(op, a, s) ==
  LET key == <<op>> \o a
      n == IF key \in DOMAIN s.cnt THEN s.cnt[key] ELSE 0
      \* the k-th draw of a run yields s.da[k], where that is laid down
      ans == IF op \in Draws /\ Len(s.dr) < Len(s.da) THEN s.da[Len(s.dr) + 1] ELSE EnvAnswer(op, a, n)
      s1 == [s EXCEPT !.cnt = (key :> (n + 1)) @@ s.cnt]
  IN CASE op \in Draws -> [v |-> ans, s |-> [s1 EXCEPT !.dr = Append(s.dr, Append(key, ans))]]
       [] op = "Copy" ->
            IF ~GoodAddr(a[1], a[2]) \/ ~GoodAddr(a[3], a[4]) \/ ~GoodAddr("0", a[5])
            THEN [v |-> U, s |-> Stuck(s)]
            ELSE [v |-> "0",
                  s |-> [s EXCEPT !.tr = Append(s.tr, key),
                                  !.m = CopyMem(s.m, s.m, a[1], a[2], a[3], a[4], FToInt(a[5]))]]
       [] OTHER -> [v |-> ans, s |-> [s1 EXCEPT !.tr = Append(s.tr, key)]]

\* yield v, noting when it is unspecified
Yield(v, s) == [v |-> v, s |-> IF v = U THEN [s EXCEPT !.u = TRUE] ELSE s]

\* store w at <<b, i>> and yield v
Put(s, b, i, w, v) == [v |-> v, s |-> Wr(IF w = U THEN [s EXCEPT !.u = TRUE] ELSE s, b, i, w)]

Update(op, s, b, i, arg) ==
  LET old == Rd(s.m, b, i)
      new == PureOp(RmwBin(op), <<old, arg>>)
  IN Put(s, b, i, new, new)
Bump(op, s, b, i) ==
  LET old == Rd(s.m, b, i)
      inc == op \in {"IncrementPost", "IncrementPre", "IncrementPostShifted", "IncrementPreShifted",
                     "IncrementPostPointed", "IncrementPrePointed"}
      new == IF inc THEN A2(old, "1") ELSE B2(FSub, old, "1")
      post == op \in {"IncrementPost", "DecrementPost", "IncrementPostShifted", "DecrementPostShifted",
                      "IncrementPostPointed", "DecrementPostPointed"}
  IN Put(s, b, i, new, IF post THEN new ELSE old)   \* Post yields the new value, Pre the old one

\* An operation of the runtime applied to evaluated operands: memory operations, value
\* operations (eff = FALSE), and effects.
Native(op, a, z, eff) ==
  CASE op = "Set" -> Put(z, a[1], a[2], a[3], a[3])
    [] op = "SetShifted" -> Put(z, a[1], A2(a[2], B2(Mul, a[3], a[4])), a[5], a[5])
    [] op = "SetPointed" ->
         Put(z, Rd(z.m, a[1], a[2]), A2(Rd(z.m, a[1], A2(a[2], "1")), a[3]), a[4], a[4])
    [] op \in Rmw -> Update(op, z, a[1], a[2], a[3])
    [] op \in RmwS -> Update(op, z, a[1], A2(a[2], B2(Mul, a[3], a[4])), a[5])
    [] op \in RmwP ->
         Update(op, z, Rd(z.m, a[1], a[2]), A2(Rd(z.m, a[1], A2(a[2], "1")), a[3]), a[4])
    [] op \in IncDec -> Bump(op, z, a[1], a[2])
    [] op \in IncDecS -> Bump(op, z, a[1], A2(a[2], B2(Mul, a[3], a[4])))
    [] op \in IncDecP ->
         Bump(op, z, Rd(z.m, a[1], a[2]), A2(Rd(z.m, a[1], A2(a[2], "1")), a[3]))
    [] op = "Get" -> Yield(Rd(z.m, a[1], a[2]), z)
    [] op = "GetShifted" -> Yield(Rd(z.m, a[1], A2(a[2], B2(Mul, a[3], a[4]))), z)
    [] op = "GetPointed" ->
         Yield(Rd(z.m, Rd(z.m, a[1], a[2]), A2(Rd(z.m, a[1], A2(a[2], "1")), a[3])), z)
    [] ~eff -> Yield(PureOp(op, a), z)
    [] OTHER -> Effect(op, a, z)

------------------------------------------------------------------------------
(* SOURCE machine.                                                          *)
(* expr: [k |-> "c", v]  [k |-> "g", p]  [k |-> "s", p, e_]                   *)
(*       [k |-> "o", op, a, fx]      fx: this operation has an effect        *)
(*       e on every expression: an effect occurs somewhere inside it         *)
(* place: [k |-> "t", n, sz, i, o]  temporary n of size sz, index i + o      *)
(*        [k |-> "m", b, i, o]      block b (an expression), index i + o     *)

Scalar(sz) == sz = 1

RECURSIVE SEval(_, _)
SAddr(p, m) ==
  IF p.k = "t" THEN <<p.n, A2(SEval(p.i, m), p.o)>>
  ELSE <<SEval(p.b, m), A2(SEval(p.i, m), p.o)>>
InTemp(p, i) == i # U /\ FIsInt(i) /\ FLe("0", i) = "1" /\ FLt(i, FOfInt(p.sz)) = "1"
SRead(p, m) ==
  LET ad == SAddr(p, m)
  IN IF p.k = "t"
     THEN IF InTemp(p, ad[2]) /\ ad \in DOMAIN m THEN m[ad] ELSE U
     ELSE Rd(m, ad[1], ad[2])
SEval(e, m) ==
  CASE e.k = "c" -> e.v
    [] e.k = "g" -> SRead(e.p, m)
    [] OTHER -> PureOp(e.op, [i \in 1..Len(e.a) |-> SEval(e.a[i], m)])

\* An expression with effects inside (statement values, and graphs the compiler exports):
\* operands in order.  e.e marks the expressions that contain an effect.
RECURSIVE SValue(_, _)
RECURSIVE SPlace(_, _)
RECURSIVE SArgs(_, _, _, _)
SArgs(as, i, acc, s) ==
  IF i > Len(as) \/ s.x # "run" THEN [a |-> acc, s |-> s]
  ELSE LET r == SValue(as[i], s) IN SArgs(as, i + 1, Append(acc, r.v), r.s)
SValue(e, s) ==
  IF ~e.e THEN [v |-> SEval(e, s.m), s |-> s]
  ELSE IF e.k = "g"
  THEN LET r == SPlace(e.p, s)
       IN [v |-> IF e.p.k = "t"
                 THEN IF InTemp(e.p, r.ad[2]) /\ r.ad \in DOMAIN r.s.m THEN r.s.m[r.ad] ELSE U
                 ELSE Rd(r.s.m, r.ad[1], r.ad[2]), s |-> r.s]
  ELSE LET r == SArgs(e.a, 1, <<>>, s)
       IN IF r.s.x # "run" THEN [v |-> U, s |-> r.s] ELSE Native(e.op, r.a, r.s, e.fx)
SPlace(p, s) ==
  LET bb == IF p.k = "t" THEN [v |-> p.n, s |-> s] ELSE SValue(p.b, s)
      ii == SValue(p.i, bb.s)
  IN [ad |-> <<bb.v, A2(ii.v, p.o)>>, s |-> ii.s]

SStmt(e, s) ==
  CASE e.k = "s" ->
         LET pl == SPlace(e.p, s)
             ad == pl.ad
             rv == SValue(e.e_, pl.s)
         IN IF rv.s.x # "run" THEN rv.s
            ELSE IF e.p.k = "t"
                 THEN IF InTemp(e.p, ad[2]) THEN [rv.s EXCEPT !.m = (ad :> rv.v) @@ rv.s.m] ELSE Stuck(s)
                 ELSE Wr(rv.s, ad[1], ad[2], rv.v)
    [] e.k = "o" /\ e.op = "Break" ->
         [s EXCEPT !.x = "done", !.r = SEval(e.a[2], s.m)]
    [] e.k = "o" /\ e.fx -> SValue(e, s).s
    [] OTHER -> s

RECURSIVE SStmts(_, _, _)
SStmts(b, i, s) ==
  IF i > Len(b.s) \/ s.x # "run" THEN s ELSE SStmts(b, i + 1, SStmt(b.s[i], s))

\* Successor taken for test value t: the edge labelled with it, else the unlabelled one,
\* else the program ends (0).
SNext(b, t) ==
  LET hit == {j \in 1..Len(b.e) : b.e[j][1] # "none" /\ FEq(b.e[j][1], t) = "1"}
      dfl == {j \in 1..Len(b.e) : b.e[j][1] = "none"}
  IN IF hit # {} THEN b.e[CHOOSE j \in hit : TRUE][2]
     ELSE IF dfl # {} THEN b.e[CHOOSE j \in dfl : TRUE][2] ELSE 0

\* One block of the source program.  pc = 0 when it has ended.
SBlock(prog, pc, s) ==
  LET b == prog[pc]
      s1 == SStmts(b, 1, s)
  IN IF s1.x # "run" THEN [pc |-> 0, s |-> s1]
     ELSE IF Len(b.e) = 0 THEN [pc |-> 0, s |-> [s1 EXCEPT !.x = "done", !.r = "0"]]
     ELSE IF Len(b.e) = 1 /\ b.e[1][1] = "none" THEN [pc |-> b.e[1][2], s |-> s1]
     ELSE LET tt == SValue(b.t, s1)
              t == tt.v
              s2 == tt.s
          IN IF s2.x # "run" THEN [pc |-> 0, s |-> s2]
             ELSE IF t = U THEN [pc |-> 0, s |-> Stuck(s2)]
             ELSE LET n == SNext(b, t)
                  IN IF n = 0 THEN [pc |-> 0, s |-> [s2 EXCEPT !.x = "done", !.r = "0"]]
                     ELSE [pc |-> n, s |-> s2]

\* The whole program, in one step (used for graphs the compiler exports).
RECURSIVE SProgram(_, _, _)
SProgram(prog, pc, s) ==
  IF s.f = 0 THEN [s EXCEPT !.x = "fuel"]
  ELSE LET n == SBlock(prog, pc, [s EXCEPT !.f = @ - 1])
       IN IF n.pc = 0 THEN n.s ELSE SProgram(prog, n.pc, n.s)

------------------------------------------------------------------------------
(* ENGINE machine.  A program is a table N of nodes; children precede       *)
(* parents.  node: [f, v, a, p]: f = "" for the literal v, else function f  *)
(* of the nodes a; p: the node and everything below it is effect-free.      *)

RECURSIVE EPure(_, _, _)
EPure(N, n, m) ==
  LET nd == N[n] IN
  IF nd.f = "" THEN nd.v
  ELSE LET a == [i \in 1..Len(nd.a) |-> EPure(N, nd.a[i], m)] IN
    CASE nd.f = "Get" -> Rd(m, a[1], a[2])
      [] nd.f = "GetShifted" -> Rd(m, a[1], A2(a[2], B2(Mul, a[3], a[4])))
      [] nd.f = "GetPointed" -> Rd(m, Rd(m, a[1], a[2]), A2(Rd(m, a[1], A2(a[2], "1")), a[3]))
      [] nd.f \in {"Execute", "Block"} -> IF Len(a) = 0 THEN "0" ELSE a[Len(a)]
      [] nd.f = "Execute0" -> "0"
      [] OTHER -> PureOp(nd.f, a)

RECURSIVE ERun(_, _, _)
RECURSIVE EArgs(_, _, _, _, _)
EArgs(N, as, i, acc, s) ==
  IF i > Len(as) \/ s.x # "run" THEN [a |-> acc, s |-> s]
  ELSE LET r == ERun(N, as[i], s) IN EArgs(N, as, i + 1, Append(acc, r.v), r.s)

RECURSIVE ESeq(_, _, _, _, _)
ESeq(N, as, i, v, s) ==
  IF i > Len(as) \/ s.x # "run" THEN [v |-> v, s |-> s]
  ELSE LET r == ERun(N, as[i], s) IN ESeq(N, as, i + 1, r.v, r.s)

RECURSIVE ELoop(_, _, _, _)
ELoop(N, as, i, s) ==           \* JumpLoop, about to run operand i (from 1)
  IF s.f = 0 THEN [v |-> U, s |-> [s EXCEPT !.x = "fuel"]]
  ELSE IF i < 1 \/ i > Len(as) THEN [v |-> "0", s |-> s]
  ELSE LET r == ERun(N, as[i], [s EXCEPT !.f = @ - 1]) IN
       IF r.s.x # "run" \/ i = Len(as) THEN r
       ELSE IF r.v = U \/ ~FIsInt(r.v) THEN [v |-> U, s |-> Stuck(r.s)]
       ELSE ELoop(N, as, FToInt(r.v) + 1, r.s)

RECURSIVE EWhile(_, _, _, _)
EWhile(N, test, body, s) ==
  IF s.f = 0 THEN [v |-> U, s |-> [s EXCEPT !.x = "fuel"]]
  ELSE LET t == ERun(N, test, [s EXCEPT !.f = @ - 1]) IN
       IF t.s.x # "run" THEN t
       ELSE IF t.v = U THEN [v |-> U, s |-> Stuck(t.s)]
       ELSE IF ~Truthy(t.v) THEN [v |-> "0", s |-> t.s]
       ELSE LET b == ERun(N, body, t.s) IN
            IF b.s.x # "run" THEN b ELSE EWhile(N, test, body, b.s)

RECURSIVE EShort(_, _, _, _, _)
EShort(N, as, i, stop, s) ==    \* And (stop on zero) / Or (stop on nonzero)
  LET r == ERun(N, as[i], s) IN
  IF r.s.x # "run" \/ i = Len(as) THEN r
  ELSE IF r.v = U THEN [v |-> U, s |-> Stuck(r.s)]
  ELSE IF (r.v = "0") = stop THEN r
  ELSE EShort(N, as, i + 1, stop, r.s)

RECURSIVE EKey(_, _, _, _, _, _)
EKey(N, as, t, i, last, s) ==   \* operand index of the selected arm, 0 for none
  IF i + 1 > last THEN [v |-> 0, s |-> s]
  ELSE LET k == ERun(N, as[i], s) IN
       IF k.s.x # "run" THEN [v |-> 0, s |-> k.s]
       ELSE IF k.v # U /\ FEq(t, k.v) = "1" THEN [v |-> i + 1, s |-> k.s]
       ELSE EKey(N, as, t, i + 2, last, k.s)

Arm(N, as, k, s) == IF k = 0 THEN [v |-> "0", s |-> s] ELSE ERun(N, as[k], s)

ERun(N, n, s) ==
  LET nd == N[n] IN
  IF nd.f = "" THEN [v |-> nd.v, s |-> s]
  ELSE IF nd.p THEN [v |-> EPure(N, n, s.m), s |-> s]
  ELSE
  CASE nd.f = "Execute" -> ESeq(N, nd.a, 1, "0", s)
    [] nd.f = "If" ->
         LET t == ERun(N, nd.a[1], s) IN
         IF t.s.x # "run" THEN t
         ELSE IF t.v = U THEN [v |-> U, s |-> Stuck(t.s)]
         ELSE ERun(N, nd.a[IF Truthy(t.v) THEN 2 ELSE 3], t.s)
    [] nd.f = "Block" ->
         LET r == ERun(N, nd.a[1], s) IN
         IF r.s.x # "brk" THEN r
         ELSE IF r.s.bn > 1 THEN [v |-> U, s |-> [r.s EXCEPT !.bn = @ - 1]]
         ELSE [v |-> r.s.r, s |-> [r.s EXCEPT !.x = "run"]]
    [] nd.f = "JumpLoop" -> ELoop(N, nd.a, 1, s)
    [] nd.f = "Execute0" -> LET r == ESeq(N, nd.a, 1, "0", s) IN [r EXCEPT !.v = "0"]
    [] nd.f \in {"SwitchInteger", "SwitchIntegerWithDefault", "Switch", "SwitchWithDefault"} ->
         LET t == ERun(N, nd.a[1], s) IN
         IF t.s.x # "run" THEN t
         ELSE IF t.v = U THEN [v |-> U, s |-> Stuck(t.s)]
         ELSE CASE nd.f = "SwitchInteger" ->
                     LET k == IntArm(t.v, Len(nd.a) - 1) IN Arm(N, nd.a, IF k = 0 THEN 0 ELSE k + 1, t.s)
                [] nd.f = "SwitchIntegerWithDefault" ->
                     LET k == IntArm(t.v, Len(nd.a) - 2)
                     IN Arm(N, nd.a, IF k = 0 THEN Len(nd.a) ELSE k + 1, t.s)
                [] nd.f = "Switch" ->
                     LET k == EKey(N, nd.a, t.v, 2, Len(nd.a), t.s)
                     IN IF k.s.x # "run" THEN k ELSE Arm(N, nd.a, k.v, k.s)
                [] OTHER ->
                     LET k == EKey(N, nd.a, t.v, 2, Len(nd.a) - 1, t.s)
                     IN IF k.s.x # "run" THEN k ELSE Arm(N, nd.a, IF k.v = 0 THEN Len(nd.a) ELSE k.v, k.s)
    [] nd.f = "And" -> IF Len(nd.a) = 0 THEN [v |-> "0", s |-> s] ELSE EShort(N, nd.a, 1, TRUE, s)
    [] nd.f = "Or" -> IF Len(nd.a) = 0 THEN [v |-> "0", s |-> s] ELSE EShort(N, nd.a, 1, FALSE, s)
    [] nd.f = "While" -> EWhile(N, nd.a[1], nd.a[2], s)
    [] nd.f = "DoWhile" ->
         LET b == ERun(N, nd.a[1], s) IN
         IF b.s.x # "run" THEN b ELSE EWhile(N, nd.a[2], nd.a[1], b.s)
    [] OTHER ->
         LET r == EArgs(N, nd.a, 1, <<>>, s)
             a == r.a
             z == r.s
         IN IF z.x # "run" THEN [v |-> U, s |-> z]
            ELSE
            IF nd.f = "Break"
            THEN IF a[1] = U \/ ~FIsInt(a[1]) THEN [v |-> U, s |-> Stuck(z)]
                 ELSE [v |-> U, s |-> [z EXCEPT !.x = "brk", !.bn = FToInt(a[1]), !.r = a[2]]]
            ELSE Native(nd.f, a, z, ~nd.p0)

Mem0(env) == [key \in {<<env[i][1], env[i][2]>> : i \in 1..Len(env)} |->
                LET i == CHOOSE i \in 1..Len(env) : <<env[i][1], env[i][2]>> = key IN env[i][3]]
State0(env, fuel) == [m |-> Mem0(env), tr |-> <<>>, dr |-> <<>>, cnt |-> <<>>, da |-> <<>>,
                      x |-> "run", bn |-> 0, r |-> "0", f |-> fuel, u |-> FALSE]

EProgram(N, root, s) ==
  IF ~WellFormed(N) THEN [s EXCEPT !.x = "malformed"]
  ELSE LET r == ERun(N, root, s)
  IN IF r.s.x = "run" THEN [r.s EXCEPT !.x = "done", !.r = r.v] ELSE r.s
=============================================================================
