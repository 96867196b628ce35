---------------------------------- MODULE INT ----------------------------------
(***************************************************************************)
(* Conformance of the reference interpreter to the engine machine: each    *)
(* case is an engine program, an initial memory, and what the interpreter  *)
(* reported for it (result, final memory, log, or that it gave up).        *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

Cases == JsonDeserialize(IOEnv.INT_CASES)

VARIABLES c, s, ph
vars == <<c, s, ph>>

Tally(i, n) == TLCSet(i, TLCGet(i) + n)

Fuel == 2000

Init == /\ \A i \in 1..6 : TLCSet(i, 0)
        /\ c \in 1..Len(Cases)
        /\ s = State0(Cases[c].env, Fuel)
        /\ ph = "run"

\* tol: values of functions libraries may round differently are compared approximately
Same(tol, x, y) ==
  \/ x = y
  \/ tol # "exact" /\ y # U /\ (FNear(x, y, 64) \/ (tol = "ease" /\ FClose(x, y, 64)))

Logs(tr) == LET l == SelectSeq(tr, LAMBDA e : e[1] = "DebugLog") IN [i \in 1..Len(l) |-> l[i][2]]

\* The interpreter's final memory, cell by cell: the machine agrees on every cell it lists, and
\* every cell the machine wrote is listed.
MemOk(e, got) ==
  LET G == {<<got[i][1], got[i][2]>> : i \in 1..Len(got)}
  IN /\ \A i \in 1..Len(got) : Rd(e.m, got[i][1], got[i][2]) = got[i][3]
     /\ DOMAIN e.m \subseteq G

Verdict(tol, e, got) ==
  CASE e.x \in {"fuel", "stuck", "malformed"} \/ e.u -> "skip"
    [] got.out = "skip" -> "skip"
    [] e.x = "brk" -> IF got.out = "break" THEN "ok" ELSE "a break out of the program is not reported"
    [] got.out = "raised" -> "gives up on a program without unspecified values"
    [] got.out = "hangs" -> "does not terminate"
    [] got.out # "ok" -> "breaks out of the program"
    [] ~Same(tol, got.r, e.r) -> "result differs"
    [] got.log # Logs(e.tr) -> "log differs"
    [] ~MemOk(e, got.mem) -> "memory differs"
    [] OTHER -> "ok"

Run == /\ ph = "run"
       /\ LET e == EProgram(Cases[c].nodes, Cases[c].root, s)
              v == Verdict(Cases[c].tol, e, Cases[c].got)
          IN /\ s' = e /\ ph' = v
             /\ CASE v = "ok" -> Tally(1, 1) /\ Tally(3, Len(e.tr))
                  [] v = "skip" -> Tally(2, 1)
                  [] OTHER -> /\ Tally(4, 1)
                              /\ PrintT(<<"FAIL", ToJson([id |-> Cases[c].id, clause |-> v, got |-> Cases[c].got,
                                             r |-> e.r, log |-> Logs(e.tr), tr |-> e.tr])>>)
       /\ UNCHANGED c
Next == Run
Spec == Init /\ [][Next]_vars

Accepted == PrintT(<<"STATS", ToJson([agreed |-> TLCGet(1), skipped |-> TLCGet(2), events |-> TLCGet(3), failed |-> TLCGet(4)])>>)
=============================================================================
