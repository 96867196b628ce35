---------------------------------- MODULE PY -----------------------------------
(***************************************************************************)
(* Conformance of compilation to the meaning of the source: each case is a *)
(* program with the numbers it is run on, what Python printed, and the     *)
(* engine programs it was compiled to (one per configuration).  PyCore     *)
(* says what is to be printed; Machine says what each engine program       *)
(* prints.                                                                 *)
(***************************************************************************)
EXTENDS Machine, PyCore, Json, IOUtils


Cases == JsonDeserialize(IOEnv.PY_CASES)

VARIABLES c, r, ph
vars == <<c, r, ph>>

Tally(i, n) == TLCSet(i, TLCGet(i) + n)

Init == /\ \A i \in 1..8 : TLCSet(i, 0)
        /\ c \in 1..Len(Cases)
        /\ r \in 1..Len(Cases[c].runs)
        /\ ph = "run"

Logs(tr) == LET l == SelectSeq(tr, LAMBDA e : e[1] = "DebugLog") IN [i \in 1..Len(l) |-> l[i][2]]

Env(run, prog) ==
  [i \in 1..Len(run.a) |-> <<"2000", FOfInt(i - 1), run.a[i]>>]
  \o [i \in 1..Len(prog.rom) |-> <<"3000", FOfInt(i - 1), prog.rom[i]>>]

Compiled(run, prog) == EProgram(prog.nodes, prog.root, State0(Env(run, prog), 40000))

\* got: what plain Python did
Plain(s, got) ==
  CASE s.sg = "run" /\ got.end = "ok" /\ got.log = s.tr -> "ok"
    [] s.sg = "halt" /\ got.end = "raised" /\ got.log = s.tr -> "ok"
    [] OTHER -> "run as Python it prints something else"
Engine(s, prog, e) ==
  CASE s.sg = "halt" /\ prog.checks = "none" -> "skip"
    [] e.x = "malformed" -> "the compiled program is malformed"
    [] e.x = "fuel" -> "the compiled program does not terminate"
    [] e.x \in {"stuck", "temp-overflow"} -> "the compiled program depends on an unspecified value"
    [] Logs(e.tr) # s.tr -> "the compiled program prints something else"
    [] s.sg = "run" /\ e.x # "done" -> "the compiled program breaks off"
    [] OTHER -> "ok"

Fail(what, cfg, s, log) ==
  /\ Tally(5, 1)
  /\ PrintT(<<"FAIL", ToJson([id |-> Cases[c].id, clause |-> what, cfg |-> cfg, a |-> Cases[c].runs[r].a, sg |-> s.sg,
                              want |-> s.tr, got |-> log])>>)

Run == /\ ph = "run"
       /\ LET run == Cases[c].runs[r]
              s == Main(Cases[c].P, run.a, 6000)
          IN IF s.sg \in {"fuel", "stuck"}
             THEN Tally(2, 1) /\ ph' = s.sg
             ELSE /\ Tally(1, 1) /\ Tally(3, Len(s.tr))
                  /\ s.sg = "halt" => Tally(6, 1)
                  /\ LET p == Plain(s, run.py)
                     IN p # "ok" => Fail(p, "plain", s, run.py.log)
                  /\ \A k \in 1..Len(Cases[c].progs) :
                       LET prog == Cases[c].progs[k]
                           e == Compiled(run, prog)
                           v == Engine(s, prog, e)
                       IN CASE v = "ok" -> Tally(4, 1)
                            [] v = "skip" -> TRUE
                            [] OTHER -> Fail(v, prog.cfg, s, Logs(e.tr))
                  /\ ph' = s.sg
       /\ UNCHANGED <<c, r>>
Next == Run
Spec == Init /\ [][Next]_vars

Accepted == PrintT(<<"STATS", ToJson([agreed |-> TLCGet(1), skipped |-> TLCGet(2), events |-> TLCGet(3),
                                      compiled |-> TLCGet(4), failed |-> TLCGet(5), halted |-> TLCGet(6)])>>)
=============================================================================
