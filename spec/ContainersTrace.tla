--------------------------- MODULE ContainersTrace ---------------------------
(* What the code's containers did over histories of operations, interpreted *)
(* and compiled, judged by Containers.tla.                                  *)
EXTENDS Containers, IOUtils

File == IOEnv.CON_CASES
Cases == JsonDeserialize(File)

VARIABLES c, r, i, S, on
vars == <<c, r, i, S, on>>
Tally(k, n) == TLCSet(k, TLCGet(k) + n)

Width(D) == IF D.fam = "map" \/ D.fam = "lit" THEN KeyW(D) + (IF D.kind = "none" THEN 0 ELSE IF D.kind = "num" THEN 1 ELSE 2)
            ELSE IF D.kind = "num" THEN 1 ELSE 2
Zeros(D) == [j \in 1..D.cap |-> IF D.kind = "num" THEN <<0>> ELSE <<0, 0>>]
Start(C) == LET D == C.D IN
  IF D.fam \in {"fix", "rev", "ring", "ptr"} THEN [v |-> Zeros(D), w |-> Zeros(D)]
  ELSE IF D.fam \in {"lit", "link"} THEN [v |-> C.v, w |-> <<>>] ELSE [v |-> <<>>, w |-> <<>>]

Init == /\ \A k \in 1..4 : TLCSet(k, 0)
        /\ c \in 1..Len(Cases) /\ r \in 1..Len(Cases[c].runs)
        /\ i = 1 /\ S = Start(Cases[c]) /\ on = TRUE

Shape(D, s) == Len(s.v) % Width(D) = 0 /\ Len(s.w) % Width(D) = 0
\* what the step shows; containers whose contents cannot change are not shown again
Seen(D, s) == IF D.fam \in {"lit", "link"} THEN S
              ELSE [v |-> Chop(s.v, Width(D)), w |-> IF D.fam \in {"rev", "ring", "ptr"} THEN S.w
                                                     ELSE Chop(s.w, Width(D))]
Verdict(C, R) ==
  LET D == C.D
      o == C.ops[i]
      fails == Fails(D, o, S)
      gone == i > Len(R.steps)
  IN CASE fails /\ gone /\ R.end = "error" -> "error"
       [] fails -> "an operation that must be reported as an error is carried out"
       [] gone -> "an operation fails or never ends"
       [] ~Shape(D, R.steps[i]) -> "the contents are torn"
       [] ~Ok(D, o, S, R.steps[i].out, Seen(D, R.steps[i])) -> "the result or the contents are wrong"
       [] OTHER -> "ok"

Next ==
  /\ on /\ i <= Len(Cases[c].ops)
  /\ LET C == Cases[c]
         R == C.runs[r]
         v == Verdict(C, R)
     IN /\ IF v \in {"ok", "error"} THEN TRUE
           ELSE PrintT(<<"FAIL", ToJson([id |-> C.id, cfg |-> R.cfg, step |-> i, op |-> C.ops[i], clause |-> v, state |-> S,
                  seen |-> IF i > Len(R.steps) THEN [end |-> R.end] ELSE R.steps[i]])>>) /\ Tally(2, 1)
        /\ on' = (v = "ok")
        /\ S' = IF v = "ok" THEN Seen(C.D, R.steps[i]) ELSE S
        /\ i' = i + 1
        /\ Tally(1, 1) /\ Tally(3, IF v = "error" THEN 1 ELSE 0)
        /\ IF v = "ok" /\ i = Len(C.ops) /\ R.end # "ok"
           THEN PrintT(<<"FAIL", ToJson([id |-> C.id, cfg |-> R.cfg, step |-> i, clause |-> "the program does not end"])>>) /\ Tally(2, 1) ELSE TRUE
  /\ UNCHANGED <<c, r>>
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"STATS", ToJson([operations |-> TLCGet(1), failed |-> TLCGet(2), errors |-> TLCGet(3)])>>)
=============================================================================
