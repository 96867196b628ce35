---------------------------- MODULE NodeTableTrace ----------------------------
(***************************************************************************)
(* Acceptor for observed histories of a node table.  An observed step has  *)
(* the program entered (prog: its own table, root last or named), the      *)
(* index returned, the entries appended, and the entries found changed.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, NodeTable

Cases == JsonDeserialize(IOEnv.NT_CASES)

VARIABLES c, i, T
tvars == <<c, i, T>>

Tally(k, n) == TLCSet(k, TLCGet(k) + n)
TInit == /\ \A k \in 1..4 : TLCSet(k, 0)
         /\ c \in 1..Len(Cases) /\ i = 1 /\ T = <<>>
         /\ tab = <<>> /\ hist = <<>>

Changed(t, ch) == [j \in 1..Len(t) |-> LET h == {x \in 1..Len(ch) : ch[x].k = j - 1}
                                       IN IF h = {} THEN t[j] ELSE ch[CHOOSE x \in h : TRUE].e]
At(T2_, s) == Locate(T2_, s.prog, 1, <<>>)[s.root + 1]
Verdict(T2_, steps, n, ch) ==
  IF ~Ordered(T2_) THEN "a reference to a later entry"
  ELSE IF ~Unique(T2_) THEN "equal nodes stored more than once"
  ELSE IF At(T2_, steps[n]) # steps[n].idx THEN "the index does not decode to the program entered"
  ELSE IF ch # <<>> /\ \E j \in 1..(n - 1) : At(T2_, steps[j]) # steps[j].idx
       THEN "an earlier index decodes differently after a later addition"
  ELSE "ok"

TNext ==
  /\ i <= Len(Cases[c].steps)
  /\ LET s == Cases[c].steps[i]
         n == Changed(T, s.changed) \o s.new
         v == IF s.size # Len(n) THEN "the table shrank" ELSE Verdict(n, Cases[c].steps, i, s.changed)
     IN /\ IF v = "ok" THEN TRUE
           ELSE /\ PrintT(<<"FAIL", ToJson([id |-> Cases[c].id, step |-> i, clause |-> v, prog |-> s.prog, idx |-> s.idx])>>)
                /\ Tally(2, 1)
        /\ T' = n /\ i' = IF v = "ok" THEN i + 1 ELSE Len(Cases[c].steps) + 1
        /\ Tally(1, 1) /\ Tally(3, Len(s.prog)) /\ Tally(4, Len(s.new))
  /\ UNCHANGED <<c, tab, hist>>
TSpec == TInit /\ [][TNext]_<<c, i, T, tab, hist>>
Accepted == PrintT(<<"STATS", ToJson([additions |-> TLCGet(1), failed |-> TLCGet(2), nodes |-> TLCGet(3), entries |-> TLCGet(4)])>>)
=============================================================================
