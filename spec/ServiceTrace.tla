----------------------------- MODULE ServiceTrace -----------------------------
(***************************************************************************)
(* Acceptor for observed histories of Service: every answer must be the    *)
(* one first given for the same program and level, in whatever process,    *)
(* thread, order or form it was asked, and the input graph is unchanged.   *)
(* An event: [a, t, p, l, v, run] and for "end" also out (digest of the    *)
(* emitted program), inb and ina (digest of the graph before and after).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Events == JsonDeserialize(IOEnv.SERVICE_TRACE)

VARIABLES i, memo, graph, bad
vars == <<i, memo, graph, bad>>

Tally(k, n) == TLCSet(k, TLCGet(k) + n)
Init == /\ i = 1 /\ memo = <<>> /\ graph = <<>> /\ bad = 0
        /\ \A k \in 1..4 : TLCSet(k, 0)

Fail(clause, e, was) == /\ PrintT(<<"FAIL", ToJson([clause |-> clause, event |-> e, expected |-> was])>>)
                        /\ Tally(2, 1)
Next ==
  /\ i <= Len(Events)
  /\ LET e == Events[i]
         req == <<e.p, e.l>>
         v == IF e.a # "end" THEN "ok"
              ELSE IF e.inb # e.ina THEN "the program handed in was modified"
              ELSE IF e.p \in DOMAIN graph /\ graph[e.p] # e.ina THEN "the program handed in was modified"
              ELSE IF req \in DOMAIN memo /\ memo[req] # e.out THEN "the same request got another answer"
              ELSE "ok"
     IN /\ IF v = "ok" THEN bad' = bad
           ELSE bad' = bad + 1 /\ Fail(v, e, IF req \in DOMAIN memo THEN memo[req] ELSE "")
        /\ memo' = IF e.a = "end" /\ req \notin DOMAIN memo THEN (req :> e.out) @@ memo ELSE memo
        /\ graph' = IF e.a = "end" /\ e.p \notin DOMAIN graph THEN (e.p :> e.inb) @@ graph ELSE graph
        /\ IF e.a = "end" THEN Tally(1, 1) /\ (IF req \in DOMAIN memo THEN Tally(3, 1) ELSE TRUE) ELSE TRUE
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"STATS", ToJson([answers |-> TLCGet(1), failed |-> TLCGet(2), repeated |-> TLCGet(3)])>>)
=============================================================================
