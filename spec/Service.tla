-------------------------------- MODULE Service --------------------------------
(***************************************************************************)
(* The compiler as a service used by several threads of a process: each    *)
(* request names a program, a level, and how the program was put together  *)
(* (v: 1 the very graph already compiled before, 2 a fresh copy, 3 a fresh *)
(* copy whose blocks and edges were created in another order).  The answer *)
(* to a request is a function of program and level alone, and the graph    *)
(* handed in is the same afterwards.                                       *)
(*                                                                         *)
(* Simulated by TLC, this module generates the histories that are replayed *)
(* against the code under test in several processes; ServiceTrace accepts  *)
(* or rejects what they observed.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS Threads, Programs, Len0

VARIABLES busy, h
vars == <<busy, h>>

Idle == [p |-> 0]

Init == busy = [t \in 1..Threads |-> Idle] /\ h = <<>>

Begin(t) ==
  /\ busy[t] = Idle
  /\ \E p \in 1..Programs, l \in 1..3, v \in 1..3 :
       \* a graph is in the hands of one compilation at a time, unless it is only read
       /\ busy' = [busy EXCEPT ![t] = [p |-> p, l |-> l, v |-> v]]
       /\ h' = Append(h, [a |-> "begin", t |-> t, p |-> p, l |-> l, v |-> v])
End(t) ==
  /\ busy[t] # Idle
  /\ busy' = [busy EXCEPT ![t] = Idle]
  /\ h' = Append(h, [a |-> "end", t |-> t, p |-> busy[t].p, l |-> busy[t].l, v |-> busy[t].v])

Finish == Len(h) >= Len0 /\ \A t \in 1..Threads : busy[t] = Idle

Next == /\ ~Finish
        /\ IF Len(h) >= Len0 THEN \E t \in 1..Threads : End(t)
           ELSE \E t \in 1..Threads : Begin(t) \/ End(t)
Spec == Init /\ [][Next]_vars

Emit == Finish => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
