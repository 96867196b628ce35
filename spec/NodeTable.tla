------------------------------ MODULE NodeTable ------------------------------
(***************************************************************************)
(* The node table of a packaged engine: a list of literals and of function *)
(* applications to earlier entries, into which programs are entered one    *)
(* after the other.  Entering a program yields the index of its root.      *)
(*                                                                         *)
(* Here as a state machine with an abstract adder (Enter), whose           *)
(* invariants TLC checks over every history of small programs; the same    *)
(* invariants judge the histories observed in NodeTableTrace.  The module  *)
(* also hands out its histories, which are replayed into the code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* an entry: [f, v, a]; f = "" for the literal v.  Indices are 0-based in programs and tables.
Lit(v) == [f |-> "", v |-> v, a |-> <<>>]
App(f, a) == [f |-> f, v |-> "", a |-> a]

\* every operand is an earlier entry
Ordered(T) == \A i \in 1..Len(T) : \A j \in 1..Len(T[i].a) : T[i].a[j] \in 0..(i - 2)
\* equal nodes are stored once
Unique(T) == Cardinality({T[i] : i \in 1..Len(T)}) = Len(T)
\* where in T each entry of the program P (a table of its own) is; -1: nowhere
RECURSIVE Locate(_, _, _, _)
Locate(T, P, i, m) ==
  IF i > Len(P) THEN m
  ELSE LET e == [P[i] EXCEPT !.a = [j \in 1..Len(P[i].a) |-> m[P[i].a[j] + 1]]]
           hit == {k \in 1..Len(T) : T[k] = e}
       IN Locate(T, P, i + 1, Append(m, IF hit = {} THEN -1 ELSE (CHOOSE k \in hit : TRUE) - 1))

\* the program a table means at an index, as a nested term
RECURSIVE Decode(_, _)
Decode(T, k) == IF T[k + 1].f = "" THEN <<T[k + 1].v>>
                ELSE <<T[k + 1].f>> \o [j \in 1..Len(T[k + 1].a) |-> Decode(T, T[k + 1].a[j])]

\* ---- the adder, abstractly: children first, known nodes reused -------------------------------
RECURSIVE Enter(_, _)
RECURSIVE EnterArgs(_, _, _, _)
EnterArgs(T, as, i, acc) ==
  IF i > Len(as) THEN [t |-> T, a |-> acc]
  ELSE LET r == Enter(T, as[i]) IN EnterArgs(r.t, as, i + 1, Append(acc, r.k))
Enter(T, term) ==
  LET r == IF Len(term) = 1 /\ term[1] \in {"0", "1"} THEN [t |-> T, e |-> Lit(term[1])]
           ELSE LET z == EnterArgs(T, Tail(term), 1, <<>>) IN [t |-> z.t, e |-> App(term[1], z.a)]
      hit == {k \in 1..Len(r.t) : r.t[k] = r.e}
  IN IF hit # {} THEN [t |-> r.t, k |-> (CHOOSE k \in hit : TRUE) - 1]
     ELSE [t |-> Append(r.t, r.e), k |-> Len(r.t)]

\* ---- small programs ---------------------------------------------------------------------------
Leaves == {<<"0">>, <<"1">>}
Fns == {"Add", "Execute"}
Grow(S) == S \cup {<<f>> : f \in Fns} \cup {<<f, x>> : f \in Fns, x \in S} \cup {<<f, x, y>> : f \in Fns, x \in S, y \in S}
T1 == Grow(Leaves)
T2 == Grow(T1)

VARIABLES tab, hist
vars == <<tab, hist>>
Init == tab = <<>> /\ hist = <<>>
Choices == IF Len(hist) = 0 THEN T2 ELSE IF Len(hist) = 1 THEN T1 ELSE Leaves \cup {<<"Add", <<"1">>, <<"0">>>>}
Add(t) == LET r == Enter(tab, t) IN tab' = r.t /\ hist' = Append(hist, [t |-> t, k |-> r.k])
Next == Len(hist) < 3 /\ \E t \in Choices : Add(t)
Spec == Init /\ [][Next]_vars

Decodes == \A i \in 1..Len(hist) : Decode(tab, hist[i].k) = hist[i].t
Inv == Ordered(tab) /\ Unique(tab) /\ Decodes
Extends == [][Len(tab') >= Len(tab) /\ SubSeq(tab', 1, Len(tab)) = tab]_vars
Emit == Len(hist) = 3 => PrintT(<<"HIST", ToJson([i \in 1..3 |-> hist[i].t])>>)
=============================================================================
